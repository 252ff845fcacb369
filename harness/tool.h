// runs the command line tools; writes model files
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include "core/analysis/perceptron.h"
#include "core/impl/model_io.h"
#include "core/impl/perceptron_io.h"
#include "jumandic.h"
#include "pbt.h"
#include "util/serialization.h"

namespace tool {
using namespace jd;
typedef std::vector<std::string> Args;

inline std::string exeDir() {
  char b[4096];
  ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1);
  std::string s(b, n > 0 ? n : 0);
  return s.substr(0, s.rfind('/'));
}
struct Ran {
  std::string out, err;
  int code = 0;     // exit status, -1 = signal
  int signal = 0;
  bool late = false;
  bool sanitizer() const { return err.find("Sanitizer") != std::string::npos || err.find("runtime error:") != std::string::npos; }
};
// input is given through a file, which becomes the standard input
inline Ran run(Ctx& c, const std::string& exe, const Args& args, const std::string& input = "", const std::string& dir = "", bool fullStdout = false) {
  std::string fin = pbt::scratchFile(c, "tool.in"), fout = pbt::scratchFile(c, "tool.out"), ferr = pbt::scratchFile(c, "tool.err");
  std::string cwd = dir.empty() ? c.tmpdir : dir;
  pbt::writeFile(fin, input);
  unlink(fout.c_str()), unlink(ferr.c_str());
  std::string path = exe[0] == '/' ? exe : exeDir() + "/" + exe;
  std::vector<const char*> argv{path.c_str()};
  for (auto& a : args) argv.push_back(a.c_str());
  argv.push_back(nullptr);
  std::string home = "HOME=" + c.tmpdir + "/home";
  const char* env[] = {"PATH=/usr/bin:/bin", "LANG=C.UTF-8", home.c_str(), "ASAN_OPTIONS=detect_leaks=0:exitcode=86:abort_on_error=0:allocator_may_return_null=1", "UBSAN_OPTIONS=exitcode=86", nullptr};
  pid_t p = fork();
  if (p == 0) {
    int a = open(fin.c_str(), O_RDONLY), b = open(fullStdout ? "/dev/full" : fout.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), d = open(ferr.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (a < 0 || b < 0 || d < 0 || chdir(cwd.c_str()) != 0) _exit(126);
    dup2(a, 0), dup2(b, 1), dup2(d, 2);
    for (int i = 3; i < 64; ++i) close(i);
    rlimit r{20, 20};
    setrlimit(RLIMIT_CPU, &r);
    rlimit f{64u << 20, 64u << 20};
    setrlimit(RLIMIT_FSIZE, &f);
    rlimit co{0, 0};
    setrlimit(RLIMIT_CORE, &co);
    signal(SIGXFSZ, SIG_DFL);
    execve(path.c_str(), const_cast<char**>(argv.data()), const_cast<char**>(env));
    _exit(127);
  }
  Ran r;
  int st = 0;
  timespec t0;
  clock_gettime(CLOCK_MONOTONIC, &t0);
  for (;;) {
    pid_t q = waitpid(p, &st, WNOHANG);
    if (q == p) break;
    timespec t1;
    clock_gettime(CLOCK_MONOTONIC, &t1);
    if (t1.tv_sec - t0.tv_sec > 100) {  // of wall clock: far more than the limit of CPU time
      r.late = true;
      kill(p, SIGKILL);
      waitpid(p, &st, 0);
      break;
    }
    usleep(500);
  }
  if (WIFEXITED(st)) r.code = WEXITSTATUS(st);
  else r.code = -1, r.signal = WTERMSIG(st);
  if (!fullStdout) r.out = pbt::readFile(fout);
  r.err = pbt::readFile(ferr);
  PCHECK(c, r.code != 126 && r.code != 127, "the program could not be started");
  return r;
}
// the program ended by itself and without memory errors
inline void sane(Ctx& c, const Ran& r, const std::string& what) {
  PCHECK(c, !r.late && r.signal != SIGXCPU && r.signal != SIGKILL && r.signal != SIGXFSZ, what << " does not end; error output " << quote(r.err.substr(0, 2000)));
  PCHECK(c, r.signal == 0, what << " is killed by the signal " << r.signal << ": " << quote(r.err.substr(0, 2000)));
  PCHECK(c, !r.sanitizer() && r.code != 86, what << ": " << r.err.substr(0, 6000));
}

// a model file with the dictionary and the weights
template <typename M>
inline void writeModel(Ctx& c, M& m, const std::vector<float>& weights, const std::string& file, bool perceptron = true) {
  namespace md = core::model;
  md::ModelInfo info;
  md::ModelPart d;
  WOK(c, m.builder.fillModelPart(&d, "dictionary"), "fillModelPart");
  info.parts.push_back(d);
  util::CodedBuffer hdr;
  if (perceptron) {
    core::PerceptronInfo pi{0};
    while ((size_t(1) << pi.modelSizeExponent) < weights.size()) ++pi.modelSizeExponent;
    util::serialization::Saver sv{&hdr};
    sv.save(pi);
    md::ModelPart p;
    p.kind = md::ModelPartKind::Perceprton;
    p.comment = "weights";
    p.data.push_back(hdr.contents());
    p.data.push_back(StringPiece((const char*)weights.data(), weights.size() * sizeof(float)));
    info.parts.push_back(p);
  }
  unlink(file.c_str());
  md::ModelSaver s;
  WOK(c, s.open(file), "ModelSaver.open");
  WOK(c, s.save(info), "ModelSaver.save");
}
}  // namespace tool
