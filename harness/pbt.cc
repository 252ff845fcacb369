#include "pbt.h"
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <fstream>
#include <iostream>
#include <set>
#include <unordered_set>

extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:exitcode=66:allocator_may_return_null=0:"
         "max_allocation_size_mb=3000:hard_rss_limit_mb=3500:"
         "detect_stack_use_after_return=0:quarantine_size_mb=16:"
         "malloc_context_size=12:handle_abort=1";
}
extern "C" const char* __ubsan_default_options() {
  return "print_stacktrace=1:halt_on_error=1:exitcode=66";
}

namespace pbt {

u64* gRecBuf = nullptr;
size_t gRecCap = 0;

std::string quote(const std::string& s) {
  std::string r = "\"";
  char buf[8];
  for (size_t i = 0; i < s.size(); ++i) {
    unsigned char c = s[i];
    if (c == '"' || c == '\\') {
      r += '\\';
      r += (char)c;
    } else if (c == '\n') {
      r += "\\n";
    } else if (c < 0x20 || c == 0x7f) {
      snprintf(buf, 8, "\\x%02x", c);
      r += buf;
    } else {
      r += (char)c;
    }
  }
  return r + "\"";
}

static std::string jsonStr(const std::string& s) {
  // valid UTF-8 is kept, everything else is escaped as \u00XX text
  std::string r = "\"";
  char buf[16];
  for (size_t i = 0; i < s.size();) {
    unsigned char c = s[i];
    if (c == '"' || c == '\\') {
      r += '\\';
      r += (char)c;
      ++i;
    } else if (c < 0x20 || c == 0x7f) {
      snprintf(buf, 16, "\\u%04x", c);
      r += buf;
      ++i;
    } else if (c < 0x80) {
      r += (char)c;
      ++i;
    } else {
      int n = (c >= 0xc2 && c < 0xe0) ? 2 : (c >= 0xe0 && c < 0xf0) ? 3 : (c >= 0xf0 && c < 0xf5) ? 4 : 0;
      bool ok = n && i + n <= s.size();
      for (int k = 1; ok && k < n; ++k) ok = ((unsigned char)s[i + k] & 0xc0) == 0x80;
      if (ok && n == 3 && c == 0xe0 && (unsigned char)s[i + 1] < 0xa0) ok = false;
      if (ok && n == 3 && c == 0xed && (unsigned char)s[i + 1] >= 0xa0) ok = false;
      if (ok && n == 4 && c == 0xf0 && (unsigned char)s[i + 1] < 0x90) ok = false;
      if (ok && n == 4 && c == 0xf4 && (unsigned char)s[i + 1] >= 0x90) ok = false;
      if (ok) {
        r.append(s, i, n);
        i += n;
      } else {
        snprintf(buf, 16, "\\\\x%02x", c);
        r += buf;
        ++i;
      }
    }
  }
  return r + "\"";
}

void writeFile(const std::string& name, const std::string& data) {
  std::ofstream o(name, std::ios::binary | std::ios::trunc);
  o.write(data.data(), data.size());
  o.close();
  if (!o) throw std::runtime_error("harness: cannot write " + name);
}
std::string readFile(const std::string& name) {
  std::ifstream f(name, std::ios::binary);
  std::stringstream ss;
  ss << f.rdbuf();
  return ss.str();
}
std::string scratchFile(Ctx& c, const std::string& name) {
  return c.tmpdir + "/" + name;
}

namespace {

u64 mix(u64 a, u64 b) {
  Rng r{a ^ (b * 0x9e3779b97f4a7c15ull)};
  r.next();
  return r.next();
}
u64 strHash(const std::string& s) {
  u64 h = 0xcbf29ce484222325ull;
  for (unsigned char ch : s) h = (h ^ ch) * 0x100000001b3ull;
  return h;
}

struct Result {
  int kind = 0;  // 0 ok, 1 failure, 2 crash, 3 hang, 4 discard, 5 inconclusive
  std::string sig, msg;
  std::vector<u64> rec;
  std::string sample, note;
};

struct Shared {
  volatile int facet;
  volatile int idx;
  volatile u64 done;
};

const CheckDef* gDef;
u64 gSeed;
bool gThorough;
std::string gRoot;     // scratch root of this process
std::string gKnownFile;
std::vector<std::pair<std::string, std::string>> gKnown;  // sig -> what

void onProf(int) {
  static const char m[] = "\nPBT-HANG\n";
  ssize_t r = write(2, m, sizeof(m) - 1);
  (void)r;
  _exit(67);
}
void onAlarm(int) {
  static const char m[] = "\nPBT-WALL\n";
  ssize_t r = write(2, m, sizeof(m) - 1);
  (void)r;
  _exit(68);
}

void armTimers(int cpu) {
  struct itimerval tv;
  memset(&tv, 0, sizeof tv);
  tv.it_value.tv_sec = cpu;
  setitimer(ITIMER_PROF, &tv, nullptr);
  alarm(cpu * 5);
}

void ensureDir(const std::string& d) { mkdir(d.c_str(), 0777); }

void rmTree(const std::string& d) {
  if (d.compare(0, gRoot.size(), gRoot) != 0 || gRoot.size() < 8) return;
  DIR* dir = opendir(d.c_str());
  if (!dir) {
    unlink(d.c_str());
    return;
  }
  while (auto* e = readdir(dir)) {
    std::string n = e->d_name;
    if (n == "." || n == "..") continue;
    std::string p = d + "/" + n;
    struct stat st;
    if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode))
      rmTree(p);
    else
      unlink(p.c_str());
  }
  closedir(dir);
  rmdir(d.c_str());
}

Result runCase(const Facet& f, Ctx& c) {
  Result r;
  c.thorough = gThorough;
  armTimers(f.cpuLimit);
  try {
    f.fn(c);
  } catch (Discard&) {
    r.kind = 4;
  } catch (Failure& fl) {
    r.kind = 1;
    r.sig = fl.sig;
    r.msg = fl.msg;
  } catch (std::exception& e) {
    r.kind = 1;
    r.msg = std::string("unexpected exception: ") + typeid(e).name() + ": " + e.what();
  } catch (...) {
    r.kind = 1;
    r.msg = "unexpected exception of unknown type";
  }
  armTimers(0);
  r.rec = c.recorded();
  r.sample = c.sample_;
  r.note = c.note_;
  return r;
}

bool isKnown(const std::string& sig) {
  if (sig.empty()) return false;
  for (auto& k : gKnown)
    if (k.first == sig) return true;
  return false;
}

// --- serialization of results over files ---
void put(std::string* s, const std::string& v) {
  u64 n = v.size();
  s->append((char*)&n, 8);
  s->append(v);
}
std::string get(const std::string& s, size_t* p) {
  u64 n = 0;
  if (*p + 8 > s.size()) return "";
  memcpy(&n, s.data() + *p, 8);
  *p += 8;
  if (*p + n > s.size()) n = s.size() - *p;
  std::string r = s.substr(*p, n);
  *p += n;
  return r;
}
std::string encode(const Result& r) {
  std::string s;
  s.push_back((char)r.kind);
  put(&s, r.sig);
  put(&s, r.msg);
  put(&s, r.sample);
  put(&s, r.note);
  put(&s, std::string((const char*)r.rec.data(), r.rec.size() * 8));
  return s;
}
Result decode(const std::string& s) {
  Result r;
  if (s.empty()) {
    r.kind = 2;
    return r;
  }
  r.kind = s[0];
  size_t p = 1;
  r.sig = get(s, &p);
  r.msg = get(s, &p);
  r.sample = get(s, &p);
  r.note = get(s, &p);
  std::string d = get(s, &p);
  r.rec.resize(d.size() / 8);
  memcpy(r.rec.data(), d.data(), r.rec.size() * 8);
  return r;
}


int crashKind(int st, const std::string& err) {
  if (WIFEXITED(st) && WEXITSTATUS(st) == 67) return 3;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 68) return 3;
  (void)err;
  return 2;
}

int gForkNo = 0;

// run fn in a forked child, result through a file
Result inChild(const std::function<Result(const std::string& dir)>& fn) {
  std::string base = gRoot + "/c" + std::to_string(gForkNo++);
  ensureDir(base);
  std::string out = base + "/.out", err = base + "/.err";
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    int fd = open(err.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0666);
    dup2(fd, 2);
    dup2(fd, 1);
    signal(SIGPROF, onProf);
    signal(SIGALRM, onAlarm);
    Result r = fn(base);
    writeFile(out, encode(r));
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  Result r;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
    r = decode(readFile(out));
  } else {
    std::string e = readFile(err);
    r.kind = crashKind(st, e);
    std::ostringstream os;
    if (WIFEXITED(st))
      os << "process exited with status " << WEXITSTATUS(st);
    else
      os << "process killed by signal " << WTERMSIG(st);
    if (r.kind == 3) os << " (time limit of the case exceeded: hang)";
    if (e.size() > 6000) e = e.substr(0, 6000);
    r.msg = os.str() + "\n" + e;
    r.sample = readFile(base + "/.desc");
  }
  rmTree(base);
  return r;
}

Result tryChoices(const Facet& f, const std::vector<u64>& ch) {
  Result r = inChild([&](const std::string& dir) {
    Ctx c(ch);
    c.tmpdir = dir;
    c.descFile = dir + "/.desc";
    return runCase(f, c);
  });
  if (r.kind == 2 || r.kind == 3) r.rec = ch;
  if (r.kind == 1 && isKnown(r.sig)) r.kind = 0;
  return r;
}

u64 caseSeed(const Facet& f, int idx) {
  return mix(mix(gSeed * 1000003 + 17, strHash(gDef->id + "/" + f.name)), (u64)idx + 1);
}

bool isFail(const Result& r) { return r.kind >= 1 && r.kind <= 3; }

// Shrink a failing choice sequence.
std::vector<u64> shrink(const Facet& f, std::vector<u64> best, int* attempts, int kind) {
  auto t0 = std::chrono::steady_clock::now();
  double limit = gThorough ? 150 : 60;
  if (kind == 3 || getenv("VERIF_NOSHRINK")) limit = 0;  // hangs are too slow to shrink
  auto expired = [&] {
    return *attempts > 6000 ||
           std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > limit;
  };
  auto attempt = [&](const std::vector<u64>& cand) {
    ++*attempts;
    Result r = tryChoices(f, cand);
    if (isFail(r) && r.kind != 3) {
      std::vector<u64> n = r.kind == 1 ? r.rec : cand;
      if (n.size() > cand.size()) n = cand;
      if (n.size() < best.size() || (n.size() == best.size() && n < best)) best = n;
      else if (cand.size() < best.size() || (cand.size() == best.size() && cand < best)) best = cand;
      else return false;
      return true;
    }
    return false;
  };
  bool progress = true;
  while (progress && !expired()) {
    progress = false;
    // truncate
    for (size_t len = best.size() / 2; len > 0 && !expired(); len /= 2) {
      while (best.size() > len) {
        std::vector<u64> c(best.begin(), best.end() - len);
        if (attempt(c)) progress = true; else break;
        if (expired()) break;
      }
    }
    // delete blocks
    for (size_t bl = std::min<size_t>(64, best.size()); bl >= 1 && !expired(); bl = bl > 8 ? bl / 2 : bl - 1) {
      for (size_t i = best.size(); i-- > 0 && !expired();) {
        if (i + bl > best.size()) continue;
        std::vector<u64> c = best;
        c.erase(c.begin() + i, c.begin() + i + bl);
        if (attempt(c)) progress = true;
        else if (i > 0 && best[i - 1] > 0) {
          // deleting an element together with decrementing the count before it
          c = best;
          c.erase(c.begin() + i, c.begin() + i + bl);
          c[i - 1]--;
          if (bl <= 4 && attempt(c)) progress = true;
        }
        if (bl > 8) i = i > bl / 2 ? i - bl / 2 : 0;
      }
      if (bl == 1) break;
    }
    // minimize values
    for (size_t i = 0; i < best.size() && !expired(); ++i) {
      if (best[i] == 0) continue;
      std::vector<u64> c = best;
      c[i] = 0;
      if (attempt(c)) { progress = true; continue; }
      u64 lo = 0, hi = i < best.size() ? best[i] : 0;
      while (lo + 1 < hi && !expired()) {
        u64 mid = lo + (hi - lo) / 2;
        c = best;
        if (i >= c.size()) break;
        c[i] = mid;
        if (attempt(c)) { progress = true; hi = mid; } else lo = mid;
      }
    }
  }
  return best;
}

std::string choicesToStr(const std::vector<u64>& v) {
  std::ostringstream os;
  for (size_t i = 0; i < v.size(); ++i) os << (i ? " " : "") << v[i];
  return os.str();
}

struct Stats {
  u64 evals = 0, nontriv = 0, discards = 0, known = 0;
  std::map<std::string, u64> labels;
  std::unordered_set<u64> hashes;
  std::vector<std::string> samples;
};

}  // namespace

static void loadKnown(const std::string& id) {
  // one finding per line: "<property>\t<signature>\t<what fails>"
  std::ifstream f(gKnownFile);
  std::string line;
  while (std::getline(f, line)) {
    if (line.empty() || line[0] == '#') continue;
    if (line.compare(0, 6, "fixed:") == 0) continue;
    size_t a = line.find('\t');
    if (a == std::string::npos) continue;
    size_t b = line.find('\t', a + 1);
    if (b == std::string::npos) continue;
    if (line.substr(0, a) != id) continue;
    gKnown.emplace_back(line.substr(a + 1, b - a - 1), line.substr(b + 1));
  }
}

void Ctx::writeDescription(const std::string& fn) const { writeFile(fn, sample_ + note_); }
int runMain(int argc, char** argv, const CheckDef& def) {
  auto t0 = std::chrono::steady_clock::now();
  gDef = &def;
  signal(SIGPIPE, SIG_IGN);
  const char* s = getenv("VERIF_SEED");
  gSeed = s ? strtoull(s, nullptr, 10) : 1;
  if (gSeed == 0) gSeed = 0x5eed;
  const char* t = getenv("VERIF_TIER");
  gThorough = t && std::string(t) == "thorough";
  const char* vr = getenv("VERIF_ROOT");
  std::string verif = vr ? vr : "/verif";
  gKnownFile = verif + "/known_findings.tsv";
  loadKnown(def.id);
  std::string onlyFacet, replay;
  int cases = -1;
  bool verbose = false;
  bool noEvidence = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--facet") onlyFacet = argv[++i];
    else if (a == "--cases") cases = atoi(argv[++i]);
    else if (a == "--replay") replay = argv[++i];
    else if (a == "--no-evidence") noEvidence = true;
    else if (a == "-v") verbose = true;
  }
  if (!onlyFacet.empty() || cases >= 0) noEvidence = true;
  char tmpl[] = "/tmp/pbtXXXXXX";
  if (!mkdtemp(tmpl)) {
    perror("mkdtemp");
    return 3;
  }
  gRoot = tmpl;
  struct Cleanup {
    ~Cleanup() { rmTree(gRoot); }
  } cleanup;

  const auto& facets = def.facets;
  if (!replay.empty()) {
    std::ifstream f(replay);
    std::string key, facet;
    std::vector<u64> ch;
    int hw = -1, hW = 0, hidx = 0;
    u64 hseed = 0;
    std::string line;
    while (std::getline(f, line)) {
      std::istringstream ls(line);
      ls >> key;
      if (key == "facet:") ls >> facet;
      else if (key == "choices:") { u64 v; while (ls >> v) ch.push_back(v); }
      else if (key == "history:") ls >> hseed >> hw >> hW >> hidx;
      else if (key == "text:") break;
    }
    for (auto& fc : facets) {
      if (fc.name != facet) continue;
      Result r;
      if (hw >= 0) {
        gSeed = hseed;
        r = inChild([&](const std::string& dir) {
          Result rr;
          for (int i = hw; i <= hidx; i += hW) {
            Ctx c(caseSeed(fc, i));
            c.tmpdir = dir;
            rr = runCase(fc, c);
            if (isFail(rr)) return rr;
          }
          return rr;
        });
      } else {
        r = tryChoices(fc, ch);
      }
      std::cout << "replay kind=" << r.kind << "\n" << r.note << "\n" << r.sample << "\n" << r.msg << "\n";
      if (isFail(r)) {
        std::cout << "VIOLATION property=" << def.id << " replay=" << replay << "\n";
        return 1;
      }
      return 0;
    }
    std::cerr << "no such facet " << facet << "\n";
    return 3;
  }

  std::map<std::string, Stats> stats;
  std::string violationFile;
  int nviol = 0;
  std::set<std::string> knownSeen;
  int inconclusive = 0;

  for (auto& f : facets) {
    if (!onlyFacet.empty() && f.name != onlyFacet) continue;
    int n = cases >= 0 ? cases : (gThorough ? f.thorough : f.quick);
    int W = std::max(1, std::min(f.workers, n));
    std::vector<std::set<int>> skip(W);
    bool stop = false;
    Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared) * W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    struct Cand { int w, idx; Result r; };
    std::vector<Cand> cands;
    std::vector<int> start(W);
    for (int w = 0; w < W; ++w) start[w] = w;
    // every worker runs its share until it fails or ends
    auto spawn = [&](int w) -> pid_t {
      fflush(stdout);
      pid_t pid = fork();
      if (pid != 0) return pid;
      std::string dir = gRoot + "/w" + std::to_string(w);
      ensureDir(dir);
      int fd = open((dir + "/.err").c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0666);
      dup2(fd, 2);
      dup2(fd, 1);
      signal(SIGPROF, onProf);
      signal(SIGALRM, onAlarm);
      Stats st;
      auto dump = [&](const Result* fr) {
        std::string o;
        put(&o, fr ? encode(*fr) : std::string());
        u64 nums[4] = {st.evals, st.nontriv, st.discards, st.known};
        o.append((char*)nums, sizeof nums);
        u64 nl = st.labels.size();
        o.append((char*)&nl, 8);
        for (auto& l : st.labels) {
          put(&o, l.first);
          o.append((char*)&l.second, 8);
        }
        std::vector<u64> hs(st.hashes.begin(), st.hashes.end());
        put(&o, std::string((char*)hs.data(), hs.size() * 8));
        u64 ns = st.samples.size();
        o.append((char*)&ns, 8);
        for (auto& x : st.samples) put(&o, x);
        writeFile(gRoot + "/w" + std::to_string(w) + ".stats", o);
      };
      for (int i = start[w]; i < n; i += W) {
        sh[w].idx = i;
        Ctx c(caseSeed(f, i));
        c.tmpdir = dir;
        Result r = runCase(f, c);
        if (r.kind == 1 && isKnown(r.sig)) {
          st.known++;
          st.labels["known:" + r.sig]++;
          r.kind = 0;
        }
        if (r.kind == 4) {
          st.discards++;
          continue;
        }
        st.evals++;
        for (auto& l : c.labels) st.labels[l]++;
        if (c.nontrivial_) {
          st.nontriv++;
          u64 h = c.hash_;
          if (!c.hashSet_)
            for (auto v : c.recorded()) h = mix(h, v);
          st.hashes.insert(h);
          if (st.samples.size() < 2 && !c.sample_.empty())
            st.samples.push_back(c.sample_.substr(0, 1500));
        }
        sh[w].done++;
        if (r.kind == 1) {
          dump(&r);
          _exit(65);
        }
      }
      dump(nullptr);
      _exit(0);
    };
    std::vector<pid_t> pids(W);
    for (int w = 0; w < W; ++w) pids[w] = spawn(w);
    for (int w = 0; w < W; ++w) {
      int st = 0;
      while (waitpid(pids[w], &st, 0) < 0 && errno == EINTR) {
      }
      std::string sf = gRoot + "/w" + std::to_string(w) + ".stats";
      std::string o = readFile(sf);
      auto& S = stats[f.name];
      Result fr;
      bool haveFr = false;
      if (!o.empty()) {
        size_t p = 0;
        std::string enc = get(o, &p);
        if (!enc.empty()) {
          fr = decode(enc);
          haveFr = true;
        }
        u64 nums[4];
        memcpy(nums, o.data() + p, sizeof nums);
        p += sizeof nums;
        S.evals += nums[0];
        S.nontriv += nums[1];
        S.discards += nums[2];
        S.known += nums[3];
        u64 nl;
        memcpy(&nl, o.data() + p, 8);
        p += 8;
        for (u64 k = 0; k < nl; ++k) {
          std::string l = get(o, &p);
          u64 v;
          memcpy(&v, o.data() + p, 8);
          p += 8;
          S.labels[l] += v;
        }
        std::string hs = get(o, &p);
        for (size_t k = 0; k + 8 <= hs.size(); k += 8) {
          u64 v;
          memcpy(&v, hs.data() + k, 8);
          S.hashes.insert(v);
        }
        u64 ns;
        memcpy(&ns, o.data() + p, 8);
        p += 8;
        for (u64 k = 0; k < ns; ++k) {
          std::string x = get(o, &p);
          if (S.samples.size() < 3) S.samples.push_back(x);
        }
        unlink(sf.c_str());
      }
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
      Cand cd;
      cd.w = w;
      cd.idx = sh[w].idx;
      if (haveFr) {
        cd.r = fr;
      } else {
        S.evals += sh[w].done + 1;
        std::string e = readFile(gRoot + "/w" + std::to_string(w) + "/.err");
        cd.r.kind = crashKind(st, e);
        cd.r.msg = e.substr(0, 6000);
      }
      cands.push_back(cd);
    }
    std::sort(cands.begin(), cands.end(), [](const Cand& a, const Cand& b) { return a.idx < b.idx; });
    for (auto& cd : cands) {
      if (stop) break;
      // reproduce in a fresh process
      auto rerun = [&]() {
        Result r = inChild([&](const std::string& dir) {
          Ctx c(caseSeed(f, cd.idx));
          c.tmpdir = dir;
          return runCase(f, c);
        });
        return r;
      };
      Result best = cd.r;
      int ok = 0, need = 3, tries = 3;
      if (f.nondet) {
        tries = 20;
        need = 1;
      }
      if (cd.r.kind == 3) { tries = 3; need = 3; }
      for (int k = 0; k < tries && ok < need; ++k) {
        Result r = rerun();
        if (isFail(r)) {
          ++ok;
          best = r;
        } else if (!f.nondet) break;
      }
      bool history = false, flaky = false;
      std::vector<u64> choices;
      int attempts = 0;
      if (ok >= need) {
        if (best.kind == 1) choices = best.rec;
      } else {
        // maybe it depends on what the worker did before
        int okh = 0;
        for (int k = 0; k < 3; ++k) {
          Result r = inChild([&](const std::string& dir) {
            Result rr;
            for (int i = cd.w; i <= cd.idx; i += W) {
              Ctx c(caseSeed(f, i));
              c.tmpdir = dir;
              rr = runCase(f, c);
              if (isFail(rr) && !isKnown(rr.sig)) return rr;
            }
            return rr;
          });
          if (isFail(r)) {
            ++okh;
            best = r;
          } else break;
        }
        if (okh < 3 && cd.r.kind != 3) {
          // code which fails only sometimes (uninitialized memory, threads)
          // is wrong as well: two more failures of the same case are enough
          int again = ok + okh;
          for (int k = 0; k < 16 && again < 2; ++k) {
            Result r = rerun();
            if (isFail(r) && r.kind != 3) {
              ++again;
              best = r;
            }
          }
          if (again >= 2) flaky = true;
        }
        if (okh < 3 && !flaky) {
          ++inconclusive;
          std::cerr << "note: " << def.id << "/" << f.name << " case " << cd.idx
                    << " failed once but did not reproduce (kind " << cd.r.kind << ")\n" << cd.r.msg.substr(0, 3000) << "\n";
          continue;
        }
        history = !flaky;
      }
      bool haveChoices = false;
      if (!history && !flaky && !f.nondet && best.kind != 3) {
        if (best.kind == 2) {
          // a crashed case could not report its choices: record them in shared memory
          size_t cap = 1 << 20;
          void* m = mmap(nullptr, (cap + 1) * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
          gRecBuf = (u64*)m;
          gRecCap = cap;
          rerun();
          choices.assign(gRecBuf + 1, gRecBuf + 1 + gRecBuf[0]);
          gRecBuf = nullptr;
          munmap(m, (cap + 1) * 8);
        }
        choices = shrink(f, choices, &attempts, best.kind);
        haveChoices = true;
      }
      if (haveChoices) {
        int good = 0;
        Result r;
        for (int k = 0; k < 3; ++k) {
          Result rr = tryChoices(f, choices);
          if (isFail(rr)) {
            ++good;
            r = rr;
          }
        }
        if (good == 3) best = r; else haveChoices = false;
      }
      ensureDir(verif + "/replay");
      violationFile = verif + "/replay/" + def.id + "-" + f.name + "-" + std::to_string(gSeed) + "-" + std::to_string(cd.idx) + ".txt";
      std::ostringstream os;
      os << "property: " << def.id << "\nfacet: " << f.name << "\n";
      if (haveChoices)
        os << "choices: " << choicesToStr(choices) << "\n";
      else if (history)
        os << "history: " << gSeed << " " << cd.w << " " << W << " " << cd.idx << "\n";
      else
        os << "history: " << gSeed << " " << cd.idx << " 1 " << cd.idx << "\n";
      os << "shrink_attempts: " << attempts << "\n";
      os << "text:\n" << best.note << best.sample << "\n---\n" << best.msg << "\n";
      writeFile(violationFile, os.str());
      std::cout << "FAILED " << def.id << "/" << f.name << " case " << cd.idx << "\n"
                << best.note << best.sample.substr(0, 4000) << "\n---\n" << best.msg.substr(0, 4000) << "\n";
      ++nviol;
      stop = true;
    }
    munmap(sh, sizeof(Shared) * W);
    if (stop) break;
    if (verbose) {
      auto& S = stats[f.name];
      std::cout << "facet " << f.name << ": evals " << S.evals << " nontrivial " << S.nontriv << " distinct "
                << S.hashes.size() << " discards " << S.discards << " known " << S.known << "\n";
      for (auto& l : S.labels) std::cout << "    " << l.first << ": " << l.second << "\n";
      std::cout << "  t=" << std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() << "\n";
      for (auto& x : S.samples) std::cout << "  sample: " << x.substr(0, 600) << "\n";
    }
  }
  double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  u64 ev = 0, dn = 0, disc = 0;
  for (auto& k : stats) {
    ev += k.second.evals;
    dn += k.second.hashes.size();
    disc += k.second.discards;
  }
  if (!noEvidence) {
    std::ostringstream os;
    os << "{\"property\":" << jsonStr(def.id) << ",\"tier\":\"" << (gThorough ? "thorough" : "quick")
       << "\",\"seed\":" << (long long)(gSeed & 0x7fffffffffffffffull) << ",\"level\":\"exploration\",\"coverage\":{\"evaluations\":" << ev
       << ",\"distinct_nontrivial\":" << dn << ",\"discarded\":" << disc << ",\"not_reproduced\":" << inconclusive << ",\"rule\":";
    std::string rule;
    for (auto& f : facets) rule += (rule.empty() ? "" : " | ") + f.name + ": " + f.rule;
    os << jsonStr(rule) << ",\"samples\":[";
    bool first = true;
    for (auto& k : stats)
      for (auto& x : k.second.samples) {
        os << (first ? "" : ",") << jsonStr(k.first + ": " + x);
        first = false;
      }
    os << "],\"facets\":{";
    first = true;
    for (auto& k : stats) {
      os << (first ? "" : ",") << jsonStr(k.first) << ":{\"evaluations\":" << k.second.evals << ",\"nontrivial\":" << k.second.nontriv
         << ",\"distinct_nontrivial\":" << k.second.hashes.size() << ",\"discarded\":" << k.second.discards << ",\"labels\":{";
      bool f2 = true;
      for (auto& l : k.second.labels) {
        os << (f2 ? "" : ",") << jsonStr(l.first) << ":" << l.second;
        f2 = false;
      }
      os << "}}";
      first = false;
    }
    os << "}},\"assumptions\":[";
    first = true;
    for (auto& a : def.assumptions) {
      os << (first ? "" : ",") << jsonStr(a);
      first = false;
    }
    os << "],\"wall_s\":" << wall << ",\"violations\":" << nviol << "}\n";
    ensureDir(verif + "/evidence");
    writeFile(verif + "/evidence/" + def.id + ".json", os.str());
  }
  for (auto& k : gKnown) {
    bool seen = false;
    for (auto& sx : stats)
      if (sx.second.labels.count("known:" + k.first)) seen = true;
    (void)seen;
    std::cout << "KNOWN-FINDING: property=" << def.id << " " << k.second << "\n";
  }
  std::cout << def.id << ": " << ev << " cases, " << dn << " distinct non-trivial, " << wall << " s\n";
  if (nviol) {
    std::cout << "VIOLATION property=" << def.id << " replay=" << violationFile << "\n";
    return 1;
  }
  return 0;
}

}  // namespace pbt
