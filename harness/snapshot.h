// Complete textual state of a finished analysis, for exact comparison.
#pragma once
#include "scoring.h"

namespace w {
inline std::string hexFloat(float f) {
  char b[40];
  snprintf(b, sizeof b, "%a", f);
  return b;
}
inline std::string snapshot(Ctx& c, const World& w, Analyzer& a, bool scores = true) {
  std::ostringstream o;
  auto L = a.lattice();
  o << "boundaries " << L->createdBoundaryCount() << "\n";
  if (L->createdBoundaryCount() > 3) {
    auto om = a.output();
    int nph = a.core().spec().features.numPlaceholders;
    for (auto& n : latticeNodes(c, w, a)) {
      o << n.boundary << "/" << n.pos << " " << n.start << "-" << n.end << " " << n.eptr.rawValue();
      for (auto& e : n.entries) o << " <" << join(e, ",") << ">";
      for (int i = 0; i < nph && n.unk(); ++i) o << " ph" << om.valueOfUnkPlaceholder(n.eptr, i);
      o << "\n";
    }
    if (scores)
      for (int b = 2; b < (int)L->createdBoundaryCount(); ++b) {
        auto bnd = L->boundary(b);
        if (bnd->localNodeCount() == 0) continue;
        for (int i = 0; i < (int)bnd->localNodeCount(); ++i) {
          o << "beam " << b << "/" << i;
          for (auto& e : bnd->starts()->beamData().row(i)) {
            if (fake(e)) break;
            o << " (" << e.ptr.left << "," << e.ptr.beam << "," << hexFloat(e.totalScore) << ")";
          }
          o << "\n";
        }
      }
  }
  if (scores) {
    an::AnalysisPath p;
    Status st = p.fillIn(L);
    o << "path " << (st ? "ok" : "error");
    if (st) {
      p.reset();
      while (p.nextBoundary()) {
        an::ConnectionPtr cp;
        while (p.nextNode(&cp)) o << " " << cp.boundary << "/" << cp.right;
      }
    }
    o << "\n";
  }
  return o.str();
}
inline std::string firstDiff(const std::string& a, const std::string& b) {
  auto x = split(a, "\n"), y = split(b, "\n");
  for (size_t i = 0; i < std::max(x.size(), y.size()); ++i) {
    std::string p = i < x.size() ? x[i] : "<nothing>", q2 = i < y.size() ? y[i] : "<nothing>";
    if (p != q2) return "\n  " + p + "\n  " + q2;
  }
  return "";
}
}  // namespace w
