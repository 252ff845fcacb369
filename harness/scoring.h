// Reference scoring: features of a node triple through the whole-ngram feature
// interface, weights summed naively; beams recomputed from their definition.
#pragma once
#include "core/impl/feature_impl_types.h"
#include "world.h"

namespace w {
struct NodeId {
  int b, i;
  bool operator<(const NodeId& o) const { return b < o.b || (b == o.b && i < o.i); }
  bool operator==(const NodeId& o) const { return b == o.b && i == o.i; }
};
inline std::vector<u32> ngramFeats(an::Lattice* L, const core::CoreHolder& core, NodeId t2, NodeId t1, NodeId t0) {
  std::vector<u32> buf(core.spec().features.ngram.size());
  auto pat = [&](NodeId n) { return L->boundary(n.b)->starts()->patternFeatureData(); };
  auto p0 = pat(t0).row(t0.i);
  util::ConstSliceable<u64> s0{util::ArraySlice<u64>{p0}, p0.size(), 1};
  util::Sliceable<u32> fin{util::MutableArraySlice<u32>{buf.data(), buf.size()}, buf.size(), 1};
  core::features::impl::NgramFeatureData d{fin, pat(t2).row(t2.i), pat(t1).row(t1.i), s0};
  core.features().ngram->applyBatch(&d);
  return buf;
}
struct RefScorer {
  Analyzer* a;
  const std::vector<float>* wts;
  int nfeat;
  std::map<std::array<int, 6>, float> cache;
  RefScorer(Analyzer& an_, const std::vector<float>& w) : a(&an_), wts(&w) { nfeat = (int)an_.core().spec().features.ngram.size(); }
  std::vector<u32> feats(NodeId t2, NodeId t1, NodeId t0) { return ngramFeats(a->lattice(), a->core(), t2, t1, t0); }
  float score(NodeId t2, NodeId t1, NodeId t0) {
    std::array<int, 6> k{{t2.b, t2.i, t1.b, t1.i, t0.b, t0.i}};
    auto it = cache.find(k);
    if (it != cache.end()) return it->second;
    float s = 0;
    for (u32 f : feats(t2, t1, t0)) s += (*wts)[f & (wts->size() - 1)];
    cache[k] = s;
    return s;
  }
};
inline bool fake(const an::ConnectionBeamElement& e) { return an::EntryBeam::isFake(e); }

// words of the best path, from the public result interface: boundaries and node indices
inline std::vector<NodeId> topPath(Ctx& c, Analyzer& a) {
  an::AnalysisPath p;
  WOK(c, p.fillIn(a.lattice()), "fillIn");
  std::vector<NodeId> r;
  if (a.lattice()->createdBoundaryCount() <= 3) return r;
  p.reset();
  while (p.nextBoundary()) {
    an::ConnectionPtr cp;
    int k = 0;
    while (p.nextNode(&cp)) {
      r.push_back({cp.boundary, cp.right});
      ++k;
    }
    PCHECK(c, k == 1, "a step of the best path has " << k << " words");
  }
  return r;
}
}  // namespace w
