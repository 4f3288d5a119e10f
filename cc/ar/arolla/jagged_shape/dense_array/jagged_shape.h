#ifndef VERIF_AR_JAGGED_SHAPE_H_
#define VERIF_AR_JAGGED_SHAPE_H_
#include <cstdint>
#include <memory>
#include <utility>
#include <vector>
#include "absl/container/inlined_vector.h"
#include "absl/log/check.h"
#include "absl/status/statusor.h"
#include "absl/types/span.h"
#include "arolla/dense_array/edge.h"
#include "arolla/util/fingerprint.h"
#include "arolla/util/repr.h"
namespace arolla {
class JaggedDenseArrayShape {
 public:
  using Edge = DenseArrayEdge;
  using EdgeVec = absl::InlinedVector<Edge, 4>;
  JaggedDenseArrayShape() = default;
  static JaggedDenseArrayShape Empty() { return {}; }
  static absl::StatusOr<JaggedDenseArrayShape> FromEdges(EdgeVec edges) {
    JaggedDenseArrayShape r;
    int64_t prev = 1;
    for (auto& e : edges) {
      if (e.parent_size() != prev) return absl::InvalidArgumentError("incompatible dimensions");
      auto sp = e.ToSplitPointsEdge(); if (!sp.ok()) return sp.status();
      prev = e.child_size();
      r.e_.push_back(*std::move(sp));
    }
    return r;
  }
  static JaggedDenseArrayShape FlatFromSize(int64_t n) { JaggedDenseArrayShape r; r.e_.push_back(*Edge::FromUniformGroups(1, n)); return r; }
  size_t rank() const { return e_.size(); }
  int64_t size() const { return e_.empty() ? 1 : e_.back().child_size(); }
  absl::Span<const Edge> edges() const { return e_; }
  JaggedDenseArrayShape RemoveDims(size_t from) const { JaggedDenseArrayShape r; for (size_t i = 0; i < from; ++i) r.e_.push_back(e_[i]); return r; }
  absl::StatusOr<JaggedDenseArrayShape> AddDims(const EdgeVec& more) const { EdgeVec v = e_; for (auto& e : more) v.push_back(e); return FromEdges(std::move(v)); }
  JaggedDenseArrayShape FlattenDims(int64_t from, int64_t to) const {
    JaggedDenseArrayShape r;
    for (int64_t i = 0; i < from; ++i) r.e_.push_back(e_[i]);
    if (from < to) r.e_.push_back(*Edge::ComposeEdges(absl::MakeConstSpan(e_).subspan(from, to - from)));
    else r.e_.push_back(*Edge::FromUniformGroups(from == 0 ? 1 : e_[from - 1].child_size(), 1));
    for (size_t i = to; i < e_.size(); ++i) r.e_.push_back(e_[i]);
    return r;
  }
  bool IsBroadcastableTo(const JaggedDenseArrayShape& o) const {
    if (rank() > o.rank()) return false;
    for (size_t i = 0; i < rank(); ++i) if (!e_[i].IsEquivalentTo(o.e_[i])) return false;
    return true;
  }
  bool IsEquivalentTo(const JaggedDenseArrayShape& o) const { return rank() == o.rank() && IsBroadcastableTo(o); }
  Edge GetBroadcastEdge(const JaggedDenseArrayShape& o) const {
    DCHECK(IsBroadcastableTo(o));
    if (rank() == o.rank()) return *Edge::FromUniformGroups(size(), 1);
    return *Edge::ComposeEdges(absl::MakeConstSpan(o.e_).subspan(rank()));
  }
  void ArollaFingerprint(FingerprintHasher* h) const { h->Combine(rank()); for (auto& e : e_) h->Combine(e.edge_values()); }
  ReprToken ArollaReprToken() const { return {"JaggedShape"}; }
 private:
  EdgeVec e_;
};
using JaggedDenseArrayShapePtr = std::shared_ptr<JaggedDenseArrayShape>;
}
#endif
