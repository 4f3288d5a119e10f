#ifndef VERIF_AR_EDGE_H_
#define VERIF_AR_EDGE_H_
#include <cstdint>
#include <utility>
#include <vector>
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/types/span.h"
#include "arolla/dense_array/dense_array.h"
#include "arolla/util/fingerprint.h"
namespace arolla {
class DenseArrayEdge {
 public:
  enum EdgeType { MAPPING = 1, SPLIT_POINTS = 2 };
  DenseArrayEdge() = default;
  static absl::StatusOr<DenseArrayEdge> FromSplitPoints(DenseArray<int64_t> sp);
  static absl::StatusOr<DenseArrayEdge> FromMapping(DenseArray<int64_t> m, int64_t parent_size);
  static absl::StatusOr<DenseArrayEdge> FromUniformGroups(int64_t parent, int64_t group, RawBufferFactory* = nullptr);
  static DenseArrayEdge UnsafeFromMapping(DenseArray<int64_t> m, int64_t parent_size);
  static DenseArrayEdge UnsafeFromSplitPoints(DenseArray<int64_t> sp);
  static absl::StatusOr<DenseArrayEdge> ComposeEdges(absl::Span<const DenseArrayEdge> edges, RawBufferFactory* = nullptr);
  EdgeType edge_type() const { return type_; }
  int64_t parent_size() const { return parent_; }
  int64_t child_size() const { return child_; }
  const DenseArray<int64_t>& edge_values() const { return v_; }
  int64_t split_size(int64_t i) const { return v_.values[i + 1] - v_.values[i]; }
  absl::StatusOr<DenseArrayEdge> ToSplitPointsEdge(RawBufferFactory* = nullptr) const;
  DenseArrayEdge ToMappingEdge(RawBufferFactory* = nullptr) const;
  bool IsEquivalentTo(const DenseArrayEdge& o) const;
  void ArollaFingerprint(FingerprintHasher* h) const { h->Combine(static_cast<int>(type_), parent_, child_, v_); }
 private:
  DenseArrayEdge(EdgeType t, int64_t p, int64_t c, DenseArray<int64_t> v) : type_(t), parent_(p), child_(c), v_(std::move(v)) {}
  EdgeType type_ = MAPPING;
  int64_t parent_ = 0, child_ = 0;
  DenseArray<int64_t> v_;
};
class DenseArrayGroupScalarEdge {
 public:
  explicit DenseArrayGroupScalarEdge(int64_t n = 0) : n_(n) {}
  int64_t child_size() const { return n_; }
 private:
  int64_t n_;
};
}
#endif
