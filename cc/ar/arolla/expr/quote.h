#ifndef VERIF_AR_QUOTE_H_
#define VERIF_AR_QUOTE_H_
#include <memory>
#include <string>
#include <utility>
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "arolla/qtype/simple_qtype.h"
#include "arolla/util/fingerprint.h"
#include "arolla/util/refcount_ptr.h"
#include "arolla/util/repr.h"
namespace arolla::expr {
// An expression is opaque here: a text, equal to itself.
class ExprNode {
 public:
  explicit ExprNode(std::string t) : text_(std::move(t)) {}
  const std::string& text() const { return text_; }
  Fingerprint fingerprint() const { FingerprintHasher h("expr"); h.Combine(text_); return std::move(h).Finish(); }
 private:
  std::string text_;
};
using ExprNodePtr = std::shared_ptr<const ExprNode>;
inline ExprNodePtr Leaf(absl::string_view k) { return std::make_shared<const ExprNode>("L." + std::string(k)); }
inline ExprNodePtr Placeholder(absl::string_view k) { return std::make_shared<const ExprNode>("P." + std::string(k)); }
inline std::string ToDebugString(const ExprNodePtr& e, bool = false) { return e->text(); }
class ExprQuote {
 public:
  ExprQuote() = default;
  explicit ExprQuote(ExprNodePtr e) : e_(std::move(e)) {}
  bool has_expr() const { return e_ != nullptr; }
  absl::StatusOr<ExprNodePtr> expr() const { if (!e_) return absl::InvalidArgumentError("uninitialized ExprQuote"); return e_; }
  const ExprNodePtr& operator*() const { return e_; }
  const ExprNodePtr* operator->() const { return &e_; }
  Fingerprint expr_fingerprint() const { return e_ ? e_->fingerprint() : Fingerprint{absl::uint128(1)}; }
  friend bool operator==(const ExprQuote& a, const ExprQuote& b) { return a.expr_fingerprint() == b.expr_fingerprint(); }
  friend bool operator!=(const ExprQuote& a, const ExprQuote& b) { return !(a == b); }
  template <typename H> friend H AbslHashValue(H h, const ExprQuote& e) { return H::combine(std::move(h), e.expr_fingerprint()); }
  void ArollaFingerprint(FingerprintHasher* h) const { h->Combine(expr_fingerprint()); }
  ReprToken ArollaReprToken() const { return {e_ ? "ExprQuote('" + e_->text() + "')" : "ExprQuote(nullptr)"}; }
 private:
  ExprNodePtr e_;
};
}
namespace arolla { AROLLA_DECLARE_SIMPLE_QTYPE(EXPR_QUOTE, expr::ExprQuote); }
#endif
