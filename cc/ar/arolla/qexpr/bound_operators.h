#ifndef VERIF_AR_BOUND_OPERATORS_H_
#define VERIF_AR_BOUND_OPERATORS_H_
#include <memory>
#include "arolla/memory/frame.h"
#include "arolla/qexpr/eval_context.h"
namespace arolla {
class BoundOperator { public: virtual ~BoundOperator() = default; };
template <typename F> std::unique_ptr<BoundOperator> MakeBoundOperator(F) { return std::make_unique<BoundOperator>(); }
}
#endif
