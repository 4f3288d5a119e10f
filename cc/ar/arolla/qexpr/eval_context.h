#ifndef VERIF_AR_EVAL_CONTEXT_H_
#define VERIF_AR_EVAL_CONTEXT_H_
#include <utility>
#include "absl/status/status.h"
#include "arolla/memory/raw_buffer_factory.h"
namespace arolla {
class EvaluationContext {
 public:
  RawBufferFactory& buffer_factory() { return *GetHeapBufferFactory(); }
  const absl::Status& status() const& { return s_; }
  void set_status(absl::Status s) { if (s_.ok()) s_ = std::move(s); }
 private:
  absl::Status s_;
};
}
#endif
