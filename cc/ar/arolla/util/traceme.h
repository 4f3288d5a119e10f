#ifndef VERIF_AR_TRACEME_H_
#define VERIF_AR_TRACEME_H_
namespace arolla::profiling { struct TraceMe { template <typename... A> explicit TraceMe(A&&...) {} }; }
#endif
