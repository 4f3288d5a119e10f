#ifndef VERIF_AR_OPTOOLS_H_
#define VERIF_AR_OPTOOLS_H_
#define AROLLA_REGISTER_QEXPR_OPERATOR(...) static_assert(true)
#define AROLLA_REGISTER_QEXPR_OPERATOR_FAMILY(...) static_assert(true)
#endif
