#ifndef VERIF_AROLLA_INIT_H_
#define VERIF_AROLLA_INIT_H_
namespace arolla { inline void InitArolla() {} }
#endif
