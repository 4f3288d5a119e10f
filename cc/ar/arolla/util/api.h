#ifndef VERIF_AR_API_H_
#define VERIF_AR_API_H_
#define AROLLA_API
#endif
