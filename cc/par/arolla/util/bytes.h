#ifndef VERIF_AROLLA_BYTES_H_
#define VERIF_AROLLA_BYTES_H_
#include <string>
namespace arolla { using Bytes = std::string; }
#endif
