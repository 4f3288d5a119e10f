#ifndef VERIF_AR_BYTES_H_
#define VERIF_AR_BYTES_H_
#include <string>
#include "absl/strings/string_view.h"
namespace arolla { using Bytes = std::string; }
#endif
