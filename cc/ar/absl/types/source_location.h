#ifndef VERIF_ABSL_SOURCE_LOCATION_H_
#define VERIF_ABSL_SOURCE_LOCATION_H_
#include <source_location>
namespace absl { using SourceLocation = std::source_location; }
#endif
