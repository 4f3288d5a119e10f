#ifndef VERIF_KD_DTYPE_H_
#define VERIF_KD_DTYPE_H_
namespace koladata::schema {
enum DType { kNone = 0, kMask = 1, kObject = 2, kInt32 = 3 };
inline const char* DTypeName(DType d) {
  return d == kMask ? "MASK" : d == kObject ? "OBJECT" : d == kInt32 ? "INT32" : "NONE";
}
}
#endif
