#ifndef VERIF_AR_CITYHASH_H_
#define VERIF_AR_CITYHASH_H_
#include <cstddef>
#include <cstdint>
#include <utility>
namespace arolla {
uint64_t CityHash64(const void* p, size_t n);
uint64_t CityHash64WithSeed(const void* p, size_t n, uint64_t seed);
std::pair<uint64_t, uint64_t> CityHash128WithSeed(const void* p, size_t n, std::pair<uint64_t, uint64_t> seed);
}
#endif
