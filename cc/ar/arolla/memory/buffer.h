#ifndef VERIF_AR_BUFFER_H_
#define VERIF_AR_BUFFER_H_
#include "arolla/memory/simple_buffer.h"
#include "arolla/memory/strings_buffer.h"
#include "arolla/memory/void_buffer.h"
namespace arolla {
namespace verif_ar {
template <typename T> struct BufferOf { using type = SimpleBuffer<T>; };
template <> struct BufferOf<Unit> { using type = VoidBuffer; };
template <> struct BufferOf<Bytes> { using type = StringsBuffer; };
template <> struct BufferOf<Text> { using type = StringsBuffer; };
}
template <typename T> using Buffer = typename verif_ar::BufferOf<T>::type;
template <typename T> Buffer<T> CreateBuffer(std::initializer_list<T> v) { return Buffer<T>::Create(v.begin(), v.end()); }
}
#endif
