#ifndef VERIF_AR_RAW_BUFFER_FACTORY_H_
#define VERIF_AR_RAW_BUFFER_FACTORY_H_
#include <cstddef>
#include <memory>
#include <tuple>
namespace arolla {
using RawBufferPtr = std::shared_ptr<const void>;
class RawBufferFactory {
 public:
  virtual ~RawBufferFactory() = default;
  virtual std::tuple<RawBufferPtr, void*> CreateRawBuffer(size_t n) = 0;
};
RawBufferFactory* GetHeapBufferFactory();
class UnsafeArenaBufferFactory : public RawBufferFactory {
 public:
  explicit UnsafeArenaBufferFactory(int64_t = 0) {}
  std::tuple<RawBufferPtr, void*> CreateRawBuffer(size_t n) final { return GetHeapBufferFactory()->CreateRawBuffer(n); }
};
}
#endif
