// The controlled scheduler: what scenarios and stand-ins call.
#ifndef VERIF_MC_H_
#define VERIF_MC_H_
#include <cstddef>
#include <cstdint>
#include <functional>
#include <memory>
#include <string>
#include <type_traits>
extern "C" {
void mc_lock(void* m, int shared);    // a scheduling point; blocks while held
void mc_unlock(void* m, int shared);
int mc_trylock(void* m, int shared);
void mc_held(void* m);                // fails when the caller does not hold m
void mc_acquire(void* obj);           // events that order: release -> acquire
void mc_release(void* obj);
void mc_note(void* obj);              // an event that orders nothing: its place in the order distinguishes states
void mc_point(const char* what);      // a scheduling point before an event
void mc_wait(bool (*ready)(void*), void* arg, void* obj, const char* what);
void verif_quiet(int delta);          // accesses inside are not events
void mc_fill(void* p, int v, size_t n);    // watched at both ends only, like the next two
void mc_copy(void* d, const void* s, size_t n);
int mc_uniform(const void* p, size_t n);   // all bytes are equal
int mc_fiber(void);
uint64_t mc_execution(void);
}
namespace mc {
struct Quiet { Quiet() { verif_quiet(1); } ~Quiet() { verif_quiet(-1); } };
int SpawnFn(std::function<void()> fn, const char* name, bool daemon, void* pool);
template <typename F> int Spawn(F&& f, const char* name, bool daemon = false, void* pool = nullptr) {
  using G = std::decay_t<F>;
  G* p = new G(std::forward<F>(f));
  return SpawnFn([p] { std::unique_ptr<G> g(p); (*g)(); }, name, daemon, pool);
}
void Join(int fiber);                 // waits for its end; a fiber that never ends is a lost wake-up
void Quiesce();                       // waits until nothing else can run
int Choose(int n);                    // data nondeterminism: every value is explored
[[noreturn]] void Fail(const std::string& what);
// Called (on no fiber) when a scenario is run for the first time.
struct Scenario { std::string name; std::function<void()> fn; int bound; bool leaks; };
void Register(std::string name, std::function<void()> fn, int bound = 2, bool leaks = true);
}  // namespace mc
#define MC_CHECK(c, msg) do { if (!(c)) { ::verif_quiet(1); ::mc::Fail(std::string(msg) + " [" #c "]"); } } while (0)
#endif
