// A controlled scheduler and stateless model checker for C++ code compiled
// with -fsanitize=thread but linked with this run-time instead of libtsan.
//
// Every thread of a scenario is a fiber. A fiber gives up control only at a
// scheduling point (before a mutex, atomic, wait or explicit event), so the
// schedule is a list of choices; the explorer enumerates all of them depth
// first within a bound on preemptions. Executions with the same
// happens-before order reach the same state: a state (happens-before hash,
// current fiber, preemptions left) is expanded once. Memory accesses between
// events are checked for data races (vector clocks, memory orders honoured),
// use after free and access past the end; at the end everything allocated
// must be freed or reachable from statics. All state of the program (statics,
// heap, thread locals) is restored before each execution.
#include "mc.h"

#include <errno.h>
#include <pthread.h>
#include <elf.h>
#include <errno.h>
#include <link.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <new>
#include <string>
#include <vector>

#include "verif_fatal.h"

extern "C" char __data_start, _end;
extern "C" char __libc_single_threaded;
typedef uint64_t u64;
typedef uint32_t u32;

namespace {

constexpr int kMaxFibers = 40;
constexpr size_t kArena = 512 << 10;       // per fiber
constexpr size_t kPersist = 4 << 20;       // made while warming up
constexpr size_t kHeap = kPersist + kMaxFibers * kArena;
constexpr size_t kStack = 512 << 10;
constexpr u32 kSyncSlots = 1 << 15;

u64 Mix(u64 a, u64 b) {
  u64 x = a ^ (b + 0x9e3779b97f4a7c15ull + (a << 12) + (a >> 4));
  x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull;
  x ^= x >> 27; x *= 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}

struct VC { u32 c[kMaxFibers]; };
inline void JoinVC(VC* a, const VC& b, int n) { for (int i = 0; i < n; ++i) if (b.c[i] > a->c[i]) a->c[i] = b.c[i]; }

struct Slot { u32 clk; u32 pc; uint8_t tid, mask, atomic, used; };
struct Cell { u64 gen; uint8_t dead; Slot w; Slot r[4]; };   // one 8-byte word

struct Sync {
  u64 gen; u64 addr; u64 hash; u64 reads; int owner; int readers; VC vc; bool has_vc; bool ref;
};
constexpr int kUnknown = -2;
struct Touch { u64 addr; int fiber, fixed; };   // -1: used by several threads

enum State { kFree, kReady, kWait, kDone };
struct Fiber {
  int id; State st; void* sp; char* stack;
  const char* name; bool daemon; void* pool; bool fresh;
  int wkind;  // 1 predicate, 2 mutex, 3 quiescence, 4 end of a fiber
  bool (*pred)(void*); void* parg; const char* what; int shared; int target;
  VC vc, pend, fence; bool has_pend, has_fence;
  u64 chain; u64 uniq; u64 nspawn; int quiet;
  char* base; char* bump; char* lim;
  std::function<void()>* fn;
  char* tls;
};
struct Block { char* p; size_t n; bool live; int fiber; };
struct Node { int c, n; bool preempt; };
struct Ent { u64 key; int budget; int used; };

template <typename T> struct MAlloc {
  typedef T value_type;
  MAlloc() {}
  template <typename U> MAlloc(const MAlloc<U>&) {}
  T* allocate(size_t n) { return static_cast<T*>(malloc(n * sizeof(T))); }
  void deallocate(T* p, size_t) { free(p); }
  bool operator==(const MAlloc&) const { return true; }
  bool operator!=(const MAlloc&) const { return false; }
};
template <typename T> using Vec = std::vector<T, MAlloc<T>>;

enum Outcome { kRunning, kComplete, kPruned, kFailed, kTooLong };

struct Engine {
  bool active = false, warm = false, tracing = false, in_engine = false;
  char* heap; char* stacks; Cell* cells; Cell* dcells; Cell* scells;
  char* data_lo; char* data_hi; char* snap_data; char* snap_persist; size_t snap_persist_n; char* persist_bump;
  char* tls_addr; size_t tls_n; char* tls_init;
  Fiber f[kMaxFibers]; int nf = 0; Fiber* cur = nullptr; void* main_sp = nullptr;
  Sync* sync; u64 gen = 0;
  Vec<Block> blocks; size_t live_n;
  Vec<Node> path; size_t depth; int budget; int bound;
  Vec<Ent> table; size_t table_used = 0;
  Vec<Touch> touch; size_t touch_used = 0; bool found_shared = false; int alive = 0; u64 passes = 0;
  u64 total_hash; u64 steps; u64 max_steps = 20000;
  Outcome outcome; std::string* kind; std::string* msg;
  Vec<u64> guards;
  u64 n_complete = 0, n_pruned = 0, n_steps = 0, n_states = 0, max_depth = 0, max_fibers = 0, n_events = 0, n_accesses = 0;
  bool leaks = true; bool caching = true;
  u64 watchdog_seen = 0, execs = 0;
  mc::Scenario* sc = nullptr;
  bool frozen = false; int trace_n = 0; size_t trace_len = 0; char trace[40000];
};
Engine* E;
std::vector<mc::Scenario>* g_scenarios;

// ---------------------------------------------------------------- fibers
extern "C" void mc_switch(void** save, void* to);
asm(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size mc_switch,.-mc_switch
)");

void SwitchTo(Fiber* to) {
  Fiber* from = E->cur;
  if (from == to) return;
  memcpy(from->tls, E->tls_addr, E->tls_n);
  memcpy(E->tls_addr, to->tls, E->tls_n);
  E->cur = to;
  mc_switch(&from->sp, to->sp);
}
[[noreturn]] void Leave(Outcome o) {   // abandons the execution
  E->outcome = o;
  E->active = false;
  void* dummy;
  mc_switch(&dummy, E->main_sp);
  __builtin_unreachable();
}
[[noreturn]] void Violation(const char* kind, const std::string& msg) {
  if (!E || !E->cur || !E->active) {
    dprintf(2, "%s: %s\n", kind, msg.c_str());
    _exit(4);
  }
  E->in_engine = true;
  *E->kind = kind;
  *E->msg = msg;
  Leave(kFailed);
}
std::string Hex(u64 x) { char b[32]; snprintf(b, sizeof b, "0x%llx", (unsigned long long)x); return b; }
u64 ExeBase();

Sync* Obj(const void* a) {
  u64 addr = (u64)a;
  u32 i = (u32)(Mix(addr, 77) & (kSyncSlots - 1));
  for (u32 k = 0;; ++k, i = (i + 1) & (kSyncSlots - 1)) {
    Sync* s = &E->sync[i];
    if (s->gen != E->gen) {
      memset(s, 0, sizeof *s);
      s->gen = E->gen; s->addr = addr; s->owner = -1; s->hash = addr;
      return s;
    }
    if (s->addr == addr) return s;
    if (k > kSyncSlots / 2) Violation("engine", "too many synchronisation objects");
  }
}

void SetChain(Fiber* f, u64 h) { E->total_hash += Mix(h, 3) - Mix(f->chain, 3); f->chain = h; }
void Event(Fiber* f, Sync* s, int kind, bool write) {
  ++E->n_events;
  u64 h = Mix(Mix(f->chain, s->addr * 16 + kind), s->hash);
  if (write) { h = Mix(h, s->reads); s->hash = h; s->reads = 0; } else { s->reads += Mix(h, 9); }
  SetChain(f, h);
}
void AcquireVC(Fiber* f, Sync* s) { if (s->has_vc) JoinVC(&f->vc, s->vc, E->nf); }
void ReleaseVC(Fiber* f, Sync* s, bool join) {
  if (join && s->has_vc) JoinVC(&s->vc, f->vc, E->nf); else s->vc = f->vc;
  s->has_vc = true;
  ++f->vc.c[f->id];
}

bool Enabled(Fiber* f) {
  if (f->st == kReady) return true;
  if (f->st != kWait) return false;
  switch (f->wkind) {
    case 1: {
      Fiber* c = E->cur;
      ++c->quiet;
      bool r = f->pred(f->parg);
      --c->quiet;
      return r;
    }
    case 2: {
      Sync* s = Obj(f->parg);
      return f->shared ? s->owner < 0 : s->owner < 0 && s->readers == 0;
    }
    case 4: return E->f[f->target].st == kDone;
  }
  return false;
}

void Trace(const char* what, const void* a, void* pc) {
  if (!E->tracing || !E->active || E->warm) return;
  if (E->trace_n > 400) return;
  ++E->trace_n;
  char buf[300];
  snprintf(buf, sizeof buf, "%s[%d, \"%s\", \"%s\", \"0x%llx\"]", E->trace_n > 1 ? ", " : "", E->cur->id, E->cur->name, what,
           (unsigned long long)((u64)pc - ExeBase()));
  size_t k = strlen(buf);
  if (E->trace_len + k < sizeof E->trace) { memcpy(E->trace + E->trace_len, buf, k + 1); E->trace_len += k; }
}

int Pick(int n, bool preempt, u64 salt) {   // n > 1 options
  size_t d = E->depth++;
  if (d > E->max_depth) E->max_depth = d;
  if (d < E->path.size()) return E->path[d].c;
  if (E->warm) { E->path.push_back({0, n, preempt}); return 0; }
  if (E->caching) {
    u64 key = Mix(Mix(E->total_hash, E->cur->id * 8 + salt), 0x1234567);
    if (key == 0) key = 1;
    if (E->table_used * 2 >= E->table.size()) {
      Vec<Ent> old;
      old.swap(E->table);
      E->table.assign(old.empty() ? 1 << 16 : old.size() * 2, Ent{0, 0, 0});
      for (auto& e : old) if (e.key) {
        size_t i = e.key & (E->table.size() - 1);
        while (E->table[i].key) i = (i + 1) & (E->table.size() - 1);
        E->table[i] = e;
      }
    }
    size_t m = E->table.size() - 1, i = key & m;
    while (E->table[i].key && E->table[i].key != key) i = (i + 1) & m;
    Ent& e = E->table[i];
    if (e.key == key && e.budget >= E->budget) Leave(kPruned);
    if (e.key != key) { e.key = key; ++E->table_used; ++E->n_states; }
    e.budget = E->budget;
  }
  E->path.push_back({0, n, preempt});
  return 0;
}

std::string Blocked() {
  std::string s;
  for (int i = 0; i < E->nf; ++i) {
    Fiber* f = &E->f[i];
    if (f->st == kWait && !f->daemon) {
      if (!s.empty()) s += "; ";
      s += std::string(f->name) + " waits for " + (f->what ? f->what : "?");
    }
  }
  return s;
}

// Chooses who runs next. The current fiber may be blocked or done.
void Schedule() {
  if (++E->steps > E->max_steps) Leave(kTooLong);
  ++E->n_steps;
  Fiber* cur = E->cur;
  Fiber* opt[kMaxFibers];
  int n = 0;
  bool self = Enabled(cur);
  if (self) opt[n++] = cur;
  if (!self || E->budget > 0) {
    void* seen[kMaxFibers]; int ns = 0;
    for (int i = 0; i < E->nf; ++i) {
      Fiber* f = &E->f[i];
      if (f == cur || f->st == kFree || f->st == kDone) continue;
      if (f->pool && f->fresh) {        // idle workers of a pool are interchangeable
        bool dup = false;
        for (int k = 0; k < ns; ++k) dup |= seen[k] == f->pool;
        if (dup) continue;
        if (!Enabled(f)) continue;
        seen[ns++] = f->pool;
        opt[n++] = f;
        continue;
      }
      if (Enabled(f)) opt[n++] = f;
    }
  }
  if (n == 0) {
    for (int i = 0; i < E->nf; ++i) {
      Fiber* f = &E->f[i];
      if (f->st == kWait && f->wkind == 3) { opt[n++] = f; break; }
    }
    if (n == 0) Violation("deadlock", "nothing can run: " + Blocked());
  }
  int c = n > 1 ? Pick(n, self, 1) : 0;
  if (c >= n) Violation("engine", "the execution is not deterministic");
  if (self && c > 0) --E->budget;
  Fiber* to = opt[c];
  to->st = kReady;
  to->fresh = false;
  SwitchTo(to);
}
// An object that only one thread ever uses needs no scheduling points. When a
// second one turns up the exploration starts again, until none does.
bool Local(const void* a) {
  if (E->alive <= 1) return true;
  if (E->touch_used * 2 >= E->touch.size()) {
    Vec<Touch> old;
    old.swap(E->touch);
    E->touch.assign(old.empty() ? 1 << 12 : old.size() * 2, Touch{0, 0, kUnknown});
    for (auto& e : old) if (e.addr) {
      size_t i = Mix(e.addr, 5) & (E->touch.size() - 1);
      while (E->touch[i].addr) i = (i + 1) & (E->touch.size() - 1);
      E->touch[i] = e;
    }
  }
  u64 addr = (u64)a;
  size_t m = E->touch.size() - 1, i = Mix(addr, 5) & m;
  while (E->touch[i].addr && E->touch[i].addr != addr) i = (i + 1) & m;
  Touch& t = E->touch[i];
  if (!E->frozen) {
    if (!t.addr) { t.addr = addr; t.fiber = E->cur->id; t.fixed = kUnknown; ++E->touch_used; }
    if (t.fiber != E->cur->id && t.fiber >= 0) { t.fiber = -1; E->found_shared = true; }
  }
  // What was known when this pass began decides, for the sake of the replay.
  return !t.addr || t.fixed == kUnknown || t.fixed == E->cur->id;
}
void Point(const char* what, const void* a, void* pc) {
  if (!E->active || E->cur->quiet) return;
  if (!a || !Local(a)) Schedule();
  Trace(what, a, pc);
}
void BlockFor(int kind, const char* what) {
  Fiber* f = E->cur;
  f->st = kWait; f->wkind = kind; f->what = what;
  Schedule();
}

void FiberMain() {
  Fiber* f = E->cur;
  (*f->fn)();
  f = E->cur;
  if (f->id == 0) {
    E->outcome = kComplete;
    Leave(kComplete);
  }
  ++f->quiet; delete f->fn; --f->quiet;
  f->fn = nullptr;
  Sync* s = Obj(f);
  Event(f, s, 1, true);
  ReleaseVC(f, s, true);
  f->st = kDone;
  --E->alive;
  Schedule();
  __builtin_unreachable();
}

Fiber* NewFiber(std::function<void()>* fn, const char* name) {
  if (E->nf >= kMaxFibers) Violation("engine", "too many threads");
  int id = E->nf++;
  ++E->alive;
  if ((u64)E->nf > E->max_fibers) E->max_fibers = E->nf;
  Fiber* f = &E->f[id];
  char* stack = f->stack; char* base = f->base; char* tls = f->tls;
  memset(f, 0, sizeof *f);
  f->stack = stack; f->base = base; f->tls = tls;
  f->id = id; f->st = kReady; f->name = name; f->fn = fn;
  f->bump = base; f->lim = base + kArena;
  memcpy(f->tls, E->tls_init, E->tls_n);
  void** sp = (void**)(f->stack + kStack - 64);
  *--sp = nullptr;
  *--sp = (void*)FiberMain;
  for (int i = 0; i < 6; ++i) *--sp = nullptr;
  f->sp = sp;
  f->vc.c[id] = 1;
  f->chain = Mix(id, 0xabcdef);
  E->total_hash += Mix(f->chain, 3);
  return f;
}

// ---------------------------------------------------------------- memory
char* Bump(char** bump, char* lim, size_t n, size_t al) {
  char* p = (char*)(((u64)*bump + 16 + al - 1) & ~(al - 1));
  if (p + n + 16 > lim) return nullptr;
  *bump = p + n;
  return p;
}
Cell* CellOf(u64 a) {
  u64 h = a - (u64)E->heap;
  if (h < kHeap) return &E->cells[h >> 3];
  u64 d = a - (u64)E->data_lo;
  if (d < (u64)(E->data_hi - E->data_lo)) return &E->dcells[d >> 3];
  u64 k = a - (u64)E->stacks;
  if (k < kMaxFibers * (kStack + 4096)) return &E->scells[k >> 3];
  return nullptr;
}
Cell* Fresh(Cell* c) {
  if (c->gen != E->gen) { memset(c, 0, sizeof *c); c->gen = E->gen; }
  return c;
}
std::string Loc(u32 pc) { return Hex(pc); }
[[noreturn]] void Race(u64 a, const char* now, u32 pc, const Slot& s, const char* then) {
  Violation("race", std::string("data race: ") + now + " by " + E->cur->name + " (fiber " + std::to_string(E->cur->id) + ") at pc " + Loc(pc) +
                        " and earlier " + then + " by " + E->f[s.tid].name + " (fiber " + std::to_string(s.tid) + ") at pc " + Loc(s.pc));
  (void)a;
}
void Access(u64 a, size_t n, bool write, bool atomic, void* pcp) {
  if (!E->active || E->warm) return;
  Fiber* f = E->cur;
  u32 pc = (u32)((u64)pcp - ExeBase());
  while (n) {
    size_t off = a & 7, k = 8 - off < n ? 8 - off : n;
    Cell* c = CellOf(a);
    if (!c) return;
    ++E->n_accesses;
    uint8_t mask = (uint8_t)(((1u << k) - 1) << off);
    u64 h = a - (u64)E->heap;
    if (h < kHeap && h >= kPersist) {
      Fiber* o = &E->f[(h - kPersist) / kArena];
      if ((int)((h - kPersist) / kArena) >= E->nf || (char*)a >= o->bump)
        Violation("memory", std::string(write ? "write" : "read") + " outside of any allocated object at pc " + Loc(pc));
    }
    Fresh(c);
    if (c->dead)
      Violation("memory", std::string(write ? "write" : "read") + (c->dead == 2 ? " of freed memory" : " outside of any allocated object") +
                              " by " + f->name + " at pc " + Loc(pc));
    if (!f->quiet) {
      if (c->w.used && c->w.tid != f->id && (c->w.mask & mask) && c->w.clk > f->vc.c[c->w.tid] && !(atomic && c->w.atomic))
        Race(a, write ? "write" : "read", pc, c->w, "write");
      if (write) {
        for (Slot& s : c->r)
          if (s.used && s.tid != f->id && (s.mask & mask) && s.clk > f->vc.c[s.tid] && !(atomic && s.atomic)) Race(a, "write", pc, s, "read");
        if (c->w.used && c->w.tid == f->id && c->w.clk == f->vc.c[f->id] && c->w.atomic == atomic) { c->w.mask |= mask; c->w.pc = pc; }
        else c->w = Slot{f->vc.c[f->id], pc, (uint8_t)f->id, mask, atomic, 1};
      } else {
        Slot* best = nullptr;
        for (Slot& s : c->r) if (s.used && s.tid == f->id && s.atomic == atomic) { best = &s; break; }
        if (best) { if (best->clk == f->vc.c[f->id]) mask |= best->mask; }
        if (!best) for (Slot& s : c->r) if (!s.used) { best = &s; break; }
        if (!best) for (Slot& s : c->r) if (s.clk <= f->vc.c[s.tid]) { best = &s; break; }
        if (!best) best = &c->r[0];
        *best = Slot{f->vc.c[f->id], pc, (uint8_t)f->id, mask, atomic, 1};
      }
    }
    a += k; n -= k;
  }
}
void* Alloc(size_t n, size_t al) {
  if (!E || !(E->active || E->warm)) {
    void* p = al <= 16 ? malloc(n ? n : 1) : aligned_alloc(al, (n + al - 1) / al * al);
    if (!p) abort();
    return p;
  }
  if (al < 16) al = 16;
  n = (n + 7) & ~(size_t)7;
  if (!n) n = 8;
  Fiber* f = E->cur;
  char* p;
  if (E->warm) {
    p = Bump(&E->persist_bump, E->heap + kPersist, n, al);
    if (!p) abort();
    ((u64*)p)[-1] = ~0ull;
    return p;
  }
  p = Bump(&f->bump, f->lim, n, al);
  if (!p) Violation("memory", "an execution allocates without end");
  for (int i = 1; i <= 2; ++i) Fresh(CellOf((u64)p - 8 * i))->dead = 1;
  ((u64*)p)[-1] = E->blocks.size();
  ((u64*)p)[-2] = n;
  E->blocks.push_back({p, n, true, f->id});
  ++E->live_n;
  return p;
}
void Free(void* p, void* pc) {
  if (!p) return;
  u64 h = E ? (u64)p - (u64)E->heap : ~0ull;
  if (h >= kHeap) { free(p); return; }
  if (!E->active || E->warm) return;   // warming up, or static destructors
  if (h < kPersist) return;            // an object made while warming up: kept
  u64 i = ((u64*)p)[-1];
  if (i >= E->blocks.size() || E->blocks[i].p != p) Violation("memory", "delete of something that was not allocated");
  Block& b = E->blocks[i];
  if (!b.live) Violation("memory", std::string("double delete by ") + E->cur->name);
  Access((u64)p, b.n, true, false, pc);
  for (size_t k = 0; k < b.n; k += 8) Fresh(CellOf((u64)p + k))->dead = 2;
  b.live = false;
  --E->live_n;
}

// Blocks still allocated and not reachable from statics or idle workers.
std::string Leaks() {
  if (!E->live_n) return "";
  Vec<char> mark(E->blocks.size(), 0);
  Vec<u32> todo;
  Vec<std::pair<u64, u32>> idx;
  for (u32 i = 0; i < E->blocks.size(); ++i) if (E->blocks[i].live) idx.push_back({(u64)E->blocks[i].p, i});
  for (size_t i = 1; i < idx.size(); ++i) for (size_t j = i; j && idx[j] < idx[j - 1]; --j) std::swap(idx[j], idx[j - 1]);
  auto visit = [&](u64 v) {
    size_t lo = 0, hi = idx.size();
    while (lo < hi) { size_t m = (lo + hi) / 2; if (idx[m].first <= v) lo = m + 1; else hi = m; }
    if (!lo) return;
    Block& b = E->blocks[idx[lo - 1].second];
    if (v < (u64)b.p + b.n && !mark[idx[lo - 1].second]) { mark[idx[lo - 1].second] = 1; todo.push_back(idx[lo - 1].second); }
  };
  auto scan = [&](char* a, char* b) { for (u64* p = (u64*)(((u64)a + 7) & ~7ull); (char*)(p + 1) <= b; ++p) visit(*p); };
  scan(E->data_lo, E->data_hi);
  scan(E->heap, E->persist_bump);
  for (int i = 1; i < E->nf; ++i) {
    Fiber* f = &E->f[i];
    if (f->st == kDone || !f->daemon) continue;
    scan((char*)f->sp, f->stack + kStack);
    visit((u64)f->fn);
  }
  scan(E->cur->tls, E->cur->tls + E->tls_n);
  scan(E->tls_addr, E->tls_addr + E->tls_n);
  while (!todo.empty()) { u32 i = todo.back(); todo.pop_back(); scan(E->blocks[i].p, E->blocks[i].p + E->blocks[i].n); }
  for (auto& [a, i] : idx) if (!mark[i]) return "memory allocated by " + std::string(E->f[E->blocks[i].fiber].name) + " (" + std::to_string(E->blocks[i].n) + " bytes) is never freed";
  return "";
}

u64 g_exe_base;
u64 ExeBase() { return g_exe_base; }
int Phdr(dl_phdr_info* info, size_t, void*) {
  g_exe_base = info->dlpi_addr;
  for (int i = 0; i < info->dlpi_phnum; ++i)
    if (info->dlpi_phdr[i].p_type == PT_TLS) {
      E->tls_n = info->dlpi_phdr[i].p_memsz;
      E->tls_addr = (char*)info->dlpi_tls_data;
      E->tls_init = (char*)calloc(1, E->tls_n);
      memcpy(E->tls_init, (char*)info->dlpi_addr + info->dlpi_phdr[i].p_vaddr, info->dlpi_phdr[i].p_filesz);
    }
  return 1;
}
char* g_next = (char*)0x100000000000ull;   // the same addresses in every process
char* Map(size_t n) {
  char* want = g_next;
  g_next += (n + 0x1fffff) & ~0xfffffull;
  void* p = mmap(want, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); _exit(4); }
  return (char*)p;
}
std::string Escape(const std::string& s) {
  std::string r;
  for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; }
  return r;
}
std::string Choices() {
  std::string s;
  for (size_t i = 0; i < E->path.size() && i < E->depth; ++i) { if (i) s += ","; s += std::to_string(E->path[i].c); }
  return s;
}
void Report(const char* kind, const std::string& msg, bool complete) {
  std::string s = "{\"scenario\": \"" + E->sc->name + "\", \"schedules\": " + std::to_string(E->n_complete) + ", \"cut\": " + std::to_string(E->n_pruned) +
                  ", \"states\": " + std::to_string(E->n_states) + ", \"steps\": " + std::to_string(E->n_steps) + ", \"events\": " + std::to_string(E->n_events) +
                  ", \"accesses\": " + std::to_string(E->n_accesses) + ", \"threads\": " + std::to_string(E->max_fibers) + ", \"bound\": " + std::to_string(E->bound) +
                  ", \"passes\": " + std::to_string(E->passes) + ", \"complete\": " + (complete ? "true" : "false");
  if (kind) s += std::string(", \"kind\": \"") + kind + "\", \"message\": \"" + Escape(msg) + "\", \"choices\": \"" + Choices() + "\", \"trace\": [" + E->trace + "]";
  s += "}\n";
  (void)!write(1, s.data(), s.size());
}
void OnSignal(int sig) {
  if (!E || !E->sc) _exit(4);
  const char* n = sig == SIGSEGV ? "segmentation fault" : sig == SIGABRT ? "abort" : sig == SIGFPE ? "arithmetic fault" : sig == SIGBUS ? "bus error" : sig == SIGILL ? "illegal instruction" : "signal";
  std::string msg = std::string(n) + " in " + (E->cur ? E->cur->name : "?");
  if (E->active && E->cur && !E->warm && !E->tracing) Violation("crash", msg);
  E->active = false;
  Report("crash", msg, false);
  _exit(0);
}
void OnAlarm(int) {
  if (E->watchdog_seen == E->execs && E->sc && E->active) {
    E->active = false;
    Report("hang", std::string("an execution does not end: ") + (E->cur ? E->cur->name : "?"), false);
    _exit(0);
  }
  E->watchdog_seen = E->execs;
}

void Reset() {
  ++E->gen;
  E->nf = 0; E->alive = 0; E->depth = 0; E->budget = E->bound; E->steps = 0; E->total_hash = 0;
  E->blocks.clear(); E->live_n = 0;
  E->outcome = kRunning;
  ++E->execs;
}
void RunOnce(bool warm) {
  Reset();
  E->warm = warm;
  if (!warm) {
    memcpy(E->data_lo, E->snap_data, E->data_hi - E->data_lo);
    memcpy(E->heap, E->snap_persist, E->snap_persist_n);
    E->persist_bump = E->heap + E->snap_persist_n;
  }
  char* tls = (char*)malloc(E->tls_n + 1);
  memcpy(tls, E->tls_addr, E->tls_n);
  memcpy(E->tls_addr, E->tls_init, E->tls_n);
  auto* body = new std::function<void()>([] {
    E->sc->fn();
    mc::Quiesce();
    std::string stuck;
    for (int i = 1; i < E->nf; ++i) {
      Fiber* f = &E->f[i];
      if (f->st == kWait && !f->daemon) Violation("stuck", "never woken up: " + Blocked());
    }
    if (!E->warm && E->leaks) {
      std::string l = Leaks();
      if (!l.empty()) Violation("leak", l);
    }
  });
  Fiber* f = NewFiber(body, "main");
  E->active = true;
  E->cur = f;
  mc_switch(&E->main_sp, f->sp);
  E->active = false;
  E->warm = false;
  E->cur = nullptr;
  memcpy(E->tls_addr, tls, E->tls_n);
  free(tls);
  // `body` was made outside of the arenas.
  delete body;
}
double Now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

int Explore(mc::Scenario* sc, int bound, double limit) {
  E->sc = sc;
  E->leaks = sc->leaks;
  E->bound = 0;
  RunOnce(true);
  if (E->outcome == kFailed) { Report(E->kind->c_str(), "first run: " + *E->msg, false); return 0; }
  if (E->outcome == kTooLong) { Report("livelock", "an execution takes too many steps", false); return 0; }
  E->path.clear();
  E->snap_data = Map(E->data_hi - E->data_lo);
  memcpy(E->snap_data, E->data_lo, E->data_hi - E->data_lo);
  E->snap_persist_n = E->persist_bump - E->heap;
  E->snap_persist = Map(E->snap_persist_n + 16);
  memcpy(E->snap_persist, E->heap, E->snap_persist_n);
  E->bound = bound;
  E->n_steps = E->n_events = 0;
  double t0 = Now();
  bool complete = true;
  // First without preemptions: that finds most of the objects that are shared.
  E->bound = bound < 1 ? bound : 1;
  for (;;) {
    RunOnce(false);
    if (E->outcome == kFailed) {
      // Once more, to show what happens and that it happens again.
      std::string kind = *E->kind, msg = *E->msg;
      E->frozen = E->tracing = true;
      E->caching = false;
      E->path.resize(E->depth < E->path.size() ? E->depth : E->path.size());
      RunOnce(false);
      if (E->outcome != kFailed || *E->kind != kind) msg += " (not seen again when repeated)";
      Report(kind.c_str(), msg, false);
      return 0;
    }
    if (E->outcome == kTooLong) { Report("livelock", "an execution takes more than " + std::to_string(E->max_steps) + " steps", false); return 0; }
    if (E->outcome == kPruned) ++E->n_pruned; else ++E->n_complete;
    while (!E->path.empty() && E->path.back().c + 1 >= E->path.back().n) E->path.pop_back();
    if (E->path.empty()) {
      if (!E->found_shared && E->bound == bound) break;
      if (!E->found_shared) E->bound = bound;
      E->found_shared = false;
      ++E->passes;
      for (auto& t : E->touch) t.fixed = t.addr ? t.fiber : kUnknown;
      E->table.clear(); E->table_used = 0;
      E->n_complete = E->n_pruned = E->n_steps = E->n_states = E->n_events = E->n_accesses = 0;
      continue;
    }
    ++E->path.back().c;
    if (limit > 0 && Now() - t0 > limit) { complete = false; break; }
  }
  Report(nullptr, "", complete);
  return 0;
}
}  // namespace

// -------------------------------------------------------------------- API
namespace mc {
int SpawnFn(std::function<void()> fn, const char* name, bool daemon, void* pool) {
  Fiber* c = E->cur;
  ++c->quiet;
  auto* p = new std::function<void()>(std::move(fn));
  --c->quiet;
  Fiber* f = NewFiber(p, name);
  f->daemon = daemon;
  f->pool = pool;
  f->fresh = pool != nullptr;
  JoinVC(&f->vc, c->vc, kMaxFibers);
  f->vc.c[f->id] = 1;
  ++c->vc.c[c->id];
  SetChain(f, Mix(Mix(c->chain, ++c->nspawn), 0x51));
  return f->id;
}
void Join(int id) {
  Fiber* f = E->cur;
  f->target = id;
  BlockFor(4, "the end of a thread");
  Sync* s = Obj(&E->f[id]);
  Event(f, s, 2, true);
  AcquireVC(f, s);
}
void Quiesce() {
  Fiber* f = E->cur;
  BlockFor(3, "quiescence");
  for (int i = 0; i < E->nf; ++i) if (i != f->id) JoinVC(&f->vc, E->f[i].vc, kMaxFibers);
  SetChain(f, Mix(f->chain, E->total_hash));
}
int Choose(int n) {
  if (n <= 1) return 0;
  ++E->n_steps;
  int c = Pick(n, false, 2);
  SetChain(E->cur, Mix(E->cur->chain, 1000 + c));
  return c;
}
void Fail(const std::string& what) { Violation("property", what); }
void Register(std::string name, std::function<void()> fn, int bound, bool leaks) {
  if (!g_scenarios) g_scenarios = new std::vector<Scenario>;
  g_scenarios->push_back({std::move(name), std::move(fn), bound, leaks});
}
}  // namespace mc

void verif_fatal(const char* what) { Violation("fatal", what); }
uint64_t verif_unique() {
  if (!E || !E->cur) { static u64 n = 0; return ++n; }
  Fiber* f = E->cur;
  return Mix(f->id + 1, ++f->uniq) | (E->warm ? 1ull << 63 : 0);
}
extern "C" {
void verif_quiet(int d) { if (E && E->cur) E->cur->quiet += d; }
static void Ends(const void* p, size_t n, bool write, void* pc) {
  if (!E || !E->active) return;
  Access((u64)p, 1, write, false, pc);
  Access((u64)p + n - 1, 1, write, false, pc);
}
void mc_fill(void* p, int v, size_t n) { Ends(p, n, true, __builtin_return_address(0)); memset(p, v, n); }
void mc_copy(void* d, const void* s, size_t n) {
  Ends(s, n, false, __builtin_return_address(0));
  Ends(d, n, true, __builtin_return_address(0));
  memmove(d, s, n);
}
int mc_uniform(const void* p, size_t n) {
  Ends(p, n, false, __builtin_return_address(0));
  for (size_t i = 1; i < n; ++i) if (((const char*)p)[i] != *(const char*)p) return 0;
  return 1;
}
int mc_fiber(void) { return E->cur ? E->cur->id : -1; }
uint64_t mc_execution(void) { return E->gen; }
void mc_point(const char* what) {
  if (!E->active || E->cur->quiet) return;
  Point(what, nullptr, __builtin_return_address(0));
  SetChain(E->cur, Mix(E->cur->chain, 0x99));   // a position of its own
}
void mc_acquire(void* obj) {
  if (!E->active) return;
  Fiber* f = E->cur;
  Sync* s = Obj(obj);
  Event(f, s, 3, true);
  AcquireVC(f, s);
}
void mc_release(void* obj) {
  if (!E->active) return;
  Fiber* f = E->cur;
  Sync* s = Obj(obj);
  Event(f, s, 4, true);
  ReleaseVC(f, s, true);
}
// Reference counts: an increment is no event (whoever makes it owns one), the
// order of decrements matters only for who comes last.
int mc_ref_add(volatile int* p, int v) noexcept {
  if (!E || !E->active || E->cur->quiet) { int o = *p; *p = o + v; return o; }
  void* pc = __builtin_return_address(0);
  Sync* s = Obj((void*)((u64)p & ~7ull));
  s->ref = true;
  if (v >= 0) {
    Access((u64)p, 4, true, true, pc);
    int o = *p;
    *p = o + v;
    return o;
  }
  Point("release", (void*)p, pc);
  Access((u64)p, 4, true, true, pc);
  Fiber* f = E->cur;
  s = Obj((void*)p);
  int o = *p;
  *p = o + v;
  ++E->n_events;
  SetChain(f, Mix(f->chain, (u64)p * 4 + (o == -v)));
  ReleaseVC(f, s, true);
  if (o == -v) AcquireVC(f, s);
  return o;
}
void mc_note(void* obj) {
  if (!E->active) return;
  Event(E->cur, Obj(obj), 13, true);
}
void mc_wait(bool (*ready)(void*), void* arg, void* obj, const char* what) {
  Fiber* f = E->cur;
  f->pred = ready; f->parg = arg;
  BlockFor(1, what);
  Trace(what, obj, __builtin_return_address(0));
  mc_acquire(obj);
}
void mc_lock(void* m, int shared) {
  if (!E->active || E->cur->quiet) return;
  void* pc = __builtin_return_address(0);
  Fiber* f = E->cur;
  Sync* s = Obj(m);
  if (s->owner == f->id) Violation("deadlock", std::string(f->name) + " locks a mutex that it holds");
  f->parg = m; f->shared = shared;
  if (!Local(m) || s->owner >= 0) BlockFor(2, "a mutex");
  Trace(shared ? "reader lock" : "lock", m, pc);
  Access((u64)m, 1, false, true, pc);
  if (shared) ++s->readers; else s->owner = f->id;
  Event(f, s, 5 + shared, true);
  AcquireVC(f, s);
}
int mc_trylock(void* m, int shared) {
  if (!E->active || E->cur->quiet) return 1;
  void* pc = __builtin_return_address(0);
  Point("try lock", m, pc);
  Access((u64)m, 1, false, true, pc);
  Fiber* f = E->cur;
  Sync* s = Obj(m);
  bool free_ = shared ? s->owner < 0 : s->owner < 0 && s->readers == 0;
  Event(f, s, 7, true);
  if (!free_) return 0;
  if (shared) ++s->readers; else s->owner = f->id;
  AcquireVC(f, s);
  return 1;
}
void mc_unlock(void* m, int shared) {
  if (!E->active || E->cur->quiet) return;
  Fiber* f = E->cur;
  Sync* s = Obj(m);
  Access((u64)m, 1, false, true, __builtin_return_address(0));
  Trace("unlock", m, __builtin_return_address(0));
  if (shared ? s->readers <= 0 : s->owner != f->id) Violation("mutex", std::string(f->name) + " unlocks a mutex that it does not hold");
  if (shared) --s->readers; else s->owner = -1;
  Event(f, s, 8, true);
  ReleaseVC(f, s, true);
}
void mc_held(void* m) {
  if (!E->active || E->cur->quiet) return;
  Sync* s = Obj(m);
  if (s->owner != E->cur->id && s->readers == 0) Violation("mutex", "a mutex that must be held is not");
}

// The interface of compiler instrumentation.
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N) \
  void __tsan_read##N(void* a) { if (E && E->active) Access((u64)a, N, false, false, __builtin_return_address(0)); } \
  void __tsan_write##N(void* a) { if (E && E->active) Access((u64)a, N, true, false, __builtin_return_address(0)); } \
  void __tsan_unaligned_read##N(void* a) { if (E && E->active) Access((u64)a, N, false, false, __builtin_return_address(0)); } \
  void __tsan_unaligned_write##N(void* a) { if (E && E->active) Access((u64)a, N, true, false, __builtin_return_address(0)); } \
  void __tsan_volatile_read##N(void* a) { if (E && E->active) Access((u64)a, N, false, false, __builtin_return_address(0)); } \
  void __tsan_volatile_write##N(void* a) { if (E && E->active) Access((u64)a, N, true, false, __builtin_return_address(0)); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { if (E && E->active) Access((u64)a, n, false, false, __builtin_return_address(0)); }
void __tsan_write_range(void* a, size_t n) { if (E && E->active) Access((u64)a, n, true, false, __builtin_return_address(0)); }
void __tsan_vptr_update(void** p, void* v) { if (E && E->active) Access((u64)p, 8, *p != v, false, __builtin_return_address(0)); }
void __tsan_vptr_read(void** p) { if (E && E->active) Access((u64)p, 8, false, false, __builtin_return_address(0)); }

}  // extern "C"
namespace {
bool Acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
bool IsRef(const void* a) { return Obj((void*)((u64)a & ~7ull))->ref; }
void RefEvent(Fiber* f, const void* a, u64 v) { ++E->n_events; SetChain(f, Mix(f->chain, (u64)a * 8 + 4 + (v > 2 ? 2 : v))); }
bool Rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
bool Skip(const void* a) {
  if (!E || !E->active) return true;
  if (E->cur->quiet) return true;
  for (u64 g : E->guards) if (g == (u64)a && *(const char*)a) return true;
  return false;
}
void AtomicRead(Fiber* f, Sync* s, int mo) {
  if (Acq(mo)) AcquireVC(f, s);
  else if (s->has_vc) { JoinVC(&f->pend, s->vc, E->nf); f->has_pend = true; }
}
void AtomicWrite(Fiber* f, Sync* s, int mo, bool rmw) {
  if (Rel(mo)) ReleaseVC(f, s, rmw);
  else if (f->has_fence) { if (rmw && s->has_vc) JoinVC(&s->vc, f->fence, E->nf); else s->vc = f->fence; s->has_vc = true; }
  else if (!rmw) s->has_vc = false;   // a relaxed store ends the release sequence
}
}  // namespace
extern "C" {
#define ATOMIC(B, T) \
  T __tsan_atomic##B##_load(const volatile T* a, int mo) { \
    void* pc = __builtin_return_address(0); \
    if (Skip((void*)a)) return *a; \
    Point("load", (void*)a, pc); \
    Access((u64)a, sizeof(T), false, true, pc); \
    Fiber* f = E->cur; Sync* s = Obj((void*)a); if (IsRef((void*)a)) RefEvent(f, (void*)a, *a); else { Event(f, s, 9, false); AtomicRead(f, s, mo); } \
    return *a; \
  } \
  void __tsan_atomic##B##_store(volatile T* a, T v, int mo) { \
    void* pc = __builtin_return_address(0); \
    if (Skip((void*)a)) { *a = v; return; } \
    Point("store", (void*)a, pc); \
    Access((u64)a, sizeof(T), true, true, pc); \
    Fiber* f = E->cur; Sync* s = Obj((void*)a); Event(f, s, 10, true); AtomicWrite(f, s, mo, false); \
    *a = v; \
  } \
  static inline T Rmw##B(volatile T* a, T v, int mo, int op, void* pc) { \
    bool skip = Skip((void*)a); \
    if (!skip) { \
      Point("rmw", (void*)a, pc); \
      Access((u64)a, sizeof(T), true, true, pc); \
      Fiber* f = E->cur; Sync* s = Obj((void*)a); Event(f, s, 11, true); AtomicRead(f, s, mo); AtomicWrite(f, s, mo, true); \
    } \
    T old = *a; \
    switch (op) { case 0: *a = v; break; case 1: *a = old + v; break; case 2: *a = old - v; break; case 3: *a = old & v; break; case 4: *a = old | v; break; case 5: *a = old ^ v; break; case 6: *a = ~(old & v); break; } \
    return old; \
  } \
  T __tsan_atomic##B##_exchange(volatile T* a, T v, int mo) { return Rmw##B(a, v, mo, 0, __builtin_return_address(0)); } \
  T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int mo) { return Rmw##B(a, v, mo, 1, __builtin_return_address(0)); } \
  T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int mo) { return Rmw##B(a, v, mo, 2, __builtin_return_address(0)); } \
  T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int mo) { return Rmw##B(a, v, mo, 3, __builtin_return_address(0)); } \
  T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int mo) { return Rmw##B(a, v, mo, 4, __builtin_return_address(0)); } \
  T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int mo) { return Rmw##B(a, v, mo, 5, __builtin_return_address(0)); } \
  T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int mo) { return Rmw##B(a, v, mo, 6, __builtin_return_address(0)); } \
  static inline int Cas##B(volatile T* a, T* c, T v, int mo, int fmo, void* pc) { \
    bool skip = Skip((void*)a); \
    if (skip) { if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    if (IsRef((void*)a)) { Access((u64)a, sizeof(T), true, true, pc); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    Point("cas", (void*)a, pc); \
    bool ok = *a == *c; \
    Access((u64)a, sizeof(T), ok, true, pc); \
    Fiber* f = E->cur; Sync* s = Obj((void*)a); Event(f, s, 12, ok); AtomicRead(f, s, ok ? mo : fmo); \
    if (ok) { AtomicWrite(f, s, mo, true); *a = v; return 1; } \
    *c = *a; return 0; \
  } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { return Cas##B(a, c, v, mo, fmo, __builtin_return_address(0)); } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { return Cas##B(a, c, v, mo, fmo, __builtin_return_address(0)); } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { Cas##B(a, &c, v, mo, fmo, __builtin_return_address(0)); return c; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {
  if (!E || !E->active) return;
  Fiber* f = E->cur;
  if (Acq(mo) && f->has_pend) JoinVC(&f->vc, f->pend, E->nf);
  if (Rel(mo)) { f->fence = f->vc; f->has_fence = true; ++f->vc.c[f->id]; }
}
void __tsan_atomic_signal_fence(int) {}

// Statics of functions.
int __cxa_guard_acquire(u64* g) {
  char* c = (char*)g;
  if (E && E->active && !E->cur->quiet) {
    Point("static init", g, __builtin_return_address(0));
    if (c[1]) {
      struct P { static bool Done(void* p) { return !((char*)p)[1]; } };
      mc_wait(P::Done, g, g, "a static variable");
    }
    mc_acquire(g);
  }
  if (c[0]) return 0;
  c[1] = 1;
  return 1;
}
void __cxa_guard_release(u64* g) {
  char* c = (char*)g;
  c[1] = 0;
  c[0] = 1;
  if (E && E->active) {
    if (E->warm) E->guards.push_back((u64)g);
    mc_release(g);
  }
}
void __cxa_guard_abort(u64* g) { ((char*)g)[1] = 0; }
// What std::mutex and std::call_once are made of.
int pthread_mutex_lock(pthread_mutex_t* m) noexcept { if (E && E->active && !E->cur->quiet) mc_lock(m, 0); return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { if (E && E->active && !E->cur->quiet) mc_unlock(m, 0); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { return E && E->active && !E->cur->quiet && !mc_trylock(m, 0) ? EBUSY : 0; }
int pthread_once(pthread_once_t* o, void (*fn)()) {
  // 0, or 1 while it runs, or 2
  for (;;) {
    if (E && E->active && !E->cur->quiet) Point("once", o, __builtin_return_address(0));
    if (*o == 2) { if (E && E->active) mc_acquire(o); return 0; }
    if (*o == 0) break;
    struct P { static bool Done(void* p) { return *(int*)p != 1; } };
    mc_wait(P::Done, o, o, "std::call_once");
  }
  if (E && E->active) mc_acquire(o);
  *o = 1;
  try { fn(); } catch (...) { *o = 0; throw; }
  *o = 2;
  if (E && E->active) mc_release(o);
  return 0;
}
}  // extern "C"

void* operator new(size_t n) { return Alloc(n, 16); }
void* operator new[](size_t n) { return Alloc(n, 16); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return Alloc(n, 16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return Alloc(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return Alloc(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return Alloc(n, (size_t)a); }
#define DEL __builtin_return_address(0)
void operator delete(void* p) noexcept { Free(p, DEL); }
void operator delete[](void* p) noexcept { Free(p, DEL); }
void operator delete(void* p, size_t) noexcept { Free(p, DEL); }
void operator delete[](void* p, size_t) noexcept { Free(p, DEL); }
void operator delete(void* p, std::align_val_t) noexcept { Free(p, DEL); }
void operator delete[](void* p, std::align_val_t) noexcept { Free(p, DEL); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { Free(p, DEL); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { Free(p, DEL); }

int main(int argc, char** argv) {
  // usage: list | run NAME [bound [seconds]]
  std::string cmd = argc > 1 ? argv[1] : "list";
  if (!g_scenarios) g_scenarios = new std::vector<mc::Scenario>;
  if (cmd == "list") {
    for (auto& s : *g_scenarios) printf("%s %d\n", s.name.c_str(), s.bound);
    return 0;
  }
  mc::Scenario* sc = nullptr;
  for (auto& s : *g_scenarios) if (argc > 2 && s.name == argv[2]) sc = &s;
  if (!sc) { fprintf(stderr, "no such scenario\n"); return 2; }
  void* mem = calloc(1, sizeof(Engine));
  Engine* e = new (mem) Engine();
  e->kind = new std::string; e->msg = new std::string;
  e->heap = Map(kHeap);
  e->cells = (Cell*)Map(kHeap / 8 * sizeof(Cell));
  e->data_lo = (char*)(((u64)&__data_start + 15) & ~15ull);
  e->data_hi = (char*)((u64)&_end & ~7ull);
  e->dcells = (Cell*)Map(((e->data_hi - e->data_lo) / 8 + 2) * sizeof(Cell));
  e->persist_bump = e->heap;
  e->sync = (Sync*)Map(kSyncSlots * sizeof(Sync));
  E = e;
  dl_iterate_phdr(Phdr, nullptr);
  if (!E->tls_addr) { E->tls_addr = (char*)malloc(16); E->tls_n = 0; E->tls_init = (char*)malloc(16); }
  E->stacks = Map(kMaxFibers * (kStack + 4096));
  E->scells = (Cell*)Map(kMaxFibers * (kStack + 4096) / 8 * sizeof(Cell));
  for (int i = 0; i < kMaxFibers; ++i) {
    char* s = E->stacks + i * (kStack + 4096);
    mprotect(s, 4096, PROT_NONE);
    E->f[i].stack = s + 4096;
    E->f[i].base = E->heap + kPersist + i * kArena;
    E->f[i].tls = (char*)calloc(1, E->tls_n + 1);
  }
  __libc_single_threaded = 0;
  stack_t ss = {};
  ss.ss_sp = malloc(1 << 16);
  ss.ss_size = 1 << 16;
  sigaltstack(&ss, nullptr);
  struct sigaction sa = {};
  sa.sa_handler = OnSignal;
  sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) sigaction(s, &sa, nullptr);
  sa.sa_handler = OnAlarm;
  sigaction(SIGALRM, &sa, nullptr);
  itimerval it = {{20, 0}, {20, 0}};
  setitimer(ITIMER_REAL, &it, nullptr);
  return Explore(sc, argc > 3 && atoi(argv[3]) >= 0 ? atoi(argv[3]) : sc->bound, argc > 4 ? atof(argv[4]) : 0);
}
