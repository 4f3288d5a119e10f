// Exhaustive exploration of histories of operations on the real classes of
// koladata/internal, each compared with a reference model.
//
// A driver defines `Families()`: named sets of operations.  Every history of at
// most `depth` operations of a family is executed from the empty state; the
// states of the object and of the model are compared through every read the
// driver knows.  Output of `run`: one JSON object.
#ifndef VERIF_CORE_DRV_H_
#define VERIF_CORE_DRV_H_
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <unordered_set>
#include <utility>
#include <vector>
#include <unistd.h>
#include "absl/numeric/int128.h"
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "koladata/internal/data_item.h"
#include "koladata/internal/data_slice.h"
#include "koladata/internal/dtype.h"
#include "koladata/internal/object_id.h"
#include "koladata/internal/slice_builder.h"
#include "verif_fatal.h"

namespace drv {
namespace kd = ::koladata;
using kd::internal::AllocationId;
using kd::internal::DataItem;
using kd::internal::DataSliceImpl;
using kd::internal::ObjectId;

// Thrown when the code under test disagrees with the model.
struct Bad { std::string what; };
[[noreturn]] inline void Fail(std::string what) { throw Bad{std::move(what)}; }

struct Shard {
  std::string name;                         // of the family
  std::vector<std::string> ops;             // names of the operations
  int depth;                                // of the quick tier
  // Executes a history and compares; `state` gets a digest of the model.
  std::function<void(const std::vector<int>&, std::string* state)> run;
};
std::vector<Shard> Families();

// ---- Counters and the current history (for the report of a crash).
struct Global {
  uint64_t histories = 0, ops = 0, reads = 0, skipped = 0;  // skipped: the same as another history
  bool complete = true;
  int depth = -1;  // up to which all histories were run
  char history[4096] = {0};
  const char* shard = "";
};
inline Global g;
inline void Read() { ++g.reads; }
inline double Now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ---- Values.
inline DataItem I(int32_t x) { return DataItem(x); }
inline DataItem L(int64_t x) { return DataItem(x); }
inline DataItem F(float x) { return DataItem(x); }
inline DataItem D(double x) { return DataItem(x); }
inline DataItem B(bool x) { return DataItem(x); }
inline DataItem T(std::string_view s) { return DataItem(arolla::Text(s)); }
inline DataItem Y(std::string_view s) { return DataItem(arolla::Bytes(s)); }
inline DataItem U() { return DataItem(arolla::Unit{}); }
inline DataItem O(ObjectId o) { return DataItem(o); }
inline DataItem N() { return DataItem(); }

// A text form of an item that tells all items apart, by value and by type.
inline std::string Str(const DataItem& x) {
  if (!x.has_value()) return "-";
  return x.VisitValue([&]<typename V>(const V& v) -> std::string {
    char b[80];
    if constexpr (std::is_same_v<V, ObjectId>) {
      snprintf(b, sizeof b, "#%016llx%016llx", (unsigned long long)absl::Uint128High64(v.ToRawInt128()), (unsigned long long)absl::Uint128Low64(v.ToRawInt128()));
      return b;
    } else if constexpr (std::is_same_v<V, int32_t>) return "i" + std::to_string(v);
    else if constexpr (std::is_same_v<V, int64_t>) return "l" + std::to_string(v);
    else if constexpr (std::is_same_v<V, float>) { if (v != v) return "fnan"; snprintf(b, sizeof b, "f%a", (double)v); return b; }
    else if constexpr (std::is_same_v<V, double>) { if (v != v) return "dnan"; snprintf(b, sizeof b, "d%a", v); return b; }
    else if constexpr (std::is_same_v<V, bool>) return v ? "true" : "false";
    else if constexpr (std::is_same_v<V, arolla::Unit>) return "unit";
    else if constexpr (std::is_same_v<V, arolla::Text>) return "t'" + std::string(v.view()) + "'";
    else if constexpr (std::is_same_v<V, arolla::Bytes>) return "b'" + std::string(v) + "'";
    else if constexpr (std::is_same_v<V, kd::schema::DType>) return "dtype" + std::to_string(v.type_id());
    else return "other";
  });
}
inline std::string Str(const std::vector<DataItem>& v) {
  std::string r = "[";
  for (size_t i = 0; i < v.size(); ++i) r += (i ? ", " : "") + Str(v[i]);
  return r + "]";
}
inline bool Same(const DataItem& a, const DataItem& b) { return Str(a) == Str(b); }
inline std::vector<DataItem> Items(const DataSliceImpl& s) {
  std::vector<DataItem> r;
  for (size_t i = 0; i < s.size(); ++i) r.push_back(s[i]);
  return r;
}
inline DataSliceImpl Slice(const std::vector<DataItem>& v) { return DataSliceImpl::Create(absl::MakeConstSpan(v)); }
inline DataSliceImpl Slice(const std::vector<ObjectId>& v) {
  std::vector<DataItem> r; for (auto o : v) r.push_back(DataItem(o));
  return Slice(r);
}

// ---- Statuses.
inline std::string Str(const absl::Status& s) { return s.ToString(); }
inline void Ok(const absl::Status& s, const char* what) { if (!s.ok()) Fail(std::string(what) + " fails: " + s.ToString()); }
template <typename V> V Ok(absl::StatusOr<V> s, const char* what) {
  if (!s.ok()) Fail(std::string(what) + " fails: " + s.status().ToString());
  return *std::move(s);
}
template <typename S> void NotOk(const S& s, const char* what) { if (s.ok()) Fail(std::string(what) + " must fail"); }
inline void Eq(const DataItem& got, const DataItem& want, const std::string& what) {
  ++g.reads;
  if (!Same(got, want)) Fail(what + " = " + Str(got) + ", must be " + Str(want));
}

// The slice holds exactly `want`, and its derived facts agree with that.
inline void EqSlice(const DataSliceImpl& got, const std::vector<DataItem>& want, const std::string& what) {
  ++g.reads;
  auto items = Items(got);
  if (items.size() != want.size()) Fail(what + " has size " + std::to_string(items.size()) + ", must be " + std::to_string(want.size()));
  size_t present = 0;
  std::set<kd::internal::KodaTypeId> types;
  for (size_t i = 0; i < items.size(); ++i) {
    if (!Same(items[i], want[i])) Fail(what + " = " + Str(items) + ", must be " + Str(want));
    if (got.present(i) != want[i].has_value()) Fail(what + ": present(" + std::to_string(i) + ") is wrong for " + Str(want));
    if (want[i].has_value()) { ++present; types.insert(want[i].type_id()); }
  }
  if (got.present_count() != present) Fail(what + ": present_count() = " + std::to_string(got.present_count()) + " for " + Str(want));
  if (got.is_mixed_dtype() != (types.size() > 1)) Fail(what + ": is_mixed_dtype() is wrong for " + Str(want));
  if (types.empty() && got.is_single_dtype() && got.present_count() != 0) Fail(what + ": dtype of an empty slice");
  if (types.size() == 1) for (auto& w : want) if (w.has_value()) { if (got.dtype() != w.dtype()) Fail(what + ": dtype() is wrong for " + Str(want)); break; }
  if (!got.IsEquivalentTo(Slice(want)) || !Slice(want).IsEquivalentTo(got)) {
    bool nan = false;
    for (auto& w : want) nan |= w.is_nan();
    if (!nan) Fail(what + " is not equivalent to a slice of " + Str(want));
  }
  // The allocations of the ids in it.
  for (auto& w : want) if (w.holds_value<ObjectId>()) {
    ObjectId o = w.value<ObjectId>();
    bool found = o.IsSmallAlloc() ? got.allocation_ids().contains_small_allocation_id() : false;
    if (!o.IsSmallAlloc()) for (AllocationId a : got.allocation_ids()) found |= a == AllocationId(o);
    if (!found) Fail(what + ": allocation_ids() lacks the allocation of " + Str(w));
  }
}

// ---- Exploration.
inline void SetHistory(const Shard& s, const std::vector<int>& h) {
  std::string t;
  for (int o : h) t += (t.empty() ? "" : " ; ") + s.ops[o];
  strncpy(g.history, t.c_str(), sizeof g.history - 1);
}
inline std::string Json(std::string_view s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
inline void Report(const char* kind, const std::string& what, uint64_t states) {
  printf("{\"shard\":%s,\"complete\":%s,\"depth\":%d,\"histories\":%llu,\"operations\":%llu,\"reads\":%llu,\"states\":%llu,\"kind\":%s,\"message\":%s,\"history\":%s}\n",
         Json(g.shard).c_str(), g.complete ? "true" : "false", g.depth, (unsigned long long)(g.histories - g.skipped), (unsigned long long)g.ops, (unsigned long long)g.reads,
         (unsigned long long)states, kind ? Json(kind).c_str() : "null", Json(what).c_str(), Json(g.history).c_str());
  fflush(stdout);
}
inline void OnSignal(int sig) {
  Report(sig == SIGALRM ? "hang" : "crash", "signal " + std::to_string(sig), 0);
  _exit(3);
}

// The histories of length 0, 1, 2, ..., depth; part k of n takes those whose
// first two operations have an index that is k modulo n.
inline int Explore(const Shard& s, int depth, int k, int n, double secs) {
  g.shard = strdup(s.name.c_str());
  for (int sig : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM}) signal(sig, OnSignal);
  const double end = Now() + secs;
  std::unordered_set<size_t> states;
  std::vector<int> h;
  const int m = s.ops.size();
  int want = 0;
  std::function<void()> rec = [&] {
    if ((int)h.size() == want) {
      if (h.size() < 2 && (h.empty() ? 0 : h[0] % n) != k) return;
      SetHistory(s, h);
      if (g.histories % 64 == 0) { alarm(60); if (Now() > end) { g.complete = false; return; } }
      std::string st;
      const uint64_t sk = g.skipped;
      s.run(h, &st);
      if (g.skipped == sk) g.ops += h.size();
      ++g.histories;
      states.insert(std::hash<std::string>()(st));
      return;
    }
    for (int o = 0; o < m && g.complete; ++o) {
      if (h.size() == 1 && want >= 2 && (h[0] * m + o) % n != k) continue;
      h.push_back(o); rec(); h.pop_back();
    }
  };
  try { for (want = 0; want <= depth && g.complete; ++want) { rec(); if (g.complete) g.depth = want; } }
  catch (const Bad& b) { Report("property", b.what, states.size()); return 1; }
  catch (const std::exception& e) { Report("crash", std::string("exception: ") + e.what(), states.size()); return 1; }
  g.history[0] = 0;
  Report(nullptr, "", states.size());
  return 0;
}
}  // namespace drv

void verif_fatal(const char* what) { drv::Report("crash", what, 0); _exit(3); }
uint64_t verif_unique() { static uint64_t n = 0; return ++n; }

int main(int argc, char** argv) {
  auto fs = drv::Families();
  if (argc >= 2 && !strcmp(argv[1], "list")) {
    for (auto& f : fs) printf("%s %d %zu\n", f.name.c_str(), f.depth, f.ops.size());
    return 0;
  }
  if (argc >= 7 && !strcmp(argv[1], "run"))
    for (auto& f : fs) if (f.name == argv[2]) return drv::Explore(f, atoi(argv[3]), atoi(argv[4]), atoi(argv[5]), atof(argv[6]));
  fprintf(stderr, "usage: list | run FAMILY DEPTH PART PARTS SECONDS\n");
  return 2;
}
#endif
