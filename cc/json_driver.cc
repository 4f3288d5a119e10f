// Drives the JSON stream processors of koladata.
//
//   json_driver batch          requests on stdin, answers on stdout (framing below)
//   json_driver enum ...       exhaustive enumeration of token strings through
//                              JsonSalvageStreamProcessor, judged by a strict
//                              JSON validator written here from RFC 8259
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <thread>
#include <variant>
#include <vector>
#include <atomic>
#include <mutex>

#include "absl/types/span.h"
#include "koladata/internal/op_utils/json_stream.h"

using namespace koladata::internal;
using Path = std::vector<std::variant<int64_t, std::string>>;

// ------------------------------------------------------------ processors
struct Proc {
  virtual ~Proc() = default;
  virtual JsonStreamProcessResult Process(std::string_view c, bool end) = 0;
};
template <typename P>
struct ProcT : Proc {
  P p;
  explicit ProcT(P q) : p(std::move(q)) {}
  JsonStreamProcessResult Process(std::string_view c, bool end) override { return p.Process(c, end); }
};
template <typename P>
std::unique_ptr<Proc> Wrap(P p) { return std::make_unique<ProcT<P>>(std::move(p)); }

struct Request {
  uint8_t proc = 0;
  uint8_t mode = 0;   // 0: as given; 1: all splits; 2: + one split per byte and all single cuts
  uint8_t flags = 0;  // salvage: 1 allow_nan, 2 ensure_ascii; extract: 1 with_path
  int64_t n = 0;      // head n, nth n, salvage max_depth
  std::string text;   // prettify indent
  std::vector<Path> paths;
  std::vector<std::string> chunks;
};

std::unique_ptr<Proc> Make(const Request& r) {
  switch (r.proc) {
    case 0: return Wrap(JsonSalvageStreamProcessor(JsonSalvageOptions{
        .allow_nan = (r.flags & 1) != 0, .ensure_ascii = (r.flags & 2) != 0, .max_depth = r.n}));
    case 1: return Wrap(JsonHeadStreamProcessor(JsonHeadOptions{.n = r.n}));
    case 2: return Wrap(JsonPrettifyStreamProcessor(JsonPrettifyOptions{.indent_string = r.text}));
    case 3: return Wrap(JsonCompactifyStreamProcessor());
    case 4: return Wrap(JsonSelectNonemptyObjectsStreamProcessor());
    case 5: return Wrap(JsonSelectNonemptyArraysStreamProcessor());
    case 6: return Wrap(JsonSelectNonnullStreamProcessor());
    case 7: {
      auto paths = std::make_shared<std::set<Path>>(r.paths.begin(), r.paths.end());
      return Wrap(JsonExtractValuesStreamProcessor(JsonExtractValuesOptions{
          .path_match_fn = [paths](absl::Span<const std::variant<int64_t, std::string>> p) {
            return paths->count(Path(p.begin(), p.end())) > 0;
          },
          .with_path = (r.flags & 1) != 0}));
    }
    case 8: return Wrap(JsonImplodeArrayStreamProcessor());
    case 9: return Wrap(JsonExplodeArrayStreamProcessor());
    case 10: return Wrap(JsonGetArrayNthValueStreamProcessor(JsonGetArrayNthValueOptions{.n = r.n}));
    case 11: return Wrap(JsonUnquoteStreamProcessor());
    case 12: return Wrap(JsonQuoteStreamProcessor());
    case 13: return Wrap(JsonChunkValuesStreamProcessor());
  }
  std::abort();
}

struct Outcome {
  std::vector<std::vector<std::string>> per_input;  // chunks produced by each input chunk
  int ended_at = -1;                                // input chunk that ended the output
  std::string joined;
};

Outcome Run(const Request& r, const std::vector<std::string_view>& chunks, bool separate_end) {
  Outcome o;
  auto p = Make(r);
  size_t total = chunks.size() + (separate_end ? 1 : 0);
  for (size_t i = 0; i < total; ++i) {
    bool last = i + 1 == total;
    auto res = p->Process(i < chunks.size() ? chunks[i] : std::string_view(), last);
    o.per_input.emplace_back(res.chunks.begin(), res.chunks.end());
    for (auto& c : res.chunks) o.joined += c;
    if (res.is_end) {
      o.ended_at = static_cast<int>(i);
      break;
    }
  }
  return o;
}

// What must not depend on the chunking.
std::string Canon(const Request& r, const Outcome& o) {
  std::string s = o.ended_at < 0 ? "!" : "";
  if (r.proc == 13) {  // chunk boundaries are part of the contract
    for (auto& v : o.per_input) for (auto& c : v) { s += c; s += '\0'; }
    return s;
  }
  return s + o.joined;
}

bool ReadAll(void* p, size_t n) { return std::fread(p, 1, n, stdin) == n; }
std::string ReadStr() {
  uint32_t n;
  if (!ReadAll(&n, 4)) std::abort();
  std::string s(n, '\0');
  if (n && !ReadAll(s.data(), n)) std::abort();
  return s;
}
void Put(const std::string& s) {
  uint32_t n = s.size();
  std::fwrite(&n, 1, 4, stdout);
  std::fwrite(s.data(), 1, n, stdout);
}
void PutInt(int32_t v) { std::fwrite(&v, 1, 4, stdout); }

int Batch() {
  uint64_t runs = 0;
  while (true) {
    Request r;
    if (!ReadAll(&r.proc, 1)) break;
    if (r.proc == 255) {
      // barrier
      PutInt(static_cast<int32_t>(runs));
      std::fflush(stdout);
      continue;
    }
    ReadAll(&r.mode, 1);
    ReadAll(&r.flags, 1);
    ReadAll(&r.n, 8);
    r.text = ReadStr();
    uint32_t np;
    ReadAll(&np, 4);
    for (uint32_t i = 0; i < np; ++i) {
      uint32_t k;
      ReadAll(&k, 4);
      Path p;
      for (uint32_t j = 0; j < k; ++j) {
        uint8_t kind;
        ReadAll(&kind, 1);
        if (kind == 0) {
          int64_t v;
          ReadAll(&v, 8);
          p.push_back(v);
        } else {
          p.push_back(ReadStr());
        }
      }
      r.paths.push_back(std::move(p));
    }
    uint32_t nc;
    ReadAll(&nc, 4);
    for (uint32_t i = 0; i < nc; ++i) r.chunks.push_back(ReadStr());

    std::vector<std::string_view> given(r.chunks.begin(), r.chunks.end());
    Outcome base = Run(r, given, /*separate_end=*/true);
    ++runs;
    std::string want = Canon(r, base);
    std::string bad;
    std::string whole;
    for (auto& c : r.chunks) whole += c;
    auto check = [&](const std::vector<std::string_view>& ch, bool sep) {
      if (!bad.empty()) return;
      ++runs;
      Outcome o = Run(r, ch, sep);
      if (Canon(r, o) != want) {
        bad = "chunks";
        for (auto c : ch) { bad += " <"; bad += c; bad += ">"; }
        bad += sep ? " +end" : " (end with the last)";
        bad += " give <" + Canon(r, o) + "> instead of <" + want + ">";
      }
    };
    if (r.mode >= 1) {
      size_t n = whole.size();
      std::string_view w(whole);
      check({w}, false);
      check({std::string_view(), w, std::string_view()}, true);
      std::vector<std::string_view> bytes;
      for (size_t i = 0; i < n; ++i) bytes.push_back(w.substr(i, 1));
      check(bytes, true);
      if (n) check(bytes, false);
      if (r.mode == 1 && n <= 12 && n > 1) {
        for (uint32_t mask = 0; mask < (1u << (n - 1)); ++mask) {
          std::vector<std::string_view> ch;
          size_t start = 0;
          for (size_t i = 1; i <= n; ++i)
            if (i == n || (mask >> (i - 1) & 1)) { ch.push_back(w.substr(start, i - start)); start = i; }
          check(ch, true);
        }
      } else {
        for (size_t i = 1; i < n; ++i) check({w.substr(0, i), w.substr(i)}, true);
      }
    }
    PutInt(base.ended_at);
    PutInt(static_cast<int32_t>(base.per_input.size()));
    for (auto& v : base.per_input) {
      PutInt(static_cast<int32_t>(v.size()));
      for (auto& c : v) Put(c);
    }
    Put(bad);
  }
  return 0;
}

// ------------------------------------------------------- strict JSON judge
struct Judge {
  std::string_view s;
  size_t i = 0;
  bool nan = false;
  int64_t max_depth = 0, depth = 0, seen_depth = 0;
  const char* err = nullptr;
  bool Fail(const char* e) { if (!err) err = e; return false; }
  bool Lit(std::string_view l) {
    if (s.substr(i, l.size()) == l) { i += l.size(); return true; }
    return false;
  }
  static bool Digit(char c) { return c >= '0' && c <= '9'; }
  bool Number() {
    if (i < s.size() && s[i] == '-') ++i;
    if (i >= s.size() || !Digit(s[i])) return Fail("number without digits");
    if (s[i] == '0') ++i; else while (i < s.size() && Digit(s[i])) ++i;
    if (i < s.size() && s[i] == '.') {
      ++i;
      if (i >= s.size() || !Digit(s[i])) return Fail("no digit after the point");
      while (i < s.size() && Digit(s[i])) ++i;
    }
    if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
      ++i;
      if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
      if (i >= s.size() || !Digit(s[i])) return Fail("no digit in the exponent");
      while (i < s.size() && Digit(s[i])) ++i;
    }
    return true;
  }
  bool String() {
    ++i;
    int pending_lead = 0;
    while (true) {
      if (i >= s.size()) return Fail("unterminated string");
      unsigned char c = s[i];
      if (c == '"') {
        ++i;
        if (pending_lead) return Fail("lone surrogate escape");
        return true;
      }
      if (c < 0x20) return Fail("control character in a string");
      if (c == '\\') {
        ++i;
        if (i >= s.size()) return Fail("unterminated escape");
        char e = s[i];
        if (e == 'u') {
          unsigned v = 0;
          for (int k = 1; k <= 4; ++k) {
            if (i + k >= s.size() || !isxdigit(static_cast<unsigned char>(s[i + k]))) return Fail("bad \\u escape");
            char h = s[i + k];
            v = v * 16 + (Digit(h) ? h - '0' : (h | 32) - 'a' + 10);
          }
          i += 5;
          if (v >= 0xD800 && v < 0xDC00) {
            if (pending_lead) return Fail("lone surrogate escape");
            pending_lead = 1;
          } else if (v >= 0xDC00 && v < 0xE000) {
            if (!pending_lead) return Fail("lone surrogate escape");
            pending_lead = 0;
          } else if (pending_lead) {
            return Fail("lone surrogate escape");
          }
          continue;
        }
        if (pending_lead) return Fail("lone surrogate escape");
        if (!strchr("\"\\/bfnrt", e) || e == '\0') return Fail("bad escape");
        ++i;
        continue;
      }
      if (pending_lead) return Fail("lone surrogate escape");
      ++i;
    }
  }
  bool Value() {
    if (i >= s.size()) return Fail("value expected");
    char c = s[i];
    if (c == '"') return String();
    if (c == '[' || c == '{') {
      bool obj = c == '{';
      char close = obj ? '}' : ']';
      if (++depth > seen_depth) seen_depth = depth;
      ++i;
      bool first = true;
      while (true) {
        Ws();
        if (i < s.size() && s[i] == close && first) { ++i; break; }
        if (!first) {
          if (i < s.size() && s[i] == close) { ++i; break; }
          if (i >= s.size() || s[i] != ',') return Fail("no comma between values");
          ++i;
          Ws();
        }
        first = false;
        if (obj) {
          if (i >= s.size() || s[i] != '"') return Fail("object key is not a string");
          if (!String()) return false;
          Ws();
          if (i >= s.size() || s[i] != ':') return Fail("no colon after a key");
          ++i;
          Ws();
        }
        if (!Value()) return false;
      }
      --depth;
      return true;
    }
    if (c == '-' || Digit(c)) {
      if (nan && s.substr(i, 9) == "-Infinity") { i += 9; return true; }
      return Number();
    }
    if (Lit("true") || Lit("false") || Lit("null")) return true;
    if (nan && (Lit("NaN") || Lit("Infinity"))) return true;
    return Fail("not a JSON value");
  }
  void Ws() { while (i < s.size() && (s[i] == ' ' || s[i] == '\n' || s[i] == '\r' || s[i] == '\t')) ++i; }
  static bool Utf8(std::string_view s) {
    for (size_t i = 0; i < s.size();) {
      unsigned char c = s[i];
      int n = c < 0x80 ? 1 : c >= 0xC2 && c < 0xE0 ? 2 : c >= 0xE0 && c < 0xF0 ? 3 : c >= 0xF0 && c < 0xF5 ? 4 : 0;
      if (!n || i + n > s.size()) return false;
      for (int k = 1; k < n; ++k) if ((s[i + k] & 0xC0) != 0x80) return false;
      unsigned char d = n > 1 ? s[i + 1] : 0;
      if (c == 0xE0 && d < 0xA0) return false;
      if (c == 0xED && d >= 0xA0) return false;
      if (c == 0xF0 && d < 0x90) return false;
      if (c == 0xF4 && d >= 0x90) return false;
      i += n;
    }
    return true;
  }
  // Newline-separated valid JSON values.
  bool Stream(bool ascii) {
    if (!Utf8(s)) return Fail("output is not UTF-8");
    if (ascii) for (unsigned char c : s) if (c >= 0x80) return Fail("non-ASCII output with ensure_ascii");
    bool first = true;
    while (true) {
      size_t start = i;
      Ws();
      if (i >= s.size()) return true;
      if (!first && s.substr(start, i - start).find('\n') == std::string_view::npos)
        return Fail("values not separated by a newline");
      if (!Value()) return false;
      first = false;
    }
  }
};

struct EnumStats {
  uint64_t nodes = 0;
  uint64_t values = 0;
};

std::mutex out_mu;
std::atomic<int> reported{0};
std::set<std::string> reported_kinds;

std::string Hex(std::string_view s) {
  static const char* d = "0123456789abcdef";
  std::string r;
  for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; }
  return r;
}

void Report(const std::string& kind, const JsonSalvageOptions& o, const std::string& in, const std::string& out) {
  std::lock_guard<std::mutex> l(out_mu);
  // A few inputs per kind and option set; the exploration is not cut short.
  std::string k = kind + (o.allow_nan ? "n" : "") + (o.ensure_ascii ? "a" : "") + std::to_string(o.max_depth);
  if (!reported_kinds.insert(k).second || reported > 200) return;
  ++reported;
  std::printf("BAD\t%s\t%d\t%d\t%lld\t%s\t%s\n", kind.c_str(), o.allow_nan, o.ensure_ascii,
              static_cast<long long>(o.max_depth), Hex(in).c_str(), Hex(out).c_str());
}

void CheckFinal(const JsonSalvageOptions& o, const std::string& in, const std::string& out, EnumStats& st) {
  Judge j{out};
  j.nan = o.allow_nan;
  if (!j.Stream(o.ensure_ascii)) {
    Report(std::string("invalid: ") + j.err, o, in, out);
  } else if (j.seen_depth > o.max_depth) {
    Report("depth: output nests deeper than max_depth", o, in, out);
  }
  // Whole input in one chunk, with the end in the same call.
  JsonSalvageStreamProcessor p(o);
  auto r = p.Process(in, true);
  std::string whole;
  for (auto& c : r.chunks) whole += c;
  if (whole != out || !r.is_end) Report("chunking: depends on how the input is split", o, in, out + " | " + whole);
}

void Dfs(const JsonSalvageOptions& o, const JsonSalvageStreamProcessor& p, const std::string& in,
         const std::string& out, const std::vector<std::string>& toks, int left, EnumStats& st) {
  ++st.nodes;
  {
    JsonSalvageStreamProcessor q(p);
    auto r = q.Process("", true);
    std::string fin = out;
    for (auto& c : r.chunks) fin += c;
    if (!r.is_end) Report("end: end of input does not end the output", o, in, fin);
    CheckFinal(o, in, fin, st);
  }
  if (!left) return;
  for (auto& t : toks) {
    JsonSalvageStreamProcessor q(p);
    auto r = q.Process(t, false);
    if (r.is_end) Report("end: output ended before the input", o, in + t, out);
    std::string out2 = out;
    for (auto& c : r.chunks) out2 += c;
    Dfs(o, q, in + t, out2, toks, left - 1, st);
  }
}

std::string Unhex(const std::string& h) {
  std::string r;
  for (size_t i = 0; i + 1 < h.size(); i += 2) r += static_cast<char>(std::stoi(h.substr(i, 2), nullptr, 16));
  return r;
}

// enum <depth> <flags> <max_depth> <hex prefix or -> <hex token>...
int Enum(int argc, char** argv) {
  int depth = std::atoi(argv[2]);
  int flags = std::atoi(argv[3]);
  int64_t md = std::atoll(argv[4]);
  std::string prefix = std::string(argv[5]) == "-" ? "" : Unhex(argv[5]);
  std::vector<std::string> toks;
  for (int i = 6; i < argc; ++i) toks.push_back(Unhex(argv[i]));
  JsonSalvageOptions o{.allow_nan = (flags & 1) != 0, .ensure_ascii = (flags & 2) != 0, .max_depth = md};
  std::atomic<size_t> next{0};
  std::atomic<uint64_t> nodes{0};
  std::vector<std::thread> ts;
  auto root_out = [&](JsonSalvageStreamProcessor& p) {
    auto r = p.Process(prefix, false);
    std::string out;
    for (auto& c : r.chunks) out += c;
    return out;
  };
  unsigned nt = 8;
  for (unsigned t = 0; t < nt; ++t) {
    ts.emplace_back([&] {
      while (true) {
        size_t i = next++;
        if (i >= toks.size()) return;
        EnumStats st;
        JsonSalvageStreamProcessor p(o);
        std::string out = root_out(p);
        auto r = p.Process(toks[i], false);
        for (auto& c : r.chunks) out += c;
        Dfs(o, p, prefix + toks[i], out, toks, depth - 1, st);
        nodes += st.nodes;
      }
    });
  }
  for (auto& t : ts) t.join();
  EnumStats st;
  {
    JsonSalvageStreamProcessor p(o);
    std::string out = root_out(p);
    Dfs(o, p, prefix, out, {}, 0, st);
  }
  std::printf("NODES\t%llu\n", static_cast<unsigned long long>(nodes + st.nodes));
  return 0;
}

int main(int argc, char** argv) {
  if (argc > 1 && std::string(argv[1]) == "batch") return Batch();
  if (argc > 6 && std::string(argv[1]) == "enum") return Enum(argc, argv);
  return 2;
}
