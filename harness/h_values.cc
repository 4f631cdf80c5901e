// C09 (coding), C10 (decode), C11 (slice), C12 (status), C13 (decimal),
// C14 (hash), C15 (random): value-level components against references.
#include "vh.h"

#include <sys/mman.h>

#include <algorithm>
#include <memory>
#include <new>

#include <fcntl.h>
#include <unistd.h>

#include "lsmdb/slice.h"
#include "lsmdb/status.h"
#include "util/coding.h"
#include "util/hash.h"
#include "util/logging.h"
#include "util/random.h"

using lsmdb::Slice;
using lsmdb::Status;
using vh::Rng;

// A copy in a heap block of exactly the right size, at the end of which ASan
// (or nothing, in plain builds) stands guard.
struct Exact {
  char* p;
  size_t n;
  explicit Exact(const std::string& s) : p(new char[s.size()]), n(s.size()) { memcpy(p, s.data(), n); }
  ~Exact() { delete[] p; }
  Exact(const Exact&) = delete;
  Slice slice() const { return Slice(p, n); }
};

static std::string hex(const std::string& s) {
  std::string r;
  for (unsigned char c : s.substr(0, 40)) r += vh::fmt("%02x", c);
  if (s.size() > 40) r += vh::fmt("..(%zu)", s.size());
  return r;
}

// ------------------------------------------------------- reference codec ---
static std::string ref_fixed(uint64_t v, int n) {
  std::string r;
  for (int i = 0; i < n; ++i) r += (char)(v >> (8 * i));
  return r;
}
static std::string ref_varint(uint64_t v) {
  std::string r;
  for (;;) {
    unsigned char b = v % 128;
    v /= 128;
    if (v) r += (char)(b + 128);
    else { r += (char)b; return r; }
  }
}
// Returns consumed bytes or 0; *overflow when significant bits do not fit.
static size_t ref_decode(const std::string& s, size_t pos, int maxbytes, int bits, uint64_t* v, bool* overflow) {
  unsigned __int128 x = 0;
  for (int i = 0; i < maxbytes; ++i) {
    if (pos + i >= s.size()) return 0;
    unsigned char b = s[pos + i];
    x += (unsigned __int128)(b & 127) << (7 * i);
    if (b < 128) {
      *overflow = (x >> bits) != 0;
      *v = (uint64_t)x;
      return i + 1;
    }
  }
  return 0;
}

static uint64_t value_of(Rng& r) {
  switch (r.below(5)) {
    case 0: { uint64_t b = 1ull << r.below(64); return b + r.below(3) - 1; }
    case 1: { uint64_t b = 1ull << (7 * r.below(10)); return b + r.below(5) - 2; }
    case 2: return ~0ull - r.below(4);
    case 3: return r.below(300);
    default: return r.skewed(64);
  }
}

// The pointer form of the length-prefixed decoder is an external function of
// coding.cc although no header declares it; judged where it exists.
namespace lsmdb {
__attribute__((weak)) const char* GetLengthPrefixedSlice(const char* p, const char* limit, Slice* result);
}

#define BAD(key, ...) do { vh::viol((key), vh::fmt(__VA_ARGS__)); return; } while (0)

static void one_value(uint64_t v) {
  // Varint 64.
  std::string e = ref_varint(v);
  if (lsmdb::VarintLength(v) != (int)e.size()) BAD("coding-length", "VarintLength(%llu) is %d, the encoding has %zu bytes", (unsigned long long)v, lsmdb::VarintLength(v), e.size());
  {
    std::unique_ptr<char[]> b(new char[e.size()]);
    char* q = lsmdb::EncodeVarint64(b.get(), v);
    if ((size_t)(q - b.get()) != e.size() || memcmp(b.get(), e.data(), e.size())) BAD("coding-varint64", "EncodeVarint64(%llu) gives %s, expected %s", (unsigned long long)v, hex(std::string(b.get(), std::min<size_t>(e.size(), q - b.get()))).c_str(), hex(e).c_str());
    uint64_t d = ~v;
    const char* p = lsmdb::GetVarint64Ptr(b.get(), b.get() + e.size(), &d);
    if (p != b.get() + e.size() || d != v) BAD("coding-varint64", "GetVarint64Ptr does not decode %llu", (unsigned long long)v);
  }
  {
    std::unique_ptr<char[]> b(new char[8]);
    lsmdb::EncodeFixed64(b.get(), v);
    if (std::string(b.get(), 8) != ref_fixed(v, 8) || lsmdb::DecodeFixed64(b.get()) != v) BAD("coding-fixed64", "fixed 64-bit coding of %llu", (unsigned long long)v);
  }
  uint32_t w = (uint32_t)v;
  e = ref_varint(w);
  {
    std::unique_ptr<char[]> b(new char[e.size()]);
    char* q = lsmdb::EncodeVarint32(b.get(), w);
    if ((size_t)(q - b.get()) != e.size() || memcmp(b.get(), e.data(), e.size())) BAD("coding-varint32", "EncodeVarint32(%u) gives %s, expected %s", w, hex(std::string(b.get(), std::min<size_t>(e.size(), q - b.get()))).c_str(), hex(e).c_str());
    uint32_t d = ~w;
    const char* p = lsmdb::GetVarint32Ptr(b.get(), b.get() + e.size(), &d);
    if (p != b.get() + e.size() || d != w) BAD("coding-varint32", "GetVarint32Ptr does not decode %u", w);
  }
  {
    std::unique_ptr<char[]> b(new char[4]);
    lsmdb::EncodeFixed32(b.get(), w);
    if (std::string(b.get(), 4) != ref_fixed(w, 4) || lsmdb::DecodeFixed32(b.get()) != w) BAD("coding-fixed32", "fixed 32-bit coding of %u", w);
  }
}

static void coding_case(Rng& r, uint64_t idx) {
  // Sequences of items after existing content.
  struct Item { int kind; uint64_t v; std::string s; };
  std::vector<Item> items;
  std::string prefix = r.nasty(r.below(20)), buf = prefix, expect = prefix;
  size_t n = r.range(1, 60);
  uint64_t sig = vh::hash_str(prefix);
  for (size_t i = 0; i < n; ++i) {
    Item it{(int)r.below(5), value_of(r), ""};
    if (it.kind == 0 || it.kind == 2) it.v = (uint32_t)it.v;
    size_t before = buf.size();
    switch (it.kind) {
      case 0: lsmdb::PutFixed32(&buf, (uint32_t)it.v); expect += ref_fixed(it.v, 4); break;
      case 1: lsmdb::PutFixed64(&buf, it.v); expect += ref_fixed(it.v, 8); break;
      case 2: lsmdb::PutVarint32(&buf, (uint32_t)it.v); expect += ref_varint(it.v); break;
      case 3: lsmdb::PutVarint64(&buf, it.v); expect += ref_varint(it.v); break;
      default: {
        size_t len = r.one_in(30) ? r.range(0, 70000) : r.one_in(3) ? r.range(120, 135) : r.below(40);
        it.s = r.nasty(len);
        if (r.one_in(6)) {  // no zero byte anywhere, up to long
          it.s = std::string(r.one_in(12) ? r.range(16000, 200000) : len, (char)r.range(1, 255));
          if (!it.s.empty()) it.s[r.below(it.s.size())] = (char)r.range(1, 255);
        }
        Exact ex(it.s);
        lsmdb::PutLengthPrefixedSlice(&buf, ex.slice());
        expect += ref_varint(it.s.size()) + it.s;
      }
    }
    if (buf != expect) BAD("coding-append", "item %zu of kind %d (value %llu, length %zu) appended at %zu: got %s, expected %s", i, it.kind, (unsigned long long)it.v, it.s.size(), before, hex(buf.substr(std::min(before, buf.size()))).c_str(), hex(expect.substr(before)).c_str());
    sig = vh::mix(sig ^ it.v ^ vh::hash_str(it.s) ^ it.kind);
    items.push_back(it);
  }
  Exact ex(buf.substr(prefix.size()));
  Slice in = ex.slice();
  for (size_t i = 0; i < n; ++i) {
    const Item& it = items[i];
    bool ok = true;
    switch (it.kind) {
      case 0: ok = in.size() >= 4 && lsmdb::DecodeFixed32(in.data()) == (uint32_t)it.v; in.remove_prefix(std::min<size_t>(4, in.size())); break;
      case 1: ok = in.size() >= 8 && lsmdb::DecodeFixed64(in.data()) == it.v; in.remove_prefix(std::min<size_t>(8, in.size())); break;
      case 2: { uint32_t d = 0; ok = lsmdb::GetVarint32(&in, &d) && d == it.v; break; }
      case 3: { uint64_t d = 0; ok = lsmdb::GetVarint64(&in, &d) && d == it.v; break; }
      default: { Slice d; ok = lsmdb::GetLengthPrefixedSlice(&in, &d) && d.size() == it.s.size() && memcmp(d.data(), it.s.data(), it.s.size()) == 0; }
    }
    if (!ok) BAD("coding-sequence", "item %zu of kind %d (value %llu, length %zu) does not decode from the sequence", i, it.kind, (unsigned long long)it.v, it.s.size());
  }
  VH_CHECK(in.size() == 0, "coding-sequence", "%zu bytes left after decoding everything", in.size());
  vh::count("items", n);
  int v0 = vh::st().violations;
  for (int i = 0; i < 400 && vh::st().violations == v0; ++i) one_value(value_of(r));
  // Every value at and around each power of two.
  if (idx % 16 == 0) for (int b = 0; b < 64 && vh::st().violations == v0; ++b) for (int d = -2; d <= 2; ++d) one_value((1ull << b) + d);
  vh::count("values", 400);
  vh::evaluated(sig);
  if (vh::want_sample()) vh::sample(vh::fmt("case %llu: %zu items in %zu bytes after a prefix of %zu, e.g. kind %d value %llu", (unsigned long long)idx, n, buf.size(), prefix.size(), items[0].kind, (unsigned long long)items[0].v));
}

// All 32-bit values, 2^20 per case.
static void sweep_case(Rng& r, uint64_t idx) {
  uint64_t base = (idx % 4096) << 20;
  uint64_t stride = vh::st().thorough ? 1 : 1 + 2 * r.below(8);
  char b[16];
  uint64_t n = 0;
  for (uint64_t v = base + (vh::st().thorough ? 0 : r.below(stride)); v < base + (1u << 20); v += stride, ++n) {
    uint32_t w = (uint32_t)v, d = ~w;
    b[5] = 0x55;
    char* q = lsmdb::EncodeVarint32(b, w);
    int len = w < (1u << 7) ? 1 : w < (1u << 14) ? 2 : w < (1u << 21) ? 3 : w < (1u << 28) ? 4 : 5;
    uint64_t back = 0;
    for (int i = 0; i < len; ++i) back |= (uint64_t)((unsigned char)b[i] & 127) << (7 * i);
    bool bits = true;
    for (int i = 0; i < len; ++i) bits = bits && (((unsigned char)b[i] >> 7) == (i + 1 < len));
    const char* p = lsmdb::GetVarint32Ptr(b, b + len, &d);
    if (q != b + len || back != w || !bits || p != b + len || d != w || lsmdb::VarintLength(w) != len || b[5] != 0x55) BAD("coding-varint32", "32-bit value %u", w);
    char f[4];
    lsmdb::EncodeFixed32(f, w);
    if ((unsigned char)f[0] != (w & 255) || (unsigned char)f[1] != ((w >> 8) & 255) || (unsigned char)f[2] != ((w >> 16) & 255) || (unsigned char)f[3] != (w >> 24) || lsmdb::DecodeFixed32(f) != w) BAD("coding-fixed32", "32-bit value %u", w);
    uint64_t x = (uint64_t)w * 0x100000001ull ^ ((uint64_t)w << 17), dx = ~x;
    char* qx = lsmdb::EncodeVarint64(b, x);
    if (lsmdb::GetVarint64Ptr(b, qx, &dx) != qx || dx != x || qx - b != lsmdb::VarintLength(x)) BAD("coding-varint64", "64-bit value %llu", (unsigned long long)x);
  }
  vh::count("values", n);
  vh::evaluated(base + stride);
}

// ------------------------------------------------------------- decoding ----
static uint64_t g_dec_ok, g_dec_fail;
static bool judge_decode(const std::string& s) {
  Exact ex(s);
  {
    uint64_t want = 0;
    bool ov = false;
    size_t c = ref_decode(s, 0, 5, 32, &want, &ov);
    Slice in = ex.slice();
    uint32_t got = 0x5A5A5A5A;
    bool ok = lsmdb::GetVarint32(&in, &got);
    if (ok != (c > 0)) { vh::viol("decode-varint32", vh::fmt("GetVarint32 on %s reports %s", hex(s).c_str(), ok ? "success" : "failure")); return false; }
    if (ok && (in.data() != ex.p + c || in.size() != s.size() - c || (!ov && got != (uint32_t)want))) { vh::viol("decode-varint32", vh::fmt("GetVarint32 on %s: value %u, remaining %zu; expected %llu, %zu", hex(s).c_str(), got, in.size(), (unsigned long long)want, s.size() - c)); return false; }
    got = 0;
    const char* p = lsmdb::GetVarint32Ptr(ex.p, ex.p + s.size(), &got);
    if ((p != nullptr) != (c > 0) || (p && (p != ex.p + c || (!ov && got != (uint32_t)want)))) { vh::viol("decode-varint32", vh::fmt("GetVarint32Ptr on %s", hex(s).c_str())); return false; }
    (ok ? g_dec_ok : g_dec_fail)++;
    // Length-prefixed string.
    Slice in2 = ex.slice(), out("sentinel");
    bool ok2 = lsmdb::GetLengthPrefixedSlice(&in2, &out);
    if (!ov) {
      bool w2 = c > 0 && (uint64_t)(s.size() - c) >= want;
      if (ok2 != w2) { vh::viol("decode-lengthprefixed", vh::fmt("GetLengthPrefixedSlice on %s (%zu bytes) reports %s, the prefix announces %llu", hex(s).c_str(), s.size(), ok2 ? "success" : "failure", (unsigned long long)want)); return false; }
      if (ok2 && (out.size() != want || (want && out.data() != ex.p + c) || in2.size() != s.size() - c - want || (in2.size() && in2.data() != ex.p + c + want))) { vh::viol("decode-lengthprefixed", vh::fmt("GetLengthPrefixedSlice on %s: %zu bytes returned, %zu remaining", hex(s).c_str(), out.size(), in2.size())); return false; }
      (ok2 ? g_dec_ok : g_dec_fail)++;
      const char* (*ptr_form)(const char*, const char*, Slice*) = &lsmdb::GetLengthPrefixedSlice;
      if (ptr_form) {
        Slice out3("sentinel");
        const char* q = ptr_form(ex.p, ex.p + s.size(), &out3);
        if ((q != nullptr) != w2) { vh::viol("decode-lengthprefixed", vh::fmt("GetLengthPrefixedSlice (pointers) on %s (%zu bytes) reports %s, the prefix announces %llu", hex(s).c_str(), s.size(), q ? "success" : "failure", (unsigned long long)want)); return false; }
        if (q && (q != ex.p + c + want || out3.size() != want || (want && out3.data() != ex.p + c))) { vh::viol("decode-lengthprefixed", vh::fmt("GetLengthPrefixedSlice (pointers) on %s: %zu bytes returned", hex(s).c_str(), out3.size())); return false; }
        vh::count("pointer_form_decodes");
      }
    } else if (ok2 && (out.data() < ex.p || out.data() + out.size() > ex.p + s.size())) {
      vh::viol("decode-lengthprefixed", "result outside the input");
      return false;
    }
  }
  {
    uint64_t want = 0;
    bool ov = false;
    size_t c = ref_decode(s, 0, 10, 64, &want, &ov);
    Slice in = ex.slice();
    uint64_t got = 0x5A5A5A5A5A;
    bool ok = lsmdb::GetVarint64(&in, &got);
    if (ok != (c > 0)) { vh::viol("decode-varint64", vh::fmt("GetVarint64 on %s reports %s", hex(s).c_str(), ok ? "success" : "failure")); return false; }
    if (ok && (in.data() != ex.p + c || in.size() != s.size() - c || (!ov && got != want))) { vh::viol("decode-varint64", vh::fmt("GetVarint64 on %s: value %llu, remaining %zu", hex(s).c_str(), (unsigned long long)got, in.size())); return false; }
    got = 0;
    const char* p = lsmdb::GetVarint64Ptr(ex.p, ex.p + s.size(), &got);
    if ((p != nullptr) != (c > 0) || (p && (p != ex.p + c || (!ov && got != want)))) { vh::viol("decode-varint64", vh::fmt("GetVarint64Ptr on %s", hex(s).c_str())); return false; }
    (ok ? g_dec_ok : g_dec_fail)++;
  }
  vh::count("decodes", 5);
  return true;
}
static void decode_case(Rng& r, uint64_t idx) {
  static const unsigned char alpha[] = {0x00, 0x01, 0x7f, 0x80, 0x81, 0xff};
  uint64_t sig = idx, n = 0;
  if (idx < 40) {
    // Every string over the boundary bytes, by length: 0..6 over six bytes,
    // and longer ones made of continuation bytes with one deviation.
    if (idx == 0) { if (!judge_decode("")) return; }
    uint64_t total = 0;
    for (int len = 1; len <= 6; ++len) {
      uint64_t m = 1;
      for (int i = 0; i < len; ++i) m *= 6;
      for (uint64_t x = 0; x < m; ++x, ++total) {
        if (total % 40 != idx) continue;
        std::string s;
        uint64_t y = x;
        for (int i = 0; i < len; ++i) { s += (char)alpha[y % 6]; y /= 6; }
        if (!judge_decode(s)) return;
        ++n;
      }
    }
    for (int len = 7; len <= 14; ++len)
      for (int at = 0; at <= len; ++at)
        for (int a = 0; a < 6; ++a)
          for (int c = 3; c < 6; ++c) {
            std::string s(len, (char)alpha[c]);
            if (at < len) s[at] = (char)alpha[a];
            if (!judge_decode(s)) return;
            ++n;
          }
  }
  for (int i = 0; i < 300; ++i) {
    std::string s;
    switch (r.below(5)) {
      case 0: s = r.bytes(r.below(16)); break;
      case 1: {  // valid encoding, cut or corrupted
        s = ref_varint(value_of(r));
        if (r.one_in(2)) s.resize(r.below(s.size() + 1));
        if (!s.empty() && r.one_in(3)) s[r.below(s.size())] ^= (char)(1 << r.below(8));
        if (r.one_in(2)) s += r.nasty(r.below(6));
        break;
      }
      case 2: {  // length prefix with about that much payload
        uint64_t len = r.one_in(25) ? r.range(16000, 70000) : r.one_in(3) ? r.range(120, 300) : r.below(20);
        s = ref_varint(len);
        if (r.one_in(4)) { while (s.size() < 5) { s.back() = (char)(s.back() | 0x80); s += '\0'; } }  // padded, still complete
        uint64_t have = len + r.below(3);
        if (have) have -= r.below(2);
        s += r.nasty(have);
        break;
      }
      case 3: {  // huge announcements
        uint64_t len = r.one_in(2) ? 0xffffffffull - r.below(8) : (1ull << r.range(8, 32)) - r.below(3);
        s = ref_varint(len & 0xffffffffull) + r.nasty(r.below(40));
        break;
      }
      default: s = std::string(r.below(13), (char)0x80) + r.nasty(r.below(4));
    }
    sig = vh::mix(sig ^ vh::hash_str(s));
    if (!judge_decode(s)) return;
    ++n;
  }
  vh::count("inputs", n);
  vh::count("accepted", g_dec_ok);
  vh::count("rejected", g_dec_fail);
  g_dec_ok = g_dec_fail = 0;
  vh::evaluated(sig);
  if (vh::want_sample()) vh::sample(vh::fmt("case %llu: %llu inputs through all decoders", (unsigned long long)idx, (unsigned long long)n));
}

// ---------------------------------------------------------------- slice ----
static int ref_cmp(const std::string& a, const std::string& b) {
  for (size_t i = 0; i < a.size() && i < b.size(); ++i) {
    unsigned x = (unsigned char)a[i], y = (unsigned char)b[i];
    if (x != y) return x < y ? -1 : 1;
  }
  return a.size() < b.size() ? -1 : a.size() > b.size();
}
static int sgn(int x) { return (x > 0) - (x < 0); }
static bool pair_ok(const std::string& a, const std::string& b) {
  Exact ea(a), eb(b);
  Slice x = ea.slice(), y = eb.slice();
  int e = ref_cmp(a, b);
  bool pre = b.size() <= a.size() && ref_cmp(a.substr(0, b.size()), b) == 0;
  int c = sgn(x.compare(y));
  if (c != e) { vh::viol("slice-compare", vh::fmt("compare(%s, %s) has sign %d, expected %d", hex(a).c_str(), hex(b).c_str(), c, e)); return false; }
  if ((x == y) != (e == 0) || (x != y) != (e != 0)) { vh::viol("slice-equality", vh::fmt("equality of %s and %s", hex(a).c_str(), hex(b).c_str())); return false; }
  if (x.starts_with(y) != pre) { vh::viol("slice-prefix", vh::fmt("%s starts_with %s answered %d", hex(a).c_str(), hex(b).c_str(), !pre)); return false; }
  return true;
}
static bool single_ok(const std::string& a, Rng& r) {
  Exact ea(a);
  Slice x = ea.slice();
  bool ok = x.size() == a.size() && x.empty() == a.empty() && x.ToString() == a && x.data() == ea.p;
  for (size_t i = 0; i < a.size() && i < 50; ++i) ok = ok && x[i] == a[i];
  if (a.size()) ok = ok && x[a.size() - 1] == a[a.size() - 1];
  Slice y = x;
  size_t k = a.size() ? r.below(a.size() + 1) : 0;
  y.remove_prefix(k);
  ok = ok && y.ToString() == a.substr(k) && y.size() == a.size() - k && x.ToString() == a;
  Slice z = y;
  z.clear();
  ok = ok && z.size() == 0 && z.empty() && z.ToString() == "" && y.ToString() == a.substr(k);
  Slice f(a);
  ok = ok && f.ToString() == a && f == x && f.compare(x) == 0;
  if (a.find('\0') == std::string::npos) { Slice g(a.c_str()); ok = ok && g.ToString() == a; }
  Slice d;
  ok = ok && d.empty() && d.ToString() == "";
  if (!ok) vh::viol("slice-basic", "basic operations on " + hex(a));
  return ok;
}
// Lengths whose difference is a multiple of a power of two, and lengths beyond
// 32 bits, over a region of zero bytes that never becomes resident.
static bool long_slices_ok(Rng& r, bool huge) {
  static const size_t kRegion = (size_t)4608 << 20;
  static char* z = nullptr;
  if (!z) {
    void* m = mmap(nullptr, kRegion, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) { vh::count("no_address_space"); return true; }
    z = (char*)m;
  }
  std::vector<std::pair<size_t, size_t>> ps;
  for (int i = 0; i < 8; ++i) {
    size_t a = r.below(40);
    size_t d = (size_t)1 << (huge ? r.range(30, 32) : r.range(7, 24));
    if (r.one_in(3)) d -= r.below(3);
    if (r.one_in(3)) d += r.below(3);
    ps.push_back({a, a + d});
  }
  for (auto& pr : ps) {
    Slice x(z, pr.first), y(z, pr.second);
    bool same = pr.first == pr.second;
    // Only the common prefix may be read: the shorter one is a few bytes.
    if (sgn(x.compare(y)) != (same ? 0 : -1) || sgn(y.compare(x)) != (same ? 0 : 1)) { vh::viol("slice-compare", vh::fmt("prefixes of %zu and %zu zero bytes compare as %d and %d", pr.first, pr.second, x.compare(y), y.compare(x))); return false; }
    if ((x == y) != same || (x != y) == same) { vh::viol("slice-equality", vh::fmt("equality of %zu and %zu zero bytes", pr.first, pr.second)); return false; }
    if (!y.starts_with(x) || x.starts_with(y) != same) { vh::viol("slice-prefix", vh::fmt("starts_with on %zu and %zu zero bytes", pr.first, pr.second)); return false; }
    Slice w = y;
    w.remove_prefix(pr.second - pr.first);
    if (w.size() != pr.first || w.data() != z + (pr.second - pr.first) || y.empty() != (pr.second == 0) || y[pr.second - 1] != 0) { vh::viol("slice-basic", vh::fmt("removing %zu of %zu bytes", pr.second - pr.first, pr.second)); return false; }
    vh::count("pairs");
    vh::count("pairs_with_large_length_difference");
  }
  return true;
}
static void slice_case(Rng& r, uint64_t idx) {
  static std::vector<std::string> small;
  if (small.empty()) {
    static const unsigned char alpha[] = {0x00, 0x01, 0x7f, 0x80, 0xff};
    small.push_back("");
    for (size_t i = 0; i < small.size(); ++i)
      if (small[i].size() < 3) for (unsigned char c : alpha) small.push_back(small[i] + (char)c);
  }
  uint64_t n = 0, sig = idx;
  if (idx < small.size()) {
    for (auto& b : small) { if (!pair_ok(small[idx], b)) return; ++n; }
    if (!single_ok(small[idx], r)) return;
    // Transitivity over all triples with this first element.
    const std::string& a = small[idx];
    for (auto& b : small) {
      int ab = sgn(Slice(a).compare(Slice(b)));
      if (ab != -sgn(Slice(b).compare(Slice(a)))) BAD("slice-order", "compare is not antisymmetric on %s, %s", hex(a).c_str(), hex(b).c_str());
      if (ab > 0) continue;
      for (auto& c : small)
        if (Slice(b).compare(Slice(c)) <= 0 && Slice(a).compare(Slice(c)) > 0) BAD("slice-order", "compare is not transitive on %s, %s, %s", hex(a).c_str(), hex(b).c_str(), hex(c).c_str());
    }
  }
  for (int i = 0; i < 120; ++i) {
    size_t len = r.one_in(10) ? r.range(0, 9000) : r.below(40);
    std::string a = r.one_in(2) ? r.bytes(len) : r.nasty(len), b = a;
    switch (r.below(6)) {
      case 0: b = r.nasty(r.below(len + 3)); break;
      case 1: if (len) b[r.below(len)] ^= (char)(1 << r.below(8)); break;
      case 2: b.resize(r.below(len + 1)); break;
      case 3: b += r.nasty(r.range(1, 3)); break;
      case 4: if (len) b[len - 1] ^= (char)0x80; break;
      default: break;
    }
    if (!pair_ok(a, b) || !pair_ok(b, a) || !single_ok(a, r)) return;
    sig = vh::mix(sig ^ vh::hash_str(a) ^ (vh::hash_str(b) * 3));
    n += 2;
  }
  if (!long_slices_ok(r, false)) return;
  if (idx % 8 == 3 && !long_slices_ok(r, true)) return;
  vh::count("pairs", n);
  vh::evaluated(sig);
  if (vh::want_sample()) vh::sample(vh::fmt("case %llu: %llu pairs compared", (unsigned long long)idx, (unsigned long long)n));
}

// --------------------------------------------------------------- status ----
struct SModel { int kind; std::string text; bool known; };  // kind 0 = ok
static const char* kLabel[] = {"OK", "NotFound: ", "Corruption: ", "Not implemented: ", "Invalid argument: ", "IO error: "};
static Status make_status(int kind, const std::string& a, const std::string& b, bool two) {
  Exact ea(a), eb(b);
  Slice x = ea.slice(), y = two ? eb.slice() : Slice();
  switch (kind) {
    case 1: return two ? Status::NotFound(x, y) : Status::NotFound(x);
    case 2: return two ? Status::Corruption(x, y) : Status::Corruption(x);
    case 3: return two ? Status::NotSupported(x, y) : Status::NotSupported(x);
    case 4: return two ? Status::InvalidArgument(x, y) : Status::InvalidArgument(x);
    case 5: return two ? Status::IOError(x, y) : Status::IOError(x);
    default: return Status::OK();
  }
}
static bool status_ok(const Status& s, const SModel& m, const char* what) {
  if (!m.known) { s.ToString(); s.ok(); return true; }
  bool k = s.ok() == (m.kind == 0) && s.IsNotFound() == (m.kind == 1) && s.IsCorruption() == (m.kind == 2) && s.IsNotSupportedError() == (m.kind == 3) && s.IsInvalidArgument() == (m.kind == 4) && s.IsIOError() == (m.kind == 5);
  if (!k) { vh::viol("status-kind", vh::fmt("after %s a status of kind %d answers its kind queries wrongly", what, m.kind)); return false; }
  std::string t = s.ToString();
  if (t != m.text) { vh::viol("status-text", vh::fmt("after %s: text is \"%s\" (%zu bytes), expected \"%s\" (%zu bytes)", what, vh::esc(t, 60).c_str(), t.size(), vh::esc(m.text, 60).c_str(), m.text.size())); return false; }
  return true;
}
static uint64_t status_body(Rng& r) {
  uint64_t sig = 1, ops = 0;
  const int N = 6;
  Status* st[N];
  SModel m[N];
  for (int i = 0; i < N; ++i) { st[i] = new Status; m[i] = {0, "OK", true}; }
  int n = (int)r.range(10, 150);
  bool bad = false;
  for (int i = 0; i < n && !bad; ++i) {
    int a = (int)r.below(N), b = (int)r.below(N);
    unsigned op = (unsigned)r.below(9);
    const char* what = "?";
    sig = vh::mix(sig ^ (op * 64 + a * 8 + b));
    switch (op) {
      case 0: case 1: {
        what = "creation";
        int k = (int)r.below(6);
        size_t l1 = r.one_in(60) ? r.range(65400, 300000) : r.one_in(12) ? r.range(200, 70000) : r.one_in(4) ? r.range(120, 300) : r.below(20), l2 = r.one_in(3) ? 0 : r.one_in(60) ? r.range(65400, 140000) : r.one_in(8) ? r.range(100, 9000) : r.below(20);
        std::string x = r.nasty(l1), y = r.nasty(l2);
        bool two = r.one_in(2);
        Status s = make_status(k, x, y, two);
        m[a].kind = k;
        m[a].known = true;
        m[a].text = k == 0 ? "OK" : kLabel[k] + x + (two && !y.empty() ? ": " + y : "");
        if (op == 0) *st[a] = s;
        else { delete st[a]; st[a] = new Status(make_status(k, x, y, two)); }
        break;
      }
      case 2: what = "copy assignment"; *st[a] = *st[b]; if (a != b) m[a] = m[b]; break;
      case 3: what = "copy construction"; { Status* t = new Status(*st[b]); delete st[a]; if (a == b) { st[a] = t; } else { st[a] = t; m[a] = m[b]; } } break;
      case 4: what = a == b ? "self move assignment" : "move assignment"; { Status& src = *st[b]; *st[a] = std::move(src); if (a != b) { m[a] = m[b]; m[b].known = false; } } break;
      case 5: what = "move construction"; if (a != b) { Status* t = new Status(std::move(*st[b])); delete st[a]; st[a] = t; m[a] = m[b]; m[b].known = false; } break;
      case 6: what = "swap"; if (a != b) { std::swap(*st[a], *st[b]); std::swap(m[a], m[b]); } break;
      case 7: what = "destruction"; delete st[a]; st[a] = new Status; m[a] = {0, "OK", true}; break;
      default: { what = "return by value and temporary"; auto f = [&](Status s) { Status t = s; return t; }; Status u = f(*st[b]); bad = !status_ok(u, m[b], what); } break;
    }
    ++ops;
    for (int j = 0; j < N && !bad; ++j) bad = !status_ok(*st[j], m[j], what);
  }
  for (int i = 0; i < N; ++i) delete st[i];
  (void)ops;
  return sig;
}
static void status_case(Rng& r, uint64_t idx) {
  Rng again = r;
  uint64_t sig = status_body(r);
  if (vh::st().violations) return;
  size_t h0 = vh::heap_bytes();
  status_body(again);
  size_t h1 = vh::heap_bytes();
  VH_CHECK(h0 == h1, "status-leak", "%zd bytes still allocated after destroying all statuses", (ssize_t)(h1 - h0));
  vh::count("histories");
  vh::evaluated(sig);
  if (vh::want_sample()) vh::sample(vh::fmt("case %llu: a history over six statuses, all six checked after each step", (unsigned long long)idx));
}

// -------------------------------------------------------------- decimal ----
static std::string ref_dec(uint64_t v) {
  std::string r;
  do { r.insert(r.begin(), (char)('0' + v % 10)); v /= 10; } while (v);
  return r;
}
static bool parse_ok(const std::string& s) {
  Exact ex(s);
  size_t d = 0;
  unsigned __int128 v = 0;
  bool over = false;
  while (d < s.size() && s[d] >= '0' && s[d] <= '9') {
    if (!over) v = v * 10 + (s[d] - '0');
    if (v > (unsigned __int128)~0ull) over = true;
    ++d;
  }
  bool want = d > 0 && !over;
  Slice in = ex.slice();
  uint64_t got = 77;
  bool ok = lsmdb::ConsumeDecimalNumber(&in, &got);
  if (ok != want) { vh::viol("decimal-parse", vh::fmt("parsing \"%s\" reports %s", vh::esc(s, 60).c_str(), ok ? "success" : "failure")); return false; }
  if (ok && (got != (uint64_t)v || in.size() != s.size() - d || in.data() != ex.p + d)) { vh::viol("decimal-parse", vh::fmt("parsing \"%s\" gives %llu with %zu bytes left", vh::esc(s, 60).c_str(), (unsigned long long)got, in.size())); return false; }
  return true;
}
static bool print_ok(uint64_t v, const std::string& prefix) {
  std::string e = ref_dec(v);
  if (lsmdb::NumberToString(v) != e) { vh::viol("decimal-print", vh::fmt("NumberToString(%s) is \"%s\"", e.c_str(), vh::esc(lsmdb::NumberToString(v)).c_str())); return false; }
  std::string t = prefix;
  lsmdb::AppendNumberTo(&t, v);
  if (t != prefix + e) { vh::viol("decimal-print", "AppendNumberTo changed the content before it"); return false; }
  return parse_ok(e);
}
static bool escape_ok(const std::string& s, const std::string& prefix) {
  static const char* hx = "0123456789abcdef";
  std::string e;
  for (unsigned char c : s) {
    if (c >= 0x20 && c <= 0x7e) e += (char)c;
    else { e += "\\x"; e += hx[c >> 4]; e += hx[c & 15]; }
  }
  Exact ex(s);
  std::string g = lsmdb::EscapeString(ex.slice());
  if (g != e) { vh::viol("escape", vh::fmt("escaping %s gives \"%s\"", hex(s).c_str(), vh::esc(g, 80).c_str())); return false; }
  std::string t = prefix;
  lsmdb::AppendEscapedStringTo(&t, ex.slice());
  if (t != prefix + e) { vh::viol("escape", "AppendEscapedStringTo changed the content before it"); return false; }
  return true;
}
static void decimal_case(Rng& r, uint64_t idx) {
  uint64_t sig = idx, n = 0;
  vh::Grouped locale(idx % 2 == 0);
  if (idx == 0) {
    for (int c = 0; c < 256; ++c) { std::string s(1, (char)c); if (!escape_ok(s, "p") || !parse_ok(s) || !parse_ok("7" + s) || !parse_ok(s + "7")) return; }
    if (!parse_ok("") || !escape_ok("", "x")) return;
    uint64_t p = 1;
    for (int i = 0; i < 20; ++i) {
      for (int d = -3; d <= 3; ++d) if (!print_ok(p + d, "")) return;
      if (i < 19) p *= 10;
    }
    for (uint64_t d = 0; d < 300; ++d) if (!print_ok(~0ull - d, "") || !print_ok(~0ull / 10 + 150 - d, "")) return;
  }
  for (int i = 0; i < 300; ++i) {
    uint64_t v = value_of(r);
    std::string pre = r.nasty(r.below(6));
    if (!print_ok(v, pre)) return;
    std::string s = ref_dec(v);
    switch (r.below(7)) {
      case 0: s = std::string(r.below(40), '0') + s; break;
      case 1: s += r.nasty(r.below(5)); break;
      case 2: s += (char)('0' + r.below(10)); break;
      case 3: { // around the maximum, with one digit changed
        s = "18446744073709551615";
        size_t at = r.below(20);
        s[at] = (char)('0' + r.below(10));
        if (r.one_in(3)) s = std::string(r.below(3), '0') + s;
        if (r.one_in(3)) s += r.one_in(2) ? "x" : "0";
        break;
      }
      case 4: { s.clear(); size_t l = r.below(45); for (size_t k = 0; k < l; ++k) s += (char)('0' + r.below(10)); if (r.one_in(2)) s += r.nasty(3); break; }
      case 5: s = r.nasty(r.below(5)) + s; break;
      default: { static const char near[] = "0129/:;. -+"; s.clear(); size_t l = r.below(8); for (size_t k = 0; k < l; ++k) s += near[r.below(sizeof near - 1)]; }
    }
    if (!parse_ok(s)) return;
    size_t el = r.one_in(40) ? r.below(9000) : r.below(50);
    std::string e = r.one_in(2) ? r.bytes(el) : r.nasty(el);
    if (!escape_ok(e, pre)) return;
    sig = vh::mix(sig ^ vh::hash_str(s) ^ vh::hash_str(e));
    n += 3;
  }
  vh::count("strings", n);
  vh::evaluated(sig);
  if (vh::want_sample()) vh::sample(vh::fmt("case %llu: %llu numbers, digit strings and escaped strings", (unsigned long long)idx, (unsigned long long)n));
}

// ----------------------------------------------------------------- hash ----
static uint32_t ref_hash(const unsigned char* d, size_t n, uint32_t seed) {
  const uint32_t m = 0xc6a4a793u;
  uint32_t h = seed ^ (uint32_t)((uint32_t)n * m);
  size_t i = 0;
  for (; i + 4 <= n; i += 4) {
    uint32_t w = d[i] | (uint32_t)d[i + 1] << 8 | (uint32_t)d[i + 2] << 16 | (uint32_t)d[i + 3] << 24;
    h += w; h *= m; h ^= h >> 16;
  }
  size_t k = n - i;
  if (k) {
    uint32_t t = 0;
    for (size_t j = 0; j < k; ++j) t |= (uint32_t)d[i + j] << (8 * j);
    h += t; h *= m; h ^= h >> 24;
  }
  return h;
}
static bool hash_ok(const std::string& s, uint32_t seed, Rng& r) {
  uint32_t e = ref_hash((const unsigned char*)s.data(), s.size(), seed);
  {
    Exact ex(s);
    uint32_t g = lsmdb::Hash(ex.p, ex.n, seed);
    if (g != e) { vh::viol("hash-value", vh::fmt("hash of %s under seed %u is %08x, expected %08x", hex(s).c_str(), seed, g, e)); return false; }
  }
  // Elsewhere, at another alignment, with other neighbours.
  for (int k = 0; k < 2; ++k) {
    size_t off = r.below(17);
    std::string b = r.bytes(off) + s + r.bytes(r.below(9));
    uint32_t g = lsmdb::Hash(b.data() + off, s.size(), seed);
    if (g != e) { vh::viol("hash-value", vh::fmt("hash of %s under seed %u depends on where the bytes lie (offset %zu)", hex(s).c_str(), seed, off)); return false; }
  }
  return true;
}
static void hash_case(Rng& r, uint64_t idx) {
  uint64_t sig = idx, n = 0;
  for (int i = 0; i < 250; ++i) {
    size_t len = r.one_in(40) ? r.range(1000, 100000) : r.one_in(3) ? r.below(5) : r.below(70);
    std::string s = r.one_in(2) ? r.bytes(len) : r.nasty(len);
    uint32_t seed = r.one_in(3) ? 0 : r.one_in(4) ? 0xffffffffu : (uint32_t)r.next();
    if (!hash_ok(s, seed, r)) return;
    sig = vh::mix(sig ^ vh::hash_str(s) ^ seed);
    n += 3;
  }
  if (idx % 64 == 0)
    for (int a = 0; a < 256; ++a)
      for (int l = 1; l <= 7; ++l) {
        std::string s(l, (char)a);
        if (!hash_ok(s, 0xbc9f1d34, r)) return;
        s[l - 1] = (char)0x80;
        if (!hash_ok(s, 0, r)) return;
        n += 6;
      }
  if (idx % 50 == 1) {
    std::string s = r.bytes(33);
    uint32_t e = ref_hash((const unsigned char*)s.data(), s.size(), 5);
    std::atomic<int> wrong{0};
    std::vector<std::thread> ts;
    for (int t = 0; t < 4; ++t) ts.emplace_back([&]() { for (int i = 0; i < 2000; ++i) if (lsmdb::Hash(s.data(), s.size(), 5) != e) wrong++; });
    for (auto& t : ts) t.join();
    VH_CHECK(!wrong, "hash-value", "hash differs between threads");
    n += 8000;
  }
  vh::count("hashes", n);
  vh::evaluated(sig);
  if (vh::want_sample()) vh::sample(vh::fmt("case %llu: %llu hashes compared with the reference", (unsigned long long)idx, (unsigned long long)n));
}

// --------------------------------------------------------------- random ----
static const uint64_t kM = 2147483647ull;
static uint64_t ref_start(uint32_t seed) { uint64_t s = seed & 0x7fffffffu; return s == 0 || s == kM ? 1 : s; }
static uint64_t ref_next(uint64_t s) { return s * 16807 % kM; }
// Every seed: case i covers seeds [i * 2^24, (i+1) * 2^24).
static void seeds_case(Rng&, uint64_t idx) {
  uint64_t base = (idx % 256) << 24;
  for (uint64_t k = 0; k < (1u << 24); ++k) {
    uint32_t seed = (uint32_t)(base + k);
    lsmdb::Random g(seed);
    uint64_t s = ref_next(ref_start(seed));
    uint32_t a = g.Next();
    if (a != s) BAD("random-sequence", "first value from seed %u is %u, expected %llu", seed, a, (unsigned long long)s);
  }
  vh::count("seeds_tried", 1u << 24);
  vh::evaluated(idx);
}
static void random_case(Rng& r, uint64_t idx) {
  static const std::vector<uint32_t> special = {0, 1, 2147483647u, 0x80000000u, 0xffffffffu, 2147483646u, 2, 0x7ffffffeu, 0xfffffffeu, 301, 0xdeadbeef};
  uint32_t seed = idx < special.size() ? special[idx] : (uint32_t)r.next();
  lsmdb::Random g(seed), twin(seed);
  uint64_t s = ref_start(seed), n = r.range(500, 5000);
  for (uint64_t i = 0; i < n; ++i) {
    s = ref_next(s);
    uint32_t a = g.Next();
    if (a != s || a == 0 || a >= kM) BAD("random-sequence", "value %llu from seed %u is %u, expected %llu", (unsigned long long)i, seed, a, (unsigned long long)s);
    if (twin.Next() != a) BAD("random-sequence", "equal seeds give different sequences at %llu", (unsigned long long)i);
  }
  for (int i = 0; i < 800; ++i) {
    int big = (int)(1 + r.skewed(30));
    int nn = r.one_in(10) ? 2147483647 - (int)r.below(3) : big;
    uint32_t u = g.Uniform(nn), u2 = twin.Uniform(nn);
    if (u >= (uint32_t)nn) BAD("random-uniform", "Uniform(%d) is %u", nn, u);
    if (u != u2) BAD("random-sequence", "equal seeds give different uniform draws");
    lsmdb::Random copy = g;
    bool one = g.OneIn(nn);
    uint32_t nx = copy.Next();
    if (one != (nx % (uint32_t)nn == 0)) BAD("random-onein", "OneIn(%d) is %d although the next value is %u", nn, one, nx);
    if (one != twin.OneIn(nn)) BAD("random-sequence", "equal seeds give different OneIn draws");
    int k = (int)r.below(31);
    uint32_t sk = g.Skewed(k);
    if (sk > (1u << k) - 1) BAD("random-skewed", "Skewed(%d) is %u", k, sk);
    if (sk != twin.Skewed(k)) BAD("random-sequence", "equal seeds give different skewed draws");
  }
  // Draws reach the whole range, evenly enough.
  if (idx % 8 == 0) {
    int nn = (int)r.range(2, 40);
    std::vector<int> hits(nn, 0);
    for (int i = 0; i < nn * 1000; ++i) { uint32_t u = g.Uniform(nn); if (u < (uint32_t)nn) hits[u]++; }
    for (int i = 0; i < nn; ++i) if (hits[i] < 600 || hits[i] > 1400) BAD("random-uniform", "Uniform(%d) gave %d %d times in %d draws", nn, i, hits[i], nn * 1000);
  }
  vh::count("draws", n + 3200);
  vh::evaluated(seed);
  if (vh::want_sample()) vh::sample(vh::fmt("case %llu: seed %u, %llu values and 2400 range draws", (unsigned long long)idx, seed, (unsigned long long)n));
}

// ----------------------------------------------------------------- vast ----
// The same questions about strings of up to 2^32 bytes and more.  The bytes are
// one pattern mapped again and again, with pages of their own where something
// differs, and end at a page that cannot be touched.
struct Vast {
  char* base = nullptr;   // start of the mapping
  size_t size = 0;        // of its usable part
  static constexpr size_t kPiece = 257 * 4096;
  explicit Vast(size_t n, int fill, Rng& r) {
    size = (n + 4095) / 4096 * 4096;
    int fd = memfd_create("vast", 0);
    if (fd < 0) {
      std::string f = vh::st().tmp + "/vast";
      fd = open(f.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
      unlink(f.c_str());
    }
    if (fd < 0) vh::broken("memfd_create");
    std::string s = fill < 0 ? r.bytes(kPiece) : std::string(kPiece, (char)fill);
    if (write(fd, s.data(), s.size()) != (ssize_t)s.size()) vh::broken("write");
    void* m = mmap(nullptr, size + 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) throw std::bad_alloc();
    base = (char*)m;
    for (size_t at = 0; at < size; at += kPiece)
      if (mmap(base + at, std::min(kPiece, size - at), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_FIXED, fd, 0) == MAP_FAILED) throw std::bad_alloc();
    close(fd);
  }
  ~Vast() { if (base) munmap(base, size + 4096); }
  Vast(const Vast&) = delete;
  char* tail(size_t n) { return base + size - n; }  // the last n bytes
  void mark(size_t at, Rng& r) { for (size_t k = at; k < std::min(size, at + 40); ++k) base[k] = (char)r.next(); }
};
static bool enough_memory(uint64_t gb) {
  uint64_t kb = 0;
  if (FILE* f = fopen("/proc/meminfo", "r")) {
    char line[200];
    while (fgets(line, sizeof line, f)) if (sscanf(line, "MemAvailable: %llu", (unsigned long long*)&kb) == 1) break;
    fclose(f);
  }
  return kb >> 20 >= gb;
}
static const size_t kVast[] = {(1u << 24) - 1, 1u << 24, (1u << 24) + 1, (1u << 28) - 1, 1u << 28, (1u << 28) + 3, (1ull << 31) - 1, 1ull << 31, (1ull << 31) + 5, (1ull << 32) - 1};
static const size_t kVastN = sizeof kVast / sizeof kVast[0];

static void vast_coding(Rng& r, uint64_t idx) {
  size_t len = kVast[(idx * 3 + 9) % kVastN];
  Vast v(len, -1, r);
  for (int k = 0; k < 6; ++k) v.mark(r.below(v.size), r);
  Slice src(v.tail(len), len);
  std::string dst = r.bytes(r.below(30)), pre = dst, head = ref_varint(len);
  lsmdb::PutLengthPrefixedSlice(&dst, src);
  lsmdb::PutVarint32(&dst, 77);
  VH_CHECK(dst.size() == pre.size() + head.size() + len + 1, "coding-append", "a string of %zu bytes: %zu bytes were appended, expected %zu", len, dst.size() - pre.size(), head.size() + len + 1);
  VH_CHECK(dst.compare(0, pre.size() + head.size(), pre + head) == 0, "coding-append", "a string of %zu bytes: the length or the earlier content is wrong", len);
  VH_CHECK(memcmp(dst.data() + pre.size() + head.size(), src.data(), len) == 0, "coding-append", "a string of %zu bytes was not appended as it is", len);
  Slice in(dst.data() + pre.size(), dst.size() - pre.size()), got;
  uint32_t x = 0;
  VH_CHECK(lsmdb::GetLengthPrefixedSlice(&in, &got) && got.size() == len && got.data() == dst.data() + pre.size() + head.size() && lsmdb::GetVarint32(&in, &x) && x == 77 && in.empty(), "coding-sequence", "a string of %zu bytes does not decode from the sequence", len);
  vh::count("vast_strings");
}
static void vast_decode(Rng& r, uint64_t) {
  for (size_t len : kVast) {
    std::string head = ref_varint(len);
    for (int cut = -2; cut <= 3; ++cut) {
      size_t total = head.size() + len + (size_t)(ptrdiff_t)cut, extra = cut > 0 ? (size_t)cut : 0;
      static std::unique_ptr<Vast> v(new Vast((1ull << 32) + 65536, 'q', r));
      char* p = v->tail(total);
      std::string was(p, head.size());
      memcpy(p, head.data(), head.size());
      Slice in(p, total), got("junk");
      bool ok = lsmdb::GetLengthPrefixedSlice(&in, &got);
      if (ok != (cut >= 0)) BAD("decode-accept", "a prefix announcing %zu bytes with %zu following: %s", len, total - head.size(), ok ? "accepted" : "rejected");
      if (ok && (got.data() != p + head.size() || got.size() != len || in.size() != extra || in.data() != p + total - extra)) BAD("decode-result", "a string of %zu bytes decodes to %zu bytes at %zd, leaving %zu", len, got.size(), got.data() - p, in.size());
      uint32_t d = 0;
      Slice in2(p, total);
      if (!lsmdb::GetVarint32(&in2, &d) || d != len || in2.data() != p + head.size() || in2.size() != total - head.size()) BAD("decode-result", "a varint in front of %zu bytes decodes to %u leaving %zu bytes", total - head.size(), d, in2.size());
      memcpy(p, was.data(), was.size());
      vh::count("vast_strings");
    }
  }
}
static void vast_slice(Rng& r, uint64_t) {
  static const size_t kAt[] = {(1ull << 31) - 1, 1ull << 31, (1ull << 32) - 1, (1ull << 32) + 7};
  size_t n = (1ull << 32) + 4096, at = r.pick(std::vector<size_t>(kAt, kAt + 4));
  Vast a(n, 'z', r), b(n, 'z', r);
  Slice x(a.base, n), y(b.base, n);
  VH_CHECK(x.compare(y) == 0 && x == y && !(x != y) && x.starts_with(y), "slice-compare", "two equal strings of %zu bytes compare as different", n);
  a.base[at] = (char)0x80;
  VH_CHECK(x.compare(y) > 0 && y.compare(x) < 0 && x != y && !(x == y) && !x.starts_with(y), "slice-compare", "two strings of %zu bytes differing at %zu only", n, at);
  VH_CHECK(x[at] == (char)0x80 && x[n - 1] == 'z', "slice-basic", "indexing at %zu", at);
  Slice z = x;
  z.remove_prefix(at);
  VH_CHECK(z.data() == a.base + at && z.size() == n - at && z.starts_with(Slice("\x80z", 2)), "slice-basic", "removing %zu bytes", at);
  vh::count("vast_strings", 2);
}
static void vast_status(Rng& r, uint64_t idx) {
  static const size_t kLen[] = {(1u << 24) - 1, (1u << 24) + 1, (1u << 28) + 3, (1ull << 31) + 5, 65535, 65536};
  size_t n1 = kLen[(idx * 5 + 3) % 6], n2 = r.one_in(2) || n1 > (1u << 30) ? r.below(70000) : r.pick(std::vector<size_t>{1u << 24, 1u << 27, 65536});
  Vast v(n1 + n2, -1, r);
  for (int k = 0; k < 6; ++k) v.mark(r.below(v.size), r);
  Slice m1(v.base, n1), m2(v.tail(n2), n2);
  const std::string label = "Corruption: ";
  auto right = [&](const Status& s, const char* what) {
    std::string t = s.ToString();
    const size_t want = label.size() + n1 + (n2 ? 2 + n2 : 0);
    if (!s.IsCorruption() || s.ok() || t.size() != want) { vh::viol("status-text", vh::fmt("%s, messages of %zu and %zu bytes: the text has %zu bytes, expected %zu", what, n1, n2, t.size(), want)); return false; }
    if (memcmp(t.data(), label.data(), label.size()) || memcmp(t.data() + label.size(), m1.data(), n1) || (n2 && (memcmp(t.data() + label.size() + n1, ": ", 2) || memcmp(t.data() + t.size() - n2, m2.data(), n2)))) {
      vh::viol("status-text", vh::fmt("%s, messages of %zu and %zu bytes: the text is not the messages", what, n1, n2));
      return false;
    }
    return true;
  };
  Status s = Status::Corruption(m1, m2);
  if (!right(s, "as created")) return;
  Status c(s);
  s = Status::OK();
  if (!right(c, "a copy")) return;
  Status d = Status::NotFound("x");
  d = std::move(c);
  c = Status::OK();
  if (!right(d, "moved")) return;
  vh::count("vast_strings");
}
static void vast_decimal(Rng& r, uint64_t idx) {
  // Zeros beyond 32 bits of them in front of a number.
  std::string num = std::to_string(r.one_in(3) ? ~0ull : r.next()), end = r.one_in(2) ? "x7" : "";
  uint64_t want = strtoull(num.c_str(), nullptr, 10);
  size_t zeros = idx % 2 ? (1ull << 31) + r.below(1000) : (1ull << 32) + r.below(1000), n = zeros + num.size() + end.size();
  Vast v(n, '0', r);
  char* p = v.tail(n);
  memcpy(p + zeros, num.data(), num.size());
  memcpy(p + zeros + num.size(), end.data(), end.size());
  Slice in(p, n);
  uint64_t got = 1;
  bool ok = lsmdb::ConsumeDecimalNumber(&in, &got);
  VH_CHECK(ok && got == want && in.size() == end.size() && in.data() == p + n - end.size(), "decimal-parse", "%zu zeros and %s: %s, value %llu, %zu bytes left", zeros, num.c_str(), ok ? "parsed" : "failed", (unsigned long long)got, in.size());
  // One digit too many at the very end.
  num = "99999999999999999999";
  p = v.tail(n);
  memcpy(v.tail(num.size()), num.data(), num.size());
  Slice in2(p, n);
  VH_CHECK(!lsmdb::ConsumeDecimalNumber(&in2, &got), "decimal-parse", "a number beyond 64 bits after %zu zeros is accepted", zeros);
  // Tens of megabytes to escape, most of them growing fourfold.
  size_t m = (1u << 24) + r.below(3) + 7;
  std::string e = "pre";
  Vast w(m, -1, r);
  w.mark(r.below(m), r);
  const unsigned char* q = (const unsigned char*)w.tail(m);
  lsmdb::AppendEscapedStringTo(&e, Slice((const char*)q, m));
  size_t at = 3;
  static const char* hexd = "0123456789abcdef";
  bool good = e.compare(0, 3, "pre") == 0;
  for (size_t i = 0; i < m && good; ++i) {
    if (q[i] >= ' ' && q[i] <= '~') good = at < e.size() && (unsigned char)e[at] == q[i], at += 1;
    else good = at + 4 <= e.size() && e[at] == '\\' && e[at + 1] == 'x' && e[at + 2] == hexd[q[i] >> 4] && e[at + 3] == hexd[q[i] & 15], at += 4;
  }
  VH_CHECK(good && at == e.size(), "decimal-escape", "escaping %zu bytes goes wrong at %zu of %zu", m, at, e.size());
  vh::count("vast_strings", 3);
}
static void vast_hash(Rng& r, uint64_t idx) {
  static const size_t kLen[] = {(1ull << 32) + 3, (1ull << 31) + 2, (1ull << 32) - 1, 1ull << 32, (1ull << 31) - 1, (1u << 24) + 1, (1u << 28) + 2, 1ull << 31};
  size_t n = kLen[idx % 8];
  Vast v(n, -1, r);
  for (int k = 0; k < 6; ++k) v.mark(r.below(v.size), r);
  uint32_t seed = (uint32_t)r.next(), e = ref_hash((const unsigned char*)v.tail(n), n, seed), g = lsmdb::Hash(v.tail(n), n, seed);
  VH_CHECK(e == g, "hash-value", "hash of %zu bytes under seed %u is %08x, expected %08x", n, seed, g, e);
  vh::count("vast_strings");
}
static void vast_case(Rng& r, uint64_t idx) {
  const std::string& m = vh::st().mode;
  if (!enough_memory(10)) { vh::count("vast_skipped"); vh::evaluated(idx, false); return; }
  try {
    if (m == "vcoding") vast_coding(r, idx);
    else if (m == "vdecode") vast_decode(r, idx);
    else if (m == "vslice") vast_slice(r, idx);
    else if (m == "vstatus") vast_status(r, idx);
    else if (m == "vdecimal") vast_decimal(r, idx);
    else vast_hash(r, idx);
  } catch (const std::bad_alloc&) {  // no answer: an implementation may need more than this run may use
    vh::count("vast_skipped");
  }
  vh::evaluated(vh::mix(idx ^ vh::hash_str(m)));
  if (vh::want_sample()) vh::sample(vh::fmt("%s case %llu: strings of up to 2^32 bytes", m.c_str(), (unsigned long long)idx));
}

int main(int argc, char** argv) {
  vh::parse(argc, argv);
  const std::string& m = vh::st().mode;
  if (m == "coding") vh::run_cases(coding_case);
  else if (m == "sweep") vh::run_cases(sweep_case);
  else if (m == "decode") vh::run_cases(decode_case);
  else if (m == "slice") vh::run_cases(slice_case);
  else if (m == "status") vh::run_cases(status_case);
  else if (m == "decimal") vh::run_cases(decimal_case);
  else if (m == "hash") vh::run_cases(hash_case);
  else if (m == "random") vh::run_cases(random_case);
  else if (m == "seeds") vh::run_cases(seeds_case);
  else if (m[0] == 'v') vh::run_cases(vast_case);
  else vh::broken("unknown mode " + m);
  return vh::finish();
}
