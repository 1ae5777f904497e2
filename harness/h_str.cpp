// C15, C19..C21: boxed numbers, strings and substring replacement.
#include "pbt.hpp"
#include "text.hpp"
extern "C" {
#include "cee.h"
}
#include "trap.hpp"
#include <cinttypes>
#include <cmath>
#include <limits>
using pbt::Case;
using pbt::quote;
using pbt::mem::alive;
namespace {
struct State {
  Case &c;
  struct cee_state *s;
  explicit State(Case &c_) : c(c_), s(cee_state_mk(4)) {}
  void done() {
    cee_del(s);
    CHECK(c, pbt::mem::live() == 0, "leak", "%zu blocks survive the state", pbt::mem::live());
  }
};

// ------------------------------------------------------------------ C15
struct Num {
  int type;  // enum cee_boxed_primitive_type
  uint64_t bits;
};
uint64_t bits_of(int type, uint64_t raw) {
  switch (type) {
    case cee_primitive_f64: case cee_primitive_u64: case cee_primitive_i64: return raw;
    case cee_primitive_f32: case cee_primitive_u32: case cee_primitive_i32: return (uint32_t)raw;
    case cee_primitive_u16: case cee_primitive_i16: return (uint16_t)raw;
    default: return (uint8_t)raw;
  }
}
template <class T> uint64_t raw(T v) { uint64_t r = 0; memcpy(&r, &v, sizeof v); return r; }
template <class T> T cooked(uint64_t b) { T v; memcpy(&v, &b, sizeof v); return v; }
Num gen_num(Case &c) {
  Num n;
  n.type = 1 + (int)c.draw(9);
  uint64_t b;
  bool fl = n.type <= cee_primitive_f32;
  switch (c.weighted({3, 3, 2, 2})) {
    case 0: b = c.draw(300); if (fl) { double d = (double)b / c.pick({1, 3, 7, 1000}); if (c.coin()) d = -d; b = n.type == cee_primitive_f64 ? raw(d) : raw((float)d); } else if (c.coin()) b = -b; break;
    case 1: {  // powers of two and their neighbours
      b = (uint64_t)1 << c.draw(63);
      b += (uint64_t)c.range(-2, 2);
      break;
    }
    case 2: b = c.draw(UINT64_MAX); break;
    default:
      if (n.type == cee_primitive_f64) b = raw(c.pick({0.0, -0.0, 1e308, -1e308, 5e-324, 2.2250738585072014e-308, 1e300 * 1e300, -1e300 * 1e300, std::nan(""), 0.1, 999999.5, 1e6, 123456.7, 1e-5, 9.99999e-5}));
      else if (n.type == cee_primitive_f32) b = raw(c.pick({0.0f, -0.0f, 3.4028235e38f, 1.1754944e-38f, 1e-45f, INFINITY, -INFINITY, NAN, 0.1f, 1e6f, 123456.7f}));
      else b = c.pick<uint64_t>({0, (uint64_t)-1, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x7fffffffffffffffull, 0x8000000000000000ull});
  }
  n.bits = bits_of(n.type, b);
  return n;
}
struct cee_boxed *box(struct cee_state *s, Num n) {
  switch (n.type) {
    case cee_primitive_f64: return cee_boxed_from_double(s, cooked<double>(n.bits));
    case cee_primitive_f32: return cee_boxed_from_float(s, cooked<float>(n.bits));
    case cee_primitive_u64: return cee_boxed_from_u64(s, n.bits);
    case cee_primitive_u32: return cee_boxed_from_u32(s, (uint32_t)n.bits);
    case cee_primitive_u16: return cee_boxed_from_u16(s, (uint16_t)n.bits);
    case cee_primitive_u8: return cee_boxed_from_u8(s, (uint8_t)n.bits);
    case cee_primitive_i64: return cee_boxed_from_i64(s, (int64_t)n.bits);
    case cee_primitive_i32: return cee_boxed_from_i32(s, (int32_t)n.bits);
    case cee_primitive_i16: return cee_boxed_from_i16(s, (int16_t)n.bits);
    default: return cee_boxed_from_i8(s, (int8_t)n.bits);
  }
}
uint64_t unbox(int type, struct cee_boxed *b) {
  switch (type) {
    case cee_primitive_f64: return raw(cee_boxed_to_double(b));
    case cee_primitive_f32: return raw(cee_boxed_to_float(b));
    case cee_primitive_u64: return raw(cee_boxed_to_u64(b));
    case cee_primitive_u32: return raw(cee_boxed_to_u32(b));
    case cee_primitive_u16: return raw(cee_boxed_to_u16(b));
    case cee_primitive_u8: return raw(cee_boxed_to_u8(b));
    case cee_primitive_i64: return raw(cee_boxed_to_i64(b));
    case cee_primitive_i32: return raw(cee_boxed_to_i32(b));
    case cee_primitive_i16: return raw(cee_boxed_to_i16(b));
    default: return raw(cee_boxed_to_i8(b));
  }
}
std::string decimal(Num n) {
  char b[64];
  switch (n.type) {
    case cee_primitive_f64: snprintf(b, sizeof b, "%g", cooked<double>(n.bits)); break;
    case cee_primitive_f32: snprintf(b, sizeof b, "%g", (double)cooked<float>(n.bits)); break;
    case cee_primitive_i64: return std::to_string((int64_t)n.bits);
    case cee_primitive_i32: return std::to_string((int32_t)n.bits);
    case cee_primitive_i16: return std::to_string((int16_t)n.bits);
    case cee_primitive_i8: return std::to_string((int8_t)n.bits);
    default: return std::to_string(n.bits);
  }
  return b;
}
const char *TN[] = {"", "f64", "f32", "u64", "u32", "u16", "u8", "i64", "i32", "i16", "i8"};
}  // namespace

PROPERTY("C15", "boxed", 80,
         "Up to 20 boxed numbers of random types and values (powers of two and neighbours, extremes, random bit patterns, NaN and infinities): each is read back "
         "bit for bit while others are made, deleted and collected, printed into buffers of every size class, and read through a wrong accessor. Non-trivial: three values of two types.") {
  State st(c);
  struct Held { Num n; struct cee_boxed *b; };
  std::vector<Held> hs;
  std::set<int> types;
  struct cee_list *keep = cee_list_mk(st.s, 1);
  cee_state_add_gc_root(st.s, keep);
  while (c.more(7) && hs.size() < 20) {
    Num n = gen_num(c);
    c.note("%s %s (bits %" PRIx64 ")", TN[n.type], decimal(n).c_str(), n.bits);
    hs.push_back({n, box(st.s, n)});
    cee_list_append(keep, hs.back().b);
    types.insert(n.type);
    if (c.chance(1, 8)) { cee_state_gc(st.s); cee_state_gc(st.s); c.note("collect"); }
    for (auto &h : hs) {
      uint64_t g = unbox(h.n.type, h.b);
      CHECK(c, g == h.n.bits, "value", "%s with bits %" PRIx64 " reads as %" PRIx64, TN[h.n.type], h.n.bits, g);
    }
    {
      Held &h = hs[c.index(hs.size())];
      std::string want = decimal(h.n);
      size_t size = c.coin() ? c.draw(want.size() + 3) : 64;
      std::vector<char> buf(size + 16, '\x7e');
      size_t r = cee_boxed_snprint(size ? buf.data() : nullptr, size, h.b);
      CHECK(c, r == want.size(), "print-length", "printing %s into %zu bytes returned %zu, expected %zu", want.c_str(), size, r, want.size());
      if (size) CHECK(c, std::string(buf.data()) == want.substr(0, size - 1), "print-text", "%s prints as %s in %zu bytes", want.c_str(), quote(std::string(buf.data(), strnlen(buf.data(), size))).c_str(), size);
      for (size_t i = size; i < buf.size(); i++) CHECK(c, buf[i] == '\x7e', "print-overrun", "printing into %zu bytes wrote byte %zu", size, i);
    }
    if (c.chance(1, 3)) {
      Held &h = hs[c.index(hs.size())];
      int t = 1 + (int)c.draw(9);
      uint64_t g = 0;
      if (t != h.n.type) {
        bool stopped = trapped([&] { g = unbox(t, h.b); });
        CHECK(c, stopped, "wrong-type", "reading a %s as %s returned %" PRIx64, TN[h.n.type], TN[t], g);
        c.label("wrong accessor");
      }
    }
  }
  if (hs.size() >= 3 && types.size() >= 2) c.nontrivial();
  cee_state_remove_gc_root(st.s, keep);
  st.done();
}

// ------------------------------------------------------------ C19, C20
namespace {
// a format and its expansion
struct Piece { int kind; std::string s, want; long long ll; double d; int i, w; };
Piece piece(Case &c, size_t fill) {
  Piece p;
  p.kind = c.weighted({6, 2, 1, 1, 1, 1});
  p.ll = (long long)c.draw(UINT64_MAX) >> c.draw(63);
  p.d = (double)c.range(-100000, 100000) / 128;
  p.i = (int)c.range(-1000, 1000);
  p.w = (int)c.draw(60);
  p.s = c.chance(1, 3) ? std::string(fill, 'f') : text::bytes_nz(c, c.chance(1, 6) ? 400 : 30);
  static char b[1 << 16];
  switch (p.kind) {
    case 0: p.want = p.s; break;
    case 1: snprintf(b, sizeof b, "%lld|%s", p.ll, p.s.c_str()); p.want = b; break;
    case 2: snprintf(b, sizeof b, "%*d", p.w, p.i); p.want = b; break;
    case 3: snprintf(b, sizeof b, "%f%%", p.d); p.want = b; break;
    case 4: p.want = "constant"; break;
    default: snprintf(b, sizeof b, "%d %d %d %d %d %d %d %.2f %s", p.i, 1, 2, 3, 4, 5, 6, p.d, p.s.c_str()); p.want = b;
  }
  return p;
}
#define CALL(f, ...)                                                                            \
  (p.kind == 0 ? f(__VA_ARGS__, "%s", p.s.c_str())                                               \
   : p.kind == 1 ? f(__VA_ARGS__, "%lld|%s", p.ll, p.s.c_str())                                  \
   : p.kind == 2 ? f(__VA_ARGS__, "%*d", p.w, p.i)                                               \
   : p.kind == 3 ? f(__VA_ARGS__, "%f%%", p.d)                                                   \
   : p.kind == 4 ? f(__VA_ARGS__, "constant")                                                    \
                 : f(__VA_ARGS__, "%d %d %d %d %d %d %d %.2f %s", p.i, 1, 2, 3, 4, 5, 6, p.d, p.s.c_str()))
struct cee_str *mkv(struct cee_state *s, const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  struct cee_str *r = cee_str_mkv(s, fmt, ap);
  va_end(ap);
  return r;
}
void check_str(Case &c, struct cee_str *s, const std::string &want, const char *op) {
  size_t room = pbt::mem::room_after(s);
  CHECK(c, room > want.size(), "room", "%s: %zu bytes allocated for a text of %zu and its terminator", op, room, want.size());
  std::string got((char *)s, strnlen((char *)s, room));
  CHECK(c, got.size() < room, "unterminated", "%s: no terminator in the allocation", op);
  CHECK(c, got == want, "text", "%s: text is %s, expected %s", op, quote(got, 300).c_str(), quote(want, 300).c_str());
  CHECK(c, cee_str_end(s) == (char *)s + want.size(), "end", "%s: end is %td, expected %zu", op, cee_str_end(s) - (char *)s, want.size());
}
}  // namespace

PROPERTY("C19", "building", 45,
         "Histories of making (four constructors), appending formatted text and characters, appending bytes and replacing on up to three strings under both growth methods; "
         "appended lengths are biased to land around the remaining room. Text, terminator, end and allocation are checked after every step. "
         "Non-trivial: 5 operations, of which one moved the string to another block.") {
  State st(c);
  struct S { struct cee_str *s; std::string m; bool re; };
  std::vector<S> v;
  size_t ops = 0, moved = 0;
  auto left = [&](const S &x) {  // a length that nearly fills the block
    size_t room = pbt::mem::room_after(x.s) - x.m.size();
    long n = (long)room + c.range(-18, 3);
    return (size_t)(n < 0 ? 0 : n > 3000 ? 3000 : n);
  };
  while (c.more(12)) {
    if (v.empty() || (v.size() < 3 && c.chance(1, 6))) {
      Piece p = piece(c, c.pick<size_t>({0, 1, 2, 40, 63, 64, 65, 120, 128}));
      if (c.chance(1, 4)) p = piece(c, c.draw(150));
      S x;
      size_t n = c.draw(260);
      int how = (int)c.draw(3);
      switch (how) {
        case 0: x.s = CALL(cee_str_mk, st.s); break;
        case 1: x.s = CALL(mkv, st.s); break;
        case 2: x.s = CALL(cee_str_mk_e, st.s, n); break;
        default: x.s = cee_str_mk_e(st.s, n, nullptr); p.want = ""; break;
      }
      if (how >= 2) {
        CHECK(c, pbt::mem::room_after(x.s) >= n, "requested", "%zu bytes asked for, %zu allocated", n, pbt::mem::room_after(x.s));
        c.label("sized");
      }
      x.m = p.want;
      x.re = c.coin();
      if (x.re) cee_use_realloc(x.s);
      c.note("string %zu (%s, constructor %d, n %zu): %s", v.size(), x.re ? "realloc" : "malloc", how, n, quote(x.m).c_str());
      check_str(c, x.s, x.m, "make");
      if (how >= 2 && n > x.m.size() + 1) {  // the requested room is offered: filling it does not move the string
        std::string f(n - x.m.size() - 1, 'r');
        if (c.coin()) {
          struct cee_str *s2 = cee_str_catf(x.s, "%s", f.c_str());
          CHECK(c, s2 == x.s, "requested", "a string made for %zu bytes moved when %zu were used", n, n);
          x.m += f;
          check_str(c, x.s, x.m, "fill");
        }
      }
      v.push_back(x);
      continue;
    }
    S &x = c.size() ? v[c.index(v.size())] : v[0];
    struct cee_str *old = x.s;
    size_t near = left(x);
    ops++;
    switch (c.weighted({5, 3, 3, 1, 1})) {
      case 0: { Piece p = piece(c, near); c.note("catf %s", quote(p.want).c_str()); x.s = CALL(cee_str_catf, x.s); x.m += p.want; break; }
      case 1: {
        unsigned n = 1 + (unsigned)c.draw(c.coin() ? 2 : 40);
        c.note("add %u characters", n);
        for (unsigned i = 0; i < n; i++) { char ch = (char)c.range(1, 255); x.s = cee_str_add(x.s, ch); x.m += ch; check_str(c, x.s, x.m, "add"); }
        break;
      }
      case 2: { Piece p = piece(c, std::min<size_t>(c.coin() ? near + x.m.size() : near, 6000)); c.note("replace by %s", quote(p.want).c_str()); x.s = CALL(cee_str_replace, x.s); x.m = p.want; break; }
      case 3: x.s = c.coin() ? cee_str_catf(x.s, nullptr) : cee_str_replace(x.s, nullptr); c.note("null format"); break;
      default:
        if (x.re) cee_use_malloc(x.s); else cee_use_realloc(x.s);
        x.re = !x.re;
        c.note("switch growth method");
    }
    if (old != x.s) moved++;
    for (auto &y : v) check_str(c, y.s, y.m, "operation");
    if (c.chance(1, 12)) {
      struct cee_list *l = cee_list_mk(st.s, 2);
      for (auto &y : v) cee_list_append(l, y.s);
      cee_state_add_gc_root(st.s, l);
      cee_state_gc(st.s);
      cee_state_gc(st.s);
      cee_state_remove_gc_root(st.s, l);
      for (auto &y : v) check_str(c, y.s, y.m, "collection");
    }
  }
  if (ops >= 5 && moved) c.nontrivial();
  if (moved) c.label("moved");
  st.done();
}
PROPERTY("C19", "one_by_one", 2, "A string grown to 300 to 3000 characters one at a time and in small pieces, checked at every length, under both growth methods. Always non-trivial.") {
  State st(c);
  struct cee_str *s = c.coin() ? cee_str_mk(st.s, "") : cee_str_mk_e(st.s, c.draw(200), nullptr);
  bool re = c.coin();
  if (re) cee_use_realloc(s);
  std::string m;
  size_t n = 300 + c.draw(re ? 2700 : 900), step = c.draw(3);
  while (m.size() < n) {
    if (!step || m.size() % 3) { char ch = (char)(33 + m.size() % 90); s = cee_str_add(s, ch); m += ch; }
    else { std::string t(step, 'u'); s = cee_str_catf(s, "%s", t.c_str()); m += t; }
    check_str(c, s, m, "grow");
  }
  c.nontrivial();
  st.done();
}

PROPERTY("C19", "long_texts", 3, "Strings of 128 to 260000 characters, their lengths next to powers of two: made, then grown by characters, formatted text and bytes across such a length and replaced, under both growth "
         "methods. Always non-trivial.") {
  State st(c);
  size_t n = text::edge(c);
  std::string m = text::ramp(n, (unsigned)c.draw(90));
  struct cee_str *s;
  int how = (int)c.draw(3);
  c.note("length %zu, constructor %d", n, how);
  switch (how) {
    case 0: s = cee_str_mk(st.s, "%s", m.c_str()); break;
    case 1: s = mkv(st.s, "%s", m.c_str()); break;
    case 2: s = cee_str_mk_e(st.s, c.coin() ? 10 : n + c.draw(70), "%s", m.c_str()); break;
    default: s = cee_str_strn(st.s, &m[0], n); break;
  }
  check_str(c, s, m, "make");
  if (c.coin()) cee_use_realloc(s);
  for (unsigned k = 1 + (unsigned)c.draw(9); k; k--) {
    switch (c.weighted({5, 2, 2, 1})) {
      case 0: { unsigned r = 1 + (unsigned)c.draw(6); c.note("add %u", r); for (; r; r--) { char ch = (char)c.range('a', 'z'); s = cee_str_add(s, ch); m += ch; } break; }
      case 1: { std::string t = text::ramp(c.chance(1, 3) ? text::edge(c) : c.draw(9), 7); c.note("catf %zu", t.size()); s = cee_str_catf(s, "%s", t.c_str()); m += t; break; }
      case 2: { std::string t = text::ramp(c.chance(1, 3) ? text::edge(c) : c.draw(9), 3); c.note("ncat %zu", t.size()); s = cee_str_ncat(s, &t[0], t.size()); m += t; break; }
      default: { std::string t = text::ramp(c.coin() ? text::edge(c) : m.size() + c.draw(20), 5); c.note("replace %zu", t.size()); s = cee_str_replace(s, "%s", t.c_str()); m = t; }
    }
    check_str(c, s, m, "operation");
    if (m.size() > 400000) break;
  }
  c.nontrivial();
  st.done();
}

namespace {
char *exact_copy(const std::string &s, bool term = true) {
  char *p = new char[s.size() + (term ? 1 : s.empty())];
  memcpy(p, s.data(), s.size());
  if (term) p[s.size()] = 0;
  return p;
}
std::string blanky(Case &c) {
  std::string s;
  unsigned n = (unsigned)c.draw(c.chance(1, 6) ? 200 : 12);
  int p = (int)c.draw(2);
  for (unsigned i = 0; i < n; i++) {
    bool edge = i < n / 3 || i >= n - n / 3;
    if (p == 0 || (p == 1 && edge) || c.chance(1, 4)) s += " \t\r\n"[c.draw(3)];
    else s += c.chance(1, 5) ? c.pick({'\v', '\f', '\x01', '\xa0', '\x85', '!', '\x1f', '\b'}) : (char)c.range('a', 'z');
  }
  return s;
}
}
PROPERTY("C20", "trim_copy", 60,
         "Strings of blanks and other characters (vertical tab, form feed and high bytes included) made from n bytes with neighbours, trimmed on either side in either order, and appended to "
         "by length, from sources with no terminator. Non-trivial: something was trimmed or a byte append moved the string.") {
  State st(c);
  bool hit = false;
  while (c.more(3)) {
    std::string t = blanky(c), want = t;
    std::string src = t + "tail that does not belong";
    size_t cut = t.size();
    char *exact = new char[cut + !cut];
    memcpy(exact, t.data(), cut);
    struct cee_str *s = c.coin() ? cee_str_strn(st.s, exact, cut) : cee_str_strn(st.s, &src[0], cut);
    delete[] exact;
    c.note("strn %s", quote(t).c_str());
    check_str(c, s, want, "strn");
    if (c.chance(1, 3)) {  // the n bytes are bytes
      std::string raw = want;
      for (unsigned k = (unsigned)c.draw(3); k && !raw.empty(); k--) raw[c.index(raw.size())] = c.coin() ? 0 : (char)c.draw(255);
      char *e = exact_copy(raw, false);
      char *q = (char *)cee_str_strn(st.s, e, raw.size());
      c.note("strn of bytes %s", quote(raw).c_str());
      CHECK(c, pbt::mem::room_after(q) > raw.size() && !memcmp(q, raw.data(), raw.size()) && !q[raw.size()], "bytes", "the %zu bytes %s were not copied whole", raw.size(), quote(raw).c_str());
      delete[] e;
      cee_del(q);
    }
    bool re = c.coin();
    if (re) cee_use_realloc(s);
    while (c.more(4)) {
      std::string before = want;
      switch (c.draw(2)) {
        case 0: {
          c.note("ltrim");
          size_t i = want.find_first_not_of(" \t\r\n");
          want = i == std::string::npos ? "" : want.substr(i);
          cee_str_ltrim(s);
          check_str(c, s, want, "ltrim");
          break;
        }
        case 1: {
          c.note("rtrim");
          size_t i = want.find_last_not_of(" \t\r\n");
          want = i == std::string::npos ? "" : want.substr(0, i + 1);
          cee_str_rtrim(s);
          check_str(c, s, want, "rtrim");
          break;
        }
        default: {
          std::string a = want.size() > 5000 || c.coin() ? blanky(c) : std::string(std::max<long>(0, (long)(pbt::mem::room_after(s) - want.size()) + c.range(-12, 3)), 'n');
          size_t n = c.coin() ? a.size() : c.draw(a.size());
          c.note("ncat %zu of %s", n, quote(a).c_str());
          char *e = new char[n + !n];
          memcpy(e, a.data(), n);
          struct cee_str *old = s;
          s = cee_str_ncat(s, e, n);
          delete[] e;
          want += a.substr(0, n);
          if (s != old) hit = true;
          check_str(c, s, want, "ncat");
        }
      }
      if (want.size() < before.size()) hit = true;
    }
  }
  if (hit) c.nontrivial();
  st.done();
}

PROPERTY("C20", "long", 3, "Texts of up to 400000 characters with runs of blanks, of lengths next to powers of two, at either end and inside, made from n bytes, trimmed and appended to by length. Always non-trivial.") {
  State st(c);
  auto run = [&]() { size_t n = c.weighted({2, 2, 1}) ? text::edge(c) : c.draw(3); return c.coin() ? std::string(n, c.pick({' ', '\n', '\t', '\r'})) : [&] { std::string b(n, ' '); for (size_t i = 0; i < n; i++) b[i] = " \t\r\n"[(i * 7 + i / 50) % 4]; return b; }(); };
  auto word = [&]() { return text::ramp(c.coin() ? c.draw(4) : text::edge(c), (unsigned)c.draw(90)); };
  std::string a = run(), w = word(), b = run(), t = a + w + b;
  c.note("%zu blanks, %zu others, %zu blanks", a.size(), w.size(), b.size());
  char *exact = exact_copy(t, false);
  struct cee_str *s = cee_str_strn(st.s, exact, t.size());
  delete[] exact;
  check_str(c, s, t, "strn");
  if (c.coin()) cee_use_realloc(s);
  for (unsigned k = 1 + (unsigned)c.draw(3); k; k--) {
    switch (c.draw(2)) {
      case 0: { c.note("ltrim"); size_t i = t.find_first_not_of(" \t\r\n"); t = i == std::string::npos ? "" : t.substr(i); cee_str_ltrim(s); check_str(c, s, t, "ltrim"); break; }
      case 1: { c.note("rtrim"); size_t i = t.find_last_not_of(" \t\r\n"); t = i == std::string::npos ? "" : t.substr(0, i + 1); cee_str_rtrim(s); check_str(c, s, t, "rtrim"); break; }
      default: {
        std::string x = c.coin() ? word() : run() + word();
        size_t n = c.coin() ? x.size() : c.draw(x.size());
        c.note("ncat %zu", n);
        char *e = exact_copy(x.substr(0, n), false);
        s = cee_str_ncat(s, e, n);
        delete[] e;
        t += x.substr(0, n);
        check_str(c, s, t, "ncat");
      }
    }
  }
  c.nontrivial();
  st.done();
}

// ------------------------------------------------------------------ C21
namespace {
// three letters; now and then any other byte among them, or three other ones in their stead
const char *g_abc = "abc";
std::string few(Case &c, unsigned max, bool nul = false) {
  std::string s;
  bool odd = c.chance(1, 8);
  for (unsigned n = (unsigned)c.draw(max); n; n--) s += nul && c.chance(1, 6) ? '\0' : odd && c.chance(1, 4) ? (char)c.range(1, 255) : g_abc[c.draw(2)];
  return s;
}
void alphabet(Case &c) { g_abc = c.pick({"abc", "abc", "abc", "a\tb", "\n \t", "\xff\x80\x01", "a\xc3\xa9", "%s\\", "A.*"}); }
void check_result(Case &c, char *r, const std::string &want, const char *op) {
  CHECK(c, alive(r), "result", "%s: the result is no allocated block", op);
  size_t room = pbt::mem::room_after(r);
  CHECK(c, room > want.size(), "result", "%s: %zu bytes allocated for %zu", op, room, want.size() + 1);
  CHECK(c, std::string(r, want.size()) == want && r[want.size()] == 0, "result", "%s gives %s, expected %s", op, quote(std::string(r, strnlen(r, room))).c_str(), quote(want).c_str());
}
}
extern "C" void __wrap_free(void *);
PROPERTY("C21", "replace_all", 50,
         "Texts over one of several three-letter alphabets (letters, white space, high bytes, format and pattern characters), now and then with any other byte (many and overlapping occurrences) with patterns of 1 to 6 and replacements of 0 to 300 characters; exact-size inputs. "
         "Non-trivial: two occurrences and a replacement of another length.") {
  alphabet(c);
  std::string t = few(c, c.chance(1, 5) ? 300 : 25), o = few(c, 5) + g_abc[c.draw(2)], n = few(c, c.chance(1, 6) ? 300 : 8);
  if (c.chance(1, 4) && t.size() >= 2) { size_t i = c.index(t.size() - 1); o = t.substr(i, 1 + c.draw(3)); }
  std::string want;
  int hits = 0;
  for (size_t i = 0; i < t.size();) {
    if (t.compare(i, o.size(), o) == 0) { want += n; i += o.size(); hits++; }
    else want += t[i++];
  }
  c.note("%s: %s -> %s", quote(t).c_str(), quote(o).c_str(), quote(n).c_str());
  char *pt = exact_copy(t), *po = exact_copy(o), *pn = exact_copy(n);
  char *r = str_replace_all(pt, po, pn);
  check_result(c, r, want, "replace_all");
  CHECK(c, t == pt && o == po && n == pn, "input", "an argument was changed");
  delete[] pt; delete[] po; delete[] pn;
  __wrap_free(r);
  CHECK(c, pbt::mem::live() == 0, "leak", "%zu blocks besides the result", pbt::mem::live());
  if (hits >= 2 && n.size() != o.size()) c.nontrivial();
}
PROPERTY("C21", "replace_at_offset", 25, "Every offset and length inside texts of 0 to 40 characters, replacements of 0 to 40. Non-trivial: something replaced by text of another length.") {
  alphabet(c);
  std::string t = few(c, 40), n = few(c, 40);
  size_t at = c.draw(t.size()), len = c.draw(t.size() - at);
  std::string want = t.substr(0, at) + n + t.substr(at + len);
  c.note("%s: %zu from %zu -> %s", quote(t).c_str(), len, at, quote(n).c_str());
  char *pt = exact_copy(t), *pn = exact_copy(n);
  char *r = str_replace_at_offset(pt, at, len, pn);
  check_result(c, r, want, "replace_at_offset");
  delete[] pt; delete[] pn;
  __wrap_free(r);
  CHECK(c, pbt::mem::live() == 0, "leak", "%zu blocks besides the result", pbt::mem::live());
  if (len && n.size() != len) c.nontrivial();
}
PROPERTY("C21", "replace_all_ext", 60,
         "Texts with embedded zero bytes and no terminator of 0 to 300 bytes, 1 to 24 pattern pairs (some sharing prefixes, some empty). Non-trivial: two pairs used.") {
  alphabet(c);
  std::string t = few(c, c.chance(1, 5) ? 300 : 25, true);
  size_t k = c.chance(1, 6) ? 1 + c.draw(23) : 1 + c.draw(3);
  std::string o[24], n[24];
  for (size_t i = 0; i < k; i++) {
    o[i] = c.chance(1, 20) ? "" : few(c, c.chance(1, 6) ? 12 : 3) + g_abc[c.draw(2)];
    n[i] = few(c, c.chance(1, 10) ? 200 : 6);
  }
  std::string want;
  std::set<size_t> used;
  for (size_t i = 0; i < t.size();) {
    size_t j = 0;
    while (j < k && (o[j].empty() || t.compare(i, o[j].size(), o[j]))) j++;
    if (j < k) { want += n[j]; i += o[j].size(); used.insert(j); }
    else want += t[i++];
  }
  char *pt = exact_copy(t, false), *po[24], *pn[24];
  for (size_t i = 0; i < 24; i++) { po[i] = exact_copy(o[i]); pn[i] = exact_copy(n[i]); }
  std::string d;
  for (size_t i = 0; i < k; i++) d += " " + quote(o[i]) + "->" + quote(n[i]);
  c.note("%s:%s", quote(t).c_str(), d.c_str());
  size_t out = 0x5a5a5a;
  bool ask = c.chance(4, 5);
#define P(i) po[i], pn[i]
  char *r = str_replace_all_ext(pt, t.size(), ask ? &out : nullptr, (int)k, P(0), P(1), P(2), P(3), P(4), P(5), P(6), P(7), P(8), P(9), P(10), P(11), P(12), P(13), P(14),
                                P(15), P(16), P(17), P(18), P(19), P(20), P(21), P(22), P(23));
  if (ask) CHECK(c, out == want.size(), "length", "reported length %zu, expected %zu", out, want.size());
  check_result(c, r, want, "replace_all_ext");
  delete[] pt;
  for (size_t i = 0; i < 24; i++) { delete[] po[i]; delete[] pn[i]; }
  __wrap_free(r);
  CHECK(c, pbt::mem::live() == 0, "leak", "%zu blocks besides the result", pbt::mem::live());
  if (used.size() >= 2) c.nontrivial();
}

PROPERTY("C21", "long", 2, "Texts, patterns and replacements whose lengths or positions are next to powers of two up to 131072 (not all long at once), replaced by all three functions. Always non-trivial.") {
  g_abc = "abc";
  std::string o = few(c, 4) + "c";
  int which = c.weighted({3, 2, 2});  // what is long: the text, the pattern, the replacement
  if (which == 1) o = std::string(text::edge(c), 'b') + "c";
  size_t L = which == 2 ? text::edge(c) : c.draw(30);
  std::string n(L, 'n'), t;
  if (L) n[L - 1] = 'N';
  for (unsigned k = 1 + (unsigned)c.draw(3); k; k--) { t += std::string(which == 0 && c.chance(2, 3) ? text::edge(c) : c.draw(40), c.pick({'a', 'b'})); if (c.chance(3, 4)) t += o; }
  std::string want;
  for (size_t i = 0, j; ; i = j + o.size()) {
    j = t.find(o, i);
    want += t.substr(i, j == std::string::npos ? j : j - i);
    if (j == std::string::npos) break;
    want += n;
  }
  int how = (int)c.draw(2);
  c.note("%d: text of %zu, pattern of %zu, replacement of %zu", how, t.size(), o.size(), n.size());
  char *pt = exact_copy(t, how != 2), *po = exact_copy(o), *pn = exact_copy(n), *r;
  switch (how) {
    case 0: r = str_replace_all(pt, po, pn); break;
    case 1: {
      size_t at = c.coin() ? std::min(text::edge(c), t.size()) : c.draw(t.size()), len = c.coin() ? t.size() - at : std::min<size_t>(t.size() - at, c.coin() ? text::edge(c) : c.draw(9));
      want = t.substr(0, at) + n + t.substr(at + len);
      r = str_replace_at_offset(pt, at, len, pn);
      break;
    }
    default: {
      size_t out = 0;
      r = str_replace_all_ext(pt, t.size(), &out, 2, "zz", "y", po, pn);
      CHECK(c, out == want.size(), "length", "reported length %zu, expected %zu", out, want.size());
    }
  }
  check_result(c, r, want, how == 0 ? "replace_all" : how == 1 ? "replace_at_offset" : "replace_all_ext");
  delete[] pt; delete[] po; delete[] pn;
  __wrap_free(r);
  CHECK(c, pbt::mem::live() == 0, "leak", "%zu blocks besides the result", pbt::mem::live());
  c.nontrivial();
}
