// C22: string views against definitions on std::string.  Every view lies in a
// block of exactly its own size, so any byte read outside it is caught.
#include "pbt.hpp"
#define SV_IMPLEMENTATION
#define SVDEF static
#include "strview.c"
#include "text.hpp"
#include <algorithm>
using pbt::Case;
using pbt::quote;
namespace {
struct Buf {
  char *p;
  size_t n;
  explicit Buf(const std::string &s) : p((char *)::operator new(s.size() ? s.size() : 1)), n(s.size()) {
    memcpy(p, s.data(), n);
    if (!n) { ::operator delete(p); p = (char *)::operator new(0); }
  }
  ~Buf() { ::operator delete(p); }
  String_View sv() const { return sv_from_parts(p, n); }
};
std::string str(String_View v) { return std::string(v.data, v.count); }
std::string gen(Case &c, unsigned max) {
  std::string s;
  int kind = c.weighted({4, 2, 2, 1});
  for (unsigned n = (unsigned)c.draw(max); n; n--) switch (kind) {
    case 0: s += (char)('a' + c.draw(2)); break;
    case 1: s += c.chance(1, 2) ? " \t\n\v\f\r"[c.draw(5)] : (char)c.range('a', 'c'); break;
    case 2: s += (char)('0' + c.draw(9)); break;
    default: s += (char)c.draw(255); break;
  }
  return s;
}
bool p_lower(char x) { return x >= 'a' && x <= 'b'; }
bool p_digit(char x) { return x >= '0' && x <= '9'; }
bool p_all(char) { return true; }
bool p_none(char) { return false; }
bool p_high(char x) { return (unsigned char)x >= 128 || x == 'a'; }
bool (*PRED[])(char) = {p_lower, p_digit, p_all, p_none, p_high};
const char *SP = " \t\n\v\f\r";
char fold(char x) { return x >= 'A' && x <= 'Z' ? (char)(x + 32) : x; }
}  // namespace

#define SAME(got, off, len, op) \
  CHECK(c, (got).data == b.p + (off) && (got).count == (size_t)(len), op, "%s on %s gives [%td,+%zu), expected [%zu,+%zu)", op, quote(t).c_str(), (got).data - b.p, (got).count, (size_t)(off), (size_t)(len))

PROPERTY("C22", "slicing", 300,
         "One view operation on an exact-size unterminated buffer (empty, blank, delimited, digit and binary texts), compared with its definition; chopped part, delimiter "
         "and remainder must reassemble the view. Non-trivial: a non-empty view that the operation split or shortened.") {
  std::string t = gen(c, 14);
  Buf b(t);
  String_View v = b.sv();
  size_t n = t.size();
  switch (c.draw(9)) {
    case 0: {
      size_t i = t.find_first_not_of(SP, 0, 6), j = t.find_last_not_of(SP, std::string::npos, 6);
      size_t l = i == std::string::npos ? n : i, r = j == std::string::npos ? 0 : j + 1;
      c.note("trim %s", quote(t).c_str());
      SAME(sv_trim_left(v), l, n - l, "trim_left");
      SAME(sv_trim_right(v), 0, r, "trim_right");
      if (l < n) SAME(sv_trim(v), l, r - l, "trim");
      else CHECK(c, sv_trim(v).count == 0, "trim", "blank view");
      if (l || r < n) c.nontrivial();
      break;
    }
    case 1: {
      size_t k = c.chance(1, 10) ? (size_t)-1 - c.draw(2) : c.draw(n + 3), m = std::min(k, n);
      c.note("chop_left %zu of %s", k, quote(t).c_str());
      String_View a = sv_chop_left(&v, k);
      SAME(a, 0, m, "chop_left");
      SAME(v, m, n - m, "chop_left");
      if (m && m < n) c.nontrivial();
      break;
    }
    case 2: {
      size_t k = c.chance(1, 10) ? (size_t)-1 - c.draw(2) : c.draw(n + 3), m = std::min(k, n);
      c.note("chop_right %zu of %s", k, quote(t).c_str());
      String_View a = sv_chop_right(&v, k);
      SAME(a, n - m, m, "chop_right");
      SAME(v, 0, n - m, "chop_right");
      if (m && m < n) c.nontrivial();
      break;
    }
    case 3: {
      char d = n && c.coin() ? t[c.index(n)] : (char)c.draw(255);
      size_t i = t.find(d);
      c.note("chop_by_delim %d of %s", d, quote(t).c_str());
      String_View a = sv_chop_by_delim(&v, d);
      if (i == std::string::npos) { SAME(a, 0, n, "chop_by_delim"); SAME(v, n, 0, "chop_by_delim"); }
      else { SAME(a, 0, i, "chop_by_delim"); SAME(v, i + 1, n - i - 1, "chop_by_delim"); c.nontrivial(); }
      break;
    }
    case 4: {
      char d = n && c.coin() ? t[c.index(n)] : (char)c.draw(255);
      size_t i = t.find(d);
      c.note("try_chop_by_delim %d of %s", d, quote(t).c_str());
      String_View a = sv_from_parts(b.p, 999);
      bool ask = c.chance(4, 5);
      bool r = sv_try_chop_by_delim(&v, d, ask ? &a : nullptr);
      CHECK(c, r == (i != std::string::npos), "try_chop_by_delim", "returned %d", r);
      if (!r) { SAME(v, 0, n, "try_chop_by_delim"); CHECK(c, a.count == 999, "try_chop_by_delim", "chunk set without a delimiter"); }
      else { if (ask) SAME(a, 0, i, "try_chop_by_delim"); SAME(v, i + 1, n - i - 1, "try_chop_by_delim"); c.nontrivial(); }
      size_t at = 12345;
      r = sv_index_of(b.sv(), d, &at);
      CHECK(c, r == (i != std::string::npos) && at == (r ? i : 12345), "index_of", "returned %d, index %zu", r, at);
      CHECK(c, sv_index_of(b.sv(), d, nullptr) == r, "index_of", "without an index");
      break;
    }
    case 5: {
      auto *p = PRED[c.draw(4)];
      size_t i = 0;
      while (i < n && p(t[i])) i++;
      c.note("while predicate on %s", quote(t).c_str());
      SAME(sv_take_left_while(v, p), 0, i, "take_left_while");
      String_View a = sv_chop_left_while(&v, p);
      SAME(a, 0, i, "chop_left_while");
      SAME(v, i, n - i, "chop_left_while");
      if (i && i < n) c.nontrivial();
      break;
    }
    case 6: {
      // digits, kept below 2^64
      std::string ds = t.substr(0, 19);
      Buf e(ds);
      size_t i = 0;
      uint64_t w = 0;
      while (i < ds.size() && p_digit(ds[i])) w = w * 10 + (uint64_t)(ds[i++] - '0');
      c.note("number %s", quote(ds).c_str());
      CHECK(c, sv_to_u64(e.sv()) == w, "to_u64", "%s reads as %llu", quote(ds).c_str(), (unsigned long long)sv_to_u64(e.sv()));
      String_View x = e.sv();
      uint64_t g = sv_chop_u64(&x);
      CHECK(c, g == w && x.data == e.p + i && x.count == ds.size() - i, "chop_u64", "%s chops to %llu and %zu left", quote(ds).c_str(), (unsigned long long)g, x.count);
      if (i >= 2) c.nontrivial();
      break;
    }
    case 7: {
      std::string u = c.coin() ? t : gen(c, 14);
      if (u.size() && c.coin()) { size_t k = c.index(u.size()); u[k] = c.coin() ? (char)(u[k] ^ 32) : (char)c.draw(255); }
      Buf e(u);
      c.note("compare %s with %s", quote(t).c_str(), quote(u).c_str());
      CHECK(c, sv_eq(v, e.sv()) == (t == u), "eq", "%s and %s", quote(t).c_str(), quote(u).c_str());
      bool ie = t.size() == u.size() && std::equal(t.begin(), t.end(), u.begin(), [](char x, char y) { return fold(x) == fold(y); });
      CHECK(c, sv_eq_ignorecase(v, e.sv()) == ie, "eq_ignorecase", "%s and %s", quote(t).c_str(), quote(u).c_str());
      if (n && n == u.size()) c.nontrivial();
      break;
    }
    case 8: {
      std::string u = c.coin() ? t.substr(0, c.draw(n)) : c.coin() ? t.substr(c.draw(n)) : gen(c, 5);
      if (u.size() && c.chance(1, 4)) u[c.index(u.size())] ^= 1;
      Buf e(u);
      c.note("%s starts or ends with %s", quote(t).c_str(), quote(u).c_str());
      bool s = u.size() <= n && t.compare(0, u.size(), u) == 0, f = u.size() <= n && t.compare(n - u.size(), u.size(), u) == 0;
      CHECK(c, sv_starts_with(v, e.sv()) == s, "starts_with", "%s with %s", quote(t).c_str(), quote(u).c_str());
      CHECK(c, sv_ends_with(v, e.sv()) == f, "ends_with", "%s with %s", quote(t).c_str(), quote(u).c_str());
      if (u.size() && n) c.nontrivial();
      break;
    }
    default: {
      std::string z = t.substr(0, t.find('\0'));
      String_View x = sv_from_cstr(z.c_str());
      CHECK(c, x.data == z.c_str() && x.count == z.size(), "from_cstr", "%s gives %zu characters", quote(z).c_str(), x.count);
    }
  }
}

PROPERTY("C22", "chop_by_view", 150,
         "Repeatedly chopping a view of few letters by a delimiter of 0 to 5 characters (often a piece of the text, sometimes longer than it) until it is empty; each part is the text "
         "before the first occurrence, or all of it if there is none. Non-trivial: two parts, delimiter of two characters or more.") {
  std::string t, d;
  for (unsigned n = (unsigned)c.draw(20); n; n--) t += (char)('a' + c.draw(1));
  if (t.size() && c.chance(2, 3)) d = t.substr(c.index(t.size()), 1 + c.draw(3));
  else for (unsigned n = 1 + (unsigned)c.draw(4); n; n--) d += (char)('a' + c.draw(2));
  Buf b(t), e(d);
  String_View v = b.sv();
  c.note("%s by %s", quote(t).c_str(), quote(d).c_str());
  size_t off = 0, parts = 0;
  while (off <= t.size() && parts < 30) {
    size_t i = t.find(d, off);
    String_View a = sv_chop_by_sv(&v, e.sv());
    size_t end = i == std::string::npos ? t.size() : i, next = i == std::string::npos ? t.size() : i + d.size();
    SAME(a, off, end - off, "chop_by_sv");
    SAME(v, next, t.size() - next, "chop_by_sv remainder");
    parts++;
    off = next;
    if (i == std::string::npos) break;
  }
  if (parts >= 2 && d.size() >= 2) c.nontrivial();
}

PROPERTY("C22", "long", 6,
         "Views of up to 400000 characters: runs of blanks, of one letter and of others whose lengths are next to powers of two, with every slicing operation at such a position. Always non-trivial.") {
  std::string t;
  std::vector<size_t> cut = {0};
  for (unsigned k = 1 + (unsigned)c.draw(3); k; k--) {
    t += std::string(c.weighted({1, 3}) ? text::edge(c) : c.draw(3), c.pick({' ', '\t', 'a', 'a', 'q', '0'}));
    cut.push_back(t.size());
    if (c.coin()) t += 'D';
  }
  size_t n = t.size(), at = c.coin() ? c.of(cut) : c.draw(n);
  Buf b(t);
  String_View v = b.sv(), a;
  int op = (int)c.draw(8);
  c.note("operation %d at %zu of %zu", op, at, n);
  std::string keep = t;
  t = "a long text";  // for the messages of SAME
  auto sp = [&](size_t i) { return i < n && memchr(SP, keep[i], 6); };
  switch (op) {
    case 0: {
      size_t l = 0, r = n;
      while (sp(l)) l++;
      while (r && sp(r - 1)) r--;
      SAME(sv_trim_left(v), l, n - l, "trim_left");
      SAME(sv_trim_right(v), 0, r, "trim_right");
      if (l < n) SAME(sv_trim(v), l, r - l, "trim");
      break;
    }
    case 1: a = sv_chop_left(&v, at); SAME(a, 0, at, "chop_left"); SAME(v, at, n - at, "chop_left"); break;
    case 2: a = sv_chop_right(&v, at); SAME(a, n - at, at, "chop_right"); SAME(v, 0, n - at, "chop_right"); break;
    case 3: {
      size_t i = keep.find('D'), e = i == std::string::npos ? n : i, x = i == std::string::npos ? n : i + 1, k = 77;
      CHECK(c, sv_index_of(v, 'D', &k) == (i != std::string::npos) && k == (i == std::string::npos ? 77 : i), "index_of", "the delimiter at %zu was found at %zu", i, k);
      a = sv_chop_by_delim(&v, 'D');
      SAME(a, 0, e, "chop_by_delim");
      SAME(v, x, n - x, "chop_by_delim");
      break;
    }
    case 4: {
      size_t i = 0;
      while (i < n && p_lower(keep[i])) i++;
      SAME(sv_take_left_while(v, p_lower), 0, i, "take_left_while");
      a = sv_chop_left_while(&v, p_lower);
      SAME(a, 0, i, "chop_left_while");
      SAME(v, i, n - i, "chop_left_while");
      break;
    }
    case 5: {
      std::string u = keep;
      if (n && c.coin()) u[at < n ? at : n - 1] ^= 1;
      if (c.chance(1, 4)) u += 'x';
      Buf e(u);
      CHECK(c, sv_eq(v, e.sv()) == (u == keep), "eq", "%zu and %zu characters", n, u.size());
      break;
    }
    case 6: {
      std::string u = c.coin() ? keep.substr(0, at) : keep.substr(n - at);
      if (u.size() && c.coin()) u[c.coin() ? 0 : u.size() - 1] ^= 1;
      Buf e(u);
      CHECK(c, sv_starts_with(v, e.sv()) == (keep.compare(0, u.size(), u) == 0), "starts_with", "%zu characters with %zu", n, u.size());
      CHECK(c, sv_ends_with(v, e.sv()) == (keep.compare(n - u.size(), u.size(), u) == 0), "ends_with", "%zu characters with %zu", n, u.size());
      break;
    }
    case 7: {
      std::string d = c.coin() ? "D" : keep.substr(at, 3) + (c.coin() ? "D" : "");
      if (d.empty()) d = "D";
      Buf e(d);
      size_t i = keep.find(d), z = i == std::string::npos ? n : i, x = i == std::string::npos ? n : i + d.size();
      a = sv_chop_by_sv(&v, e.sv());
      SAME(a, 0, z, "chop_by_sv");
      SAME(v, x, n - x, "chop_by_sv");
      break;
    }
    default: {
      std::string z = keep;
      a = sv_from_cstr(z.c_str());
      CHECK(c, a.data == z.c_str() && a.count == n, "from_cstr", "%zu characters give %zu", n, a.count);
      String_View y = b.sv();
      bool ok = sv_try_chop_by_delim(&y, 'D', &a);
      size_t i = keep.find('D');
      CHECK(c, ok == (i != std::string::npos), "try_chop_by_delim", "returned %d", ok);
      if (ok) { SAME(a, 0, i, "try_chop_by_delim"); SAME(y, i + 1, n - i - 1, "try_chop_by_delim"); }
      else SAME(y, 0, n, "try_chop_by_delim");
    }
  }
  c.nontrivial();
}
