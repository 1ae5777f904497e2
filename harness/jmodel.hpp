// A model of JSON values, a reference parser written from RFC 8259 and the
// leniencies the library documents, generators of values and of texts that
// denote them, and the comparison of a model value with a library value.
#pragma once
#include "pbt.hpp"
extern "C" {
#include "cee-json.h"
}
#include <charconv>
#include <cinttypes>
#include <cmath>
#include <memory>
#include <string>
#include <utility>
#include <vector>

namespace jm {
using pbt::Case;
using pbt::quote;

enum Kind { NUL, BOOL, I64, U64, DBL, STR, ARR, OBJ, STRN, BLOB, UNDEF };
static const char *const KN[] = {"null", "boolean", "i64", "u64", "double", "string", "array", "object", "counted string", "blob", "undefined"};

struct V {
  Kind k = NUL;
  bool b = false;
  int64_t i = 0;
  uint64_t u = 0;
  double d = 0;
  std::string s;
  std::vector<V> a;
  std::vector<std::pair<std::string, V>> m;  // in order of insertion
  V *find(const std::string &key) {
    for (auto &e : m) if (e.first == key) return &e.second;
    return nullptr;
  }
  void set(const std::string &key, V v) {
    if (V *o = find(key)) *o = std::move(v);
    else m.emplace_back(key, std::move(v));
  }
};
inline V v_null() { return V(); }
inline V v_bool(bool b) { V v; v.k = BOOL; v.b = b; return v; }
inline V v_i64(int64_t i) { V v; v.k = I64; v.i = i; return v; }
inline V v_u64(uint64_t u) { V v; v.k = U64; v.u = u; return v; }
inline V v_dbl(double d) { V v; v.k = DBL; v.d = d; return v; }
inline V v_str(std::string s, Kind k = STR) { V v; v.k = k; v.s = std::move(s); return v; }
inline V v_arr() { V v; v.k = ARR; return v; }
inline V v_obj() { V v; v.k = OBJ; return v; }

inline bool same_bits(double a, double b) { return memcmp(&a, &b, sizeof a) == 0; }
inline bool eq(const V &x, const V &y) {
  if (x.k != y.k) return false;
  switch (x.k) {
    case NUL: case UNDEF: return true;
    case BOOL: return x.b == y.b;
    case I64: return x.i == y.i;
    case U64: return x.u == y.u;
    case DBL: return same_bits(x.d, y.d);
    case STR: case STRN: case BLOB: return x.s == y.s;
    case ARR:
      if (x.a.size() != y.a.size()) return false;
      for (size_t i = 0; i < x.a.size(); i++) if (!eq(x.a[i], y.a[i])) return false;
      return true;
    case OBJ:
      if (x.m.size() != y.m.size()) return false;
      for (size_t i = 0; i < x.m.size(); i++) if (x.m[i].first != y.m[i].first || !eq(x.m[i].second, y.m[i].second)) return false;
      return true;
  }
  return false;
}
// the number a value stands for, exactly
inline long double num_of(const V &v) { return v.k == I64 ? (long double)v.i : v.k == U64 ? (long double)v.u : (long double)v.d; }
inline bool is_num(const V &v) { return v.k == I64 || v.k == U64 || v.k == DBL; }
// equal up to what printing keeps: the kind of a number, six digits of a real
inline bool eq_printed(const V &x, const V &y) {
  if (is_num(x) && is_num(y)) {
    if (x.k != DBL) return y.k != DBL && num_of(x) == num_of(y);
    long double a = num_of(x), b = num_of(y);
    return std::fabs((double)(a - b)) <= std::fabs((double)a) * 5.000001e-6 + 5e-324;
  }
  Kind kx = x.k == STRN ? STR : x.k, ky = y.k == STRN ? STR : y.k;
  if (kx != ky) return false;
  if (kx == STR) return x.s == y.s;
  if (kx == ARR) {
    if (x.a.size() != y.a.size()) return false;
    for (size_t i = 0; i < x.a.size(); i++) if (!eq_printed(x.a[i], y.a[i])) return false;
    return true;
  }
  if (kx == OBJ) {
    if (x.m.size() != y.m.size()) return false;
    for (size_t i = 0; i < x.m.size(); i++) if (x.m[i].first != y.m[i].first || !eq_printed(x.m[i].second, y.m[i].second)) return false;
    return true;
  }
  return eq(x, y);
}
inline size_t count(const V &v) {
  size_t n = 1;
  for (auto &e : v.a) n += count(e);
  for (auto &e : v.m) n += count(e.second);
  return n;
}
inline unsigned depth(const V &v) {
  unsigned d = 0;
  for (auto &e : v.a) d = std::max(d, depth(e));
  for (auto &e : v.m) d = std::max(d, depth(e.second));
  return d + (v.k == ARR || v.k == OBJ);
}
inline bool has_kind(const V &v, Kind k) {
  if (v.k == k) return true;
  for (auto &e : v.a) if (has_kind(e, k)) return true;
  for (auto &e : v.m) if (has_kind(e.second, k)) return true;
  return false;
}
// a readable form for messages
inline std::string show(const V &v, size_t max = 300) {
  std::string r;
  char b[64];
  switch (v.k) {
    case NUL: r = "null"; break;
    case UNDEF: r = "undefined"; break;
    case BOOL: r = v.b ? "true" : "false"; break;
    case I64: snprintf(b, sizeof b, "%" PRId64, v.i); r = b; break;
    case U64: snprintf(b, sizeof b, "%" PRIu64 "u", v.u); r = b; break;
    case DBL: snprintf(b, sizeof b, "%.17g~", v.d); r = b; break;
    case STR: r = quote(v.s, 80); break;
    case STRN: r = "strn" + quote(v.s, 80); break;
    case BLOB: r = "blob" + quote(v.s, 80); break;
    case ARR:
      r = "[";
      for (auto &e : v.a) { if (r.size() > max) { r += "..."; break; } r += (r.size() > 1 ? "," : "") + show(e, max - r.size()); }
      r += "]";
      break;
    case OBJ:
      r = "{";
      for (auto &e : v.m) { if (r.size() > max) { r += "..."; break; } r += (r.size() > 1 ? "," : "") + quote(e.first, 60) + ":" + show(e.second, max - r.size()); }
      r += "}";
      break;
  }
  return r;
}

// ------------------------------------------------ reference parser
inline bool utf8_ok(const std::string &s) {
  for (size_t i = 0; i < s.size();) {
    unsigned char c = s[i];
    unsigned n;
    uint32_t v;
    if (c < 0x80) { i++; continue; }
    if (c >= 0xC2 && c <= 0xDF) n = 1, v = c & 0x1F;
    else if (c >= 0xE0 && c <= 0xEF) n = 2, v = c & 0x0F;
    else if (c >= 0xF0 && c <= 0xF4) n = 3, v = c & 0x07;
    else return false;
    if (i + n >= s.size()) return false;
    for (unsigned k = 1; k <= n; k++) {
      if (((unsigned char)s[i + k] & 0xC0) != 0x80) return false;
      v = v << 6 | ((unsigned char)s[i + k] & 0x3F);
    }
    if (n == 2 && v < 0x800) return false;
    if (n == 3 && v < 0x10000) return false;
    if (v > 0x10FFFF || (v >= 0xD800 && v < 0xE000)) return false;
    i += n + 1;
  }
  return true;
}
inline void utf8_put(std::string &s, uint32_t v) {
  if (v < 0x80) s += (char)v;
  else if (v < 0x800) s += (char)(0xC0 | v >> 6), s += (char)(0x80 | (v & 0x3F));
  else if (v < 0x10000) s += (char)(0xE0 | v >> 12), s += (char)(0x80 | (v >> 6 & 0x3F)), s += (char)(0x80 | (v & 0x3F));
  else s += (char)(0xF0 | v >> 18), s += (char)(0x80 | (v >> 12 & 0x3F)), s += (char)(0x80 | (v >> 6 & 0x3F)), s += (char)(0x80 | (v & 0x3F));
}
// the value of the text of a number
inline V number(const std::string &t) {
  bool integer = t.find_first_of(".eE") == std::string::npos;
  if (integer) {
    bool neg = t[0] == '-';
    unsigned __int128 m = 0;
    bool big = false;
    for (size_t i = neg; i < t.size(); i++) {
      m = m * 10 + (t[i] - '0');
      if (m >> 70) { big = true; break; }
    }
    if (!big) {
      if (neg && m <= (unsigned __int128)1 << 63) return v_i64((int64_t)(0 - (uint64_t)m));
      if (!neg && m < (unsigned __int128)1 << 63) return v_i64((int64_t)m);
      if (!neg && !(m >> 64)) return v_u64((uint64_t)m);
    }
  }
  double d = 0;
  auto r = std::from_chars(t.data(), t.data() + t.size(), d);
  if (r.ec != std::errc()) d = strtod(t.c_str(), nullptr);  // beyond the range of doubles
  return v_dbl(d);
}
const unsigned MAX_DEPTH = 511;  // containers inside each other that the parser documents (512 entries with its base)

struct Ref {
  const std::string &t;
  bool whole;            // end of input demanded
  bool ok = false;
  V val;
  size_t pos = 0;        // where it ended, or where it went wrong
  bool unspec = false;   // the text uses something whose treatment is not specified
  bool nul = false;      // a string contains \u0000
  bool deep = false;     // rejected for its depth
  unsigned depth = 0;
  bool any_bytes;        // strings with escapes may hold bytes that are not UTF-8
  Ref(const std::string &t_, bool whole_, bool any_bytes_ = false) : t(t_), whole(whole_), any_bytes(any_bytes_) {
    ok = value(val);
    if (ok && whole) { ws(); if (pos < t.size()) { slash(); ok = false; } }
    if (!ok) val = V();
  }
  int line() const {
    int n = 0;
    for (size_t i = 0; i < pos && i < t.size(); i++) n += t[i] == '\n' || t[i] == '\r';
    return n;
  }

 private:
  bool at(char ch) const { return pos < t.size() && t[pos] == ch; }
  bool digit() const { return pos < t.size() && t[pos] >= '0' && t[pos] <= '9'; }
  void ws() { while (pos < t.size() && (t[pos] == ' ' || t[pos] == '\t' || t[pos] == '\n' || t[pos] == '\r')) pos++; }
  void slash() { if (at('/')) unspec = true; }  // comments
  bool bad() { slash(); return false; }
  bool word(const char *w) {
    for (; *w; w++, pos++) if (!at(*w)) return false;
    return true;
  }
  bool string(std::string &out) {
    bool esc = false;
    uint32_t high = 0;
    pos++;
    for (;;) {
      if (pos >= t.size()) return false;
      unsigned char ch = t[pos];
      if (high && ch != '\\') return false;
      if (ch == '"') break;
      if (ch < 0x20) return false;
      if (ch != '\\') { out += (char)ch; pos++; continue; }
      esc = true;
      if (++pos >= t.size()) return false;
      ch = t[pos];
      if (high && ch != 'u') return false;
      switch (ch) {
        case '"': case '\\': case '/': out += (char)ch; pos++; break;
        case 'b': out += '\b'; pos++; break;
        case 'f': out += '\f'; pos++; break;
        case 'n': out += '\n'; pos++; break;
        case 'r': out += '\r'; pos++; break;
        case 't': out += '\t'; pos++; break;
        case 'u': {
          pos++;
          uint32_t v = 0;
          for (int k = 0; k < 4; k++, pos++) {
            if (pos >= t.size()) return false;
            int h = t[pos];
            if (h >= '0' && h <= '9') h -= '0';
            else if (h >= 'a' && h <= 'f') h -= 'a' - 10;
            else if (h >= 'A' && h <= 'F') h -= 'A' - 10;
            else return false;
            v = v << 4 | (uint32_t)h;
          }
          if (high) {
            if (v < 0xDC00 || v > 0xDFFF) return false;
            utf8_put(out, 0x10000 + ((high - 0xD800) << 10) + (v - 0xDC00));
            high = 0;
          } else if (v >= 0xD800 && v < 0xDC00) high = v;
          else if (v >= 0xDC00 && v < 0xE000) return false;
          else { if (v == 0) nul = true; utf8_put(out, v); }
          break;
        }
        default: return false;
      }
    }
    pos++;
    // bytes that are not UTF-8 are refused next to an escape and passed through in a string without one
    return !esc || any_bytes || utf8_ok(out);
  }
  bool num(V &v) {
    size_t b = pos;
    if (at('-')) pos++;
    if (!digit()) return false;
    if (at('0')) { pos++; if (digit()) return false; }
    else while (digit()) pos++;
    if (at('.')) {
      pos++;
      if (!digit()) return false;
      while (digit()) pos++;
    }
    if (at('e') || at('E')) {
      pos++;
      if (at('+') || at('-')) pos++;
      if (!digit()) return false;
      while (digit()) pos++;
    }
    v = number(t.substr(b, pos - b));
    return true;
  }
  bool value(V &v) {
    ws();
    if (pos >= t.size()) return false;
    switch (t[pos]) {
      case '[': {
        if (++depth > MAX_DEPTH) { deep = true; return false; }
        v.k = ARR;
        pos++;
        for (;;) {
          ws();
          if (at(']')) break;  // also after a comma: a documented leniency
          v.a.emplace_back();
          if (!value(v.a.back())) return false;
          ws();
          if (at(',')) { pos++; continue; }
          if (at(']')) break;
          return bad();
        }
        pos++;
        depth--;
        return true;
      }
      case '{': {
        if (++depth > MAX_DEPTH) { deep = true; return false; }
        v.k = OBJ;
        pos++;
        for (;;) {
          ws();
          if (at('}')) break;
          if (!at('"')) return bad();
          std::string key;
          if (!string(key)) return false;
          ws();
          if (!at(':')) return bad();
          pos++;
          V e;
          if (!value(e)) return false;
          v.set(key, std::move(e));
          ws();
          if (at(',')) { pos++; continue; }
          if (at('}')) break;
          return bad();
        }
        pos++;
        depth--;
        return true;
      }
      case '"': v.k = STR; return string(v.s);
      case 't': v.k = BOOL; v.b = true; return word("true");
      case 'f': v.k = BOOL; v.b = false; return word("false");
      case 'n': v.k = NUL; return word("null");
      case '-': case '0': case '1': case '2': case '3': case '4': case '5': case '6': case '7': case '8': case '9': return num(v);
      default: return bad();
    }
  }
};

// ------------------------------------------------ generators
inline void put_code_point(Case &c, std::string &s) {
  switch (c.weighted({8, 3, 2, 2, 1, 1, 1})) {
    case 0: s += (char)c.range('a', 'z'); break;
    case 1: s += (char)c.range(0x20, 0x7E); break;
    case 2: s += c.pick({'"', '\\', '/', '\n', '\t', '\b', '\f', '\r', '{', '}', '[', ']', ',', ':', '%'}); break;
    case 3: s += (char)c.range(1, 0x1F); break;
    case 4: utf8_put(s, (uint32_t)c.pick<uint32_t>({0x7F, 0x80, 0xFF, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF})); break;
    case 5: utf8_put(s, (uint32_t)c.range(0x80, 0xD7FF)); break;
    default: utf8_put(s, (uint32_t)c.range(0xE000, 0x10FFFF)); break;
  }
}
// valid UTF-8 without zero bytes
inline std::string gen_text(Case &c, unsigned mean) {
  std::string s;
  while (c.more(mean)) put_code_point(c, s);
  if (c.chance(1, 60)) s += std::string(c.draw(3000), c.pick({'x', '"', '\x01'}));
  return s;
}
inline std::string gen_key(Case &c) {
  if (c.chance(2, 3)) return std::string(1, (char)c.range('a', 'h'));
  return gen_text(c, 4);
}
inline int64_t gen_i64(Case &c) {
  switch (c.weighted({4, 2, 2, 1})) {
    case 0: return c.range(0, 20) * (c.coin() ? -1 : 1);
    case 1: return c.range(-1000000, 1000000);
    case 2: return (int64_t)((uint64_t)1 << c.draw(63)) + c.range(-2, 2);
    default: return (int64_t)c.draw(UINT64_MAX);
  }
}
inline double gen_double(Case &c) {
  switch (c.weighted({4, 2, 2, 2, 1})) {
    case 0: return (double)c.range(-1000, 1000) / (double)c.pick({2, 4, 8, 10, 3});
    case 1: return (double)c.range(-100000000, 100000000) / 1e3;
    case 2: { double d = std::ldexp((double)c.draw(UINT32_MAX) + 1, (int)c.range(-1100, 990)); return d == 0 ? 0.5 : c.coin() ? -d : d; }
    case 3: return c.pick({0.1, 1e5, 1e6, 999999.5, 9999995.0, 123456.7, 1e-4, 9.99999e-5, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 1e15, 1e16, 1e17, 4294967296.5});
    default: { uint64_t b = c.draw(UINT64_MAX); double d; memcpy(&d, &b, 8); return std::isfinite(d) && d != 0 ? d : 0.5; }
  }
}
struct Gen {
  unsigned budget = 30;   // values left
  unsigned max_depth = 6;
  bool extra = false;     // also counted strings, blobs, undefined
  bool strn = false;
};
inline V gen_scalar(Case &c, const Gen &g) {
  switch (c.weighted({2, 2, 4, 1, 3, 5, g.strn || g.extra ? 2 : 0, g.extra ? 1 : 0, g.extra ? 1 : 0})) {
    case 0: return v_null();
    case 1: return v_bool(c.coin());
    case 2: return v_i64(gen_i64(c));
    case 3: return v_u64(c.coin() ? c.draw(UINT64_MAX) : (uint64_t)gen_i64(c));
    case 4: return v_dbl(gen_double(c));
    case 5: return v_str(gen_text(c, 6));
    case 6: return v_str(gen_text(c, 6), STRN);
    case 7: return v_str(gen_text(c, 6), BLOB);
    default: { V v; v.k = UNDEF; return v; }
  }
}
inline V gen_value(Case &c, Gen &g, unsigned d = 0) {
  if (g.budget) g.budget--;
  int k = d >= g.max_depth || g.budget == 0 ? 0 : d == 0 ? c.weighted({2, 4, 5}) : c.weighted({6, 2, 2});
  if (k == 0) return gen_scalar(c, g);
  V v = k == 1 ? v_arr() : v_obj();
  bool wide = c.chance(1, 25);
  while (g.budget && c.more(wide ? 25 : 4)) {
    if (k == 1) v.a.push_back(gen_value(c, g, d + 1));
    else {
      std::string key = gen_key(c);
      V e = gen_value(c, g, d + 1);
      v.set(key, std::move(e));
    }
  }
  return v;
}
inline V gen_doc(Case &c, Gen g = Gen()) {
  g.budget = (unsigned)c.range(1, std::max(2u, g.budget * c.size() / 50));
  return gen_value(c, g);
}

// ------------------------------------------------ texts that denote a value
inline void put_ws(Case &c, std::string &t) {
  if (!c.chance(1, 4)) return;
  do t += c.pick({' ', '\n', '\t', '\r'}); while (c.more(1));
}
inline void put_u(Case &c, std::string &t, unsigned v) {
  char b[8];
  snprintf(b, sizeof b, "%04x", v);
  t += "\\u";
  bool up = c.coin();
  for (char *p = b; *p; p++) t += up && *p >= 'a' ? (char)(*p - 32) : *p;
}
inline void put_string(Case &c, std::string &t, const std::string &s) {
  t += '"';
  bool fancy = c.chance(1, 2);
  for (size_t i = 0; i < s.size();) {
    unsigned char ch = s[i];
    unsigned n = ch < 0x80 ? 1 : ch < 0xE0 ? 2 : ch < 0xF0 ? 3 : 4;
    const char *sh = ch == '"' ? "\\\"" : ch == '\\' ? "\\\\" : ch == '\n' ? "\\n" : ch == '\r' ? "\\r" : ch == '\t' ? "\\t" : ch == '\b' ? "\\b" : ch == '\f' ? "\\f" : ch == '/' ? "\\/" : nullptr;
    bool must = ch == '"' || ch == '\\' || ch < 0x20;
    bool u = fancy && c.chance(1, 4);
    if (sh && !u && (must || (fancy && c.coin()))) { t += sh; i++; continue; }
    if (u || must) {
      uint32_t v = n == 1 ? ch : n == 2 ? ch & 0x1F : n == 3 ? ch & 0x0F : ch & 0x07;
      for (unsigned k = 1; k < n; k++) v = v << 6 | ((unsigned char)s[i + k] & 0x3F);
      if (v >= 0x10000) { put_u(c, t, 0xD800 + ((v - 0x10000) >> 10)); put_u(c, t, 0xDC00 + ((v - 0x10000) & 0x3FF)); }
      else put_u(c, t, v);
    } else t.append(s, i, n);
    i += n;
  }
  t += '"';
}
// the text of a number; returns the value it denotes
inline V put_number(Case &c, std::string &t) {
  std::string n;
  auto digits = [&](unsigned lo, unsigned hi) {
    for (unsigned k = (unsigned)c.range(lo, hi); k; k--) n += (char)c.range('0', '9');
  };
  if (c.chance(1, 3)) n += '-';
  switch (c.weighted({3, 2, 2, 1})) {
    case 0: n += '0'; break;
    case 1: n += (char)c.range('1', '9'); digits(0, 3); break;
    case 2: { n += c.pick<const char *>({"9223372036854775807", "9223372036854775808", "9223372036854775806", "18446744073709551615", "18446744073709551616", "18446744073709551614", "9007199254740993", "4294967296", "92233720368547758070", "184467440737095516150"}); break; }
    default: n += (char)c.range('1', '9'); digits(10, 40); break;
  }
  if (c.chance(1, 3)) { n += '.'; digits(1, c.chance(1, 5) ? 30 : 4); }
  if (c.chance(1, 3)) { n += c.pick({'e', 'E'}); if (c.coin()) n += c.pick({'+', '-'}); digits(1, c.chance(1, 4) ? 3 : 2); }
  t += n;
  return number(n);
}
// writes v and adjusts it to the value that the text denotes
inline void put_value(Case &c, std::string &t, V &v) {
  put_ws(c, t);
  char b[64];
  switch (v.k) {
    case NUL: t += "null"; break;
    case BOOL: t += v.b ? "true" : "false"; break;
    case I64: snprintf(b, sizeof b, "%" PRId64, v.i); t += b; break;
    case U64: snprintf(b, sizeof b, "%" PRIu64, v.u); t += b; if (v.u <= INT64_MAX) v = v_i64((int64_t)v.u); break;
    case DBL: {  // finite: JSON has no text for what lies beyond
      size_t n = t.size();
      v = put_number(c, t);
      if (v.k == DBL && !std::isfinite(v.d)) { t.resize(n); t += "15e-1"; v = v_dbl(1.5); }
      break;
    }
    case STR: put_string(c, t, v.s); break;
    case ARR:
      t += '[';
      for (size_t i = 0; i < v.a.size(); i++) {
        put_value(c, t, v.a[i]);
        put_ws(c, t);
        if (i + 1 < v.a.size() || c.chance(1, 60)) t += ',';
      }
      put_ws(c, t);
      t += ']';
      break;
    case OBJ: {
      t += '{';
      std::vector<std::pair<std::string, V>> out;
      size_t n = v.m.size();
      for (size_t i = 0; i < n; i++) {
        put_ws(c, t);
        // a duplicate of the key with another value, before the one that counts
        if (c.chance(1, 12)) {
          put_string(c, t, v.m[i].first);
          t += ':';
          Gen g; g.budget = 2;
          V junk = gen_value(c, g, 4);
          put_value(c, t, junk);
          t += ',';
        }
        put_ws(c, t);
        put_string(c, t, v.m[i].first);
        put_ws(c, t);
        t += ':';
        put_value(c, t, v.m[i].second);
        put_ws(c, t);
        if (i + 1 < n) t += ',';
        else if (c.chance(1, 12)) {  // again an earlier key: its place stays, its value is this one
          size_t k = c.index(n);
          t += ',';
          put_ws(c, t);
          put_string(c, t, v.m[k].first);
          t += ':';
          Gen g; g.budget = 3;
          V other = gen_value(c, g, 3);
          put_value(c, t, other);
          v.m[k].second = other;
          put_ws(c, t);
        }
      }
      put_ws(c, t);
      t += '}';
      break;
    }
    default: break;
  }
}

// ------------------------------------------------ the library's values
struct Path { std::string s; };
// why j is not the value v ("" if it is)
inline std::string differs(const V &v, struct cee_json *j, int lvl = 0) {
  char b[256];
  if (!j) return "null pointer instead of " + show(v, 80);
  auto kind = [&]() -> Kind {
    switch (j->t) {
      case CEE_JSON_UNDEFINED: return UNDEF;
      case CEE_JSON_NULL: return NUL;
      case CEE_JSON_BOOLEAN: return BOOL;
      case CEE_JSON_DOUBLE: return DBL;
      case CEE_JSON_I64: return I64;
      case CEE_JSON_U64: return U64;
      case CEE_JSON_STRING: return STR;
      case CEE_JSON_BLOB: return BLOB;
      case CEE_JSON_OBJECT: return OBJ;
      case CEE_JSON_ARRAY: return ARR;
      case CEE_JSON_STRN: return STRN;
    }
    return NUL;
  };
  if ((int)j->t < 0 || (int)j->t > CEE_JSON_STRN || kind() != v.k) {
    snprintf(b, sizeof b, "a value of type %d instead of ", (int)j->t);
    return b + show(v, 80);
  }
  switch (v.k) {
    case NUL: return j == cee_json_null() ? "" : "null is not the null singleton";
    case UNDEF: return "";
    case BOOL: {
      bool r = !v.b;
      int e = cee_json_to_boolx(j, &r);
      return e == 0 && r == v.b ? "" : std::string("a boolean other than ") + (v.b ? "true" : "false");
    }
    case I64: {
      int64_t r = 0;
      int e = cee_json_to_i64x(j, &r);
      if (e == 0 && r == v.i) return "";
      snprintf(b, sizeof b, "%" PRId64 " (status %d) instead of %" PRId64, r, e, v.i);
      return b;
    }
    case U64: {
      uint64_t r = 0;
      int e = cee_json_to_u64x(j, &r);
      if (e == 0 && r == v.u) return "";
      snprintf(b, sizeof b, "%" PRIu64 " (status %d) instead of %" PRIu64, r, e, v.u);
      return b;
    }
    case DBL: {
      double r = 0;
      int e = cee_json_to_doublex(j, &r);
      if (e == 0 && same_bits(r, v.d)) return "";
      snprintf(b, sizeof b, "%.17g (status %d) instead of %.17g", r, e, v.d);
      return b;
    }
    case STR: {
      const char *s = (const char *)cee_json_to_str(j);
      if (!s) return "a string without text";
      size_t n = strlen(s);
      return n == v.s.size() && memcmp(s, v.s.data(), n) == 0 ? "" : "the string " + quote(std::string(s, n), 80) + " instead of " + quote(v.s, 80);
    }
    case STRN: {
      char *s = nullptr;
      size_t n = 0;
      if (!cee_json_to_strn(j, &s, &n)) return "a counted string that yields nothing";
      return n == v.s.size() && memcmp(s, v.s.data(), n) == 0 ? "" : "another counted string than " + quote(v.s, 80);
    }
    case BLOB: {
      struct cee_block *p = cee_json_to_blob(j);
      if (!p) return "a blob without block";
      return cee_block_size(p) >= v.s.size() && memcmp(p, v.s.data(), v.s.size()) == 0 ? "" : "another blob than " + quote(v.s, 80);
    }
    case ARR: {
      struct cee_list *l = cee_json_to_array(j);
      if (!l) return "an array without list";
      if (cee_list_size(l) != v.a.size()) { snprintf(b, sizeof b, "an array of %zu elements instead of %zu", (size_t)cee_list_size(l), v.a.size()); return b; }
      for (size_t i = 0; i < v.a.size(); i++) {
        std::string d = differs(v.a[i], (struct cee_json *)l->a[i], lvl + 1);
        if (!d.empty()) { snprintf(b, sizeof b, "[%zu]", i); return b + d; }
      }
      return "";
    }
    case OBJ: {
      struct cee_map *m = cee_json_to_object(j);
      if (!m) return "an object without map";
      if (cee_map_size(m) != v.m.size()) { snprintf(b, sizeof b, "an object of %zu members instead of %zu", (size_t)cee_map_size(m), v.m.size()); return b; }
      struct cee_list *keys = cee_map_insertion_ordered_keys(m);
      if (cee_list_size(keys) != v.m.size()) return "an object that lists other keys than it has";
      for (size_t i = 0; i < v.m.size(); i++) {
        std::string k = (const char *)keys->a[i];
        if (k != v.m[i].first) { snprintf(b, sizeof b, "member %zu is ", i); return b + quote(k, 60) + " instead of " + quote(v.m[i].first, 60); }
        std::string d = differs(v.m[i].second, (struct cee_json *)cee_map_find(m, (void *)v.m[i].first.c_str()), lvl + 1);
        if (!d.empty()) return "." + quote(v.m[i].first, 60) + d;
      }
      cee_del(keys);
      return "";
    }
  }
  return "?";
}

// builds v through the public constructors; counted strings point into v
inline struct cee_json *build(Case &c, struct cee_state *st, const V &v) {
  switch (v.k) {
    case NUL: return cee_json_null();
    case UNDEF: return cee_json_undefined();
    case BOOL: return c.coin() ? cee_json_bool(v.b) : v.b ? cee_json_true() : cee_json_false();
    case I64: return cee_json_i64_mk(st, v.i);
    case U64: return cee_json_u64_mk(st, v.u);
    case DBL: return cee_json_double_mk(st, v.d);
    case STR: return c.coin() ? cee_json_str_mk(st, cee_str_mk(st, "%s", v.s.c_str())) : cee_json_str_mkf(st, "%s", v.s.c_str());
    case STRN: return cee_json_strn_mk(st, (char *)v.s.data(), v.s.size());
    case BLOB: return cee_json_blob_mk(st, v.s.data(), v.s.size());
    case ARR: {
      if (c.chance(1, 8)) {  // from a list
        struct cee_list *l = cee_list_mk(st, 1 + c.draw(4));
        for (auto &e : v.a) cee_list_append(l, build(c, st, e));
        return cee_list_to_json(l);
      }
      struct cee_json *j = cee_json_array_mk(st, (int)c.draw(5));
      for (auto &e : v.a) {
        if (e.k == BOOL && c.coin()) cee_json_array_append_bool(j, e.b);
        else if (e.k == STR && c.coin()) {
          if (c.coin()) cee_json_array_append_str(j, (char *)e.s.c_str());
          else cee_json_array_append_strf(j, "%s", e.s.c_str());
        } else cee_json_array_append(j, build(c, st, e));
      }
      return j;
    }
    case OBJ: {
      struct cee_json *j;
      size_t i = 0;
      if (c.chance(1, 8)) j = cee_map_to_json(cee_map_mk(st, (cee_cmp_fun)strcmp));
      else if (!v.m.empty() && c.chance(1, 8)) {
        j = cee_json_object_kv(st, (char *)v.m[0].first.c_str(), build(c, st, v.m[0].second));
        i = 1;
      } else j = cee_json_object_mk(st);
      for (; i < v.m.size(); i++) {
        char *k = (char *)v.m[i].first.c_str();
        const V &e = v.m[i].second;
        if (c.coin()) switch (e.k) {
          case NUL: cee_json_object_set_null(j, k); continue;
          case BOOL: cee_json_object_set_bool(j, k, e.b); continue;
          case I64: cee_json_object_set_i64(j, k, e.i); continue;
          case U64: cee_json_object_set_u64(j, k, e.u); continue;
          case DBL: cee_json_object_set_double(j, k, e.d); continue;
          case STR: if (c.coin()) cee_json_object_set_str(j, k, (char *)e.s.c_str()); else cee_json_object_set_strf(j, k, "%s", e.s.c_str()); continue;
          default: break;
        }
        cee_json_object_set(j, k, build(c, st, e));
      }
      return j;
    }
  }
  return nullptr;
}

// a buffer of exactly the given bytes: what lies after them is not readable
struct Exact {
  char *blk, *p;
  size_t n;
  std::string orig;
  explicit Exact(const std::string &s) : n(s.size()), orig(s) {
    blk = new char[n ? n : 1];
    p = n ? blk : blk + 1;
    memcpy(p, s.data(), n);
  }
  ~Exact() { delete[] blk; }
  bool unchanged() const { return memcmp(p, orig.data(), n) == 0; }
};
}  // namespace jm
