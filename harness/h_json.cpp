// C23..C27, C34: parsing and printing JSON.
#include <unistd.h>
#include "jmodel.hpp"
using namespace jm;
namespace {
const int NOLINE = -77;

struct Doc {
  struct cee_state *st;
  struct cee_json *j = nullptr;
  int rc = 0, line = NOLINE;
};
Doc parse(Case &c, struct cee_state *st, const std::string &t, bool whole) {
  Exact e(t);
  Doc d;
  d.st = st;
  d.j = (struct cee_json *)&d;
  d.rc = cee_json_parsex(st, e.p, e.n, &d.j, whole, &d.line);
  CHECK(c, e.unchanged(), "input-changed", "parsing %s changed the buffer", quote(t).c_str());
  return d;
}
void end(Case &c, struct cee_state *st) {
  cee_del(st);
  CHECK(c, pbt::mem::live() == 0, "leak", "%zu blocks survive the state", pbt::mem::live());
}
void must_accept(Case &c, const Doc &d, const V &v, const std::string &t, bool whole) {
  CHECK(c, d.rc == 0, "rejected", "%s (%s) was rejected with %d at line %d", quote(t, 1500).c_str(), whole ? "whole" : "prefix", d.rc, d.line);
  std::string w = differs(v, d.j);
  CHECK(c, w.empty(), "value", "%s parsed to %s", quote(t, 1500).c_str(), w.c_str());
}
void judge(Case &c, const Doc &d, const Ref &r, const std::string &t, bool whole) {
  if (r.unspec || r.nul) {
    c.label("unspecified");
    CHECK(c, (d.rc == 0) == (d.j != nullptr), "status", "status %d and value %p for %s", d.rc, (void *)d.j, quote(t, 1500).c_str());
    return;
  }
  if (r.ok) { must_accept(c, d, r.val, t, whole); return; }
  CHECK(c, d.rc != 0, "accepted", "%s (%s) was accepted although it is malformed at byte %zu", quote(t, 1500).c_str(), whole ? "whole" : "prefix", r.pos);
  CHECK(c, d.j == nullptr, "value-on-error", "%s was rejected but left a value", quote(t, 1500).c_str());
  CHECK(c, d.line == r.line(), "error-line", "%s is malformed at byte %zu, after %d line breaks, reported at line %d", quote(t, 1500).c_str(), r.pos, r.line(), d.line);
}

V gen_large(Case &c) {
  unsigned n = (unsigned)(c.coin() ? c.range(20, 300) : c.range(300, 2000));
  V v;
  switch (c.draw(3)) {
    case 0: v = v_arr(); if (c.chance(1, 30)) n = 65530 + (unsigned)c.draw(20); for (unsigned i = 0; i < n; i++) v.a.push_back(v_i64((int64_t)i * 7919 % 1000003)); break;
    case 1: {
      v = v_obj();
      char b[32];
      unsigned step = (unsigned)c.pick({1, 7919, 3});
      for (unsigned i = 0; i < n; i++) { snprintf(b, sizeof b, "k%u", i * step % 10007); v.set(b, i % 3 ? v_i64(i) : v_str(b)); }
      break;
    }
    case 2: {
      std::string u = gen_text(c, 3) + c.pick({'a', '"', '\x02', '\n'}), s;
      size_t m = c.coin() ? n * 25 : (size_t)c.pick({256, 32768, 65536, 131072}) - 2 + c.draw(4);
      while (s.size() < m) s += u;
      v = v_obj();
      v.set("text", v_str(s));
      size_t k = c.coin() ? 60 : m;
      if (utf8_ok(s.substr(0, k))) v.set(s.substr(0, k), v_null());
      break;
    }
    default: {
      v = v_arr();
      for (unsigned i = 0; i < n / 10; i++) {
        V o = v_obj();
        o.set("id", v_i64(i));
        o.set("name", v_str(std::string(i % 40, 'n')));
        V in = v_arr();
        for (unsigned k = 0; k < i % 30; k++) in.a.push_back(k % 2 ? v_bool(k % 4 == 1) : v_dbl(k / 4.0));
        o.set("list", in);
        v.a.push_back(o);
      }
    }
  }
  return v;
}

// ------------------------------------------------------------------ C23
PROPERTY("C23", "documents", 100,
         "a generated value (nesting to 6, up to 60 values, texts over all code points) is written with random whitespace, escapes, number "
         "formats and duplicate keys, and parsed from a buffer of exactly its size; non-trivial if it has at least 4 values") {
  Gen g;
  g.budget = 30;
  V v = gen_doc(c, g);
  std::string t;
  put_value(c, t, v);
  bool whole = c.coin();
  if (whole) put_ws(c, t);
  c.note("text %s", quote(t, 3000).c_str());
  {  // the generator and the reference parser agree
    Ref r(t, true);
    CHECK(c, r.ok && !r.unspec && !r.nul && eq(r.val, v), "harness", "the reference parser and the generator disagree on %s: %s", quote(t, 2000).c_str(), show(v).c_str());
  }
  struct cee_state *st = cee_state_mk(10);
  Doc d = parse(c, st, t, whole);
  must_accept(c, d, v, t, whole);
  if (count(v) >= 4) c.nontrivial();
  c.label(whole ? "whole" : "prefix");
  end(c, st);
}
PROPERTY("C23", "large", 1,
         "arrays of 20 to 65550 and objects of 20 to 2000 members, texts and keys of up to 131074 bytes, written with random whitespace, escapes and "
         "number formats, are parsed; every case is non-trivial") {
  V v = gen_large(c);
  std::string t;
  put_value(c, t, v);
  struct cee_state *st = cee_state_mk(10);
  Doc d = parse(c, st, t, true);
  must_accept(c, d, v, t, true);
  c.nontrivial();
  end(c, st);
}
PROPERTY("C23", "trailing", 60,
         "a document followed by arbitrary text is parsed without demanding the end of input: the value is that of the longest token at the "
         "front; demanding the end it is accepted only if whitespace follows; non-trivial if something else follows") {
  Gen g;
  g.budget = 8;
  V v = gen_doc(c, g);
  std::string t;
  put_value(c, t, v);
  size_t n = t.size();
  while (c.more(3)) t += c.weighted({3, 2, 1}) ? (char)c.range(1, 255) : c.pick({' ', '\n', ']', '}', ',', ':', '"', '0', '9', '.', 'e', '-', 't', '{', '['});
  c.note("text %s", quote(t, 3000).c_str());
  struct cee_state *st = cee_state_mk(10);
  for (int whole = 0; whole < 2; whole++) {
    Ref r(t, whole);
    Doc d = parse(c, st, t, whole);
    judge(c, d, r, t, whole);
  }
  if (t.find_first_not_of(" \t\r\n", n) != std::string::npos) c.nontrivial();
  end(c, st);
}
PROPERTY("C23", "numbers", 150,
         "the text of a number (integers around the 64-bit limits, up to 40 digits, fractions, exponents) parses to exactly the integer, or to the "
         "nearest double as std::from_chars gives it; non-trivial unless it is a small integer") {
  std::string t;
  V v;
  if (c.chance(1, 3)) {  // the shortest and the exact text of a double, or a half-way point
    double d = gen_double(c);
    char b[1200];
    int k = c.weighted({2, 2, 1});
    if (k == 0) snprintf(b, sizeof b, "%.17g", d);
    else if (k == 1) snprintf(b, sizeof b, "%.*e", (int)c.range(0, 30), d);
    else snprintf(b, sizeof b, "%.*e", 780, d);
    t = b;
    v = number(t);
  } else v = put_number(c, t);
  c.note("number %s", t.c_str());
  int place = (int)c.draw(2);
  std::string doc = place == 0 ? t : place == 1 ? "[" + t + "]" : "{\"k\":" + t + "}";
  V w = v;
  if (place == 1) { w = v_arr(); w.a.push_back(v); }
  if (place == 2) { w = v_obj(); w.set("k", v); }
  struct cee_state *st = cee_state_mk(10);
  Doc d = parse(c, st, doc, c.coin());
  must_accept(c, d, w, doc, false);
  if (t.size() > 4) c.nontrivial();
  end(c, st);
}
PROPERTY("C23", "strings", 100,
         "a text of code points is written with random escapes (short, \\u in both cases, surrogate pairs) and parsed as value, key and element; "
         "non-trivial if an escape occurs") {
  std::string s = gen_text(c, 12);
  std::string t;
  put_string(c, t, s);
  c.note("string %s", quote(t, 3000).c_str());
  V w = v_str(s);
  int place = (int)c.draw(2);
  std::string doc = place == 0 ? t : place == 1 ? "[" + t + "," + t + "]" : "{" + t + ":" + t + "}";
  if (place == 1) { V a = v_arr(); a.a = {w, w}; w = a; }
  else if (place == 2) { V o = v_obj(); o.set(s, w); w = o; }
  struct cee_state *st = cee_state_mk(10);
  Doc d = parse(c, st, doc, true);
  must_accept(c, d, w, doc, true);
  if (t.find('\\') != std::string::npos) c.nontrivial();
  end(c, st);
}
PROPERTY("C23", "escaped_nul", 1,
         "a string that contains the escape \\u0000 yields a value whose text goes on after it; every case is non-trivial") {
  std::string a = gen_text(c, 4), b = gen_text(c, 4) + "x", t = "[";
  put_string(c, t, a);
  t.pop_back();
  t += "\\u0000";
  std::string u;
  put_string(c, u, b);
  t += u.substr(1) + "]";
  struct cee_state *st = cee_state_mk(10);
  Doc d = parse(c, st, t, true);
  c.nontrivial();
  CHECK(c, d.rc == 0, "rejected", "%s was rejected", quote(t).c_str());
  struct cee_list *l = cee_json_to_array(d.j);
  CHECK(c, l && cee_list_size(l) == 1, "value", "%s is not an array of one element", quote(t).c_str());
  struct cee_json *e = (struct cee_json *)l->a[0];
  const char *s = (const char *)cee_json_to_str(e);
  char *p = nullptr;
  size_t n = 0;
  std::string all = a + std::string(1, '\0') + b;
  if (s) {
    CHECK(c, strlen(s) == a.size() && a == s, "value", "%s starts with %s", quote(t).c_str(), quote(s).c_str());
    CHECK(c, pbt::mem::room_after(s) >= all.size() && memcmp(s, all.data(), all.size()) == 0, "nul-escape", "%s ends at its \\u0000: the rest of the string is lost", quote(t).c_str());
  } else {
    CHECK(c, cee_json_to_strn(e, &p, &n), "value", "%s does not hold a string", quote(t).c_str());
    CHECK(c, std::string(p, n) == all, "value", "%s parsed to %s", quote(t).c_str(), quote(std::string(p, n)).c_str());
  }
  end(c, st);
}

// ------------------------------------------------------------------ C24
void mutate(Case &c, std::string &t) {
  static const char alpha[] = "[]{}:,\"\\ \n\r\t0123456789-+.eEtfnurl/aAdD8\x01\x7f\x80\xc3\xff";
  auto ch = [&]() -> char { return c.chance(1, 8) ? (char)c.draw(255) : alpha[c.index(sizeof alpha - 1)]; };
  size_t n = t.size();
  switch (c.weighted({3, 3, 3, 2, 2, 1, 1})) {
    case 0: if (n) t.erase(c.index(n), 1); break;
    case 1: t.insert(c.index(n + 1), 1, ch()); break;
    case 2: if (n) t[c.index(n)] = ch(); break;
    case 3: t.resize(c.index(n + 1)); break;
    case 4: if (n > 1) { size_t i = c.index(n - 1); std::swap(t[i], t[i + 1]); } break;
    case 5: if (n) { size_t i = c.index(n), k = 1 + c.index(std::min<size_t>(n - i, 8)); t.insert(i, t.substr(i, k)); } break;
    default: t.insert(c.index(n + 1), c.pick<const char *>({"\\u", "\\ud800", "\\udc00", "\\x", "01", "1.", "1e", ".5", "+1", "--", "tru", "nul", ",,", "[", "]", "{", "}", "\"\"", "Infinity", "NaN", "'", "\n\n"})); break;
  }
}
PROPERTY("C24", "mutated", 200,
         "the text of a generated document is damaged by one to three edits (deleted, inserted, replaced, swapped, repeated bytes, truncation, ill-"
         "formed tokens) and judged by a reference parser: accept with its value, or reject without value at the line of the first byte that no "
         "document continues with; non-trivial if the reference rejects it") {
  Gen g;
  g.budget = (unsigned)c.pick({3, 8, 20});
  V v = gen_doc(c, g);
  std::string t;
  put_value(c, t, v);
  if (c.coin()) put_ws(c, t);
  for (unsigned k = (unsigned)c.range(1, 3); k; k--) mutate(c, t);
  bool whole = c.chance(3, 4);
  c.note("%s text %s", whole ? "whole" : "prefix", quote(t, 3000).c_str());
  Ref r(t, whole);
  struct cee_state *st = cee_state_mk(10);
  Doc d = parse(c, st, t, whole);
  judge(c, d, r, t, whole);
  if (!r.ok && !r.unspec) c.nontrivial();
  c.label(r.unspec || r.nul ? "unspecified" : r.ok ? "accept" : "reject");
  end(c, st);
}
PROPERTY("C24", "token_soup", 300,
         "a random sequence of up to 12 tokens, most of them well-formed, judged by the reference parser; non-trivial if it has at least 3 tokens") {
  static const char *const tok[] = {"[", "]", "{", "}", ":", ",", "\"a\"", "1", "null", "true", "false", "\"k\":", " ", "\n", "\r\n", "-1", "0", "1.5", "\"\\n\"", "[]", "{}",
                                    "-", "01", "1.", "1e", "1e+", "\"", "\"\\u12", "\"\\q\"", "\"\\ud800\"", "\"\\udc00\"", "\"\\ud83d\\ude00\"", "\"\t\"", "tru", "nulll", "+", ".", "-a", "00", "1e5", "-0", "0.0", "'a'", "\"\\ud800\\u0041\"", "\"\\u00e9\"", "\x80", "--1", "1-1", "-01.5", "18446744073709551616"};
  std::string t;
  int n = 0;
  while (n < 12 && c.more(7)) { t += tok[c.chance(4, 5) ? c.index(21) : c.index(sizeof tok / sizeof *tok)]; n++; }
  bool whole = c.chance(3, 4);
  c.note("%s text %s", whole ? "whole" : "prefix", quote(t).c_str());
  Ref r(t, whole);
  struct cee_state *st = cee_state_mk(10);
  Doc d = parse(c, st, t, whole);
  judge(c, d, r, t, whole);
  if (n >= 3) c.nontrivial();
  c.label(r.unspec || r.nul ? "unspecified" : r.ok ? "accept" : "reject");
  end(c, st);
}
PROPERTY("C24", "short_texts", 400,
         "texts of up to 6 characters over an alphabet of JSON's special characters, judged by the reference parser; non-trivial if at least 3 long") {
  static const char alpha[] = "[]{}:,\"\\1-.0eu\nt";
  std::string t;
  for (unsigned n = (unsigned)c.draw(6); n; n--) t += alpha[c.index(16)];
  bool whole = c.coin();
  Ref r(t, whole);
  struct cee_state *st = cee_state_mk(2);
  Doc d = parse(c, st, t, whole);
  judge(c, d, r, t, whole);
  if (t.size() >= 3) c.nontrivial();
  c.label(r.ok ? "accept" : "reject");
  end(c, st);
}
PROPERTY("C24", "escapes", 200,
         "a string (value, key or element) of up to 8 pieces: escapes of code units at and around the ends of the surrogate ranges and of the UTF-8 "
         "lengths, escapes with odd letters, with digits short, wrong or just outside the hexadecimal ranges, control bytes, plain and multi-byte "
         "text, raw bytes at and past the bounds of UTF-8; judged by the reference parser; non-trivial if it has at least 2 escapes") {
  std::string b;
  unsigned esc = 0;
  while (esc < 8 && c.more(4)) switch (c.weighted({6, 3, 2, 2, 1, 1, 1, 2})) {
    case 0: {
      static const unsigned edge[] = {0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xD7FF, 0xD83D, 0xDE00, 0x7F, 0x80, 0x7FF, 0x800, 0xFFFF, 1, 0x1F, 0x20, 0x22, 0x5C};
      put_u(c, b, std::max(1u, edge[c.index(18)] + (c.chance(1, 3) ? (unsigned)c.draw(2) - 1 : 0)) & 0xFFFF);
      esc++;
      break;
    }
    case 1: { unsigned h = 0xD800 + (unsigned)c.draw(0x3FF); put_u(c, b, h); put_u(c, b, 0xDC00 + (unsigned)c.draw(0x3FF)); esc += 2; break; }
    case 2: b += '\\'; b += c.pick({'n', 'b', 'f', 'r', 't', '/', '"', '\\'}); esc++; break;
    case 3: b += (char)c.range('a', 'z'); break;
    case 4: put_code_point(c, b); if (b.back() == '"' || b.back() == '\\') b += '"'; break;
    case 5: b += '\\'; b += (char)c.range(0x20, 0x7E); esc++; break;
    case 7: {  // raw bytes: the first and last of each length, one short of them (overlong), surrogates, past the last, torn
      static const char *raw[] = {"\x80", "\xBF", "\xC0\x80", "\xC1\xBF", "\xC2\x80", "\xDF\xBF", "\xE0\x80\x80", "\xE0\x9F\xBF", "\xE0\xA0\x80", "\xED\x9F\xBF", "\xED\xA0\x80", "\xED\xBF\xBF", "\xEE\x80\x80", "\xEF\xBF\xBF",
                                  "\xF0\x80\x80\x80", "\xF0\x8F\xBF\xBF", "\xF0\x90\x80\x80", "\xF4\x8F\xBF\xBF", "\xF4\x90\x80\x80", "\xF5\x80\x80\x80", "\xF8\x88\x80\x80\x80", "\xFE", "\xFF", "\xE1\x80\xC0", "\xC3\x7F", "\xF1\x80\x80\x41"};
      std::string r = raw[c.index(26)];
      b += c.chance(1, 6) ? r.substr(0, r.size() - 1) : r;
      break;
    }
    default: {
      b += "\\u";
      unsigned bad = (unsigned)c.draw(4);
      for (unsigned i = 0; i < 4; i++) b += i == bad ? c.pick({'g', 'G', '/', ':', '@', '`', '"', ' ', '\\', 'u', '-'}) : c.pick({'0', '9', 'a', 'f', 'A', 'F', '4'});
      esc++;
    }
  }
  int where = (int)c.draw(2);
  std::string t = (where == 0 ? "\"" : where == 1 ? "{\"" : "[1,\n\"") + b + (where == 0 ? "\"" : where == 1 ? "\": 1}" : "\"]");
  bool whole = c.chance(3, 4);
  c.note("%s text %s", whole ? "whole" : "prefix", quote(t).c_str());
  Ref r(t, whole);
  struct cee_state *st = cee_state_mk(2);
  Doc d = parse(c, st, t, whole);
  judge(c, d, r, t, whole);
  if (esc >= 2) c.nontrivial();
  c.label(r.unspec || r.nul ? "unspecified" : r.ok ? "accept" : "reject");
  end(c, st);
}
PROPERTY("C24", "numbers", 200,
         "a text of up to 8 pieces of numbers (digits, signs, points, exponents, zeros, long runs of digits, neighbours of the digits) alone, in an array or as "
         "a member, judged by the reference parser; non-trivial if it has at least 3 pieces") {
  std::string b;
  unsigned n = 0;
  while (n < 8 && c.more(5)) {
    n++;
    switch (c.weighted({5, 3, 2, 2, 2, 1, 1, 1})) {
      case 0: b += (char)c.range('0', '9'); break;
      case 1: b += '0'; break;
      case 2: b += '-'; break;
      case 3: b += '.'; break;
      case 4: b += c.pick({'e', 'E'}); break;
      case 5: b += '+'; break;
      case 6: b += std::string(1 + c.draw(30), (char)c.range('0', '9')); break;
      default: b += c.pick<const char *>({"18446744073709551615", "18446744073709551616", "9223372036854775807", "9223372036854775808", "/", ":", ",", "x", "_", "inf", "1e308", "1e400", "1e-400", " "}); break;
    }
  }
  int where = (int)c.draw(2);
  std::string t = where == 0 ? b : where == 1 ? "[" + b + "]" : "{\"n\":" + b + "\n}";
  bool whole = c.chance(3, 4);
  c.note("%s text %s", whole ? "whole" : "prefix", quote(t).c_str());
  Ref r(t, whole);
  struct cee_state *st = cee_state_mk(2);
  Doc d = parse(c, st, t, whole);
  judge(c, d, r, t, whole);
  if (n >= 3) c.nontrivial();
  c.label(r.unspec || r.nul ? "unspecified" : r.ok ? "accept" : "reject");
  end(c, st);
}

// ------------------------------------------------------------------ C25
std::string wild(Case &c) {
  std::string t;
  switch (c.weighted({3, 3, 2, 1})) {
    case 0:  // any bytes
      while (c.more(12)) t += (char)c.draw(255);
      break;
    case 1: {  // a damaged document
      Gen g;
      g.budget = 10;
      V v = gen_doc(c, g);
      put_value(c, t, v);
      for (unsigned k = (unsigned)c.draw(4); k; k--) mutate(c, t);
      break;
    }
    case 2:  // pieces that leave a token open at the very end of the buffer
      while (c.more(4)) t += c.pick<const char *>({"[", "{\"a\":", "1,", "\"x\",", " "});
      t += c.pick<const char *>({"", "\"", "\"\\", "\"\\u", "\"\\u0", "\"\\u00", "\"\\u004", "\"\\u0041", "\"\\ud800", "\"\\ud800\\", "\"\\ud800\\u", "\"\\ud800\\udc0", "\"\\ud800\\udc00", "t", "tr", "tru", "f", "fals", "n", "nul", "-", "-1", "1", "1.", "1.5", "1e", "1e-", "1e-5", "/", "//", "// x", "\"\xc3", "\"\\n\xe2\x82", "\xef\xbb\xbf"});
      break;
    default: {  // long runs
      size_t n = c.draw(5000);
      static const char *const unit[] = {"[", "{\"a\":", "\"", "1", "\\", " ", "\n", ",", "[]", "\\u0041", "-", "0", "\xff", "//"};
      const char *u = unit[c.index(sizeof unit / sizeof *unit)];
      t = c.pick<const char *>({"", "[", "\"", "{"});
      while (t.size() < n) t += u;
      t += c.pick<const char *>({"", "]", "\"", "}", "1"});
    }
  }
  return t;
}
PROPERTY("C25", "any_bytes", 150,
         "arbitrary bytes, damaged documents, tokens cut at the end of the buffer and long runs are parsed from a buffer of exactly their size under "
         "AddressSanitizer, with and without demanding the end: no crash, no read outside the buffer, verdict and value agree with each other, "
         "nothing outlives the state; non-trivial if at least 3 bytes long") {
  std::string t = wild(c);
  c.note("text %s", quote(t, 3000).c_str());
  struct cee_state *st = cee_state_mk((size_t)c.pick({0, 1, 10, 100}));
  for (int whole = 0; whole < 2; whole++) {
    Doc d = parse(c, st, t, whole);
    CHECK(c, (d.rc == 0) == (d.j != nullptr), "status", "status %d and value %p for %s", d.rc, (void *)d.j, quote(t).c_str());
    CHECK(c, d.rc == 0 || d.line != NOLINE, "line", "no line was reported for %s", quote(t).c_str());
    if (d.j) { Ref r(t, whole); if (r.ok && !r.unspec && !r.nul) { std::string w = differs(r.val, d.j); CHECK(c, w.empty(), "value", "%s parsed to %s", quote(t).c_str(), w.c_str()); } }
    c.label(d.rc == 0 ? "accept" : "reject");
  }
  if (t.size() >= 3) c.nontrivial();
  end(c, st);
}
PROPERTY("C25", "repeated", 40,
         "2 to 12 texts, good and bad, are parsed one after another in one state; each gives the verdict, line and value it gives in a state of its own, "
         "and earlier values stay intact; non-trivial if both verdicts occur") {
  struct cee_state *st = cee_state_mk(4);
  unsigned n = (unsigned)c.range(2, 12), good = 0, bad = 0;
  std::vector<std::pair<struct cee_json *, V>> kept;
  for (unsigned i = 0; i < n; i++) {
    std::string t;
    if (c.coin()) { Gen g; g.budget = 6; V v = gen_doc(c, g); put_value(c, t, v); if (c.chance(1, 3)) mutate(c, t); }
    else t = wild(c);
    bool whole = c.coin();
    Doc d = parse(c, st, t, whole);
    size_t before = pbt::mem::live();
    struct cee_state *own = cee_state_mk(4);
    Doc e = parse(c, own, t, whole);
    CHECK(c, d.rc == e.rc && d.line == e.line && (d.j != nullptr) == (e.j != nullptr), "state-dependent", "%s: status %d line %d in a used state, %d and %d in a fresh one", quote(t).c_str(), d.rc, d.line, e.rc, e.line);
    Ref r(t, whole);
    judge(c, e, r, t, whole);
    cee_del(own);
    CHECK(c, pbt::mem::live() == before, "leak", "a state used for %s did not free everything", quote(t).c_str());
    if (d.j && r.ok && !r.unspec && !r.nul) kept.push_back({d.j, r.val});
    (d.rc == 0 ? good : bad)++;
  }
  for (auto &k : kept) {
    std::string w = differs(k.second, k.first);
    CHECK(c, w.empty(), "earlier-value", "a value parsed before others changed: %s", w.c_str());
  }
  if (good && bad) c.nontrivial();
  end(c, st);
}

// ------------------------------------------------------------------ C26
std::string print(Case &c, struct cee_state *st, struct cee_json *j, int fmt) {
  char *p = nullptr;
  size_t n = 12345;
  ssize_t r = cee_json_asprint(st, &p, &n, j, (enum cee_json_fmt)fmt);
  CHECK(c, p && r >= 0 && (size_t)r == n, "length", "asprint returned %zd and reported %zu", r, n);
  CHECK(c, pbt::mem::room_after(p) > n, "room", "the block of asprint has %zu bytes for %zu characters and a terminator", pbt::mem::room_after(p), n);
  CHECK(c, p[n] == 0 && strlen(p) == n, "terminator", "the text of %zu characters is terminated after %zu", n, strlen(p));
  return std::string(p, n);
}
// text -> value -> text is stable, and each text denotes the value
void round_trips(Case &c, struct cee_state *st, struct cee_json *j, const V &v, int fmt) {
  std::string t = print(c, st, j, fmt);
  Ref r(t, true);
  CHECK(c, r.ok, "malformed", "printing %s gave %s, which is malformed at byte %zu", show(v).c_str(), quote(t, 1500).c_str(), r.pos);
  CHECK(c, eq_printed(v, r.val), "denotes", "printing %s gave %s, which denotes %s", show(v).c_str(), quote(t, 1500).c_str(), show(r.val).c_str());
  Doc d = parse(c, st, t, true);
  CHECK(c, d.rc == 0 && d.j, "not-parsed", "the library does not parse its own %s", quote(t, 1500).c_str());
  std::string w = differs(r.val, d.j);
  CHECK(c, w.empty(), "reparsed", "%s reparsed to %s", quote(t, 1500).c_str(), w.c_str());
  std::string u = print(c, st, d.j, fmt);
  CHECK(c, t == u, "unstable", "printed %s, parsed and printed again %s", quote(t, 1500).c_str(), quote(u, 1500).c_str());
}
bool has_minus_zero(const V &v) {
  if (v.k == DBL && v.d == 0 && std::signbit(v.d)) return true;
  for (auto &e : v.a) if (has_minus_zero(e)) return true;
  for (auto &e : v.m) if (has_minus_zero(e.second)) return true;
  return false;
}
bool has_inf(const V &v) {
  if (v.k == DBL && !std::isfinite(v.d)) return true;
  for (auto &e : v.a) if (has_inf(e)) return true;
  for (auto &e : v.m) if (has_inf(e.second)) return true;
  return false;
}
PROPERTY("C26", "built", 60,
         "a generated value is built through the constructors and setters, printed compactly and prettily, read by the reference parser and by the "
         "library, and printed again; non-trivial if it has at least 4 values") {
  Gen g;
  g.budget = 30;
  g.strn = true;
  V v = gen_doc(c, g);
  c.note("value %s", show(v, 3000).c_str());
  struct cee_state *st = cee_state_mk(10);
  struct cee_json *j = build(c, st, v);
  std::string w = differs(v, j);
  CHECK(c, w.empty(), "built", "building %s gave %s", show(v).c_str(), w.c_str());
  round_trips(c, st, j, v, CEE_JSON_FMT_COMPACT);
  round_trips(c, st, j, v, CEE_JSON_FMT_PRETTY);
  w = differs(v, j);
  CHECK(c, w.empty(), "changed", "printing changed %s: %s", show(v).c_str(), w.c_str());
  if (count(v) >= 4) c.nontrivial();
  end(c, st);
}
PROPERTY("C26", "parsed", 40,
         "the text of a generated document is parsed, printed compactly and prettily, parsed and printed again; non-trivial if it has at least 4 values") {
  Gen g;
  g.budget = 30;
  V v = gen_doc(c, g);
  std::string t;
  put_value(c, t, v);
  c.note("text %s", quote(t, 3000).c_str());
  struct cee_state *st = cee_state_mk(10);
  Doc d = parse(c, st, t, true);
  CHECK(c, d.rc == 0, "rejected", "%s was rejected", quote(t, 1500).c_str());
  if (!has_minus_zero(v) && !has_inf(v)) {
    round_trips(c, st, d.j, v, CEE_JSON_FMT_COMPACT);
    round_trips(c, st, d.j, v, CEE_JSON_FMT_PRETTY);
    if (count(v) >= 4) c.nontrivial();
  }
  end(c, st);
}
PROPERTY("C26", "scalars", 100,
         "numbers around the integer limits and of all magnitudes, and texts with every control character, survive printing and parsing; "
         "non-trivial unless empty or a single digit") {
  Gen g;
  g.strn = true;
  V v = gen_scalar(c, g);
  struct cee_state *st = cee_state_mk(10);
  struct cee_json *j = build(c, st, v);
  round_trips(c, st, j, v, (int)c.draw(1));
  if (show(v).size() > 2) c.nontrivial();
  end(c, st);
}

PROPERTY("C26", "counted", 60,
         "an array or object of counted strings with zero bytes at the ends, in the middle and in runs is printed in both formats and read by the reference "
         "parser, which must find every byte; non-trivial if a string has a zero byte before its last character") {
  bool obj = c.coin(), nt = false;
  V v = obj ? v_obj() : v_arr();
  int n = 1 + (int)c.draw(3);
  for (int i = 0; i < n; i++) {
    std::string s = gen_text(c, 6);
    for (int k = (int)c.draw(4); k; k--) s.insert(c.weighted({1, 1, 2}) == 0 ? 0 : c.coin() ? s.size() : c.index(s.size() + 1), 1 + (c.chance(1, 5) ? c.draw(20) : 0), '\0');
    while (!utf8_ok(s)) { size_t z = s.find('\0'); if (z == std::string::npos) break; s.erase(z, 1); }
    size_t z = s.find('\0');
    if (z != std::string::npos && z + 1 < s.size()) nt = true;
    if (obj) v.set(std::string(1, (char)('a' + i)), v_str(s, STRN));
    else v.a.push_back(v_str(s, STRN));
  }
  struct cee_state *st = cee_state_mk(10);
  struct cee_json *j = build(c, st, v);
  for (int fmt = 0; fmt < 2; fmt++) {
    std::string t = print(c, st, j, fmt);
    Ref r(t, true);
    CHECK(c, r.ok, "malformed", "printing %s gave %s, which is malformed at byte %zu", show(v).c_str(), quote(t, 1500).c_str(), r.pos);
    CHECK(c, eq_printed(v, r.val), "denotes", "printing %s gave %s, which denotes %s", show(v).c_str(), quote(t, 1500).c_str(), show(r.val).c_str());
    for (size_t n : {(size_t)0, (size_t)1, t.size(), t.size() + 1, (size_t)c.draw(t.size())}) {
      std::string b(n + 1, 'Z');
      ssize_t k = cee_json_snprint(st, &b[0], n, j, (enum cee_json_fmt)fmt);
      CHECK(c, k >= 0 && (size_t)k == t.size(), "length", "snprint into %zu bytes returned %zd for a text of %zu", n, k, t.size());
      CHECK(c, b[n] == 'Z' && memcmp(b.data(), t.data(), n ? std::min(n - 1, t.size()) : 0) == 0, "text", "snprint into %zu bytes gave another text", n);
    }
  }
  if (nt) c.nontrivial();
  end(c, st);
}
PROPERTY("C26", "large", 1,
         "arrays of 20 to 65550 and objects of 20 to 2000 members, texts (plain or counted) and keys of up to 131074 bytes, some nested, are built or parsed, printed in both "
         "formats, read by the reference parser and the library, and printed again; every case is non-trivial") {
  V v = gen_large(c);
  if (v.k == OBJ && v.m[0].first == "text" && c.coin()) v.m[0].second.k = STRN;
  struct cee_state *st = cee_state_mk(10);
  struct cee_json *j = build(c, st, v);
  for (int fmt = 0; fmt < 2; fmt++) round_trips(c, st, j, v, fmt);
  std::string w = differs(v, j);
  CHECK(c, w.empty(), "changed", "printing changed the value: %s", w.c_str());
  c.nontrivial();
  end(c, st);
}

// ------------------------------------------------------------------ C27
PROPERTY("C27", "bounded", 40,
         "a generated value of any kinds is printed in both formats into buffers of exactly 0, 1, a few random, length, length + 1 and more bytes and "
         "into none; non-trivial if the text has at least 8 characters") {
  Gen g;
  g.budget = 12;
  g.extra = true;
  V v = gen_doc(c, g);
  c.note("value %s", show(v, 3000).c_str());
  struct cee_state *st = cee_state_mk(10);
  struct cee_json *j = build(c, st, v);
  bool blob = has_kind(v, BLOB);
  for (int fmt = 0; fmt < 2; fmt++) {
    std::string full = print(c, st, j, fmt);
    size_t L = full.size();
    size_t live = pbt::mem::live();
    ssize_t r = cee_json_snprint(st, nullptr, (size_t)c.pick({0, 0, 5}), j, (enum cee_json_fmt)fmt);
    CHECK(c, r >= 0 && (size_t)r == L, "dry-length", "snprint into no buffer returned %zd for a text of %zu", r, L);
    std::vector<size_t> sizes = {0, 1, L, L + 1, L + 2 + c.draw(20)};
    for (int k = 0; k < 3; k++) sizes.push_back((size_t)c.draw(L));
    for (size_t n : sizes) {
      char *b = new char[n ? n : 1];
      memset(b, 0x5A, n ? n : 1);
      r = cee_json_snprint(st, n ? b : b + 1, n, j, (enum cee_json_fmt)fmt);
      CHECK(c, r >= 0 && (size_t)r == L, "length", "snprint into %zu bytes returned %zd for a text of %zu", n, r, L);
      if (n) {
        size_t w = std::min(n - 1, L);
        CHECK(c, memcmp(b, full.data(), w) == 0, "text", "snprint into %zu bytes gave other characters than %s", n, quote(full, 1000).c_str());
        if (n > L) CHECK(c, b[L] == 0, "terminator", "the text of %zu characters is not terminated in %zu bytes", L, n);
        for (size_t i = L + 1; i < n; i++) CHECK(c, b[i] == 0x5A, "after", "snprint wrote after its terminator");
      }
      delete[] b;
    }
    if (!blob) CHECK(c, pbt::mem::live() == live, "residue", "printing left %zd blocks in the state", (ssize_t)(pbt::mem::live() - live));
    CHECK(c, print(c, st, j, fmt) == full, "repeat", "printing again gave another text");
    if (L >= 8) c.nontrivial();
  }
  {  // the length argument of asprint is optional
    char *p = nullptr;
    ssize_t r = cee_json_asprint(st, &p, nullptr, j, CEE_JSON_FMT_COMPACT);
    CHECK(c, p && r >= 0 && strlen(p) == (size_t)r, "no-size", "asprint without size returned %zd", r);
  }
  std::string w = differs(v, j);
  CHECK(c, w.empty(), "changed", "printing changed the value: %s", w.c_str());
  end(c, st);
}

PROPERTY("C27", "large", 1,
         "large values are printed in both formats into buffers of exactly 0 or 1 bytes, around the length of the text, around 256, 65536 and 131072 bytes and random sizes; every "
         "case is non-trivial") {
  V v = gen_large(c);
  struct cee_state *st = cee_state_mk(10);
  struct cee_json *j = build(c, st, v);
  int fmt = (int)c.draw(1);
  std::string full = print(c, st, j, fmt);
  size_t L = full.size();
  for (int k = 0; k < 6; k++) {
    size_t n = k == 0 ? L : k == 1 ? L + 1 : k == 2 ? (size_t)c.draw(L) : k == 3 ? (size_t)c.draw(1) : (size_t)c.pick({256, 65536, 131072}) - 1 + c.draw(2);
    char *b = new char[n ? n : 1];
    memset(b, 0x5A, n ? n : 1);
    ssize_t r = cee_json_snprint(st, n ? b : b + 1, n, j, (enum cee_json_fmt)fmt);
    CHECK(c, r >= 0 && (size_t)r == L, "length", "snprint into %zu bytes returned %zd for a text of %zu", n, r, L);
    size_t w = n ? std::min(n - 1, L) : 0;
    CHECK(c, memcmp(b, full.data(), w) == 0, "text", "snprint into %zu bytes gave other characters than the text of %zu", n, L);
    if (n > L) CHECK(c, b[L] == 0, "terminator", "the text of %zu characters is not terminated in %zu bytes", L, n);
    for (size_t i = L + 1; i < n; i++) CHECK(c, b[i] == 0x5A, "after", "snprint wrote after its terminator");
    delete[] b;
  }
  c.nontrivial();
  end(c, st);
}

PROPERTY("C27", "to_descriptor", 15,
         "a generated value, or none, is printed with a formatted message in front, or none, to a descriptor several times; the bytes must be the messages, the compact "
         "texts and line ends, in order; non-trivial if a value and a message were printed") {
  Gen g;
  g.budget = 12;
  V v = gen_doc(c, g);
  struct cee_state *st = cee_state_mk(10);
  struct cee_json *j = build(c, st, v);
  std::string full = print(c, st, j, 0), want;
  size_t live = pbt::mem::live();
  FILE *f = tmpfile();
  CHECK(c, f, "harness", "no scratch file");
  int n = 1 + (int)c.draw(3);
  while (n--) {
    bool value = c.chance(5, 6);
    std::string msg = c.chance(1, 8) ? std::string((size_t)c.pick({100, 1023, 1024, 5000}), 'm') : gen_text(c, 6);
    msg = msg.c_str();
    long num = (long)c.draw(100000) - 50000;
    int how = (int)c.draw(3);
    c.note("print %s %s", value ? "the value" : "no value", how == 0 ? "without a message" : how == 1 ? "after a text" : "after a text and a number");
    if (how == 0) cee_json_dprintf(fileno(f), value ? j : nullptr, nullptr);
    else if (how == 1) { cee_json_dprintf(fileno(f), value ? j : nullptr, "%s", msg.c_str()); want += msg; }
    else { cee_json_dprintf(fileno(f), value ? j : nullptr, "<%s|%ld%%|%.2f|%c>", msg.c_str(), num, 2.5, 'x'); want += "<" + msg + "|" + std::to_string(num) + "%|2.50|x>"; }
    want += (value ? full : "null") + "\n";
    if (how && value) c.nontrivial();
  }
  std::string got(want.size() + 100, 0);
  ssize_t r = pread(fileno(f), &got[0], got.size(), 0);
  fclose(f);
  CHECK(c, r >= 0 && got.substr(0, (size_t)r) == want, "descriptor", "written %s, expected %s", quote(got.substr(0, r < 0 ? 0 : (size_t)r), 1000).c_str(), quote(want, 1000).c_str());
  CHECK(c, pbt::mem::live() == live, "residue", "printing left %zd blocks", (ssize_t)(pbt::mem::live() - live));
  std::string w = differs(v, j);
  CHECK(c, w.empty(), "changed", "printing changed the value: %s", w.c_str());
  end(c, st);
}

// ------------------------------------------------------------------ C34
std::string nested(Case &c, unsigned d, V *v) {
  std::string open, close;
  std::vector<bool> obj;
  int mix = (int)c.draw(2);
  for (unsigned i = 0; i < d; i++) obj.push_back(mix == 0 ? false : mix == 1 ? true : c.coin());
  V in = c.coin() ? v_i64(7) : c.coin() ? v_str("x") : (c.coin() ? v_arr() : v_null());
  if (in.k == ARR) in = v_null();
  unsigned every = (unsigned)c.range(1, 40);
  std::string text = in.k == I64 ? "7" : in.k == STR ? "\"x\"" : "null";
  for (unsigned i = d; i-- > 0;) {
    V o = obj[i] ? v_obj() : v_arr();
    bool left = i % every == 0, right = i % (every + 1) == 0;
    std::string s;
    if (obj[i]) {
      s = "{";
      if (left) { s += "\"l\":1,"; o.set("l", v_i64(1)); }
      s += "\"m\":" + text;
      o.set("m", std::move(in));
      if (right && i + 2 != MAX_DEPTH + 1) { s += ",\"r\":[]"; o.set("r", v_arr()); }
      s += "}";
    } else {
      s = "[";
      if (left) { s += "1,"; o.a.push_back(v_i64(1)); }
      s += text;
      o.a.push_back(std::move(in));
      if (right) { s += ",2"; o.a.push_back(v_i64(2)); }
      s += "]";
    }
    text = std::move(s);
    in = std::move(o);
  }
  *v = std::move(in);
  return text;
}
PROPERTY("C34", "supported", 1,
         "arrays and objects in any mixture, nested 1 to 511 deep (biased to 450 and more), with neighbours on some levels, are parsed, printed in both "
         "formats, reparsed, searched, merged and then deleted or collected; non-trivial if at least 128 deep") {
  unsigned d = (unsigned)(c.chance(1, 5) ? c.range(1, 127) : c.coin() ? c.range(128, 480) : c.range(450, 509));
  if (c.chance(1, 3)) d = (unsigned)c.range(509, 511);
  V v;
  std::string t = nested(c, d, &v);
  unsigned dv = depth(v);
  if (dv > MAX_DEPTH) return;
  c.note("depth %u", dv);
  struct cee_state *st = cee_state_mk(10);
  Doc p = parse(c, st, t, true);
  CHECK(c, p.rc == 0, "rejected", "a document of depth %u was rejected", dv);
  std::string w = differs(v, p.j);
  CHECK(c, w.empty(), "value", "depth %u: %s", dv, w.substr(w.size() > 300 ? w.size() - 300 : 0).c_str());
  for (int fmt = 0; fmt < 2; fmt++) {
    std::string full = print(c, st, p.j, fmt);
    CHECK(c, cee_json_snprint(st, nullptr, 0, p.j, (enum cee_json_fmt)fmt) == (ssize_t)full.size(), "length", "depth %u: lengths differ", dv);
    Ref r(full, true);
    CHECK(c, r.ok && eq(r.val, v), "printed", "depth %u: the %s text is %s at byte %zu of %zu", dv, fmt ? "pretty" : "compact", r.ok ? "another value" : "malformed", r.pos, full.size());
    Doc q = parse(c, st, full, true);
    CHECK(c, q.rc == 0, "reparse", "depth %u: the %s text was rejected", dv, fmt ? "pretty" : "compact");
    w = differs(v, q.j);
    CHECK(c, w.empty(), "reparsed", "depth %u: reparsed to another value", dv);
    if (fmt == 0) {
      // merging equal-shaped documents: objects unite, arrays concatenate
      Doc q2 = parse(c, st, full, true);
      cee_json_merge(q.j, q2.j);
      print(c, st, q.j, fmt);
      w = differs(v, q2.j);
      CHECK(c, w.empty(), "merge-source", "depth %u: merging changed its source", dv);
    }
    CHECK(c, (cee_json_has(p.j, (char *)"no such key") == nullptr), "has", "depth %u: found a key that is nowhere", dv);
  }
  switch (c.draw(2)) {
    case 0: cee_del(p.j); break;
    case 1:
      cee_state_add_gc_root(st, p.j);
      cee_state_gc(st);
      w = differs(v, p.j);
      CHECK(c, w.empty(), "collected", "depth %u: a rooted document was damaged by collection", dv);
      cee_state_remove_gc_root(st, p.j);
      cee_state_gc(st);
      break;
    default: break;
  }
  if (dv >= 128) c.nontrivial();
  end(c, st);
}
PROPERTY("C34", "beyond", 1,
         "texts nested 505 to 530, thousands or a hundred thousand deep, closed or not, in one or many lines: those up to 511 deep are accepted, "
         "deeper ones are rejected without value at the line of the bracket that is too deep; non-trivial if deeper than 511") {
  unsigned d = (unsigned)(c.chance(2, 3) ? c.range(505, 530) : c.chance(4, 5) ? c.range(531, 5000) : c.range(5000, 100000));
  std::string t;
  if (d <= 600) { V v; t = nested(c, d, &v); }
  else {
    bool o = c.coin();
    for (unsigned i = 0; i < d; i++) t += o ? "{\"a\":" : "[";
    if (c.coin()) { if (o) t += "1"; for (unsigned i = 0; i < d; i++) t += o ? "}" : "]"; }
  }
  if (c.coin()) {  // line breaks before some of the opening brackets
    std::string u;
    unsigned every = (unsigned)c.range(1, 200), n = 0;
    bool in = false;
    for (char ch : t) {
      if (ch == '"') in = !in;
      if (!in && (ch == '[' || ch == '{') && n++ % every == 0) u += c.pick({'\n', '\r'});
      u += ch;
    }
    if (t.find('\\') == std::string::npos) t = u;
  }
  bool whole = c.coin();
  Ref r(t, whole);
  struct cee_state *st = cee_state_mk(10);
  Doc p = parse(c, st, t, whole);
  CHECK(c, (p.rc == 0) == r.ok, "verdict", "a document of depth %u was %s", d, p.rc ? "rejected" : "accepted");
  CHECK(c, (p.j != nullptr) == r.ok, "value", "depth %u: status %d with value %p", d, p.rc, (void *)p.j);
  if (!r.ok) CHECK(c, p.line == r.line(), "line", "depth %u: an error after %d line breaks is reported at line %d", d, r.line(), p.line);
  // the state is still good
  Doc q = parse(c, st, "[1,{\"a\":null}]", true);
  CHECK(c, q.rc == 0, "state", "after a document of depth %u nothing parses", d);
  if (d > MAX_DEPTH) c.nontrivial();
  end(c, st);
}
}  // namespace
