// A small choice-sequence property-based testing engine.
//
// A property is a function of a Case.  Everything random a property does comes
// from Case::draw(), so a case *is* its sequence of drawn integers: it can be
// replayed, shrunk (delete / zero / lower integers) and hashed.
// Cases run in forked children, so crashes, sanitizer reports and hangs of the
// code under test are ordinary failures that shrink like any other.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace pbt {

struct Shared;

class Case {
 public:
  // ---- choices -------------------------------------------------------
  uint64_t draw(uint64_t max);  // uniform in [0,max]; shrinks toward 0
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint64_t)(hi - lo)); }
  bool coin() { return draw(1) == 1; }
  // true with probability num/den; shrinks toward false
  bool chance(unsigned num, unsigned den) { return draw(den - 1) >= den - num; }
  // "one more element?"  Geometric with the given mean; shrinks toward stopping.
  bool more(unsigned mean) { return draw(mean) != 0; }
  size_t index(size_t n) { return n <= 1 ? 0 : (size_t)draw(n - 1); }
  template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + index(l.size())); }
  template <class T> const T &of(const std::vector<T> &v) { return v[index(v.size())]; }
  // weighted choice: returns an index; earlier entries are "simpler"
  int weighted(std::initializer_list<int> w);
  unsigned size() const { return size_; }  // 1..100, drawn once per case

  // ---- verdicts ------------------------------------------------------
  // `sig` names the oracle that fired (stable across inputs: shrinking keeps it)
  [[noreturn]] void fail(const char *sig, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
  void nontrivial() { nontrivial_ = true; }
  void label(const char *name);  // class distribution, reported as evidence
  void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  bool verbose() const { return verbose_; }

  // ---- engine side ---------------------------------------------------
  void start_random(uint64_t seed, const char *prop, uint64_t index);
  void start_replay(const std::vector<uint64_t> &v, uint64_t tail = 0);  // tail: seed of what follows v (0: zeros)
  Shared *sh = nullptr;
  bool nontrivial_ = false, verbose_ = false;
  uint64_t hash_ = 0;
  size_t limit_ = 0;  // draws after which all others are zero; 0: none

 private:
  uint64_t next();
  bool replay_ = false, tail_ = false;
  std::vector<uint64_t> in_;
  size_t pos_ = 0;
  uint64_t s_[4];
  unsigned size_ = 50;
};

typedef void (*PropFn)(Case &);
struct Prop {
  const char *id;
  const char *name;
  PropFn fn;
  unsigned weight;  // relative share of the check's case budget
  const char *rule;
};
struct Reg {
  Reg(const char *id, const char *name, unsigned weight, const char *rule, PropFn fn);
};
std::vector<Prop> &props();

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
// PROPERTY("C01", "name", weight, "what a case is, and what makes it non-trivial") { ... c ... }
#define PROPERTY(id, name, weight, rule)                                              \
  static void PBT_CAT(prop_, __LINE__)(pbt::Case & c);                                \
  static pbt::Reg PBT_CAT(reg_, __LINE__)(id, name, weight, rule, PBT_CAT(prop_, __LINE__)); \
  static void PBT_CAT(prop_, __LINE__)(pbt::Case & c)

#define CHECK(c, cond, sig, ...)                 \
  do {                                           \
    if (!(cond)) (c).fail((sig), __VA_ARGS__);   \
  } while (0)

// ---- accounting of the library's heap ---------------------------------
// The library's malloc/calloc/realloc/free/strdup references are redirected
// here by the linker (--wrap); the harness itself allocates with operator new.
namespace mem {
size_t live();              // blocks allocated by the library and not yet freed
size_t live_bytes();
uint64_t allocs();          // total number of allocations so far
bool alive(const void *p);  // p points into a live library block
uint64_t id(const void *p); // the number of that allocation (0 if none): addresses come back, numbers do not
size_t block_size(const void *p);  // size of the live block holding p (0 if none)
size_t room_after(const void *p);  // bytes from p to the end of its block
void reset();               // forget everything (start of a case)
void fail(unsigned nth);    // the nth allocation (malloc, calloc) from now on gives null; 0: none does
void *xmalloc(size_t n);    // tracked allocation on behalf of the harness
// ids of blocks that are live now, for leak diffs
std::vector<size_t> live_sizes();
}  // namespace mem

std::string quote(const std::string &s, size_t max = 200);
uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull);

}  // namespace pbt
