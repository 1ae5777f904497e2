// C06..C14, C16, C17: containers, products, blocks, environments against models.
#include "pbt.hpp"
extern "C" {
#include "cee.h"
}
#include <algorithm>
#include <climits>
#include <cmath>
#include <csetjmp>
#include <csignal>
using pbt::Case;
using pbt::mem::alive;
namespace {

struct State {
  Case &c;
  struct cee_state *s;
  explicit State(Case &c_) : c(c_), s(cee_state_mk(4)) {}
  void done() {
    cee_del(s);
    CHECK(c, pbt::mem::live() == 0, "leak", "%zu blocks survive the state", pbt::mem::live());
  }
};

// ------------------------------------------------------------------ keys
struct Key { int v; int uid; };
int g_mode;            // which comparison
size_t g_cmps;         // how often it was called
int key_cmp(const void *a, const void *b) {
  g_cmps++;
  int x = ((const Key *)a)->v, y = ((const Key *)b)->v;
  switch (g_mode) {
    case 0: return x < y ? -1 : x > y;
    case 1: return y < x ? -1 : y > x;                       // descending
    case 2: return x == y ? 0 : x < y ? INT_MIN + (x & 7) : INT_MAX - (y & 7);  // extreme magnitudes
    case 3: x = (x + 4000) / 4; y = (y + 4000) / 4; return x - y;  // classes of equal elements
    default: {
      char p[16], q[16];
      snprintf(p, sizeof p, "%d", x);
      snprintf(q, sizeof q, "%d", y);
      return strcmp(p, q);
    }
  }
}
int cls(int v) { return g_mode == 3 ? (v + 4000) / 4 : v; }
const char *MODES[] = {"ascending", "descending", "extreme results", "classes of four", "decimal text"};

// Elements the library does not own.  The listing functions put elements of any
// policy into counting lists, so even these must be objects: room for a (zeroed,
// detached) object header lies in front of each.
enum { HEADROOM = 128 };
struct Pool {
  std::vector<char *> all;
  ~Pool() { for (auto *k : all) delete[] k; }
  Key *mk(int v) {
    char *p = new char[HEADROOM + sizeof(Key)];
    memset(p, 0, HEADROOM);
    Key *k = new (p + HEADROOM) Key{v, (int)all.size()};
    all.push_back(p);
    return k;
  }
};
// keys are drawn from a small or large range, or follow a pattern
struct KeyGen {
  Case &c;
  int range, pattern, next = 0;
  KeyGen(Case &c_) : c(c_), range(c.pick({6, 20, 60, 300})), pattern(c.weighted({6, 1, 1, 1})) {}
  int draw() {
    switch (pattern) {
      case 1: return next++ % (4 * range);
      case 2: return 2000 - next++ % (4 * range);
      case 3: { int n = next++; return n % 2 ? n % (2 * range) : -(n % (2 * range)); }
      default: return (int)c.draw(range);
    }
  }
};
void *val(size_t i) {
  static std::map<size_t, char *> made;
  char *&p = made[i];
  if (!p) { p = new char[HEADROOM + 16]; memset(p, 0, HEADROOM + 16); }
  return p + HEADROOM;
}

// -------------------------------------------------------------- C07 list
struct It { std::vector<void *> seen; std::vector<int> idx; int stop_at, ret; void *ctx; };
int list_cb(void *ctx, void *e, int i) {
  It *it = (It *)ctx;
  it->seen.push_back(e);
  it->idx.push_back(i);
  return (int)it->seen.size() - 1 == it->stop_at ? it->ret : 0;
}
void check_list(Case &c, struct cee_list *l, const std::vector<void *> &m) {
  CHECK(c, cee_list_size(l) == m.size(), "size", "size is %zu, expected %zu", cee_list_size(l), m.size());
  CHECK(c, cee_list_capacity(l) >= m.size(), "capacity", "capacity %zu below size %zu", cee_list_capacity(l), m.size());
  for (size_t i = 0; i < m.size(); i++) CHECK(c, l->a[i] == m[i], "element", "element %zu of %zu is %p, expected %p", i, m.size(), l->a[i], m[i]);
}
void check_iter(Case &c, struct cee_list *l, const std::vector<void *> &m, int stop) {
  It it{{}, {}, stop, stop < 0 ? 0 : stop % 2 ? -7 : 9, nullptr};
  int r = cee_list_iterate(l, &it, list_cb);
  size_t n = stop >= 0 && stop < (int)m.size() ? stop + 1 : m.size();
  CHECK(c, it.seen.size() == n, "iterate", "visited %zu elements, expected %zu", it.seen.size(), n);
  for (size_t i = 0; i < n; i++) CHECK(c, it.seen[i] == m[i] && it.idx[i] == (int)i, "iterate", "visit %zu is (%p, %d)", i, it.seen[i], it.idx[i]);
  int want = stop >= 0 && stop < (int)m.size() ? it.ret : 0;
  CHECK(c, r == want, "iterate-return", "returned %d, expected %d", r, want);
}

}  // namespace

PROPERTY("C07", "sequence", 25,
         "A random history of appends, inserts, removals (in and out of range), merges and iterations on up to three lists of any "
         "initial capacity against vectors. Non-trivial: 8 operations changed a list and a list grew past its initial capacity.") {
  State st(c);
  std::vector<struct cee_list *> ls;
  std::vector<std::vector<void *>> ms;
  std::vector<size_t> caps;
  size_t n = 1 + c.draw(2), next = 0, changes = 0;
  bool rc = c.chance(1, 3);
  for (size_t i = 0; i < n; i++) {
    size_t cap = c.weighted({3, 3, 1}) == 0 ? c.draw(2) : c.draw(40);
    ls.push_back(rc ? cee_list_mk(st.s, cap) : cee_list_mk_e(st.s, CEE_DP_NOOP, cap));
    ms.push_back({});
    caps.push_back(cap);
    c.note("list %zu with capacity %zu (%s)", i, cap, rc ? "RC" : "NOOP");
    CHECK(c, cee_list_size(ls[i]) == 0 && cee_list_capacity(ls[i]) >= cap, "fresh", "a fresh list has size %zu, capacity %zu", cee_list_size(ls[i]), cee_list_capacity(ls[i]));
  }
  auto elem = [&]() -> void * {
    if (rc) return cee_boxed_from_i64(st.s, (int64_t)next++);
    if (c.chance(1, 10)) return nullptr;
    return c.chance(1, 6) && next ? val(c.index(next)) : val(next++);
  };
  unsigned mean = 15 + c.size();
  while (c.more(mean)) {
    size_t i = c.index(n);
    auto &m = ms[i];
    auto *l = ls[i];
    switch (c.weighted({8, 5, 4, 1, 1, 1})) {
      case 0: { void *e = elem(); c.note("append to %zu", i); cee_list_append(l, e); m.push_back(e); changes++; break; }
      case 1: { void *e = elem(); size_t at = c.draw(m.size()); c.note("insert into %zu at %zu", i, at); cee_list_insert(l, (int)at, e); m.insert(m.begin() + at, e); changes++; break; }
      case 2: {
        if (m.empty()) break;
        size_t at = c.index(m.size());
        c.note("remove %zu from %zu", at, i);
        CHECK(c, cee_list_remove(l, (int)at), "remove", "removing %zu of %zu returned false", at, m.size());
        m.erase(m.begin() + at);
        changes++;
        break;
      }
      case 3: {
        int at = c.coin() ? (int)(m.size() + c.draw(3)) : -1 - (int)c.draw(3);
        c.note("remove %d from %zu (out of range)", at, i);
        CHECK(c, !cee_list_remove(l, at), "remove-range", "removing %d of %zu returned true", at, m.size());
        break;
      }
      case 4: {
        size_t j = c.index(n);
        if (j == i || m.size() + ms[j].size() > 3000) break;
        c.note("merge %zu into %zu", j, i);
        cee_list_merge(l, ls[j]);
        m.insert(m.end(), ms[j].begin(), ms[j].end());
        changes++;
        break;
      }
      default: check_iter(c, l, m, c.coin() ? (int)c.draw(m.size() + 1) : -1); break;
    }
    for (size_t k = 0; k < n; k++) check_list(c, ls[k], ms[k]);
  }
  for (size_t k = 0; k < n; k++) { check_iter(c, ls[k], ms[k], -1); if (changes >= 8 && ms[k].size() > caps[k]) c.nontrivial(); }
  CHECK(c, !cee_list_remove(nullptr, 0) && cee_list_size(nullptr) == 0 && cee_list_capacity(nullptr) == 0, "null-list", "a null list is not empty");
  CHECK(c, cee_list_iterate(nullptr, nullptr, list_cb) == 0, "null-list", "iterating a null list");
  if (rc) for (auto *l : ls) cee_del(l);
  st.done();
}
PROPERTY("C07", "long", 1, "Lists of several thousand elements built by appends and inserts at the ends and in the middle, then partly removed. Always non-trivial.") {
  State st(c);
  size_t n = 200 + c.draw(2400);
  struct cee_list *l = cee_list_mk_e(st.s, CEE_DP_NOOP, c.draw(1) ? 0 : c.draw(5000));
  std::vector<void *> m;
  int where = (int)c.draw(3);
  for (size_t i = 0; i < n; i++) {
    size_t at = where == 0 ? m.size() : where == 1 ? 0 : where == 2 ? m.size() / 2 : (i * 7919) % (m.size() + 1);
    if (at == m.size() && where == 0) cee_list_append(l, val(i)); else cee_list_insert(l, (int)at, val(i));
    m.insert(m.begin() + at, val(i));
  }
  check_list(c, l, m);
  for (size_t i = 0; i < n / 3; i++) {
    size_t at = (i * 104729) % m.size();
    CHECK(c, cee_list_remove(l, (int)at), "remove", "returned false");
    m.erase(m.begin() + at);
  }
  check_list(c, l, m);
  check_iter(c, l, m, -1);
  c.nontrivial();
  st.done();
}

// --------------------------------------------------------------- C08..C10
namespace {
struct MapModel {
  // by first insertion
  std::vector<std::pair<Key *, void *>> kv;
  size_t find(int v) {
    for (size_t i = 0; i < kv.size(); i++) if (cls(kv[i].first->v) == cls(v)) return i;
    return (size_t)-1;
  }
  bool has(int v) { return find(v) != (size_t)-1; }
  // returns previous value
  void *add(Key *k, void *v) {
    size_t i = find(k->v);
    if (i == (size_t)-1) { kv.push_back({k, v}); return nullptr; }
    void *old = kv[i].second;
    kv[i].second = v;
    return old;
  }
  void *remove(int v) {
    size_t i = find(v);
    if (i == (size_t)-1) return nullptr;
    void *old = kv[i].second;
    kv.erase(kv.begin() + i);
    return old;
  }
};
struct MIt { std::vector<std::pair<void *, void *>> seen; int stop_at, ret; };
int map_cb(void *ctx, void *k, void *v) {
  MIt *it = (MIt *)ctx;
  it->seen.push_back({k, v});
  return (int)it->seen.size() - 1 == it->stop_at ? it->ret : 0;
}
void check_lists(Case &c, struct cee_map *m, MapModel &mm) {
  for (auto &kv : mm.kv) if (!kv.second) return;  // null is no object: the listing functions cannot count it
  struct cee_list *ks = cee_map_keys(m), *vs = cee_map_values(m);
  CHECK(c, cee_list_size(ks) == mm.kv.size(), "keys", "%zu keys listed, expected %zu", cee_list_size(ks), mm.kv.size());
  CHECK(c, cee_list_size(vs) == mm.kv.size(), "values", "%zu values listed, expected %zu", cee_list_size(vs), mm.kv.size());
  std::set<std::pair<void *, void *>> got, want(mm.kv.begin(), mm.kv.end());
  for (size_t i = 0; i < mm.kv.size(); i++) got.insert({ks->a[i], vs->a[i]});
  CHECK(c, got == want, "keys-values", "the key and value lists do not describe the stored pairs");
}
void check_order(Case &c, struct cee_map *m, MapModel &mm) {
  struct cee_list *l = cee_map_insertion_ordered_keys(m);
  CHECK(c, cee_list_size(l) == mm.kv.size(), "order", "%zu keys in insertion order, expected %zu", cee_list_size(l), mm.kv.size());
  for (size_t i = 0; i < mm.kv.size(); i++)
    CHECK(c, l->a[i] == mm.kv[i].first, "order", "key %zu in insertion order is %d, expected %d", i, ((Key *)l->a[i])->v, mm.kv[i].first->v);
}
void check_map(Case &c, struct cee_map *m, MapModel &mm, int lo, int hi) {
  CHECK(c, cee_map_size(m) == mm.kv.size(), "size", "size %zu, expected %zu", (size_t)cee_map_size(m), mm.kv.size());
  for (int v = lo; v <= hi; v++) {
    Key k{v, -1};
    size_t i = mm.find(v);
    void *want = i == (size_t)-1 ? nullptr : mm.kv[i].second, *got = cee_map_find(m, &k);
    CHECK(c, got == want, "find", "key %d finds %p, expected %p", v, got, want);
  }
}
void check_map_iter(Case &c, struct cee_map *m, MapModel &mm, int stop) {
  MIt it{{}, stop, stop % 2 ? 5 : -3};
  int r = cee_map_iterate(m, &it, map_cb);
  size_t n = stop >= 0 && stop < (int)mm.kv.size() ? stop + 1 : mm.kv.size();
  CHECK(c, it.seen.size() == n, "iterate", "visited %zu pairs, expected %zu", it.seen.size(), n);
  std::set<std::pair<void *, void *>> s(it.seen.begin(), it.seen.end()), want(mm.kv.begin(), mm.kv.end());
  CHECK(c, s.size() == it.seen.size() && std::includes(want.begin(), want.end(), s.begin(), s.end()), "iterate", "a pair was visited twice or is not stored");
  int ret = stop >= 0 && stop < (int)mm.kv.size() ? it.ret : 0;
  CHECK(c, r == ret, "iterate-return", "returned %d, expected %d", r, ret);
}
enum cee_del_policy NOOP2[2] = {CEE_DP_NOOP, CEE_DP_NOOP};

void map_history(Case &c, bool order) {
  State st(c);
  g_mode = (int)c.draw(4);
  Pool pool;
  KeyGen kg(c);
  MapModel mm;
  struct cee_map *m = cee_map_mk_e(st.s, NOOP2, key_cmp);
  c.note("comparison: %s", MODES[g_mode]);
  size_t ops = 0, removes = 0, repl = 0, vn = 0;
  unsigned mean = 10 + 2 * c.size();
  int lo = -3, hi = kg.pattern ? -4 : std::min(kg.range + 2, 70);
  while (c.more(mean)) {
    int v = kg.draw();
    if (!mm.kv.empty() && c.chance(1, 2)) v = c.of(mm.kv).first->v;
    ops++;
    switch (c.weighted({8, 4, 4, 1, order ? 3 : 1})) {
      case 0: {
        Key *k = pool.mk(kg.draw());
        void *nv = c.chance(1, 12) ? nullptr : val(vn++);
        if (mm.has(k->v)) repl++;
        c.note("add %d -> %p", k->v, nv);
        void *got = cee_map_add(m, k, nv), *want = mm.add(k, nv);
        CHECK(c, got == want, "add-return", "adding key %d returned %p, expected %p", k->v, got, want);
        break;
      }
      case 1: {
        Key k{v, -1};
        c.note("remove %d", v);
        if (mm.has(v)) removes++;
        void *want = mm.remove(v), *got = cee_map_remove(m, &k);
        CHECK(c, got == want, "remove-return", "removing key %d returned %p, expected %p", v, got, want);
        break;
      }
      case 2: {
        Key k{v, -1};
        size_t i = mm.find(v);
        void *got = cee_map_find(m, &k), *want = i == (size_t)-1 ? nullptr : mm.kv[i].second;
        CHECK(c, got == want, "find", "key %d finds %p, expected %p", v, got, want);
        break;
      }
      case 3: check_map_iter(c, m, mm, c.coin() ? (int)c.draw(mm.kv.size()) : -1); break;
      default: {
        Key old{v, -1};
        Key *nk = pool.mk(kg.draw());
        c.note("rename %d to %d", v, nk->v);
        bool got = cee_map_rename(m, &old, nk), want = mm.has(v);
        CHECK(c, got == want, "rename-return", "renaming key %d returned %d", v, got);
        if (want) { void *x = mm.remove(v); mm.add(nk, x); removes++; }
        break;
      }
    }
    if (order) check_order(c, m, mm);
    check_map(c, m, mm, lo, ops % 8 ? lo + 5 : hi);
    if (ops % 8 == 0) check_lists(c, m, mm);
  }
  for (auto &kv : mm.kv) { Key k{kv.first->v, -1}; CHECK(c, cee_map_find(m, &k) == kv.second, "find", "key %d is lost", k.v); }
  check_map(c, m, mm, lo, hi);
  check_lists(c, m, mm);
  check_order(c, m, mm);
  check_map_iter(c, m, mm, -1);
  if (ops >= 8 && removes && (mm.kv.size() >= 4 || repl)) c.nontrivial();
  if (repl) c.label("replacements");
  st.done();
}
}  // namespace

PROPERTY("C08", "history", 20,
         "Adds, replacements, removals, renames, lookups and iterations under five comparison functions (one with classes of equal keys) "
         "against an association list; all keys of the range are looked up again and again. Non-trivial: 8 operations, a removal and 4 pairs or a replacement.") {
  map_history(c, false);
  CHECK(c, !cee_map_size(nullptr) && !cee_map_find(nullptr, (void *)"x") && !cee_map_remove(nullptr, (void *)"x") && cee_map_iterate(nullptr, nullptr, map_cb) == 0, "null-map", "a null map is not empty");
}
PROPERTY("C08", "counted_strings", 12,
         "A default map (counted string keys, strcmp) with fresh key and value objects, against std::map; values replaced by others or "
         "themselves. Non-trivial: 6 additions and a replacement or removal.") {
  State st(c);
  std::map<std::string, void *> m;
  struct cee_map *x = cee_map_mk(st.s, (cee_cmp_fun)strcmp);
  int adds = 0, rem = 0;
  auto text = [&] { std::string s; for (unsigned n = (unsigned)c.draw(4); n; n--) s += (char)('a' + c.draw(2)); return s; };
  while (c.more(20 + c.size() / 2)) {
    std::string k = text();
    if (c.chance(2, 3)) {
      void *v = c.chance(1, 6) && m.count(k) ? m[k] : (void *)cee_boxed_from_i64(st.s, adds);
      c.note("add \"%s\" -> %p%s", k.c_str(), v, m.count(k) && m[k] == v ? " (same)" : "");
      void *old = cee_map_add(x, cee_str_mk(st.s, "%s", k.c_str()), v);
      CHECK(c, old == (m.count(k) ? m[k] : nullptr), "add-return", "adding \"%s\" returned %p", k.c_str(), old);
      if (m.count(k)) rem++;
      m[k] = v;
      adds++;
    } else {
      c.note("remove \"%s\"", k.c_str());
      void *old = cee_map_remove(x, (void *)k.c_str());
      CHECK(c, old == (m.count(k) ? m[k] : nullptr), "remove-return", "removing \"%s\" returned %p", k.c_str(), old);
      rem += (int)m.erase(k);
    }
    CHECK(c, cee_map_size(x) == m.size(), "size", "size %zu, expected %zu", (size_t)cee_map_size(x), m.size());
    for (auto &kv : m) CHECK(c, cee_map_find(x, (void *)kv.first.c_str()) == kv.second, "find", "value of \"%s\"", kv.first.c_str());
    std::string q = text();
    if (!m.count(q)) CHECK(c, !cee_map_find(x, (void *)q.c_str()), "find", "absent \"%s\" is found", q.c_str());
  }
  if (adds >= 6 && rem) c.nontrivial();
  cee_del(x);
  st.done();
}
PROPERTY("C08", "large", 1, "Maps of up to 3000 keys in sorted, reversed, zigzag and random order, then half removed; every key is looked up. Always non-trivial.") {
  State st(c);
  g_mode = c.coin() ? 0 : 4;
  Pool pool;
  int n = 200 + (int)c.draw(2800), pat = (int)c.draw(3), mul = 2 * (int)c.draw(500) + 1;
  enum cee_del_policy p[2] = {CEE_DP_NOOP, CEE_DP_NOOP};
  struct cee_map *m = cee_map_mk_e(st.s, p, key_cmp);
  auto key = [&](int i) { return pat == 0 ? i : pat == 1 ? n - i : pat == 2 ? (i % 2 ? i : -i) : (int)(((int64_t)i * mul) % 4096); };
  std::map<int, void *> model;
  for (int i = 0; i < n; i++) { cee_map_add(m, pool.mk(key(i)), val(i)); model[key(i)] = val(i); }
  for (int r = 0; r < 2; r++) {
    CHECK(c, cee_map_size(m) == model.size(), "size", "size %zu, expected %zu", (size_t)cee_map_size(m), model.size());
    for (int v = -n - 2; v < 4100; v++) {
      Key k{v, -1};
      void *w = model.count(v) ? model[v] : nullptr;
      CHECK(c, cee_map_find(m, &k) == w, "find", "key %d among %zu", v, model.size());
    }
    if (r == 0)
      for (int i = 0; i < n; i += 1 + (int)(i % 3)) {
        Key k{key(i), -1};
        void *w = model.count(k.v) ? model[k.v] : nullptr;
        CHECK(c, cee_map_remove(m, &k) == w, "remove-return", "key %d", k.v);
        model.erase(k.v);
      }
  }
  c.nontrivial();
  st.done();
}

PROPERTY("C09", "order", 15,
         "Adds, replacements, removals and renames (onto absent, present and the same key); after every operation the insertion-ordered "
         "key list must be the modelled sequence of key objects. Non-trivial: as for history.") {
  map_history(c, true);
}
PROPERTY("C09", "renames", 15,
         "Mostly renames on a counted-string map, including chains, swaps and renames of absent keys, against an ordered model; values must follow. "
         "Non-trivial: two renames of present keys.") {
  State st(c);
  struct cee_map *x = cee_map_mk(st.s, (cee_cmp_fun)strcmp);
  std::vector<std::pair<std::string, void *>> m;
  auto at = [&](const std::string &k) { for (size_t i = 0; i < m.size(); i++) if (m[i].first == k) return (int)i; return -1; };
  auto text = [&] { return std::string(1, (char)('a' + c.draw(4))); };
  int renames = 0;
  auto put = [&](const std::string &k, void *v) { int i = at(k); if (i < 0) m.push_back({k, v}); else m[i].second = v; };
  while (c.more(20)) {
    std::string k = text(), n = text();
    if (c.chance(1, 3)) {
      void *v = cee_boxed_from_i64(st.s, 1);
      c.note("add %s", k.c_str());
      cee_map_add(x, cee_str_mk(st.s, "%s", k.c_str()), v);
      put(k, v);
    } else {
      c.note("rename %s to %s", k.c_str(), n.c_str());
      int i = at(k);
      bool r = cee_map_rename(x, (void *)k.c_str(), cee_str_mk(st.s, "%s", n.c_str()));
      CHECK(c, r == (i >= 0), "rename-return", "renaming %s returned %d", k.c_str(), r);
      if (i >= 0) { void *v = m[i].second; m.erase(m.begin() + i); put(n, v); renames++; }
    }
    struct cee_list *l = cee_map_insertion_ordered_keys(x);
    CHECK(c, cee_list_size(l) == m.size() && cee_map_size(x) == m.size(), "order", "%zu keys in insertion order, size %zu, expected %zu", cee_list_size(l), (size_t)cee_map_size(x), m.size());
    for (size_t i = 0; i < m.size(); i++) {
      CHECK(c, m[i].first == (char *)l->a[i], "order", "key %zu is %s, expected %s", i, (char *)l->a[i], m[i].first.c_str());
      CHECK(c, cee_map_find(x, (void *)m[i].first.c_str()) == m[i].second, "find", "value of %s", m[i].first.c_str());
    }
    for (char ch = 'a'; ch <= 'e'; ch++) { std::string q(1, ch); if (at(q) < 0) CHECK(c, !cee_map_find(x, (void *)q.c_str()), "find", "absent %s found", q.c_str()); }
    if (c.coin()) cee_del(l);
  }
  if (renames >= 2) c.nontrivial();
  cee_del(x);
  st.done();
}

namespace {
struct MergeCtx { int how; std::vector<std::pair<void *, void *>> calls; std::vector<void *> out; size_t n; struct cee_state *st; Case *c; void *self; };
void *merge_cb(void *ctx, void *o, void *n) {
  MergeCtx *m = (MergeCtx *)ctx;
  m->calls.push_back({o, n});
  int how = m->how == 3 ? (int)(m->calls.size() % 3) : m->how;
  void *r = how == 0 ? o : how == 1 ? n : m->st ? (void *)cee_boxed_from_i64(m->st, 99) : val(100000 + m->n++);
  m->out.push_back(r);
  return r;
}
}  // namespace

PROPERTY("C10", "merge", 30,
         "Two maps built by random histories under one comparison, merged with no callback or with one that returns the old, the new, a third "
         "value or a mixture; result, source, callback calls and both insertion orders are compared with the model; then both maps go on "
         "being edited. Non-trivial: both maps had keys of their own and one in common.") {
  State st(c);
  g_mode = (int)c.draw(4);
  Pool pool;
  size_t vn = 0;
  struct cee_map *m[2];
  MapModel mm[2];
  int range = (int)c.pick({4, 12, 60});
  // a value may be the same object in both maps (under one key only: the callback's calls are told apart by their values)
  bool shared = c.chance(1, 3);
  for (int t = 0; t < 2; t++) {
    m[t] = cee_map_mk_e(st.s, NOOP2, key_cmp);
    while (c.more(4 + c.size() / 6)) {
      Key *k = pool.mk((int)c.draw(range));
      if (c.chance(1, 6)) { cee_map_remove(m[t], k); mm[t].remove(k->v); }
      else { void *v = val(shared && c.coin() ? 500000 + k->v : vn++); cee_map_add(m[t], k, v); mm[t].add(k, v); }
    }
    std::string d;
    for (auto &kv : mm[t].kv) d += " " + std::to_string(kv.first->v);
    c.note("map %d: keys%s (%s)%s", t, d.c_str(), MODES[g_mode], shared ? ", values shared by both maps" : "");
  }
  bool clone = c.chance(1, 4);
  size_t common = 0;
  MapModel before = mm[0], src = mm[1];
  if (clone) {
    m[0] = cee_map_clone(m[1]);
    mm[0] = MapModel();
    before = mm[0];
    for (auto &kv : mm[1].kv) mm[0].kv.push_back(kv);
    c.note("clone");
  } else {
    MergeCtx cx{(int)c.draw(3), {}, {}, 0, nullptr, &c, nullptr};
    bool cb = c.chance(3, 4);
    c.note("merge %s", cb ? "with callback" : "without callback");
    cee_map_merge(m[0], m[1], &cx, cb ? merge_cb : nullptr);
    std::set<std::pair<void *, void *>> calls;
    for (auto &kv : mm[1].kv) {
      size_t i = mm[0].find(kv.first->v);
      if (i == (size_t)-1) { mm[0].kv.push_back(kv); continue; }
      common++;
      if (!cb) { mm[0].kv[i].second = kv.second; continue; }
      void *old = mm[0].kv[i].second;
      size_t j = 0;
      while (j < cx.calls.size() && cx.calls[j] != std::make_pair(old, kv.second)) j++;
      CHECK(c, j < cx.calls.size(), "callback", "the callback was not called for the common key %d", kv.first->v);
      mm[0].kv[i].second = cx.out[j];
      calls.insert(cx.calls[j]);
    }
    if (cb) CHECK(c, cx.calls.size() == common, "callback", "the callback was called %zu times for %zu common keys", cx.calls.size(), common);
  }
  if (mm[1].kv.size() > common && before.kv.size() > common && (common || clone)) c.nontrivial();
  if (clone && mm[1].kv.size() >= 3) c.nontrivial();
  // the destination keeps the order of its keys and appends the others in some order
  {
    struct cee_list *l = cee_map_insertion_ordered_keys(m[0]);
    CHECK(c, cee_list_size(l) == mm[0].kv.size(), "order", "%zu keys after the merge, expected %zu", cee_list_size(l), mm[0].kv.size());
    MapModel re;
    for (size_t i = 0; i < mm[0].kv.size(); i++) {
      size_t j = mm[0].find(((Key *)l->a[i])->v);
      CHECK(c, j != (size_t)-1 && mm[0].kv[j].first == l->a[i], "order", "an unexpected key object in the merged map");
      if (i < before.kv.size()) CHECK(c, j == i, "order", "the merge moved key %d", ((Key *)l->a[i])->v);
      re.kv.push_back(mm[0].kv[j]);
    }
    std::set<void *> distinct(l->a, l->a + cee_list_size(l));
    CHECK(c, distinct.size() == mm[0].kv.size(), "order", "a key appears twice");
    mm[0] = re;
  }
  for (int t = 0; t < 2; t++) { check_map(c, m[t], mm[t], -2, range + 2); check_lists(c, m[t], mm[t]); check_order(c, m[t], mm[t]); check_map_iter(c, m[t], mm[t], -1); }
  // independence afterwards
  while (c.more(6)) {
    int t = (int)c.draw(1);
    Key *k = pool.mk((int)c.draw(range));
    if (c.coin()) { c.note("add %d to map %d", k->v, t); cee_map_add(m[t], k, val(vn)); mm[t].add(k, val(vn)); vn++; }
    else { c.note("remove %d from map %d", k->v, t); CHECK(c, cee_map_remove(m[t], k) == mm[t].remove(k->v), "remove-return", "after the merge"); }
    for (int u = 0; u < 2; u++) { check_map(c, m[u], mm[u], -2, range + 2); check_order(c, m[u], mm[u]); }
  }
  st.done();
}
PROPERTY("C10", "merge_counted", 20,
         "Merging and cloning default maps of counted strings, then deleting source and destination in either order: elements live exactly "
         "as long as one of the maps holds them. Non-trivial: a common key and a deletion order that leaves elements alive.") {
  State st(c);
  struct cee_map *m[2];
  std::map<std::string, void *> mm[2];
  std::vector<void *> vals;
  for (int t = 0; t < 2; t++) {
    m[t] = cee_map_mk(st.s, (cee_cmp_fun)strcmp);
    for (int i = 0; i < 6; i++)
      if (c.coin()) {
        std::string k(1, (char)('a' + i));
        bool reuse = mm[0].count(k) && c.chance(1, 4);
        void *v = reuse ? mm[0][k] : (void *)cee_boxed_from_i64(st.s, i + 10 * t);
        if (!reuse) vals.push_back(v);
        else c.note("%s has one value in both maps", k.c_str());
        cee_map_add(m[t], cee_str_mk(st.s, "%s", k.c_str()), v);
        mm[t][k] = v;
      }
  }
  size_t common = 0;
  for (auto &kv : mm[0]) common += mm[1].count(kv.first);
  int how = (int)c.draw(4);
  c.note("%zu and %zu keys, %zu common, %s", mm[0].size(), mm[1].size(), common, how == 4 ? "clone" : how == 3 ? "no callback" : how == 0 ? "callback keeps old" : how == 1 ? "callback takes new" : "callback makes a third");
  std::map<std::string, void *> replaced;
  if (how == 4) { cee_del(m[0]); m[0] = cee_map_clone(m[1]); mm[0] = mm[1]; if (mm[1].size() >= 2) c.nontrivial(); }
  else {
    MergeCtx cx{how, {}, {}, 0, st.s, &c, nullptr};
    cee_map_merge(m[0], m[1], &cx, how == 3 ? nullptr : merge_cb);
    for (auto &kv : mm[1]) {
      auto it = mm[0].find(kv.first);
      if (it == mm[0].end()) { mm[0][kv.first] = kv.second; continue; }
      if (how == 3) { it->second = kv.second; continue; }
      for (size_t j = 0; j < cx.calls.size(); j++) if (cx.calls[j] == std::make_pair(it->second, kv.second)) { it->second = cx.out[j]; break; }
    }
    if (how == 2) for (void *o : cx.out) vals.push_back(o);
    if (common) c.nontrivial();
  }
  auto verify = [&](int t) {
    CHECK(c, cee_map_size(m[t]) == mm[t].size(), "size", "map %d has %zu keys, expected %zu", t, (size_t)cee_map_size(m[t]), mm[t].size());
    for (auto &kv : mm[t]) CHECK(c, cee_map_find(m[t], (void *)kv.first.c_str()) == kv.second, "find", "map %d value of %s", t, kv.first.c_str());
  };
  verify(0);
  verify(1);
  int first = (int)c.draw(1);
  c.note("delete map %d first", first);
  cee_del(m[first]);
  for (auto &kv : mm[!first]) CHECK(c, alive(kv.second), "freed-too-early", "a value still held by the other map was freed");
  verify(!first);
  if (how < 2 || how == 4)
    for (void *v : vals) {
      bool held = false;
      for (auto &kv : mm[!first]) if (kv.second == v) held = true;
      bool was = false;
      for (auto &kv : mm[first]) if (kv.second == v) was = true;
      if (was && !held) CHECK(c, !alive(v), "not-freed", "a value only the deleted map held is still allocated");
    }
  std::vector<void *> last;
  for (auto &kv : mm[!first]) last.push_back(kv.second);
  cee_del(m[!first]);
  for (void *v : last) CHECK(c, !alive(v), "not-freed", "a value outlives both maps");
  st.done();
}

// --------------------------------------------------------------- C11 sets
namespace {
void set_cb(void *ctx, void *e) { ((std::vector<void *> *)ctx)->push_back(e); }
void check_set(Case &c, struct cee_set *s, std::vector<Key *> &m, int lo, int hi) {
  CHECK(c, cee_set_size(s) == m.size(), "size", "size %zu, expected %zu", cee_set_size(s), m.size());
  CHECK(c, cee_set_empty(s) == m.empty(), "empty", "reported %s", cee_set_empty(s) ? "empty" : "not empty");
  for (int v = lo; v <= hi; v++) {
    Key k{v, -1}, *w = nullptr;
    for (auto *x : m) if (cls(x->v) == cls(v)) w = x;
    void *g = cee_set_find(s, &k);
    CHECK(c, g == w, "find", "%d finds %p, expected %p", v, g, (void *)w);
  }
}
void check_set_lists(Case &c, struct cee_set *s, std::vector<Key *> &m) {
  std::vector<void *> want(m.begin(), m.end()), it;
  std::sort(want.begin(), want.end());
  cee_set_iterate(s, &it, set_cb);
  std::sort(it.begin(), it.end());
  CHECK(c, it == want, "iterate", "iteration visited %zu elements, or others than the %zu in the set", it.size(), want.size());
  struct cee_list *l = cee_set_values(s);
  std::vector<void *> vs(l->a, l->a + cee_list_size(l));
  std::sort(vs.begin(), vs.end());
  CHECK(c, vs == want, "values", "the value list differs from the contents");
}
}  // namespace
PROPERTY("C11", "history", 22,
         "Adds (of new, equal and identical elements), removes, finds and clears under five comparison functions against a model. "
         "Non-trivial: 8 operations, one removal, one repeated addition.") {
  State st(c);
  g_mode = (int)c.draw(4);
  Pool pool;
  KeyGen kg(c);
  // counted or not: keys in the counted variant live inside library blocks
  bool rc = c.chance(1, 3);
  struct cee_set *s = rc ? cee_set_mk(st.s, key_cmp) : cee_set_mk_e(st.s, CEE_DP_NOOP, key_cmp);
  std::vector<Key *> m;
  c.note("set (%s), comparison: %s", rc ? "RC" : "NOOP", MODES[g_mode]);
  size_t ops = 0, rem = 0, rep = 0;
  int uid = 0;
  auto mk = [&](int v) -> Key * {
    if (!rc) return pool.mk(v);
    Key *k = (Key *)cee_block_mk(st.s, sizeof(Key));
    k->v = v;
    k->uid = uid++;
    return k;
  };
  int lo = -3, hi = kg.pattern ? 3 : std::min(kg.range + 2, 70);
  unsigned mean = 10 + 2 * c.size();
  while (c.more(mean)) {
    ops++;
    int v = kg.draw();
    if (!m.empty() && c.coin()) v = c.of(m)->v;
    Key q{v, -1};
    Key *present = nullptr;
    for (auto *x : m) if (cls(x->v) == cls(v)) present = x;
    switch (c.weighted({8, 5, 2, 1})) {
      case 0: {
        Key *k = present && c.chance(1, 3) ? present : mk(v);
        c.note("add %d%s", v, k == present ? " (the same object)" : present ? " (equal)" : "");
        cee_set_add(s, k);
        if (present) rep++; else m.push_back(k);
        break;
      }
      case 1: {
        c.note("remove %d", v);
        void *g = cee_set_remove(s, &q);
        CHECK(c, g == present, "remove-return", "removing %d returned %p, expected %p", v, g, (void *)present);
        if (present) { m.erase(std::find(m.begin(), m.end(), present)); rem++; }
        break;
      }
      case 2: CHECK(c, cee_set_find(s, &q) == present, "find", "find %d", v); break;
      default: if (c.chance(1, 3)) { c.note("clear"); cee_set_clear(s); m.clear(); } break;
    }
    check_set(c, s, m, lo, ops % 8 ? lo + 4 : hi);
    if (ops % 8 == 0) check_set_lists(c, s, m);
  }
  for (auto *x : m) { Key k{x->v, -1}; CHECK(c, cee_set_find(s, &k) == x, "find", "%d is lost", x->v); }
  check_set(c, s, m, lo, hi);
  check_set_lists(c, s, m);
  CHECK(c, cee_set_size(nullptr) == 0 && cee_set_empty(nullptr) && !cee_set_find(nullptr, &lo) && !cee_set_remove(nullptr, &lo), "null-set", "a null set is not empty");
  std::vector<void *> none;
  cee_set_iterate(nullptr, &none, set_cb);
  CHECK(c, none.empty(), "null-set", "iteration over a null set");
  if (ops >= 8 && rem && rep) c.nontrivial();
  st.done();
}
PROPERTY("C11", "large", 1, "Sets of up to 3000 elements in sorted, reversed, zigzag and random order, then half removed; all are looked up. Always non-trivial.") {
  State st(c);
  g_mode = c.coin() ? 0 : 2;
  Pool pool;
  int n = 200 + (int)c.draw(2800), pat = (int)c.draw(3), mul = 2 * (int)c.draw(500) + 1;
  struct cee_set *s = cee_set_mk_e(st.s, CEE_DP_NOOP, key_cmp);
  auto key = [&](int i) { return pat == 0 ? i : pat == 1 ? n - i : pat == 2 ? (i % 2 ? i : -i) : (int)(((int64_t)i * mul) % 4096); };
  std::map<int, void *> model;
  for (int i = 0; i < n; i++) { Key *k = pool.mk(key(i)); cee_set_add(s, k); model.insert({k->v, k}); }
  for (int r = 0; r < 2; r++) {
    CHECK(c, cee_set_size(s) == model.size(), "size", "size %zu, expected %zu", cee_set_size(s), model.size());
    for (int v = -n - 2; v < 4100; v++) { Key k{v, -1}; CHECK(c, cee_set_find(s, &k) == (model.count(v) ? model[v] : nullptr), "find", "%d", v); }
    if (r == 0)
      for (int i = 0; i < n; i += 1 + i % 3) {
        Key k{key(i), -1};
        CHECK(c, cee_set_remove(s, &k) == (model.count(k.v) ? model[k.v] : nullptr), "remove-return", "%d", k.v);
        model.erase(k.v);
      }
  }
  c.nontrivial();
  st.done();
}

// the copies are not declared by the header, a tree may do without them
extern "C" struct cee_set *cee_set_clone(struct cee_set *) __attribute__((weak));
extern "C" struct cee_set *cee_set_union_set(struct cee_state *, struct cee_set *, struct cee_set *) __attribute__((weak));
PROPERTY("C11", "copies", 6,
         "Clones and unions of two sets with common, equal and distinct elements, afterwards changed and deleted in any order, against a model; counted elements live as long as a set holds them. "
         "Non-trivial: both sets hold elements and one is equal in both.") {
  State st(c);
  g_mode = (int)c.draw(4);
  struct Set { struct cee_set *s; std::vector<Key *> m; bool live; };
  std::vector<Set> sets;
  int uid = 0, common = 0;
  auto mk = [&](int v) { Key *k = (Key *)cee_block_mk(st.s, sizeof(Key)); k->v = v; k->uid = uid++; return k; };
  auto in = [&](Set &x, int v) -> Key * { for (auto *k : x.m) if (cls(k->v) == cls(v)) return k; return nullptr; };
  int range = 2 + (int)c.draw(30);
  for (int i = 0; i < 2; i++) {
    sets.push_back({cee_set_mk(st.s, key_cmp), {}, true});
    while (c.more(8)) {
      int v = (int)c.draw(range);
      Key *k = i && !sets[0].m.empty() && c.chance(1, 3) ? c.of(sets[0].m) : mk(v);
      c.note("add %d to set %d", k->v, i);
      if (i && in(sets[0], k->v)) common++;
      Key *was = in(sets[i], k->v);
      cee_set_add(sets[i].s, k);
      if (!was) sets[i].m.push_back(k);
    }
  }
  auto held = [&](Key *k) { for (auto &x : sets) if (x.live) for (auto *y : x.m) if (y == k) return true; return false; };
  for (int step = 0; step < 2 + (int)c.draw(6); step++) {
    size_t i = c.index(sets.size()), j = c.index(sets.size());
    if (!sets[i].live || !sets[j].live) continue;
    switch (c.weighted({4, 4, 3, 3})) {
      case 0:
        if (!cee_set_clone) break;
        c.note("clone set %zu", i);
        if (c.coin()) {
          size_t live = pbt::mem::live();
          cee_del(cee_set_clone(sets[i].s));
          CHECK(c, pbt::mem::live() == live, "clone-residue", "making and deleting a clone left %zd blocks", (ssize_t)(pbt::mem::live() - live));
        }
        sets.push_back({cee_set_clone(sets[i].s), sets[i].m, true});
        break;
      case 1: {
        if (!cee_set_union_set) break;
        c.note("union of sets %zu and %zu", i, j);
        if (c.coin()) {  // one that is deleted at once leaves nothing behind
          size_t live = pbt::mem::live();
          cee_del(cee_set_union_set(st.s, sets[i].s, sets[j].s));
          CHECK(c, pbt::mem::live() == live, "union-residue", "making and deleting a union left %zd blocks", (ssize_t)(pbt::mem::live() - live));
        }
        Set u{cee_set_union_set(st.s, sets[i].s, sets[j].s), sets[i].m, true};
        for (auto *k : sets[j].m) if (!in(u, k->v)) u.m.push_back(k);
        sets.push_back(u);
        break;
      }
      case 2: {
        Key *k = mk((int)c.draw(range));
        c.note("add %d to set %zu", k->v, i);
        bool was = in(sets[i], k->v);
        cee_set_add(sets[i].s, k);
        if (!was) sets[i].m.push_back(k);
        break;
      }
      default: {
        if (sets[i].m.empty()) break;
        Key *k = c.of(sets[i].m);
        bool alone = true;
        for (size_t x = 0; x < sets.size(); x++) if (x != i && sets[x].live) for (auto *y : sets[x].m) if (y == k) alone = false;
        if (alone) break;
        c.note("remove %d from set %zu", k->v, i);
        CHECK(c, cee_set_remove(sets[i].s, k) == k, "remove-return", "%d", k->v);
        sets[i].m.erase(std::find(sets[i].m.begin(), sets[i].m.end(), k));
      }
    }
    for (auto &x : sets) { check_set(c, x.s, x.m, 0, range); check_set_lists(c, x.s, x.m); }
  }
  while (1) {
    std::vector<size_t> live;
    for (size_t i = 0; i < sets.size(); i++) if (sets[i].live) live.push_back(i);
    if (live.empty()) break;
    size_t i = c.of(live);
    c.note("delete set %zu", i);
    sets[i].live = false;
    cee_del(sets[i].s);
    // (an element also in a list that cee_set_values made keeps that list's reference)
    for (auto &x : sets) if (x.live) { check_set(c, x.s, x.m, 0, range); for (auto *k : x.m) CHECK(c, alive(k), "freed", "an element of a set was deleted with another set"); }
  }
  (void)held;
  if (common && sets[0].m.size() && sets[1].m.size()) c.nontrivial();
  st.done();
}

PROPERTY("C11", "copies_large", 1,
         "Clones and unions of sets of 100 to 6000 elements with more or fewer elements equal in both: the copy holds exactly the elements of both, the first set's one where two are equal, "
         "the originals stay as they were, the elements outlive the originals. Always non-trivial.") {
  if (!cee_set_clone || !cee_set_union_set) { c.nontrivial(); return; }
  State st(c);
  g_mode = 0;
  size_t n = 100 + c.draw(c.chance(1, 3) ? 5900 : 900), m = 100 + c.draw(c.chance(1, 3) ? 5900 : 900), shift = c.draw(n + 50);
  struct cee_set *a = cee_set_mk(st.s, key_cmp), *b = cee_set_mk(st.s, key_cmp);
  std::vector<Key *> ka, kb;
  auto at_b = [&](size_t i) { return shift + i * 7919 % m; };
  auto fill = [&](struct cee_set *s, std::vector<Key *> &ks, size_t count, size_t from) {
    for (size_t i = 0; i < count; i++) {
      Key *k = (Key *)cee_block_mk(st.s, sizeof(Key));
      k->v = (int)(from + i * 7919 % count);
      k->uid = (int)i;
      cee_set_add(s, k);
      ks.push_back(k);
    }
  };
  auto holds = [&](struct cee_set *s, const std::vector<Key *> &x, const std::vector<Key *> &y, size_t yfrom, const char *what) {
    // y's elements below yfrom have an equal one in x, and may be gone
    size_t want = x.size(), i = 0;
    for (auto *k : x) CHECK(c, alive(k) && cee_set_find(s, k) == k, "lost", "%s: %d is not held", what, k->v);
    for (auto *k : y) if (at_b(i++) >= yfrom) { want++; CHECK(c, alive(k) && cee_set_find(s, k) == k, "lost", "%s: %d of the second set is not held", what, k->v); }
    CHECK(c, cee_set_size(s) == want, "size", "%s: %zu elements, expected %zu", what, cee_set_size(s), want);
  };
  fill(a, ka, n, 0);
  fill(b, kb, m, shift);
  c.note("0..%zu and %zu..%zu", n - 1, shift, shift + m - 1);
  bool clone = c.chance(1, 3);
  struct cee_set *u = clone ? cee_set_clone(a) : cee_set_union_set(st.s, a, b);
  std::vector<Key *> none;
  auto all = [&](const char *what, bool ab) {
    holds(u, ka, clone ? none : kb, n, what);
    if (ab) { holds(a, ka, none, n, "first"); holds(b, kb, none, n, "second"); }
  };
  all("copy", true);
  bool first = c.coin();
  cee_del(first ? a : b);
  all("copy after a deletion", false);
  cee_del(first ? b : a);
  all("copy after both deletions", false);
  cee_del(u);
  CHECK(c, cee_block_mk(st.s, 8), "alloc", "no block");
  c.nontrivial();
  st.done();
}

// -------------------------------------------------------------- C12 stack
PROPERTY("C12", "lifo", 60,
         "Pushes, pops and accesses on stacks of capacity 0 to 40 against a bounded sequence, with counted and uncounted elements; several stacks side by side. "
         "Non-trivial: a push was refused or a pop found the stack empty, and 4 pushes succeeded.") {
  State st(c);
  size_t n = 1 + c.draw(1);
  std::vector<struct cee_stack *> s;
  std::vector<std::vector<void *>> m(n);
  std::vector<size_t> cap;
  bool rc = c.chance(1, 3);
  for (size_t i = 0; i < n; i++) {
    cap.push_back(c.weighted({4, 2}) ? c.draw(40) : c.draw(4));
    s.push_back(rc ? cee_stack_mk(st.s, cap[i]) : cee_stack_mk_e(st.s, CEE_DP_NOOP, cap[i]));
    c.note("stack %zu of %zu (%s)", i, cap[i], rc ? "RC" : "NOOP");
  }
  size_t next = 0, edge = 0, ok = 0;
  int bias = 2 + (int)c.draw(6);
  while (c.more(10 + c.size())) {
    size_t i = c.index(n);
    if (c.chance(bias, 8)) {
      void *e = rc ? (void *)cee_boxed_from_i64(st.s, (int64_t)next) : val(next);
      next++;
      c.note("push on %zu", i);
      int r = cee_stack_push(s[i], e);
      bool room = m[i].size() < cap[i];
      CHECK(c, room ? r != 0 : r == 0, "push", "pushing on %zu of %zu returned %d", m[i].size(), cap[i], r);
      if (room) { m[i].push_back(e); ok++; } else edge++;
    } else {
      c.note("pop %zu", i);
      void *e = cee_stack_pop(s[i]), *w = m[i].empty() ? nullptr : m[i].back();
      CHECK(c, e == w, "pop", "popped %p, expected %p", e, w);
      if (m[i].empty()) edge++; else m[i].pop_back();
    }
    for (size_t j = 0; j < n; j++) {
      CHECK(c, cee_stack_size(s[j]) == m[j].size(), "size", "size %zu, expected %zu", (size_t)cee_stack_size(s[j]), m[j].size());
      CHECK(c, cee_stack_empty(s[j]) == m[j].empty(), "empty", "with %zu elements", m[j].size());
      CHECK(c, cee_stack_full(s[j]) == (m[j].size() == cap[j]), "full", "with %zu of %zu", m[j].size(), cap[j]);
      for (size_t k = 0; k < cap[j] + 2; k++) {
        void *e = cee_stack_top(s[j], k), *w = k < m[j].size() ? m[j][m[j].size() - 1 - k] : nullptr;
        CHECK(c, e == w, "top", "element %zu from the top of %zu is %p, expected %p", k, m[j].size(), e, w);
      }
      CHECK(c, cee_stack_top(s[j], (size_t)-1) == nullptr, "top", "an absurd depth is not null");
    }
  }
  if (edge && ok >= 4) c.nontrivial();
  st.done();
}

// --------------------------------------------------------------- C13 dict
namespace {
void quiet_stderr() { static FILE *f = fopen("/dev/null", "w"); if (f) stderr = f; }
std::string dict_key(Case &c, int style) {
  std::string s;
  switch (style) {
    case 0: return std::string(1, (char)('a' + c.draw(25)));
    case 1: for (unsigned n = (unsigned)c.draw(6); n; n--) s += (char)c.range(1, 255); return s;
    case 2: for (unsigned n = 1 + (unsigned)c.draw(5); n; n--) s += c.coin() ? "Aa" : "BB"; return s;  // equal hashes for equal lengths
    case 3: return std::string(c.draw(300), 'q') + (char)('0' + c.draw(9));
    default: return "key" + std::to_string(c.draw(5000));
  }
}
}
PROPERTY("C13", "dictionary", 16,
         "Insertions of distinct, repeated, long, binary and colliding keys into dictionaries made for 0 to 40 entries, up to far beyond that; "
         "after each insertion all keys and some absent ones are looked up through copies of the key text. Non-trivial: 6 keys and one repeated, colliding or beyond the capacity.") {
  quiet_stderr();
  State st(c);
  size_t cap = c.weighted({3, 3, 1}) == 0 ? c.draw(3) : c.draw(40);
  struct cee_dict *d = c.coin() ? cee_dict_mk(st.s, cap) : cee_dict_mk_e(st.s, c.coin() ? CEE_DP_NOOP : CEE_DP_DEL_RC, cap);
  c.note("dict for %zu entries", cap);
  std::map<std::string, void *> m;
  int style = (int)c.draw(4);
  size_t rep = 0;
  unsigned mean = 8 + c.size() / 2;
  while (c.more(mean)) {
    std::string k = !m.empty() && c.chance(1, 8) ? m.begin()->first : dict_key(c, c.chance(1, 5) ? (int)c.draw(4) : style);
    void *v = cee_boxed_from_i64(st.s, (int64_t)m.size());
    c.note("add %s", pbt::quote(k).c_str());
    cee_dict_add(d, (char *)cee_str_mk(st.s, "%s", k.c_str()), v);
    if (!m.insert({k, v}).second) rep++;
    size_t i = 0;
    for (auto &kv : m) {
      if (m.size() > 40 && (++i + m.size()) % 7) continue;
      std::string q = kv.first;
      void *g = cee_dict_find(d, &q[0]);
      CHECK(c, g == kv.second, "find", "key %s finds %p, expected %p", pbt::quote(q).c_str(), g, kv.second);
    }
    std::string a = dict_key(c, style);
    if (!m.count(a)) CHECK(c, !cee_dict_find(d, &a[0]), "absent", "absent key %s is found", pbt::quote(a).c_str());
    a = k + "x";
    if (!m.count(a)) CHECK(c, !cee_dict_find(d, &a[0]), "absent", "absent key %s is found", pbt::quote(a).c_str());
  }
  for (auto &kv : m) { std::string q = kv.first; CHECK(c, cee_dict_find(d, &q[0]) == kv.second, "find", "key %s is lost", pbt::quote(q).c_str()); }
  if (m.size() >= 6 && (rep || m.size() > cap || style == 2)) c.nontrivial();
  st.done();
}
PROPERTY("C13", "large", 1, "Dictionaries of 100 to 4000 entries with sequential, colliding or non-ASCII keys; every key and as many absent ones are looked up. Always non-trivial.") {
  quiet_stderr();
  State st(c);
  size_t n = 100 + c.draw(3900), cap = c.pick<size_t>({0, 10, n / 2, n, 2 * n});
  bool coll = c.coin(), high = c.coin();
  auto text = [&](size_t i) {
    std::string s = high ? "\xff\x80" : "";
    if (coll) for (int b = 0; b < 12; b++) s += i >> b & 1 ? "Aa" : "BB";
    else s += "key" + std::to_string(i) + (high ? "\xc3\xa9" : "");
    return s;
  };
  if (coll) n = std::min<size_t>(n, 700);
  struct cee_dict *d = cee_dict_mk(st.s, cap);
  std::vector<void *> v(n);
  for (size_t i = 0; i < n; i++) { v[i] = cee_boxed_from_i64(st.s, (int64_t)i); cee_dict_add(d, (char *)cee_str_mk(st.s, "%s", text(i).c_str()), v[i]); }
  for (size_t i = 0; i < n; i++) { std::string q = text(i); CHECK(c, cee_dict_find(d, &q[0]) == v[i], "find", "key %zu of %zu", i, n); }
  for (size_t i = 0; i < n; i += 3) { std::string q = text(i) + "_"; CHECK(c, !cee_dict_find(d, &q[0]), "absent", "absent key found"); }
  c.nontrivial();
  st.done();
}

// ----------------------------------------------------------- C14 products
PROPERTY("C14", "products", 60,
         "A product of random kind, arity, components (repeats allowed where legal) and per-component policies; components, order and tag are read back, "
         "policies changed, collected, and the product deleted: each component must live or die by its policy. Non-trivial: two components with different fates, or a tag.") {
  State st(c);
  int kind = (int)c.draw(4);
  int n = kind == 0 ? 2 : kind == 1 ? 3 : kind == 2 ? 4 : kind == 3 ? (int)c.draw(16) : 1;
  bool dflt = kind == 3 || (kind != 2 && c.chance(1, 3));
  enum cee_del_policy p[16], made[16];
  void *e[16] = {0};
  int extra[16];
  std::vector<int> share(16, -1);
  struct cee_list *keep = cee_list_mk(st.s, 4);
  cee_state_add_gc_root(st.s, keep);
  for (int i = 0; i < n; i++) {
    p[i] = dflt ? CEE_DP_DEL_RC : c.pick({CEE_DP_DEL_RC, CEE_DP_DEL, CEE_DP_NOOP});
    made[i] = p[i];
    extra[i] = 0;
    int from = -1;
    if (p[i] == CEE_DP_DEL_RC && i && c.chance(1, 5)) { from = (int)c.index(i); if (p[from] != CEE_DP_DEL_RC || share[from] >= 0) from = -1; }
    if (from >= 0) { e[i] = e[from]; share[i] = from; }
    else {
      e[i] = c.coin() ? (void *)cee_str_mk(st.s, "c%d", i) : (void *)cee_list_mk(st.s, 2);
      if (p[i] != CEE_DP_DEL && c.chance(1, 3)) { extra[i] = 1; cee_list_append(keep, e[i]); }
    }
  }
  if (kind == 4 && c.chance(1, 6)) { e[0] = nullptr; p[0] = CEE_DP_NOOP; }
  uintptr_t tag = c.pick<uintptr_t>({0, 1, 7, 255, 65536, (uintptr_t)-1, (uintptr_t)1 << 40});
  void *x;
  switch (kind) {
    case 0: x = dflt ? cee_tuple_mk(st.s, e[0], e[1]) : cee_tuple_mk_e(st.s, p, e[0], e[1]); break;
    case 1: x = dflt ? cee_triple_mk(st.s, e[0], e[1], e[2]) : cee_triple_mk_e(st.s, p, e[0], e[1], e[2]); break;
    case 2: x = cee_quadruple_mk_e(st.s, p, e[0], e[1], e[2], e[3]); break;
    case 3: x = cee_n_tuple_mk(st.s, n, e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15]); break;
    default: x = dflt && e[0] ? cee_tagged_mk(st.s, tag, e[0]) : cee_tagged_mk_e(st.s, p[0], tag, e[0]); break;
  }
  static const char *PN[] = {"RC", "DEL", "NOOP"};
  static const char *KN[] = {"tuple", "triple", "quadruple", "n_tuple", "tagged"};
  std::string d;
  for (int i = 0; i < n; i++) d += std::string(" ") + PN[p[i]] + (share[i] >= 0 ? "(=" + std::to_string(share[i]) + ")" : extra[i] ? "(held)" : "");
  c.note("%s:%s", KN[kind], d.c_str());
  auto verify = [&](const char *when) {
    if (kind == 4) {
      struct cee_tagged *t = (struct cee_tagged *)x;
      CHECK(c, t->tag == tag && t->ptr._ == e[0], "tagged", "%s: tag %zu pointer %p, expected %zu %p", when, (size_t)t->tag, t->ptr._, (size_t)tag, e[0]);
    } else for (int i = 0; i < n; i++) CHECK(c, ((void **)x)[i] == e[i], "component", "%s: component %d of %d is %p, expected %p", when, i, n, ((void **)x)[i], e[i]);
  };
  verify("made");
  if (c.coin()) {
    cee_state_add_gc_root(st.s, x);
    int r = 1 + (int)c.draw(2);
    for (int i = 0; i < r; i++) cee_state_gc(st.s);
    cee_state_remove_gc_root(st.s, x);
    for (int i = 0; i < n; i++) if (e[i]) CHECK(c, alive(e[i]), "collected", "component %d was collected under a reachable product", i);
    verify("after collections");
  }
  if (kind == 0 && c.coin()) {
    int i = (int)c.draw(1);
    enum cee_del_policy np = c.pick({CEE_DP_DEL_RC, CEE_DP_DEL, CEE_DP_NOOP});
    bool legal = share[0] < 0 && share[1] < 0 && !extra[i] && !(p[i] == CEE_DP_DEL && np == CEE_DP_DEL_RC);
    if (legal) { c.note("policy of component %d becomes %s", i, PN[np]); cee_tuple_update_del_policy((struct cee_tuple *)x, i, np); p[i] = np; verify("after a policy change"); }
  }
  cee_del(x);
  CHECK(c, !alive(x), "not-freed", "the product itself");
  bool live = false, dead = false;
  for (int i = 0; i < n; i++) {
    if (!e[i]) continue;
    int root = share[i] >= 0 ? share[i] : i;
    bool want = p[root] == CEE_DP_NOOP || (p[root] == CEE_DP_DEL_RC && extra[root]);
    bool got = alive(e[i]);
    CHECK(c, got == want, want ? "freed-too-early" : "not-freed", "component %d (%s) is %s", i, PN[p[i]], got ? "still allocated" : "freed");
    (want ? live : dead) = true;
  }
  if ((live && dead) || kind == 4) c.nontrivial();
  cee_state_remove_gc_root(st.s, keep);
  st.done();
}
PROPERTY("C14", "singletons", 20,
         "Singletons in containers of every policy that allows them, dropped, deleted and collected repeatedly: tag and value never change. Non-trivial: 4 operations.") {
  static char mem[3][CEE_SINGLETON_SIZE] __attribute__((aligned(16)));
  State st(c);
  struct cee_singleton *s[3];
  uintptr_t tag[3], v[3];
  for (int i = 0; i < 3; i++) {
    tag[i] = c.draw(1000);
    v[i] = c.pick<uintptr_t>({0, 1, (uintptr_t)-1, 77});
    memset(mem[i], 0xEE, sizeof mem[i]);
    s[i] = cee_singleton_init(mem[i], tag[i], v[i]);
  }
  int ops = 0;
  std::vector<void *> open;
  while (c.more(15)) {
    ops++;
    struct cee_singleton *x = s[c.draw(2)];
    switch (c.draw(6)) {
      case 0: c.note("cee_del"); cee_del(x); break;
      case 1: c.note("cee_del_ref"); cee_del_ref(x); break;
      case 2: { c.note("list of it, deleted"); struct cee_list *l = cee_list_mk_e(st.s, c.coin() ? CEE_DP_DEL_RC : CEE_DP_DEL, 1); cee_list_append(l, x); cee_del(l); break; }
      case 3: { c.note("rooted tuple of it"); void *t = cee_tuple_mk(st.s, x, x); cee_state_add_gc_root(st.s, t); break; }
      case 4: c.note("gc"); cee_state_gc(st.s); break;
      case 5: { c.note("context"); cee_state_add_context(st.s, (char *)cee_str_mk(st.s, "c"), x); break; }
      default: { c.note("tagged, deleted"); cee_del(cee_tagged_mk(st.s, 1, x)); break; }
    }
    for (int i = 0; i < 3; i++) CHECK(c, s[i]->tag == tag[i] && s[i]->val == v[i], "singleton", "singleton %d changed", i);
  }
  if (ops >= 4) c.nontrivial();
  st.done();
  for (int i = 0; i < 3; i++) CHECK(c, s[i]->tag == tag[i] && s[i]->val == v[i], "singleton", "singleton %d changed with the state", i);
}

// --------------------------------------------------------------- C06 blocks
namespace {
struct Init { int calls; void *ctx, *block; size_t n; };
void init_cb(void *ctx, void *block) { Init *i = (Init *)ctx; i->calls++; i->ctx = ctx; i->block = block; memset(block, 0x5c, i->n); }
}
PROPERTY("C06", "blocks", 15,
         "Blocks of sizes 0 to 70000 (boundaries preferred) from all three constructors; each is filled with its own pattern, others are made, resized "
         "and deleted in between, and all patterns, sizes and rooms are checked. Non-trivial: three blocks, one of a non-zero size.") {
  State st(c);
  struct B { char *p; size_t n; unsigned char seed; };
  std::vector<B> bs;
  int zero = 0;
  auto verify = [&] {
    for (auto &b : bs) {
      CHECK(c, cee_block_size((struct cee_block *)b.p) == b.n, "size", "block of %zu reports %zu", b.n, cee_block_size((struct cee_block *)b.p));
      for (size_t i = 0; i < b.n; i++) CHECK(c, (unsigned char)b.p[i] == (unsigned char)(b.seed + i * 131), "overlap", "byte %zu of a block of %zu changed", i, b.n);
    }
  };
  while (c.more(10)) {
    size_t n;
    switch (c.weighted({4, 3, 2, 1})) {
      case 0: n = c.draw(20); break;
      case 1: n = c.pick<size_t>({0, 1, 63, 64, 65, 127, 128, 129, 255, 256, 4095, 4096, 4097}); break;
      case 2: n = c.draw(3000); break;
      default: n = c.draw(70000); break;
    }
    char *p;
    int how = (int)c.draw(2);
    c.note("block of %zu, constructor %d", n, how);
    if (how == 0) {
      p = (char *)cee_block_mk(st.s, n);
      for (size_t i = 0; i < n; i++) CHECK(c, p[i] == 0, "zero", "byte %zu of a zeroed block of %zu is %d", i, n, p[i]);
    } else if (how == 1) p = (char *)cee_block_mk_nonzero(st.s, n);
    else {
      Init in{0, nullptr, nullptr, n};
      p = (char *)cee_block_mk_e(st.s, n, &in, init_cb);
      CHECK(c, in.calls == 1 && in.ctx == &in && in.block == p, "initialiser", "called %d times with context %p and block %p, expected once with %p and %p", in.calls, in.ctx, in.block, (void *)&in, (void *)p);
      for (size_t i = 0; i < n; i++) CHECK(c, p[i] == 0x5c, "initialiser", "byte %zu was changed after the initialiser", i);
    }
    CHECK(c, n == 0 || pbt::mem::room_after(p) >= n, "room", "a block of %zu has room for %zu", n, pbt::mem::room_after(p));
    B b{p, n, (unsigned char)c.draw(255)};
    for (size_t i = 0; i < n; i++) p[i] = (char)(b.seed + i * 131);
    bs.push_back(b);
    if (n) zero++;
    switch (c.draw(5)) {
      case 0: { size_t i = c.index(bs.size()); c.note("delete block %zu", i); cee_del(bs[i].p); CHECK(c, !alive(bs[i].p - 1), "not-freed", "deleted block"); bs.erase(bs.begin() + i); break; }
      case 1: { struct cee_list *l = cee_list_mk(st.s, 1); for (auto &x : bs) cee_list_append(l, x.p); cee_state_add_gc_root(st.s, l); cee_state_gc(st.s); cee_state_gc(st.s); cee_state_remove_gc_root(st.s, l); c.note("collect"); break; }
      case 2: { struct cee_str *s = cee_str_mk(st.s, "x"); for (int i = 0; i < 5; i++) s = cee_str_catf(s, "%0100d", i); break; }
      default: break;
    }
    verify();
  }
  verify();
  if (bs.size() >= 3 && zero) c.nontrivial();
  st.done();
}

// -------------------------------------------------------- C16 environments
namespace {
struct Call { int n; struct cee_state *s; struct cee_env *e; size_t argc; void *args[8]; void *ret; };
Call g_call;
void *env_fun(struct cee_state *s, struct cee_env *e, size_t n, va_list ap) {
  g_call.n++;
  g_call.s = s;
  g_call.e = e;
  g_call.argc = n;
  for (size_t i = 0; i < n && i < 8; i++) g_call.args[i] = va_arg(ap, void *);
  return g_call.ret;
}
}
PROPERTY("C16", "environments", 50,
         "Chains and trees of up to 8 scopes with variable maps (some shared, some absent) edited at random; every name is looked up from every scope; "
         "closures are called with up to 8 arguments. Non-trivial: a name was shadowed or found in an outer scope, and a closure was called.") {
  State st(c);
  struct E { struct cee_env *p; int outer, vars; };
  std::vector<E> es;
  std::vector<struct cee_map *> maps;
  std::vector<std::map<std::string, void *>> mm;
  bool shadow = false, called = false;
  auto name = [&] { return std::string(1, (char)('a' + c.draw(3))); };
  auto lookup = [&](int i, const std::string &n) -> void * {
    int depth = 0;
    for (; i >= 0; i = es[i].outer, depth++) if (es[i].vars >= 0) { auto it = mm[es[i].vars].find(n); if (it != mm[es[i].vars].end()) { if (depth) shadow = true; return it->second; } }
    return nullptr;
  };
  while (c.more(25)) {
    switch (c.weighted({4, 6, 2, 3})) {
      case 0: {
        if (es.size() >= 8) break;
        E e;
        e.outer = es.empty() || c.chance(1, 5) ? -1 : (int)c.index(es.size());
        int m = (int)c.draw(3);
        if (m == 0 && !maps.empty() && c.chance(1, 2)) e.vars = (int)c.index(maps.size());
        else if (m == 1) e.vars = -1;
        else { maps.push_back(cee_map_mk(st.s, (cee_cmp_fun)strcmp)); mm.push_back({}); e.vars = (int)maps.size() - 1; }
        enum cee_del_policy np[2] = {CEE_DP_NOOP, CEE_DP_NOOP};
        struct cee_env *o = e.outer < 0 ? nullptr : es[e.outer].p;
        struct cee_map *v = e.vars < 0 ? nullptr : maps[e.vars];
        e.p = c.coin() ? cee_env_mk(st.s, o, v) : cee_env_mk_e(st.s, np, o, v);
        c.note("scope %zu: outer %d, variables %d", es.size(), e.outer, e.vars);
        es.push_back(e);
        break;
      }
      case 1: {
        if (maps.empty()) break;
        size_t i = c.index(maps.size());
        std::string n = name();
        void *v = cee_boxed_from_i64(st.s, 5);
        c.note("variables %zu: %s bound", i, n.c_str());
        cee_map_add(maps[i], cee_str_mk(st.s, "%s", n.c_str()), v);
        mm[i][n] = v;
        break;
      }
      case 2: {
        if (maps.empty()) break;
        size_t i = c.index(maps.size());
        std::string n = name();
        c.note("variables %zu: %s removed", i, n.c_str());
        cee_map_remove(maps[i], (void *)n.c_str());
        mm[i].erase(n);
        break;
      }
      default: {
        struct cee_env *e = es.empty() || c.chance(1, 6) ? nullptr : c.of(es).p;
        struct cee_closure *f = cee_closure_mk(st.s, e, (void *)env_fun);
        size_t n = c.draw(8);
        void *a[8];
        for (auto &x : a) x = val(c.draw(1000));
        memset(&g_call, 0, sizeof g_call);
        g_call.ret = val(c.draw(1000));
        void *r = cee_closure_call(st.s, f, n, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]);
        CHECK(c, g_call.n == 1, "closure", "the function was called %d times", g_call.n);
        CHECK(c, g_call.s == st.s && g_call.e == e && g_call.argc == n, "closure", "wrong state, environment or count (%zu, expected %zu)", g_call.argc, n);
        for (size_t i = 0; i < n; i++) CHECK(c, g_call.args[i] == a[i], "closure", "argument %zu of %zu", i, n);
        CHECK(c, r == g_call.ret, "closure", "wrong result");
        CHECK(c, f->env == e, "closure", "environment");
        called = true;
        if (c.coin()) cee_del(f);
      }
    }
    for (size_t i = 0; i < es.size(); i++)
      for (char ch = 'a'; ch <= 'e'; ch++) {
        std::string n(1, ch);
        void *g = cee_env_find(es[i].p, &n[0]), *w = lookup((int)i, n);
        CHECK(c, g == w, "lookup", "%s from scope %zu finds %p, expected %p", n.c_str(), i, g, w);
      }
  }
  std::string q = "a";
  CHECK(c, cee_env_find(nullptr, &q[0]) == nullptr, "lookup", "found in no scope");
  if (shadow && called) c.nontrivial();
  st.done();
}
PROPERTY("C16", "env_deletion", 25,
         "Environments over shared outer scopes and variable maps under all policies, some also held by a list, deleted one by one: what others still hold stays, "
         "the rest is freed. Non-trivial: something shared survived a deletion.") {
  State st(c);
  struct cee_list *keep = cee_list_mk(st.s, 4);
  struct cee_env *outer = cee_env_mk(st.s, nullptr, cee_map_mk(st.s, (cee_cmp_fun)strcmp));
  struct cee_map *vars = cee_map_mk(st.s, (cee_cmp_fun)strcmp);
  cee_map_add(vars, cee_str_mk(st.s, "n"), cee_str_mk(st.s, "v"));
  bool ho = c.coin(), hv = c.coin();
  if (ho) cee_list_append(keep, outer);
  if (hv) cee_list_append(keep, vars);
  struct E { struct cee_env *p; int op, vp; };
  std::vector<E> es;
  size_t n = 1 + c.draw(4);
  int ro = ho, rv = hv;
  bool dflt_any = false;
  for (size_t i = 0; i < n; i++) {
    enum cee_del_policy p[2] = {c.coin() ? CEE_DP_DEL_RC : CEE_DP_NOOP, c.coin() ? CEE_DP_DEL_RC : CEE_DP_NOOP};
    if (p[0] == CEE_DP_DEL_RC && p[1] == CEE_DP_DEL_RC && c.coin()) { es.push_back({cee_env_mk(st.s, outer, vars), 0, 0}); dflt_any = true; }
    else es.push_back({cee_env_mk_e(st.s, p, outer, vars), p[0], p[1]});
    ro += p[0] == CEE_DP_DEL_RC;
    rv += p[1] == CEE_DP_DEL_RC;
    c.note("scope with outer %s, variables %s", p[0] ? "NOOP" : "RC", p[1] ? "NOOP" : "RC");
  }
  bool ao = true, av = true;
  while (!es.empty()) {
    size_t i = c.index(es.size());
    if (es[i].op == CEE_DP_DEL_RC && --ro == 0) ao = false;
    if (es[i].vp == CEE_DP_DEL_RC && --rv == 0) av = false;
    cee_del(es[i].p);
    CHECK(c, !alive(es[i].p), "not-freed", "the deleted environment");
    es.erase(es.begin() + i);
    CHECK(c, alive(outer) == ao, ao ? "freed-too-early" : "not-freed", "outer scope with %d references left", ro);
    CHECK(c, alive(vars) == av, av ? "freed-too-early" : "not-freed", "variables with %d references left", rv);
    if (ao || av) c.nontrivial();
    // nobody may delete through a dead outer scope
    bool bad = false;
    for (auto &e : es) if ((!ao && e.op != CEE_DP_NOOP) || (!av && e.vp != CEE_DP_NOOP)) bad = true;
    if (bad) break;
    if (av) CHECK(c, cee_map_size(vars) == 1, "content", "variables changed");
  }
  (void)dflt_any;
  st.done();
}

// -------------------------------------------------------- C17 comparisons
namespace {
double avl(size_t n) { return 1.4405 * log2((double)n + 2); }
}
PROPERTY("C17", "comparisons", 12,
         "Histories of up to 2500 insertions and removals in sorted, reversed, zigzag, block-removal and random order on a map and a set; comparisons of each "
         "lookup are at most the height bound of an AVL tree of that size, of an insertion or set removal at most a small multiple. Non-trivial: 60 elements at some time.") {
  State st(c);
  g_mode = (int)c.pick({0, 1, 2});
  Pool pool;
  bool map = c.coin();
  struct cee_map *m = map ? cee_map_mk_e(st.s, NOOP2, key_cmp) : nullptr;
  struct cee_set *s = map ? nullptr : cee_set_mk_e(st.s, CEE_DP_NOOP, key_cmp);
  std::set<int> in;
  int phases = 1 + (int)c.draw(3), cursor = 0;
  size_t most = 0;
  auto put = [&](int v) {
    g_cmps = 0;
    if (map) cee_map_add(m, pool.mk(v), val(1)); else cee_set_add(s, pool.mk(v));
    CHECK(c, g_cmps <= 2 * avl(in.size()) + 3, "insert-comparisons", "%zu comparisons to insert among %zu", g_cmps, in.size());
    in.insert(v);
  };
  auto del = [&](int v) {
    Key k{v, -1};
    size_t n = in.size();
    g_cmps = 0;
    if (map) cee_map_remove(m, &k); else cee_set_remove(s, &k);
    if (!map) CHECK(c, g_cmps <= 3 * avl(n) + 3, "remove-comparisons", "%zu comparisons to remove among %zu", g_cmps, n);
    in.erase(v);
  };
  auto sweep = [&](int step) {
    for (int v : in) {
      if (step > 1 && v % step) continue;
      Key k{v, -1};
      g_cmps = 0;
      void *g = map ? cee_map_find(m, &k) : cee_set_find(s, &k);
      CHECK(c, g, "lost", "%d is not found", v);
      CHECK(c, g_cmps <= avl(in.size()) + 1, "lookup-comparisons", "%zu comparisons to find %d among %zu, at most %.1f expected", g_cmps, v, in.size(), avl(in.size()) + 1);
    }
    for (int v : {-5000000, 5000000, 17}) {
      Key k{v, -1};
      g_cmps = 0;
      map ? (void)cee_map_find(m, &k) : (void)cee_set_find(s, &k);
      CHECK(c, g_cmps <= avl(in.size()) + 1, "lookup-comparisons", "%zu comparisons to look for %d among %zu", g_cmps, v, in.size());
    }
  };
  for (int ph = 0; ph < phases; ph++) {
    int n = 1 << c.draw(9), kind = (int)c.draw(6);
    if (!map && ph == 0 && c.chance(1, 12)) { n = 4096 << c.draw(2); kind = (int)c.draw(2); }
    n += (int)c.draw(n);
    c.note("phase %d: kind %d, %d operations (%s)", ph, kind, n, map ? "map" : "set");
    for (int i = 0; i < n; i++) {
      switch (kind) {
        case 0: put(cursor++); break;
        case 1: put(-cursor++); break;
        case 2: put(i % 2 ? cursor++ : -cursor++); break;
        case 3: put((int)((int64_t)(cursor++) * 7919 % 100003)); break;
        case 4: if (!in.empty()) del(*in.begin()); break;
        case 5: if (!in.empty()) del(*in.rbegin()); break;
        default: if (!in.empty()) { auto it = in.lower_bound((int)((int64_t)i * 7919 % 100003)); del(it == in.end() ? *in.begin() : *it); } break;
      }
      if ((i & (i - 1)) == 0) sweep(in.size() > 100 ? 7 : 1);
    }
    most = std::max(most, in.size());
    sweep(1);
  }
  if (most >= 60) c.nontrivial();
  st.done();
}
PROPERTY("C17", "small_histories", 15,
         "Short random insertion and removal histories over 20 keys with all lookups checked against the height bound after every operation, on a map and a set. Non-trivial: 10 operations with a removal.") {
  State st(c);
  g_mode = (int)c.draw(2);
  Pool pool;
  struct cee_map *m = cee_map_mk_e(st.s, NOOP2, key_cmp);
  struct cee_set *s = cee_set_mk_e(st.s, CEE_DP_NOOP, key_cmp);
  std::set<int> in;
  int ops = 0, rem = 0, range = 8 + (int)c.draw(40);
  while (c.more(20 + c.size())) {
    int v = (int)c.draw(range);
    ops++;
    if (c.chance(3, 5)) { Key *k = pool.mk(v); cee_map_add(m, k, val(1)); cee_set_add(s, k); in.insert(v); c.note("+%d", v); }
    else { Key k{v, -1}; cee_map_remove(m, &k); cee_set_remove(s, &k); rem += (int)in.erase(v); c.note("-%d", v); }
    for (int q = -1; q <= range; q++) {
      Key k{q, -1};
      double bound = floor(avl(in.size()) - 0.3277 + 1e-9);  // the height of an AVL tree
      if (in.empty()) bound = 0;
      g_cmps = 0;
      void *a = cee_map_find(m, &k);
      CHECK(c, g_cmps <= bound + 1, "lookup-comparisons", "map: %zu comparisons for %d among %zu", g_cmps, q, in.size());
      g_cmps = 0;
      void *b = cee_set_find(s, &k);
      CHECK(c, g_cmps <= bound + 1, "lookup-comparisons", "set: %zu comparisons for %d among %zu", g_cmps, q, in.size());
      CHECK(c, !!a == !!in.count(q) && !!b == !!in.count(q), "lost", "%d", q);
    }
  }
  if (ops >= 10 && rem) c.nontrivial();
  st.done();
}
