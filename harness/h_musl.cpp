// C18: the search primitives against models of the standard functions.
#include "pbt.hpp"
#include "text.hpp"
extern "C" {
#define __restrict
#include "musl-search.h"
#undef __restrict
}
#include <algorithm>
#include <cmath>
using pbt::Case;
namespace {
struct K { int v; };
int kcmp(void *ctx, const void *a, const void *b) {
  ++*(size_t *)ctx;
  int x = ((K *)a)->v, y = ((K *)b)->v;
  return x < y ? -1 : x > y;
}
struct Visit { void *key; int which, depth; };
struct Walk { std::vector<Visit> v; };
void walk_cb(void *ctx, const void *node, VISIT w, int d) { ((Walk *)ctx)->v.push_back({*(void **)node, (int)w, d}); }
std::vector<void *> g_freed;
void free_cb(void *, void *k) { g_freed.push_back(k); }

// rebuilds the tree from the walk and checks that the visits describe one
struct Builder {
  Case &c;
  std::vector<Visit> &v;
  size_t i = 0;
  std::vector<void *> inorder;
  int maxdepth = -1;
  int tree(int d) {  // returns height
    CHECK(c, i < v.size(), "walk", "the walk ends in the middle of a tree");
    Visit x = v[i];
    CHECK(c, x.depth == d, "walk-depth", "a node at depth %d is reported at %d", d, x.depth);
    maxdepth = std::max(maxdepth, d);
    if (x.which == leaf) { i++; inorder.push_back(x.key); return 1; }
    CHECK(c, x.which == preorder, "walk-kind", "a node's first visit is of kind %d", x.which);
    i++;
    int l = 0, r = 0;
    CHECK(c, i < v.size(), "walk", "unfinished node");
    if (!(v[i].key == x.key && v[i].which == postorder)) l = tree(d + 1);
    CHECK(c, i < v.size() && v[i].key == x.key && v[i].which == postorder && v[i].depth == d, "walk-kind", "no second visit after the left subtree");
    i++;
    inorder.push_back(x.key);
    CHECK(c, i < v.size(), "walk", "unfinished node");
    if (!(v[i].key == x.key && v[i].which == endorder)) r = tree(d + 1);
    CHECK(c, i < v.size() && v[i].key == x.key && v[i].which == endorder && v[i].depth == d, "walk-kind", "no third visit after the right subtree");
    i++;
    CHECK(c, l || r, "walk-kind", "a node without children is not reported as a leaf");
    CHECK(c, abs(l - r) <= 1, "balance", "subtrees of heights %d and %d", l, r);
    return 1 + std::max(l, r);
  }
};
}  // namespace

PROPERTY("C18", "tree", 12,
         "tsearch, tfind, tdelete, twalk and tdestroy histories against std::map: returned nodes hold the right keys, walks are rebuilt into the tree and must be sorted, balanced "
         "and complete with the right visit kinds and depths. Non-trivial: 10 operations with a deletion of an inner node.") {
  void *root = nullptr;
  size_t n = 0, ops = 0, dels = 0;
  std::map<int, K *> m;
  std::vector<K *> pool;
  int range = (int)c.pick({5, 12, 40, 200});
  int pat = (int)c.draw(3), next = 0;
  while (c.more(15 + 2 * c.size())) {
    ops++;
    int v = pat == 1 ? next++ : pat == 2 ? -next++ : (int)c.draw(range);
    if (!m.empty() && c.chance(1, 3)) { auto it = m.lower_bound((int)c.draw(range)); v = it == m.end() ? m.begin()->first : it->first; }
    K q{v};
    n = 0;
    switch (c.weighted({6, 4, 3})) {
      case 0: {
        K *k = new K{v};
        pool.push_back(k);
        c.note("tsearch %d", v);
        if (c.chance(1, 12)) {  // no memory for a node: nothing changes
          pbt::mem::fail(1);
          void *r = musl_tsearch(&n, k, &root, kcmp);
          pbt::mem::fail(0);
          CHECK(c, m.count(v) ? r && *(K **)r == m[v] : !r, "tsearch", "tsearch %d without memory", v);
          n = 0;
          if (c.coin()) break;
        }
        void *r = musl_tsearch(&n, k, &root, kcmp);
        m.insert({v, k});
        CHECK(c, r && *(K **)r == m[v], "tsearch", "tsearch %d returned another node", v);
        break;
      }
      case 1: {
        c.note("tdelete %d", v);
        void *r = musl_tdelete(&n, &q, &root, kcmp);
        CHECK(c, !!r == !!m.count(v), "tdelete", "tdelete %d returned %p", v, r);
        if (m.erase(v)) dels++;
        break;
      }
      default: {
        void *r = musl_tfind(&n, &q, &root, kcmp);
        CHECK(c, m.count(v) ? r && *(K **)r == m[v] : !r, "tfind", "tfind %d", v);
      }
    }
    CHECK(c, n <= 1.4405 * log2(m.size() + 3.0) + 2, "comparisons", "%zu comparisons among %zu", n, m.size());
    Walk w;
    musl_twalk(&w, root, walk_cb);
    Builder b{c, w.v};
    if (!w.v.empty()) b.tree(0);
    CHECK(c, b.i == w.v.size(), "walk", "visits after the end of the tree");
    CHECK(c, b.inorder.size() == m.size(), "walk", "%zu nodes visited, expected %zu", b.inorder.size(), m.size());
    size_t i = 0;
    for (auto &kv : m) { CHECK(c, b.inorder[i] == kv.second, "walk-order", "node %zu in sorted order", i); i++; }
    CHECK(c, pbt::mem::live() == m.size(), "nodes", "%zu blocks for %zu nodes", pbt::mem::live(), m.size());
  }
  g_freed.clear();
  bool f = c.coin();
  musl_tdestroy(nullptr, root, f ? free_cb : nullptr);
  if (f) {
    std::set<void *> s(g_freed.begin(), g_freed.end());
    CHECK(c, g_freed.size() == m.size() && s.size() == m.size(), "tdestroy", "%zu keys passed, expected %zu", g_freed.size(), m.size());
    for (auto &kv : m) CHECK(c, s.count(kv.second), "tdestroy", "a key was not passed");
  }
  CHECK(c, pbt::mem::live() == 0, "leak", "%zu nodes left", pbt::mem::live());
  if (ops >= 10 && dels) c.nontrivial();
  for (auto *k : pool) delete k;
}

PROPERTY("C18", "tree_large", 1,
         "Trees of 1000 to 40000 keys inserted in sorted, reversed, zigzag, organ-pipe or scattered order, then thinned by whole stretches, every so many or nearly all keys: the walk is rebuilt "
         "into a tree before and after and must be balanced, sorted and complete; every lookup stays within the height bound. Always non-trivial.") {
  size_t n = 1000 + c.draw(c.chance(1, 3) ? 39000 : 7000), cmp = 0;
  int order = (int)c.draw(4), thin = (int)c.draw(3);
  c.note("%zu keys, order %d, thinned by %d", n, order, thin);
  std::vector<K> ks(n);
  for (size_t i = 0; i < n; i++) ks[i].v = (int)(2 * i);
  void *root = nullptr;
  std::vector<char> in(n, 0);
  size_t count = 0;
  auto put = [&](size_t i) {
    cmp = 0;
    void *r = musl_tsearch(&cmp, &ks[i], &root, kcmp);
    CHECK(c, r && *(K **)r == &ks[i], "tsearch", "inserting key %zu returned another node", i);
    if (!in[i]) { in[i] = 1; count++; }
    CHECK(c, cmp <= 1.4405 * log2(count + 3.0) + 2, "comparisons", "%zu comparisons to insert among %zu", cmp, count);
  };
  auto del = [&](size_t i) {
    if (i >= n || !in[i]) return;
    K q = ks[i];
    cmp = 0;
    CHECK(c, musl_tdelete(&cmp, &q, &root, kcmp), "tdelete", "key %zu is not found", i);
    CHECK(c, cmp <= 1.4405 * log2(count + 3.0) + 2, "comparisons", "%zu comparisons to delete among %zu", cmp, count);
    in[i] = 0;
    count--;
  };
  auto verify = [&] {
    Walk w;
    musl_twalk(&w, root, walk_cb);
    Builder b{c, w.v};
    if (!w.v.empty()) b.tree(0);
    CHECK(c, b.i == w.v.size() && b.inorder.size() == count, "walk", "%zu nodes visited, expected %zu", b.inorder.size(), count);
    size_t j = 0;
    for (size_t i = 0; i < n; i++) {
      if (in[i]) CHECK(c, b.inorder[j++] == &ks[i], "walk-order", "key %zu in sorted order", i);
      for (int d = 0; d < 2; d++) {
        K q{(int)(2 * i) + d};
        cmp = 0;
        void *r = musl_tfind(&cmp, &q, &root, kcmp);
        CHECK(c, d == 0 && in[i] ? r && *(K **)r == &ks[i] : !r, "tfind", "key %d", q.v);
        CHECK(c, cmp <= 1.4405 * log2(count + 3.0) + 1, "comparisons", "%zu comparisons to find among %zu", cmp, count);
      }
    }
    CHECK(c, pbt::mem::live() == count, "nodes", "%zu blocks for %zu nodes", pbt::mem::live(), count);
  };
  for (size_t i = 0; i < n; i++) {
    size_t j = i;
    if (order == 1) j = n - 1 - i;
    else if (order == 2) j = i % 2 ? i / 2 : n - 1 - i / 2;
    else if (order == 3) j = i < (n + 1) / 2 ? 2 * i : 2 * (n - i) - 1;
    else if (order == 4) j = (size_t)((unsigned long)i * 7919 % n);
    if (j < n) put(j);
  }
  verify();
  size_t from = c.index(n), len = c.draw(n), step = 2 + c.draw(6);
  for (size_t i = 0; i < n; i++) {
    if (thin == 0 && i >= from && i < from + len) del(i);
    if (thin == 1 && i % step) del(i);
    if (thin == 2 && i % 97) del(c.coin() ? i : n - 1 - i);
    if (thin == 3) { size_t j = i < n / 2 ? i : n - 1 - (i - n / 2); if (j % 50) del(j); }
  }
  verify();
  musl_tdestroy(nullptr, root, nullptr);
  CHECK(c, pbt::mem::live() == 0, "leak", "%zu nodes left", pbt::mem::live());
  c.nontrivial();
}

PROPERTY("C18", "hash", 20,
         "hcreate_r, hsearch_r and hdestroy_r (and the global table) with distinct, repeated and colliding keys against std::map, through several growths. Non-trivial: 12 keys.") {
  struct musl_hsearch_data h;
  memset(&h, 0, sizeof h);
  bool global = c.chance(1, 4);
  size_t cap = c.pick<size_t>({0, 1, 7, 8, 9, 100});
  CHECK(c, global ? musl_hcreate(cap) : musl_hcreate_r(cap, &h), "hcreate", "failed");
  c.note("table for %zu%s", cap, global ? " (global)" : "");
  std::map<std::string, void *> m;
  std::vector<char *> keys;
  bool coll = c.coin();
  auto key = [&] {
    std::string s;
    if (coll) for (int n = 1 + (int)c.draw(6); n; n--) s += c.coin() ? "Aa" : "BB";
    else for (int n = (int)c.draw(3); n >= 0; n--) s += (char)('a' + c.draw(7));
    return s;
  };
  auto search = [&](MUSL_ENTRY e, ACTION a, MUSL_ENTRY **r) { if (global) { *r = musl_hsearch(e, a); return *r != nullptr ? 1 : 0; } return musl_hsearch_r(e, a, r, &h); };
  size_t i = 0;
  while (c.more(30)) {
    std::string k = key();
    char *p = new char[k.size() + 1];
    strcpy(p, k.c_str());
    keys.push_back(p);
    MUSL_ENTRY e, *r = nullptr;
    e.key = p;
    e.data = (void *)++i;
    if (c.chance(2, 3)) {
      c.note("enter %s", p);
      if (c.chance(1, 4)) {  // no memory to grow: the entry is refused, or no growth was due
        pbt::mem::fail(1);
        int g = search(e, ENTER, &r);
        pbt::mem::fail(0);
        if (m.count(k)) CHECK(c, g && r && r->data == m[k], "enter", "entering %s again without memory", p);
        else if (!g) CHECK(c, !r && !search(e, FIND, &r), "enter", "%s was refused and is there", p);
        else { CHECK(c, r && r->data == e.data && k == r->key, "enter", "entering %s without memory", p); m.insert({k, e.data}); }
        if (c.coin()) continue;
      }
      CHECK(c, search(e, ENTER, &r) && r, "enter", "entering %s failed", p);
      m.insert({k, e.data});
      CHECK(c, k == r->key && r->data == m[k], "enter", "entering %s returned another entry", p);
    } else {
      int g = search(e, FIND, &r);
      CHECK(c, m.count(k) ? g && r && r->data == m[k] : !g && !r, "find", "finding %s", p);
    }
    for (auto &kv : m) {
      MUSL_ENTRY q;
      std::string copy = kv.first;
      q.key = &copy[0];
      q.data = nullptr;
      CHECK(c, search(q, FIND, &r) && r && r->data == kv.second, "find", "%s is lost", kv.first.c_str());
    }
  }
  if (m.size() >= 12) c.nontrivial();
  global ? musl_hdestroy() : musl_hdestroy_r(&h);
  CHECK(c, pbt::mem::live() == 0, "leak", "%zu blocks left", pbt::mem::live());
  for (auto *p : keys) delete[] p;
}

namespace {
size_t g_w;
int wcmp(const void *a, const void *b) { return memcmp(a, b, g_w); }
}
PROPERTY("C18", "hash_large", 1,
         "Tables of 100 to 3000 entries with sequential, colliding, long or non-ASCII keys; every key and as many absent ones are looked up, entries are changed through the "
         "returned pointers and looked up again. Always non-trivial.") {
  struct musl_hsearch_data h;
  memset(&h, 0, sizeof h);
  int style = (int)c.draw(3);
  size_t n = 100 + c.draw(style == 1 ? 400 : 2900), cap = c.pick<size_t>({0, 10, n / 2, n, 2 * n});
  CHECK(c, musl_hcreate_r(cap, &h), "hcreate", "failed");
  c.note("%zu keys of style %d in a table for %zu", n, style, cap);
  auto text = [&](size_t i) {
    std::string s;
    if (style == 0) s = "key" + std::to_string(i);
    else if (style == 1) for (int b = 0; b < 12; b++) s += i >> b & 1 ? "Aa" : "BB";
    else if (style == 2) s = std::to_string(i) + "\xc3\xa9\xff" + (char)(i % 251 + 1) + "\x80";
    else s = std::string(i % 100, 'x') + std::to_string(i);
    return s;
  };
  std::vector<std::string> keys(n);
  for (size_t i = 0; i < n; i++) keys[i] = text(i);
  MUSL_ENTRY e, *r;
  for (size_t i = 0; i < n; i++) {
    e.key = &keys[i][0];
    e.data = (void *)(i + 1);
    r = nullptr;
    CHECK(c, musl_hsearch_r(e, ENTER, &r, &h) && r && r->key == e.key && r->data == e.data, "enter", "entering key %zu gave another entry", i);
  }
  for (int round = 0; round < 2; round++)
    for (size_t i = 0; i < n; i++) {
      std::string q = text(i);
      e.key = &q[0];
      e.data = nullptr;
      r = nullptr;
      CHECK(c, musl_hsearch_r(e, i % 2 ? FIND : ENTER, &r, &h) && r && r->key == &keys[i][0] && r->data == (void *)(i + 1 + round * n), "find", "key %zu of %zu is lost", i, n);
      r->data = (void *)(i + 1 + n);
      q += "_";
      e.key = &q[0];
      CHECK(c, !musl_hsearch_r(e, FIND, &r, &h) && !r, "absent", "an absent key is found");
    }
  musl_hdestroy_r(&h);
  c.nontrivial();
}

PROPERTY("C18", "linear", 20,
         "lsearch and lfind on arrays of elements of 1 to 24 bytes against a vector; the array is exactly as large as needed. Non-trivial: 4 elements and one repeated.") {
  g_w = c.pick<size_t>({1, 2, 3, 4, 8, 12, 24});
  size_t max = 4 + c.draw(20), n = 0, rep = 0;
  char *a = new char[max * g_w];
  std::vector<std::string> m;
  c.note("elements of %zu bytes", g_w);
  while (m.size() < max && c.more(20)) {
    std::string k(g_w, 0);
    k[c.index(g_w)] = (char)c.draw(5);
    k[g_w - 1] = (char)(k[g_w - 1] + c.draw(3));
    char *kb = new char[g_w];
    memcpy(kb, k.data(), g_w);
    size_t at = std::find(m.begin(), m.end(), k) - m.begin();
    // what lies behind the elements does not matter
    if (n < max && c.coin()) memcpy(a + n * g_w, c.coin() || m.empty() ? k.data() : c.of(m).data(), g_w);
    if (c.chance(2, 3)) {
      c.note("lsearch %s", pbt::quote(k).c_str());
      void *r = musl_lsearch(kb, a, &n, g_w, wcmp);
      if (at == m.size()) m.push_back(k); else rep++;
      CHECK(c, r == a + at * g_w, "lsearch", "returned offset %td, expected element %zu", (char *)r - a, at);
    } else {
      void *r = musl_lfind(kb, a, &n, g_w, wcmp);
      CHECK(c, r == (at == m.size() ? nullptr : a + at * g_w), "lfind", "element %zu of %zu", at, m.size());
    }
    CHECK(c, n == m.size(), "count", "%zu elements, expected %zu", n, m.size());
    for (size_t i = 0; i < n; i++) CHECK(c, !memcmp(a + i * g_w, m[i].data(), g_w), "array", "element %zu changed", i);
    delete[] kb;
  }
  if (m.size() >= 4 && rep) c.nontrivial();
  delete[] a;
}

PROPERTY("C18", "linear_long", 1,
         "Arrays of 250 to 140000 elements of 1 to 8 bytes, lengths next to powers of two: the first, the last and some element in between are found by lfind and lsearch, an absent one is "
         "not found and is appended. Always non-trivial.") {
  g_w = c.pick<size_t>({3, 4, 5, 8});
  size_t n = text::edge(c), start = n;
  char *a = new char[(n + 2) * g_w];
  for (size_t i = 0; i < n + 2; i++) { unsigned long v = i + 1; memset(a + i * g_w, 0, g_w); memcpy(a + i * g_w, &v, 3); }
  c.note("%zu elements of %zu bytes", n, g_w);
  for (size_t at : {(size_t)0, n - 1, n / 2, (size_t)c.index(n)}) {
    std::string k(a + at * g_w, g_w);
    CHECK(c, musl_lfind(&k[0], a, &n, g_w, wcmp) == a + at * g_w, "lfind", "element %zu", at);
    CHECK(c, musl_lsearch(&k[0], a, &n, g_w, wcmp) == a + at * g_w && n == start, "lsearch", "element %zu", at);
  }
  std::string k(a + (n + 1) * g_w, g_w);
  CHECK(c, !musl_lfind(&k[0], a, &n, g_w, wcmp), "lfind", "an element behind the end is found");
  CHECK(c, musl_lsearch(&k[0], a, &n, g_w, wcmp) == a + start * g_w && n == start + 1 && !memcmp(a + start * g_w, k.data(), g_w), "lsearch", "the absent element was not put behind the last");
  delete[] a;
  c.nontrivial();
}

PROPERTY("C18", "queue", 20,
         "insque and remque on up to 12 elements in several linear or circular lists against vectors; all links are checked. Non-trivial: 6 operations with a removal.") {
  struct N { N *next, *prev; int id; };
  N nodes[12];
  std::vector<std::vector<int>> lists;
  std::vector<bool> circ;
  std::vector<int> where(12, -1);
  for (int i = 0; i < 12; i++) nodes[i] = {(N *)0x11, (N *)0x22, i};
  int ops = 0, rem = 0;
  while (c.more(25)) {
    int i = (int)c.draw(11);
    if (where[i] < 0) {
      ops++;
      if (lists.empty() || c.chance(1, 5)) {
        // a new list of one element
        bool ci = c.coin();
        if (ci) { nodes[i].next = nodes[i].prev = &nodes[i]; } else musl_insque(&nodes[i], nullptr);
        lists.push_back({i});
        circ.push_back(ci);
        where[i] = (int)lists.size() - 1;
        c.note("%d starts a %s list", i, ci ? "circular" : "linear");
      } else {
        int l = (int)c.index(lists.size());
        if (lists[l].empty()) continue;
        size_t at = c.index(lists[l].size());
        c.note("insert %d after %d", i, lists[l][at]);
        musl_insque(&nodes[i], &nodes[lists[l][at]]);
        lists[l].insert(lists[l].begin() + at + 1, i);
        where[i] = l;
      }
    } else {
      int l = where[i];
      if (lists[l].size() == 1 && circ[l]) continue;
      ops++;
      rem++;
      c.note("remove %d", i);
      musl_remque(&nodes[i]);
      lists[l].erase(std::find(lists[l].begin(), lists[l].end(), i));
      where[i] = -1;
    }
    for (size_t l = 0; l < lists.size(); l++) {
      auto &v = lists[l];
      for (size_t k = 0; k < v.size(); k++) {
        N *nx = k + 1 < v.size() ? &nodes[v[k + 1]] : circ[l] ? &nodes[v[0]] : nullptr;
        N *pv = k ? &nodes[v[k - 1]] : circ[l] ? &nodes[v.back()] : nullptr;
        CHECK(c, nodes[v[k]].next == nx && nodes[v[k]].prev == pv, "links", "links of element %d in list %zu", v[k], l);
      }
    }
  }
  if (ops >= 6 && rem) c.nontrivial();
}
