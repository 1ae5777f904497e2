// A reference model of object lifetimes (reference counts, delete policies,
// reachability) and an interpreter that performs the same operations on the
// library and on the model.
#pragma once
#include "pbt.hpp"
extern "C" {
#include "cee.h"
}
#include <algorithm>
#include <functional>
#include <string>
#include <vector>

namespace world {
using pbt::Case;

enum Kind { STR, BLOCK, BOXED, LIST, SET, MAP, STACK, TUPLE, TRIPLE, QUAD, NTUPLE, TAGGED, DICT, ENV, CLOSURE, SINGLE, CTX };
static const char *KN[] = {"str", "block", "boxed", "list", "set", "map", "stack", "tuple", "triple", "quadruple", "n_tuple", "tagged", "dict", "env", "closure", "singleton", "contexts"};
static const char *PN[] = {"RC", "DEL", "NOOP"};

struct Obj {
  int id = 0, st = 0;
  Kind k = STR;
  void *p = nullptr;
  uint64_t block = 0;    // the allocation it lives in
  bool alive = true;     // the model says its memory is allocated
  bool usable = true;    // the program may still use it
  bool stale = false;    // counts may be too high (referrer swept by gc): may outlive the model
  bool maybe = false;    // may or may not be allocated
  bool retained = false; // owned by an immediate-delete container
  bool rooted = false, reallocing = false;
  bool internal = false; // the state's own stack
  int rc = 0, ext = 0;
  int pol[16] = {0};
  size_t cap = 0;
  std::vector<int> e, v;  // elements / keys, values
  std::string content;
  bool dead_expected() const { return !alive && !maybe; }
};

struct Opts {
  bool del = true;      // container deletion
  bool gc = false;      // roots, contexts, collection
  int states = 1;
  bool grow = true;
  bool strict = true;   // freed-by-model means freed now
  bool shared_owner = false;  // objects that are counted and owned at once
};

struct World {
  Case &c;
  Opts o;
  std::vector<Obj> obj;
  std::vector<struct cee_state *> st;
  std::vector<int> ctx;  // object id of each state's contexts
  std::vector<int> sstack;  // and of its stack
  int gcs = 0, frees = 0, adds = 0, ops = 0, collected = 0;
  std::vector<int> last_gc;  // consecutive gcs without anything between, per state
  alignas(16) char single_mem[4][256];
  int singles = 0;

  World(Case &c_, Opts o_) : c(c_), o(o_) {}

  // ------------------------------------------------------------ helpers
  // (the byte before an object is in its header: objects may be empty)
  static bool al(void *p) { return pbt::mem::alive((char *)p - 1); }
  static bool al(const Obj &x) { return x.block && pbt::mem::id((char *)x.p - 1) == x.block; }
  static int pcmp(const void *a, const void *b) { return a < b ? -1 : a > b ? 1 : 0; }
  static int scmp(const void *a, const void *b) { return strcmp((const char *)a, (const char *)b); }
  std::string nm(int i) { return std::string(KN[obj[i].k]) + "#" + std::to_string(i); }
  int mk(Kind k, int s, void *p) {
    Obj x;
    x.id = (int)obj.size();
    x.k = k; x.st = s; x.p = p;
    x.block = p ? pbt::mem::id((char *)p - 1) : 0;
    obj.push_back(x);
    return x.id;
  }
  void new_state() {
    size_t cap = 1 + c.draw(20);
    struct cee_state *s = cee_state_mk(cap);
    st.push_back(s);
    int id = mk(CTX, (int)st.size() - 1, nullptr);
    ctx.push_back(id);
    id = mk(STACK, (int)st.size() - 1, s->stack);
    obj[id].cap = cap;
    obj[id].internal = true;
    sstack.push_back(id);
    last_gc.push_back(0);
    c.note("state %d created", (int)st.size() - 1);
  }
  struct Edge { int to, pol; bool key; };
  std::vector<Edge> edges(int i) {
    std::vector<Edge> r;
    Obj &x = obj[i];
    switch (x.k) {
      case LIST: case STACK: case SET: for (int t : x.e) r.push_back({t, x.pol[0], false}); break;
      case MAP: case CTX: for (size_t j = 0; j < x.e.size(); j++) { r.push_back({x.e[j], x.pol[0], true}); r.push_back({x.v[j], x.pol[1], false}); } break;
      case DICT: for (size_t j = 0; j < x.e.size(); j++) { int pl = x.pol[0] == CEE_DP_NOOP ? CEE_DP_NOOP : CEE_DP_DEL_RC; r.push_back({x.e[j], pl, true}); r.push_back({x.v[j], pl, false}); } break;
      case TUPLE: case TRIPLE: case QUAD: case NTUPLE: case TAGGED: case ENV:
        for (size_t j = 0; j < x.e.size(); j++) if (x.e[j] >= 0) r.push_back({x.e[j], x.pol[j], false});
        break;
      case CLOSURE: if (!x.e.empty() && x.e[0] >= 0) r.push_back({x.e[0], CEE_DP_NOOP, false}); break;
      default: break;
    }
    return r;
  }
  bool reaches(int from, int to) {
    std::vector<char> seen(obj.size());
    return reaches(from, to, seen);
  }
  bool reaches(int from, int to, std::vector<char> &seen) {
    if (from == to) return true;
    if (seen[from]) return false;
    seen[from] = 1;
    for (auto &e : edges(from)) if (obj[e.to].usable && reaches(e.to, to, seen)) return true;
    return false;
  }
  double paths(int i, std::vector<double> &memo) {
    if (memo[i] >= 0) return memo[i];
    double n = 1;
    for (auto &e : edges(i)) n += paths(e.to, memo);
    return memo[i] = n;
  }
  double total_paths() {
    std::vector<double> memo(obj.size(), -1);
    double n = 0;
    for (auto &x : obj) if (x.usable) n = std::max(n, paths(x.id, memo));
    return n;
  }
  std::vector<int> usable(int s, std::function<bool(Obj &)> f) {
    std::vector<int> r;
    for (auto &x : obj) if (x.usable && x.k != CTX && (x.st == s || x.k == SINGLE) && f(x)) r.push_back(x.id);
    return r;
  }
  bool referenced(int i) {
    for (auto &x : obj) if (x.usable && (x.alive || x.k == CTX)) for (auto &e : edges(x.id)) if (e.to == i) return true;
    return false;
  }

  // model of counting
  void incr(int i, int pol) {
    Obj &x = obj[i];
    if (pol == CEE_DP_DEL_RC) { if (!x.retained) x.rc++; }
    else if (pol == CEE_DP_DEL) x.retained = true;
  }
  void decr(int i, int pol) {
    Obj &x = obj[i];
    if (pol == CEE_DP_DEL_RC) { if (!x.retained && x.rc > 0) x.rc--; }
    else if (pol == CEE_DP_DEL) x.retained = false;
  }
  void mark_stale(int i) {
    obj[i].stale = true;
    for (auto &e : edges(i)) if (!obj[e.to].stale) mark_stale(e.to);
  }
  void model_free(int i) {
    Obj &x = obj[i];
    if (x.k == SINGLE || !x.alive) return;
    x.alive = false;
    x.usable = false;
    frees++;
    if (x.stale) {
      x.maybe = true;
      for (auto &e : edges(i)) mark_stale(e.to);
    }
    for (auto &e : edges(i)) release(e.to, e.pol);
  }
  void release(int i, int pol) {
    Obj &x = obj[i];
    if (pol == CEE_DP_DEL_RC) {
      if (x.rc > 0) x.rc--;
      if (x.retained) return;
      if (x.rc == 0) model_free(i);
    } else if (pol == CEE_DP_DEL) model_free(i);
  }
  // would freeing `i` be legal: nothing else the program can still use may point at what dies
  bool can_free(int i) {
    World *w = this;
    std::vector<Obj> save = obj;
    int f = frees;
    w->model_free(i);
    bool ok = true;
    for (auto &x : obj) {
      if (!x.usable && save[x.id].usable && save[x.id].rooted) ok = false;
      if (x.usable) for (auto &e : edges(x.id)) if (!obj[e.to].usable && save[e.to].usable) ok = false;
      if (!x.usable && save[x.id].usable && save[x.id].ext > 0) ok = false;
      // an owner takes its objects along: nothing may still count them then, not even what dies with them
      if (!x.alive && save[x.id].alive && save[x.id].retained && save[x.id].rc > 0) ok = false;
    }
    obj = save;
    frees = f;
    return ok;
  }
  bool addable(int e, int pol, int container) {
    Obj &x = obj[e];
    if (!x.usable || x.k == CTX || x.internal) return false;
    if (container >= 0 && reaches(e, container)) return false;
    // (an object may be counted by some containers and owned by one; it is then freed with its owner)
    if (pol == CEE_DP_DEL) return x.k != SINGLE && (o.shared_owner || (x.rc == 0 && !referenced(e))) && !x.retained && x.ext == 0 && !x.stale && !x.rooted;
    if (pol == CEE_DP_DEL_RC) return !x.retained;
    return true;
  }
  // giving up a counted reference on an owned object other than by deletion is outside the contract
  bool uneven(int e, int pol) { return e >= 0 && pol == CEE_DP_DEL_RC && obj[e].retained; }
  std::vector<int> cands(int s, int pol, int container, bool keys = false) {
    return usable(s, [&](Obj &x) { return (!keys || x.k == STR) && addable(x.id, pol, container); });
  }

  // -------------------------------------------------------------- checks
  void check_alive(const char *when) {
    for (auto &x : obj) {
      if (x.k == CTX || x.k == SINGLE || x.maybe) continue;
      bool a = al(x);
      if (x.alive && !a) c.fail("freed-too-early", "%s was freed by: %s", nm(x.id).c_str(), when);
      if (!x.alive && a && o.strict) c.fail("not-freed", "%s should have been freed by: %s", nm(x.id).c_str(), when);
    }
  }
  void verify(int i) {
    Obj &x = obj[i];
    if (!x.usable) return;
    std::string n = nm(i);
    auto P = [&](int j) { return j < 0 ? nullptr : obj[j].p; };
    switch (x.k) {
      case STR: CHECK(c, x.content == (char *)x.p, "content", "%s holds %s, expected %s", n.c_str(), pbt::quote((char *)x.p).c_str(), pbt::quote(x.content).c_str()); break;
      case BLOCK: CHECK(c, cee_block_size((struct cee_block *)x.p) == x.content.size() && !memcmp(x.p, x.content.data(), x.content.size()), "content", "%s changed", n.c_str()); break;
      case BOXED: CHECK(c, std::to_string(cee_boxed_to_i64((struct cee_boxed *)x.p)) == x.content, "content", "%s changed", n.c_str()); break;
      case LIST: {
        struct cee_list *l = (struct cee_list *)x.p;
        CHECK(c, cee_list_size(l) == x.e.size(), "content", "%s has size %zu, expected %zu", n.c_str(), cee_list_size(l), x.e.size());
        for (size_t j = 0; j < x.e.size(); j++) CHECK(c, l->a[j] == P(x.e[j]), "content", "%s[%zu] is not %s", n.c_str(), j, nm(x.e[j]).c_str());
        break;
      }
      case STACK: {
        struct cee_stack *s = (struct cee_stack *)x.p;
        CHECK(c, cee_stack_size(s) == x.e.size(), "content", "%s size", n.c_str());
        for (size_t j = 0; j < x.e.size(); j++) CHECK(c, cee_stack_top(s, j) == P(x.e[x.e.size() - 1 - j]), "content", "%s top %zu", n.c_str(), j);
        break;
      }
      case SET: {
        struct cee_set *s = (struct cee_set *)x.p;
        CHECK(c, cee_set_size(s) == x.e.size(), "content", "%s size %zu, expected %zu", n.c_str(), cee_set_size(s), x.e.size());
        for (int t : x.e) CHECK(c, cee_set_find(s, P(t)) == P(t), "content", "%s does not find %s", n.c_str(), nm(t).c_str());
        break;
      }
      case MAP: {
        struct cee_map *m = (struct cee_map *)x.p;
        CHECK(c, cee_map_size(m) == x.e.size(), "content", "%s size %zu, expected %zu", n.c_str(), (size_t)cee_map_size(m), x.e.size());
        for (size_t j = 0; j < x.e.size(); j++) CHECK(c, cee_map_find(m, P(x.e[j])) == P(x.v[j]), "content", "%s value of key %s", n.c_str(), obj[x.e[j]].content.c_str());
        break;
      }
      case CTX:
        for (size_t j = 0; j < x.e.size(); j++) CHECK(c, cee_state_get_context(st[x.st], (char *)P(x.e[j])) == P(x.v[j]), "context", "context %s of state %d", obj[x.e[j]].content.c_str(), x.st);
        break;
      case DICT:
        for (size_t j = 0; j < x.e.size(); j++) {
          size_t first = 0;
          while (obj[x.e[first]].content != obj[x.e[j]].content) first++;
          CHECK(c, cee_dict_find((struct cee_dict *)x.p, (char *)P(x.e[j])) == P(x.v[first]), "content", "%s value of key %s", n.c_str(), obj[x.e[j]].content.c_str());
        }
        break;
      case TUPLE: case TRIPLE: case QUAD: case NTUPLE:
        for (size_t j = 0; j < x.e.size(); j++) CHECK(c, ((void **)x.p)[j] == P(x.e[j]), "content", "%s component %zu", n.c_str(), j);
        break;
      case TAGGED: CHECK(c, ((struct cee_tagged *)x.p)->ptr._ == P(x.e[0]) && ((struct cee_tagged *)x.p)->tag == x.cap, "content", "%s", n.c_str()); break;
      case ENV: CHECK(c, ((struct cee_env *)x.p)->outer == P(x.e[0]) && ((struct cee_env *)x.p)->vars == P(x.e[1]), "content", "%s", n.c_str()); break;
      case CLOSURE: CHECK(c, ((struct cee_closure *)x.p)->env == P(x.e[0]), "content", "%s", n.c_str()); break;
      case SINGLE: CHECK(c, ((struct cee_singleton *)x.p)->val == x.cap, "content", "%s", n.c_str()); break;
    }
  }
  void verify_all(int only_state = -1) { for (size_t i = 0; i < obj.size(); i++) if (only_state < 0 || obj[i].st == only_state) verify((int)i); }

  // -------------------------------------------------------------- operations
  int new_str(int s, const std::string &t) {
    int i = mk(STR, s, cee_str_mk(st[s], "%s", t.c_str()));
    obj[i].content = t;
    c.note("%s = \"%s\" (state %d)", nm(i).c_str(), t.c_str(), s);
    return i;
  }
  std::string key_text() { return std::string("k") + char('a' + c.draw(7)); }
  int new_leaf(int s) {
    switch (c.weighted({6, 2, 2, 1})) {
      case 0: return new_str(s, c.coin() ? key_text() : std::string(c.draw(70), 'x'));
      case 1: {
        size_t n = c.draw(80);
        char *b = (char *)cee_block_mk(st[s], n);
        std::string t(n, 0);
        for (size_t j = 0; j < n; j++) { CHECK(c, b[j] == 0, "block-zero", "byte %zu of a new block is %d", j, b[j]); t[j] = b[j] = (char)(j * 7 + obj.size()); }
        int i = mk(BLOCK, s, b);
        obj[i].content = t;
        c.note("%s = block of %zu", nm(i).c_str(), n);
        return i;
      }
      case 2: {
        int64_t v = (int64_t)c.draw(1000) - 500;
        int i = mk(BOXED, s, cee_boxed_from_i64(st[s], v));
        obj[i].content = std::to_string(v);
        c.note("%s = %s", nm(i).c_str(), obj[i].content.c_str());
        return i;
      }
      default: {
        if (singles >= 4) return new_str(s, "s");
        void *sm = single_mem[singles++];
        int i = mk(SINGLE, s, cee_singleton_init(sm, 7, 40 + singles));
        obj[i].cap = 40 + singles;
        c.note("%s", nm(i).c_str());
        return i;
      }
    }
  }
  int pol() { return c.weighted({5, 2, 3}); }
  static void *noop_fun(struct cee_state *, struct cee_env *, size_t, va_list) { return nullptr; }

  void new_container(int s) {
    int what = c.weighted({4, 3, 4, 2, 2, 1, 1, 2, 2, 1, 2, 1});
    static const Kind KS[] = {LIST, MAP, SET, STACK, TUPLE, TRIPLE, QUAD, NTUPLE, TAGGED, DICT, ENV, CLOSURE};
    Kind k = KS[what];
    if (what > 3 && total_paths() > 1500) { new_leaf(s); return; }  // walking a graph visits every path
    enum cee_del_policy pl[16];
    int arity = 0;
    for (int j = 0; j < 16; j++) pl[j] = CEE_DP_DEL_RC;
    switch (k) {
      case LIST: {
        int p0 = pol();
        int i = mk(LIST, s, p0 == 0 && c.coin() ? cee_list_mk(st[s], c.draw(4)) : cee_list_mk_e(st[s], (enum cee_del_policy)p0, c.draw(4)));
        obj[i].pol[0] = p0;
        c.note("%s = list(%s)", nm(i).c_str(), PN[p0]);
        return;
      }
      case SET: {
        int p0 = pol();
        int i = mk(SET, s, p0 == 0 && c.coin() ? cee_set_mk(st[s], pcmp) : cee_set_mk_e(st[s], (enum cee_del_policy)p0, pcmp));
        obj[i].pol[0] = p0;
        c.note("%s = set(%s)", nm(i).c_str(), PN[p0]);
        return;
      }
      case MAP: {
        enum cee_del_policy mp[2] = {(enum cee_del_policy)pol(), (enum cee_del_policy)pol()};
        bool dflt = mp[0] == 0 && mp[1] == 0 && c.coin();
        int i = mk(MAP, s, dflt ? cee_map_mk(st[s], scmp) : cee_map_mk_e(st[s], mp, scmp));
        obj[i].pol[0] = mp[0];
        obj[i].pol[1] = mp[1];
        c.note("%s = map(%s,%s)", nm(i).c_str(), PN[mp[0]], PN[mp[1]]);
        return;
      }
      case STACK: {
        int p0 = pol();
        size_t cap = c.draw(5);
        int i = mk(STACK, s, p0 == 0 && c.coin() ? cee_stack_mk(st[s], cap) : cee_stack_mk_e(st[s], (enum cee_del_policy)p0, cap));
        obj[i].pol[0] = p0;
        obj[i].cap = cap;
        c.note("%s = stack(%s, capacity %zu)", nm(i).c_str(), PN[p0], cap);
        return;
      }
      case DICT: {
        int p0 = pol();
        size_t cap = c.draw(6);
        int i = mk(DICT, s, p0 == 0 && c.coin() ? cee_dict_mk(st[s], cap) : cee_dict_mk_e(st[s], (enum cee_del_policy)p0, cap));
        obj[i].pol[0] = p0;
        obj[i].cap = cap;
        c.note("%s = dict(%s, %zu)", nm(i).c_str(), PN[p0], cap);
        return;
      }
      case TUPLE: arity = 2; break;
      case TRIPLE: arity = 3; break;
      case QUAD: arity = 4; break;
      case NTUPLE: arity = (int)c.draw(16); break;
      case TAGGED: arity = 1; break;
      case ENV: arity = 2; break;
      case CLOSURE: arity = 1; break;
      default: break;
    }
    std::vector<int> els;
    bool dflt = c.coin();
    for (int j = 0; j < arity; j++) {
      pl[j] = k == NTUPLE || dflt ? CEE_DP_DEL_RC : (enum cee_del_policy)pol();
      std::vector<int> cs;
      for (int x : cands(s, pl[j], -1)) {
        if (k == ENV && obj[x].k != (j == 0 ? ENV : MAP)) continue;
        if (k == CLOSURE && obj[x].k != ENV) continue;
        // a component owned immediately must appear only once in the product
        if (std::count(els.begin(), els.end(), x)) {
          bool del = pl[j] == CEE_DP_DEL;
          for (size_t q = 0; q < els.size(); q++) if (els[q] == x && pl[q] == CEE_DP_DEL) del = true;
          if (del) continue;
        }
        cs.push_back(x);
      }
      bool null_ok = k == TAGGED || k == ENV || k == CLOSURE;
      if (cs.empty() || (null_ok && c.chance(1, 5))) {
        if (null_ok) { els.push_back(-1); continue; }
        if (pl[j] == CEE_DP_DEL) pl[j] = CEE_DP_DEL_RC;
        int nl = new_str(s, "fresh");
        els.push_back(nl);
        continue;
      }
      els.push_back(c.of(cs));
    }
    auto P = [&](int j) { return els[j] < 0 ? nullptr : obj[els[j]].p; };
    void *p = nullptr;
    size_t tag = c.draw(100);
    switch (k) {
      case TUPLE: p = dflt ? cee_tuple_mk(st[s], P(0), P(1)) : cee_tuple_mk_e(st[s], pl, P(0), P(1)); break;
      case TRIPLE: p = dflt ? cee_triple_mk(st[s], P(0), P(1), P(2)) : cee_triple_mk_e(st[s], pl, P(0), P(1), P(2)); break;
      case QUAD: p = cee_quadruple_mk_e(st[s], pl, P(0), P(1), P(2), P(3)); break;
      case NTUPLE: {
        void *a[16] = {0};
        for (int j = 0; j < arity; j++) a[j] = P(j);
        p = cee_n_tuple_mk(st[s], arity, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15]);
        break;
      }
      case TAGGED: p = dflt ? cee_tagged_mk(st[s], tag, P(0)) : cee_tagged_mk_e(st[s], pl[0], tag, P(0)); break;
      case ENV: p = dflt ? cee_env_mk(st[s], (struct cee_env *)P(0), (struct cee_map *)P(1)) : cee_env_mk_e(st[s], pl, (struct cee_env *)P(0), (struct cee_map *)P(1)); break;
      case CLOSURE: p = cee_closure_mk(st[s], (struct cee_env *)P(0), (void *)noop_fun); break;
      default: break;
    }
    int i = mk(k, s, p);
    obj[i].e = els;
    obj[i].cap = tag;
    std::string d;
    for (int j = 0; j < arity; j++) {
      obj[i].pol[j] = pl[j];
      if (els[j] >= 0) {
        d += " " + nm(els[j]) + ":" + PN[pl[j]];
        if (k != CLOSURE) incr(els[j], pl[j]);
      } else d += " null";
    }
    adds++;
    c.note("%s = %s(%s )", nm(i).c_str(), KN[k], d.c_str());
    if (total_paths() > 5000) c.note("(many paths)");
  }

  // what: the value the merge callback chooses for a key that is there (-1: the new one)
  void *map_put_model(int m, int key, int val, int what = -1) {
    Obj &x = obj[m];
    size_t at = 0;
    while (at < x.e.size() && obj[x.e[at]].content != obj[key].content) at++;
    if (at == x.e.size()) {
      x.e.push_back(key);
      x.v.push_back(val);
      incr(key, x.pol[0]);
      incr(val, x.pol[1]);
      return nullptr;
    }
    int old = x.v[at], oldkey = x.e[at];
    if (what >= 0) val = what;
    if (old != val) {
      x.v[at] = val;
      incr(val, x.pol[1]);
      decr(old, x.pol[1]);
    }
    // the duplicate key is not kept: it is given up as an element would be
    if (key != oldkey) {
      if (x.pol[0] == CEE_DP_DEL_RC) { obj[key].rc++; release(key, CEE_DP_DEL_RC); }
      else if (x.pol[0] == CEE_DP_DEL) model_free(key);
    }
    return obj[old].p;
  }
  // merging and cloning whole containers
  void merge(int s) {
    auto cs = usable(s, [&](Obj &x) { return x.k == LIST || x.k == MAP; });
    if (cs.empty() || total_paths() > 1500) return;
    int src = c.of(cs);
    if (obj[src].k == MAP && c.chance(1, 3)) {
      if (obj[src].pol[0] == CEE_DP_DEL || obj[src].pol[1] == CEE_DP_DEL) return;
      for (auto &e : edges(src)) if (uneven(e.to, e.pol)) return;
      c.note("clone %s", nm(src).c_str());
      int i = mk(MAP, s, cee_map_clone((struct cee_map *)obj[src].p));
      obj[i].pol[0] = obj[src].pol[0];
      obj[i].pol[1] = obj[src].pol[1];
      auto e = obj[src].e, v = obj[src].v;
      for (size_t j = 0; j < e.size(); j++) map_put_model(i, e[j], v[j]);
      verify(i);
      return;
    }
    auto ds = usable(s, [&](Obj &x) { return x.k == obj[src].k && x.id != src; });
    if (ds.empty()) return;
    int d = c.of(ds);
    Obj &x = obj[src];
    for (size_t j = 0; j < x.e.size(); j++) {
      if (x.k == LIST && !addable(x.e[j], obj[d].pol[0], d)) return;
      if (x.k == MAP && (!key_addable(d, x.e[j]) || !val_addable(d, x.v[j]))) return;
      if (obj[d].pol[0] == CEE_DP_DEL || (x.k == MAP && obj[d].pol[1] == CEE_DP_DEL)) return;  // would be owned twice
    }
    c.note("merge %s into %s", nm(src).c_str(), nm(d).c_str());
    adds += (int)x.e.size();
    if (x.k == LIST) {
      cee_list_merge((struct cee_list *)obj[d].p, (struct cee_list *)x.p);
      for (int e : x.e) { obj[d].e.push_back(e); incr(e, obj[d].pol[0]); }
    } else {
      cee_map_merge((struct cee_map *)obj[d].p, (struct cee_map *)x.p, nullptr, nullptr);
      auto e = x.e, v = x.v;
      for (size_t j = 0; j < e.size(); j++) map_put_model(d, e[j], v[j]);
    }
    verify(src);
    verify(d);
  }

  // adding a key/value pair to a map-like thing; returns through the model
  void map_put(int m, int key, int val) {
    Obj &x = obj[m];
    bool dup = false;
    int old = -1, what = -1;
    for (size_t j = 0; j < x.e.size(); j++) if (obj[x.e[j]].content == obj[key].content) dup = true, old = x.v[j];
    struct Pick { void *give, *old, *neu; int n; } pick{nullptr, nullptr, nullptr, 0};
    if (x.k == MAP && dup && x.pol[1] != CEE_DP_DEL && c.coin()) {
      auto ws = usable(x.st, [&](Obj &y) { return y.id != key && !y.retained && val_addable(m, y.id); });
      what = c.coin() || ws.empty() ? (c.coin() ? old : val) : c.of(ws);
      pick.give = obj[what].p;
      c.note("with a callback that gives %s", nm(what).c_str());
    }
    c.note("%s[%s via %s] = %s%s", nm(m).c_str(), obj[key].content.c_str(), nm(key).c_str(), nm(val).c_str(), dup ? " (replaces)" : "");
    void *r = nullptr, *want = nullptr;
    if (x.k == CTX) cee_state_add_context(st[x.st], (char *)obj[key].p, obj[val].p);
    else if (what < 0) r = cee_map_add((struct cee_map *)x.p, obj[key].p, obj[val].p);
    else {
      enum cee_del_policy none[2] = {CEE_DP_NOOP, CEE_DP_NOOP};
      struct cee_map *one = cee_map_mk_e(st[x.st], none, (cee_cmp_fun)strcmp);
      cee_map_add(one, obj[key].p, obj[val].p);
      cee_map_merge((struct cee_map *)x.p, one, &pick, [](void *q, void *o, void *n) -> void * {
        Pick &p = *(Pick *)q;
        p.old = o; p.neu = n; p.n++;
        return p.give;
      });
      cee_del(one);
      CHECK(c, pick.n == 1 && pick.old == obj[old].p && pick.neu == obj[val].p, "map-callback", "the merge callback ran %d times, or not with the old and the new value", pick.n);
    }
    want = map_put_model(m, key, val, what);
    if (x.k != CTX && what < 0) CHECK(c, r == want, "map-add-return", "adding to %s returned the wrong previous value", nm(m).c_str());
    adds++;
  }
  bool key_addable(int m, int key) {
    Obj &x = obj[m];
    if (!addable(key, x.pol[0], m)) return false;
    for (size_t j = 0; j < x.e.size(); j++) {
      int k = x.e[j];
      if (obj[k].content == obj[key].content && x.v[j] == key && k != key) return false;  // replacing drops the key's last reference
      if (obj[k].content == obj[key].content && (uneven(x.v[j], x.pol[1]))) return false;
      if (k == key) return x.pol[0] != CEE_DP_DEL;
      if (obj[k].content == obj[key].content) {
        // would be freed if nobody else holds it
        if (x.pol[0] == CEE_DP_DEL) return obj[key].rc == 0 && can_free(key);
        if (x.pol[0] == CEE_DP_DEL_RC && obj[key].rc == 0) return can_free(key) && obj[key].ext == 0 && !obj[key].rooted;
      }
    }
    return true;
  }
  bool val_addable(int m, int val) {
    Obj &x = obj[m];
    if (std::count(x.v.begin(), x.v.end(), val) && x.pol[1] == CEE_DP_DEL) return false;
    return addable(val, x.pol[1], m);
  }

  void add(int s) {
    auto cs = usable(s, [&](Obj &x) { return x.k == LIST || x.k == SET || x.k == MAP || x.k == STACK || x.k == DICT; });
    if (cs.empty()) return new_container(s);
    int m = c.of(cs);
    Obj &x = obj[m];
    if (x.k == MAP || x.k == DICT) {
      auto ks = usable(s, [&](Obj &y) { return y.k == STR && (x.k == MAP ? key_addable(m, y.id) : addable(y.id, x.pol[0], m)); });
      int key = ks.empty() || c.coin() ? new_str(s, key_text()) : c.of(ks);
      if (obj[m].k == MAP && !key_addable(m, key)) return;
      auto vs = usable(s, [&](Obj &y) { return y.id != key && (obj[m].k == MAP ? val_addable(m, y.id) : addable(y.id, obj[m].pol[0], m)); });
      int val = vs.empty() || c.chance(1, 4) ? new_leaf(s) : c.of(vs);
      if (obj[val].k == SINGLE && (obj[m].pol[0] == CEE_DP_DEL || obj[m].pol[1] == CEE_DP_DEL)) return;
      if (total_paths() > 3000) return;
      if (obj[m].k == MAP) {
        int old = -1;
        for (size_t j = 0; j < obj[m].e.size(); j++) if (obj[obj[m].e[j]].content == obj[key].content) old = obj[m].v[j];
        // the previous value loses this reference
        (void)old;
        map_put(m, key, val);
      } else {
        if (obj[m].e.size() >= obj[m].cap && !c.chance(1, 4)) return;
        if (obj[m].pol[0] == CEE_DP_DEL && key == val) return;
        c.note("%s[%s] = %s", nm(m).c_str(), obj[key].content.c_str(), nm(val).c_str());
        cee_dict_add((struct cee_dict *)obj[m].p, (char *)obj[key].p, obj[val].p);
        obj[m].e.push_back(key);
        obj[m].v.push_back(val);
        incr(key, CEE_DP_DEL_RC);
        incr(val, CEE_DP_DEL_RC);
        adds++;
      }
      return;
    }
    auto es = cands(s, x.pol[0], m);
    int e = es.empty() || c.chance(1, 5) ? new_leaf(s) : c.of(es);
    if (obj[e].k == SINGLE && obj[m].pol[0] == CEE_DP_DEL) return;
    if (total_paths() > 3000) return;
    Obj &y = obj[m];
    adds++;
    if (y.k == LIST) {
      if (c.coin() || y.e.empty()) {
        c.note("append %s to %s", nm(e).c_str(), nm(m).c_str());
        cee_list_append((struct cee_list *)y.p, obj[e].p);
        y.e.push_back(e);
      } else {
        size_t at = c.draw(y.e.size());
        c.note("insert %s into %s at %zu", nm(e).c_str(), nm(m).c_str(), at);
        cee_list_insert((struct cee_list *)y.p, (int)at, obj[e].p);
        y.e.insert(y.e.begin() + at, e);
      }
      incr(e, y.pol[0]);
    } else if (y.k == SET) {
      c.note("add %s to %s", nm(e).c_str(), nm(m).c_str());
      cee_set_add((struct cee_set *)y.p, obj[e].p);
      if (!std::count(y.e.begin(), y.e.end(), e)) { y.e.push_back(e); incr(e, y.pol[0]); }
    } else {
      c.note("push %s on %s", nm(e).c_str(), nm(m).c_str());
      int r = cee_stack_push((struct cee_stack *)y.p, obj[e].p);
      CHECK(c, r == (y.e.size() < y.cap ? 1 : 0), "stack-push", "push returned %d with %zu of %zu used", r, y.e.size(), y.cap);
      if (r) { y.e.push_back(e); incr(e, y.pol[0]); }
    }
  }

  void remove(int s) {
    auto cs = usable(s, [&](Obj &x) { return (x.k == LIST || x.k == SET || x.k == MAP || x.k == STACK) && !x.e.empty(); });
    if (cs.empty()) return;
    int m = c.of(cs);
    Obj &x = obj[m];
    size_t at = c.index(x.e.size());
    if (x.k == LIST) {
      if (uneven(x.e[at], x.pol[0])) return;
      c.note("remove index %zu of %s", at, nm(m).c_str());
      CHECK(c, cee_list_remove((struct cee_list *)x.p, (int)at), "list-remove", "removing index %zu of %zu returned false", at, x.e.size());
      decr(x.e[at], x.pol[0]);
      x.e.erase(x.e.begin() + at);
    } else if (x.k == SET) {
      int e = x.e[at];
      if (c.chance(1, 8)) {
        // clear: every element is given up as on deletion
        std::vector<Edge> es = edges(m);
        World *w = this;
        std::vector<Obj> save = obj;
        int f = frees;
        w->obj[m].e.clear();
        for (auto &q : es) release(q.to, q.pol);
        bool ok = true;
        for (auto &y : obj) {
          if (!y.usable && save[y.id].usable && (save[y.id].rooted || save[y.id].ext > 0)) ok = false;
          if (!y.alive && save[y.id].alive && save[y.id].retained && save[y.id].rc > 0) ok = false;
          if (y.usable) for (auto &q : edges(y.id)) if (!obj[q.to].usable && save[q.to].usable) ok = false;
        }
        if (!ok) { obj = save; frees = f; return; }
        c.note("clear %s", nm(m).c_str());
        cee_set_clear((struct cee_set *)obj[m].p);
        return;
      }
      if (uneven(e, x.pol[0])) return;
      c.note("remove %s from %s", nm(e).c_str(), nm(m).c_str());
      CHECK(c, cee_set_remove((struct cee_set *)x.p, obj[e].p) == obj[e].p, "set-remove", "remove did not return the element");
      decr(e, x.pol[0]);
      x.e.erase(x.e.begin() + at);
    } else if (x.k == MAP) {
      int k = x.e[at], v = x.v[at];
      if (uneven(k, x.pol[0]) || uneven(v, x.pol[1])) return;
      if (c.chance(1, 3)) {
        // rename
        auto ks = usable(s, [&](Obj &y) { return y.k == STR && y.id != k && y.id != v && key_addable(m, y.id); });
        int nk = ks.empty() || c.coin() ? new_str(s, key_text()) : c.of(ks);
        Obj &z = obj[m];
        bool present = false;
        for (int q : z.e) if (obj[q].content == obj[nk].content) present = true;
        if (present || !key_addable(m, nk)) return;  // renames onto present keys are C09's
        if (std::count(z.v.begin(), z.v.end(), v) > 1 && z.pol[1] == CEE_DP_DEL) return;
        c.note("rename key %s of %s to %s", obj[k].content.c_str(), nm(m).c_str(), nm(nk).c_str());
        CHECK(c, cee_map_rename((struct cee_map *)z.p, obj[k].p, obj[nk].p), "map-rename", "rename of a present key returned false");
        decr(k, z.pol[0]);
        decr(v, z.pol[1]);
        z.e.erase(z.e.begin() + at);
        z.v.erase(z.v.begin() + at);
        z.e.push_back(nk);
        z.v.push_back(v);
        incr(nk, z.pol[0]);
        incr(v, z.pol[1]);
        return;
      }
      c.note("remove key %s from %s", obj[k].content.c_str(), nm(m).c_str());
      CHECK(c, cee_map_remove((struct cee_map *)x.p, obj[k].p) == obj[v].p, "map-remove", "remove did not return the value");
      decr(k, x.pol[0]);
      decr(v, x.pol[1]);
      x.e.erase(x.e.begin() + at);
      x.v.erase(x.v.begin() + at);
    } else {
      int e = x.e.back();
      if (uneven(e, x.pol[0])) return;
      c.note("pop %s", nm(m).c_str());
      CHECK(c, cee_stack_pop((struct cee_stack *)x.p) == obj[e].p, "stack-pop", "pop returned something else");
      decr(e, x.pol[0]);
      x.e.pop_back();
    }
  }

  // temporary lists of keys / values hold counted references while they live
  void views(int s) {
    auto cs = usable(s, [&](Obj &x) { return x.k == MAP || x.k == SET; });
    if (cs.empty()) return;
    int m = c.of(cs);
    Obj &x = obj[m];
    // the returned list counts its elements: no elements that somebody owns for immediate deletion
    for (auto &e : edges(m)) if (obj[e.to].retained && (e.pol != CEE_DP_DEL || obj[e.to].rc > 0)) return;
    struct cee_list *l;
    std::vector<int> want;
    bool keys = true;
    if (x.k == SET) { l = cee_set_values((struct cee_set *)x.p); want = x.e; }
    else switch (c.draw(2)) {
      case 0: l = cee_map_keys((struct cee_map *)x.p); want = x.e; break;
      case 1: l = cee_map_insertion_ordered_keys((struct cee_map *)x.p); want = x.e; break;
      default: l = cee_map_values((struct cee_map *)x.p); want = x.v; keys = false; break;
    }
    int p = x.k == SET ? x.pol[0] : keys ? x.pol[0] : x.pol[1];
    c.note("list of %zu elements of %s", want.size(), nm(m).c_str());
    CHECK(c, cee_list_size(l) == want.size(), "view-size", "list of %s has %zu entries, expected %zu", nm(m).c_str(), cee_list_size(l), want.size());
    std::multiset<void *> a, b;
    for (size_t j = 0; j < want.size(); j++) { a.insert(l->a[j]); b.insert(obj[want[j]].p); }
    CHECK(c, a == b, "view-elements", "list of %s has other elements", nm(m).c_str());
    std::vector<int> ordered;
    for (size_t j = 0; j < want.size(); j++) for (int w : want) if (obj[w].p == l->a[j]) { ordered.push_back(w); break; }
    want = ordered;
    bool safe = p != CEE_DP_NOOP;
    if (safe && p == CEE_DP_DEL_RC && c.coin()) {
      int i = mk(LIST, s, l);
      for (int w : want) { obj[i].e.push_back(w); incr(w, CEE_DP_DEL_RC); }
      return;
    }
    // dropping the list drops its counted references; elements the container does not
    // count could reach zero, so keep those lists as objects of the program instead
    if (p == CEE_DP_NOOP) {
      bool any = false;
      for (int w : want) if (obj[w].rc == 0 && !obj[w].retained) any = true;
      int i = mk(LIST, s, l);
      for (int w : want) { obj[i].e.push_back(w); incr(w, CEE_DP_DEL_RC); }
      (void)any;
      return;
    }
    cee_del(l);
    CHECK(c, !pbt::mem::alive(l), "not-freed", "a deleted list is still allocated");
  }

  void del(int s) {
    auto cs = usable(s, [&](Obj &x) { return x.k != SINGLE && !x.internal && x.rc == 0 && !x.retained && x.ext == 0 && !x.rooted && !referenced(x.id); });
    if (cs.empty()) return;
    int i = c.of(cs);
    if (!can_free(i)) return;
    bool ref = c.coin();
    c.note("%s(%s)", ref ? "cee_del_ref" : "cee_del", nm(i).c_str());
    model_free(i);
    if (ref) cee_del_ref(obj[i].p);
    else if (c.coin()) cee_del(obj[i].p);
    else cee_del_e(CEE_DP_DEL, obj[i].p);
  }
  void extref(int s) {
    auto cs = usable(s, [&](Obj &x) { return !x.retained && !x.internal && x.k != SINGLE && !x.stale; });
    if (cs.empty()) return;
    int i = c.of(cs);
    if (obj[i].ext == 0 || c.coin()) {
      c.note("take a counted reference on %s", nm(i).c_str());
      cee_incr_indegree(CEE_DP_DEL_RC, obj[i].p);
      obj[i].rc++;
      obj[i].ext++;
    } else {
      // only drop when legal
      if (obj[i].rc == 1) { int sv = obj[i].ext; obj[i].ext = 0; bool ok = can_free(i) && !referenced(i) && !obj[i].rooted; obj[i].ext = sv; if (!ok) return; }
      c.note("drop a counted reference on %s", nm(i).c_str());
      obj[i].ext--;
      release(i, CEE_DP_DEL_RC);
      cee_del_ref(obj[i].p);
    }
  }
  void grow(int s) {
    auto cs = usable(s, [&](Obj &x) { return x.k == STR && !x.rooted && !referenced(x.id) && x.rc == 0 && x.ext == 0; });
    if (cs.empty()) return;
    int i = c.of(cs);
    Obj &x = obj[i];
    if (c.chance(1, 3)) { cee_use_realloc(x.p); x.reallocing = true; c.note("%s grows by realloc", nm(i).c_str()); }
    else if (c.chance(1, 4)) { cee_use_malloc(x.p); x.reallocing = false; c.note("%s grows by malloc", nm(i).c_str()); }
    std::string t(c.draw(90), (char)('a' + c.draw(25)));
    void *old = x.p, *nu = cee_str_catf((struct cee_str *)x.p, "%s", t.c_str());
    c.note("append %zu characters to %s%s", t.size(), nm(i).c_str(), nu == old ? "" : " (moved)");
    std::string before = x.content;
    x.content += t;
    uint64_t was = x.block;
    x.p = nu;
    x.block = pbt::mem::id((char *)nu - 1);
    if (nu != old && pbt::mem::id(old) == was) {
      // the old block stays allocated until its state goes or collects it
      bool re = x.reallocing;
      CHECK(c, !re, "realloc-leak", "growth by realloc left the old block allocated");
      int j = mk(STR, s, old);
      obj[j].usable = false;
      obj[j].content = before;
    }
  }

  // ------------------------------------------------------------- collection
  void reach(int i, std::vector<char> &r) {
    if (r[i]) return;
    r[i] = 1;
    for (auto &e : edges(i)) reach(e.to, r);
  }
  void gc(int s) {
    c.note("gc of state %d", s);
    std::vector<char> r(obj.size(), 0);
    for (auto &x : obj) if (x.st == s && x.rooted) reach(x.id, r);
    reach(ctx[s], r);
    reach(sstack[s], r);
    bool second = last_gc[s] >= 1;
    cee_state_gc(st[s]);
    gcs++;
    last_gc[s]++;
    for (auto &x : obj) {
      if (x.st != s || x.k == CTX || x.k == SINGLE) continue;
      bool a = al(x);
      if (r[x.id]) { CHECK(c, a, "gc-freed-reachable", "%s is reachable but was collected", nm(x.id).c_str()); continue; }
      if (second) {
        CHECK(c, !a, "gc-kept-unreachable", "%s is unreachable but survived two collections", nm(x.id).c_str());
        if (x.alive) collected++;
        x.alive = false;
        x.maybe = false;
      } else if (x.alive || x.maybe) {
        if (x.alive) collected++;
        x.alive = false;
        x.maybe = true;
      }
      if (x.usable) for (auto &e : edges(x.id)) if (e.pol != CEE_DP_NOOP || x.k == DICT) if (r[e.to]) mark_stale(e.to);
      x.usable = false;
    }
    // singletons are not allocated objects; nothing to forget
    verify_all();
  }
  void root(int s) {
    auto cs = usable(s, [&](Obj &x) { return x.k != SINGLE && !x.internal; });
    if (cs.empty()) return;
    int i = c.of(cs);
    if (obj[i].rooted && c.coin()) { c.note("unroot %s", nm(i).c_str()); cee_state_remove_gc_root(st[s], obj[i].p); obj[i].rooted = false; }
    else { c.note("root %s", nm(i).c_str()); cee_state_add_gc_root(st[s], obj[i].p); obj[i].rooted = true; }
  }
  void context(int s) {
    Obj &x = obj[ctx[s]];
    if (!x.e.empty() && c.chance(2, 5)) {
      size_t at = c.index(x.e.size());
      int k = x.e[at], v = x.v[at];
      if (uneven(k, CEE_DP_DEL_RC) || uneven(v, CEE_DP_DEL_RC)) return;
      c.note("remove context %s of state %d", obj[k].content.c_str(), s);
      std::string name = obj[k].content;
      cee_state_remove_context(st[s], (char *)name.c_str());
      x.e.erase(x.e.begin() + at);
      x.v.erase(x.v.begin() + at);
      decr(k, CEE_DP_DEL_RC);
      decr(v, CEE_DP_DEL_RC);
      CHECK(c, cee_state_get_context(st[s], (char *)name.c_str()) == nullptr, "context", "removed context %s is still found", name.c_str());
      return;
    }
    int key = new_str(s, key_text());
    if (!key_addable(ctx[s], key)) return;
    auto vs = usable(s, [&](Obj &y) { return y.id != key && addable(y.id, CEE_DP_DEL_RC, ctx[s]); });
    int val = vs.empty() ? new_leaf(s) : c.of(vs);
    if (total_paths() > 3000) return;
    map_put(ctx[s], key, val);
  }
  void del_state(int s) {
    c.note("delete state %d", s);
    cee_del(st[s]);
    st[s] = nullptr;
    for (auto &x : obj) {
      if (x.st != s) continue;
      if (x.k != CTX && x.k != SINGLE) CHECK(c, !al(x), "state-leak", "%s survived the deletion of its state", nm(x.id).c_str());
      if (x.k == SINGLE) continue;
      x.alive = x.usable = x.maybe = false;
    }
  }

  std::vector<int> live_states() {
    std::vector<int> r;
    for (size_t i = 0; i < st.size(); i++) if (st[i]) r.push_back((int)i);
    return r;
  }
  void step() {
    auto ls = live_states();
    if (ls.empty()) { new_state(); ls = live_states(); }
    int s = c.of(ls);
    ops++;
    if (o.states > 1 && c.chance(1, 25)) {
      if ((int)ls.size() < o.states && c.coin()) { new_state(); return; }
      if (ls.size() > 1) { del_state(s); check_alive("deleting a state"); verify_all(); return; }
    }
    int w = c.weighted({6, 6, 12, 6, 2, o.del ? 5 : 0, o.del ? 2 : 0, o.grow ? 3 : 0, o.gc ? 5 : 0, o.gc || o.states > 1 ? 3 : 0, 2, o.gc ? 4 : 0});
    bool isgc = false;
    switch (w) {
      case 0: new_leaf(s); break;
      case 1: new_container(s); break;
      case 2: add(s); break;
      case 3: remove(s); break;
      case 4: views(s); break;
      case 5: del(s); break;
      case 6: extref(s); break;
      case 7: grow(s); break;
      case 8: root(s); break;
      case 9: context(s); break;
      case 10: merge(s); break;
      default: isgc = true; gc(s); if (c.coin()) gc(s); break;
    }
    if (!isgc) last_gc[s] = 0;
    check_alive("the last operation");
    if (ops % 8 == 0) verify_all();
  }
  void run(int n) {
    for (int i = 0; i < o.states; i++) { if (i > 0 && c.coin()) break; new_state(); }
    for (int i = 0; i < n && c.more(40); i++) step();
    verify_all();
  }
  void finish() {
    // delete the states in a drawn order; the others stay intact meanwhile
    for (auto ls = live_states(); !ls.empty(); ls = live_states()) {
      del_state(c.of(ls));
      check_alive("deleting a state");
      verify_all();
    }
    CHECK(c, pbt::mem::live() == 0, "leak", "%zu block(s), %zu bytes survive the deletion of every state", pbt::mem::live(), pbt::mem::live_bytes());
  }
};
}  // namespace world
