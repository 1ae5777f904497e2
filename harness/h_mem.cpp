// C01..C05: lifetimes under states, delete policies, collection, isolation.
#include "world.hpp"
using namespace world;

PROPERTY("C01", "teardown", 30,
         "A random history (construct all 16 object kinds with random policies, link, unlink, rename, clear, take views, "
         "delete, grow strings, root, add contexts, collect) followed by deletion of the state; the library's heap is "
         "compared with empty. Non-trivial: at least 6 links were made and objects of 3 kinds existed.") {
  Opts o;
  o.del = c.chance(7, 8);
  o.gc = c.coin();
  o.shared_owner = c.coin();
  o.strict = false;
  World w(c, o);
  w.run(10 + c.size());
  std::set<int> kinds;
  for (auto &x : w.obj) kinds.insert(x.k);
  if (w.adds >= 6 && kinds.size() >= 4) c.nontrivial();
  if (o.gc && w.gcs) c.label("with-collections");
  if (w.frees) c.label("with-deletions");
  w.finish();
}

PROPERTY("C02", "policies", 30,
         "A random acyclic object graph over all container kinds and policies, edited and deleted in random order; after every "
         "operation each object's memory must be allocated exactly if the reference model says so. Non-trivial: at least one "
         "deletion freed something and 5 links were made.") {
  Opts o;
  o.shared_owner = c.coin();
  World w(c, o);
  w.run(10 + c.size());
  if (w.frees >= 1 && w.adds >= 5) c.nontrivial();
  if (w.frees >= 5) c.label("freed>=5");
  // delete what is left, top down
  for (int i = 0; i < 40; i++) { w.del(0); w.check_alive("final deletions"); }
  w.verify_all();
  w.finish();
}

static void many_refs(Case &c) {
  // an object with a very large number of counted references
  struct cee_state *st = cee_state_mk(8);
  struct cee_str *s = cee_str_mk(st, "shared");
  struct cee_list *keep = cee_list_mk(st, 1);
  size_t n = c.pick<size_t>({3, 255, 256, 257, 65534, 65535, 65536, 65537, 70000, 131072});
  bool one = c.coin();
  std::vector<struct cee_list *> ls;
  size_t per = one ? n : n / 7 + 1;
  c.note("%zu references, %s", n, one ? "one list" : "several lists");
  cee_list_append(keep, s);
  struct cee_list *l = nullptr;
  for (size_t i = 0; i < n; i++) {
    if (i % per == 0) { l = cee_list_mk(st, 4); ls.push_back(l); }
    cee_list_append(l, s);
  }
  for (auto *x : ls) {
    cee_del(x);
    CHECK(c, pbt::mem::alive(s), "freed-too-early", "a string with %zu counted references was freed while one reference remained", n + 1);
    CHECK(c, !strcmp((char *)s, "shared"), "content", "content changed");
  }
  cee_del(keep);
  CHECK(c, !pbt::mem::alive(s), "not-freed", "the string was not freed with its last reference");
  cee_del(st);
  CHECK(c, pbt::mem::live() == 0, "leak", "blocks left");
  c.nontrivial();
}
PROPERTY("C02", "many_references", 3, "One string referenced up to 131072 times from one or several lists, which are deleted one by one. Always non-trivial.") {
  if (c.draw(9) != 9) {
    // small version most of the time: the large ones are expensive
    struct cee_state *st = cee_state_mk(8);
    struct cee_str *s = cee_str_mk(st, "x");
    size_t n = 1 + c.draw(600);
    std::vector<struct cee_list *> ls;
    for (size_t i = 0; i < n; i++) {
      if (ls.empty() || c.draw(40) == 0) ls.push_back(cee_list_mk(st, 0));
      cee_list_append(c.of(ls), s);
    }
    std::map<void *, size_t> cnt;
    size_t left = n;
    while (!ls.empty()) {
      size_t i = c.index(ls.size());
      left -= cee_list_size(ls[i]);
      cee_del(ls[i]);
      ls.erase(ls.begin() + i);
      bool al = pbt::mem::alive(s);
      if (left) CHECK(c, al, "freed-too-early", "freed with %zu references left", left);
      else { CHECK(c, !al, "not-freed", "not freed with its last reference"); break; }
    }
    cee_del(st);
    CHECK(c, pbt::mem::live() == 0, "leak", "blocks left");
    c.nontrivial();
    return;
  }
  many_refs(c);
}

PROPERTY("C03", "gc_safety", 36,
         "A random object graph edited between random collections, with roots and contexts added and removed; after every "
         "operation everything reachable is allocated and has the modelled contents. Non-trivial: two collections ran and 5 links were made.") {
  Opts o;
  o.gc = true;
  o.strict = false;
  o.del = c.chance(1, 3);
  World w(c, o);
  w.run(15 + c.size());
  if (w.gcs >= 2 && w.adds >= 5) c.nontrivial();
  if (w.collected) c.label("something-collected");
  w.gc(0);
  w.gc(0);
  w.verify_all();
  w.gc(0);
  w.finish();
}

PROPERTY("C04", "gc_complete", 36,
         "As gc_safety, ending with two collections; the heap's block count must return to what it was before garbage was added, "
         "and to that of a fresh state once all roots and contexts are gone. Non-trivial: garbage was collected and 5 links were made.") {
  Opts o;
  o.gc = true;
  o.strict = false;
  o.del = false;
  World w(c, o);
  w.new_state();
  size_t fresh = pbt::mem::live();
  for (int i = 0; i < 10 + (int)c.size() / 2 && c.more(30); i++) w.step();
  w.last_gc[0] = 0;
  w.gc(0);
  w.gc(0);
  size_t base = pbt::mem::live();
  // garbage phase: nothing reachable changes
  size_t nobj = w.obj.size();
  int adds = w.adds;
  Opts keep = w.o;
  std::vector<char> usable_before;
  for (auto &x : w.obj) { usable_before.push_back(x.usable); if (x.k != CTX) x.usable = false; }
  w.o.gc = false;
  for (int i = 0; i < 30 && c.more(15); i++) w.step();
  w.o = keep;
  for (size_t i = 0; i < nobj; i++) w.obj[i].usable = usable_before[i];
  w.last_gc[0] = 0;
  w.gc(0);
  w.gc(0);
  CHECK(c, pbt::mem::live() == base, "gc-heap-baseline", "%zu blocks are allocated after collecting pure garbage, %zu before the garbage was made", pbt::mem::live(), base);
  if (w.collected && w.adds - adds >= 3) c.nontrivial();
  if (w.obj.size() > nobj) c.label("garbage-phase");
  w.gc(0);
  CHECK(c, pbt::mem::live() == base, "gc-not-idempotent", "a further collection changed the heap");
  // drop everything
  while (!w.obj[w.ctx[0]].e.empty()) {
    std::string name = w.obj[w.obj[w.ctx[0]].e[0]].content;
    cee_state_remove_context(w.st[0], (char *)name.c_str());
    w.obj[w.ctx[0]].e.erase(w.obj[w.ctx[0]].e.begin());
    w.obj[w.ctx[0]].v.erase(w.obj[w.ctx[0]].v.begin());
  }
  for (auto &x : w.obj) if (x.rooted) { cee_state_remove_gc_root(w.st[0], x.p); x.rooted = false; }
  while (cee_stack_pop(w.st[0]->stack)) {}
  w.obj[w.sstack[0]].e.clear();
  w.last_gc[0] = 0;
  c.note("all roots and contexts removed");
  w.gc(0);
  w.gc(0);
  CHECK(c, pbt::mem::live() == fresh, "gc-heap-fresh", "%zu blocks are allocated with no roots left, a fresh state has %zu", pbt::mem::live(), fresh);
  w.finish();
}

PROPERTY("C05", "isolation", 24,
         "Up to four states created, used, collected and deleted in random interleaving with per-state models; contexts are looked up "
         "after every change. Non-trivial: two states existed and 5 links were made.") {
  Opts o;
  o.gc = c.coin();
  o.states = 4;
  o.strict = false;
  World w(c, o);
  w.new_state();
  w.new_state();
  for (int i = 0; i < 20 + (int)c.size() && c.more(60); i++) w.step();
  if (w.adds >= 5) c.nontrivial();
  if (w.st.size() > 2) c.label("more-than-two-states");
  w.verify_all();
  w.finish();
}

PROPERTY("C05", "contexts", 12,
         "Random adds, replacements, removals and lookups of contexts by name on two states against two dictionaries, with "
         "collections in between. Non-trivial: a replacement or removal happened.") {
  struct cee_state *st[2] = {cee_state_mk(4), cee_state_mk(4)};
  std::map<std::string, std::string> model[2];
  // names that are easily taken for one another: a prefix, another case, a different last character of a long name, or nothing at all
  std::string stem(c.pick({0, 1, 7, 31, 63, 127, 255, 400}), 'p');
  std::vector<std::string> names = {stem, stem + "a", stem + "b", stem + "B", stem + "ax", stem + "xa", stem + " a", stem + ".a", "a." + stem, stem + "/%s", stem + "\xc3\xa9", "a" + stem, "A", "b", ""};
  std::sort(names.begin(), names.end());
  names.erase(std::unique(names.begin(), names.end()), names.end());
  c.note("names have a stem of %zu characters", stem.size());
  auto name = [&] { return c.of(names); };
  int i = 0;
  while (c.more(25)) {
    int s = (int)c.draw(1);
    std::string n = name();
    switch (c.weighted({5, 3, 3, 1})) {
      case 0: {
        std::string v = "v" + std::to_string(i++);
        c.note("state %d: add %s=%s", s, n.c_str(), v.c_str());
        cee_state_add_context(st[s], (char *)cee_str_mk(st[s], "%s", n.c_str()), cee_str_mk(st[s], "%s", v.c_str()));
        if (model[s].count(n)) c.nontrivial();
        model[s][n] = v;
        break;
      }
      case 1:
        c.note("state %d: remove %s", s, n.c_str());
        cee_state_remove_context(st[s], (char *)n.c_str());
        if (model[s].erase(n)) c.nontrivial();
        break;
      case 2: break;
      default: c.note("gc %d", s); cee_state_gc(st[s]); break;
    }
    for (int t = 0; t < 2; t++)
        for (auto &q : names) {
          char *got = (char *)cee_state_get_context(st[t], (char *)q.c_str());
          auto it = model[t].find(q);
          if (it == model[t].end()) CHECK(c, !got, "context", "state %d finds context %s that it does not have", t, q.c_str());
          else CHECK(c, got && it->second == got, "context", "state %d: context %s is %s, expected %s", t, q.c_str(), got ? got : "(null)", it->second.c_str());
        }
  }
  int f = (int)c.draw(1);
  cee_del(st[f]);
  for (auto &kv : model[!f]) CHECK(c, kv.second == (char *)cee_state_get_context(st[!f], (char *)kv.first.c_str()), "context", "context lost when another state was deleted");
  cee_del(st[!f]);
  CHECK(c, pbt::mem::live() == 0, "leak", "blocks left");
}

// ---------------------------------------------------------------- large containers
namespace {
struct Big {
  Kind k;
  void *p;
  std::vector<void *> el, key;  // elements, and the keys of maps and dictionaries
  bool alive = true, held = false;
};
struct Bigs {
  Case &c;
  struct cee_state *st;
  std::vector<Big> b;
  std::vector<void *> pool;            // elements in several containers
  std::map<void *, std::string> text;  // every string's content
  std::map<void *, int> refs;
  struct cee_list *hub = nullptr;
  int made = 0;
  explicit Bigs(Case &c) : c(c), st(cee_state_mk(4)) {}
  void *str() {
    std::string t = "v" + std::to_string(made++);
    void *p = cee_str_mk(st, "%s", t.c_str());
    text[p] = t;
    return p;
  }
  static const std::vector<size_t> &sizes() {
    static const std::vector<size_t> s = {0, 1, 2, 15, 16, 17, 31, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 500, 511, 513, 1000, 1023, 1024, 1025};
    return s;
  }
  void make() {
    Big x;
    static const Kind KS[] = {LIST, SET, MAP, STACK, DICT};
    x.k = KS[c.draw(4)];
    size_t n = c.chance(1, 40) ? c.pick<size_t>({4095, 4097, 8191, 16385, 32767, 32769, 65535, 65537}) : c.of(sizes());
    if (x.k == DICT && n > 5000) n = 5000;
    size_t share = c.pick<size_t>({1, 2, 7, 1000000});
    enum cee_del_policy rc2[2] = {CEE_DP_DEL_RC, CEE_DP_DEL_RC};
    switch (x.k) {
      case LIST: x.p = cee_list_mk(st, c.draw(20)); break;
      case SET: x.p = cee_set_mk(st, World::pcmp); break;
      case MAP: x.p = cee_map_mk_e(st, rc2, World::scmp); break;
      case STACK: x.p = cee_stack_mk(st, n); break;
      default: x.p = cee_dict_mk(st, n);
    }
    c.note("%s of %zu, every %zu-th shared", KN[x.k], n, share);
    for (size_t i = 0; i < n; i++) {
      void *e;
      if (i % share == 0) { size_t j = i / share; while (pool.size() <= j) pool.push_back(str()); e = pool[j]; if (refs.count(e) && !refs[e] && !World::al(e)) e = pool[j] = str(); } else e = str();
      x.el.push_back(e);
      refs[e]++;
      if (x.k == MAP || x.k == DICT) { void *k = str(); x.key.push_back(k); refs[k]++; }
      switch (x.k) {
        case LIST: cee_list_append((struct cee_list *)x.p, e); break;
        case SET: cee_set_add((struct cee_set *)x.p, e); break;
        case MAP: cee_map_add((struct cee_map *)x.p, x.key[i], e); break;
        case STACK: cee_stack_push((struct cee_stack *)x.p, e); break;
        default: cee_dict_add((struct cee_dict *)x.p, (char *)x.key[i], e);
      }
    }
    b.push_back(x);
  }
  void verify(const Big &x, const char *when) {
    CHECK(c, World::al(x.p), "freed-too-early", "a %s of %zu was freed by %s", KN[x.k], x.el.size(), when);
    size_t n = x.el.size();
    for (auto *v : {&x.el, &x.key}) for (void *e : *v) {
      if (!World::al(e)) c.fail("freed-too-early", "%s in a %s of %zu was freed by %s", text[e].c_str(), KN[x.k], n, when);
      if (text[e] != (char *)e) c.fail("content", "%s in a %s of %zu changed in %s", text[e].c_str(), KN[x.k], n, when);
    }
    size_t size = x.k == LIST ? cee_list_size((struct cee_list *)x.p) : x.k == SET ? cee_set_size((struct cee_set *)x.p) : x.k == MAP ? cee_map_size((struct cee_map *)x.p) : x.k == STACK ? cee_stack_size((struct cee_stack *)x.p) : n;
    CHECK(c, size == n, "content", "a %s of %zu has %zu elements after %s", KN[x.k], n, size, when);
    for (size_t i = 0; i < n; i++) {
      void *e = x.el[i], *g;
      switch (x.k) {
        case LIST: g = ((struct cee_list *)x.p)->a[i]; break;
        case SET: g = cee_set_find((struct cee_set *)x.p, e); break;
        case MAP: g = cee_map_find((struct cee_map *)x.p, x.key[i]); break;
        case STACK: g = cee_stack_top((struct cee_stack *)x.p, n - 1 - i); break;
        default: g = cee_dict_find((struct cee_dict *)x.p, (char *)x.key[i]);
      }
      if (g != e) c.fail("content", "element %zu of a %s of %zu changed in %s", i, KN[x.k], n, when);
    }
  }
  // counted deletion of one container
  void del(Big &x) {
    c.note("delete the %s of %zu", KN[x.k], x.el.size());
    x.alive = false;
    cee_del(x.p);
    CHECK(c, !World::al(x.p), "not-freed", "a deleted %s of %zu is still allocated", KN[x.k], x.el.size());
    for (auto *v : {&x.el, &x.key}) for (void *e : *v) {
      bool want = --refs[e] > 0;
      if (World::al(e) != want) c.fail(want ? "freed-too-early" : "not-freed", "%s with %d references left is %s", text[e].c_str(), refs[e], want ? "freed" : "still allocated");
    }
    for (auto &y : b) if (y.alive) verify(y, "a deletion");
  }
  size_t biggest() { size_t n = 0; for (auto &x : b) n = std::max(n, x.el.size()); return n; }
  void end() {
    cee_del(st);
    CHECK(c, pbt::mem::live() == 0, "leak", "%zu blocks survive the state", pbt::mem::live());
  }
};
void big_gc(Case &c) {
  Bigs w(c);
  size_t base = pbt::mem::live();
  std::vector<std::string> names;
  for (unsigned n = 1 + (unsigned)c.draw(3); n; n--) w.make();
  for (auto &x : w.b) {
    x.held = true;
    switch (c.weighted({3, 2, 2, 2})) {
      case 0: cee_state_add_gc_root(w.st, x.p); names.push_back(""); c.note("root"); break;
      case 1: {
        names.push_back("name" + std::to_string(names.size()));
        cee_state_add_context(w.st, (char *)cee_str_mk(w.st, "%s", names.back().c_str()), x.p);
        c.note("context");
        break;
      }
      case 2: {  // at the end of a chain of containers
        unsigned depth = c.pick<unsigned>({1, 2, 10, 127, 257, 600});
        void *p = x.p;
        for (unsigned i = 0; i < depth; i++) {
          if (i % 3 == 2) { struct cee_map *m = cee_map_mk(w.st, World::scmp); cee_map_add(m, cee_str_mk(w.st, "k"), p); p = m; }
          else if (i % 3 == 1) { struct cee_set *s = cee_set_mk(w.st, World::pcmp); cee_set_add(s, p); p = s; }
          else { struct cee_list *l = cee_list_mk(w.st, 1); cee_list_append(l, p); p = l; }
        }
        cee_state_add_gc_root(w.st, p);
        names.push_back("");
        c.note("%u levels below a root", depth);
        break;
      }
      default: x.held = false; names.push_back(""); c.note("not held");
    }
  }
  size_t big = 0;
  for (auto &x : w.b) if (x.held) big = std::max(big, x.el.size());
  if (big >= 65) c.nontrivial();
  std::set<void *> reach;
  for (auto &x : w.b) if (x.held) { reach.insert(x.p); reach.insert(x.el.begin(), x.el.end()); reach.insert(x.key.begin(), x.key.end()); }
  size_t live = 0;
  for (unsigned n = 2 + (unsigned)c.draw(2), i = 0; i < n; i++) {
    cee_state_gc(w.st);
    for (auto &x : w.b) if (x.held) w.verify(x, "a collection");
    if (i == 1) {
      live = pbt::mem::live();
      for (auto &x : w.b) if (!x.held) {
        if (World::al(x.p) && !reach.count(x.p)) c.fail("gc-kept-unreachable", "a %s of %zu survived two collections", KN[x.k], x.el.size());
        for (auto *v : {&x.el, &x.key}) for (void *e : *v) if (!reach.count(e) && World::al(e)) c.fail("gc-kept-unreachable", "%s in a %s of %zu survived two collections", w.text[e].c_str(), KN[x.k], x.el.size());
      }
    } else if (i > 1)
      CHECK(c, pbt::mem::live() == live, "gc-not-idempotent", "a further collection changed the heap");
  }
  // a lot of garbage more
  if (c.coin()) {
    for (unsigned n = c.pick<unsigned>({1, 100, 1000, 5000}); n; n--) cee_str_mk(w.st, "garbage %u", n);
    cee_state_gc(w.st);
    cee_state_gc(w.st);
    CHECK(c, pbt::mem::live() == live, "gc-heap-baseline", "%zu blocks are allocated after collecting pure garbage, %zu before the garbage was made", pbt::mem::live(), live);
    for (auto &x : w.b) if (x.held) w.verify(x, "a collection");
  }
  // give everything up (one by one; what is still held stays)
  for (size_t i = 0; i < w.b.size(); i++) if (w.b[i].held && !names[i].empty()) {
    cee_state_remove_context(w.st, (char *)names[i].c_str());
    w.b[i].held = false;
    cee_state_gc(w.st);
    cee_state_gc(w.st);
    CHECK(c, !World::al(w.b[i].p), "gc-kept-unreachable", "a %s of %zu survived two collections after its context was removed", KN[w.b[i].k], w.b[i].el.size());
    for (auto &x : w.b) if (x.held) w.verify(x, "a collection");
  }
  (void)base;
  w.end();
}
}  // namespace
PROPERTY("C01", "large", 1, "Containers of 0 to 65537 elements of every kind, some elements in several, some deleted, then the state is deleted. Non-trivial: 65 elements in one.") {
  Bigs w(c);
  for (unsigned n = 1 + (unsigned)c.draw(3); n; n--) w.make();
  if (w.biggest() >= 65) c.nontrivial();
  for (auto &x : w.b) if (c.chance(1, 3)) w.del(x);
  if (c.chance(1, 3)) cee_state_gc(w.st);
  w.end();
}
PROPERTY("C02", "large", 2, "Containers of 0 to 65537 elements of every kind, some elements in several, deleted one by one: exactly the elements without references left are freed. Non-trivial: 65 elements in one.") {
  Bigs w(c);
  for (unsigned n = 1 + (unsigned)c.draw(3); n; n--) w.make();
  if (w.biggest() >= 65) c.nontrivial();
  while (1) {
    std::vector<size_t> l;
    for (size_t i = 0; i < w.b.size(); i++) if (w.b[i].alive) l.push_back(i);
    if (l.empty()) break;
    w.del(w.b[c.of(l)]);
  }
  w.end();
}
PROPERTY("C03", "large", 2, "Containers of 0 to 65537 elements of every kind and chains of up to 600 containers, held by roots and contexts or not, through collections. Non-trivial: 65 elements in one that is held.") { big_gc(c); }
PROPERTY("C04", "large", 2, "Containers of 0 to 65537 elements of every kind and chains of up to 600 containers, held by roots and contexts or not, through collections. Non-trivial: 65 elements in one that is held.") { big_gc(c); }
