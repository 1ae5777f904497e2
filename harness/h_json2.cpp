// C28..C33: editing, converting, merging, selecting, escaping, saving and loading JSON.
#include "jmodel.hpp"
#include "text.hpp"
#include <algorithm>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace jm;
namespace {
void end(Case &c, struct cee_state *st) {
  cee_del(st);
  CHECK(c, pbt::mem::live() == 0, "leak", "%zu blocks survive the state", pbt::mem::live());
}
std::string print(Case &c, struct cee_state *st, struct cee_json *j, int fmt) {
  char *p = nullptr;
  size_t n = 0;
  cee_json_asprint(st, &p, &n, j, (enum cee_json_fmt)fmt);
  return std::string(p, n);
}
// the documents equal up to the order of members
void sort_members(V &v) {
  for (auto &e : v.a) sort_members(e);
  for (auto &e : v.m) sort_members(e.second);
  std::sort(v.m.begin(), v.m.end(), [](const std::pair<std::string, V> &a, const std::pair<std::string, V> &b) { return a.first < b.first; });
}
V sorted(V v) { sort_members(v); return v; }
// reads a library value into the model (whatever it is)
V read(struct cee_json *j) {
  V v;
  switch (j->t) {
    case CEE_JSON_NULL: return v;
    case CEE_JSON_UNDEFINED: v.k = UNDEF; return v;
    case CEE_JSON_BOOLEAN: { bool b = false; cee_json_to_boolx(j, &b); return v_bool(b); }
    case CEE_JSON_DOUBLE: { double d = 0; cee_json_to_doublex(j, &d); return v_dbl(d); }
    case CEE_JSON_I64: { int64_t i = 0; cee_json_to_i64x(j, &i); return v_i64(i); }
    case CEE_JSON_U64: { uint64_t i = 0; cee_json_to_u64x(j, &i); return v_u64(i); }
    case CEE_JSON_STRING: return v_str((const char *)cee_json_to_str(j));
    case CEE_JSON_STRN: { char *s; size_t n; cee_json_to_strn(j, &s, &n); return v_str(std::string(s, n), STRN); }
    case CEE_JSON_BLOB: { struct cee_block *b = cee_json_to_blob(j); return v_str(std::string((char *)b, cee_block_size(b)), BLOB); }
    case CEE_JSON_ARRAY: {
      v.k = ARR;
      struct cee_list *l = cee_json_to_array(j);
      for (size_t i = 0; i < cee_list_size(l); i++) v.a.push_back(read((struct cee_json *)l->a[i]));
      return v;
    }
    case CEE_JSON_OBJECT: {
      v.k = OBJ;
      struct cee_map *m = cee_json_to_object(j);
      struct cee_list *keys = cee_map_insertion_ordered_keys(m);
      for (size_t i = 0; i < cee_list_size(keys); i++) {
        struct cee_json *e = (struct cee_json *)cee_map_find(m, keys->a[i]);
        if (e) v.m.emplace_back((char *)keys->a[i], read(e));
      }
      cee_del(keys);
      return v;
    }
  }
  return v;
}
void expect(Case &c, const V &v, struct cee_json *j, const char *sig, const char *what) {
  std::string w = differs(v, j);
  CHECK(c, w.empty(), sig, "%s: %s; expected %s", what, w.c_str(), show(v, 1500).c_str());
}

// ------------------------------------------------------------------ C28
struct N;
typedef std::shared_ptr<N> NP;
struct N {
  V v;  // scalar content and kind
  std::vector<NP> a;
  std::vector<std::pair<std::string, NP>> m;
  struct cee_json *j = nullptr;
  NP *find(const std::string &k) {
    for (auto &e : m) if (e.first == k) return &e.second;
    return nullptr;
  }
};
V plain(const NP &n) {
  V v = n->v;
  for (auto &e : n->a) v.a.push_back(plain(e));
  for (auto &e : n->m) v.m.emplace_back(e.first, plain(e.second));
  return v;
}
size_t weight(const NP &n) {
  size_t s = 1;
  for (auto &e : n->a) s += weight(e);
  for (auto &e : n->m) s += weight(e.second);
  return s;
}
bool reaches(const NP &from, const N *to) {
  if (from.get() == to) return true;
  for (auto &e : from->a) if (reaches(e, to)) return true;
  for (auto &e : from->m) if (reaches(e.second, to)) return true;
  return false;
}
NP mirror(const V &v, struct cee_json *j, std::vector<NP> *pool) {
  NP n = std::make_shared<N>();
  n->v = v;
  n->v.a.clear();
  n->v.m.clear();
  n->j = j;
  for (size_t i = 0; i < v.a.size(); i++) n->a.push_back(mirror(v.a[i], (struct cee_json *)cee_json_to_array(j)->a[i], pool));
  for (auto &e : v.m) n->m.emplace_back(e.first, mirror(e.second, (struct cee_json *)cee_map_find(cee_json_to_object(j), (void *)e.first.c_str()), pool));
  if (v.k == ARR || v.k == OBJ) pool->push_back(n);
  return n;
}
struct Seen {
  std::vector<std::pair<std::string, struct cee_json *>> kv;
  std::vector<int> idx;
  size_t stop;
  int ret;
};
int see_member(void *ctx, struct cee_str *k, struct cee_json *v) {
  Seen *s = (Seen *)ctx;
  s->kv.emplace_back((char *)k, v);
  return s->kv.size() == s->stop ? s->ret : 0;
}
int see_element(void *ctx, struct cee_json *v, int i) {
  Seen *s = (Seen *)ctx;
  s->kv.emplace_back("", v);
  s->idx.push_back(i);
  return s->kv.size() == s->stop ? s->ret : 0;
}
// what a search of n may find: of an array, what the first element that has the key gives; which of an object's several is open
void find_all(const NP &n, const std::string &k, std::vector<struct cee_json *> &out) {
  size_t before = out.size();
  for (auto &e : n->a) { find_all(e, k, out); if (out.size() > before) return; }
  for (auto &e : n->m) { if (e.first == k) out.push_back(e.second->j); else find_all(e.second, k, out); }
}
std::string edit_key(Case &c) {
  if (c.chance(5, 6)) return std::string(1, (char)c.range('a', 'f'));
  if (c.coin()) return std::string(c.pick({7, 8, 15, 31, 63, 64, 127, 255}), 'k') + std::string(1, (char)c.range('a', 'c'));  // long, differing at the end
  return gen_text(c, 3);
}
PROPERTY("C28", "edits", 120,
         "2 to 40 edits and reads (set of every kind, append under a key, rename, remove, get, insert, append, concatenate, iterate with early stop, "
         "recursive search, emptiness, error marking), each on a random object or array of a graph of documents that may share parts, against a graph "
         "of model nodes; at the end every document is compared and printed and one is kept through a collection; non-trivial if at least 4 edits "
         "changed something") {
  struct cee_state *st = cee_state_mk(10);
  std::vector<NP> pool;  // the containers
  std::vector<NP> roots;
  auto fresh = [&](unsigned budget) {
    Gen g;
    g.budget = budget;
    g.extra = true;
    V v = budget <= 1 ? gen_scalar(c, g) : gen_value(c, g, 1);
    // what the counted strings point into has to stay
    struct cee_json *j;
    if (has_kind(v, STRN)) {
      V *keep = new V(v);
      j = build(c, st, *keep);
    } else j = build(c, st, v);
    return mirror(v, j, &pool);
  };
  for (int i = 0; i < 2; i++) {
    Gen g;
    g.budget = 6;
    V v = c.coin() ? v_obj() : v_arr();
    if (i == 0) v = v_obj();
    roots.push_back(mirror(v, build(c, st, v), &pool));
  }
  unsigned n = (unsigned)c.range(2, 40), changes = 0;
  for (unsigned step = 0; step < n; step++) {
    NP t = c.chance(1, 3) ? c.of(roots) : c.of(pool);
    struct cee_json *j = t->j;
    bool big = weight(t) > 300;
    auto value = [&]() -> NP {
      if (!big && c.chance(1, 4)) {
        NP x = c.of(pool);
        if (!reaches(x, t.get()) && weight(x) < 100) return x;
      }
      return fresh(c.chance(1, 4) ? 6 : 1);
    };
    auto put = [&](const std::string &k, NP x) {
      if (NP *o = t->find(k)) *o = x;
      else t->m.emplace_back(k, x);
    };
    if (t->v.k == OBJ) {
      std::string k = edit_key(c);
      char *ks = (char *)k.c_str();
      switch (c.weighted({6, 6, 4, 4, 3, 2, 2, 1, 1, 1})) {
        case 0: {  // set
          int how = c.weighted({6, 1, 1, 1, 1, 1, 1, 1});
          NP x;
          if (how == 0) {
            x = value();
            c.note("set %s to %s", quote(k).c_str(), show(plain(x)).c_str());
            cee_json_object_set(j, ks, x->j);
          } else {
            x = std::make_shared<N>();
            switch (how) {
              case 1: x->v = v_null(); cee_json_object_set_null(j, ks); break;
              case 2: x->v = v_bool(c.coin()); cee_json_object_set_bool(j, ks, x->v.b); break;
              case 3: x->v = v_str(gen_text(c, 5)); cee_json_object_set_str(j, ks, (char *)x->v.s.c_str()); break;
              case 4: {
                std::string s = gen_text(c, 5);
                int num = (int)c.range(-1000, 1000);
                x->v = v_str(s + ":" + std::to_string(num));
                cee_json_object_set_strf(j, ks, "%s:%d", s.c_str(), num);
                break;
              }
              case 5: x->v = v_dbl(gen_double(c)); cee_json_object_set_double(j, ks, x->v.d); break;
              case 6: x->v = v_i64(gen_i64(c)); cee_json_object_set_i64(j, ks, x->v.i); break;
              default: x->v = v_u64((uint64_t)gen_i64(c)); cee_json_object_set_u64(j, ks, x->v.u); break;
            }
            c.note("set %s to scalar %s", quote(k).c_str(), show(x->v).c_str());
            x->j = cee_json_object_get(j, ks);
            expect(c, x->v, x->j, "set", "the member just set");
          }
          put(k, x);
          changes++;
          c.label("set");
          break;
        }
        case 1: {  // append under a key
          NP x = value();
          if (!big && c.chance(1, 6) && !t->m.empty()) { k = c.of(t->m).first; ks = (char *)k.c_str(); }
          NP *o = t->find(k);
          if (o && ((*o)->v.k == ARR) && reaches(x, o->get()) && x != *o) break;  // no cycles
          if (o && (*o)->v.k == ARR && weight(*o) > (x == *o ? 50 : 200)) break;
          c.note("append %s under %s", show(plain(x)).c_str(), quote(k).c_str());
          cee_json_object_append(j, ks, x->j);
          if (!o) put(k, x);
          else {
            NP l = *o;
            if (l->v.k != ARR) {
              l = std::make_shared<N>();
              l->v.k = ARR;
              l->a.push_back(*o);
              l->j = cee_json_object_get(j, ks);
              CHECK(c, l->j && l->j->t == CEE_JSON_ARRAY, "append", "appending under a key that held a single value did not make an array");
              *o = l;
              pool.push_back(l);
            }
            if (x->v.k == ARR) { auto els = x->a; l->a.insert(l->a.end(), els.begin(), els.end()); }
            else l->a.push_back(x);
          }
          changes++;
          c.label("append-key");
          break;
        }
        case 2: {  // rename
          std::string to = edit_key(c);
          c.note("rename %s to %s", quote(k).c_str(), quote(to).c_str());
          bool r = cee_json_object_rename(j, ks, (char *)to.c_str());
          NP *o = t->find(k);
          CHECK(c, r == (o != nullptr), "rename", "renaming %s key returned %d", o ? "a present" : "an absent", r);
          if (o) {
            NP x = *o;
            for (size_t i = 0; i < t->m.size(); i++) if (t->m[i].first == k) { t->m.erase(t->m.begin() + i); break; }
            put(to, x);
            changes++;
            c.label("rename");
          }
          break;
        }
        case 3:  // remove
          c.note("remove %s", quote(k).c_str());
          cee_json_object_remove(j, ks);
          for (size_t i = 0; i < t->m.size(); i++) if (t->m[i].first == k) { t->m.erase(t->m.begin() + i); changes++; c.label("remove"); break; }
          break;
        case 4: {
          struct cee_json *g = cee_json_object_get(j, ks);
          NP *o = t->find(k);
          CHECK(c, g == (o ? (*o)->j : nullptr), "get", "reading %s %s key gave %p instead of %p", quote(k).c_str(), o ? "(present)" : "(absent)", (void *)g, o ? (void *)(*o)->j : nullptr);
          break;
        }
        case 5: {  // iterate
          Seen s;
          s.stop = c.draw(t->m.size());  // 0: never
          s.ret = c.pick({1, -1, 42});
          int r = cee_json_object_iterate(j, &s, see_member);
          size_t want = s.stop ? s.stop : t->m.size();
          CHECK(c, s.kv.size() == want, "iterate-count", "iteration over %zu members, stopping after %zu, visited %zu", t->m.size(), s.stop, s.kv.size());
          CHECK(c, r == (s.stop ? s.ret : 0), "iterate-result", "iteration returned %d", r);
          std::set<std::string> once;
          for (auto &e : s.kv) {
            NP *o = t->find(e.first);
            CHECK(c, o && (*o)->j == e.second, "iterate-pair", "iteration visited %s with a value that is not its own", quote(e.first).c_str());
            CHECK(c, once.insert(e.first).second, "iterate-twice", "iteration visited %s twice", quote(e.first).c_str());
          }
          break;
        }
        case 6: {
          std::vector<struct cee_json *> all;
          find_all(t, k, all);
          struct cee_json *g = cee_json_has(j, ks);
          CHECK(c, (g != nullptr) == !all.empty(), "has", "searching %s gave %p although %zu nested objects have it", quote(k).c_str(), (void *)g, all.size());
          CHECK(c, !g || std::find(all.begin(), all.end(), g) != all.end(), "has-value", "searching %s gave a value of another key or of a later element", quote(k).c_str());
          break;
        }
        case 7:
          CHECK(c, cee_json_empty(j) == t->m.empty(), "empty", "an object of %zu members: empty() is %d", t->m.size(), cee_json_empty(j));
          break;
        case 8: {  // mark an error, once
          struct cee_json *o = j;
          NP *old = t->find("error");
          if (!old && c.coin()) {  // an error of any kind is kept
            NP x = value();
            c.note("set \"error\" to %s", show(plain(x)).c_str());
            cee_json_object_set(j, (char *)"error", x->j);
            x->j = cee_json_object_get(j, (char *)"error");
            put("error", x);
            old = t->find("error");
            changes++;
          }
          std::string why(c.pick({0, 1, 20, 120, 250, 1100}), '!');
          cee_json_set_error(&o, "bad %d%s", 7, why.c_str());
          CHECK(c, o == j, "set-error", "set_error replaced the object");
          if (!old) {
            NP x = std::make_shared<N>();
            x->v = v_str("bad 7" + why);
            x->j = cee_json_object_get(j, (char *)"error");
            put("error", x);
            changes++;
          }
          struct cee_json *none = nullptr;
          cee_json_set_error(&none, "x");
          cee_json_set_error(nullptr, "x");
          break;
        }
        default:  // no document, no effect
          cee_json_object_set(nullptr, ks, j);
          cee_json_object_append(nullptr, ks, j);
          cee_json_object_append(j, ks, nullptr);
          cee_json_object_set_null(nullptr, ks);
          cee_json_object_set_i64(nullptr, ks, 1);
          cee_json_object_set_str(nullptr, ks, ks);
          break;
      }
    } else {
      switch (c.weighted({6, 5, 4, 3, 4, 2, 1, 1})) {
        case 0: {  // append
          NP x;
          switch (c.weighted({5, 1, 1, 1})) {
            case 0: x = value(); cee_json_array_append(j, x->j); break;
            case 1: x = std::make_shared<N>(); x->v = v_bool(c.coin()); cee_json_array_append_bool(j, x->v.b); break;
            case 2: x = std::make_shared<N>(); x->v = v_str(gen_text(c, 5)); cee_json_array_append_str(j, (char *)x->v.s.c_str()); break;
            default: {
              x = std::make_shared<N>();
              std::string s = gen_text(c, 5);
              x->v = v_str("<" + s + ">");
              cee_json_array_append_strf(j, "<%s>", s.c_str());
            }
          }
          t->a.push_back(x);
          if (!x->j) x->j = cee_json_array_get(j, (int)t->a.size() - 1);
          c.note("append %s", show(plain(x)).c_str());
          changes++;
          c.label("append");
          break;
        }
        case 1: {  // insert
          int i = (int)c.index(t->a.size() + 1);
          NP x = value();
          c.note("insert %s at %d of %zu", show(plain(x)).c_str(), i, t->a.size());
          cee_json_array_insert(j, i, x->j);
          t->a.insert(t->a.begin() + i, x);
          changes++;
          c.label("insert");
          break;
        }
        case 2: {  // remove
          int i = c.chance(3, 4) ? (int)c.index(t->a.size() + 1) : c.pick({-1, INT32_MIN, INT32_MAX, (int)t->a.size()});
          c.note("remove %d of %zu", i, t->a.size());
          cee_json_array_remove(j, i);
          if (i >= 0 && i < (int)t->a.size()) { t->a.erase(t->a.begin() + i); changes++; c.label("remove-at"); }
          break;
        }
        case 3: {  // concatenate
          NP s = c.of(pool);
          if (s->v.k != ARR || weight(s) > 60 || big) break;
          bool cyc = false;
          for (auto &e : s->a) cyc = cyc || reaches(e, t.get());
          if (cyc) break;
          c.note("concatenate %zu and %zu elements%s", t->a.size(), s->a.size(), s == t ? " (itself)" : "");
          cee_json_array_concat(j, s->j);
          auto els = s->a;
          t->a.insert(t->a.end(), els.begin(), els.end());
          changes++;
          c.label("concat");
          break;
        }
        case 4: {
          int i = c.chance(3, 4) ? (int)c.index(t->a.size() + 1) : c.pick({-1, INT32_MIN, INT32_MAX});
          struct cee_json *g = cee_json_array_get(j, i), *w = i >= 0 && i < (int)t->a.size() ? t->a[i]->j : nullptr;
          CHECK(c, g == w, "at", "element %d of %zu is %p instead of %p", i, t->a.size(), (void *)g, (void *)w);
          break;
        }
        case 5: {
          Seen s;
          s.stop = c.draw(t->a.size());
          s.ret = c.pick({1, -1, 42});
          int r = cee_json_array_iterate(j, &s, see_element);
          size_t want = s.stop ? s.stop : t->a.size();
          CHECK(c, s.kv.size() == want, "iterate-count", "iteration over %zu elements, stopping after %zu, visited %zu", t->a.size(), s.stop, s.kv.size());
          CHECK(c, r == (s.stop ? s.ret : 0), "iterate-result", "iteration returned %d", r);
          for (size_t i = 0; i < s.kv.size(); i++) CHECK(c, s.idx[i] == (int)i && s.kv[i].second == t->a[i]->j, "iterate-order", "visit %zu was of element %d", i, s.idx[i]);
          break;
        }
        case 6: {
          std::string k = edit_key(c);
          std::vector<struct cee_json *> all;
          find_all(t, k, all);
          struct cee_json *g = cee_json_has(j, (char *)k.c_str());
          CHECK(c, (g != nullptr) == !all.empty() && (!g || std::find(all.begin(), all.end(), g) != all.end()), "has", "searching %s gave %p although %zu nested objects have it", quote(k).c_str(), (void *)g, all.size());
          break;
        }
        default:
          CHECK(c, cee_json_array_length(j) == t->a.size(), "length", "length %zu of %zu elements", cee_json_array_length(j), t->a.size());
          CHECK(c, cee_json_empty(j) == t->a.empty(), "empty", "an array of %zu elements: empty() is %d", t->a.size(), cee_json_empty(j));
          CHECK(c, !cee_json_object_rename(j, (char *)"a", (char *)"b"), "rename-array", "renaming a member of an array succeeded");
      }
    }
    for (auto &x : pool) CHECK(c, x->v.k == OBJ ? cee_map_size(cee_json_to_object(x->j)) == x->m.size() : cee_list_size(cee_json_to_array(x->j)) == x->a.size(), "size", "after the last operation a container has another size than its model");
  }
  for (auto &x : pool) if (weight(x) < 3000) expect(c, plain(x), x->j, "document", "a document after the history");
  V kept = plain(roots[0]);
  if (count(kept) < 20000) {
    std::string t = print(c, st, roots[0]->j, (int)c.draw(1));
    if (!has_kind(kept, BLOB) && !has_kind(kept, UNDEF)) {
      Ref r(t, true);
      CHECK(c, r.ok && eq_printed(kept, r.val), "printed", "the edited document %s printed as %s", show(kept, 1500).c_str(), quote(t, 1500).c_str());
    }
    if (c.chance(1, 2)) {
      cee_state_add_gc_root(st, roots[0]->j);
      cee_state_gc(st);
      expect(c, kept, roots[0]->j, "collected", "a rooted document after a collection");
      c.label("collected");
    }
  }
  if (changes >= 4) c.nontrivial();
  end(c, st);
}

PROPERTY("C28", "large", 1,
         "an array of 120 to 65540 elements or an object of 120 to 4100 members is grown by appending, inserting, concatenating or setting, then 10 to 60 "
         "edits and reads strike at its ends, its middle and around the sizes at which a counter runs out; the model is a vector; every case is non-trivial") {
  struct cee_state *st = cee_state_mk(10);
  size_t n = c.coin() ? text::edge(c) : (size_t)c.range(120, 1100);
  if (c.coin()) {
    while (n > 66000 || (n > 5000 && !c.chance(1, 12))) n /= 4;
    std::vector<struct cee_json *> m;
    struct cee_json *j = cee_json_array_mk(st, (int)c.pick({0, 1, 20, 255, 256, 1000}));
    int64_t id = 0;
    auto fresh = [&]() { return cee_json_i64_mk(st, id++); };
    int how = (int)c.draw(3);
    c.note("an array of %zu, %s", n, how == 0 ? "appended" : how == 1 ? "inserted at the end" : how == 2 ? "in pieces" : "inserted at the front");
    if (how == 3 && n > 3000) n = 3000;
    while (m.size() < n) {
      if (how == 2) {
        struct cee_json *p = cee_json_array_mk(st, 3);
        std::vector<struct cee_json *> pm;
        for (size_t k = std::min<size_t>(n - m.size(), 1 + c.draw(c.pick({3, 300, 20000}))); k; k--) { pm.push_back(fresh()); cee_json_array_append(p, pm.back()); }
        cee_json_array_concat(j, p);
        m.insert(m.end(), pm.begin(), pm.end());
        CHECK(c, cee_json_array_length(p) == pm.size(), "concat-source", "concatenating changed the length of the source");
      } else {
        struct cee_json *x = fresh();
        if (how == 0) cee_json_array_append(j, x), m.push_back(x);
        else if (how == 1) cee_json_array_insert(j, (int)m.size(), x), m.push_back(x);
        else cee_json_array_insert(j, 0, x), m.insert(m.begin(), x);
      }
    }
    auto at = [&](size_t end) { size_t s = m.size() + end; return s == 0 ? (size_t)0 : (size_t)std::min<uint64_t>(s - 1, c.pick<uint64_t>({0, 1, s - 1, s - 1 - c.draw(std::min<size_t>(s - 1, 4)), c.draw(s - 1), 127 + c.draw(2), 255 + c.draw(2), 32767 + c.draw(2)})); };
    for (unsigned k = (unsigned)c.range(10, 60); k; k--) switch (c.weighted({4, 4, 2, 3, 1, 1})) {
      case 0: { size_t i = at(1); struct cee_json *x = fresh(); c.note("insert at %zu of %zu", i, m.size()); cee_json_array_insert(j, (int)i, x); m.insert(m.begin() + i, x); break; }
      case 1: { size_t i = at(1); c.note("remove %zu of %zu", i, m.size()); cee_json_array_remove(j, (int)i); if (i < m.size()) m.erase(m.begin() + i); break; }
      case 2: { struct cee_json *x = fresh(); cee_json_array_append(j, x); m.push_back(x); break; }
      case 3: { size_t i = at(1); struct cee_json *g = cee_json_array_get(j, (int)i); CHECK(c, g == (i < m.size() ? m[i] : nullptr), "at", "element %zu of %zu is another one", i, m.size()); break; }
      case 4: if (m.size() < 40000) { c.note("concatenate %zu with itself", m.size()); cee_json_array_concat(j, j); auto o = m; m.insert(m.end(), o.begin(), o.end()); } break;
      default: CHECK(c, cee_json_array_length(j) == m.size() && !cee_json_empty(j) == !m.empty(), "length", "length %zu of %zu elements", cee_json_array_length(j), m.size());
    }
    Seen s;
    s.stop = c.coin() ? 0 : 1 + c.draw(m.size() ? m.size() - 1 : 0);
    s.ret = 1;
    cee_json_array_iterate(j, &s, see_element);
    CHECK(c, s.kv.size() == (s.stop ? std::min(s.stop, m.size()) : m.size()), "iterate-count", "iteration over %zu elements, stopping after %zu, visited %zu", m.size(), s.stop, s.kv.size());
    for (size_t i = 0; i < s.kv.size(); i++) CHECK(c, s.idx[i] == (int)i && s.kv[i].second == m[i], "iterate-order", "visit %zu of %zu was of another element", i, m.size());
    CHECK(c, cee_json_array_length(j) == m.size(), "length", "length %zu of %zu elements", cee_json_array_length(j), m.size());
    for (size_t i = 0; i < m.size(); i++) CHECK(c, cee_json_array_get(j, (int)i) == m[i], "document", "element %zu of %zu is another one", i, m.size());
    c.label(m.size() > 30000 ? "array >30000" : "array");
  } else {
    while (n > 4200) n /= 4;
    std::vector<std::pair<std::string, struct cee_json *>> m;
    std::map<std::string, size_t> where;  // may be stale after removals, then rebuilt
    struct cee_json *j = cee_json_object_mk(st);
    unsigned step = (unsigned)c.pick({1, 3, 7919});
    auto key = [&](size_t i) { return "k" + std::to_string(i * step % 10007); };
    auto set = [&](const std::string &k, struct cee_json *x) {
      cee_json_object_set(j, (char *)k.c_str(), x);
      auto w = where.find(k);
      if (w != where.end()) m[w->second].second = x;
      else where[k] = m.size(), m.emplace_back(k, x);
    };
    auto drop = [&](const std::string &k) {
      auto w = where.find(k);
      if (w == where.end()) return;
      m.erase(m.begin() + w->second);
      where.clear();
      for (size_t i = 0; i < m.size(); i++) where[m[i].first] = i;
    };
    int64_t id = 0;
    for (size_t i = 0; i < n; i++) set(key(i), cee_json_i64_mk(st, id++));
    c.note("an object of %zu", m.size());
    for (unsigned k = (unsigned)c.range(10, 60); k; k--) {
      std::string a = m.empty() || c.chance(1, 6) ? key(n + c.draw(50)) : m[c.pick<size_t>({0, m.size() - 1, c.index(m.size()), std::min<size_t>(m.size() - 1, 255)})].first;
      switch (c.weighted({3, 4, 3, 3})) {
        case 0: c.note("set %s", a.c_str()); set(a, cee_json_i64_mk(st, id++)); break;
        case 1: c.note("remove %s", a.c_str()); cee_json_object_remove(j, (char *)a.c_str()); drop(a); break;
        case 2: {
          std::string b = c.coin() || m.empty() ? key(n + 60 + c.draw(50)) : c.of(m).first;
          c.note("rename %s to %s", a.c_str(), b.c_str());
          bool was = where.count(a), r = cee_json_object_rename(j, (char *)a.c_str(), (char *)b.c_str());
          CHECK(c, r == was, "rename", "renaming %s key returned %d", was ? "a present" : "an absent", r);
          if (was) {
            struct cee_json *x = m[where[a]].second;
            drop(a);
            auto w = where.find(b);
            if (w != where.end()) m[w->second].second = x;
            else where[b] = m.size(), m.emplace_back(b, x);
          }
          break;
        }
        default: { struct cee_json *g = cee_json_object_get(j, (char *)a.c_str()); CHECK(c, g == (where.count(a) ? m[where[a]].second : nullptr), "get", "reading %s among %zu members gave another value", a.c_str(), m.size()); }
      }
    }
    Seen s;
    s.stop = 0;
    s.ret = 1;
    cee_json_object_iterate(j, &s, see_member);
    CHECK(c, s.kv.size() == m.size(), "iterate-count", "iteration over %zu members visited %zu", m.size(), s.kv.size());
    for (auto &e : s.kv) CHECK(c, where.count(e.first) && m[where[e.first]].second == e.second, "iterate-pair", "iteration visited %s with a value that is not its own", e.first.c_str());
    struct cee_list *keys = cee_map_insertion_ordered_keys(cee_json_to_object(j));
    CHECK(c, cee_list_size(keys) == m.size(), "document", "%zu keys instead of %zu", cee_list_size(keys), m.size());
    for (size_t i = 0; i < m.size(); i++) CHECK(c, m[i].first == (char *)keys->a[i] && cee_json_object_get(j, (char *)m[i].first.c_str()) == m[i].second, "document", "member %zu of %zu is another one", i, m.size());
    cee_del(keys);
    c.label("object");
  }
  c.nontrivial();
  end(c, st);
}

// ------------------------------------------------------------------ C29
PROPERTY("C29", "accessors", 200,
         "every accessor is applied to a generated value of every kind: it yields the value exactly if it is of the accessor's kind (and fits an int), "
         "otherwise it fails and leaves its result alone; non-trivial unless the value is null or a boolean") {
  Gen g;
  g.extra = true;
  g.budget = 5;
  V v = gen_value(c, g, c.coin() ? 1 : 0);
  if (v.k == STRN || v.k == BLOB) {  // any bytes
    v.s.clear();
    for (unsigned n = (unsigned)c.draw(c.pick({4, 40, 3000})); n; n--) v.s += (char)c.draw(255);
    if (c.chance(1, 20)) v.s += text::ramp(text::edge(c), (unsigned)c.draw(93));
  }
  if (v.k == I64 && c.coin()) v.i = c.pick<int64_t>({INT32_MAX, INT32_MIN, (int64_t)INT32_MAX + 1, (int64_t)INT32_MIN - 1, (int64_t)1 << 32, -((int64_t)1 << 32), ((int64_t)1 << 32) + 5, INT64_MAX, INT64_MIN});
  c.note("value %s", show(v, 1000).c_str());
  struct cee_state *st = cee_state_mk(10);
  struct cee_json *j = build(c, st, v);
  CHECK(c, (cee_json_to_object(j) != nullptr) == (v.k == OBJ), "to-object", "to_object of %s", show(v).c_str());
  CHECK(c, (cee_json_to_array(j) != nullptr) == (v.k == ARR), "to-array", "to_array of %s", show(v).c_str());
  CHECK(c, (cee_json_to_str(j) != nullptr) == (v.k == STR), "to-str", "to_str of %s", show(v).c_str());
  CHECK(c, (cee_json_to_blob(j) != nullptr) == (v.k == BLOB), "to-blob", "to_blob of %s", show(v).c_str());
  CHECK(c, (cee_json_to_boxed(j) != nullptr) == is_num(v), "to-boxed", "to_boxed of %s", show(v).c_str());
  CHECK(c, cee_json_empty(j) == ((v.k == OBJ && v.m.empty()) || (v.k == ARR && v.a.empty())), "empty", "empty of %s", show(v).c_str());
  double d = 0.125;
  int r = cee_json_to_doublex(j, &d);
  CHECK(c, (r == 0) == (v.k == DBL) && same_bits(d, v.k == DBL ? v.d : 0.125), "to-double", "to_doublex of %s: %d, %.17g", show(v).c_str(), r, d);
  int i = -4242;
  r = cee_json_to_intx(j, &i);
  bool fits = v.k == I64 && v.i >= INT32_MIN && v.i <= INT32_MAX;
  CHECK(c, (r == 0) == fits && i == (fits ? (int)v.i : -4242), "to-int", "to_intx of %s: %d, %d", show(v).c_str(), r, i);
  int64_t l = -4242;
  r = cee_json_to_i64x(j, &l);
  CHECK(c, (r == 0) == (v.k == I64) && l == (v.k == I64 ? v.i : -4242), "to-i64", "to_i64x of %s: %d, %" PRId64, show(v).c_str(), r, l);
  uint64_t u = 4242;
  r = cee_json_to_u64x(j, &u);
  CHECK(c, (r == 0) == (v.k == U64) && u == (v.k == U64 ? v.u : 4242), "to-u64", "to_u64x of %s: %d, %" PRIu64, show(v).c_str(), r, u);
  bool b = c.coin(), b0 = b;
  r = cee_json_to_boolx(j, &b);
  CHECK(c, (r == 0) == (v.k == BOOL) && b == (v.k == BOOL ? v.b : b0), "to-bool", "to_boolx of %s: %d, %d", show(v).c_str(), r, b);
  char *s = (char *)&b, *s0 = s;
  size_t n = 4242;
  bool ok = cee_json_to_strn(j, &s, &n);
  CHECK(c, ok == (v.k == STRN), "to-strn", "to_strn of %s: %d", show(v).c_str(), ok);
  if (ok) CHECK(c, s == v.s.data() && n == v.s.size(), "strn", "a counted string of %zu bytes gave %zu", v.s.size(), n);
  else CHECK(c, s == s0 && n == 4242, "strn-failed", "a failed to_strn changed its results");
  expect(c, v, j, "value", "the value built");
  if (v.k == BLOB) {
    size_t bs = cee_block_size(cee_json_to_blob(j));
    CHECK(c, bs == v.s.size(), "blob-size", "a blob of %zu bytes has %zu", v.s.size(), bs);
  }
  if (v.k != NUL && v.k != BOOL) c.nontrivial();
  c.label(KN[v.k]);
  end(c, st);
}
PROPERTY("C29", "conversions", 150,
         "a member of an object is converted to an integer: an integer stays, a numeric string in range becomes its number, anything else is refused "
         "and stays; an object, string or array is wrapped as a list; non-trivial if the member is a string") {
  V o = v_obj();
  Gen g;
  g.budget = 4;
  for (unsigned n = (unsigned)c.draw(4); n; n--) o.set(std::string(1, (char)c.range('a', 'e')), gen_value(c, g, 3));
  std::string key = std::string(1, (char)c.range('a', 'e'));
  bool good = false;
  int64_t want = 0;
  switch (c.weighted({4, 2, 2, 1, 1})) {
    case 0: {
      int64_t x = gen_i64(c);
      want = x;
      good = true;
      o.set(key, v_str(std::to_string(x)));
      break;
    }
    case 1: o.set(key, v_str(c.pick<const char *>({"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551616", "99999999999999999999", "12x", "x12", "", "-", "1.5", "0x10", "1 ", "1e3", "12,", "--1"}))); break;
    case 2: o.set(key, v_i64(gen_i64(c))); break;
    case 3: g.extra = true; o.set(key, gen_scalar(c, g)); break;
    default: for (size_t i = 0; i < o.m.size(); i++) if (o.m[i].first == key) { o.m.erase(o.m.begin() + i); break; }
  }
  c.note("object %s key %s", show(o, 1000).c_str(), key.c_str());
  struct cee_state *st = cee_state_mk(10);
  struct cee_json *j = build(c, st, o);
  struct cee_json *keep = cee_json_array_mk(st, 1), *oldj = cee_json_object_get(j, (char *)key.c_str());
  V old;
  if (oldj) { cee_json_array_append(keep, oldj); old = *o.find(key); }
  V *m = o.find(key);
  bool expect_ok;
  if (m && m->k == STR) {
    if (!good) {
      const std::string &t = m->s;
      size_t k = t.size() && t[0] == '-';
      bool digits = k < t.size() && t.find_first_not_of("0123456789", k) == std::string::npos;
      if (digits) { V nv = number(t); good = nv.k == I64; want = nv.i; }
    }
    expect_ok = good;
    c.nontrivial();
  } else expect_ok = m && m->k == I64;
  // leading zeros and blanks in front are read leniently: not generated above, possible in random members
  bool r = cee_json_object_convert_to_i64(j, (char *)key.c_str());
  CHECK(c, r == expect_ok, "convert", "converting member %s of %s returned %d", key.c_str(), show(o).c_str(), r);
  if (m && m->k == STR && r) *m = v_i64(want);
  expect(c, o, j, "converted", "the object after the conversion");
  if (oldj) { V l = v_arr(); l.a.push_back(old); expect(c, l, keep, "shared", "another document that holds the old member"); }
  V arr = v_arr();
  arr.a.push_back(v_i64(1));
  CHECK(c, !cee_json_object_convert_to_i64(build(c, st, arr), (char *)"a"), "convert-array", "converting a member of an array succeeded");
  // wrapping
  V s = v_str(gen_text(c, 4));
  struct cee_json *js = build(c, st, s), *ja = build(c, st, arr);
  CHECK(c, cee_json_listify(ja) == ja, "listify-array", "wrapping an array did not give the array");
  for (auto &p : {std::make_pair(&o, j), std::make_pair(&s, js)}) {
    V l = v_arr();
    l.a.push_back(*p.first);
    struct cee_json *jl = cee_json_listify(p.second);
    expect(c, l, jl, "listify", "a wrapped value");
    CHECK(c, cee_json_array_get(jl, 0) == p.second, "listify-same", "the wrapped value is a copy");
    expect(c, *p.first, p.second, "listify-original", "the value that was wrapped");
  }
  end(c, st);
}

// ------------------------------------------------------------------ C30
// the merge of b into a; false if they are not both objects or both arrays
bool merge(V &a, const V &b) {
  if (a.k != b.k || (a.k != OBJ && a.k != ARR)) return false;
  if (a.k == ARR) { std::vector<V> els = b.a; a.a.insert(a.a.end(), els.begin(), els.end()); return true; }
  for (auto &e : b.m) {
    V *o = a.find(e.first);
    if (!o) a.m.push_back(e);
    else if (!merge(*o, e.second)) *o = e.second;
  }
  return true;
}
V merge_doc(Case &c, unsigned budget) {
  Gen g;
  g.budget = budget;
  g.max_depth = 4;
  V v = c.chance(5, 6) ? v_obj() : gen_value(c, g);
  if (v.k == OBJ && v.m.empty())
    while (g.budget && c.more(5)) {
      std::string k = std::string(1, (char)c.range('a', 'f'));
      v.set(k, gen_value(c, g, c.chance(1, 2) ? 0 : 2));
    }
  return v;
}
void expect_set(Case &c, const V &v, struct cee_json *j, const char *sig, const char *what) {
  V r = read(j);
  CHECK(c, eq(sorted(v), sorted(r)), sig, "%s is %s instead of %s", what, show(r, 1500).c_str(), show(v, 1500).c_str());
}
PROPERTY("C30", "merges", 100,
         "1 to 4, sometimes up to 12 generated documents are merged in turn into one (built or parsed, of any kinds, sharing keys), against a recursive union; each source "
         "is unchanged right after its merge; then documents are printed, deleted, collected; non-trivial if two objects have a key in common") {
  struct cee_state *st = cee_state_mk(10);
  V d = merge_doc(c, 12);
  struct cee_json *jd = build(c, st, d);
  unsigned n = (unsigned)(c.chance(1, 15) ? c.range(5, 12) : c.range(1, 4));
  struct cee_json *last = nullptr;
  V lastv;
  for (unsigned i = 0; i < n; i++) {
    V s = merge_doc(c, 12);
    struct cee_json *js;
    if (c.coin()) js = build(c, st, s);
    else {
      std::string t;
      put_value(c, t, s);
      int line;
      cee_json_parsex(st, (char *)t.data(), t.size(), &js, true, &line);
    }
    c.note("merge %s into %s", show(s, 1000).c_str(), show(d, 1000).c_str());
    V was = d;
    for (auto &e : s.m) if (d.k == OBJ && d.find(e.first)) c.nontrivial();
    bool m = merge(d, s), r;
    if (c.coin()) r = cee_json_merge(jd, js);
    else { struct cee_json *p = jd; r = cee_json_merge_or_return(&p, js); CHECK(c, p == jd, "replaced", "merge_or_return replaced a present document"); }
    CHECK(c, r == m, "result", "merging %s into %s returned %d", show(s).c_str(), show(was).c_str(), r);
    expect(c, s, js, "source", "the source right after the merge");
    if (m && was.k == OBJ) {
      expect_set(c, d, jd, "merged", "the merge");
      // the old members keep their places
      struct cee_list *keys = cee_map_insertion_ordered_keys(cee_json_to_object(jd));
      for (size_t k = 0; k < was.m.size(); k++) CHECK(c, cee_list_size(keys) > k && was.m[k].first == (char *)keys->a[k], "order", "the merge moved member %s", quote(was.m[k].first).c_str());
      cee_del(keys);
    } else expect(c, d, jd, "merged", "the merge");
    d = read(jd);  // the order in which new members came
    last = js;
    lastv = s;
  }
  if (c.coin()) {
    std::string t = print(c, st, jd, (int)c.draw(1));
    Ref p(t, true);
    CHECK(c, p.ok && eq_printed(d, p.val), "printed", "the merge %s printed as %s", show(d).c_str(), quote(t, 1500).c_str());
  }
  CHECK(c, !cee_json_merge(nullptr, jd) && !cee_json_merge(jd, nullptr) && !cee_json_merge_or_return(&jd, nullptr) && !cee_json_merge_or_return(nullptr, jd), "null", "merging with nothing succeeded");
  struct cee_json *none = nullptr;
  CHECK(c, cee_json_merge_or_return(&none, jd) && none == jd, "return", "merging into nothing did not give the source");
  expect(c, d, jd, "untouched", "a document merged with nothing");
  switch (c.draw(4)) {
    case 0: cee_del(jd); expect(c, lastv, last, "after-delete", "the last source after the merge was deleted"); c.label("delete merge"); break;
    case 1: cee_del(last); expect(c, d, jd, "after-delete", "the merge after its last source was deleted"); c.label("delete source"); break;
    case 2: cee_state_add_gc_root(st, jd); cee_state_gc(st); expect(c, d, jd, "collected", "the rooted merge after a collection"); c.label("collect"); break;
    case 3: cee_state_add_gc_root(st, last); cee_state_gc(st); expect(c, lastv, last, "collected", "the rooted source after a collection"); c.label("collect"); break;
    default: cee_del(jd); cee_del(last); c.label("delete both"); break;
  }
  end(c, st);
}
PROPERTY("C30", "self", 60,
         "a document merged into itself, or into a document that shares parts with it: arrays double, nothing else changes; non-trivial if the document "
         "has an array") {
  struct cee_state *st = cee_state_mk(10);
  V d = merge_doc(c, 12);
  c.note("document %s", show(d, 1000).c_str());
  struct cee_json *jd = build(c, st, d);
  if (c.coin()) {
    bool r = cee_json_merge(jd, jd);
    CHECK(c, r == (d.k == OBJ || d.k == ARR), "result", "merging a document into itself returned %d", r);
    V self = d;
    merge(d, self);
  } else {
    // e gets d's parts, then d again: shared arrays meet themselves
    struct cee_json *e = cee_json_object_mk(st);
    if (d.k == OBJ) {
      cee_json_merge(e, jd);
      bool r = cee_json_merge(e, jd);
      CHECK(c, r, "result", "merging twice returned %d", r);
      V self = d;
      merge(d, self);
      expect_set(c, d, e, "merged", "the twice merged document");
      for (auto &m : d.m) (void)m;
    }
  }
  V got = read(jd);
  CHECK(c, eq(sorted(d), sorted(got)), "self", "merged with itself: %s instead of %s", show(got, 1000).c_str(), show(d, 1000).c_str());
  if (has_kind(d, ARR)) c.nontrivial();
  end(c, st);
}

// ------------------------------------------------------------------ C31
void all_nodes(struct cee_json *j, std::set<struct cee_json *> &out) {
  out.insert(j);
  if (struct cee_list *l = cee_json_to_array(j)) for (size_t i = 0; i < cee_list_size(l); i++) all_nodes((struct cee_json *)l->a[i], out);
  if (cee_json_to_object(j)) {
    struct cee_list *v = cee_map_values(cee_json_to_object(j));
    for (size_t i = 0; i < cee_list_size(v); i++) all_nodes((struct cee_json *)v->a[i], out);
    cee_del(v);
  }
}
struct Text0 {  // an exactly sized, terminated, read-only-by-contract string
  char *p;
  std::string o;
  explicit Text0(const std::string &s) : p(new char[s.size() + 1]), o(s) { memcpy(p, s.c_str(), s.size() + 1); }
  ~Text0() { delete[] p; }
  bool unchanged() const { return memcmp(p, o.c_str(), o.size() + 1) == 0; }
};
std::string sel_key(Case &c) {
  std::string k;
  if (c.chance(3, 4)) return std::string(1, (char)c.range('a', 'h'));
  k = c.chance(1, 10) ? std::string(1 + c.draw(199), 'k') : gen_text(c, 6);
  std::string r;
  for (char ch : k) if (!strchr(".[]:*", ch)) r += ch;
  return r.empty() ? "z" : r;
}
V sel_doc(Case &c) {
  Gen g;
  g.budget = 25;
  g.extra = true;
  g.max_depth = 5;
  V v = gen_value(c, g);
  if (c.chance(1, 4)) {
    V l = v_arr();
    for (unsigned n = 9 + (unsigned)c.draw(30); n; n--) l.a.push_back(v_i64((int64_t)n));
    l.a.push_back(v);
    v = l;
  }
  // more nesting, keys that selectors can name and keys they cannot
  for (int i = 0; i < 3; i++) {
    V o = c.coin() ? v_obj() : v_arr();
    if (o.k == OBJ) { o.set(sel_key(c), v); o.set(c.pick<const char *>({"a.b", "x[1]", "k:s", "*", "a"}), gen_value(c, g, 4)); }
    else { for (unsigned k = (unsigned)c.draw(2); k; k--) o.a.push_back(gen_value(c, g, 4)); o.a.push_back(v); }
    v = o;
  }
  return v;
}
typedef struct cee_json *(*Sel)(struct cee_json *, char *, uintptr_t, uintptr_t, uintptr_t, uintptr_t);
struct Args {
  uintptr_t a[4] = {0, 0, 0, 0};
  std::vector<std::shared_ptr<Text0>> keep;
  unsigned n = 0;
};
struct cee_json *select(struct cee_json *j, char *p, const Args &a) { return cee_json_select(j, p, a.a[0], a.a[1], a.a[2], a.a[3]); }
// follows and writes a path of k steps; the value reached, null if a step is missing
V *path(Case &c, V *v, std::string &t, Args &args, unsigned k) {
  for (; k; k--) {
    int step = !v ? (int)c.draw(2) : v->k == OBJ ? c.weighted({8, 1, 2}) : v->k == ARR ? c.weighted({1, 8, 2}) : c.weighted({2, 2, 4});
    if (step == 0) {
      std::string key = v && v->k == OBJ && !v->m.empty() && c.chance(7, 8) ? c.of(v->m).first : sel_key(c);
      bool plain = key.find_first_of(".[]:*") == std::string::npos && !key.empty() && key.size() <= 200;
      t += '.';
      if (key.empty() || key.size() > 200) { key = "z"; plain = true; }
      if (args.n < 4 && (!plain || c.chance(1, 3))) {  // (part of) the key as an argument
        size_t b = 0, e = key.size();
        if (plain) { b = c.index(e); e = b + 1 + c.index(e - b); }
        t += key.substr(0, b) + "*" + key.substr(e);
        args.keep.push_back(std::make_shared<Text0>(key.substr(b, e - b)));
        args.a[args.n++] = (uintptr_t)args.keep.back()->p;
      } else {
        if (!plain) key = "z";
        t += key;
      }
      v = v && v->k == OBJ ? v->find(key) : nullptr;
    } else if (step == 1) {
      int i = v && v->k == ARR && !v->a.empty() && c.chance(6, 7) ? (int)c.index(v->a.size()) : c.pick({0, 1, 7, 1000000, INT32_MAX});
      if (args.n < 4 && c.chance(1, 3)) {
        if (c.chance(1, 10)) i = c.pick({-1, INT32_MIN});
        t += "[*]";
        args.a[args.n++] = (uintptr_t)(unsigned)i;
      } else if (args.n < 4 && i >= 10 && c.coin()) {  // the last digits as an argument
        std::string ds = std::to_string(i);
        size_t b = 1 + c.index(ds.size() - 1);
        if (ds[b] == '0') b = ds.size() - 1;
        t += "[" + ds.substr(0, b) + "*]";
        args.a[args.n++] = (uintptr_t)(unsigned)atoi(ds.c_str() + b);
      } else t += "[" + std::string(c.chance(1, 6) ? c.range(1, 4) : 0, '0') + std::to_string(i) + "]";
      v = v && v->k == ARR && i >= 0 && (size_t)i < v->a.size() ? &v->a[i] : nullptr;
    } else {
      bool fit = c.chance(4, 5);
      char ch = c.pick({'s', 'n', 'a', 'o', 'b', '!'});
      if (v && fit) ch = v->k == STR ? 's' : is_num(*v) ? 'n' : v->k == ARR ? 'a' : v->k == OBJ ? 'o' : v->k == BOOL ? 'b' : v->k == NUL ? '!' : 's';
      t += ':';
      t += ch;
      bool is = v && (ch == 's' ? v->k == STR : ch == 'n' ? is_num(*v) : ch == 'a' ? v->k == ARR : ch == 'o' ? v->k == OBJ : ch == 'b' ? v->k == BOOL : v->k == NUL);
      if (!is) v = nullptr;
    }
  }
  return v;
}
PROPERTY("C31", "paths", 100,
         "a selector of 0 to 6 steps (keys, indices, type tests; keys, parts of keys and indices as arguments) that mostly follows a generated document "
         "is evaluated and compared with following the path in the model; non-trivial if it has at least 2 steps and reaches a value") {
  V d = sel_doc(c);
  struct cee_state *st = cee_state_mk(10);
  struct cee_json *j = build(c, st, d);
  std::string t;
  Args args;
  unsigned k = (unsigned)c.draw(6);
  V *w = path(c, &d, t, args, k);
  c.note("selector %s on %s", quote(t).c_str(), show(d, 1500).c_str());
  Text0 s(t);
  struct cee_json *r = select(j, s.p, args);
  CHECK(c, s.unchanged(), "selector-changed", "the selector was changed");
  CHECK(c, (r != nullptr) == (w != nullptr), w ? "missing" : "found", "%s of %s gave %s", quote(t).c_str(), show(d, 1500).c_str(), r ? "a value" : "null");
  if (w) {
    expect(c, *w, r, "value", ("the value of " + quote(t)).c_str());
    std::set<struct cee_json *> all;
    all_nodes(j, all);
    CHECK(c, all.count(r), "copy", "%s gave a value that is not part of the document", quote(t).c_str());
    if (k >= 2) c.nontrivial();
  }
  c.label(w ? "reached" : "absent");
  if (args.n == 0) {
    int x = -4242;
    int e = cee_json_select_as_int(j, &x, s.p);
    bool ok = w && w->k == I64 && w->i >= INT32_MIN && w->i <= INT32_MAX;
    CHECK(c, (e == 0) == ok && x == (ok ? (int)w->i : -4242), "as-int", "%s as an integer: status %d, %d", quote(t).c_str(), e, x);
  }
  CHECK(c, cee_json_select(nullptr, s.p, args.a[0], args.a[1], args.a[2], args.a[3]) == nullptr, "null", "selecting from nothing gave a value");
  expect(c, d, j, "changed", "the document after the selection");
  end(c, st);
}
PROPERTY("C31", "malformed", 80,
         "selectors damaged by edits, and selectors of listed malformed forms, in exactly sized buffers: the listed forms select nothing, any "
         "other gives null or a part of the document, reads nothing outside the selector and changes nothing; non-trivial if at least 2 long") {
  V d = sel_doc(c);
  struct cee_state *st = cee_state_mk(10);
  struct cee_json *j = build(c, st, d);
  std::string t;
  Args args;
  unsigned k = (unsigned)c.draw(4);
  V *w = path(c, &d, t, args, k);
  bool must_fail = false;
  if (args.n == 0 && c.coin()) {
    // forms that denote nothing, whatever precedes them
    if (w && w->k == ARR && c.coin()) t += c.pick<const char *>({"[0x0]", "[0x1]", "[0X1]", "[0b1]", "[0 ]", "[1e0]", "[0a]", "[00_]", "[a0]", "[0,]", "[+]", "[-0x1]"});
    else t += c.pick<const char *>({".", "[", ":", "[x]", "[1x]", "[99999999999]", "[4294967296]", "[-1]", "[]", "[18446744073709551616]", ":*"});
    if (k == 0 && c.coin()) t = c.pick<const char *>({"a", "a.b", "1", "*", " .a", "]a"});
    must_fail = true;
  } else {
    static const char alpha[] = ".[]:*ab01s!";
    for (unsigned e = (unsigned)c.range(1, 3); e; e--) switch (c.draw(3)) {
      case 0: if (!t.empty()) t.erase(c.index(t.size()), 1); break;
      case 1: t.insert(c.index(t.size() + 1), 1, alpha[c.index(11)]); break;
      case 2: if (!t.empty()) t[c.index(t.size())] = c.chance(1, 4) ? (char)c.range(1, 255) : alpha[c.index(11)]; break;
      default: t.insert(c.index(t.size() + 1), std::string(c.pick({1, 100, 254, 255, 256, 257, 258, 600}), c.pick({'a', '1', '.'}))); break;
    }
    // every placeholder needs an argument that suits both kinds: none, then
    std::string u;
    for (char ch : t) if (ch != '*') u += ch;
    t = u;
  }
  c.note("selector %s on %s", quote(t, 1500).c_str(), show(d, 1500).c_str());
  Text0 s(t);
  struct cee_json *r = cee_json_select(j, s.p);
  CHECK(c, s.unchanged(), "selector-changed", "the selector was changed");
  if (must_fail) CHECK(c, r == nullptr, "malformed", "the malformed selector %s gave a value", quote(t).c_str());
  if (r) {
    std::set<struct cee_json *> all;
    all_nodes(j, all);
    CHECK(c, all.count(r), "copy", "%s gave a value that is not part of the document", quote(t, 1500).c_str());
  }
  expect(c, d, j, "changed", "the document after the selection");
  if (t.size() >= 2) c.nontrivial();
  (void)w;
  end(c, st);
}
PROPERTY("C31", "long_arguments", 20,
         "keys of up to 700 bytes given whole, in parts or as arguments: a key of at most 200 bytes is found, a longer one is found or not, and nothing "
         "outside the buffers is touched; non-trivial if over 200 bytes") {
  std::string key((size_t)c.draw(c.pick({200, 300, 700})) + 1, c.pick({'k', 'q'}));
  V d = v_obj();
  d.set(key, v_i64(1));
  struct cee_state *st = cee_state_mk(10);
  struct cee_json *j = build(c, st, d);
  size_t b = c.index(key.size()), e = b + 1 + c.index(key.size() - b);
  Text0 whole("." + key), part("." + key.substr(0, b) + "*" + key.substr(e)), arg(key.substr(b, e - b)), star(".*"), full(key);
  struct cee_json *r[3] = {cee_json_select(j, whole.p), cee_json_select(j, part.p, arg.p), cee_json_select(j, star.p, full.p)};
  for (int i = 0; i < 3; i++) {
    if (key.size() <= 200) CHECK(c, r[i], "missing", "a key of %zu bytes was not found (form %d)", key.size(), i);
    if (r[i]) expect(c, v_i64(1), r[i], "value", "the value of a long key");
  }
  if (key.size() > 200) c.nontrivial();
  end(c, st);
}

// ------------------------------------------------------------------ C32
extern "C" size_t cee_json_escape_string(const char *, size_t, char *, size_t, char **, size_t *);
std::string unescape(Case &c, const std::string &body, bool *ok) {
  std::string t = "\"" + body + "\"";
  Ref r(t, true, true);
  *ok = r.ok;
  return r.val.s;
}
PROPERTY("C32", "escape", 300,
         "any bytes are escaped into exactly sized destinations, of ample size and of every kind of smaller size: the full escape reads back as the "
         "bytes, the returned length does not depend on the destination, and what fits is a prefix that the advanced pointer and size describe; "
         "non-trivial if something needs an escape") {
  std::string s;
  bool plain = c.coin();
  for (unsigned n = (unsigned)c.draw(c.pick({3, 12, 60})); n; n--)
    s += plain ? (char)c.range('a', 'z') : c.weighted({3, 2, 1}) == 0 ? c.pick({'"', '\\', '\n', '\r', '\t', '\b', '\f', '\x01', '\x1f', '\x00', '/', '\x7f'}) : (char)c.draw(255);
  Exact src(s);
  size_t big = s.size() * 6 + 1;
  std::vector<char> room(big + 1, 'Z');
  char *nd = nullptr;
  size_t ns = 0;
  size_t L = cee_json_escape_string(src.p, src.n, room.data(), big, &nd, &ns);
  CHECK(c, L <= s.size() * 6, "length", "the escape of %zu bytes needs %zu", s.size(), L);
  CHECK(c, nd == room.data() + L && ns == big - L, "advance", "escaping %zu bytes to %zu advanced by %zd and left %zu of %zu", s.size(), L, nd - room.data(), ns, big);
  CHECK(c, room[big] == 'Z', "after", "escaping wrote after the destination");
  std::string full(room.data(), L);
  c.note("bytes %s escape %s", quote(s).c_str(), quote(full).c_str());
  for (unsigned char ch : full) CHECK(c, ch >= 0x20, "raw-control", "the escape of %s has the raw byte %02x", quote(s).c_str(), ch);
  bool ok;
  std::string back = unescape(c, full, &ok);
  CHECK(c, ok && back == s, "read-back", "%s escaped to %s, which %s", quote(s).c_str(), quote(full).c_str(), ok ? ("reads back as " + quote(back)).c_str() : "is not the body of a JSON string");
  for (int k = 0; k < 4; k++) {
    size_t n = k == 0 ? L : k == 1 ? (L ? L - 1 : 0) : k == 2 ? 0 : (size_t)c.draw(L);
    char *b = new char[n ? n : 1];
    char *d = n ? b : b + 1;
    char *nd2 = (char *)&ok;
    size_t ns2 = 4242;
    int opt = k == 3 ? (int)c.draw(3) : 3;
    size_t r = cee_json_escape_string(src.p, src.n, d, n, opt & 1 ? &nd2 : nullptr, opt & 2 ? &ns2 : nullptr);
    CHECK(c, r == L, "needed", "escaping into %zu bytes returned %zu instead of %zu", n, r, L);
    size_t w = 0;
    if (opt & 1) {
      w = (size_t)(nd2 - d);
      CHECK(c, nd2 >= d && w <= n, "pointer", "the destination pointer moved by %zd in %zu bytes", nd2 - d, n);
      CHECK(c, w == L || n < L, "incomplete", "only %zu of %zu bytes were written although %zu fit", w, L, n);
      CHECK(c, memcmp(d, full.data(), w) == 0, "prefix", "what was written is not a prefix of the escape");
    }
    if (opt == 3) CHECK(c, ns2 == n - w, "remaining", "after %zu of %zu bytes %zu remain", w, n, ns2);
    delete[] b;
  }
  CHECK(c, src.unchanged(), "source", "the source was changed");
  if (full != s) c.nontrivial();
}
PROPERTY("C32", "chained", 60,
         "several texts are escaped one after another into one destination through the advanced pointer and size: the result is the concatenation of "
         "their escapes; non-trivial if at least 3 texts") {
  std::string all;
  size_t total = 0;
  std::vector<std::string> parts;
  while (parts.size() < 6 && c.more(3)) { parts.push_back(gen_text(c, 5)); total += parts.back().size(); }
  size_t size = total * 6;
  char *b = new char[size ? size : 1], *d = size ? b : b + 1;
  char *p = d;
  size_t left = size;
  for (auto &s : parts) {
    size_t n = cee_json_escape_string(s.data(), s.size(), p, left, &p, &left);
    all += s;
    (void)n;
  }
  bool ok;
  std::string got(d, (size_t)(p - d)), back = unescape(c, got, &ok);
  CHECK(c, ok && back == all, "chain", "the escapes of %s one after another are %s", quote(all).c_str(), quote(got).c_str());
  CHECK(c, left == size - (size_t)(p - d), "left", "%zu bytes remain of %zu after %zd", left, size, p - d);
  delete[] b;
  if (parts.size() >= 3) c.nontrivial();
}

PROPERTY("C32", "long", 2,
         "texts of up to 260000 bytes, their length or that of their escape next to a power of two, plain with a few bytes to escape or all to be escaped, escaped into an "
         "ample destination, one of exactly the needed size, one byte less and a few shorter ones; every case is non-trivial") {
  size_t m = text::edge(c);
  std::string s;
  switch (c.draw(3)) {
    case 0: s = text::ramp(m, 1); break;
    case 1: s.assign(m, 'x'); for (int k = 0; k < 4; k++) s[c.coin() ? m - 1 - c.draw(6) : c.index(m)] = c.pick({'"', '\n', '\x01', '\\'}); break;
    case 2: s.assign(m / 6, '\x01'); break;
    default: s.assign(m / 2 + c.draw(2), '"'); break;
  }
  c.note("%zu bytes", s.size());
  Exact src(s);
  std::string full;
  {
    size_t big = s.size() * 6 + 1, ns = 0;
    std::vector<char> room(big);
    char *nd = nullptr;
    size_t L = cee_json_escape_string(src.p, src.n, room.data(), big, &nd, &ns);
    CHECK(c, L <= s.size() * 6 && nd == room.data() + L && ns == big - L, "advance", "escaping %zu bytes gave %zu", s.size(), L);
    full.assign(room.data(), L);
  }
  bool ok;
  std::string back = unescape(c, full, &ok);
  CHECK(c, ok && back == s, "read-back", "a text of %zu bytes does not read back", s.size());
  size_t L = full.size();
  for (int k = 0; k < 5; k++) {
    size_t n = k == 0 ? L : k == 1 ? L - 1 : k == 2 ? std::min(L, text::edge(c)) : k == 3 ? L - c.draw(7) : (size_t)c.draw(L);
    char *b = new char[n ? n : 1], *nd = nullptr;
    size_t ns = 1, r = cee_json_escape_string(src.p, src.n, n ? b : b + 1, n, &nd, &ns), w = n ? (size_t)(nd - b) : 0;
    CHECK(c, r == L, "needed", "escaping into %zu bytes returned %zu instead of %zu", n, r, L);
    CHECK(c, w <= n && (w == L || n < L) && ns == n - w, "advance", "escaping into %zu bytes advanced by %zu and left %zu", n, w, ns);
    CHECK(c, memcmp(b, full.data(), w) == 0, "prefix", "what was written into %zu bytes is not a prefix of the escape", n);
    delete[] b;
  }
  CHECK(c, src.unchanged(), "source", "the source was changed");
  c.nontrivial();
}

// ------------------------------------------------------------------ C33
// the library's reads and writes can be cut short or fail (see --wrap in checks.py)
struct Fault { int kind = 0; size_t at = 0; int err = 0; };  // 0 none, 1 read at most `at` bytes a time, 2 reading fails after `at` bytes, 3 one write is cut to `at`, 4 the device is full after `at`
Fault fault;
size_t fault_done;
struct Files {
  std::vector<std::string> names;
  std::string make(Case *c = nullptr) {
    char b[64];
    snprintf(b, sizeof b, "./f%d-%zu", (int)getpid(), names.size());
    std::string n = b;
    if (c && c->chance(1, 4)) n += c->pick<const char *>({"%s%n", "%d%5$s", " x y", "\"q\"", "\xc3\xa9", "\\", "\n", "'", "$(x)", "#?*"});
    if (c && c->chance(1, 10)) n += std::string((size_t)c->pick({60, 100, 127, 128, 200}), 'n');
    names.push_back(n + ".json");
    return names.back();
  }
  ~Files() { for (auto &n : names) unlink(n.c_str()); }
};
void write_file(const std::string &f, const std::string &t) {
  FILE *o = fopen(f.c_str(), "wb");
  fwrite(t.data(), 1, t.size(), o);
  fclose(o);
}
std::string read_file(const std::string &f) {
  std::string t;
  FILE *i = fopen(f.c_str(), "rb");
  if (!i) return "(absent)";
  char b[65536];
  size_t n;
  while ((n = fread(b, 1, sizeof b, i)) > 0) t.append(b, n);
  fclose(i);
  return t;
}
V file_doc(Case &c) {
  Gen g;
  g.budget = 15;
  V v = gen_doc(c, g);
  if (c.chance(1, 6)) {
    V o = v_obj();
    o.set("doc", v);
    o.set("fill", v_str(std::string(c.pick({4000, 4096, 8192, 65536, 200000}) - c.draw(60), 'f')));
    v = o;
  }
  return v;
}
PROPERTY("C33", "save_load", 30,
         "a generated document (up to 200 KB) is saved to a stream or descriptor in either format and loaded by path, stream, descriptor or buffer; the "
         "file holds the printed text and the loaded document is equal; non-trivial if it has at least 4 values") {
  Files fs;
  V v = file_doc(c);
  struct cee_state *st = cee_state_mk(10);
  struct cee_json *j = build(c, st, v);
  std::string f = fs.make(&c);
  int how = (int)c.draw(1);
  std::string full = print(c, st, j, how);
  bool ok;
  FILE *o = fopen(f.c_str(), "w+");
  if (c.coin()) ok = cee_json_save(st, j, o, how);
  else ok = cee_json_save_fileno(st, j, fileno(o), how);
  CHECK(c, ok, "save", "saving %zu bytes failed", full.size());
  fclose(o);
  CHECK(c, read_file(f) == full, "content", "the file holds %s instead of %s", quote(read_file(f), 800).c_str(), quote(full, 800).c_str());
  Ref r(full, true);
  struct cee_json *l = nullptr;
  int line = -77, by = (int)c.draw(3);
  struct cee_state *own = nullptr;
  switch (by) {
    case 0: l = cee_json_load_from_file_path(st, (char *)f.c_str(), true, c.coin() ? &line : nullptr); break;
    case 1: { FILE *i = fopen(f.c_str(), "r"); l = cee_json_load_from_FILE(st, i, true, &line); fclose(i); break; }
    case 2: { int fd = open(f.c_str(), O_RDONLY); l = cee_json_load_from_fileno(st, fd, true, &line); close(fd); break; }
    default: {
      Exact e(full);
      l = cee_json_load_from_buffer(e.p, e.n);
      CHECK(c, e.unchanged(), "buffer", "loading changed the buffer");
      if (l && l->t == CEE_JSON_OBJECT) own = cee_get_state(cee_json_to_object(l));
      else if (l && l->t == CEE_JSON_ARRAY) own = cee_get_state(cee_json_to_array(l));
    }
  }
  CHECK(c, l != nullptr, "load", "the saved document %s was not loaded (way %d)", quote(full, 800).c_str(), by);
  expect(c, r.val, l, "loaded", "the loaded document");
  CHECK(c, eq_printed(v, r.val), "denotes", "the saved text denotes another value");
  if (own) cee_del(own);
  if (count(v) >= 4) c.nontrivial();
  c.label(by == 0 ? "path" : by == 1 ? "stream" : by == 2 ? "descriptor" : "buffer");
  cee_del(st);
  if (by < 3 || own) CHECK(c, pbt::mem::live() == 0, "leak", "%zu blocks survive the state", pbt::mem::live());
}
PROPERTY("C33", "bad_files", 20,
         "malformed or empty files, directories, closed, write-only and full descriptors: loading gives no value and the line of the error, saving "
         "reports failure; the state stays usable; every case is non-trivial") {
  Files fs;
  struct cee_state *st = cee_state_mk(10);
  c.nontrivial();
  int line = -77;
  struct cee_json *l;
  switch (c.weighted({5, 1, 1, 1, 1, 1, 2})) {
    case 0: {
      V v = file_doc(c);
      std::string t, f = fs.make(&c);
      put_value(c, t, v);
      size_t n = t.size();
      switch (c.draw(3)) {
        case 0: t.resize(c.index(n)); break;
        case 1: t.insert(c.index(n + 1), 1, c.pick({']', '}', ',', '"', 'x', '\\', '\0'})); break;
        case 2: t += c.pick<std::string>({"]", "\n\n,", " 1", "x", "\"", std::string(1, 0), std::string("\n\0\0", 3), std::string("\0]", 2)}); break;
        default: t = c.pick<const char *>({"", " ", "\n\n", "{", "[1,2", "\n{\"a\":\n}"}); break;
      }
      Ref r(t, true);
      write_file(f, t);
      int by = (int)c.draw(3);
      bool lp = c.chance(3, 4);
      switch (by) {
        case 0: l = cee_json_load_from_file_path(st, (char *)f.c_str(), true, lp ? &line : nullptr); break;
        case 1: { FILE *i = fopen(f.c_str(), "r"); l = cee_json_load_from_FILE(st, i, true, lp ? &line : nullptr); fclose(i); break; }
        case 2: { int fd = open(f.c_str(), O_RDONLY); l = cee_json_load_from_fileno(st, fd, true, lp ? &line : nullptr); close(fd); break; }
        default: {
          size_t before = pbt::mem::live();
          Exact e(t);
          l = cee_json_load_from_buffer(e.p, e.n);
          lp = false;
          if (!l) CHECK(c, pbt::mem::live() == before, "buffer-leak", "a failed load from a buffer left %zd blocks", (ssize_t)(pbt::mem::live() - before));
          else {
            if (!r.unspec && !r.nul) CHECK(c, r.ok, "verdict", "the buffer %s was accepted", quote(t, 800).c_str());
            cee_del(st);
            return;
          }
        }
      }
      if (r.unspec || r.nul) break;
      CHECK(c, (l != nullptr) == r.ok, "verdict", "the file %s was %s", quote(t, 800).c_str(), l ? "accepted" : "rejected");
      if (l) expect(c, r.val, l, "value", "the loaded document");
      else if (lp) CHECK(c, line == r.line(), "line", "the error in %s was reported at line %d instead of %d", quote(t, 800).c_str(), line, r.line());
      CHECK(c, read_file(f) == t, "touched", "loading changed the file");
      break;
    }
    case 1: { int fd = open(".", O_RDONLY); l = cee_json_load_from_fileno(st, fd, true, &line); close(fd); CHECK(c, !l, "directory", "a directory was loaded"); break; }
    case 2: { l = cee_json_load_from_fileno(st, c.pick({-1, 1000}), true, &line); CHECK(c, !l, "closed", "a closed descriptor was loaded"); break; }
    case 3: {
      std::string f = fs.make();
      write_file(f, "[1,2,3]");
      int fd = open(f.c_str(), O_WRONLY);
      l = cee_json_load_from_fileno(st, fd, true, &line);
      close(fd);
      CHECK(c, !l, "write-only", "a write-only descriptor was loaded");
      CHECK(c, read_file(f) == "[1,2,3]", "touched", "loading changed the file");
      break;
    }
    case 4: { V v = v_i64(7); bool ok = cee_json_save_fileno(st, build(c, st, v), c.pick({-1, 1000}), 0); CHECK(c, !ok, "save-closed", "saving to a closed descriptor succeeded"); break; }
    case 5: {
      int fd = open("/dev/full", O_WRONLY);
      if (fd < 0) break;
      V v = v_i64(7);
      bool ok = cee_json_save_fileno(st, build(c, st, v), fd, 0);
      close(fd);
      CHECK(c, !ok, "save-full", "saving to a full device succeeded");
      break;
    }
    default: {
      std::string f = fs.make();
      write_file(f, "old");
      int fd = open(f.c_str(), O_RDONLY);
      V v = v_str("new");
      bool ok = cee_json_save_fileno(st, build(c, st, v), fd, 0);
      close(fd);
      CHECK(c, !ok && read_file(f) == "old", "save-read-only", "saving to a read-only descriptor");
    }
  }
  struct cee_json *j = nullptr;
  char good[] = "{\"a\":[1]}";
  CHECK(c, cee_json_parsex(st, good, 9, &j, true, &line) == 0 && j, "state", "the state cannot parse any more");
  end(c, st);
}
PROPERTY("C33", "faults", 10,
         "reading or writing a document of up to 200 KB is cut into small pieces, or fails after some bytes: a load gives the whole document or nothing, a save that reports "
         "success has written the whole text and a device that is full is reported; non-trivial if the fault strikes inside the text") {
  Files fs;
  V v = file_doc(c);
  struct cee_state *st = cee_state_mk(10);
  struct cee_json *j = build(c, st, v);
  int how = (int)c.draw(1);
  std::string full = print(c, st, j, how), f = fs.make();
  Ref r(full, true);
  Fault ft;
  ft.kind = 1 + (int)c.draw(3);
  size_t n = full.size();
  ft.at = ft.kind == 1 ? 1 + c.draw(c.coin() ? 9 : n) : c.draw(c.coin() ? n : 9);
  if (ft.kind == 1 && n / ft.at > 2000) ft.at = n / 2000 + 1;
  ft.err = ft.kind == 2 ? c.pick({EIO, EINTR}) : ENOSPC;
  c.note("fault %d at %zu of %zu", ft.kind, ft.at, n);
  if (ft.kind <= 2) {
    write_file(f, full);
    int fd = open(f.c_str(), O_RDONLY), line = 0;
    fault = ft; fault_done = 0;
    struct cee_json *l = cee_json_load_from_fileno(st, fd, true, &line);
    fault = Fault();
    close(fd);
    if (ft.kind == 1) CHECK(c, l != nullptr, "short-read", "a document of %zu bytes was not loaded when read in pieces of %zu", n, ft.at);
    if (l) expect(c, r.val, l, "loaded", "the document loaded");
  } else {
    int fd = open(f.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    fault = ft; fault_done = 0;
    bool ok = cee_json_save_fileno(st, j, fd, how);
    fault = Fault();
    close(fd);
    std::string got = read_file(f);
    if (ok) CHECK(c, got == full, "short-write", "%zu of %zu bytes were written and success was reported", got.size(), n);
    CHECK(c, got.size() <= n && full.compare(0, got.size(), got) == 0, "content", "what was written is not the beginning of the text");
    if (ft.kind == 4 && ft.at < n) CHECK(c, !ok, "full", "saving %zu bytes where %zu fit succeeded", n, ft.at);
  }
  if (ft.at < n) c.nontrivial();
  c.label(ft.kind == 1 ? "short reads" : ft.kind == 2 ? "failing read" : ft.kind == 3 ? "short write" : "full");
  end(c, st);
}
PROPERTY("C33", "large_files", 1,
         "documents of 60 KB to 4 MB, in one text or many members, saved and loaded in every way; every case is non-trivial") {
  Files fs;
  struct cee_state *st = cee_state_mk(10);
  V v = v_obj();
  size_t m = c.coin() ? text::edge(c) : c.pick<size_t>({65536, 65536, 300000, 1 << 18, 1 << 20, 1 << 20}) - 40 + c.draw(60);
  if (c.chance(1, 40)) m *= 4;
  if (c.chance(3, 4)) v.set("t", v_str(text::ramp(m, 2)));
  else {
    V a = v_arr();
    for (size_t i = 0; i < std::min<size_t>(m, 200000) / 8; i++) a.a.push_back(v_i64((int64_t)(i * 104729 % 1000003)));
    v.set("a", a);
  }
  v.set("end", v_i64(-1));
  struct cee_json *j = build(c, st, v);
  int how = (int)c.draw(1);
  std::string f = fs.make(), full = print(c, st, j, how);
  FILE *o = fopen(f.c_str(), "w+");
  bool ok = c.coin() ? cee_json_save(st, j, o, how) : cee_json_save_fileno(st, j, fileno(o), how);
  fclose(o);
  c.note("%zu bytes", full.size());
  CHECK(c, ok && read_file(f) == full, "content", "saving %zu bytes", full.size());
  int line = 0, by = (int)c.draw(3);
  struct cee_json *l;
  struct cee_state *own = nullptr;
  switch (by) {
    case 0: l = cee_json_load_from_file_path(st, (char *)f.c_str(), true, &line); break;
    case 1: { FILE *i = fopen(f.c_str(), "r"); l = cee_json_load_from_FILE(st, i, true, &line); fclose(i); break; }
    case 2: { int fd = open(f.c_str(), O_RDONLY); l = cee_json_load_from_fileno(st, fd, true, &line); close(fd); break; }
    default: { Exact e(full); l = cee_json_load_from_buffer(e.p, e.n); if (l) own = cee_get_state(cee_json_to_object(l)); }
  }
  CHECK(c, l != nullptr, "load", "the saved document of %zu bytes was not loaded (way %d)", full.size(), by);
  expect(c, v, l, "loaded", "the loaded document");
  if (own) cee_del(own);
  c.nontrivial();
  end(c, st);
}
PROPERTY("C33", "merge_all", 12,
         "1 to 4, sometimes up to 40 files with object documents, some given twice, some with odd names, are merged into a file that may be one of them: it holds their merge and the list of the originals, the other inputs keep their bytes; with "
         "one input missing or malformed, or the target not writable, the merge fails; non-trivial if at least 2 files") {
  Files fs;
  unsigned n = (unsigned)(c.chance(1, 12) ? c.range(5, 40) : c.range(1, 4));
  std::vector<std::string> names, texts;
  V all;
  std::vector<V> vals;
  for (unsigned i = 0; i < n; i++) {
    V v = merge_doc(c, 8);
    if (v.k != OBJ) v = v_obj();
    if (c.chance(1, 10)) v.set("originals", c.coin() ? v_arr() : merge_doc(c, 3));  // it was merged before, or has such a member anyhow
    std::string t;
    put_value(c, t, v);
    if (i && c.chance(1, 8)) {  // a file again
      size_t k = c.index(i);
      names.push_back(names[k]);
      texts.push_back(texts[k]);
      vals.push_back(vals[k]);
    } else {
      names.push_back(fs.make(&c));
      write_file(names.back(), t);
      texts.push_back(t);
      vals.push_back(v);
    }
    if (i == 0) all = v;
    else { V w = vals.back(); merge(all, w); }
  }
  V orig = v_arr();
  std::vector<char *> argv;
  int fault = c.chance(1, 3) ? 1 + (int)c.draw(2) : 0;
  size_t bad = c.index(n);
  if (fault == 1) { unlink(names[bad].c_str()); texts[bad] = "(absent)"; }
  if (fault == 2) { texts[bad] = c.pick<const char *>({"{", "{\"a\":}", "", "{} x"}); write_file(names[bad], texts[bad]); }
  for (unsigned i = 0; i < n; i++) if (names[i] == names[bad]) texts[i] = texts[bad];
  for (auto &s : names) { orig.a.push_back(v_str(s)); argv.push_back((char *)s.c_str()); }
  all.set("originals", orig);
  std::string out = fs.make(&c);
  bool in_place = c.chance(1, 6);
  if (in_place) out = names[c.index(n)];
  if (fault == 3) out = c.coin() ? "./absent-directory/x.json" : "/dev/full";
  int r = cee_json_merge_all(argv.data(), (int)n, (char *)out.c_str());
  for (unsigned i = 0; i < n; i++) if (fault || names[i] != out) CHECK(c, read_file(names[i]) == texts[i], "input", "merging changed its input %u", i);
  CHECK(c, (r == 0) == (fault == 0), "status", "merging %u files with fault %d returned %d", n, fault, r);
  if (fault == 0) {
    std::string t = read_file(out);
    Ref p(t, true);
    CHECK(c, p.ok, "malformed", "the merged file is malformed: %s", quote(t, 1000).c_str());
    CHECK(c, eq_printed(sorted(all), sorted(p.val)), "merged", "the merged file holds %s instead of %s", show(p.val, 1000).c_str(), show(all, 1000).c_str());
    CHECK(c, pbt::mem::live() == 0, "leak", "%zu blocks survive the merge", pbt::mem::live());
  } else if (fault < 3 && !in_place) CHECK(c, read_file(out) == "(absent)", "partial", "a failed merge wrote its target");
  if (n >= 2) c.nontrivial();
}
}  // namespace

extern "C" {
ssize_t __real_read(int, void *, size_t);
ssize_t __real_write(int, const void *, size_t);
ssize_t __wrap_read(int fd, void *p, size_t n) {
  if (fault.kind == 1 && n > fault.at) n = fault.at;
  if (fault.kind == 2) {
    if (fault_done >= fault.at) { errno = fault.err; return -1; }
    n = std::min(n, fault.at - fault_done);
  }
  ssize_t r = __real_read(fd, p, n);
  if (r > 0) fault_done += (size_t)r;
  return r;
}
ssize_t __wrap_write(int fd, const void *p, size_t n) {
  if (fault.kind == 3 && !fault_done && n > fault.at) n = fault.at;
  if (fault.kind == 4) {
    if (fault_done >= fault.at && n) { errno = fault.err; return -1; }
    n = std::min(n, fault.at - fault_done);
  }
  ssize_t r = __real_write(fd, p, n);
  if (r >= 0) fault_done += r ? (size_t)r : 1;
  return r;
}
}
