// C35..C38: the JSON <-> SQL binding, on in-memory databases (attaching: files in the scratch directory).
#include "sqlfile.hpp"
#include "text.hpp"
extern "C" {
#include "cee-sqlite3.h"
int cee_sqlite3_select_wrapper(struct cee_sqlite3 *, struct cee_sqlite3_bind_info *, struct cee_sqlite3_bind_data *, struct cee_sqlite3_stmt_strs *, struct cee_json **);
int cee_sqlite3_insert_wrapper(struct cee_sqlite3 *, struct cee_sqlite3_bind_info *, struct cee_sqlite3_bind_data *, struct cee_sqlite3_stmt_strs *, struct cee_json **);
}
#include <algorithm>
#include <climits>
#include <deque>
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace jm;
namespace {
// ---------------------------------------------------------------- values
struct Cell {
  int t = 0;  // 0 null, 1 integer, 2 text, 3 blob, 4 real
  int64_t i = 0;
  std::string s;
  double d = 0;
  bool operator==(const Cell &o) const { return t == o.t && (t != 1 || i == o.i) && (t < 2 || s == o.s) && d == o.d; }
  bool operator!=(const Cell &o) const { return !(*this == o); }
};
Cell c_int(int64_t i) { Cell x; x.t = 1; x.i = i; return x; }
Cell c_text(std::string s) { Cell x; x.t = 2; x.s = std::move(s); return x; }
Cell c_real(double d) { Cell x; x.t = 4; x.d = d; return x; }
Cell c_blob(std::string s) { Cell x; x.t = 3; x.s = std::move(s); return x; }
std::string show(const Cell &x) {
  return x.t == 4 ? std::to_string(x.d) : x.t == 0 ? "null" : x.t == 1 ? std::to_string(x.i) : (x.t == 2 ? "" : "x") + quote(x.s, 60);
}
V to_v(const Cell &x) { return x.t == 4 ? v_dbl(x.d) : x.t == 0 ? v_null() : x.t == 1 ? v_i64(x.i) : v_str(x.s, x.t == 2 ? STR : BLOB); }
typedef std::vector<Cell> Cells;
struct Row { int64_t id; Cells v; };
typedef std::vector<Row> Rows;

const char *const SNIPPETS[] = {"", "x", "it's", "'; drop table t; --", "@a", "%s%n%d", "\"", "?", "a\\b", "\xC3\xA9", "null", "0", "-1", ":k", "$k", "\n", ")"};
std::string text_value(Case &c) {
  if (c.chance(1, 150)) return text::ramp(text::edge(c), (unsigned)c.draw(93));
  switch (c.weighted({4, 4, 2, 1})) {
    case 0: { std::string s; for (unsigned n = (unsigned)c.draw(6); n; n--) s += (char)c.range('a', 'e'); return s; }
    case 1: return SNIPPETS[c.index(sizeof SNIPPETS / sizeof *SNIPPETS)];
    case 2: { std::string s; for (unsigned n = (unsigned)c.draw(20); n; n--) s += (char)c.range(1, 255); return s; }
    default: { std::string s((size_t)c.draw(400), 'q'); return s + SNIPPETS[c.index(sizeof SNIPPETS / sizeof *SNIPPETS)]; }
  }
}
std::string blob_value(Case &c) {
  std::string s;
  if (c.chance(1, 150)) { s = text::ramp(text::edge(c), (unsigned)c.draw(93)); s[s.size() / 2] = '\0'; return s; }
  for (unsigned n = (unsigned)(c.chance(1, 6) ? c.draw(600) : c.draw(8)); n; n--) s += c.chance(1, 3) ? '\0' : (char)c.range(0, 255);
  return s;
}
int64_t int_value(Case &c, bool wide) {
  switch (c.weighted({4, 2, 2})) {
    case 0: return c.range(0, 9);
    case 1: return c.range(-1000, 1000);
    default: break;
  }
  if (!wide) return c.pick<int64_t>({INT_MAX, INT_MIN, INT_MAX - 1, 65536, -1});
  return c.pick<int64_t>({INT64_MAX, INT64_MIN, (int64_t)INT_MAX + 1, (int64_t)INT_MIN - 1, 1ll << 32, (1ll << 32) + 7, -(1ll << 53)});
}
Cell value_of(Case &c, cee_sqlite3_type t) {
  switch (t) {
    case CEE_SQLITE3_TEXT: return c_text(text_value(c));
    case CEE_SQLITE3_BLOB: return c_blob(blob_value(c));
    case CEE_SQLITE3_INT: return c_int(int_value(c, false));
    default: return c_int(int_value(c, true));
  }
}
Cell zero_of(cee_sqlite3_type t) { return t == CEE_SQLITE3_TEXT ? c_text("") : t == CEE_SQLITE3_BLOB ? c_blob("") : c_int(0); }

// ---------------------------------------------------------------- columns
struct Col {
  std::string name, var;
  cee_sqlite3_type type = CEE_SQLITE3_INT;
  bool not_null = false, no_update = false, no_return = false, no_label = false, unique = false;
  bool has_def = false;
  Cell def;  // the description's default
};
typedef std::vector<Col> Cols;
const char *const NAMES[] = {"a", "ab", "abc", "b", "k", "g", "c", "ba", "v", "w", "id2", "A_b"};
Cols gen_cols(Case &c, unsigned lo, unsigned hi, bool blobs, bool wide = false) {
  Cols r;
  unsigned n = (unsigned)c.range(lo, hi), more = wide && c.chance(1, 15) ? (unsigned)c.range(1, 55) : 0;
  for (unsigned i = 0; i < more; i++) {
    Col x;
    x.name = "w" + std::to_string(i);
    x.var = "@" + x.name;
    x.type = c.coin() ? CEE_SQLITE3_INT : CEE_SQLITE3_TEXT;
    r.push_back(x);
  }
  std::vector<std::string> pool(NAMES, NAMES + sizeof NAMES / sizeof *NAMES);
  for (unsigned i = 0; i < n; i++) {
    Col x;
    size_t k = c.index(pool.size());
    x.name = pool[k];
    pool.erase(pool.begin() + k);
    if (c.chance(1, 40)) x.name += std::string(c.pick<size_t>({60, 62, 63, 120, 126, 250, 255, 256, 510, 1020}), 'n');
    x.var = (c.coin() ? "@" : c.coin() ? ":" : "$") + x.name + (c.chance(1, 6) ? "_v" : "");
    x.type = c.pick({CEE_SQLITE3_INT, CEE_SQLITE3_TEXT, CEE_SQLITE3_INT64, blobs ? CEE_SQLITE3_BLOB : CEE_SQLITE3_TEXT});
    x.not_null = c.chance(1, 3);
    if (c.chance(1, 4)) {
      x.has_def = true;
      if (x.not_null || c.chance(3, 4)) x.def = value_of(c, x.type);
    }
    r.push_back(x);
  }
  return r;
}
std::string decl(const Col &x) {
  const char *t = x.type == CEE_SQLITE3_TEXT ? "text" : x.type == CEE_SQLITE3_BLOB ? "blob" : x.type == CEE_SQLITE3_INT ? "int" : "bigint";
  return x.name + " " + t + (x.not_null ? " not null" : "") + (x.unique ? " unique" : "");
}
std::string join(const Cols &cols, const std::function<std::string(const Col &)> &f, const char *sep = ",") {
  std::string s;
  for (auto &x : cols) s += (s.empty() ? "" : sep) + f(x);
  return s;
}

// the same statement, written differently
std::string dressed(Case &c, std::string s) {
  if (!c.chance(1, 3)) return s;
  int how = (int)c.draw(3);
  for (size_t i = 0; i < s.size() && isalpha((unsigned char)s[i]); i++) if (how == 1 || (how == 2 && i % 2) || (how == 3 && i == 0)) s[i] = (char)toupper(s[i]);
  for (unsigned n = (unsigned)c.draw(3); n; n--) s = c.pick<const char *>({" ", "\n", "\t", "\r\n", "\f"}) + s;
  return s;
}

// the C descriptions, with every text and blob in a buffer of its exact size
struct Desc {
  std::vector<cee_sqlite3_bind_info> info;
  std::vector<cee_sqlite3_bind_data> data;
  std::deque<std::string> keep;
  std::vector<char *> bufs;
  explicit Desc(const Cols &cols) {
    for (auto &x : cols) {
      cee_sqlite3_bind_info b;
      memset(&b, 0, sizeof b);
      b.index = (int)info.size();
      keep.push_back(x.name);
      b.col_name = &keep.back()[0];
      keep.push_back(x.var);
      b.var_name = &keep.back()[0];
      b.type = x.type;
      b.no_update = x.no_update;
      b.not_null = x.not_null;
      b.no_return = x.no_return;
      b.no_label = x.no_label;
      if (x.has_def) fill(b.data, x, x.def, nullptr);
      info.push_back(b);
    }
    cee_sqlite3_bind_info z;
    memset(&z, 0, sizeof z);
    info.push_back(z);
    fresh();
  }
  void fresh() {
    cee_sqlite3_bind_data d;
    memset(&d, 0, sizeof d);
    data.assign(info.size(), d);
  }
  void fill(cee_sqlite3_bind_data &d, const Col &x, const Cell &v, Case *c) {
    d.has_value = 1;
    d.is_null = v.t == 0;
    d.i = 77;  // fields of other types hold something else
    d.i64 = 78;
    if (v.t == 1) { if (x.type == CEE_SQLITE3_INT) d.i = (int)v.i; else d.i64 = v.i; }
    if (v.t >= 2) {
      bool sized = v.t == 3 || (c && !v.s.empty() && c->coin());
      size_t n = v.s.size() + !sized;
      char *p = new char[n ? n : 1];
      memcpy(p, v.s.c_str(), n);
      bufs.push_back(p);
      d.value = p;
      d.size = sized ? v.s.size() : 0;
    }
  }
  ~Desc() { for (char *p : bufs) delete[] p; }
  Desc(const Desc &) = delete;
};

// ---------------------------------------------------------------- the database
struct Db {
  Case &c;
  cee_state *st;
  sqlite3 *db = nullptr;
  cee_sqlite3 cs;
  explicit Db(Case &c, const char *file = ":memory:") : c(c) {
    st = cee_state_mk(10);
    if (sqlite3_open(file, &db) != SQLITE_OK) abort();
    memset(&cs, 0, sizeof cs);
    cee_sqlite3_init(&cs, (char *)"db", (char *)file, st, db);
  }
  void exec(const std::string &sql) {
    char *e = nullptr;
    if (sqlite3_exec(db, sql.c_str(), nullptr, nullptr, &e) != SQLITE_OK) {
      fprintf(stderr, "harness SQL: %s: %s\n", sql.c_str(), e);
      abort();
    }
  }
  Rows rows(const char *table, const Cols &cols) {
    std::string q = "select rowid" + std::string(cols.empty() ? "" : ",") + ::join(cols, [](const Col &x) { return x.name; }) + " from " + table + " order by rowid";
    return query(q, true);
  }
  Rows query(const std::string &q, bool with_id) {
    Rows r;
    sqlite3_stmt *s = nullptr;
    if (sqlite3_prepare_v2(db, q.c_str(), -1, &s, nullptr) != SQLITE_OK) { fprintf(stderr, "harness SQL: %s: %s\n", q.c_str(), sqlite3_errmsg(db)); abort(); }
    while (sqlite3_step(s) == SQLITE_ROW) {
      Row w;
      w.id = with_id ? sqlite3_column_int64(s, 0) : 0;
      for (int i = with_id; i < sqlite3_column_count(s); i++) w.v.push_back(cell(s, i));
      r.push_back(w);
    }
    sqlite3_finalize(s);
    return r;
  }
  static Cell cell(sqlite3_stmt *s, int i) {
    switch (sqlite3_column_type(s, i)) {
      case SQLITE_INTEGER: return c_int(sqlite3_column_int64(s, i));
      case SQLITE_FLOAT: return c_real(sqlite3_column_double(s, i));
      case SQLITE_TEXT: return c_text(std::string((const char *)sqlite3_column_text(s, i), (size_t)sqlite3_column_bytes(s, i)));
      case SQLITE_BLOB: return c_blob(std::string(sqlite3_column_bytes(s, i) ? (const char *)sqlite3_column_blob(s, i) : "", (size_t)sqlite3_column_bytes(s, i)));
    }
    return Cell();
  }
  // puts a row into the table without the library
  void put(const char *table, const Cols &cols, const Row &w) {
    std::string q = std::string("insert into ") + table + "(rowid" + (cols.empty() ? "" : ",") + ::join(cols, [](const Col &x) { return x.name; }) + ") values (?";
    for (size_t i = 0; i < cols.size(); i++) q += ",?";
    q += ")";
    sqlite3_stmt *s = nullptr;
    if (sqlite3_prepare_v2(db, q.c_str(), -1, &s, nullptr) != SQLITE_OK) abort();
    sqlite3_bind_int64(s, 1, w.id);
    for (size_t i = 0; i < cols.size(); i++) {
      const Cell &x = w.v[i];
      int n = (int)i + 2;
      if (x.t == 0) sqlite3_bind_null(s, n);
      else if (x.t == 1) sqlite3_bind_int64(s, n, x.i);
      else if (x.t == 4) sqlite3_bind_double(s, n, x.d);
      else if (x.t == 2) sqlite3_bind_text(s, n, x.s.data(), (int)x.s.size(), SQLITE_TRANSIENT);
      else sqlite3_bind_blob(s, n, x.s.data(), (int)x.s.size(), SQLITE_TRANSIENT);
    }
    if (sqlite3_step(s) != SQLITE_DONE) { fprintf(stderr, "harness put: %s\n", sqlite3_errmsg(db)); abort(); }
    sqlite3_finalize(s);
  }
  void closed(const char *after) { CHECK(c, !sqlite3_next_stmt(db, nullptr), "stmt-open", "%s leaves a statement open: %s", after, sqlite3_sql(sqlite3_next_stmt(db, nullptr))); }
  void table(const char *name, const Cols &cols, const Rows &want, const char *after) {
    Rows got = rows(name, cols);
    CHECK(c, got.size() == want.size(), "table-size", "after %s the table has %zu rows instead of %zu", after, got.size(), want.size());
    for (size_t i = 0; i < got.size(); i++) {
      CHECK(c, got[i].id == want[i].id, "row-id", "after %s row %zu has id %lld instead of %lld", after, i, (long long)got[i].id, (long long)want[i].id);
      for (size_t k = 0; k < cols.size(); k++)
        CHECK(c, got[i].v[k] == want[i].v[k], "table-cell", "after %s row %zu (id %lld) has %s = %s instead of %s", after, i, (long long)got[i].id, cols[k].name.c_str(), show(got[i].v[k]).c_str(),
              show(want[i].v[k]).c_str());
    }
  }
  void end() {
    closed("the history");
    CHECK(c, sqlite3_close(db) == SQLITE_OK, "close", "the database cannot be closed");
    cee_del(st);
    CHECK(c, pbt::mem::live() == 0, "leak", "%zu blocks survive the state", pbt::mem::live());
  }
};
bool has_error(struct cee_json *j) { return j && j->t == CEE_JSON_OBJECT && cee_json_object_get(j, (char *)"error"); }
int64_t int_at(Case &c, struct cee_json *j, const char *key) {
  int64_t r = -777;
  struct cee_json *v = cee_json_object_get(j, (char *)key);
  CHECK(c, v && !cee_json_to_i64x(v, &r), "status-key", "the status has no integer %s", key);
  return r;
}
void expect(Case &c, const V &v, struct cee_json *j, const char *sig, const char *what) {
  CHECK(c, j, sig, "%s: nothing instead of %s", what, jm::show(v, 1000).c_str());
  std::string w = differs(v, j);
  CHECK(c, w.empty(), sig, "%s: %s; expected %s", what, w.c_str(), jm::show(v, 1500).c_str());
}
// what a selected row becomes
V row_v(const Cols &cols, const Row &w) {
  V o = v_obj();
  for (size_t i = 0; i < cols.size(); i++) if (!cols[i].no_return) o.set(cols[i].name, to_v(w.v[i]));
  return o;
}
V rows_v(const Cols &cols, const Rows &rs) {
  V a = v_arr();
  bool bare = cols.size() == 1 && cols[0].no_label && !cols[0].no_return;
  for (auto &w : rs) a.a.push_back(bare ? to_v(w.v[0]) : row_v(cols, w));
  return a;
}
struct cee_json *build_plain(struct cee_state *st, const V &v) {
  pbt::Case *none = nullptr;
  (void)none;
  switch (v.k) {
    case NUL: return cee_json_null();
    case BOOL: return cee_json_bool(v.b);
    case I64: return cee_json_i64_mk(st, v.i);
    case U64: return cee_json_u64_mk(st, v.u);
    case DBL: return cee_json_double_mk(st, v.d);
    case STR: return cee_json_str_mkf(st, "%s", v.s.c_str());
    case ARR: {
      struct cee_json *j = cee_json_array_mk(st, 4);
      for (auto &e : v.a) cee_json_array_append(j, build_plain(st, e));
      return j;
    }
    case OBJ: {
      struct cee_json *j = cee_json_object_mk(st);
      for (auto &e : v.m) cee_json_object_set(j, (char *)e.first.c_str(), build_plain(st, e.second));
      return j;
    }
    default: abort();
  }
}
int64_t next_id(const Rows &t) {
  int64_t m = 0;
  for (auto &w : t) m = std::max(m, w.id);
  return t.empty() ? 1 : m + 1;
}
// an already used status with a member that must survive
struct Status {
  int mode;  // 0: not wanted, 1: none yet, 2: an object in use
  struct cee_json *j = nullptr;
  Status(Case &c, cee_state *st, bool required = false) : mode((int)c.range(required ? 1 : 0, 2)) {
    if (mode == 2) {
      j = cee_json_object_mk(st);
      cee_json_object_set_i64(j, (char *)"kept", 4711);
    }
  }
  struct cee_json **p() { return mode ? &j : nullptr; }
  void kept(Case &c) {
    if (mode == 2) CHECK(c, j && j->t == CEE_JSON_OBJECT && int_at(c, j, "kept") == 4711, "status-kept", "the status lost what it held");
  }
};

// ---------------------------------------------------------------- C35
void insert_select(Case &c) {
  Cols cols = gen_cols(c, 1, 6, true, true);
  Db d(c);
  d.exec("create table t(" + join(cols, decl) + ")");
  bool text_like = false, absent = false, null = false;
  Desc ds(cols);
  Rows model;
  auto all = [&](const std::function<std::string(const Col &)> &f) { return join(cols, f); };
  std::string ins = "insert into t(" + all([](const Col &x) { return x.name; }) + ") values (" + all([](const Col &x) { return x.var; }) + ")";
  ins = dressed(c, ins);
  unsigned n = (unsigned)c.draw(12);
  if (c.chance(1, 6)) {  // large row ids
    Row w;
    w.id = c.pick<int64_t>({INT_MAX - 1ll, INT_MAX, 1ll << 32, (1ll << 40) + 3});
    for (auto &x : cols) w.v.push_back(zero_of(x.type));
    d.put("t", cols, w);
    model.push_back(w);
  }
  for (unsigned r = 0; r < n; r++) {
    Cells given(cols.size());
    std::vector<int> has(cols.size());
    bool json = c.chance(1, 2);
    for (size_t i = 0; i < cols.size(); i++) {
      if (!(has[i] = c.chance(3, 4))) { absent = true; continue; }
      if (json && cols[i].type == CEE_SQLITE3_BLOB) { has[i] = 0; continue; }
      if (c.chance(1, 5) && !(cols[i].not_null && !json)) null = true;
      else given[i] = value_of(c, cols[i].type);
      if (given[i].t >= 2) text_like = true;
    }
    bool dynamic = json && c.coin();
    // the row it makes
    Row w;
    w.id = next_id(model);
    bool any = false;
    for (size_t i = 0; i < cols.size(); i++) {
      bool h = has[i];
      if (json && h && given[i].t == 0 && cols[i].not_null) h = false;  // null for a not-null column is as good as absent
      any = any || h || cols[i].has_def || cols[i].not_null;
      w.v.push_back(h ? given[i] : cols[i].has_def ? cols[i].def : cols[i].not_null ? zero_of(cols[i].type) : Cell());
    }
    bool fails = dynamic && !any;  // no columns: not a statement
    Status s(c, d.st);
    int rc, id = -5;
    const char *how;
    if (!json) {
      how = "insert";
      ds.fresh();
      for (size_t i = 0; i < cols.size(); i++) if (has[i]) ds.fill(ds.data[i], cols[i], given[i], &c);
      const char *key = c.coin() ? "rid" : nullptr;
      bool want_id = c.coin();
      rc = cee_sqlite3_insert(&d.cs, ds.info.data(), ds.data.data(), (char *)ins.c_str(), s.p(), (char *)key, want_id ? &id : nullptr);
      if (s.mode && rc == SQLITE_DONE) {
        int64_t got = int_at(c, s.j, key ? key : "last_insert_rowid");
        CHECK(c, got == w.id, "insert-id", "the status says row %lld instead of %lld", (long long)got, (long long)w.id);
      }
      if (want_id && w.id <= INT_MAX) CHECK(c, id == w.id, "insert-id", "the row id is %d instead of %lld", id, (long long)w.id);
    } else {
      how = dynamic ? "insert_op (composed)" : "insert_op";
      V in = v_obj();
      std::vector<size_t> order;
      for (size_t i = 0; i < cols.size(); i++) order.insert(order.begin() + c.index(order.size() + 1), i);
      for (size_t i : order) if (has[i]) in.set(cols[i].name, to_v(given[i]));
      if (c.chance(1, 4)) in.set("unknown", v_str("zzz"));
      struct cee_json *j = build_plain(d.st, in);
      cee_sqlite3_stmt_strs ss;
      memset(&ss, 0, sizeof ss);
      ss.table_name = (char *)"t";
      ss.insert_stmt = dynamic ? nullptr : (char *)ins.c_str();
      ss.insert_dynamic = dynamic;
      cee_sqlite3_db_op op = {&ss, ds.info.data(), nullptr};
      cee_sqlite3_db_op *mine = new_cee_sqlite3_db_op(d.st, &op, ds.info.size() * sizeof(cee_sqlite3_bind_info));
      rc = cee_sqlite3_insert_op(&d.cs, mine, j, s.p());
      expect(c, in, j, "input-changed", "the input after insert_op");
      if (s.mode && rc == SQLITE_DONE) {
        int64_t got = int_at(c, s.j, "id");
        CHECK(c, got == w.id, "insert-id", "the status says row %lld instead of %lld", (long long)got, (long long)w.id);
      }
    }
    CHECK(c, (rc == SQLITE_DONE) == !fails, "insert-rc", "%s returns %d: %s", how, rc, sqlite3_errmsg(d.db));
    if (s.mode) CHECK(c, has_error(s.j) == fails, "insert-error", "%s %s an error", how, fails ? "does not report" : "reports");
    s.kept(c);
    if (!fails) model.push_back(w);
    d.closed(how);
    d.table("t", cols, model, how);
    c.note("%s row %lld", how, (long long)w.id);
  }
  if (text_like && absent && null) c.nontrivial();
  // read back
  for (unsigned q = 0, nq = 1 + (unsigned)c.draw(3); q < nq; q++) {
    Cols view;
    std::vector<size_t> at;
    for (size_t i = 0; i < cols.size(); i++) if (view.empty() || c.chance(2, 3)) { view.push_back(cols[i]); at.push_back(i); }
    if (c.chance(1, 4)) { view.resize(1); at.resize(1); }
    for (auto &x : view) x.no_return = c.chance(1, 8);
    if (view.size() == 1) { view[0].no_label = c.coin(); if (view[0].no_label) view[0].no_return = false; }
    else if (c.chance(1, 8)) view[0].no_label = true;  // only for single columns
    Desc vd(view);
    std::string sql = "select " + join(view, [](const Col &x) { return x.name; }) + " from t";
    Rows sel;
    // with a condition bound from data
    size_t wi = c.index(view.size());
    int cond = (int)c.draw(2);
    Cell key;
    if (cond) {
      key = !model.empty() && c.chance(2, 3) ? c.of(model).v[at[wi]] : value_of(c, view[wi].type);
      sql += " where " + view[wi].name + (cond == 1 ? "=" : " is ") + view[wi].var;
      bool def = view[wi].has_def && c.chance(1, 4);
      if (def) key = view[wi].def;
      if (key.t == 0 && view[wi].not_null) cond = 0, sql = "select " + join(view, [](const Col &x) { return x.name; }) + " from t";
      else if (!def) vd.fill(vd.data[wi], view[wi], key, &c);
    }
    sql += " order by rowid";
    for (auto &w : model) {
      if (cond == 1 && (key.t == 0 || w.v[at[wi]] != key)) continue;
      if (cond == 2 && w.v[at[wi]] != key) continue;
      Row x;
      x.id = w.id;
      for (size_t k : at) x.v.push_back(w.v[k]);
      sel.push_back(x);
    }
    bool use_info = cond || c.chance(3, 4);
    Cols eff = view;
    if (!use_info) for (auto &x : eff) x.no_return = x.no_label = false;
    V want = rows_v(eff, sel);
    cee_sqlite3_bind_info *info = use_info ? vd.info.data() : nullptr;
    cee_sqlite3_bind_data *data = use_info ? vd.data.data() : nullptr;
    sql = dressed(c, sql);
    char *sq = (char *)sql.c_str();
    struct cee_json *j = nullptr;
    int rc;
    int f = (int)c.draw(5);
    c.note("%s [%d]", sql.c_str(), f);
    switch (f) {
      case 0:
        if (c.chance(1, 3)) {  // into an array of the caller's
          struct cee_json *own = j = cee_json_array_mk(d.st, 1);
          rc = cee_sqlite3_select(&d.cs, info, data, sq, &j);
          CHECK(c, j == own, "select-own", "select does not use the array it was given");
        } else
          rc = cee_sqlite3_select(&d.cs, info, data, sq, &j);
        expect(c, want, j, "select", "select");
        if (c.coin()) {  // again, into the same array
          rc = cee_sqlite3_select(&d.cs, info, data, sq, &j);
          size_t k = want.a.size();
          for (size_t i = 0; i < k; i++) want.a.push_back(V(want.a[i]));
          expect(c, want, j, "select-extend", "select into an array");
        }
        break;
      case 1:
        if (eff.size() == 1 && eff[0].no_label) {  // a bare value
          rc = cee_sqlite3_select1(&d.cs, info, data, sq, &j);
          if (want.a.empty()) CHECK(c, !j, "select1", "select1 yields something without rows");
          else expect(c, want.a[0], j, "select1", "select1");
          break;
        }
        if (c.coin()) {
          j = cee_json_object_mk(d.st);
          cee_json_object_set_i64(j, (char *)"zz", 5);
          V o = v_obj();
          o.set("zz", v_i64(5));
          if (c.chance(1, 6))
            for (int i = (int)c.range(1, 90); i; i--) {
              std::string k = "other" + std::to_string(i);
              cee_json_object_set_i64(j, (char *)k.c_str(), i);
              o.set(k, v_i64(i));
            }
          if (!want.a.empty()) for (auto &e : want.a[0].m) o.set(e.first, e.second);
          rc = cee_sqlite3_select1(&d.cs, info, data, sq, &j);
          // the order of added members is not specified: compare as sets
          V got = v_obj();
          CHECK(c, j && j->t == CEE_JSON_OBJECT && cee_map_size(cee_json_to_object(j)) == o.m.size(), "select1", "select1 into an object gives another number of members than %zu", o.m.size());
          for (auto &e : o.m) {
            struct cee_json *x = cee_json_object_get(j, (char *)e.first.c_str());
            expect(c, e.second, x, "select1", "select1 into an object");
          }
        } else {
          rc = cee_sqlite3_select1(&d.cs, info, data, sq, &j);
          if (want.a.empty()) CHECK(c, !j, "select1", "select1 yields something without rows");
          else expect(c, want.a[0], j, "select1", "select1");
        }
        break;
      case 2: {
        bool had = c.coin();
        V o = v_obj();
        if (had) {
          j = cee_json_object_mk(d.st);
          cee_json_object_set_i64(j, (char *)"zz", 5);
          o.set("zz", v_i64(5));
        }
        rc = cee_sqlite3_select_as(&d.cs, info, data, sq, &j, (char *)"rows");
        o.set("rows", want);
        expect(c, o, j, "select_as", "select_as");
        if (c.coin()) {
          rc = cee_sqlite3_select_as(&d.cs, info, data, sq, &j, (char *)"rows");
          V twice = want;
          for (auto &e : want.a) twice.a.push_back(e);
          o.set("rows", twice);
          expect(c, o, j, "select_as", "select_as under a key in use");
        }
        break;
      }
      case 3: {
        V o = v_obj();
        if (c.coin()) {
          j = cee_json_object_mk(d.st);
          cee_json_object_set_i64(j, (char *)"zz", 5);
          o.set("zz", v_i64(5));
        }
        rc = cee_sqlite3_select1_as(&d.cs, info, data, sq, &j, (char *)"row");
        if (!want.a.empty()) o.set("row", want.a[0]);
        expect(c, o, j, "select1_as", "select1_as");
        if (!want.a.empty() && want.a[0].k == OBJ && c.coin()) {  // over the same row again, with a member of its own
          cee_json_object_set_i64(cee_json_object_get(j, (char *)"row"), (char *)"own", 6);
          V row = want.a[0];
          row.set("own", v_i64(6));
          o.set("row", row);
          rc = cee_sqlite3_select1_as(&d.cs, info, data, sq, &j, (char *)"row");
          struct cee_json *r = cee_json_object_get(j, (char *)"row");
          CHECK(c, r && r->t == CEE_JSON_OBJECT && cee_map_size(cee_json_to_object(r)) == row.m.size(), "select1_as", "select1_as over the row it made gives another number of members than %zu", row.m.size());
          for (auto &e : row.m) expect(c, e.second, cee_json_object_get(r, (char *)e.first.c_str()), "select1_as", "select1_as over the row it made");
        }
        break;
      }
      case 4: {
        struct Ctx { Case *c; Rows got; size_t stop; } x = {&c, {}, c.coin() ? (size_t)c.draw(4) : 1000000};
        rc = cee_sqlite3_select_iter(&d.cs, info, data, sq, &x,
                                     [](void *p, struct cee_state *, struct cee_sqlite3_bind_info *, sqlite3_stmt *s) {
                                       Ctx *x = (Ctx *)p;
                                       Row w;
                                       for (int i = 0; i < sqlite3_column_count(s); i++) w.v.push_back(Db::cell(s, i));
                                       x->got.push_back(w);
                                       return (int)(x->got.size() > x->stop);
                                     },
                                     c.coin() ? &j : nullptr);
        size_t n = std::min(sel.size(), x.stop + 1);
        CHECK(c, x.got.size() == n, "select_iter", "select_iter visits %zu rows instead of %zu", x.got.size(), n);
        for (size_t i = 0; i < n; i++) CHECK(c, x.got[i].v == sel[i].v, "select_iter", "select_iter visits another row %zu", i);
        break;
      }
      default: {
        if (cond && key.t && view[wi].type != CEE_SQLITE3_BLOB && vd.data[wi].has_value) {
          V in = v_obj();
          in.set(view[wi].name, to_v(key));
          struct cee_json *in_j = build_plain(d.st, in);
          cee_sqlite3_stmt_strs ss;
          memset(&ss, 0, sizeof ss);
          ss.table_name = (char *)"t";
          ss.select_stmt = sq;
          cee_sqlite3_db_op op = {&ss, info, nullptr}, *mine = new_cee_sqlite3_db_op(d.st, &op, vd.info.size() * sizeof(cee_sqlite3_bind_info));
          if (c.coin()) {  // the operation was used before, for another value
            V other = v_obj();
            other.set(view[wi].name, to_v(value_of(c, view[wi].type)));
            cee_sqlite3_select_op(&d.cs, mine, build_plain(d.st, other), &j);
            j = nullptr;
          }
          rc = cee_sqlite3_select_op(&d.cs, mine, in_j, &j);
        } else
          rc = cee_sqlite3_select(&d.cs, info, data, sq, &j);
        expect(c, want, j, "select_op", "select_op");
      }
    }
    CHECK(c, rc == SQLITE_DONE, "select-rc", "the select returns %d", rc);
    d.closed("a select");
  }
  d.table("t", cols, model, "the selects");
  d.end();
}

void failing_statements(Case &c) {
  Cols cols = gen_cols(c, 1, 4, false);
  for (auto &x : cols) x.has_def = false;
  Db d(c);
  d.exec("create table t(" + join(cols, decl) + ", u int unique)");
  Cols with_u = cols;
  Col u;
  u.name = "u";
  u.var = "@u";
  with_u.push_back(u);
  Rows model;
  for (unsigned n = (unsigned)c.draw(6), i = 0; i < n; i++) {
    Row w;
    w.id = next_id(model);
    for (auto &x : cols) w.v.push_back(value_of(c, x.type));
    w.v.push_back(c_int(100 + i));
    d.put("t", with_u, w);
    model.push_back(w);
  }
  Desc ds(with_u);
  bool late = false;
  std::string bad_select, bad_write;
  switch (c.draw(4)) {
    case 0: bad_select = "select from where"; bad_write = "insert t into"; break;
    case 1: bad_select = "select * from missing"; bad_write = c.coin() ? "update t set missing=1" : "delete from missing"; break;
    case 2: bad_select = "select * from t where u=@nobody"; bad_write = c.pick<const char *>({"insert into t(u) values (@nobody)", "delete from t where u=@nobody", "update t set u=@nobody", "delete from t where u=@u or u=@nobody"});
      if (c.coin()) {  // after or between described ones
        std::vector<std::string> v;
        for (auto &x : with_u) v.push_back(x.name + "=" + x.var);
        v.insert(v.end() - (c.chance(2, 3) ? 0 : c.index(v.size() + 1)), "u=@nobody");
        std::string w;
        for (auto &x : v) w += (w.empty() ? "" : " or ") + x;
        bad_select = "select * from t where " + w;
        bad_write = c.coin() ? "delete from t where " + w : "update t set u=7 where " + w;
      }
      break;
    case 3:  // fails when the k-th row is computed
      bad_select = "select case when rowid>" + std::to_string(c.draw(model.size())) + " then abs(-9223372036854775807-1) else u end as u from t order by rowid";
      bad_write = "update t set u=abs(-9223372036854775807-1)";
      late = true;
      break;
    default: bad_select = "select abs(-9223372036854775807-1)"; bad_write = "insert into t(rowid, u) values (1, 100)"; late = true;
  }
  bool select_fails = true, write_fails = true;
  if (late) {  // judged by running them without the library
    sqlite3_exec(d.db, "savepoint probe", nullptr, nullptr, nullptr);
    select_fails = sqlite3_exec(d.db, bad_select.c_str(), nullptr, nullptr, nullptr) != SQLITE_OK;
    write_fails = sqlite3_exec(d.db, bad_write.c_str(), nullptr, nullptr, nullptr) != SQLITE_OK;
    sqlite3_exec(d.db, "rollback to probe; release probe", nullptr, nullptr, nullptr);
  }
  if (!model.empty() && late) c.nontrivial();
  char *sel = (char *)bad_select.c_str(), *wr = (char *)bad_write.c_str();
  ds.fill(ds.data[with_u.size() - 1], with_u.back(), c_int(100), nullptr);
  cee_sqlite3_stmt_strs ss;
  memset(&ss, 0, sizeof ss);
  ss.table_name = (char *)"t";
  cee_sqlite3_bind_info *info = ds.info.data();
  cee_sqlite3_bind_data *data = ds.data.data();
  for (unsigned k = 0, n = 1 + (unsigned)c.draw(3); k < n; k++) {
    struct cee_json *j = nullptr;
    int rc = -1, f = (int)c.draw(10);
    bool fails = select_fails, object = true;
    const char *name = "";
    Status s(c, d.st);
    c.note("function %d: %s / %s", f, sel, wr);
    switch (f) {
      case 0: name = "select"; s.mode = 1, s.j = nullptr; if (c.chance(1, 3)) s.j = cee_json_array_mk(d.st, 1); rc = cee_sqlite3_select(&d.cs, info, data, sel, s.p()); break;
      case 1: name = "select1"; rc = cee_sqlite3_select1(&d.cs, info, data, sel, s.p()); break;
      case 2: name = "select_as"; rc = cee_sqlite3_select_as(&d.cs, info, data, sel, s.p(), (char *)"rows"); break;
      case 3: name = "select1_as"; if (s.mode == 2) s.mode = 1, s.j = nullptr; rc = cee_sqlite3_select1_as(&d.cs, info, data, sel, s.p(), (char *)"row"); break;
      case 4: {
        name = "select_iter";
        s.mode = s.mode ? 1 : 0;
        s.j = nullptr;
        static int visits;
        visits = 0;
        rc = cee_sqlite3_select_iter(&d.cs, info, data, sel, &c, [](void *p, struct cee_state *, struct cee_sqlite3_bind_info *, sqlite3_stmt *) {
          CHECK(*(Case *)p, ++visits < 100, "select-endless", "the failing select goes on for ever");
          return 0;
        }, s.p());
        break;
      }
      case 5: name = "insert"; {
        fails = write_fails;
        int id = -4712;
        rc = cee_sqlite3_insert(&d.cs, info, data, wr, s.p(), nullptr, c.coin() ? &id : nullptr);
        if (fails) CHECK(c, id == -4712, "failure-id", "a failing insert gives row id %d", id);
        break;
      }
      case 6: name = "delete"; fails = write_fails; rc = cee_sqlite3_delete(&d.cs, info, data, wr, s.p(), nullptr); if (s.mode && fails) CHECK(c, !cee_json_object_get(s.j, (char *)"deleted"), "delete-count", "a failing delete reports deleted rows"); break;
      case 7: name = "update_or_insert (select)"; ss.select_stmt = sel; ss.update_stmt = (char *)"update t set u=9999"; ss.insert_stmt = (char *)"insert into t(u) values(8888)"; if (!select_fails) continue; 
        if (late && !model.empty() && c.draw(0) == 0) { /* the first step may deliver a row */
          sqlite3_stmt *p = nullptr;
          sqlite3_prepare_v2(d.db, sel, -1, &p, nullptr);
          int first = sqlite3_step(p);
          sqlite3_finalize(p);
          if (first == SQLITE_ROW || first == SQLITE_DONE) continue;
        } else if (late && model.empty() && bad_select.find("from t") != std::string::npos) continue;
        rc = cee_sqlite3_update_or_insert(&d.cs, info, data, &ss, s.p()); break;
      case 8: name = "update_if_exists (update)"; if (model.empty()) continue; fails = write_fails; ss.select_stmt = (char *)"select u from t where u=@u"; ss.update_stmt = wr;
        rc = (c.coin() ? cee_sqlite3_update_if_exists : cee_sqlite3_update)(&d.cs, info, data, &ss, s.p());
        if (s.mode && fails) CHECK(c, !cee_json_object_get(s.j, (char *)"updated_rows"), "update-count", "a failing update reports updated rows");
        break;
      case 9: name = "select1_or_insert (insert)"; fails = write_fails; ss.select_stmt = (char *)"select u from t where u=-1"; ss.insert_stmt = wr; rc = cee_sqlite3_select1_or_insert(&d.cs, info, data, &ss, s.p()); break;
      default: name = "bind_run_sql";  rc = cee_sqlite3_bind_run_sql(&d.cs, info, data, wr, nullptr, s.p()); fails = write_fails; object = false; break;
    }
    if (!fails) {  // the statement was fine after all: forget the table
      c.label("succeeds");
      break;
    }
    c.label(name);
    CHECK(c, rc != SQLITE_OK && rc != SQLITE_ROW && rc != SQLITE_DONE, "failure-rc", "%s returns %d for a failing statement", name, rc);
    if (s.mode && object) CHECK(c, has_error(s.j), "failure-error", "%s reports no error", name);
    if (s.mode == 2) s.kept(c);
    d.closed(name);
    d.table("t", with_u, model, name);
  }
  sqlite3_exec(d.db, "rollback", nullptr, nullptr, nullptr);
  d.end();
}

PROPERTY("C35", "insert_select", 9, "a table of 1-6 described columns, up to 12 rows given by bind data or JSON with any subset of columns, read back by every select function; non-trivial: a row with an absent column, a null and a text or blob") { insert_select(c); }
PROPERTY("C35", "failing_statements", 9, "a table and a statement that is malformed, names something missing, leaves a parameter undescribed, violates a constraint or fails after some rows, through every function that runs one; non-trivial: fails after at least one row or in a table with rows") { failing_statements(c); }
PROPERTY("C35", "columns", 6, "a table of untyped and real columns with rows of any values (written without the binding), selected as columns under any names with and without descriptions; non-trivial: a row with a real that is not whole") {
  Db d(c);
  unsigned n = (unsigned)c.range(1, 5);
  Cols cols;
  std::string make;
  for (unsigned i = 0; i < n; i++) {
    Col x;
    x.name = "c" + std::to_string(i);
    x.var = "@" + x.name;
    bool real = c.coin();
    make += (i ? "," : "") + x.name + (real ? " real" : "");
    cols.push_back(x);
  }
  d.exec("create table t(" + make + ")");
  for (unsigned r = (unsigned)c.draw(6); r; r--) {
    Row w;
    w.id = c.chance(1, 8) ? c.range(-5, 1000) : 1000 + r;
    bool taken = false;
    for (auto &o : d.rows("t", {})) taken = taken || o.id == w.id;
    if (taken) continue;
    for (unsigned i = 0; i < n; i++) switch (c.weighted({4, 1, 1, 1, 1})) {
      case 0: w.v.push_back(c_real(c.chance(1, 8) ? (double)c.range(-3, 3) : gen_double(c))); break;
      case 1: w.v.push_back(c_int(int_value(c, true))); break;
      case 2: w.v.push_back(c_text(text_value(c))); break;
      case 3: w.v.push_back(c_blob(blob_value(c))); break;
      default: w.v.push_back(Cell());
    }
    d.put("t", cols, w);
  }
  // a name for each result column, which may be one of a description
  Cols view;
  std::string list;
  for (unsigned i = 0; i < n; i++) {
    Col x;
    switch (c.weighted({3, 1, 1})) {
      case 0: x.name = cols[i].name; list += (i ? "," : "") + x.name; break;
      case 1: x.name = "error" + std::to_string(i); list += (i ? "," : "") + cols[i].name + " as " + x.name; break;
      default: x.name = "max( a , b )" + std::to_string(i); list += (i ? "," : "") + cols[i].name + " as \"" + x.name + "\"";
    }
    x.var = "@v" + std::to_string(i);
    x.no_return = c.chance(1, 6);
    if (n == 1 && !x.no_return) x.no_label = c.coin();
    view.push_back(x);
  }
  std::string sql = "select " + list + " from t order by rowid";
  Rows all = d.rows("t", cols);
  for (auto &w : all) for (auto &x : w.v) if (x.t == 4 && x.d != std::floor(x.d)) c.nontrivial();
  bool described = c.coin();
  Cols eff = view;
  if (!described) for (auto &x : eff) x.no_return = x.no_label = false;
  Desc ds(view);
  if (c.chance(1, 4)) for (auto &b : ds.info) b.var_name = nullptr;  // columns that no parameter is for
  V want = rows_v(eff, all);
  struct cee_json *j = nullptr;
  int rc = cee_sqlite3_select(&d.cs, described ? ds.info.data() : nullptr, described && c.coin() ? ds.data.data() : nullptr, (char *)sql.c_str(), &j);
  c.note("%s of %zu rows", sql.c_str(), all.size());
  CHECK(c, rc == SQLITE_DONE, "select-rc", "the select returns %d", rc);
  expect(c, want, j, "select", "select");
  d.closed("a select");
  d.table("t", cols, all, "the select");
  d.end();
}
PROPERTY("C35", "bind_from_json", 12, "descriptions and a JSON object with known, unknown, null and wrongly typed members bound by bind_data_from_json, up to three of them to the same bind data; non-trivial: used, unused and wrongly typed members") {
  Cols cols = gen_cols(c, 1, 6, true, true);
  struct cee_state *st = cee_state_mk(10);
  Desc ds(cols);
  if (c.chance(1, 3))  // what an earlier use left behind, none of it a value
    for (auto &b : ds.data) { b.size = 3; b.value = (char *)"stale"; b.is_null = 1; b.i = 55; b.i64 = 56; }
  for (unsigned round = 0, rounds = 1 + (unsigned)c.draw(2); round < rounds; round++) {
  V in = v_obj();
  std::set<std::string> bad, used, unused;
  std::map<std::string, Cell> val;
  for (unsigned n = (unsigned)c.draw(cols.size() > 8 ? 80 : 8); n; n--) {
    std::string k = c.chance(4, 5) ? c.of(cols).name : c.coin() ? "zz" : "a_" + c.of(cols).name;
    if (in.find(k)) continue;
    const Col *x = nullptr;
    for (auto &y : cols) if (y.name == k) x = &y;
    if (!x) { in.set(k, v_i64(1)); unused.insert(k); continue; }
    if (c.chance(1, 5)) { in.set(k, v_null()); if (!x->not_null) used.insert(k), val[k] = Cell(); continue; }
    if (x->type == CEE_SQLITE3_BLOB) { in.set(k, v_str("AAAA")); bad.insert(k); continue; }
    if (c.chance(1, 8)) {
      V v;
      switch (c.draw(4)) {
        case 0: v = x->type == CEE_SQLITE3_TEXT ? v_i64(3) : v_str("3"); break;
        case 1: v = v_arr(); break;
        case 2: v = v_dbl(1.5); break;
        case 3: v = v_bool(true); break;
        default: v = x->type == CEE_SQLITE3_INT ? v_i64((int64_t)INT_MAX + 1) : v_u64(1ull << 63);
      }
      in.set(k, v);
      bad.insert(k);
      continue;
    }
    Cell y = value_of(c, x->type);
    in.set(k, to_v(y));
    used.insert(k);
    val[k] = y;
  }
  struct cee_json *j = build_plain(st, in), *u = nullptr, *un = nullptr, *er = nullptr;
  bool wu = c.chance(3, 4), wn = c.chance(3, 4), we = c.chance(3, 4);
  if (wu && c.chance(1, 3)) { u = cee_json_array_mk(st, 1); cee_json_array_append_strf(u, "first"); used.insert("first"); }
  cee_sqlite3_bind_data_from_json(ds.info.data(), ds.data.data(), j, wu ? &u : nullptr, wn ? &un : nullptr, we ? &er : nullptr);
  auto keys = [&](struct cee_json *a) {
    std::set<std::string> s;
    struct cee_list *l = cee_json_to_array(a);
    for (size_t i = 0; i < cee_list_size(l); i++) {
      std::string k = (const char *)cee_json_to_str((struct cee_json *)l->a[i]);
      CHECK(c, s.insert(k).second, "bind-keys", "%s is listed twice", quote(k).c_str());
    }
    return s;
  };
  bool stopped = !bad.empty();  // members after the first wrong one may stay unread
  auto compare = [&](struct cee_json *a, const std::set<std::string> &want, const char *what) {
    std::set<std::string> got = keys(a);
    for (auto &k : got) CHECK(c, want.count(k), "bind-keys", "%s is listed as %s", quote(k).c_str(), what);
    if (!stopped) for (auto &k : want) CHECK(c, got.count(k), "bind-keys", "%s is not listed as %s", quote(k).c_str(), what);
  };
  if (wu) compare(u, used, "used");
  if (wn) compare(un, unused, "unused");
  if (we) CHECK(c, (cee_list_size(cee_json_to_array(er)) != 0) == !bad.empty(), "bind-errors", "%zu errors for %zu wrong members", cee_list_size(cee_json_to_array(er)), bad.size());
  for (size_t i = 0; i < cols.size(); i++) {
    auto it = val.find(cols[i].name);
    cee_sqlite3_bind_data &b = ds.data[i];
    if (it == val.end()) { if (!round) CHECK(c, !b.has_value, "bind-absent", "%s has a value", cols[i].name.c_str()); continue; }
    if (stopped && (round || !b.has_value)) continue;
    CHECK(c, b.has_value && !b.is_null == (it->second.t != 0), "bind-present", "%s has %s", cols[i].name.c_str(), b.has_value ? b.is_null ? "null" : "a value" : "nothing");
    if (b.is_null) continue;
    Cell got = cols[i].type == CEE_SQLITE3_TEXT ? c_text(b.value) : c_int(cols[i].type == CEE_SQLITE3_INT ? b.i : b.i64);
    if (got.t == 2) CHECK(c, b.size == 0 || (size_t)b.size == got.s.size(), "bind-size", "the text of %s has %zu bytes instead of %zu", cols[i].name.c_str(), (size_t)b.size, got.s.size());
    CHECK(c, got == it->second, "bind-value", "%s is %s instead of %s", cols[i].name.c_str(), show(got).c_str(), show(it->second).c_str());
  }
  expect(c, in, j, "input-changed", "the input");
  if (!used.empty() && !unused.empty()) c.nontrivial();
  if (stopped) break;
  }
  cee_del(st);
  CHECK(c, pbt::mem::live() == 0, "leak", "%zu blocks survive the state", pbt::mem::live());
}

PROPERTY("C36", "insert_select", 6, "a table of 1-6 described columns, up to 12 rows given by bind data or JSON with any subset of columns, read back by every select function; non-trivial: a row with an absent column, a null and a text or blob") { insert_select(c); }
PROPERTY("C36", "failing_statements", 6, "a table and a statement that is malformed, names something missing, leaves a parameter undescribed, violates a constraint or fails after some rows, through every function that runs one; non-trivial: fails after at least one row or in a table with rows") { failing_statements(c); }
// ---------------------------------------------------------------- C36
PROPERTY("C36", "operations", 7, "a history of up to 15 insert, update, update_if_exists, update_or_insert, select1_or_insert and delete operations driven by JSON on a table with a unique and a grouping column; non-trivial: at least one hit, one miss and one failing operation") {
  Cols cols = gen_cols(c, 2, 6, false);
  cols[0].unique = true;
  cols[0].has_def = false;
  cols[0].not_null = c.chance(1, 3);
  cols[1].has_def = false;
  for (auto &x : cols) x.no_update = c.chance(1, 5);
  cols[0].no_update = c.chance(2, 3);
  // a constraint that a value can violate
  int guard = -1;
  for (size_t i = 0; i < cols.size(); i++) if (cols[i].type != CEE_SQLITE3_TEXT && c.coin()) guard = (int)i;
  Db d(c);
  d.exec("create table t(" + join(cols, decl) + (guard >= 0 ? ", check(" + cols[guard].name + " is not 7)" : "") + ")");
  Rows model;
  auto valid = [&](const Rows &t) {
    for (size_t i = 0; i < t.size(); i++) {
      for (size_t k = 0; k < cols.size(); k++) {
        if (cols[k].not_null && t[i].v[k].t == 0) return false;
        if ((int)k == guard && t[i].v[k].t == 1 && t[i].v[k].i == 7) return false;
      }
      if (t[i].v[0].t) for (size_t j = 0; j < i; j++) if (t[j].v[0] == t[i].v[0]) return false;
    }
    return true;
  };
  auto small = [&](const Col &x) { return x.type == CEE_SQLITE3_TEXT ? c_text(c.pick<const char *>({"a", "b", "c", "a'b"})) : c_int(c.range(0, 7)); };
  for (unsigned n = (unsigned)c.draw(6), i = 0; i < n; i++) {
    Row w;
    w.id = next_id(model);
    if (i == 0 && c.chance(1, 6)) w.id = c.pick<int64_t>({INT_MAX, 1ll << 33});
    for (auto &x : cols) w.v.push_back(!x.not_null && c.chance(1, 5) ? Cell() : small(x));
    Rows t = model;
    t.push_back(w);
    if (!valid(t)) continue;
    d.put("t", cols, w);
    model = t;
  }
  bool hit = false, miss = false, failed = false, reuse = c.chance(1, 4);
  Desc ds(cols);
  struct cee_json *old_in = nullptr;
  (void)old_in;
  for (unsigned n = 1 + (unsigned)c.draw(14); n; n--) {
    size_t by = c.chance(3, 4) ? 0 : 1;  // the column of the where clause
    std::string where = " where " + cols[by].name + "=" + cols[by].var;
    std::string sel = "select " + join(cols, [](const Col &x) { return x.name; }) + " from t" + where + " order by rowid";
    std::string ins = "insert into t(" + join(cols, [](const Col &x) { return x.name; }) + ") values (" + join(cols, [](const Col &x) { return x.var; }) + ")";
    std::string upd = "update t set " + join(cols, [](const Col &x) { return x.name + "=" + x.var; }) + where, tmpl = "update t set %s" + where, del = "delete from t" + where;
    for (auto *q : {&sel, &ins, &upd, &tmpl, &del}) *q = dressed(c, *q);
    // the input
    V in = v_obj();
    bool mistyped = false, reused = false;
    std::vector<int> has(cols.size());
    Cells given(cols.size());
    for (size_t k = 0; k < cols.size(); k++) {
      if (!c.chance(k == by ? 9 : 6, 10)) continue;
      const Col &x = cols[k];
      if (c.chance(1, 40)) { in.set(x.name, c.coin() ? (x.type == CEE_SQLITE3_TEXT ? v_i64(1) : v_str("1")) : v_bool(false)); mistyped = true; continue; }
      if (c.chance(1, 8)) { in.set(x.name, v_null()); if (!x.not_null) has[k] = 1; continue; }
      has[k] = 1;
      given[k] = k == by && !model.empty() && c.chance(1, 2) ? c.of(model).v[by] : c.chance(1, 10) ? value_of(c, x.type) : small(x);
      if (given[k].t == 0) has[k] = !x.not_null;
      in.set(x.name, to_v(given[k]));
    }
    bool unknown = c.chance(1, 6);
    if (unknown) in.set("nobody", v_i64(1));
    // what every variable is bound to
    auto bound = [&](size_t k, bool inserting) { return has[k] ? given[k] : cols[k].has_def ? cols[k].def : inserting && cols[k].not_null ? zero_of(cols[k].type) : Cell(); };
    Cell key = bound(by, false);
    std::vector<size_t> match;
    for (size_t i = 0; i < model.size(); i++) if (key.t && model[i].v[by] == key) match.push_back(i);
    // the operation
    int f = (int)c.draw(5);
    bool dyn_i = c.coin(), dyn_u = c.coin();
    cee_sqlite3_stmt_strs ss;
    memset(&ss, 0, sizeof ss);
    ss.table_name = (char *)"t";
    ss.select_stmt = (char *)sel.c_str();
    ss.insert_dynamic = dyn_i;
    ss.insert_stmt = dyn_i ? nullptr : (char *)ins.c_str();
    ss.update_stmt = dyn_u ? nullptr : (char *)upd.c_str();
    ss.update_template = dyn_u ? (char *)tmpl.c_str() : nullptr;
    ss.delete_stmt = (char *)del.c_str();
    // its outcome by the model
    Rows t = model;
    bool ok = !mistyped, warn = false, inserted = false, updated = false;
    int64_t new_id = 0;
    auto do_insert = [&]() {
      Row w;
      bool any = false;
      w.id = new_id = next_id(model);
      for (size_t k = 0; k < cols.size(); k++) {
        any = any || has[k] || cols[k].has_def || cols[k].not_null;
        w.v.push_back(bound(k, true));
      }
      inserted = true;
      if (dyn_i && !any) { ok = false; return; }
      t.push_back(w);
    };
    auto do_update = [&]() {
      std::vector<size_t> set;
      for (size_t k = 0; k < cols.size(); k++)
        if (!dyn_u) set.push_back(k);
        else if (in.find(cols[k].name) && !cols[k].no_update && (has[k] || cols[k].has_def)) set.push_back(k);
      if (set.empty()) { warn = true; return; }
      updated = true;
      for (size_t i : match) for (size_t k : set) t[i].v[k] = bound(k, false);
    };
    const char *name = "";
    Status s(c, d.st, f == 1 || f == 2 || f == 3);
    if (!reuse) ds.fresh();
    else {
      // the same data may be used again when it is given the same columns
      for (size_t k = 0; k < cols.size(); k++) if (ds.data[k].has_value && !has[k]) reused = true;
      if (reused) ds.fresh();
    }
    struct cee_json *j = build_plain(d.st, in);
    cee_sqlite3_db_op op = {&ss, ds.info.data(), ds.data.data()};
    int rc;
    switch (f) {
      case 0: name = "insert_op"; if (ok) do_insert(); break;
      case 1: name = "update_op"; if (ok && !match.empty()) do_update(); break;
      case 2: name = "update_if_exists_op"; if (ok && !match.empty()) do_update(); break;
      case 3: name = "update_or_insert_op"; if (ok) { if (match.empty()) do_insert(); else do_update(); } break;
      case 4: name = "select1_or_insert"; if (ok && match.empty()) do_insert(); break;
      default: name = "delete"; if (ok) { for (size_t i = match.size(); i--;) t.erase(t.begin() + match[i]); } break;
    }
    if (ok && !valid(t)) ok = false;
    if (!ok) t = model;
    c.note("%s%s%s by %s with %s: %s, %zu matching", name, dyn_i ? " di" : "", dyn_u ? " du" : "", cols[by].name.c_str(), jm::show(in).c_str(), ok ? "fine" : "fails", match.size());
    switch (f) {
      case 0: rc = cee_sqlite3_insert_op(&d.cs, &op, j, s.p()); break;
      case 1: rc = cee_sqlite3_update_op(&d.cs, &op, j, s.p()); break;
      case 2: rc = cee_sqlite3_update_if_exists_op(&d.cs, &op, j, s.p()); break;
      case 3: rc = cee_sqlite3_update_or_insert_op(&d.cs, &op, j, s.p()); break;
      case 4: rc = cee_sqlite3_generic_opcode(&d.cs, j, op.info, op.data, &ss, s.p(), cee_sqlite3_select1_or_insert); break;
      default: {
        static const char *count_key;
        count_key = c.coin() ? "gone" : nullptr;
        rc = cee_sqlite3_generic_opcode(&d.cs, j, op.info, op.data, &ss, s.p(),
                                        [](struct cee_sqlite3 *cs, struct cee_sqlite3_bind_info *i, struct cee_sqlite3_bind_data *dt, struct cee_sqlite3_stmt_strs *st, struct cee_json **r) {
                                          return cee_sqlite3_delete(cs, i, dt, st->delete_stmt, r, (char *)count_key);
                                        });
        if (ok && s.mode) {
          int64_t got = int_at(c, s.j, count_key ? count_key : "deleted");
          CHECK(c, got == (int64_t)match.size(), "deleted", "%lld rows reported deleted instead of %zu", (long long)got, match.size());
        }
      }
    }
    d.closed(name);
    d.table("t", cols, t, name);
    model = t;
    CHECK(c, (rc == SQLITE_DONE) == ok, "op-rc", "%s returns %d: %s", name, rc, sqlite3_errmsg(d.db));
    expect(c, in, j, "input-changed", "the input");
    s.kept(c);
    if (s.mode) {
      CHECK(c, s.j && s.j->t == CEE_JSON_OBJECT, "op-status", "%s gives no status object", name);
      bool want_error = !ok || (f == 1 && match.empty());
      CHECK(c, has_error(s.j) == want_error, "op-error", "%s %s", name, want_error ? "reports no error" : "reports an error");
      CHECK(c, (cee_json_object_get(s.j, (char *)"warning") != nullptr) == (ok && warn), "op-warning", "%s %s", name, warn ? "gives no warning that there is nothing to update" : "gives a warning");
      const char *id = f == 0 ? "id" : "last_insert_rowid";
      CHECK(c, (cee_json_object_get(s.j, (char *)id) != nullptr) == (ok && inserted), "op-inserted", "%s %s", name, inserted ? "reports no row id" : "reports a row id");
      if (ok && inserted) CHECK(c, int_at(c, s.j, id) == new_id, "op-row-id", "%s reports row %lld instead of %lld", name, (long long)int_at(c, s.j, id), (long long)new_id);
      if (f == 1 || f == 2) {
        CHECK(c, (cee_json_object_get(s.j, (char *)"updated_rows") != nullptr) == (ok && updated), "op-updated", "%s %s", name, updated ? "reports no updated rows" : "reports updated rows");
        if (ok && updated) CHECK(c, int_at(c, s.j, "updated_rows") == (int64_t)match.size(), "op-updated", "%s reports %lld updated rows instead of %zu", name, (long long)int_at(c, s.j, "updated_rows"), match.size());
      }
      if (f == 4 && ok && !match.empty()) {
        for (size_t k = 0; k < cols.size(); k++) {
          struct cee_json *x = cee_json_object_get(s.j, (char *)cols[k].name.c_str());
          expect(c, to_v(model[match[0]].v[k]), x, "op-selected", "a column of the selected row");
        }
      }
      if (ok) {
        struct cee_json *dbg = cee_json_object_get(s.j, (char *)"debug");
        CHECK(c, dbg, "op-debug", "no debug member");
        std::set<std::string> u, want;
        struct cee_list *l = cee_json_to_array(cee_json_object_get(dbg, (char *)"used_keys"));
        for (size_t i = 0; i < cee_list_size(l); i++) u.insert((const char *)cee_json_to_str((struct cee_json *)l->a[i]));
        for (size_t k = 0; k < cols.size(); k++) if (has[k]) want.insert(cols[k].name);
        CHECK(c, u == want, "op-used", "%s lists %zu used keys instead of %zu", name, u.size(), want.size());
        struct cee_json *un = cee_json_object_get(dbg, (char *)"unused_keys");
        CHECK(c, (un != nullptr) == unknown, "op-unused", "%s %s", name, unknown ? "lists no unused keys" : "lists unused keys");
        if (un) {
          struct cee_list *l = cee_json_to_array(un);
          CHECK(c, cee_list_size(l) == 1 && !strcmp((const char *)cee_json_to_str((struct cee_json *)l->a[0]), "nobody"), "op-unused", "%s lists other unused keys", name);
        }
      }
    }
    if (!ok) failed = true;
    else if (f && !match.empty()) hit = true;
    else if (f) miss = true;
    c.label(!ok ? "failing" : f == 0 ? "insert" : !match.empty() ? "hit" : "miss");
  }
  if (hit && miss && failed) c.nontrivial();
  d.end();
}

PROPERTY("C36", "self_described", 8, "operations whose bind description is made from the JSON itself; non-trivial: at least two members of different types") {
  Cols cols = gen_cols(c, 1, 5, false);
  for (auto &x : cols) {
    x.has_def = x.not_null = false;
    x.var = "@" + x.name;
    if (x.type == CEE_SQLITE3_INT64) x.type = CEE_SQLITE3_INT;
  }
  Db d(c);
  d.exec("create table t(" + join(cols, decl) + ")");
  Rows model;
  bool mixed = false;
  for (unsigned n = 1 + (unsigned)c.draw(5); n; n--) {
    V in = v_obj();
    Row w;
    w.id = next_id(model);
    w.v.resize(cols.size());
    bool i = false, t = false;
    std::string names, vars;
    for (size_t k = 0; k < cols.size(); k++) {
      if (!c.chance(4, 5)) continue;
      if (c.chance(1, 6)) { in.set(cols[k].name, v_null()); continue; }
      w.v[k] = value_of(c, cols[k].type);
      (w.v[k].t == 1 ? i : t) = true;
      in.set(cols[k].name, to_v(w.v[k]));
      names += (names.empty() ? "" : ",") + cols[k].name;
      vars += (vars.empty() ? "" : ",") + cols[k].var;
    }
    if (names.empty()) continue;
    if (i && t) mixed = true;
    struct cee_json *j = build_plain(d.st, in);
    std::string ins = "insert into t(" + names + ") values (" + vars + ")";
    cee_sqlite3_stmt_strs ss;
    memset(&ss, 0, sizeof ss);
    ss.table_name = (char *)"t";
    ss.insert_dynamic = c.coin();
    if (!ss.insert_dynamic) ss.insert_stmt = (char *)ins.c_str();
    cee_sqlite3_db_op op = {&ss, nullptr, nullptr};
    Status s(c, d.st);
    int rc = cee_sqlite3_insert_op(&d.cs, &op, j, s.p());
    CHECK(c, rc == SQLITE_DONE, "op-rc", "insert_op without a description returns %d: %s", rc, sqlite3_errmsg(d.db));
    model.push_back(w);
    d.closed("insert_op");
    d.table("t", cols, model, "insert_op without a description");
    s.kept(c);
    // the description itself
    struct cee_sqlite3_bind_info *info = cee_json_to_bind_info(j);
    std::map<std::string, Cell> got;
    for (size_t k = 0; info[k].var_name; k++) {
      CHECK(c, k < cols.size() && info[k].data.has_value && !strcmp(info[k].var_name + 1, info[k].col_name) && info[k].var_name[0] == '@', "bind-info", "entry %zu of the description is odd", k);
      CHECK(c, !got.count(info[k].col_name), "bind-info", "%s is described twice", info[k].col_name);
      got[info[k].col_name] = info[k].type == CEE_SQLITE3_TEXT ? c_text(info[k].data.value) : c_int(info[k].data.i);
    }
    for (size_t k = 0; k < cols.size(); k++) {
      if (w.v[k].t == 0) CHECK(c, !got.count(cols[k].name), "bind-info", "%s is described", cols[k].name.c_str());
      else CHECK(c, got.count(cols[k].name) && got[cols[k].name] == w.v[k], "bind-info", "%s is described differently", cols[k].name.c_str());
    }
    // select with it
    if (c.coin()) {
      size_t k = c.index(cols.size());
      if (w.v[k].t) {
        V q = v_obj();
        q.set(cols[k].name, to_v(w.v[k]));
        std::string sel = "select " + join(cols, [](const Col &x) { return x.name; }) + " from t where " + cols[k].name + "=" + cols[k].var + " order by rowid";
        ss.select_stmt = (char *)sel.c_str();
        struct cee_json *r = nullptr;
        rc = cee_sqlite3_select_op(&d.cs, &op, build_plain(d.st, q), &r);
        Rows want;
        for (auto &m : model) if (m.v[k] == w.v[k]) want.push_back(m);
        CHECK(c, rc == SQLITE_DONE, "op-rc", "select_op without a description returns %d", rc);
        expect(c, rows_v(cols, want), r, "select_op", "select_op without a description");
        d.closed("select_op");
      }
    }
  }
  if (c.chance(1, 25)) {  // an integer an int cannot hold, which has no other description: stored as it is or not at all
    size_t k = c.index(cols.size());
    int64_t big = value_of(c, CEE_SQLITE3_INT64).i;
    V in = v_obj();
    in.set(cols[k].name, v_i64(big));
    int code = apart([&]() -> int {
      std::string ins = "insert into t(" + cols[k].name + ") values (" + cols[k].var + ")";
      cee_sqlite3_stmt_strs ss;
      memset(&ss, 0, sizeof ss);
      ss.table_name = (char *)"t";
      ss.insert_stmt = (char *)ins.c_str();
      cee_sqlite3_db_op op = {&ss, nullptr, nullptr};
      cee_sqlite3_insert_op(&d.cs, &op, build_plain(d.st, in), nullptr);
      Rows after = d.rows("t", cols);
      if (after.size() == model.size()) return 0;
      const Cell &x = after.back().v[k];
      return x == c_int(big) || (x.t == 2 && x.s == std::to_string(big)) ? 0 : 41;
    });
    CHECK(c, code == 0 || code == 99, "op-wide-int", "%lld is stored as another integer (%d)", (long long)big, code);
  }
  if (mixed) c.nontrivial();
  d.end();
}

// ---------------------------------------------------------------- C37
PROPERTY("C37", "join", 12, "an array of up to 40 objects or one object joined with a table of up to 60 rows by 1-3 bound members; non-trivial: two objects with different non-empty results") {
  Cols cols = gen_cols(c, 1, 4, true);
  unsigned nk = (unsigned)c.range(1, std::min<size_t>(3, cols.size()));
  bool many = c.chance(1, 30);
  for (unsigned i = 0; i < nk; i++) if (cols[i].type == CEE_SQLITE3_BLOB) cols[i].type = CEE_SQLITE3_TEXT;
  for (auto &x : cols) x.not_null = x.has_def = false;
  Db d(c);
  d.exec("create table t(" + join(cols, decl) + ")");
  auto small = [&](const Col &x) { return c.chance(1, 8) ? value_of(c, x.type) : x.type == CEE_SQLITE3_TEXT ? c_text(c.pick<const char *>({"a", "b", ""})) : c_int(c.range(0, 2) + (x.type == CEE_SQLITE3_INT64 ? (1ll << 33) : 0)); };
  Rows model;
  for (unsigned n = many ? 20 + (unsigned)c.draw(40) : c.chance(1, 6) ? (unsigned)c.draw(2) : 2 + (unsigned)c.draw(8); n; n--) {
    Row w;
    w.id = next_id(model);
    for (unsigned i = 0; i < cols.size(); i++) w.v.push_back(i < nk ? small(cols[i]) : c.chance(1, 6) ? Cell() : value_of(c, cols[i].type));
    d.put("t", cols, w);
    model.push_back(w);
  }
  // the described variables: bound members first, in the data or in the description's default
  Cols vars(cols.begin(), cols.begin() + nk);
  bool in_data = c.coin();
  std::vector<std::string> member;
  for (auto &x : vars) {
    if (x.type == CEE_SQLITE3_TEXT && c.chance(1, 20)) x.type = CEE_SQLITE3_BLOB;  // nothing in JSON can be bound to it
    x.has_def = !in_data || c.chance(1, 3);
    x.def = c.chance(1, 4) ? Cell() : value_of(c, x.type);
    if (c.chance(1, 3)) x.name = "m_" + x.name;  // the member is not called like the column
    member.push_back(x.name);
  }
  size_t hidden = 99;
  if (c.chance(1, 5) && cols.size() > nk) {  // a described column that is not returned; it is not bound
    Col x = cols[nk];
    hidden = nk;
    x.no_return = true;
    vars.push_back(x);
  }
  Desc ds(vars);
  if (in_data) for (unsigned i = 0; i < nk; i++) ds.fill(ds.data[i], vars[i], vars[i].def, &c);
  // a column that cannot be computed for some rows: the statement fails when it comes to one
  int boom = -1;
  if (c.chance(1, 8)) for (unsigned i = 0; i < cols.size(); i++) if (cols[i].type == CEE_SQLITE3_INT) boom = (int)i;
  std::string sql = "select " + join(cols, [](const Col &x) { return x.name; }) + (boom < 0 ? "" : ", case when " + cols[boom].name + "=0 then abs(-9223372036854775807-1) else 5 end as boom") + " from t where ";
  for (unsigned i = 0; i < nk; i++) sql += (i ? " and " : "") + cols[i].name + "=" + vars[i].var;
  bool down = c.coin();
  sql += down ? " order by rowid desc" : " order by rowid";
  bool bad_sql = c.chance(1, 12);
  if (bad_sql) sql = c.coin() ? "select * from nowhere" : sql + " limit @nobody";
  bool keyed = c.chance(2, 3);
  if (boom >= 0 && !keyed && !bad_sql) sql += " limit 1";
  // the objects
  V arr = v_arr();
  bool single = c.chance(1, 4);
  for (unsigned n = single ? 1 : many ? 10 + (unsigned)c.draw(30) : (unsigned)c.draw(6); n; n--) {
    V o = v_obj();
    size_t like = !model.empty() && c.chance(3, 4) ? c.index(model.size()) : model.size();  // the row it matches
    if (c.coin()) o.set("before", v_str("x"));
    for (unsigned i = 0; i < nk; i++) {
      if (c.chance(1, many ? 200 : 30)) continue;
      if (c.chance(1, many ? 200 : 30)) {
        V v;
        switch (c.draw(4)) {
          case 0: break;
          case 1: v = v_dbl(0.5); break;
          case 2: v = v_arr(); break;
          case 3: v = vars[i].type == CEE_SQLITE3_INT ? v_i64(1ll << 40) : v_bool(true); break;
          default: v = vars[i].type == CEE_SQLITE3_TEXT ? v_i64(1) : v_str("1");
        }
        o.set(member[i], v);
        continue;
      }
      o.set(member[i], to_v(like < model.size() ? model[like].v[i] : small(cols[i])));
    }
    if (c.coin()) o.set("after", v_i64(1));
    if (keyed && c.chance(1, 8)) { V old = v_arr(); old.a.push_back(v_obj()); o.set("joined", c.coin() ? v_i64(3) : old); }
    arr.a.push_back(o);
  }
  // the join by the model
  std::vector<V> want;
  std::vector<int> error(arr.a.size());
  bool stop = false;
  std::set<std::string> results;
  Cols view = cols;
  if (hidden != 99) view[hidden].no_return = true;
  if (boom >= 0) { Col x = cols[boom]; x.name = "boom"; x.no_return = false; view.push_back(x); }
  for (size_t n = 0; n < arr.a.size(); n++) {
    V o = arr.a[n];
    if (stop) { want.push_back(o); continue; }
    Cells key;
    for (unsigned i = 0; i < nk && !error[n]; i++) {
      V *v = o.find(member[i]);
      if (v && v->k == I64 && vars[i].type == CEE_SQLITE3_INT && v->i == (int)v->i) key.push_back(c_int(v->i));
      else if (v && v->k == I64 && vars[i].type == CEE_SQLITE3_INT64) key.push_back(c_int(v->i));
      else if (v && v->k == STR && vars[i].type == CEE_SQLITE3_TEXT) key.push_back(c_text(v->s));
      else error[n] = 1;
    }
    if (!error[n] && bad_sql) error[n] = 2;
    if (error[n]) { stop = true; want.push_back(o); continue; }
    Rows sel;
    for (auto &w : model) {
      bool same = true;
      for (unsigned i = 0; i < nk; i++) same = same && w.v[i] == key[i];
      if (same) sel.insert(down ? sel.begin() : sel.end(), w);
    }
    for (size_t r = 0; boom >= 0 && r < sel.size(); r++) {
      if (r && !keyed) break;  // only the first row is asked for
      if (sel[r].v[boom] == c_int(0)) error[n] = 2;
    }
    if (boom >= 0) for (auto &w : sel) w.v.push_back(c_int(5));
    if (error[n]) { stop = true; want.push_back(o); continue; }
    V rows = rows_v(view, sel);
    if (!sel.empty()) results.insert(jm::show(rows, 2000));
    if (keyed) o.set("joined", rows);
    else if (!sel.empty()) for (auto &e : rows.a[0].m) o.set(e.first, e.second);
    want.push_back(o);
  }
  if (results.size() >= 2) c.nontrivial();
  struct cee_json *j = build_plain(d.st, arr);
  c.note("%s on %s, %s", sql.c_str(), jm::show(arr, 600).c_str(), keyed ? "keyed" : "merged");
  cee_sqlite3_bind_data *data = in_data || c.coin() ? ds.data.data() : nullptr;
  if (single) cee_sqlite3_json_object_join_table(&d.cs, (struct cee_json *)cee_json_to_array(j)->a[0], ds.info.data(), data, (char *)sql.c_str(), keyed ? (char *)"joined" : nullptr);
  else cee_sqlite3_json_array_join_table(&d.cs, j, ds.info.data(), data, (char *)sql.c_str(), keyed ? (char *)"joined" : nullptr);
  d.closed("joining");
  d.table("t", cols, model, "joining");
  struct cee_list *l = cee_json_to_array(j);
  CHECK(c, cee_list_size(l) == want.size(), "join-size", "joining changes the number of objects");
  for (size_t n = 0; n < want.size(); n++) {
    struct cee_json *o = (struct cee_json *)l->a[n];
    size_t extra = 0;
    if (error[n] == 1 || (error[n] == 2 && !keyed)) {
      CHECK(c, cee_json_object_get(o, (char *)"error"), "join-error", "object %zu has no error", n);
      extra = 1;
    } else if (error[n] == 2) {
      struct cee_json *x = cee_json_object_get(o, (char *)"joined");
      CHECK(c, x && has_error(x), "join-error", "object %zu has no error under its key", n);
      extra = want[n].find("joined") == nullptr;
      if (!extra) continue;
    } else
      CHECK(c, !cee_json_object_get(o, (char *)"error"), "join-error", "object %zu has an error", n);
    CHECK(c, cee_map_size(cee_json_to_object(o)) == want[n].m.size() + extra, "join-members", "object %zu has %zu members instead of %zu", n, (size_t)cee_map_size(cee_json_to_object(o)), want[n].m.size() + extra);
    for (auto &e : want[n].m) {
      std::string what = "object " + std::to_string(n) + " member " + e.first;
      expect(c, e.second, cee_json_object_get(o, (char *)e.first.c_str()), "join-member", what.c_str());
    }
  }
  d.end();
}

// ---------------------------------------------------------------- C38
PROPERTY("C38", "next_int", 10, "a table of integers in groups and the next integer of any group, with clauses of any length; non-trivial: a group with rows, not ending in its largest") {
  Db d(c);
  d.exec("create table t(g text, n int)");
  std::map<std::string, std::vector<int64_t>> model;
  std::set<std::string> words;  // the largest of these is no number
  for (unsigned n = (unsigned)c.draw(10); n; n--) {
    std::string g = c.pick<const char *>({"a", "b", "c"});
    if (c.chance(1, 12)) g = std::string(200, 'g');
    int64_t v = c.chance(1, 12) ? c.pick<int64_t>({INT_MAX, INT_MAX - 1, INT_MIN, (int64_t)INT_MAX + 1, 1ll << 40}) : c.range(-5, 50);
    bool null = c.chance(1, 10), word = c.chance(1, 20);
    d.exec("insert into t values('" + g + "'," + (null ? "null" : word ? "'5 or a word'" : std::to_string(v)) + ")");
    if (word && !null) words.insert(g);
    else if (!null) model[g].push_back(v);
  }
  for (unsigned n = 1 + (unsigned)c.draw(3); n; n--) {
    std::string g = c.pick<const char *>({"a", "b", "c"});
    if (c.chance(1, 4)) g = std::string(200, 'g');
    std::string from = "from t where g='" + g + "'", col = "n";
    for (unsigned k = (unsigned)(c.chance(1, 3) ? c.draw(40) : 0); k; k--) from += " and 1=1";
    bool broken = c.chance(1, 8);
    if (broken) { if (c.coin()) col = "nothing"; else from = "from nowhere"; }
    int64_t want = 1;
    auto &v = model[g];
    if (!v.empty()) {
      want = *std::max_element(v.begin(), v.end()) + 1;
      if (v.back() + 1 != want) c.nontrivial();
    }
    bool refused = broken || words.count(g) || want > INT_MAX || want <= (int64_t)INT_MIN;
    struct cee_json *st = nullptr;
    int got = cee_sqlite3_next_int(&d.cs, (char *)col.c_str(), (char *)from.c_str(), &st);
    c.note("%s %s -> %d", col.c_str(), from.c_str(), got);
    if (refused) CHECK(c, got == -1 && st, "next_int", "the next int is %d with%s status although there is none", got, st ? "" : "out");
    else CHECK(c, got == want, "next_int", "the next int is %d instead of %lld", got, (long long)want);
    if (broken) CHECK(c, has_error(st), "next_int", "no error for a failing query");
    d.closed("next_int");
  }
  d.end();
}

PROPERTY("C38", "insert_array", 4, "an array of objects inserted as rows of a table of 1-120 columns, some with unknown columns or refused values; non-trivial: objects with 50 or more keys, or one that is refused among others") {
  bool wide = c.chance(1, 4);
  unsigned nc = wide ? (unsigned)c.range(40, 120) : (unsigned)c.range(1, 6);
  Cols cols;
  for (unsigned i = 0; i < nc; i++) {
    Col x;
    x.name = "c" + std::to_string(i);
    x.type = c.coin() ? CEE_SQLITE3_INT64 : CEE_SQLITE3_TEXT;
    x.not_null = !wide && c.chance(1, 4);
    cols.push_back(x);
  }
  Db d(c);
  d.exec("create table t(" + join(cols, decl) + ")");
  V arr = v_arr();
  Rows model;
  bool big = false, refused = false;
  for (unsigned n = (unsigned)c.draw(5); n; n--) {
    V o = v_obj();
    Row w;
    w.id = next_id(model);
    w.v.resize(nc);
    bool ok = true;
    unsigned skip = wide ? (unsigned)c.pick({0, 0, 1, 8}) : 2;
    for (unsigned i = 0; i < nc; i++) {
      if (skip && c.chance(skip, 10)) { if (cols[i].not_null) ok = false; continue; }
      if (c.chance(1, 8)) { o.set(cols[i].name, v_null()); if (cols[i].not_null) ok = false; continue; }
      w.v[i] = wide && c.chance(3, 4) ? (cols[i].type == CEE_SQLITE3_TEXT ? c_text("t") : c_int(i)) : value_of(c, cols[i].type);
      o.set(cols[i].name, to_v(w.v[i]));
    }
    if (c.chance(1, 10)) { o.set("nocolumn", v_i64(1)); ok = false; }
    if (o.m.empty()) ok = false;
    if (o.m.size() >= 50) big = true;
    if (!ok) refused = true;
    if (ok) model.push_back(w);
    arr.a.push_back(o);
  }
  if (big || (refused && !model.empty())) c.nontrivial();
  struct cee_json *j = build_plain(d.st, arr);
  FILE *keep = stderr;
  static FILE *null = fopen("/dev/null", "w");
  stderr = null;  // it reports every statement there
  cee_sqlite3_insert_json_array(&d.cs, (char *)"t", j);
  stderr = keep;
  d.closed("insert_json_array");
  d.table("t", cols, model, "insert_json_array");
  expect(c, arr, j, "input-changed", "the input");
  d.end();
}

PROPERTY("C38", "files", 1, "a database file made by init_db, with pragma values read, a second one attached, used through the binding and detached, and all tables dropped; non-trivial: rows in the attached database") {
  static char main_db[64], other_db[64];
  snprintf(main_db, sizeof main_db, "main%d.db", (int)getpid());
  snprintf(other_db, sizeof other_db, "other%d.db", (int)getpid());
  unlink(main_db);
  unlink(other_db);
  bool tx = c.coin();
  unsigned n = (unsigned)c.draw(4);
  std::string make = "create table t(a int, b text);";
  for (unsigned i = 0; i < n; i++) make += "insert into t values(" + std::to_string(i) + ",'r" + std::to_string(i) + "');";
  if (c.coin()) cee_sqlite3_init_db(nullptr, other_db, (char *)make.c_str(), tx);
  else {
    sqlite3 *o = nullptr;
    cee_sqlite3_init_db(&o, other_db, (char *)make.c_str(), tx);
    CHECK(c, o, "init_db", "init_db gives no database");
    sqlite3 *same = o;
    if (c.coin()) {
      cee_sqlite3_init_db(&o, other_db, (char *)"create table more(x)", !tx);
      CHECK(c, o == same, "init_db", "init_db opens a database that is open");
    }
    CHECK(c, sqlite3_get_autocommit(o), "init_db", "init_db leaves a transaction open");
    sqlite3_close(o);
  }
  Db d(c, main_db);
  int64_t version = c.pick<int64_t>({0, 1, 77, INT_MAX, INT_MIN, -1});
  d.exec("create table t(a int, b text); pragma user_version=" + std::to_string(version));
  int got = cee_sqlite3_get_pragma_variable(d.db, (char *)"user_version");
  CHECK(c, got == (int)version, "pragma", "user_version is %d instead of %lld", got, (long long)version);
  d.closed("get_pragma_variable");
  char buf[1024], *err = nullptr;
  unsigned rounds = 1 + (unsigned)c.draw(1);
  for (unsigned r = 0; r < rounds; r++) {
    int rc = cee_sqlite3_attach_db(&d.cs, other_db, (char *)"side", buf, sizeof buf, &err);
    CHECK(c, rc == SQLITE_OK, "attach", "attaching fails with %d: %s", rc, err ? err : "");
    std::string far = "p" + std::string(c.pick<size_t>({1, 10, 20, 30, 40, 49}), 'q');  // a variable of a database with a longer name
    d.exec("attach ':memory:' as " + far + "; pragma " + far + ".user_version=" + std::to_string(r + 12));
    got = cee_sqlite3_get_pragma_variable(d.db, (char *)(far + ".user_version").c_str());
    CHECK(c, got == (int)r + 12, "pragma", "%s.user_version is %d instead of %u", far.c_str(), got, r + 12);
    d.exec("detach " + far);
    struct cee_json *j = nullptr;
    rc = cee_sqlite3_select(&d.cs, nullptr, nullptr, (char *)"select a,b from side.t order by rowid", &j);
    V want = v_arr();
    for (unsigned i = 0; i < n; i++) {
      V o = v_obj();
      o.set("a", v_i64(i));
      o.set("b", v_str("r" + std::to_string(i)));
      want.a.push_back(o);
    }
    expect(c, want, j, "attached", "the attached table");
    j = nullptr;
    rc = cee_sqlite3_detach_db(&d.cs, (char *)"side", buf, sizeof buf, &err);
    CHECK(c, rc == SQLITE_OK, "detach", "detaching fails with %d: %s", rc, err ? err : "");
    rc = cee_sqlite3_select(&d.cs, nullptr, nullptr, (char *)"select a,b from side.t", &j);
    CHECK(c, rc != SQLITE_DONE && has_error(j), "detach", "the detached database is still there");
  }
  if (n) c.nontrivial();
  char tiny[24];
  int rc = cee_sqlite3_attach_db(&d.cs, other_db, (char *)"side", tiny, 8, &err);
  CHECK(c, rc != SQLITE_OK, "attach-short", "a cut statement attaches");
  sqlite3_free(err);
  d.end();
  sqlite3 *o = nullptr;
  cee_sqlite3_drop_all_tables(&o, main_db);
  sqlite3_close(o);
  sqlite3_open(main_db, &o);
  sqlite3_stmt *s = nullptr;
  sqlite3_prepare_v2(o, "select count(*) from sqlite_master", -1, &s, nullptr);
  int tables = sqlite3_step(s) == SQLITE_ROW ? sqlite3_column_int(s, 0) : -1;
  sqlite3_finalize(s);
  sqlite3_close(o);
  CHECK(c, tables == 0, "drop-all", "%d tables are left", tables);
  unlink(main_db);
  unlink(other_db);
}

// ---------------------------------------------------------------- C39
PROPERTY("C39", "init_db", 6,
         "a database file with some content, and init_db with a script of up to 10 statements of which any may fail, with or without a transaction, by file name or with an open connection, "
         "also on a locked file, a file that is no database or inside a transaction; run in a process of its own and judged by the file; non-trivial: a failing statement after one that changed something") {
  Scratch fs;
  const char *f = fs.make("init");
  std::vector<std::string> old, now;
  for (unsigned n = (unsigned)c.draw(6); n; n--) old.push_back(sql_statement(c));
  for (unsigned n = (unsigned)c.draw(10); n; n--) now.push_back(sql_statement(c));
  int how = c.weighted({3, 3, 3});                     // no connection wanted, wanted, given
  int odd = c.weighted({12, 1, 1, how == 2 ? 1u : 0u});  // plain, locked, no database, in a transaction
  bool tx = c.chance(2, 3), none = c.chance(1, 15), foreign = how == 2 && c.chance(1, 4);
  sqlite3 *ref = nullptr, *db = nullptr;
  sqlite3_open(":memory:", &ref);
  sqlite3_open(f, &db);
  run_quietly(db, FAST);
  for (auto &q : old) { int a = run_quietly(ref, q), b = run_quietly(db, q); if ((a == SQLITE_OK) != (b == SQLITE_OK)) abort(); }
  const char *fk = "create table p(id integer primary key); create table k(p int references p(id) deferrable initially deferred)";
  if (foreign) { run_quietly(ref, fk); run_quietly(db, fk); run_quietly(ref, "pragma foreign_keys=on"); if (c.coin()) now.insert(now.begin() + c.index(now.size() + 1), "insert into k values(5)"); if (c.coin()) now.push_back("insert into p values(5)"); }
  sqlite3_close(db);
  db = nullptr;
  std::string before = dump(ref), script, bytes = "this is not a database, and must not become one: it is somebody's text file, longer than a database header is.\n";
  for (auto &q : now) script += q + c.pick<const char *>({";", ";\n", " ; "});
  c.note("content %s; %s%s; script %s", before.c_str(), how == 0 ? "no connection" : how == 1 ? "wants one" : "has one", odd == 1 ? ", locked" : odd == 2 ? ", not a database" : odd == 3 ? ", in a transaction" : "", script.c_str());
  bool fails = false, changed = false;
  std::string want = before;
  if (!none) {
    if (tx) run_quietly(ref, "begin");
    for (auto &q : now) {
      if (run_quietly(ref, q) != SQLITE_OK) { fails = true; break; }
      if (sqlite3_total_changes(ref) || q.compare(0, 6, "create") == 0) changed = true;
    }
    if (tx && !fails && run_quietly(ref, "commit") != SQLITE_OK) fails = true;
    if (tx && fails) run_quietly(ref, "rollback");
    want = dump(ref);
    if (tx && fails && want != before) abort();
  }
  sqlite3_close(ref);
  sqlite3 *lock = nullptr;
  bool writes = false;
  if (odd == 1) { sqlite3_open(f, &lock); run_quietly(lock, "begin exclusive"); }
  if (odd == 2) { FILE *o = fopen(f, "w"); fputs(bytes.c_str(), o); fclose(o); }
  int code = perhaps_apart((odd == 0 && fails) || odd != 0, [&]() -> int {
    sqlite3 *x = nullptr;
    if (how == 2) { sqlite3_open(f, &x); run_quietly(x, FAST); if (foreign) run_quietly(x, "pragma foreign_keys=on"); if (odd == 3) run_quietly(x, "begin"); }
    sqlite3 *given = x;
    sqlite3_int64 used = sqlite3_memory_used();
    cee_sqlite3_init_db(how ? &x : nullptr, (char *)f, none ? nullptr : (char *)script.c_str(), tx);
    if (!how && odd == 0 && sqlite3_memory_used() != used) return 47;
    if (how && !x) return 41;
    if (how == 2 && x != given) return 42;
    if (how && odd == 0 && !sqlite3_get_autocommit(x)) return 43;
    if (how && sqlite3_next_stmt(x, nullptr)) return 44;
    if (how && odd == 0 && dump(x) != want) { c.note("connection shows %s instead of %s", dump(x).c_str(), want.c_str()); return 45; }
    if (how && sqlite3_close(x) != SQLITE_OK) return 46;
    return 0;
  });
  if (lock) sqlite3_close(lock);
  static const char *WHY[] = {"gives no connection", "gives another connection than the one it was given", "leaves a transaction open", "leaves a statement open", "gives a connection that shows something else", "gives a connection that cannot be closed", "keeps a connection that nobody asked for"};
  CHECK(c, code == 0 || code == 99 || (code > 40 && code < 48), "init-end", "init_db ended with %d", code);
  CHECK(c, code == 0 || code == 99, "init-result", "init_db %s", WHY[code > 40 && code < 48 ? code - 41 : 0]);
  if (odd == 2) {
    FILE *i = fopen(f, "r");
    char b[400] = "";
    size_t n = i ? fread(b, 1, sizeof b, i) : 0;
    if (i) fclose(i);
    CHECK(c, std::string(b, n) == bytes, "init-foreign", "a file that is no database was changed");
    return;
  }
  std::string got = dump_file(f);
  if (odd == 0) {
    CHECK(c, (code == 99) == fails, "init-stop", "the script %s and init_db %s", fails ? "fails" : "succeeds", code ? "stops the process" : "returns");
    CHECK(c, got == want, tx && fails ? "init-part" : "init-content", "the file holds\n%s\ninstead of\n%s", got.c_str(), want.c_str());
  } else if (odd == 1) CHECK(c, got == before, "init-locked", "a locked file was changed");
  else if (tx && !none) { CHECK(c, code == 99, "init-nested", "a transaction inside a transaction was begun"); CHECK(c, got == before, "init-nested", "an unfinished transaction took effect"); }
  (void)writes;
  if (fails && changed) c.nontrivial();
  c.label(odd ? "odd" : fails ? tx ? "failing, transaction" : "failing" : "succeeding");
}
PROPERTY("C39", "unopened", 2, "init_db and drop_all_tables on names that cannot be opened: no connection is given, nothing is created and no memory is kept; every case is non-trivial") {
  const char *name = c.pick<const char *>({"absent-directory/x.db", ".", "/proc/self/absent/x", ""});
  if (!*name) name = "absent-directory/y/z.db";
  sqlite3_initialize();
  sqlite3 *warm = nullptr;
  sqlite3_open(":memory:", &warm);
  run_quietly(warm, "select 1");
  sqlite3_int64 used = sqlite3_memory_used();
  sqlite3 *x = nullptr;
  int how = (int)c.draw(2);
  c.note("%s, way %d", name, how);
  if (how == 0) cee_sqlite3_init_db(&x, (char *)name, (char *)"create table t(a)", c.coin());
  else if (how == 1) cee_sqlite3_init_db(nullptr, (char *)name, (char *)"create table t(a)", c.coin());
  else cee_sqlite3_drop_all_tables(&x, (char *)name);
  CHECK(c, !x, "unopened", "a connection is given for %s", name);
  CHECK(c, sqlite3_memory_used() == used, "unopened-kept", "%lld bytes are kept", (long long)(sqlite3_memory_used() - used));
  sqlite3_close(warm);
  c.nontrivial();
}
PROPERTY("C39", "drop_all", 8,
         "a file with tables, indexes and triggers; all tables are dropped by file name or through an open connection that has used them: none is left, neither in the connection nor in the file, "
         "and tables of the same names and other columns can be made and used through the binding at once; non-trivial: at least two objects") {
  Scratch fs;
  const char *f = fs.make("drop");
  sqlite3 *db = nullptr;
  sqlite3_open(f, &db);
  run_quietly(db, FAST);
  unsigned n = 0;
  bool trig = false;
  for (unsigned k = (unsigned)c.draw(8); k; k--) {
    std::string q = sql_statement(c);
    if (q.find("view") != std::string::npos) continue;
    if (run_quietly(db, q) == SQLITE_OK && q.compare(0, 6, "create") == 0) n++;
    trig = trig || q.find("trigger") != std::string::npos;
  }
  if (c.coin()) { run_quietly(db, "create table s(id integer primary key autoincrement, x unique)"); run_quietly(db, "insert into s(x) values(1),(2)"); n++; }
  std::string before = dump(db);
  c.note("%s", before.c_str());
  int how = (int)c.draw(2);
  if (how < 2) {
    sqlite3_close(db);
    db = nullptr;
    cee_sqlite3_drop_all_tables(how ? &db : nullptr, (char *)f);
    if (!how) sqlite3_open(f, &db);
  } else {
    sqlite3 *was = db;
    cee_sqlite3_drop_all_tables(&db, (char *)f);
    CHECK(c, db == was, "drop-connection", "another connection is given");
  }
  CHECK(c, db && sqlite3_get_autocommit(db) && !sqlite3_next_stmt(db, nullptr), "drop-connection", "the connection is in a transaction or has an open statement");
  std::string in = dump(db), out = dump_file(f);
  CHECK(c, in == "" && out == "", "drop-left", "left in the connection: %s in the file: %s", in.c_str(), out.c_str());
  for (const char *t : {"t0", "t1", "t2", "s"}) {
    sqlite3_stmt *s = nullptr;
    int rc = sqlite3_prepare_v2(db, (std::string("select * from ") + t).c_str(), -1, &s, nullptr);
    sqlite3_finalize(s);
    CHECK(c, rc != SQLITE_OK, "drop-used", "%s can still be selected from (way %d)", t, how);
  }
  struct cee_state *st = cee_state_mk(10);
  cee_sqlite3 cs;
  memset(&cs, 0, sizeof cs);
  cee_sqlite3_init(&cs, (char *)"db", (char *)f, st, db);
  std::string t = c.pick<const char *>({"t0", "t1", "s"});
  cee_sqlite3 *p = &cs;
  CHECK(c, run_quietly(db, "create table " + t + "(n int, m text, o)") == SQLITE_OK, "drop-again", "%s cannot be made again: %s", t.c_str(), sqlite3_errmsg(db));
  struct cee_json *j = nullptr;
  std::string ins = "insert into " + t + " values(1,'one',null)", sel = "select n,m from " + t;
  CHECK(c, run_quietly(db, ins) == SQLITE_OK, "drop-again", "the new table cannot be used: %s", sqlite3_errmsg(db));
  cee_sqlite3_select(p, nullptr, nullptr, (char *)sel.c_str(), &j);
  V row = v_obj(), all = v_arr();
  row.set("n", v_i64(1));
  row.set("m", v_str("one"));
  all.a.push_back(row);
  expect(c, all, j, "drop-again", "the new table");
  cee_del(st);
  CHECK(c, sqlite3_close(db) == SQLITE_OK, "drop-connection", "the connection cannot be closed");
  if (n >= 2) c.nontrivial();
  c.label(how == 0 ? "no connection" : how == 1 ? "new connection" : "open connection");
}
PROPERTY("C39", "crash", 5,
         "batches of insert, update, update_or_insert, select1_or_insert and delete operations on a file, each between begin and end or rollback, in a process that dies at a random point (some operations "
         "failing before): the file holds exactly the batches that had ended; meanwhile another connection sees nothing of an open batch; non-trivial: it dies inside a batch after one that ended") {
  Scratch fs;
  const char *f = fs.make("crash");
  struct Op { int kind; int key, val; };
  std::vector<Op> ops;
  for (unsigned b = 1 + (unsigned)c.draw(3); b; b--) {
    ops.push_back({10, 0, 0});
    for (unsigned n = (unsigned)c.draw(5); n; n--) ops.push_back({(int)c.draw(4), (int)c.draw(4), (int)c.draw(9)});
    ops.push_back({c.chance(1, 4) ? 12 : 11, 0, 0});
  }
  size_t die = c.draw(ops.size());
  bool look = c.coin();
  std::map<int, int> m, saved;
  bool in = false;
  unsigned ended = 0;
  std::string note;
  std::vector<std::map<int, int>> visible;  // after each operation
  for (size_t i = 0; i < die; i++) {
    const Op &o = ops[i];
    bool refuse = o.val == 7;  // by the table's check
    static const char *KN[] = {"insert", "update", "update_or_insert", "select1_or_insert", "delete"};
    note += " " + (o.kind < 5 ? std::string(KN[o.kind]) + std::to_string(o.key) + "=" + std::to_string(o.val) : o.kind == 10 ? "begin" : o.kind == 11 ? "end" : "rollback");
    switch (o.kind) {
      case 0: if (!refuse && !m.count(o.key)) m[o.key] = o.val; break;
      case 1: if (!refuse && m.count(o.key)) m[o.key] = o.val; break;
      case 2: if (!refuse) m[o.key] = o.val; break;
      case 3: if (!refuse && !m.count(o.key)) m[o.key] = o.val; break;
      case 4: m.erase(o.key); break;
      case 10: saved = m; in = true; break;
      case 11: in = false; saved = m; ended++; break;
      default: in = false; m = saved; break;
    }
    visible.push_back(in ? saved : m);
  }
  c.note("%s, then dies", note.c_str());
  auto text = [](const std::map<int, int> &m) { std::string s; for (auto &e : m) s += std::to_string(e.first) + "=" + std::to_string(e.second) + " "; return s; };
  auto content = [&](sqlite3 *db) {
    std::string s;
    sqlite3_stmt *q = nullptr;
    if (sqlite3_prepare_v2(db, "select k,v from t order by k", -1, &q, nullptr) != SQLITE_OK) return std::string(sqlite3_errmsg(db));
    while (sqlite3_step(q) == SQLITE_ROW) s += std::to_string(sqlite3_column_int(q, 0)) + "=" + std::to_string(sqlite3_column_int(q, 1)) + " ";
    sqlite3_finalize(q);
    return s;
  };
  int code = apart([&]() -> int {
    sqlite3 *db = nullptr, *eye = nullptr;
    cee_sqlite3_init_db(&db, (char *)f, (char *)"pragma synchronous=off; create table t(k int unique, v int, check(v is not 7))", false);
    struct cee_state *st = cee_state_mk(10);
    cee_sqlite3 cs;
    memset(&cs, 0, sizeof cs);
    cee_sqlite3_init(&cs, (char *)"db", (char *)f, st, db);
    Cols cols(2);
    cols[0].name = "k"; cols[0].var = "@k"; cols[0].no_update = true;
    cols[1].name = "v"; cols[1].var = "@v";
    Desc ds(cols);
    cee_sqlite3_stmt_strs ss;
    memset(&ss, 0, sizeof ss);
    ss.table_name = (char *)"t";
    ss.select_stmt = (char *)"select k,v from t where k=@k";
    ss.insert_stmt = (char *)"insert into t(k,v) values(@k,@v)";
    ss.update_stmt = (char *)"update t set v=@v where k=@k";
    ss.delete_stmt = (char *)"delete from t where k=@k";
    cee_sqlite3_db_op op = {&ss, ds.info.data(), ds.data.data()};
    if (look) sqlite3_open(f, &eye);
    for (size_t i = 0; i < die; i++) {
      const Op &o = ops[i];
      ds.fresh();
      op.data = ds.data.data();
      struct cee_json *j = cee_json_object_mk(st), *status = nullptr;
      cee_json_object_set_i64(j, (char *)"k", o.key);
      cee_json_object_set_i64(j, (char *)"v", o.val);
      switch (o.kind) {
        case 0: cee_sqlite3_insert_op(&cs, &op, j, &status); break;
        case 1: cee_sqlite3_update_op(&cs, &op, j, &status); break;
        case 2: cee_sqlite3_update_or_insert_op(&cs, &op, j, &status); break;
        case 3: cee_sqlite3_generic_opcode(&cs, j, op.info, op.data, &ss, &status, cee_sqlite3_select1_or_insert); break;
        case 4:
          cee_sqlite3_generic_opcode(&cs, j, op.info, op.data, &ss, &status, [](struct cee_sqlite3 *cs, struct cee_sqlite3_bind_info *i, struct cee_sqlite3_bind_data *dt, struct cee_sqlite3_stmt_strs *st,
                                                                               struct cee_json **r) { return cee_sqlite3_delete(cs, i, dt, st->delete_stmt, r, nullptr); });
          break;
        case 10: if (cee_sqlite3_begin_transaction(db) != SQLITE_OK) return 51; break;
        case 11: if (cee_sqlite3_end_transaction(db) != SQLITE_OK) return 52; break;
        default: if (run_quietly(db, "rollback") != SQLITE_OK) return 53;
      }
      if (eye && content(eye) != text(visible[i])) return 54;
    }
    return 98;
  });
  static const char *WHY[] = {"a transaction cannot be begun", "a transaction cannot be ended", "a transaction cannot be rolled back", "another connection sees other contents"};
  CHECK(c, code == 98, "crash-run", "%s (%d)", code > 50 && code < 55 ? WHY[code - 51] : "the process ended early", code);
  sqlite3 *db = nullptr;
  sqlite3_open(f, &db);
  std::string got = content(db), want = text(in ? saved : m);
  sqlite3_close(db);
  CHECK(c, got == want, "crash-content", "the file holds %s instead of %s", got.c_str(), want.c_str());
  if (in && ended && m != saved) c.nontrivial();
}
}  // namespace
