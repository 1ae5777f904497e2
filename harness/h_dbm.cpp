// C40: the database manager (sqlite3/cee_dbm.c), on a scratch directory of the check's own.
#include "sqlfile.hpp"
extern "C" {
#include "cee_dbm.h"
}
#include <algorithm>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/stat.h>
namespace {
// what a child process reports
struct Report {
  bool is_new, answer, called;
  int version, commands, fds, blocks;
  char command[600];
  char text[900];
} *rep;
int command_result;
std::string slurp(const std::string &f, bool *ok = nullptr) {
  FILE *i = fopen(f.c_str(), "rb");
  if (ok) *ok = i;
  if (!i) return "";
  std::string s;
  char b[4096];
  for (size_t n; (n = fread(b, 1, sizeof b, i)) > 0;) s.append(b, n);
  fclose(i);
  return s;
}
void spit(const std::string &f, const std::string &s) {
  FILE *o = fopen(f.c_str(), "wb");
  if (!o) abort();
  fwrite(s.data(), 1, s.size(), o);
  fclose(o);
}
}  // namespace
extern "C" {
// a function of another repository that the manager loads its scripts with
char *cee_load_whole_file(const char *name, size_t *len) {
  bool ok;
  std::string s = slurp(name, &ok);
  if (!ok) { fprintf(stderr, "cannot load %s\n", name); abort(); }
  char *p = (char *)malloc(s.size() + 1);
  memcpy(p, s.c_str(), s.size() + 1);
  if (len) *len = s.size();
  return p;
}
// stands in for system(): records the command, runs nothing
int __wrap_system(const char *cmd) {
  rep->commands++;
  snprintf(rep->command, sizeof rep->command, "%s", cmd ? cmd : "(null)");
  return command_result;
}
}
namespace {
int open_files() {
  int n = 0;
  if (DIR *d = opendir("/proc/self/fd")) {
    while (readdir(d)) n++;
    closedir(d);
  }
  return n;
}
std::vector<std::string> listing(const std::string &dir) {
  std::vector<std::string> r;
  if (DIR *d = opendir(dir.c_str())) {
    while (struct dirent *e = readdir(d)) {
      std::string n = e->d_name;
      if (n != "." && n != "..") r.push_back(n);
    }
    closedir(d);
  }
  std::sort(r.begin(), r.end());
  return r;
}
// a directory of this process, gone at the end
struct Place {
  std::string root;
  static void clear(const std::string &d) {
    for (auto &n : listing(d)) {
      struct stat st;
      std::string f = d + "/" + n;
      if (lstat(f.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) clear(f);
      else unlink(f.c_str());
    }
    rmdir(d.c_str());
  }
  Place() {
    if (!rep) rep = (Report *)mmap(nullptr, sizeof *rep, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    root = "dbm" + std::to_string((int)getpid());
    clear(root);
    mkdir(root.c_str(), 0700);
    // files of the same names where the process is: none of the manager's business
    for (const char *n : {"other.db", "usr.db", "one.db", "two.db", "given.db"}) if (access(n, F_OK)) spit(n, "");
  }
  ~Place() { clear(root); }
  std::string operator()(const std::string &n) const { return root + "/" + n; }
  std::string dir(const std::string &n) const { std::string d = root + "/" + n; mkdir(d.c_str(), 0700); return d; }
};
template <size_t N> void put(char (&to)[N], const std::string &s) {
  if (s.size() >= N) abort();
  memset(to, '~', N);
  memcpy(to, s.c_str(), s.size() + 1);
}
int user_version(const std::string &f) {
  sqlite3 *db = nullptr;
  int v = -1;
  if (sqlite3_open_v2(f.c_str(), &db, SQLITE_OPEN_READWRITE, nullptr) == SQLITE_OK) {
    sqlite3_stmt *s = nullptr;
    if (sqlite3_prepare_v2(db, "pragma user_version", -1, &s, nullptr) == SQLITE_OK && sqlite3_step(s) == SQLITE_ROW) v = sqlite3_column_int(s, 0);
    sqlite3_finalize(s);
  }
  sqlite3_close(db);
  return v;
}
// runs a script without the library; false if a statement failed (those before it have taken effect)
bool run_on(const std::string &f, const std::string &script) {
  sqlite3 *db = nullptr;
  if (sqlite3_open(f.c_str(), &db) != SQLITE_OK) abort();
  run_quietly(db, FAST);
  int rc = sqlite3_exec(db, script.c_str(), nullptr, nullptr, nullptr);
  sqlite3_close(db);
  return rc == SQLITE_OK;
}
// drops all tables, with their indexes and triggers, the ordinary way
void drop_all(const std::string &f) {
  for (bool again = true; again;) {
    again = false;
    sqlite3 *db = nullptr;
    if (sqlite3_open(f.c_str(), &db) != SQLITE_OK) abort();
    run_quietly(db, FAST);
    std::vector<std::string> t;
    sqlite3_stmt *s = nullptr;
    sqlite3_prepare_v2(db, "select name from sqlite_master where type='table' and name not like 'sqlite%'", -1, &s, nullptr);
    while (sqlite3_step(s) == SQLITE_ROW) t.push_back((const char *)sqlite3_column_text(s, 0));
    sqlite3_finalize(s);
    for (auto &n : t) run_quietly(db, "drop table " + n);
    sqlite3_close(db);
  }
}
struct Entry { std::string kind, action, info; };
std::vector<Entry> log_of(const std::string &f) {
  std::vector<Entry> r;
  sqlite3 *db = nullptr;
  sqlite3_stmt *s = nullptr;
  if (sqlite3_open_v2(f.c_str(), &db, SQLITE_OPEN_READONLY, nullptr) == SQLITE_OK && sqlite3_prepare_v2(db, "select kind,action,info from log order by rowid", -1, &s, nullptr) == SQLITE_OK)
    while (sqlite3_step(s) == SQLITE_ROW) r.push_back({(const char *)sqlite3_column_text(s, 0), (const char *)sqlite3_column_text(s, 1), (const char *)sqlite3_column_text(s, 2)});
  sqlite3_finalize(s);
  sqlite3_close(db);
  return r;
}
std::string text_of(const std::vector<Entry> &l) {
  std::string s;
  for (auto &e : l) s += e.kind + ":" + e.action + " ";
  return s;
}
std::string script(Case &c, unsigned most, int version) {
  std::vector<std::string> v;
  bool wild = c.chance(1, 4);  // any statement, which may fail
  for (unsigned n = (unsigned)c.draw(most); n; n--)
    v.push_back(wild ? sql_statement(c)
                     : c.pick<const char *>({"insert into t0(b) values('x')", "update t0 set b=b||'u'", "delete from t0 where a%2=0", "insert or replace into t0 values(3,'y')", "create table if not exists t1(a integer primary key, b text)",
                                             "create index if not exists i0 on t0(b)"}));
  if (version >= 0) v.insert(v.begin() + c.index(v.size() + 1), "pragma user_version=" + std::to_string(version));
  std::string s;
  for (auto &q : v) s += q + c.pick<const char *>({";\n", ";", " ; "});
  return s;
}
std::string good_create(Case &c, int version) {
  std::string s = c.coin() ? "create table t0(a integer primary key, b text);" : "create table t0(a integer primary key, b text);\ncreate table t1(a integer primary key, b text);\n";
  return s + "pragma user_version=" + std::to_string(version) + ";\n";
}
// where the manager finds things; p holds them all
struct Setup {
  cee_dbm_path_info paths;
  std::string schema, data, db, ref;
  Setup(Case &c, Place &p, bool far = false) {
    memset(&paths, '~', sizeof paths);
    schema = p.dir("s");
    data = c.chance(1, 4) ? schema : p.dir("d");
    db = p.root + c.pick<const char *>({"/b", "/b", "/b/c", "/b/c/long-directory-name/e", "/s"});
    if (far && c.chance(1, 3)) db += "/" + std::string((size_t)c.range(55, 115) - db.size(), 'f');
    ref = p.dir("r");
    put(paths.schema_script_path, schema);
    put(paths.data_script_path, data);
    put(paths.db_file_path, db);
    root = p.root;
  }
  std::string root;
  void make_db() { for (size_t i = root.size(); (i = db.find('/', i + 1)) != std::string::npos;) mkdir(db.substr(0, i).c_str(), 0700); mkdir(db.c_str(), 0700); }
};

PROPERTY("C40", "init", 6,
         "a history of up to 6 initialisations of up to two kinds of database (missing or there, recreated or not, restored and customised or not, with or without a file name and a data prefix, scripts there or missing, "
         "changing versions, or failing) with changes to the files and scripts in between, those that must stop in a process of their own; the files are compared with ones that the same scripts were run on without the library; "
         "non-trivial: an initialisation of a database that was there, after which a migration ran, or a restored one") {
  Place p;
  Setup su(c, p);
  if (c.coin()) su.make_db();
  static const char *KINDS[] = {"usr", "a_kind_of_15chr", "it's"};
  std::vector<Entry> log;
  std::map<std::string, bool> there;  // names of databases that exist
  auto write_script = [&](const std::string &f, const std::string &s) { spit(f, s); c.note("%s: %s", f.c_str(), s.c_str()); };
  bool dead = false, rich = false;
  unsigned rounds = 1 + (unsigned)c.draw(5);
  for (unsigned round = 0; round < rounds; round++) {
    std::string kind = KINDS[c.weighted({3, 1, 1})], prefix = c.chance(1, 3) ? "extra" : "";
    cee_dbm_db_info in;
    memset(&in, 0, sizeof in);
    put(in.kind, kind);
    std::string own = kind[0] == 'u' && c.coin() ? "main-file.db" : kind + ".db";
    put(in.file, own);
    std::string given = c.weighted({2, 1, 1}) == 0 ? "" : c.pick<const char *>({"other.db", "sub/inner.db", "other.db", ".hidden.db", "sub/deeper/and/deeper/x"});
    std::string name = given.empty() ? own : given;
    std::string flat = name;
    for (auto &x : flat) if (x == '/') x = '_';
    std::string file = su.db + "/" + name, ref = su.ref + "/" + flat;
    in.recreate_db = c.chance(1, 3);
    in.restore_db = c.chance(2, 3);
    in.customize_db = c.coin();
    in.create_version = (int)c.draw(2);
    in.final_version = (int)c.draw(9);
    // scripts: made, changed, removed
    std::string create = su.schema + "/" + kind + "_create." + std::to_string(in.create_version) + ".sql";
    if (access(create.c_str(), F_OK) || c.chance(1, 4)) write_script(create, c.chance(3, 4) ? good_create(c, c.chance(3, 4) ? in.create_version : (int)c.draw(3)) : script(c, 5, in.create_version));
    for (int v = 0; v <= 3; v++) {
      std::string e = "." + std::to_string(v) + ".sql";
      auto some = [&](const std::string &f, unsigned one_in, unsigned most, int version) {
        if (c.chance(1, one_in)) write_script(f, script(c, most, version));
        else if (c.chance(1, 8)) unlink(f.c_str());
      };
      some(su.schema + "/" + kind + "_migrate" + e, 3, 3, c.chance(3, 4) ? v + 1 : c.chance(1, 3) ? (int)c.draw(3) : -1);
      some(su.data + "/" + kind + "_insert" + e, 3, 4, c.chance(1, 6) ? 3 : -1);
      some(su.data + "/extra_insert" + e, 4, 4, -1);
      some(su.data + "/" + kind + "_customize" + e, 3, 3, c.chance(1, 6) ? 2 : -1);
    }
    bool had = there.count(name) && there[name];
    if (had && c.chance(1, 3)) {  // somebody uses it
      std::string q = sql_statement(c);
      run_on(ref, q);
      run_on(file, q);
    }
    // ---- the model
    std::vector<Entry> steps;
    bool fails = false, is_new = false;
    auto step = [&](const char *action, const std::string &info) { steps.push_back({kind, action, info}); };
    auto run_script = [&](const std::string &f) {
      step("apply", "");
      fails = !run_on(ref, slurp(f));
    };
    auto exists = [](const std::string &f) { return access(f.c_str(), F_OK) == 0; };
    step("open", file);
    int version = 0;
    if (had ? in.recreate_db : true) {
      is_new = true;
      step(had ? "recreate" : "create", "");
      if (had) drop_all(ref);
      run_script(create);
    }
    bool migrated = false;
    if (!fails) {
      int before = user_version(ref);
      std::string e = "." + std::to_string(before) + ".sql";
      step("open", "user_version " + std::to_string(before));
      if (is_new && in.restore_db) {
        step("restore", "");
        std::string f = su.data + "/" + (prefix.empty() ? kind : prefix) + "_insert" + e;
        if (exists(f)) { run_script(f); if (before) rich = true; }
        if (!fails && in.customize_db) {
          step("restore", "");
          f = su.data + "/" + kind + "_customize" + e;
          if (exists(f)) run_script(f);
        }
      }
      if (!fails) {
        std::string f = su.schema + "/" + kind + "_migrate" + e;
        if (exists(f)) {
          run_script(f);
          if (!fails && user_version(ref) != before) { step("migrate", ""); migrated = true; }
        } else step("migrate", "");
      }
      if (!fails) version = user_version(ref);
    }
    if (had && !is_new && migrated) rich = true;
    // ---- the library
    c.note("round %u: %s %s%s%s%s%s", round, kind.c_str(), given.c_str(), in.recreate_db ? " recreate" : "", in.restore_db ? " restore" : "", in.customize_db ? " customize" : "", prefix.empty() ? "" : " extra");
    memset(rep, 0, sizeof *rep);
    command_result = 0;
    mode_t mask = c.pick<mode_t>({022, 022, 0, 027, 077, 002});
    std::vector<std::string> missing;  // directories it has to make
    for (size_t i = p.root.size(); (i = file.find('/', i + 1)) != std::string::npos;) if (access(file.substr(0, i).c_str(), F_OK)) missing.push_back(file.substr(0, i));
    cee_dbm_db_info kept = in;
    cee_dbm_path_info kept_paths = su.paths;
    int code = perhaps_apart(fails, [&]() -> int {
      int v = -77, fds = open_files();
      size_t blocks = pbt::mem::live();
      mode_t old_mask = umask(mask);
      if (cee_dbm_db_exist(&su.paths, name.c_str()) != had) return 40;
      rep->is_new = cee_dbm_db_init(&su.paths, &in, given.empty() ? nullptr : given.c_str(), prefix.empty() ? nullptr : prefix.c_str(), &v);
      umask(old_mask);
      rep->version = v;
      rep->fds = open_files() - fds;
      rep->blocks = (int)(pbt::mem::live() - blocks);
      if (!cee_dbm_db_exist(&su.paths, name.c_str())) return 41;
      return memcmp(&in, &kept, sizeof in) || memcmp(&su.paths, &kept_paths, sizeof kept_paths) ? 42 : 0;
    });
    CHECK(c, code == 0 || code == 99 || (code >= 40 && code <= 42), "init-end", "db_init ended with %d", code);
    static const char *WHY[] = {"db_exist is wrong before", "db_exist is wrong afterwards", "db_init changes its settings"};
    CHECK(c, code < 40 || code > 42, "init-result", "%s", WHY[code - 40]);
    CHECK(c, (code == 99) == fails, "init-stop", "the scripts %s and db_init %s", fails ? "fail" : "succeed", code ? "stops the process" : "returns");
    std::string got = dump_file(file.c_str()), want = dump_file(ref.c_str());
    CHECK(c, got == want, fails ? "init-part" : "init-content", "the file holds\n%s\ninstead of\n%s", got.c_str(), want.c_str());
    CHECK(c, user_version(file) == user_version(ref), "init-version", "the file has version %d instead of %d", user_version(file), user_version(ref));
    if (!fails) {
      CHECK(c, rep->is_new == is_new, "init-new", "the database is %s and said to be %s", is_new ? "new" : "old", rep->is_new ? "new" : "old");
      CHECK(c, rep->version == version, "init-reported", "version %d is reported instead of %d", rep->version, version);
      CHECK(c, rep->fds == 0, "init-open", "%d files are left open", rep->fds);
      CHECK(c, rep->blocks <= 0, "init-kept", "%d blocks of memory are kept", rep->blocks);
    }
    for (auto &d : missing) {
      struct stat sb;
      CHECK(c, stat(d.c_str(), &sb) == 0 && S_ISDIR(sb.st_mode), "init-directory", "there is no directory %s", d.c_str());
      CHECK(c, (sb.st_mode & 07777) == (0755 & ~mask), "init-directory", "the directory %s was made with permissions %o under the mask %o", d.c_str(), sb.st_mode & 07777, mask);
    }
    CHECK(c, rep->commands == 0, "init-command", "a command is run: %s", rep->command);
    there[name] = true;
    // ---- the log
    size_t old = log.size();
    log.insert(log.end(), steps.begin(), steps.end());
    std::vector<Entry> written = log_of(su.db + "/cee_dbm_log.db");
    CHECK(c, text_of(written) == text_of(log), "log", "the log has %s instead of %s", text_of(written).c_str(), text_of(log).c_str());
    for (size_t i = old; i < log.size(); i++)
      CHECK(c, log[i].info.empty() || log[i].info == written[i].info, "log-info", "the log entry says \"%s\" instead of \"%s\"", written[i].info.c_str(), log[i].info.c_str());
    // ---- nothing else is in the directory
    if (su.db != su.schema) {
      std::vector<std::string> want_names = {"cee_dbm_log.db"};
      bool sub = false;
      for (auto &t : there) { if (t.first.find('/') == std::string::npos) want_names.push_back(t.first); else sub = true; }
      if (sub) want_names.push_back("sub");
      std::sort(want_names.begin(), want_names.end());
      std::vector<std::string> have = listing(su.db);
      have.erase(std::remove_if(have.begin(), have.end(), [](const std::string &n) { return n.find("-journal") != std::string::npos; }), have.end());
      CHECK(c, have == want_names, "files", "%zu files are in the directory instead of %zu", have.size(), want_names.size());
    }
    if (fails) dead = true;
  }
  if (rich) c.nontrivial();
  c.label(dead ? "some script failed" : "all scripts succeeded");
}

PROPERTY("C40", "backup", 2,
         "a database with some version, or none, is backed up: one command names the database and the file that restoring it reads, the database stays as it is, a missing one gives false and no command; "
         "non-trivial: it is there") {
  Place p;
  Setup su(c, p);
  su.make_db();
  cee_dbm_db_info in;
  memset(&in, 0, sizeof in);
  std::string kind = c.pick<const char *>({"usr", "another"}), given = c.coin() ? "" : c.pick<const char *>({"given.db", "given.db", ".given.db", "7"}), prefix = c.coin() ? "" : "extra";
  put(in.kind, kind);
  put(in.file, kind + "-file.db");
  in.create_version = (int)c.draw(9);
  std::string file = su.db + "/" + (given.empty() ? kind + "-file.db" : given), other = su.db + "/" + (given.empty() ? "given.db" : kind + "-file.db");
  bool there = c.chance(3, 4);
  int version = (int)c.draw(c.coin() ? 5 : 2000000);
  if (there) run_on(file, "create table t0(a,b); insert into t0 values(1,2); pragma user_version=" + std::to_string(version));
  if (c.coin()) run_on(other, "create table t1(a,b)");
  auto names = listing(su.db);
  std::string before = slurp(file);
  memset(rep, 0, sizeof *rep);
  command_result = c.chance(1, 4) ? 256 : 0;
  c.note("%s %s %s version %d, the command %s", kind.c_str(), given.c_str(), prefix.c_str(), version, command_result ? "fails" : "succeeds");
  int code = perhaps_apart(false, [&]() -> int {
    int fds = open_files();
    rep->answer = cee_dbm_db_backup(&su.paths, &in, given.empty() ? nullptr : given.c_str(), prefix.empty() ? nullptr : prefix.c_str());
    rep->fds = open_files() - fds;
    return 0;
  });
  CHECK(c, code == 0, "backup-end", "db_backup ended with %d", code);
  CHECK(c, rep->fds == 0, "backup-open", "%d files are left open", rep->fds);
  CHECK(c, slurp(file) == before, "backup-content", "the database was changed");
  names.push_back("cee_dbm_log.db");
  std::sort(names.begin(), names.end());
  CHECK(c, listing(su.db) == names, "backup-files", "%zu files are in the directory instead of %zu", listing(su.db).size(), names.size());
  std::vector<Entry> want;
  if (!there) {
    want = {{kind, "open", ""}, {kind, "backup_failed", ""}};
    CHECK(c, !rep->answer && rep->commands == 0, "backup-missing", "a missing database is said to be backed up (%d commands)", rep->commands);
  } else {
    want = {{kind, "open", ""}, {kind, "open", ""}, {kind, command_result ? "backup_failed" : "backup", ""}};
    CHECK(c, rep->commands == 1, "backup-command", "%d commands are run", rep->commands);
    CHECK(c, command_result || rep->answer, "backup-answer", "a backup is said to have failed");
    std::string cmd = rep->command, to = su.data + "/" + (prefix.empty() ? kind : prefix) + "_insert." + std::to_string(version) + ".sql";
    size_t gt = cmd.find('>');
    CHECK(c, gt != std::string::npos && cmd.compare(gt + 1, std::string::npos, " " + to) == 0, "backup-to", "the command %s does not write %s", cmd.c_str(), to.c_str());
    std::string left = cmd.substr(0, gt);
    while (!left.empty() && left.back() == ' ') left.pop_back();
    CHECK(c, left.size() > file.size() && left.compare(left.size() - file.size() - 1, std::string::npos, " " + file) == 0, "backup-from", "the command %s does not read %s", cmd.c_str(), file.c_str());
    c.nontrivial();
  }
  std::vector<Entry> written = log_of(su.db + "/cee_dbm_log.db");
  CHECK(c, text_of(written) == text_of(want), "backup-log", "the log has %s instead of %s", text_of(written).c_str(), text_of(want).c_str());
}

sqlite3 *opener(const char *f) {
  rep->called = true;
  snprintf(rep->text, sizeof rep->text, "%s", f);
  sqlite3 *db = nullptr;
  sqlite3_open_v2(f, &db, SQLITE_OPEN_READWRITE | SQLITE_OPEN_URI, nullptr);
  return db;
}
PROPERTY("C40", "open", 3,
         "opening and attaching databases that are there or missing: an open one is the one the given function makes of its path, an attached one can be joined and not be changed, a missing one stops the process "
         "and is not made; non-trivial: one is attached to the other") {
  Place p;
  Setup su(c, p, true);
  su.make_db();
  std::string one = su.db + "/one.db", two = su.db + "/two.db";
  bool has1 = c.chance(5, 6), has2 = c.chance(5, 6), attach = c.chance(3, 4);
  int rows = (int)c.draw(5);
  if (has1) run_on(one, "create table t(a); insert into t values(1); create table same(n); insert into same values('one')");
  if (has2) { run_on(two, "create table u(a,b); create table same(n); insert into same values('two')"); for (int i = 0; i < rows; i++) run_on(two, "insert into u values(" + std::to_string(i) + ",'" + std::string((size_t)i, 'x') + "')"); }
  auto names = listing(su.db);
  std::string b1 = slurp(one), b2 = slurp(two), as = c.pick<const char *>({"other", "x2", "u"});
  c.note("%s %s, attached as %s: %d", has1 ? "one" : "no one", has2 ? "two" : "no two", as.c_str(), attach);
  bool fails = !has1 || (attach && !has2);
  memset(rep, 0, sizeof *rep);
  int code = perhaps_apart(fails, [&]() -> int {
    struct cee_state *st = cee_state_mk(10);
    struct cee_sqlite3 cs;
    memset(&cs, 0, sizeof cs);
    cee_dbm_open_db(st, &cs, &su.paths, (char *)"usr", (char *)"one.db", opener);
    if (!cs.db || cs.state != st || strcmp(cs.db_name, "usr") || strcmp(cs.db_path, one.c_str())) return 41;
    rep->is_new = true;  // opened
    if (attach) {
      cee_dbm_attach_db(&cs, &su.paths, (char *)"two.db", (char *)as.c_str());
      rep->answer = true;  // attached
      sqlite3_stmt *s = nullptr;
      std::string q = "select count(*), (select n from " + as + ".same), (select n from main.same) from " + as + ".u join t on 1";
      if (sqlite3_prepare_v2(cs.db, q.c_str(), -1, &s, nullptr) != SQLITE_OK || sqlite3_step(s) != SQLITE_ROW) return 42;
      if (sqlite3_column_int(s, 0) != rows || strcmp((const char *)sqlite3_column_text(s, 1), "two") || strcmp((const char *)sqlite3_column_text(s, 2), "one")) return 43;
      sqlite3_finalize(s);
      if (run_quietly(cs.db, "insert into " + as + ".u values(9,9)") == SQLITE_OK) return 44;
      if (run_quietly(cs.db, "insert into main.t values(9)") != SQLITE_OK) return 45;
    }
    if (sqlite3_next_stmt(cs.db, nullptr)) return 46;
    if (sqlite3_close(cs.db) != SQLITE_OK) return 47;
    cee_del(st);
    return 0;
  });
  static const char *WHY[] = {"the opened database is described wrong", "the attached tables cannot be read", "the attached tables hold something else", "the attached database can be changed", "the opened database cannot be changed", "a statement is left open", "the database cannot be closed"};
  CHECK(c, code == 0 || code == 99 || (code > 40 && code < 48), "open-end", "the process ended with %d", code);
  CHECK(c, code == 0 || code == 99, "open-result", "%s", WHY[code > 40 && code < 48 ? code - 41 : 0]);
  CHECK(c, (code == 99) == fails, "open-stop", "%s and the process %s", fails ? "a database is missing" : "both are there", code ? "is stopped" : "goes on");
  CHECK(c, rep->called == has1 && (!rep->called || one == rep->text), "open-path", "the opening function gets %s", rep->called ? rep->text : "nothing");
  CHECK(c, rep->is_new == has1 && rep->answer == (has1 && attach && has2), "open-stop", "the process is stopped too late or too early");
  CHECK(c, listing(su.db) == names, "open-files", "files were made");
  CHECK(c, slurp(two) == b2 && (code == 0 || slurp(one) == b1), "open-content", "a database was changed");
  if (attach && !fails) c.nontrivial();
}

PROPERTY("C40", "text", 40,
         "settings printed into buffers of every size from none to larger than needed, and paths with $HOME in front, inside or nowhere, with short and long homes; non-trivial: a buffer that is too small, or a replaced $HOME") {
  cee_dbm_path_info pi;
  cee_dbm_db_info di;
  memset(&di, 0, sizeof di);
  auto word = [&](unsigned most) { std::string s; for (unsigned n = (unsigned)c.draw(c.coin() ? 9 : most); n; n--) s += c.chance(1, 8) ? c.pick<char>({'%', '/', '$', ' '}) : (char)c.range('a', 'z'); return s; };
  if (c.chance(1, 3)) {
    std::string home = "/" + word(c.coin() ? 20 : 300), was[3], want[3];
    char(*field[3])[128] = {&pi.schema_script_path, &pi.data_script_path, &pi.db_file_path};
    memset(&pi, '~', sizeof pi);
    for (int i = 0; i < 3; i++) {
      int how = c.weighted({3, 1, 1, 1});
      std::string rest = (how == 0 ? !c.chance(1, 6) : c.coin()) ? "/" + word(100) : "";
      was[i] = how == 0 ? "$HOME" + rest : how == 1 ? rest : how == 2 ? "/data/$HOME" + rest : "$HOM" + rest;
      if (i && c.chance(1, 3)) { int j = (int)c.draw(i - 1); was[i] = was[j]; want[i] = want[j]; }
      else want[i] = how == 0 ? home + rest : was[i];
      if (how == 0) c.nontrivial();
      put(*field[i], was[i]);
      c.note("%s -> %s", was[i].c_str(), want[i].c_str());
    }
    // as a block of its own, so that nothing beyond it can be written
    cee_dbm_path_info *own = (cee_dbm_path_info *)pbt::mem::xmalloc(sizeof pi);
    *own = pi;
    cee_dbm_path_info_normalize(own, (char *)home.c_str());
    char(*now[3])[128] = {&own->schema_script_path, &own->data_script_path, &own->db_file_path};
    for (int i = 0; i < 3; i++) {
      const char *z = (const char *)memchr(*now[i], 0, 128);
      CHECK(c, z, "home-end", "a path does not end within its 128 bytes");
      std::string got(*now[i], (size_t)(z - *now[i]));
      if (want[i].size() < 128) CHECK(c, got == want[i], "home", "%s with home %s becomes %s", was[i].c_str(), home.c_str(), got.c_str());
    }
    free(own);
    c.label("home");
    return;
  }
  put(pi.schema_script_path, word(120));
  put(pi.data_script_path, word(120));
  put(pi.db_file_path, word(120));
  put(di.kind, word(15));
  put(di.file, word(31));
  di.recreate_db = c.coin();
  di.restore_db = c.coin();
  di.customize_db = c.coin();
  di.create_version = (int)c.range(-3, 12);
  di.final_version = c.coin() ? (int)c.draw(12) : INT32_MIN;
  auto yes = [](bool b) { return std::string(b ? "true" : "false"); };
  std::string paths = std::string("schema_script_path:") + pi.schema_script_path + ", data_script_path:" + pi.data_script_path + ", db_file_path:" + pi.db_file_path;
  int which = (int)c.draw(3);
  std::string full = which == 0 ? paths + ", " : which == 1 ? paths
                   : which == 2 ? std::string("db_kind:") + di.kind + ", create_version:" + std::to_string(di.create_version) + ", recreate_db:" + yes(di.recreate_db) + ", restore_db:" + yes(di.restore_db) + ", "
                                : std::string("kind:") + di.kind + ", file:" + di.file + ", recreate_db:" + yes(di.recreate_db) + ", restore_db:" + yes(di.restore_db) + ", create_version:" +
                                    std::to_string(di.create_version) + ", final_version:" + std::to_string(di.final_version);
  size_t size = c.weighted({2, 1, 3}) == 0 ? full.size() + 1 + c.draw(20) : (size_t)c.draw(full.size() + 1);
  bool counts = which == 0 || which == 2, none = counts && c.chance(1, 6);
  if (none) size = 0;
  char *buf = none ? nullptr : (char *)pbt::mem::xmalloc(size ? size : 1);
  if (buf) memset(buf, '~', size ? size : 1);
  c.note("%zu bytes for %s", size, full.c_str());
  size_t n = full.size();
  switch (which) {
    case 0: n = cee_dbm_path_info_snprint(buf, size, &pi); break;
    case 1: cee_dbm_path_info2str(&pi, size, buf); break;
    case 2: n = cee_dbm_settings_snprint(buf, size, &di); break;
    default: cee_dbm_db_info2str(&di, size, buf);
  }
  CHECK(c, n == full.size(), "text-length", "%zu is returned for %zu bytes of text", n, full.size());
  if (size) {
    const char *z = (const char *)memchr(buf, 0, size);
    CHECK(c, z, "text-end", "the text does not end within its %zu bytes", size);
    CHECK(c, std::string(buf, (size_t)(z - buf)) == full.substr(0, size - 1), "text", "%s instead of %s", quote(buf).c_str(), quote(full.substr(0, size - 1)).c_str());
  } else if (buf) CHECK(c, *buf == '~', "text-end", "an empty buffer is written to");
  free(buf);
  if (size <= full.size()) c.nontrivial();
  c.label(none ? "no buffer" : size <= full.size() ? "too small" : "large enough");
}
}  // namespace
