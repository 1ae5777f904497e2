// Database files as text, random SQL scripts and processes of their own.
#pragma once
#include "jmodel.hpp"
extern "C" {
#include "cee-sqlite3.h"
}
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace jm;
// processes die here, machines do not: nothing has to reach the disk
extern "C" int fsync(int) { return 0; }
extern "C" int fdatasync(int) { return 0; }
namespace {
std::string cell_text(sqlite3_stmt *s, int i) {
  switch (sqlite3_column_type(s, i)) {
    case SQLITE_NULL: return "null";
    case SQLITE_INTEGER: return std::to_string(sqlite3_column_int64(s, i));
    case SQLITE_FLOAT: { char b[40]; snprintf(b, sizeof b, "%.17g", sqlite3_column_double(s, i)); return b; }
  }
  bool blob = sqlite3_column_type(s, i) == SQLITE_BLOB;
  const char *p = (const char *)sqlite3_column_blob(s, i);
  return (blob ? "x" : "") + quote(std::string(p ? p : "", (size_t)sqlite3_column_bytes(s, i)), 60);
}
// everything in a database, as text
std::string dump(sqlite3 *db) {
  std::string r;
  std::vector<std::string> tables;
  sqlite3_stmt *s = nullptr;
  if (sqlite3_prepare_v2(db, "select type,name,coalesce(sql,'') from sqlite_master order by name,type", -1, &s, nullptr) != SQLITE_OK) return std::string("(unreadable: ") + sqlite3_errmsg(db) + ")";
  while (sqlite3_step(s) == SQLITE_ROW) {
    std::string t = (const char *)sqlite3_column_text(s, 0), n = (const char *)sqlite3_column_text(s, 1);
    std::string sql = (const char *)sqlite3_column_text(s, 2);
    while (!sql.empty() && isspace((unsigned char)sql.back())) sql.pop_back();
    r += t + " " + n + " " + sql + "\n";
    if (t == "table") tables.push_back(n);
  }
  sqlite3_finalize(s);
  for (auto &n : tables) {
    if (sqlite3_prepare_v2(db, ("select rowid,* from " + n + " order by rowid").c_str(), -1, &s, nullptr) != SQLITE_OK) return r + "(unreadable: " + sqlite3_errmsg(db) + ")";
    r += n + ":";
    while (sqlite3_step(s) == SQLITE_ROW) {
      for (int i = 0; i < sqlite3_column_count(s); i++) r += (i ? "," : " ") + cell_text(s, i);
    }
    sqlite3_finalize(s);
    r += "\n";
  }
  return r;
}
std::string dump_file(const char *f) {
  sqlite3 *db = nullptr;
  if (sqlite3_open_v2(f, &db, SQLITE_OPEN_READWRITE, nullptr) != SQLITE_OK) { sqlite3_close(db); return "(absent)"; }
  std::string r = dump(db);
  sqlite3_close(db);
  return r;
}
struct Scratch {
  std::vector<std::string> names;
  const char *make(const char *stem) {
    names.push_back(std::string(stem) + std::to_string((int)getpid()) + ".db");
    wipe(names.back());
    return names.back().c_str();
  }
  static void wipe(const std::string &n) { for (const char *x : {"", "-journal", "-wal", "-shm"}) unlink((n + x).c_str()); }
  Scratch() { names.reserve(4); }
  ~Scratch() { for (auto &n : names) wipe(n); }
};
// runs f in a process of its own: 0 as it returned, 99 when the library stopped it, else what f returned
template <class F> int apart(F f) {
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) {
    for (int sg : {SIGSEGV, SIGBUS, SIGILL, SIGTRAP, SIGABRT, SIGFPE}) signal(sg, [](int) { _exit(99); });
    _exit(f());
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
}
// in a process of its own only if it is expected to be stopped
template <class F> int perhaps_apart(bool stopped, F f) { return stopped ? apart(f) : f(); }
std::string sql_statement(Case &c) {
  int t = (int)c.draw(2);
  std::string n = "t" + std::to_string(t);
  auto num = [&] { return std::to_string(c.range(0, 7)); };
  switch (c.weighted({3, 6, 2, 1, 1, 1, 1, 1})) {
    case 0: return "create table " + n + "(a integer primary key, b text" + c.pick<const char *>({"", ", check(a is not 7)", " not null"}) + ")";
    case 1: return "insert into " + n + "(a,b) values(" + num() + "," + c.pick<const char *>({"'x'", "'it''s; ok'", "null", "'y'"}) + ")";
    case 2: return "update " + n + " set b='u" + num() + "' where a<" + num();
    case 3: return "delete from " + n + " where a=" + num();
    case 4: return "create index i" + std::to_string(t) + " on " + n + "(b)";
    case 5: return "drop table " + n;
    case 6: return c.pick<const char *>({"select 1", "create view v as select 1 x", "insert into t0 select a+10,b from t0", "create trigger g after insert on t0 begin update t0 set b='g' where a=0; end"});
    default: return c.pick<const char *>({"insert into nobody values(1)", "creat table z(a)", "insert into t0 values(1,2,3,4)", "select * from", "insert into t1(a,b) values(0,'p'),(0,'q')"});
  }
}
int run_quietly(sqlite3 *db, const std::string &q) { return sqlite3_exec(db, q.c_str(), nullptr, nullptr, nullptr); }
const char *FAST = "pragma synchronous=off";

}  // namespace
