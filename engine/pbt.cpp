#include "pbt.hpp"

#include <algorithm>
#include <cerrno>
#include <cstdlib>
#include <ctime>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__) || (defined(__has_feature))
extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:abort_on_error=0:exitcode=99:symbolize=0:quarantine_size_mb=8:"
         "malloc_context_size=8:allocator_may_return_null=0:max_malloc_fill_size=4096:"
         "detect_stack_use_after_return=0:handle_segv=1:handle_sigfpe=1:handle_abort=1:"
         "print_summary=1:print_legend=0:detect_odr_violation=0:allow_user_segv_handler=1:"
         "alloc_dealloc_mismatch=0";
}
extern "C" const char *__asan_default_suppressions() { return ""; }
#endif

namespace pbt {

static const size_t MAXCH = 1 << 17;
static const size_t MAXLAB = 96;
static const size_t MAXFIND = 1 << 16;  // room for what one batch finds
namespace cov { static const size_t N = 1 << 15; }

struct Shared {
  volatile uint64_t cur_case;
  volatile uint64_t done;
  volatile uint64_t nontrivial;
  volatile uint32_t nch;
  volatile uint32_t overflow;
  volatile uint32_t longest;  // draws of the longest random case
  uint64_t ch[MAXCH], mx[MAXCH];
  // coverage-guided part: features seen by this worker, sequences that showed new ones
  uint8_t seen[cov::N];
  volatile uint32_t nfind;  // words used in find
  uint64_t find[MAXFIND], fmx[MAXFIND];
  char sig[128];
  char msg[6000];
  struct { char name[48]; uint64_t n; } lab[MAXLAB];
  volatile uint64_t nhash;
  volatile uint64_t first_nt[8];  // a few non-trivial case indices
  volatile uint32_t n_first_nt;
};
struct Global {
  volatile int stop;
};

static std::vector<Prop> *g_props;
std::vector<Prop> &props() {
  if (!g_props) g_props = new std::vector<Prop>;
  return *g_props;
}
Reg::Reg(const char *id, const char *name, unsigned weight, const char *rule, PropFn fn) {
  props().push_back({id, name, fn, weight, rule});
}

uint64_t fnv(const void *p, size_t n, uint64_t h) {
  const unsigned char *b = (const unsigned char *)p;
  for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
  return h;
}

std::string quote(const std::string &s, size_t max) {
  std::string o = "\"";
  for (size_t i = 0; i < s.size(); i++) {
    if (o.size() > max) { o += "\"..."; char b[32]; snprintf(b, sizeof b, "(%zu bytes)", s.size()); return o + b; }
    unsigned char ch = s[i];
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch == '\n') o += "\\n";
    else if (ch >= 32 && ch < 127) o += ch;
    else { char b[8]; snprintf(b, sizeof b, "\\x%02x", ch); o += b; }
  }
  return o + "\"";
}

// ---------------------------------------------------------------- Case
static uint64_t splitmix(uint64_t &x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
uint64_t Case::next() {
  uint64_t r = rotl(s_[1] * 5, 7) * 9, t = s_[1] << 17;
  s_[2] ^= s_[0]; s_[3] ^= s_[1]; s_[1] ^= s_[2]; s_[0] ^= s_[3]; s_[2] ^= t; s_[3] = rotl(s_[3], 45);
  return r;
}
void Case::start_random(uint64_t seed, const char *prop, uint64_t index) {
  uint64_t x = fnv(prop, strlen(prop)) ^ (seed * 0x9e3779b97f4a7c15ull) ^ (index * 0xd1342543de82ef95ull);
  for (auto &v : s_) v = splitmix(x);
  replay_ = false;
  pos_ = 0;
  nontrivial_ = false;
  hash_ = 1469598103934665603ull;
  if (sh) { sh->nch = 0; sh->overflow = 0; sh->sig[0] = sh->msg[0] = 0; }
  mem::reset();
  size_ = 1 + (unsigned)draw(99);
}
void Case::start_replay(const std::vector<uint64_t> &v, uint64_t tail) {
  replay_ = true;
  tail_ = tail != 0;
  for (auto &w : s_) w = splitmix(tail);
  in_ = v;
  pos_ = 0;
  nontrivial_ = false;
  hash_ = 1469598103934665603ull;
  if (sh) { sh->nch = 0; sh->overflow = 0; sh->sig[0] = sh->msg[0] = 0; }
  mem::reset();
  size_ = 1 + (unsigned)draw(99);
}
uint64_t Case::draw(uint64_t max) {
  uint64_t v;
  if (replay_) {
    if (limit_ && pos_ >= limit_) v = 0;
    else if (pos_ < in_.size()) v = in_[pos_];
    else if (tail_) v = max == UINT64_MAX ? next() : (uint64_t)(((unsigned __int128)next() * ((unsigned __int128)max + 1)) >> 64);
    else v = 0;
    if (v > max) v = max;
  } else if (max == UINT64_MAX) {
    v = next();
  } else {
    v = (uint64_t)(((unsigned __int128)next() * ((unsigned __int128)max + 1)) >> 64);
  }
  pos_++;
  hash_ = (hash_ ^ v) * 1099511628211ull;
  hash_ ^= hash_ >> 29;
  if (sh) {
    uint32_t n = sh->nch;
    if (n < MAXCH) { sh->ch[n] = v; sh->mx[n] = max; sh->nch = n + 1; } else sh->overflow = 1;
  }
  return v;
}
int Case::weighted(std::initializer_list<int> w) {
  int tot = 0;
  for (int x : w) tot += x;
  int r = (int)draw(tot - 1), i = 0;
  for (int x : w) { if (r < x) return i; r -= x; i++; }
  return (int)w.size() - 1;
}
void Case::fail(const char *sig, const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  char buf[6000];
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (sh) {
    snprintf(sh->sig, sizeof sh->sig, "%s", sig);
    snprintf(sh->msg, sizeof sh->msg, "%s", buf);
  }
  if (verbose_) { printf("  FAILED [%s] %s\n", sig, buf); fflush(stdout); }
  _exit(77);
}
void Case::label(const char *name) {
  if (!sh) return;
  for (size_t i = 0; i < MAXLAB; i++) {
    if (!sh->lab[i].name[0]) snprintf(sh->lab[i].name, sizeof sh->lab[i].name, "%s", name);
    if (!strncmp(sh->lab[i].name, name, sizeof sh->lab[i].name - 1)) { sh->lab[i].n++; return; }
  }
}
void Case::note(const char *fmt, ...) {
  if (!verbose_) return;
  va_list ap;
  va_start(ap, fmt);
  printf("  ");
  vprintf(fmt, ap);
  printf("\n");
  fflush(stdout);
  va_end(ap);
}

// ------------------------------------------------------------- coverage
// The library (not the harness) is compiled with -fsanitize-coverage=trace-pc,trace-cmp.  Features are
// edges with bucketed hit counts, and for each comparison how close its operands came.
namespace cov {
static bool on;
static uint8_t map[N];
static uintptr_t prev;
struct Op { uint64_t a, b; };
static Op ops[256];
static uintptr_t base() { return (uintptr_t)&props; }
static inline size_t spot(uintptr_t x) { x *= 0x9e3779b97f4a7c15ull; return (x >> 33) & (N - 1); }
static inline void edge(uintptr_t pc) {
  size_t i = spot((pc - base()) * 31 + prev);
  prev = (pc - base()) * 7;
  if (map[i] != 255) map[i]++;
}
static inline void cmp(uintptr_t pc, uint64_t a, uint64_t b) {
  uint64_t d = a > b ? a - b : b - a;
  int l = d ? 64 - __builtin_clzll(d) : 0;
  map[spot((pc - base()) * 131 + 17 + l)] |= 1;
  if (d) ops[(spot(pc - base()) ^ a ^ (b << 3)) & 255] = {a, b};
}
static uint8_t bucket(uint8_t n) {
  return n == 0 ? 0 : n == 1 ? 1 : n == 2 ? 2 : n == 3 ? 4 : n < 8 ? 8 : n < 16 ? 16 : n < 32 ? 32 : n < 128 ? 64 : 128;
}
static void start() { memset(map, 0, N); prev = 0; on = true; }
// adds what the case showed to seen; true if something of it is new
static bool finish(uint8_t *seen) {
  on = false;
  bool fresh = false;
  for (size_t i = 0; i < N; i += 8) {
    uint64_t w;
    memcpy(&w, map + i, 8);
    if (!w) continue;
    for (size_t k = i; k < i + 8; k++) {
      uint8_t b = bucket(map[k]);
      if (b & ~seen[k]) { seen[k] |= b; fresh = true; }
    }
  }
  return fresh;
}
}  // namespace cov

// ------------------------------------------------------------- heap ledger
namespace mem {
struct Ent { uintptr_t p; size_t n; };
// nodes come from a pool of their own: the ledger must not cost more than the code it watches
template <class X> struct Pool {
  typedef X value_type;
  Pool() {}
  template <class Y> Pool(const Pool<Y> &) {}
  union Node { Node *next; alignas(X) char b[sizeof(X)]; };
  static Node *&head() { static Node *h; return h; }
  X *allocate(size_t) {
    Node *&h = head();
    if (!h) {
      const size_t N = 4096;
      Node *m = (Node *)mmap(nullptr, N * sizeof(Node), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      if (m == (Node *)MAP_FAILED) abort();
      for (size_t i = 0; i < N; i++) { m[i].next = h; h = m + i; }
    }
    Node *r = h;
    h = h->next;
    return (X *)r;
  }
  void deallocate(X *p, size_t) { Node *n = (Node *)p; n->next = head(); head() = n; }
  template <class Y> bool operator==(const Pool<Y> &) const { return true; }
  template <class Y> bool operator!=(const Pool<Y> &) const { return false; }
};
struct Blk { size_t n; uint64_t id; };
typedef std::map<uintptr_t, Blk, std::less<uintptr_t>, Pool<std::pair<const uintptr_t, Blk>>> Table;
static Table *tab;
static size_t bytes_;
static uint64_t allocs_;
static const size_t BLOWUP = (size_t)700 << 20;
static Table &T() {
  if (!tab) tab = new Table;
  return *tab;
}
static Shared *cur_sh;
static void add(void *p, size_t n) {
  if (!p) return;
  T()[(uintptr_t)p] = {n, ++allocs_};
  bytes_ += n;
  if (bytes_ > BLOWUP) {
    if (cur_sh) {
      snprintf(cur_sh->sig, sizeof cur_sh->sig, "memory-blowup");
      snprintf(cur_sh->msg, sizeof cur_sh->msg, "the library holds more than %zu MB for one small case", BLOWUP >> 20);
    }
    _exit(77);
  }
}
static void del(void *p) {
  if (!p) return;
  auto it = T().find((uintptr_t)p);
  if (it == T().end()) return;
  bytes_ -= it->second.n;
  T().erase(it);
}
size_t live() { return T().size(); }
size_t live_bytes() { return bytes_; }
uint64_t allocs() { return allocs_; }
static Table::iterator at(const void *p) {
  auto it = T().upper_bound((uintptr_t)p);
  if (it == T().begin()) return T().end();
  --it;
  if ((uintptr_t)p < it->first + it->second.n || (it->second.n == 0 && (uintptr_t)p == it->first)) return it;
  return T().end();
}
bool alive(const void *p) { return at(p) != T().end(); }
uint64_t id(const void *p) { auto it = at(p); return it == T().end() ? 0 : it->second.id; }
size_t block_size(const void *p) { auto it = at(p); return it == T().end() ? 0 : it->second.n; }
size_t room_after(const void *p) {
  auto it = at(p);
  return it == T().end() ? 0 : it->first + it->second.n - (uintptr_t)p;
}
static unsigned fail_;
void fail(unsigned nth) { fail_ = nth; }
static bool fails() {
  if (!fail_ || --fail_) return false;
  errno = ENOMEM;
  return true;
}
void reset() { T().clear(); bytes_ = 0; allocs_ = 0; fail_ = 0; }
std::vector<size_t> live_sizes() {
  std::vector<size_t> v;
  for (auto &e : T()) v.push_back(e.second.n);
  return v;
}
}  // namespace mem

}  // namespace pbt

extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
char *__real_strdup(const char *);
// new memory holds a fixed pattern, so that reading it before writing it is deterministic
static void dirty(void *p, size_t from, size_t to) {
  if (p && to > from) memset((char *)p + from, 0xA5, to - from < (1u << 20) ? to - from : (1u << 20));
}
void *__wrap_malloc(size_t n) { if (pbt::mem::fails()) return nullptr; void *p = __real_malloc(n); dirty(p, 0, n); pbt::mem::add(p, n); return p; }
void *__wrap_calloc(size_t a, size_t b) { if (pbt::mem::fails()) return nullptr; void *p = __real_calloc(a, b); pbt::mem::add(p, a * b); return p; }
void *__wrap_realloc(void *o, size_t n) {
  // always move: code that keeps using the old address is wrong for some allocator
  if (o) {
    auto it = pbt::mem::T().find((uintptr_t)o);
    if (it != pbt::mem::T().end()) {
      size_t old = it->second.n;
      if (n == 0) { pbt::mem::del(o); __real_free(o); return nullptr; }
      void *p = __real_malloc(n);
      memcpy(p, o, old < n ? old : n);
      dirty(p, old, n);
      pbt::mem::add(p, n);
      pbt::mem::del(o);
      __real_free(o);
      return p;
    }
  }
  void *p = __real_realloc(o, n);
  if (!o) dirty(p, 0, n);
  pbt::mem::add(p, n);
  return p;
}
void __wrap_free(void *p) { pbt::mem::del(p); __real_free(p); }
char *__wrap_strdup(const char *s) { char *p = __real_strdup(s); pbt::mem::add(p, strlen(s) + 1); return p; }
}
extern "C" {
#define PC ((uintptr_t)__builtin_return_address(0))
void __sanitizer_cov_trace_pc() { if (pbt::cov::on) pbt::cov::edge(PC); }
void __sanitizer_cov_trace_cmp1(uint8_t a, uint8_t b) { if (pbt::cov::on) pbt::cov::cmp(PC, a, b); }
void __sanitizer_cov_trace_cmp2(uint16_t a, uint16_t b) { if (pbt::cov::on) pbt::cov::cmp(PC, a, b); }
void __sanitizer_cov_trace_cmp4(uint32_t a, uint32_t b) { if (pbt::cov::on) pbt::cov::cmp(PC, a, b); }
void __sanitizer_cov_trace_cmp8(uint64_t a, uint64_t b) { if (pbt::cov::on) pbt::cov::cmp(PC, a, b); }
void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t b) { if (pbt::cov::on) pbt::cov::cmp(PC, a, b); }
void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t b) { if (pbt::cov::on) pbt::cov::cmp(PC, a, b); }
void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t b) { if (pbt::cov::on) pbt::cov::cmp(PC, a, b); }
void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t b) { if (pbt::cov::on) pbt::cov::cmp(PC, a, b); }
void __sanitizer_cov_trace_cmpf(float, float) {}
void __sanitizer_cov_trace_cmpd(double, double) {}
void __sanitizer_cov_trace_switch(uint64_t v, uint64_t *c) {
  if (!pbt::cov::on) return;
  for (uint64_t i = 0; i < c[0]; i++) pbt::cov::cmp(PC + i + 1, v, c[2 + i]);
}
#undef PC
}
namespace pbt {
namespace mem { void *xmalloc(size_t n) { return __wrap_malloc(n); } }

// ------------------------------------------------------------- runner
static const Prop *g_prop;
static uint64_t g_seed = 1;
static std::string g_dir = ".";
static Global *G;
static int g_cpu_limit = 20;

static double now() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}
static Shared *child_sh;
static void on_prof(int) {
  if (child_sh) {
    snprintf(child_sh->sig, sizeof child_sh->sig, "hang");
    snprintf(child_sh->msg, sizeof child_sh->msg, "one case used more than %d s of CPU time (normally well under 50 ms)", g_cpu_limit);
  }
  _exit(78);
}
static void on_alrm(int) {
  if (child_sh) {
    snprintf(child_sh->sig, sizeof child_sh->sig, "hang");
    snprintf(child_sh->msg, sizeof child_sh->msg, "one case did not finish within %d s", g_cpu_limit * 15);
  }
  _exit(78);
}
static void arm(int cpu) {
  struct itimerval it = {{0, 0}, {cpu, 0}}, rt = {{0, 0}, {cpu * 15, 0}};
  setitimer(ITIMER_PROF, &it, nullptr);
  setitimer(ITIMER_REAL, &rt, nullptr);
}
static void child_setup(Shared *sh, const std::string &errf, bool keep_stdout) {
  child_sh = sh;
  mem::cur_sh = sh;
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  signal(SIGPROF, on_prof);
  signal(SIGALRM, on_alrm);
  signal(SIGPIPE, SIG_IGN);
  int fd = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
  if (fd >= 0) { dup2(fd, 2); if (!keep_stdout) dup2(fd, 1); close(fd); }
}
static void end_case(Case &c) {
  Shared *sh = c.sh;
  if (c.nontrivial_) {
    sh->nontrivial = sh->nontrivial + 1;
    uint32_t k = sh->n_first_nt;
    if (k < 8) { sh->first_nt[k] = sh->cur_case; sh->n_first_nt = k + 1; }
  }
  sh->done = sh->done + 1;
}

static std::string slurp(const std::string &f, size_t max = 1 << 16) {
  std::string s;
  FILE *fp = fopen(f.c_str(), "r");
  if (!fp) return s;
  char b[4096];
  size_t n;
  while ((n = fread(b, 1, sizeof b, fp)) > 0 && s.size() < max) s.append(b, n);
  fclose(fp);
  return s;
}

struct Outcome {
  bool failed = false;
  std::string sig, msg;
  std::vector<uint64_t> used;
};
static Outcome classify(int st, Shared *sh, const std::string &errf) {
  Outcome o;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return o;
  o.failed = true;
  o.used.assign(sh->ch, sh->ch + sh->nch);
  if (WIFEXITED(st) && (WEXITSTATUS(st) == 77 || WEXITSTATUS(st) == 78)) {
    o.sig = sh->sig;
    o.msg = sh->msg;
    return o;
  }
  std::string e = slurp(errf);
  size_t p = e.find("ERROR: AddressSanitizer: ");
  if (p != std::string::npos) {
    p += 25;
    size_t q = e.find_first_of(" \n", p);
    o.sig = "asan:" + e.substr(p, q - p);
    size_t nl = e.find('\n', p);
    o.msg = "AddressSanitizer: " + e.substr(p, nl - p);
    return o;
  }
  p = e.find("runtime error: ");
  if (p != std::string::npos) {
    size_t nl = e.find('\n', p);
    o.sig = "ubsan";
    o.msg = e.substr(p, nl - p);
    return o;
  }
  char b[200];
  if (WIFSIGNALED(st)) snprintf(b, sizeof b, "signal:%d", WTERMSIG(st));
  else snprintf(b, sizeof b, "exit:%d", WEXITSTATUS(st));
  o.sig = b;
  o.msg = std::string("the case ended with ") + b + (e.empty() ? "" : "; stderr: " + e.substr(0, 300));
  return o;
}

// run fn in a child with exclusive use of sh
static Outcome in_child(Shared *sh, const std::string &errf, bool keep_stdout, const std::function<void()> &fn) {
  fflush(stdout);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(2); }
  if (pid == 0) {
    child_setup(sh, errf, keep_stdout);
    fn();
    fflush(stdout);
    _exit(0);
  }
  int st;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  return classify(st, sh, errf);
}

static void run_one(Shared *sh, const std::vector<uint64_t> *choices, uint64_t idx, bool verbose) {
  Case c;
  c.sh = sh;
  c.verbose_ = verbose;
  sh->cur_case = idx;
  arm(g_cpu_limit);
  if (choices) c.start_replay(*choices); else c.start_random(g_seed, g_prop->name, idx);
  g_prop->fn(c);
  end_case(c);
}

static Shared *new_shared() {
  void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(2); }
  return (Shared *)p;
}

struct Failure {
  bool found = false, batch = false;
  uint64_t idx = 0, b0 = 0, stride = 1;
  Outcome o;
};

static void jesc(FILE *f, const std::string &s) {
  fputc('"', f);
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') fprintf(f, "\\%c", ch);
    else if (ch == '\n') fputs("\\n", f);
    else if (ch == '\t') fputs("\\t", f);
    else if (ch < 32 || ch >= 127) fprintf(f, "\\u%04x", ch);
    else fputc(ch, f);
  }
  fputc('"', f);
}

static std::vector<uint64_t> shrink(Shared *sh, const std::string &errf, std::vector<uint64_t> best, const std::string &sig,
                                    std::string &msg, unsigned max_attempts, double max_s, unsigned &attempts) {
  double t0 = now();
  attempts = 0;
  auto test = [&](const std::vector<uint64_t> &v, std::vector<uint64_t> &used) {
    if (attempts >= max_attempts || now() - t0 > max_s) return false;
    attempts++;
    Outcome o = in_child(sh, errf, false, [&] { run_one(sh, &v, 0, false); });
    if (o.failed && o.sig == sig) {
      used = o.used;
      // drop trailing zeros: replay pads with zeros
      while (!used.empty() && used.back() == 0) used.pop_back();
      msg = o.msg;
      return true;
    }
    return false;
  };
  auto smaller = [](const std::vector<uint64_t> &a, const std::vector<uint64_t> &b) {
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b;
  };
  std::vector<uint64_t> used;
  auto attempt = [&](const std::vector<uint64_t> &v) {
    if (test(v, used) && smaller(used, best)) { best = used; return true; }
    return false;
  };
  { std::vector<uint64_t> v = best; while (!v.empty() && v.back() == 0) v.pop_back(); best = v; }
  bool progress = true;
  while (progress && attempts < max_attempts && now() - t0 < max_s) {
    progress = false;
    // delete runs
    for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1; len = len > 8 ? len / 2 : len - 1) {
      for (size_t i = 0; i + len <= best.size();) {
        std::vector<uint64_t> v = best;
        v.erase(v.begin() + i, v.begin() + i + len);
        if (attempt(v)) progress = true; else i += (len > 8 ? len / 2 : 1);
        if (attempts >= max_attempts || now() - t0 > max_s) break;
      }
      if (len == 1) break;
    }
    // zero runs
    for (size_t len : {16, 8, 4, 2})
      for (size_t i = 0; i + len <= best.size(); i += len) {
        bool nz = false;
        for (size_t k = i; k < i + len; k++) nz |= best[k] != 0;
        if (!nz) continue;
        std::vector<uint64_t> v = best;
        std::fill(v.begin() + i, v.begin() + i + len, 0);
        if (attempt(v)) progress = true;
      }
    // lower single values
    for (size_t i = 0; i < best.size(); i++) {
      if (best[i] == 0) continue;
      std::vector<uint64_t> v = best;
      v[i] = 0;
      if (attempt(v)) { progress = true; continue; }
      uint64_t lo = 0, hi = i < best.size() ? best[i] : 0;
      for (int k = 0; k < 12 && hi - lo > 1; k++) {
        if (i >= best.size()) break;
        uint64_t m = k == 0 ? lo + 1 : k == 1 ? hi - 1 : lo + (hi - lo) / 2;
        v = best;
        v[i] = m;
        if (attempt(v)) { progress = true; hi = i < best.size() ? best[i] : 0; } else if (m == hi - 1) { break; } else lo = m;
      }
    }
  }
  return best;
}

// ------------------------------------------------------------- guided part
struct Seq { std::vector<uint64_t> v, m; };
struct Rng {
  uint64_t x;
  uint64_t n(uint64_t below) { return below ? splitmix(x) % below : 0; }
};
// a variation on a sequence of the corpus; tail != 0: what follows it is drawn anew
static void mutate(Rng &r, const std::vector<Seq> &corpus, std::vector<uint64_t> &v, uint64_t &tail) {
  auto one = [&]() -> const Seq & {
    size_t n = corpus.size();
    return corpus[r.n(2) ? r.n(n) : n - 1 - r.n((n + 3) / 4)];
  };
  Seq s = one();
  tail = 0;
  const size_t CAP = 20000;
  auto piece = [&](const Seq &q, size_t &i, size_t &l) {
    i = r.n(q.v.size());
    l = 1 + r.n(r.n(4) ? 8 : r.n(4) ? 64 : q.v.size());
    if (i + l > q.v.size()) l = q.v.size() - i;
  };
  for (int k = 1 + (int)r.n(4); k > 0 && !s.v.empty(); k--) {
    size_t i = r.n(s.v.size()), l, j;
    switch (r.n(11)) {
      case 0: s.v[i] = s.m[i] == UINT64_MAX ? splitmix(r.x) : r.n(s.m[i] + 1); break;
      case 1: s.v[i] = r.n(2) ? 0 : s.m[i]; break;
      case 2: { uint64_t d = 1 + r.n(r.n(2) ? 4 : 40); s.v[i] = r.n(2) ? s.v[i] + d : s.v[i] >= d ? s.v[i] - d : 0; break; }
      case 3: {
        cov::Op o = cov::ops[r.n(256)];
        if (r.n(2)) std::swap(o.a, o.b);
        if (r.n(4)) s.v[i] += o.b - o.a;
        else {
          size_t q = i;
          while (q < s.v.size() && s.v[q] != o.a) q++;
          if (q < s.v.size()) s.v[q] = o.b; else s.v[i] = o.b;
        }
        if (s.v[i] > s.m[i]) s.v[i] = s.m[i] == UINT64_MAX ? s.v[i] : s.v[i] % (s.m[i] + 1);
        break;
      }
      case 4: piece(s, i, l); s.v.erase(s.v.begin() + i, s.v.begin() + i + l); s.m.erase(s.m.begin() + i, s.m.begin() + i + l); break;
      case 5: {  // repeat a piece
        piece(s, i, l);
        std::vector<uint64_t> pv(s.v.begin() + i, s.v.begin() + i + l), pm(s.m.begin() + i, s.m.begin() + i + l);
        for (size_t t = 1 + r.n(r.n(3) ? 3 : 60); t > 0 && s.v.size() + l < CAP; t--) {
          s.v.insert(s.v.begin() + i, pv.begin(), pv.end());
          s.m.insert(s.m.begin() + i, pm.begin(), pm.end());
        }
        break;
      }
      case 6: case 7: {  // a piece of another sequence, inserted or in place
        const Seq &o = one();
        if (o.v.empty()) break;
        piece(o, j, l);
        if (r.n(2) && s.v.size() + l < CAP) {
          s.v.insert(s.v.begin() + i, o.v.begin() + j, o.v.begin() + j + l);
          s.m.insert(s.m.begin() + i, o.m.begin() + j, o.m.begin() + j + l);
        } else {
          l = std::min(l, s.v.size() - i);
          std::copy(o.v.begin() + j, o.v.begin() + j + l, s.v.begin() + i);
          std::copy(o.m.begin() + j, o.m.begin() + j + l, s.m.begin() + i);
        }
        break;
      }
      case 8: s.v.resize(i); s.m.resize(i); tail = splitmix(r.x) | 1; break;
      case 9: tail = splitmix(r.x) | 1; break;
      default: {  // this head, another's rest
        const Seq &o = one();
        j = r.n(o.v.size() + 1);
        s.v.resize(i); s.m.resize(i);
        s.v.insert(s.v.end(), o.v.begin() + j, o.v.end());
        s.m.insert(s.m.end(), o.m.begin() + j, o.m.end());
        break;
      }
    }
  }
  v = s.v;
}
// runs case k of the guided part of a worker; false when there is no room left for what it finds
static bool guided_case(Shared *S, int worker, uint64_t k, std::vector<Seq> &corpus) {
  Rng r{fnv(g_prop->name, strlen(g_prop->name)) ^ (g_seed * 0x9e3779b97f4a7c15ull) ^ ((uint64_t)(worker + 1) << 48) ^ (k * 0xd1342543de82ef95ull)};
  splitmix(r.x);
  Case c;
  c.sh = S;
  S->cur_case = k;
  arm(g_cpu_limit);
  if (k < 48 || corpus.empty() || r.n(16) == 0) c.start_random(g_seed + 1000003, g_prop->name, ((uint64_t)worker << 40) + k);
  else {
    std::vector<uint64_t> v;
    uint64_t tail;
    mutate(r, corpus, v, tail);
    c.limit_ = std::max<size_t>(S->longest, 64);  // no larger than random cases are
    c.start_replay(v, tail);
  }
  cov::start();
  g_prop->fn(c);
  bool fresh = cov::finish(S->seen);
  end_case(c);
  if (fresh && !S->overflow && S->nch <= 20000) {
    uint32_t n = S->nch, at = S->nfind;
    if (at + n + 1 > MAXFIND) return false;
    S->find[at] = n;
    memcpy(S->find + at + 1, S->ch, n * 8);
    memcpy(S->fmx + at + 1, S->mx, n * 8);
    S->nfind = at + 1 + n;
    corpus.push_back({std::vector<uint64_t>(S->ch, S->ch + n), std::vector<uint64_t>(S->mx, S->mx + n)});
  }
  return true;
}

// a check is named by its property and its name: two properties may have checks of one name
static bool is_named(const Prop &p, const std::string &name) { return name == std::string(p.id) + "/" + p.name; }

static int do_replay(const char *file) {
  FILE *f = fopen(file, "r");
  if (!f) { perror(file); return 2; }
  std::vector<uint64_t> v;
  bool batch = false;
  uint64_t b0 = 0, b1 = 0, stride = 1;
  char *line = nullptr;
  size_t cap = 0;
  std::string name, id;
  bool have = false;
  while (getline(&line, &cap, f) > 0) {
    char nm[200];
    unsigned long long a, b, c2, sd;
    if (sscanf(line, "check %199s", nm) == 1) name = id + "/" + nm;
    else if (sscanf(line, "property %199s", nm) == 1) id = nm;
    else if (sscanf(line, "seed %llu", &sd) == 1) g_seed = sd;
    else if (sscanf(line, "batch %llu %llu %llu", &a, &b, &c2) == 3) { batch = true; b0 = a; b1 = b; stride = c2; have = true; }
    else if (!strncmp(line, "choices", 7)) {
      char *p = line + 7, *e;
      for (;;) { unsigned long long x = strtoull(p, &e, 10); if (e == p) break; v.push_back(x); p = e; }
      have = true;
    } else if (!strncmp(line, "trace", 5)) break;
  }
  free(line);
  fclose(f);
  for (auto &p : props()) if (is_named(p, name)) g_prop = &p;
  if (!g_prop || !have) { fprintf(stderr, "bad replay file %s\n", file); return 2; }
  Shared *sh = new_shared();
  std::string errf = g_dir + "/replay.err";
  printf("replaying %s (%s)\n", g_prop->name, batch ? "batch of cases" : "one case");
  Outcome o = in_child(sh, errf, true, [&] {
    if (!batch) run_one(sh, &v, 0, true);
    else for (uint64_t i = b0; i <= b1; i += stride) run_one(sh, nullptr, i, i == b1);
  });
  if (o.failed) { printf("REPRODUCED [%s] %s\n%s", o.sig.c_str(), o.msg.c_str(), slurp(errf, 4000).c_str()); return 1; }
  printf("the case passes\n");
  return 0;
}

int run_main(int argc, char **argv) {
  uint64_t count = 1000, guided = 0;
  int workers = 4, batch = 200;
  double max_s = 100;
  std::string name, out, replay_out, variant = "src";
  const char *replay = nullptr;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() -> const char * { if (i + 1 >= argc) { fprintf(stderr, "missing value for %s\n", a.c_str()); exit(2); } return argv[++i]; };
    if (a == "--check") name = val();
    else if (a == "--list") { for (auto &p : props()) printf("%s\t%s\t%u\t%s\n", p.id, p.name, p.weight, p.rule); return 0; }
    else if (a == "--seed") g_seed = strtoull(val(), 0, 10);
    else if (a == "--count") count = strtoull(val(), 0, 10);
    else if (a == "--guided") guided = strtoull(val(), 0, 10);
    else if (a == "--workers") workers = atoi(val());
    else if (a == "--batch") batch = atoi(val());
    else if (a == "--max-seconds") max_s = atof(val());
    else if (a == "--cpu-limit") g_cpu_limit = atoi(val());
    else if (a == "--dir") g_dir = val();
    else if (a == "--out") out = val();
    else if (a == "--replay-out") replay_out = val();
    else if (a == "--variant") variant = val();
    else if (a == "--replay") replay = val();
    else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
  }
  if (replay) return do_replay(replay);
  for (auto &p : props()) if (is_named(p, name)) g_prop = &p;
  if (!g_prop) { fprintf(stderr, "no such check: %s\n", name.c_str()); return 2; }
  if (chdir(g_dir.c_str()) != 0) { perror(g_dir.c_str()); return 2; }
  g_dir = ".";

  double t0 = now();
  G = (Global *)mmap(nullptr, sizeof(Global), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::vector<Shared *> sh(workers);
  double random_s = guided ? max_s * 0.62 : max_s;
  size_t hash_cap = (count + guided) / workers + 2 * batch + 16;
  std::vector<uint64_t *> hashes(workers);
  struct WRes { int found, batchf, seqf; uint64_t idx, b0; char sig[128], msg[6000]; int inconclusive; uint64_t corpus, gdone; };
  WRes *res = (WRes *)mmap(nullptr, sizeof(WRes) * workers, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::vector<pid_t> pids;
  for (int w = 0; w < workers; w++) {
    sh[w] = new_shared();
    hashes[w] = (uint64_t *)mmap(nullptr, hash_cap * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  }
  for (int w = 0; w < workers; w++) {
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      std::string errf = g_dir + "/err." + g_prop->name + "." + std::to_string(w);
      Shared *S = sh[w];
      uint64_t next = w, bsz = 8;
      while (next < count && !G->stop && now() - t0 < random_s) {
        uint64_t b0 = next, k = 0;
        Outcome o = in_child(S, errf, false, [&] {
          for (uint64_t i = b0, n = 0; i < count && n < bsz; i += workers, n++) {
            Case c;
            c.sh = S;
            S->cur_case = i;
            arm(g_cpu_limit);
            c.start_random(g_seed, g_prop->name, i);
            g_prop->fn(c);
            if (S->nch > S->longest) S->longest = S->nch;
            if (c.nontrivial_) { uint64_t h = S->nhash; if (h < hash_cap) { hashes[w][h] = c.hash_; S->nhash = h + 1; } }
            end_case(c);
            if (G->stop) break;
          }
        });
        (void)k;
        if (o.failed) {
          uint64_t idx = S->cur_case;
          // reproduce: alone first, then (if it needs what ran before it) as a batch
          Outcome a = in_child(S, errf, false, [&] { run_one(S, nullptr, idx, false); });
          Outcome b = a.failed ? in_child(S, errf, false, [&] { run_one(S, nullptr, idx, false); }) : a;
          WRes &r = res[w];
          r.idx = idx;
          r.b0 = b0;
          if (a.failed && b.failed) {
            r.found = 1;
            snprintf(r.sig, sizeof r.sig, "%s", b.sig.c_str());
            snprintf(r.msg, sizeof r.msg, "%s", b.msg.c_str());
            G->stop = 1;
          } else {
            int again = 0;
            Outcome d;
            for (int t = 0; t < 2; t++) {
              d = in_child(S, errf, false, [&] { for (uint64_t i = b0; i <= idx; i += workers) run_one(S, nullptr, i, false); });
              again += d.failed;
            }
            if (again == 2) {
              r.found = 1;
              r.batchf = 1;
              snprintf(r.sig, sizeof r.sig, "%s", d.sig.c_str());
              snprintf(r.msg, sizeof r.msg, "%s (needs the preceding cases of its batch: state carried over between independent cases)", d.msg.c_str());
              G->stop = 1;
            } else {
              // not reproducible: never an alarm
              r.inconclusive++;
              next = idx + workers;
              continue;
            }
          }
          break;
        }
        uint64_t ran = 0;
        for (uint64_t i = b0; i < count && ran < bsz; i += workers) ran++;
        next = b0 + ran * workers;
        if (bsz < (uint64_t)batch) bsz *= 2;
        if (bsz > (uint64_t)batch) bsz = batch;
      }
      // guided part: variations on the sequences that reached something new
      std::vector<Seq> corpus;
      uint64_t quota = guided / workers;
      bsz = 8;
      for (uint64_t k = 0; k < quota && !G->stop && !res[w].found && now() - t0 < max_s;) {
        S->nfind = 0;
        volatile uint64_t &cur = S->cur_case;
        uint64_t done0 = S->done;
        Outcome o = in_child(S, errf, false, [&] {
          for (uint64_t i = k; i < quota && i < k + bsz && !G->stop; i++) {
            uint64_t nt = S->nontrivial, h = S->nhash;
            bool room = guided_case(S, w, i, corpus);
            if (S->nontrivial > nt && h < hash_cap) { hashes[w][h] = fnv(S->ch, S->nch * 8); S->nhash = h + 1; }
            if (!room) break;
          }
        });
        for (uint32_t at = 0; at < S->nfind;) {
          size_t n = S->find[at++];
          if (corpus.size() < 20000)
            corpus.push_back({std::vector<uint64_t>(S->find + at, S->find + at + n), std::vector<uint64_t>(S->fmx + at, S->fmx + at + n)});
          at += n;
        }
        res[w].corpus = corpus.size();
        res[w].gdone += S->done - done0;
        k = cur + 1;
        if (o.failed) {
          std::vector<uint64_t> v = o.used;
          int again = 0;
          // a guided case may be merely the largest that the generator can make
          bool hang = o.sig == "hang", over = S->overflow || ((hang || o.sig == "memory-blowup") && v.size() > 64);
          Outcome d;
          if (hang) g_cpu_limit *= 5;  // it may just be a large case
          for (int t = 0; t < (hang ? 1 : 2) && !over; t++) { d = in_child(S, errf, false, [&] { run_one(S, &v, 0, false); }); again += d.failed; }
          if (hang) g_cpu_limit /= 5;
          WRes &r = res[w];
          if (again == (hang ? 1 : 2)) {
            r.found = r.seqf = 1;
            r.idx = cur;
            snprintf(r.sig, sizeof r.sig, "%s", d.sig.c_str());
            snprintf(r.msg, sizeof r.msg, "%s", d.msg.c_str());
            G->stop = 1;
          } else r.inconclusive++;
        }
        if (bsz < (uint64_t)batch) bsz = std::min<uint64_t>(bsz * 2, batch);
      }
      _exit(0);
    }
    pids.push_back(pid);
  }
  for (pid_t p : pids) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} }

  int fw = -1, inconclusive = 0;
  uint64_t gdone = 0, corpus = 0, features = 0;
  std::vector<uint8_t> all_seen(cov::N, 0);
  for (int w = 0; w < workers; w++) {
    inconclusive += res[w].inconclusive;
    gdone += res[w].gdone;
    corpus = std::max(corpus, res[w].corpus);
    for (size_t i = 0; i < cov::N; i++) all_seen[i] |= sh[w]->seen[i];
    if (res[w].found && (fw < 0 || res[w].seqf < res[fw].seqf || (res[w].seqf == res[fw].seqf && res[w].idx < res[fw].idx))) fw = w;
  }
  for (uint8_t b : all_seen) features += __builtin_popcount(b);
  uint64_t done = 0, nt = 0;
  std::vector<uint64_t> all;
  std::map<std::string, uint64_t> labs;
  std::vector<uint64_t> sample_idx;
  for (int w = 0; w < workers; w++) {
    done += sh[w]->done;
    nt += sh[w]->nontrivial;
    all.insert(all.end(), hashes[w], hashes[w] + sh[w]->nhash);
    for (size_t i = 0; i < MAXLAB && sh[w]->lab[i].name[0]; i++) labs[sh[w]->lab[i].name] += sh[w]->lab[i].n;
    for (uint32_t k = 0; k < sh[w]->n_first_nt && k < 2; k++) sample_idx.push_back((uint64_t)sh[w]->first_nt[k + (sh[w]->n_first_nt > 4 ? 2 : 0)]);
  }
  std::sort(all.begin(), all.end());
  uint64_t distinct = std::unique(all.begin(), all.end()) - all.begin();
  std::sort(sample_idx.begin(), sample_idx.end());

  std::string errf = g_dir + "/err." + g_prop->name + ".main", trf = g_dir + "/trace." + g_prop->name;
  Shared *S = new_shared();
  auto trace = [&](const std::vector<uint64_t> *v, uint64_t idx) {
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      int fd = open(trf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
      dup2(fd, 1);
      child_setup(S, errf, true);
      run_one(S, v, idx, true);
      fflush(stdout);
      _exit(0);
    }
    int st;
    waitpid(pid, &st, 0);
    return slurp(trf);
  };
  std::vector<std::string> samples;
  if (fw < 0)
    for (size_t i = 0; i < sample_idx.size() && samples.size() < 3; i++) {
      std::string t = trace(nullptr, sample_idx[i]);
      if (t.size() > 900) t = t.substr(0, 900) + " ...";
      samples.push_back(std::string(g_prop->name) + " case " + std::to_string(sample_idx[i]) + ":\n" + t);
    }

  unsigned attempts = 0;
  std::string fsig, fmsg;
  if (fw >= 0) {
    WRes &r = res[fw];
    fsig = r.sig;
    fmsg = r.msg;
    std::vector<uint64_t> v;
    std::string tr;
    bool as_batch = r.batchf;
    if (!as_batch) {
      if (r.seqf) v.assign(sh[fw]->ch, sh[fw]->ch + sh[fw]->nch);
      Outcome a = in_child(S, errf, false, [&] { run_one(S, r.seqf ? &v : nullptr, r.idx, false); });
      if (a.failed) fsig = a.sig;
      v = a.used;
      bool overflow = S->overflow;
      if (!overflow) v = shrink(S, errf, v, fsig, fmsg, 3000, fsig == "hang" ? 60 : 40, attempts);
      // confirm the shrunk case; fall back to the original index otherwise
      Outcome b = in_child(S, errf, false, [&] { run_one(S, &v, 0, false); });
      if (!b.failed && !r.seqf) { as_batch = true; r.b0 = r.idx; } else { fmsg = b.msg; tr = trace(&v, 0) + slurp(errf, 3500); }
    }
    FILE *f = fopen(replay_out.c_str(), "w");
    if (!f) { perror(replay_out.c_str()); return 2; }
    fprintf(f, "# replay file: %s\n", "run ./run_check <property> --replay <this file>");
    fprintf(f, "property %s\ncheck %s\nvariant %s\nseed %llu\ncase %llu\n", g_prop->id, g_prop->name, variant.c_str(),
            (unsigned long long)g_seed, (unsigned long long)r.idx);
    std::string m1 = fmsg;
    for (auto &ch : m1) if (ch == '\n') ch = ' ';
    fprintf(f, "oracle %s\nmessage %s\n", fsig.c_str(), m1.c_str());
    if (as_batch) fprintf(f, "batch %llu %llu %d\n", (unsigned long long)r.b0, (unsigned long long)r.idx, workers);
    else { fprintf(f, "choices"); for (uint64_t x : v) fprintf(f, " %llu", (unsigned long long)x); fprintf(f, "\n"); }
    fprintf(f, "shrink-attempts %u\ntrace\n%s\n", attempts, tr.c_str());
    fclose(f);
  }

  FILE *f = out.empty() ? stdout : fopen(out.c_str(), "w");
  if (!f) { perror(out.c_str()); return 2; }
  fprintf(f, "{\"check\":"); jesc(f, g_prop->name);
  fprintf(f, ",\"property\":"); jesc(f, g_prop->id);
  fprintf(f, ",\"variant\":"); jesc(f, variant);
  fprintf(f, ",\"rule\":"); jesc(f, g_prop->rule);
  fprintf(f, ",\"planned\":%llu,\"evaluations\":%llu,\"nontrivial\":%llu,\"distinct_nontrivial\":%llu,\"inconclusive\":%d,\"guided\":%llu,\"corpus\":%llu,\"features\":%llu,\"wall_s\":%.2f",
          (unsigned long long)count, (unsigned long long)done, (unsigned long long)nt, (unsigned long long)distinct, inconclusive,
          (unsigned long long)gdone, (unsigned long long)corpus, (unsigned long long)features, now() - t0);
  fprintf(f, ",\"labels\":{");
  bool first = true;
  for (auto &l : labs) { if (!first) fputc(',', f); first = false; jesc(f, l.first); fprintf(f, ":%llu", (unsigned long long)l.second); }
  fprintf(f, "},\"samples\":[");
  first = true;
  for (auto &s : samples) { if (!first) fputc(',', f); first = false; jesc(f, s); }
  fprintf(f, "],\"violation\":");
  if (fw >= 0) {
    fprintf(f, "{\"oracle\":"); jesc(f, fsig);
    fprintf(f, ",\"message\":"); jesc(f, fmsg);
    fprintf(f, ",\"case\":%llu,\"shrink_attempts\":%u}", (unsigned long long)res[fw].idx, attempts);
  } else fprintf(f, "null");
  fprintf(f, "}\n");
  if (f != stdout) fclose(f);
  return fw >= 0 ? 1 : 0;
}
}  // namespace pbt

int main(int argc, char **argv) { return pbt::run_main(argc, argv); }
