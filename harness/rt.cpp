// Executor for the whole runtime library on top of the real DFSan runtime.
// Every case runs in its own forked process: either through the interception
// wrappers (as instrumented programs call them) or, with plain=1, through the
// plain library functions. It only reports what happened; no oracle lives here.
#include <algorithm>
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include "proto.h"

using proto::hex;
using proto::i64;
using proto::u64;
using proto::unhex;
using args_t = std::vector<std::string>;
typedef uint32_t L;

extern "C" {
L dfsan_union(L, L);
void dfsan_set_label(L, void *, size_t);
L dfsan_read_label(const void *, size_t);
void __taint_start();
uint16_t __polytracker_log_func_entry(char *, uint16_t);
void __polytracker_log_func_exit(uint16_t);
L __polytracker_union_table(const L &, const L &);
void __polytracker_log_conditional_branch(L);
void __dfsw___polytracker_log_conditional_branch(uint64_t, L);
void __polytracker_taint_argv(int, char **);
uint64_t __dfsw___polytracker_log_tainted_control_flow(uint64_t, uint32_t, L, L, L *);
void __polytracker_enter_function(uint32_t);
void __polytracker_leave_function(uint32_t);

int __dfsw_open(const char *, int, L, L, L *, L *, ...);
int __dfsw_open64(const char *, int, L, L, L *, L *, ...);
int __dfsw_openat(int, const char *, int, L, L, L, L *, L *, ...);
FILE *__dfsw_fopen(const char *, const char *, L, L, L *);
FILE *__dfsw_fopen64(const char *, const char *, L, L, L *);
int __dfsw_close(int, L, L *);
int __dfsw_fclose(FILE *, L, L *);
ssize_t __dfsw_read(int, void *, size_t, L, L, L, L *);
ssize_t __dfsw_pread(int, void *, size_t, off_t, L, L, L, L, L *);
ssize_t __dfsw_pread64(int, void *, size_t, off_t, L, L, L, L, L *);
size_t __dfsw_fread(void *, size_t, size_t, FILE *, L, L, L, L, L *);
size_t __dfsw_fread_unlocked(void *, size_t, size_t, FILE *, L, L, L, L, L *);
int __dfsw_fgetc(FILE *, L, L *);
int __dfsw_fgetc_unlocked(FILE *, L, L *);
int __dfsw__IO_getc(FILE *, L, L *);
int __dfsw_getc(FILE *, L, L *);
int __dfsw_getc_unlocked(FILE *, L, L *);
int __dfsw_getchar(L *);
int __dfsw_getchar_unlocked(L *);
char *__dfsw_fgets(char *, int, FILE *, L, L, L, L *);
ssize_t __dfsw_getdelim(char **, size_t *, int, FILE *, L, L, L, L, L *);
ssize_t __dfsw___getdelim(char **, size_t *, int, FILE *, L, L, L, L, L *);
void *__dfsw_mmap(void *, size_t, int, int, int, off_t, L, L, L, L, L, L, L *);
int __dfsw_munmap(void *, size_t, L, L, L *);
ssize_t __dfsw_write(int, void *, size_t, L, L, L, L *);
size_t __dfsw_fwrite(void *, size_t, size_t, FILE *, L, L, L, L, L *);
int __dfsw_putc(int, FILE *, L, L, L *);
int __dfsw_fputc(int, FILE *, L, L, L *);
ssize_t __dfsw_send(int, void *, size_t, int, L, L, L, L, L *);
ssize_t __dfsw_recv(int, void *, size_t, int, L, L, L, L, L *);
ssize_t __dfsw_recvfrom(int, void *, size_t, int, struct sockaddr *, socklen_t *, L, L, L, L, L, L, L *);
int __dfsw_accept(int, struct sockaddr *, socklen_t *, L, L, L, L *);
int __dfsw_accept4(int, struct sockaddr *, socklen_t *, int, L, L, L, L, L *);
int __dfsw_connect(int, const struct sockaddr *, socklen_t, L, L, L, L *);
void __dfsw_exit(int, L);
void __dfsw___assert_fail(const char *, const char *, unsigned, const char *, L, L, L, L);

void *__dfsw_malloc(size_t, L, L *);
void *__dfsw_realloc(void *, size_t, L, L, L *);
void __dfsw_free(void *, L);
void *__dfsw_calloc(size_t, size_t, L, L, L *);
char *__dfsw_strdup(const char *, L, L *);
void *__dfsw_memcpy(void *, const void *, size_t, L, L, L, L *);
void *__dfsw_memmove(void *, const void *, size_t, L, L, L, L *);
void *__dfsw_memset(void *, int, size_t, L, L, L, L *);
char *__dfsw_strcpy(char *, const char *, L, L, L *);
char *__dfsw_strncpy(char *, const char *, size_t, L, L, L, L *);
char *__dfsw_strcat(char *, const char *, L, L, L *);
int __dfsw_sprintf(char *, const char *, L, L, L *, L *, ...);
int __dfsw_snprintf(char *, size_t, const char *, L, L, L, L *, L *, ...);
int __dfsw_memcmp(const void *, const void *, size_t, L, L, L, L *);
int __dfsw_bcmp(const void *, const void *, size_t, L, L, L, L *);
int __dfsw_strcmp(const char *, const char *, L, L, L *);
int __dfsw_strcasecmp(const char *, const char *, L, L, L *);
int __dfsw_strncmp(const char *, const char *, size_t, L, L, L, L *);
int __dfsw_strncasecmp(const char *, const char *, size_t, L, L, L, L *);
size_t __dfsw_strlen(const char *, L, L *);
char *__dfsw_strchr(const char *, int, L, L, L *);
void *__dfsw_memchr(void *, int, size_t, L, L, L, L *);
char *__dfsw_strrchr(char *, int, L, L, L *);
char *__dfsw_strstr(char *, char *, L, L, L *);
char *__dfsw_strpbrk(const char *, const char *, L, L, L *);
long __dfsw_strtol(const char *, char **, int, L, L, L, L *);
long long __dfsw_strtoll(const char *, char **, int, L, L, L, L *);
unsigned long __dfsw_strtoul(const char *, char **, int, L, L, L, L *);
unsigned long long __dfsw_strtoull(const char *, char **, int, L, L, L, L *);
double __dfsw_strtod(const char *, char **, L, L, L *);
int __dfsw_inet_pton(int, const char *, void *, L, L, L, L *);
ssize_t __getdelim(char **, size_t *, int, FILE *);
}

constexpr size_t ASIZE = 8192;
alignas(4096) static unsigned char A[ASIZE];
static unsigned char SA[ASIZE];
static L SL[ASIZE];
static int outfd;
static bool plain, started;
static int D[16];
static FILE *F[16];
struct Mem {
  char *p;
  size_t n;
};
static Mem M[8], H[8];
static char *line_ptr[4];
static size_t line_cap[4];
static std::vector<args_t> ops;
static size_t next_op;
static std::vector<std::pair<size_t, size_t>> at_exit; // ranges of operations

static void out(std::string const &s0) {
  std::string s = s0 + "\n";
  size_t i = 0;
  while (i < s.size()) {
    ssize_t n = ::write(outfd, s.data() + i, s.size() - i);
    if (n <= 0)
      _exit(77);
    i += n;
  }
}

static std::string N(int64_t v) { return std::to_string(v); }
static std::string U(uint64_t v) { return std::to_string(v); }

// run-length form: "v+n" counts up from v, "v*n" repeats v
static std::string runs(std::vector<L> const &v) {
  std::string r;
  size_t i = 0;
  while (i < v.size()) {
    size_t j = i + 1, k = i + 1;
    while (j < v.size() && v[j] == v[i])
      ++j;
    while (k < v.size() && v[k] == v[k - 1] + 1)
      ++k;
    if (!r.empty())
      r += ".";
    if (k - i > j - i) {
      r += U(v[i]) + "+" + U(k - i);
      i = k;
    } else {
      r += U(v[i]) + "*" + U(j - i);
      i = j;
    }
  }
  return r.empty() ? "-" : r;
}
static std::vector<L> labels_of(void const *p, size_t n) {
  std::vector<L> r;
  for (size_t i = 0; i < n; ++i)
    r.push_back(dfsan_read_label(static_cast<char const *>(p) + i, 1));
  return r;
}

// What changed in the arena since the last report
static std::string changes() {
  std::string d, l;
  for (size_t i = 0; i < ASIZE;) {
    if (A[i] == SA[i]) {
      ++i;
      continue;
    }
    size_t j = i;
    while (j < ASIZE && A[j] != SA[j])
      ++j;
    d += (d.empty() ? "" : ",") + U(i) + ":" + hex(A + i, j - i);
    i = j;
  }
  memcpy(SA, A, ASIZE);
  if (!plain) {
    auto cur = labels_of(A, ASIZE);
    for (size_t i = 0; i < ASIZE;) {
      if (cur[i] == SL[i]) {
        ++i;
        continue;
      }
      size_t j = i;
      while (j < ASIZE && cur[j] != SL[j])
        ++j;
      l += (l.empty() ? "" : ",") + U(i) + ":" + runs(std::vector<L>(cur.begin() + i, cur.begin() + j));
      i = j;
    }
    memcpy(SL, cur.data(), sizeof SL);
  }
  return " D=" + (d.empty() ? "-" : d) + " L=" + (l.empty() ? "-" : l);
}

static char *P(std::string const &s) { // "a<off>" arena, "n" null
  if (s == "n")
    return nullptr;
  if (s[0] == 'h')
    return H[u64(s.substr(1))].p;
  return reinterpret_cast<char *>(A) + u64(s.substr(1));
}
static int fdof(std::string const &s) {
  if (s[0] == '#')
    return int(i64(s.substr(1)));
  return D[u64(s) & 15];
}
static FILE *fileof(std::string const &s) {
  if (s == "i")
    return stdin;
  if (s == "o")
    return stdout;
  if (s == "e")
    return stderr;
  return F[u64(s) & 15];
}
static std::string ptr(void const *p) {
  if (!p)
    return "null";
  auto q = reinterpret_cast<uintptr_t>(p), b = reinterpret_cast<uintptr_t>(A);
  if (q >= b && q <= b + ASIZE)
    return "a" + U(q - b);
  return "other";
}

#define CALL(f, wargs, pargs) (plain ? f pargs : __dfsw_##f wargs)

static volatile int busy_stop;
static void *busy_thread(void *) {
  L x = dfsan_read_label(A, 1), y = dfsan_read_label(A + 5, 1);
  uint32_t i = 0;
  while (!busy_stop) {
    __polytracker_log_conditional_branch(x);
    __dfsw___polytracker_log_tainted_control_flow(1, 3, x, 0, &y);
    __polytracker_enter_function(i++ & 255);
    usleep(1);
  }
  return nullptr;
}
static void *exit_thread(void *p) {
  __dfsw_exit(int(reinterpret_cast<intptr_t>(p)), 0);
  return nullptr;
}
__attribute__((noinline)) static int nested(int d, int code) {
  if (d == 0)
    __dfsw_exit(code, 0);
  volatile int r = nested(d - 1, code);
  return r + 1;
}

static void run_range(size_t b, size_t e);
static void exit_handler() {
  if (at_exit.empty())
    return;
  auto r = at_exit.back();
  at_exit.pop_back();
  run_range(r.first, r.second);
}

static std::string sockname(int fd) {
  sockaddr_in l{}, r{};
  socklen_t ll = sizeof l, rl = sizeof r;
  char a[64], b[64];
  getsockname(fd, (sockaddr *)&l, &ll);
  if (getpeername(fd, (sockaddr *)&r, &rl) != 0)
    return "-";
  inet_ntop(AF_INET, &l.sin_addr, a, sizeof a);
  inet_ntop(AF_INET, &r.sin_addr, b, sizeof b);
  char t[200];
  ::snprintf(t, sizeof t, "socket:%s:%d-%s:%d", a, ntohs(l.sin_port), b, ntohs(r.sin_port));
  return t;
}
static sockaddr_in addr_of(int fd) {
  sockaddr_in l{};
  socklen_t n = sizeof l;
  getsockname(fd, (sockaddr *)&l, &n);
  return l;
}

// Runs one operation and returns the answer
static std::string run(args_t const &a) {
  auto const &o = a[0];
  std::string pre, x;
  L rl = 0xdeadbeef, z = 0;
  std::string r = "?";
  int e = 0;
  bool rep = true;
  auto res = [&](std::string v) { r = v; };
  auto lab = [&](size_t i) -> L { return i < a.size() ? L(u64(a[i])) : 0; };
  errno = 0;
#define DONE_ERRNO e = errno
  if (o == "iff" || o == "ifm") { // only with that stream or mapping
    auto k = u64(a[1]);
    if (o == "iff" ? F[k & 15] == nullptr : M[k & 7].p == nullptr)
      return "r=skip e=0 rl=0 D=- L=-";
    return run(args_t(a.begin() + 2, a.end()));
  }
  if (o == "poke") { // poke off hex
    auto d = unhex(a[2]);
    memcpy(A + u64(a[1]), d.data(), d.size());
    res("0");
    rl = 0;
  } else if (o == "lab") { // lab off n label step
    for (size_t i = 0; i < u64(a[2]); ++i)
      dfsan_set_label(L(u64(a[3]) + i * u64(a[4])), A + u64(a[1]) + i, 1);
    res("0");
    rl = 0;
  } else if (o == "start") {
    __taint_start();
    started = true;
    res("0");
  } else if (o == "open") { // open slot path flags mode variant
    auto p = unhex(a[2]);
    int fl = int(i64(a[3]));
    int fd;
    bool at = a[5].compare(0, 2, "at") == 0;
    int dir = a[5].size() > 3 ? fdof(a[5].substr(3)) : AT_FDCWD; // "at" or "at:<slot>"
    if (plain)
      fd = at ? openat(dir, p.c_str(), fl, mode_t(u64(a[4]))) : open(p.c_str(), fl, mode_t(u64(a[4])));
    else if ((fl & O_CREAT) || (fl & O_TMPFILE) == O_TMPFILE)
      fd = at   ? __dfsw_openat(dir, p.c_str(), fl, 0, 0, 0, nullptr, &rl, mode_t(u64(a[4])))
           : a[5] == "64" ? __dfsw_open64(p.c_str(), fl, 0, 0, nullptr, &rl, mode_t(u64(a[4])))
                          : __dfsw_open(p.c_str(), fl, 0, 0, nullptr, &rl, mode_t(u64(a[4])));
    else
      fd = at   ? __dfsw_openat(dir, p.c_str(), fl, 0, 0, 0, nullptr, &rl)
           : a[5] == "64" ? __dfsw_open64(p.c_str(), fl, 0, 0, nullptr, &rl)
                          : __dfsw_open(p.c_str(), fl, 0, 0, nullptr, &rl);
    DONE_ERRNO;
    D[u64(a[1]) & 15] = fd;
    res(N(fd));
  } else if (o == "rawopen") { // not intercepted: the descriptor is untracked
    int fd = open(unhex(a[2]).c_str(), int(i64(a[3])), mode_t(u64(a[4])));
    DONE_ERRNO;
    D[u64(a[1]) & 15] = fd;
    res(N(fd));
    rl = 0;
  } else if (o == "fopen") { // fopen slot path mode variant
    auto p = unhex(a[2]);
    FILE *f = plain            ? fopen(p.c_str(), a[3].c_str())
              : a[4] == "64" ? __dfsw_fopen64(p.c_str(), a[3].c_str(), 0, 0, &rl)
                             : __dfsw_fopen(p.c_str(), a[3].c_str(), 0, 0, &rl);
    DONE_ERRNO;
    F[u64(a[1]) & 15] = f;
    res(f ? N(fileno(f)) : "null");
  } else if (o == "rawfopen") {
    FILE *f = fopen(unhex(a[2]).c_str(), a[3].c_str());
    DONE_ERRNO;
    F[u64(a[1]) & 15] = f;
    res(f ? N(fileno(f)) : "null");
    rl = 0;
  } else if (o == "fmemopen") { // fmemopen slot aoff n: a stream without a descriptor
    F[u64(a[1]) & 15] = fmemopen(P(a[2]), u64(a[3]), "r");
    res("0");
    rl = 0;
  } else if (o == "setvbuf") { // setvbuf slot mode(0 full 1 line 2 none) size
    res(N(setvbuf(F[u64(a[1]) & 15], nullptr, a[2] == "0" ? _IOFBF : a[2] == "1" ? _IOLBF : _IONBF, u64(a[3]))));
    rl = 0;
  } else if (o == "close") {
    int fd = fdof(a[1]);
    res(N(CALL(close, (fd, 0, &rl), (fd))));
    DONE_ERRNO;
    if (a[1][0] != '#')
      D[u64(a[1]) & 15] = -1;
  } else if (o == "rawclose") {
    int fd = fdof(a[1]);
    res(N(close(fd)));
    DONE_ERRNO;
    if (a[1][0] != '#')
      D[u64(a[1]) & 15] = -1;
    rl = 0;
  } else if (o == "fclose") {
    FILE *f = fileof(a[1]);
    res(N(CALL(fclose, (f, 0, &rl), (f))));
    DONE_ERRNO;
    F[u64(a[1]) & 15] = nullptr;
  } else if (o == "lseek") {
    int w = int(i64(a[3]));
    res(N(lseek(fdof(a[1]), i64(a[2]), w)));
    DONE_ERRNO;
    rl = 0;
  } else if (o == "fseek") {
    res(N(fseeko(fileof(a[1]), i64(a[2]), int(i64(a[3])))));
    DONE_ERRNO;
    rl = 0;
  } else if (o == "fflush") {
    res(N(fflush(fileof(a[1]))));
    DONE_ERRNO;
    rl = 0;
  } else if (o == "tell") {
    res(N(lseek(fdof(a[1]), 0, SEEK_CUR)));
    DONE_ERRNO;
    rl = 0;
  } else if (o == "ftell") {
    FILE *f = fileof(a[1]);
    res(N(ftello(f)) + "/" + N(feof(f) != 0) + "/" + N(ferror(f) != 0));
    rl = 0;
  } else if (o == "ungetc") {
    res(N(ungetc(int(i64(a[2])), fileof(a[1]))));
    rl = 0;
  } else if (o == "fdstat") { // mode, size and flags of a descriptor
    struct stat st {};
    int fd = fdof(a[1]);
    if (fstat(fd, &st))
      res("-1");
    else
      res(N(st.st_mode) + "/" + N(st.st_size) + "/" + N(fcntl(fd, F_GETFL)) + "/" + N(fcntl(fd, F_GETFD)));
    rl = 0;
  } else if (o == "clearerr") {
    clearerr(fileof(a[1]));
    res("0");
    rl = 0;
  } else if (o == "ftruncate") {
    res(N(ftruncate(fdof(a[1]), i64(a[2]))));
    rl = 0;
  } else if (o == "read") { // read fd ptr n
    int fd = fdof(a[1]);
    size_t n = u64(a[3]);
    res(N(CALL(read, (fd, P(a[2]), n, 0, 0, 0, &rl), (fd, P(a[2]), n))));
    DONE_ERRNO;
  } else if (o == "pread") { // pread fd ptr n off variant
    int fd = fdof(a[1]);
    size_t n = u64(a[3]);
    off_t off = i64(a[4]);
    res(N(plain          ? pread(fd, P(a[2]), n, off)
          : a[5] == "64" ? __dfsw_pread64(fd, P(a[2]), n, off, 0, 0, 0, 0, &rl)
                         : __dfsw_pread(fd, P(a[2]), n, off, 0, 0, 0, 0, &rl)));
    DONE_ERRNO;
  } else if (o == "fread") { // fread f ptr size count variant
    FILE *f = fileof(a[1]);
    size_t s = u64(a[3]), c = u64(a[4]);
    if (a[5] == "u")
      res(U(CALL(fread_unlocked, (P(a[2]), s, c, f, 0, 0, 0, 0, &rl), (P(a[2]), s, c, f))));
    else
      res(U(CALL(fread, (P(a[2]), s, c, f, 0, 0, 0, 0, &rl), (P(a[2]), s, c, f))));
    DONE_ERRNO;
  } else if (o == "getc") { // getc f variant
    FILE *f = fileof(a[1]);
    int c;
    auto const &v = a[2];
    if (plain)
      c = fgetc(f);
    else if (v == "fgetc")
      c = __dfsw_fgetc(f, 0, &rl);
    else if (v == "fgetc_unlocked")
      c = __dfsw_fgetc_unlocked(f, 0, &rl);
    else if (v == "_IO_getc")
      c = __dfsw__IO_getc(f, 0, &rl);
    else if (v == "getc")
      c = __dfsw_getc(f, 0, &rl);
    else if (v == "getc_unlocked")
      c = __dfsw_getc_unlocked(f, 0, &rl);
    else if (v == "getchar")
      c = __dfsw_getchar(&rl);
    else
      c = __dfsw_getchar_unlocked(&rl);
    DONE_ERRNO;
    res(N(c));
    if (a.size() > 3 && c != EOF) { // as the instrumented program stores it
      A[u64(a[3])] = static_cast<unsigned char>(c);
      if (!plain)
        dfsan_set_label(rl, A + u64(a[3]), 1);
    }
  } else if (o == "fgets") { // fgets f ptr n
    FILE *f = fileof(a[1]);
    int n = int(i64(a[3]));
    res(ptr(CALL(fgets, (P(a[2]), n, f, lab(4), 0, 0, &rl), (P(a[2]), n, f))));
    DONE_ERRNO;
  } else if (o == "getdelim") { // getdelim f lineslot delim variant
    FILE *f = fileof(a[1]);
    size_t k = u64(a[2]) & 3;
    int d = int(i64(a[3]));
    ssize_t n = plain           ? getdelim(&line_ptr[k], &line_cap[k], d, f)
                : a[4] == "__" ? __dfsw___getdelim(&line_ptr[k], &line_cap[k], d, f, 0, 0, 0, 0, &rl)
                               : __dfsw_getdelim(&line_ptr[k], &line_cap[k], d, f, 0, 0, 0, 0, &rl);
    DONE_ERRNO;
    res(N(n));
    if (n >= 0) {
      x += " B=" + hex(line_ptr[k], n + 1);
      if (!plain)
        x += " BL=" + runs(labels_of(line_ptr[k], n));
    }
  } else if (o == "mmap") { // mmap slot len prot flags fd off
    size_t k = u64(a[1]) & 7, n = u64(a[2]);
    int prot = int(i64(a[3])), fl = int(i64(a[4])), fd = fdof(a[5]);
    off_t off = i64(a[6]);
    void *p = CALL(mmap, (nullptr, n, prot, fl, fd, off, 0, 0, 0, 0, 0, 0, &rl), (nullptr, n, prot, fl, fd, off));
    DONE_ERRNO;
    if (p == MAP_FAILED)
      res("failed");
    else {
      res("ok");
      M[k] = {static_cast<char *>(p), n};
      if (!plain)
        x += " BL=" + runs(labels_of(p, n));
    }
  } else if (o == "munmap") { // munmap slot len(-1: all) delta
    size_t k = u64(a[1]) & 7;
    auto m = M[k];
    size_t n = i64(a[2]) < 0 ? m.n : u64(a[2]);
    char *p = m.p + i64(a[3]);
    res(N(CALL(munmap, (p, n, 0, 0, &rl), (p, n))));
    DONE_ERRNO;
    if (!plain)
      x += " BL=" + runs(labels_of(m.p, m.n));
    if (r == "0")
      M[k] = {nullptr, 0};
  } else if (o == "mget") { // mget slot off ptr n: program copies from a mapping
    size_t k = u64(a[1]) & 7;
    __dfsw_memcpy(P(a[3]), M[k].p + u64(a[2]), u64(a[4]), 0, 0, 0, &rl);
    res("0");
    rl = 0;
  } else if (o == "mcopy") { // contents of a mapping, as far as the file reaches
    size_t k = u64(a[1]) & 7;
    std::string d;
    int p[2];
    if (pipe(p) == 0) { // a pipe tells faulting pages from others
      for (size_t i = 0; i < M[k].n; i += 4096) {
        size_t n = std::min<size_t>(4096, M[k].n - i);
        char b[4096];
        if (::write(p[1], M[k].p + i, n) != ssize_t(n))
          break;
        if (::read(p[0], b, n) != ssize_t(n))
          break;
        d.append(b, n);
      }
      close(p[0]);
      close(p[1]);
    }
    x = " B=" + (d.empty() ? std::string("-") : hex(d.data(), d.size()));
    res("0");
    rl = 0;
  } else if (o == "mlab") { // labels of a mapping
    size_t k = u64(a[1]) & 7;
    x += " BL=" + runs(labels_of(M[k].p, M[k].n));
    res("0");
    rl = 0;
  } else if (o == "write") { // write fd ptr n
    int fd = fdof(a[1]);
    size_t n = u64(a[3]);
    res(N(CALL(write, (fd, P(a[2]), n, 0, 0, 0, &rl), (fd, P(a[2]), n))));
    DONE_ERRNO;
  } else if (o == "fwrite") { // fwrite f ptr size count
    FILE *f = fileof(a[1]);
    size_t s = u64(a[3]), c = u64(a[4]);
    res(U(CALL(fwrite, (P(a[2]), s, c, f, 0, 0, 0, 0, &rl), (P(a[2]), s, c, f))));
    DONE_ERRNO;
  } else if (o == "mput") { // mput f ptr: one byte of memory through fputc
    FILE *f = fileof(a[1]);
    uint8_t c = uint8_t(*P(a[2]));
    res(N(plain ? fputc(c, f) : __dfsw_fputc(c, f, dfsan_read_label(P(a[2]), 1), 0, &rl)));
    DONE_ERRNO;
  } else if (o == "putc") { // putc f ch label variant
    FILE *f = fileof(a[1]);
    int c = int(i64(a[2]));
    res(N(plain           ? fputc(c, f)
          : a[4] == "fputc" ? __dfsw_fputc(c, f, lab(3), 0, &rl)
                          : __dfsw_putc(c, f, lab(3), 0, &rl)));
    DONE_ERRNO;
  } else if (o == "limit") { // the process may not write files beyond this size
    signal(SIGXFSZ, SIG_IGN);
    rlimit lim{u64(a[1]), RLIM_INFINITY};
    if (a[1] == "-")
      lim.rlim_cur = RLIM_INFINITY;
    res(N(setrlimit(RLIMIT_FSIZE, &lim)));
    rl = 0;
  } else if (o == "listen") { // listen slot
    int s = socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in ad{};
    ad.sin_family = AF_INET;
    ad.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (s < 0 || bind(s, (sockaddr *)&ad, sizeof ad) || listen(s, 8))
      res("nonet");
    else
      res("0");
    D[u64(a[1]) & 15] = s;
    rl = 0;
  } else if (o == "connect") { // connect slot listenslot
    int s = socket(AF_INET, SOCK_STREAM, 0);
    auto ad = addr_of(fdof(a[2]));
    res(N(CALL(connect, (s, (sockaddr *)&ad, sizeof ad, 0, 0, 0, &rl), (s, (sockaddr *)&ad, sizeof ad))));
    DONE_ERRNO;
    D[u64(a[1]) & 15] = s;
    x = " S=" + sockname(s) + " FD=" + N(s);
  } else if (o == "connectfd") { // connect an existing descriptor to a listener
    int s = fdof(a[1]);
    auto ad = addr_of(fdof(a[2]));
    res(N(CALL(connect, (s, (sockaddr *)&ad, sizeof ad, 0, 0, 0, &rl), (s, (sockaddr *)&ad, sizeof ad))));
    DONE_ERRNO;
  } else if (o == "accept") { // accept slot listenslot variant
    sockaddr_in ad{};
    socklen_t n = sizeof ad;
    int l = fdof(a[2]), s;
    if (a[3][0] == 'c')
      n = 7; // room for part of the address
    auto *adp = a[3] == "n" ? nullptr : (sockaddr *)&ad;
    auto *np = a[3] == "n" ? nullptr : &n;
    int fl = a[3] == "4" ? SOCK_CLOEXEC : SOCK_NONBLOCK;
    if (a[3] == "4" || a[3] == "4b")
      s = CALL(accept4, (l, adp, np, fl, 0, 0, 0, 0, &rl), (l, adp, np, fl));
    else
      s = CALL(accept, (l, adp, np, 0, 0, 0, &rl), (l, adp, np));
    DONE_ERRNO;
    D[u64(a[1]) & 15] = s;
    res(s >= 0 ? "0" : "-1");
    x = " S=" + (s >= 0 ? sockname(s) : std::string("-")) + " FD=" + N(s);
    if (s >= 0) {
      sockaddr_in peer{};
      socklen_t pn = sizeof peer;
      getpeername(s, (sockaddr *)&peer, &pn);
      x += " A=" + N(fcntl(s, F_GETFD)) + "/" + N(fcntl(s, F_GETFL)) + "/" + N(n) + "/" +
           N(memcmp(&ad, &peer, 7) == 0) + N(memcmp(&ad, &peer, sizeof ad) == 0);
    }
  } else if (o == "udp") { // udp slot1 slot2: two connected datagram sockets, both through connect()
    int s1 = socket(AF_INET, SOCK_DGRAM, 0), s2 = socket(AF_INET, SOCK_DGRAM, 0);
    sockaddr_in ad{};
    ad.sin_family = AF_INET;
    ad.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    bind(s1, (sockaddr *)&ad, sizeof ad);
    bind(s2, (sockaddr *)&ad, sizeof ad);
    auto a1 = addr_of(s1), a2 = addr_of(s2);
    int r1 = CALL(connect, (s1, (sockaddr *)&a2, sizeof a2, 0, 0, 0, &rl), (s1, (sockaddr *)&a2, sizeof a2));
    int r2 = CALL(connect, (s2, (sockaddr *)&a1, sizeof a1, 0, 0, 0, &rl), (s2, (sockaddr *)&a1, sizeof a1));
    D[u64(a[1]) & 15] = s1;
    D[u64(a[2]) & 15] = s2;
    res(N(r1 | r2));
    x = " S=" + sockname(s1) + " T=" + sockname(s2) + " FD=" + N(s1) + " FE=" + N(s2);
  } else if (o == "unixpair") { // untracked stream pair
    int s[2];
    socketpair(AF_UNIX, SOCK_STREAM, 0, s);
    D[u64(a[1]) & 15] = s[0];
    D[u64(a[2]) & 15] = s[1];
    res("0");
    rl = 0;
  } else if (o == "pipe") { // untracked
    int s[2];
    if (pipe(s))
      res("-1");
    D[u64(a[1]) & 15] = s[0];
    D[u64(a[2]) & 15] = s[1];
    res("0");
    rl = 0;
  } else if (o == "send") { // send fd ptr n flags
    int fd = fdof(a[1]), fl = int(i64(a[4]));
    size_t n = u64(a[3]);
    res(N(CALL(send, (fd, P(a[2]), n, fl, 0, 0, 0, 0, &rl), (fd, P(a[2]), n, fl))));
    DONE_ERRNO;
  } else if (o == "recv") { // recv fd ptr n flags variant
    int fd = fdof(a[1]), fl = int(i64(a[4]));
    size_t n = u64(a[3]);
    if (a[5] == "addr") {
      sockaddr_in ad{}, peer{};
      socklen_t an = sizeof ad, pn = sizeof peer;
      res(N(CALL(recvfrom, (fd, P(a[2]), n, fl, (sockaddr *)&ad, &an, 0, 0, 0, 0, 0, 0, &rl),
                 (fd, P(a[2]), n, fl, (sockaddr *)&ad, &an))));
      DONE_ERRNO;
      getpeername(fd, (sockaddr *)&peer, &pn);
      x = " A=" + N(an) + "/" + N(ad.sin_family) + "/" + N(memcmp(&ad, &peer, sizeof ad) == 0);
    } else if (a[5] == "from")
      res(N(CALL(recvfrom, (fd, P(a[2]), n, fl, nullptr, nullptr, 0, 0, 0, 0, 0, 0, &rl),
                 (fd, P(a[2]), n, fl, nullptr, nullptr))));
    else
      res(N(CALL(recv, (fd, P(a[2]), n, fl, 0, 0, 0, 0, &rl), (fd, P(a[2]), n, fl))));
    if (a[5] != "addr")
      DONE_ERRNO;
  } else if (o == "shutdown") {
    res(N(shutdown(fdof(a[1]), SHUT_WR)));
    rl = 0;
  }
  // ---- memory and strings ------------------------------------------------
  else if (o == "memcpy")
    res(ptr(CALL(memcpy, (P(a[1]), P(a[2]), u64(a[3]), lab(4), lab(5), lab(6), &rl), (P(a[1]), P(a[2]), u64(a[3])))));
  else if (o == "memmove")
    res(ptr(CALL(memmove, (P(a[1]), P(a[2]), u64(a[3]), lab(4), lab(5), lab(6), &rl), (P(a[1]), P(a[2]), u64(a[3])))));
  else if (o == "memset") // memset ptr c n clabel
    res(ptr(CALL(memset, (P(a[1]), int(i64(a[2])), u64(a[3]), 0, lab(4), 0, &rl), (P(a[1]), int(i64(a[2])), u64(a[3])))));
  else if (o == "strcpy")
    res(ptr(CALL(strcpy, (P(a[1]), P(a[2]), lab(3), lab(4), &rl), (P(a[1]), P(a[2])))));
  else if (o == "strncpy")
    res(ptr(CALL(strncpy, (P(a[1]), P(a[2]), u64(a[3]), lab(4), lab(5), 0, &rl), (P(a[1]), P(a[2]), u64(a[3])))));
  else if (o == "strcat")
    res(ptr(CALL(strcat, (P(a[1]), P(a[2]), lab(3), lab(4), &rl), (P(a[1]), P(a[2])))));
  else if (o == "snprintf" || o == "sprintf") { // ptr size fmt labels(,) i1 i2 i3 d1 d2 d3
    auto fmt = unhex(a[3]);
    std::vector<L> vl(16, 0);
    size_t k = 0;
    for (size_t i = 0; i < a[4].size() && a[4] != "-";) {
      vl[k++] = L(strtoul(a[4].c_str() + i, nullptr, 10));
      i = a[4].find(',', i);
      if (i == std::string::npos)
        break;
      ++i;
    }
    uint64_t iv[3];
    for (int i = 0; i < 3; ++i)
      iv[i] = a[5 + i][0] == 'a' ? reinterpret_cast<uint64_t>(P(a[5 + i])) : uint64_t(i64(a[5 + i]));
    double dv[3];
    for (int i = 0; i < 3; ++i)
      dv[i] = strtod(a[8 + i].c_str(), nullptr);
    int n;
    errno = 0;
    if (o == "sprintf")
      n = plain ? sprintf(P(a[1]), fmt.c_str(), iv[0], iv[1], iv[2], dv[0], dv[1], dv[2])
                : __dfsw_sprintf(P(a[1]), fmt.c_str(), 0, 0, vl.data(), &rl, iv[0], iv[1], iv[2], dv[0], dv[1], dv[2]);
    else
      n = plain ? snprintf(P(a[1]), u64(a[2]), fmt.c_str(), iv[0], iv[1], iv[2], dv[0], dv[1], dv[2])
                : __dfsw_snprintf(P(a[1]), u64(a[2]), fmt.c_str(), 0, 0, 0, vl.data(), &rl, iv[0], iv[1], iv[2], dv[0],
                                  dv[1], dv[2]);
    res(N(n));
  } else if (o == "malloc" || o == "calloc" || o == "realloc" || o == "strdup") {
    size_t k = u64(a[1]) & 7;
    char *p;
    size_t n;
    if (o == "malloc") {
      n = u64(a[2]);
      p = static_cast<char *>(CALL(malloc, (n, 0, &rl), (n)));
    } else if (o == "calloc") {
      n = u64(a[2]) * u64(a[3]);
      p = static_cast<char *>(CALL(calloc, (u64(a[2]), u64(a[3]), 0, 0, &rl), (u64(a[2]), u64(a[3]))));
    } else if (o == "realloc") {
      n = u64(a[2]);
      p = static_cast<char *>(CALL(realloc, (H[k].p, n, 0, 0, &rl), (H[k].p, n)));
    } else {
      p = CALL(strdup, (P(a[2]), 0, &rl), (P(a[2])));
      n = p ? strlen(p) + 1 : 0;
    }
    DONE_ERRNO;
    res(p ? "ok" : "null");
    if (p || o != "realloc" || n == 0)
      H[k] = {p, p ? n : 0};
    x += " B=" + (H[k].p && H[k].n ? hex(H[k].p, H[k].n) : std::string("-"));
    if (!plain)
      x += " BL=" + (H[k].p ? runs(labels_of(H[k].p, H[k].n)) : std::string("-"));
  } else if (o == "free") {
    size_t k = u64(a[1]) & 7;
    if (plain)
      free(H[k].p);
    else
      __dfsw_free(H[k].p, 0);
    H[k] = {nullptr, 0};
    res("0");
    rl = 0;
  } else if (o == "hlab") { // contents and labels of a heap block
    size_t k = u64(a[1]) & 7;
    x += " B=" + (H[k].p && H[k].n ? hex(H[k].p, H[k].n) : std::string("-"));
    if (!plain)
      x += " BL=" + (H[k].p ? runs(labels_of(H[k].p, H[k].n)) : std::string("-"));
    res(H[k].p ? "ok" : "null");
    rl = 0;
  } else if (o == "hput") { // hput slot off ptr n
    __dfsw_memcpy(H[u64(a[1]) & 7].p + u64(a[2]), P(a[3]), u64(a[4]), 0, 0, 0, &rl);
    res("0");
    rl = 0;
  } else if (o == "hget") { // hget slot off ptr n
    __dfsw_memcpy(P(a[3]), H[u64(a[1]) & 7].p + u64(a[2]), u64(a[4]), 0, 0, 0, &rl);
    res("0");
    rl = 0;
  } else if (o == "memcmp")
    res(N(CALL(memcmp, (P(a[1]), P(a[2]), u64(a[3]), lab(4), lab(5), lab(6), &rl), (P(a[1]), P(a[2]), u64(a[3])))));
  else if (o == "bcmp")
    res(N(CALL(bcmp, (P(a[1]), P(a[2]), u64(a[3]), lab(4), lab(5), lab(6), &rl), (P(a[1]), P(a[2]), u64(a[3])))));
  else if (o == "strcmp")
    res(N(CALL(strcmp, (P(a[1]), P(a[2]), lab(4), lab(5), &rl), (P(a[1]), P(a[2])))));
  else if (o == "strcasecmp")
    res(N(CALL(strcasecmp, (P(a[1]), P(a[2]), lab(4), lab(5), &rl), (P(a[1]), P(a[2])))));
  else if (o == "strncmp")
    res(N(CALL(strncmp, (P(a[1]), P(a[2]), u64(a[3]), lab(4), lab(5), lab(6), &rl), (P(a[1]), P(a[2]), u64(a[3])))));
  else if (o == "strncasecmp")
    res(N(CALL(strncasecmp, (P(a[1]), P(a[2]), u64(a[3]), lab(4), lab(5), lab(6), &rl), (P(a[1]), P(a[2]), u64(a[3])))));
  else if (o == "strlen")
    res(U(CALL(strlen, (P(a[1]), lab(4), &rl), (P(a[1])))));
  else if (o == "strchr")
    res(ptr(CALL(strchr, (P(a[1]), int(i64(a[2])), lab(4), lab(5), &rl), (P(a[1]), int(i64(a[2]))))));
  else if (o == "memchr")
    res(ptr(CALL(memchr, (P(a[1]), int(i64(a[2])), u64(a[3]), lab(4), lab(5), lab(6), &rl),
                 (P(a[1]), int(i64(a[2])), u64(a[3])))));
  else if (o == "strrchr")
    res(ptr(CALL(strrchr, (P(a[1]), int(i64(a[2])), lab(4), lab(5), &rl), (P(a[1]), int(i64(a[2]))))));
  else if (o == "strstr")
    res(ptr(CALL(strstr, (P(a[1]), P(a[2]), lab(4), lab(5), &rl), (P(a[1]), P(a[2])))));
  else if (o == "strpbrk")
    res(ptr(CALL(strpbrk, (P(a[1]), P(a[2]), lab(4), lab(5), &rl), (P(a[1]), P(a[2])))));
  else if (o.compare(0, 4, "strt") == 0) { // strtol ptr base end(0/1)
    char *end = nullptr;
    char **ep = a[3] == "1" ? &end : nullptr;
    int b = int(i64(a[2]));
    if (o == "strtol")
      r = N(CALL(strtol, (P(a[1]), ep, b, lab(4), lab(5), lab(6), &rl), (P(a[1]), ep, b)));
    else if (o == "strtoll")
      r = N(CALL(strtoll, (P(a[1]), ep, b, lab(4), lab(5), lab(6), &rl), (P(a[1]), ep, b)));
    else if (o == "strtoul")
      r = U(CALL(strtoul, (P(a[1]), ep, b, lab(4), lab(5), lab(6), &rl), (P(a[1]), ep, b)));
    else if (o == "strtoull")
      r = U(CALL(strtoull, (P(a[1]), ep, b, lab(4), lab(5), lab(6), &rl), (P(a[1]), ep, b)));
    else {
      double v = CALL(strtod, (P(a[1]), ep, lab(4), lab(5), &rl), (P(a[1]), ep));
      uint64_t u;
      memcpy(&u, &v, 8);
      r = U(u);
    }
    DONE_ERRNO;
    x = " E=" + ptr(end);
  } else if (o == "inet_pton") { // af src dst
    res(N(CALL(inet_pton, (int(i64(a[1])), P(a[2]), P(a[3]), 0, 0, 0, &rl), (int(i64(a[1])), P(a[2]), P(a[3])))));
    DONE_ERRNO;
  }
  // ---- runtime interface -------------------------------------------------
  else if (o == "union")
    res(U(plain ? 0 : dfsan_union(L(u64(a[1])), L(u64(a[2])))));
  else if (o == "utab") {
    L l1 = L(u64(a[1])), l2 = L(u64(a[2]));
    res(U(plain ? 0 : __polytracker_union_table(l1, l2)));
  } else if (o == "rdlab")
    res(U(plain ? 0 : dfsan_read_label(P(a[1]), u64(a[2]))));
  else if (o == "comb") { // comb dst s1 s2: A[dst] = A[s1] + A[s2]
    A[u64(a[1])] = A[u64(a[2])] + A[u64(a[3])];
    if (!plain)
      dfsan_set_label(dfsan_union(dfsan_read_label(A + u64(a[2]), 1), dfsan_read_label(A + u64(a[3]), 1)), A + u64(a[1]), 1);
    res("0");
  } else if (o == "fold") { // fold dst src n: A[dst] = sum of n bytes, as one load of several bytes
    uint8_t v = 0;
    for (size_t i = 0; i < u64(a[3]); ++i)
      v += A[u64(a[2]) + i];
    if (!plain)
      dfsan_set_label(dfsan_read_label(A + u64(a[2]), u64(a[3])), A + u64(a[1]), 1);
    A[u64(a[1])] = v;
    res("0");
  } else if (o == "cmpbr") { // branch on the result of comparing two blocks: cmpbr x y n
    L l = 0;
    int c = plain ? memcmp(P(a[1]), P(a[2]), u64(a[3])) : __dfsw_memcmp(P(a[1]), P(a[2]), u64(a[3]), 0, 0, 0, &l);
    if (!plain)
      __polytracker_log_conditional_branch(l);
    res(N((c > 0) - (c < 0)));
  } else if (o == "br") { // branch on a byte: br off variant
    if (!plain) {
      L l = dfsan_read_label(A + u64(a[1]), 1);
      if (a[2] == "w")
        __dfsw___polytracker_log_conditional_branch(A[u64(a[1])], l);
      else
        __polytracker_log_conditional_branch(l);
    }
    res("0");
  } else if (o == "cbr") {
    __polytracker_log_conditional_branch(L(u64(a[1])));
    res("0");
  } else if (o == "wbr") {
    __dfsw___polytracker_log_conditional_branch(1, L(u64(a[1])));
    res("0");
  } else if (o == "tcf") { // tcf cond fn label
    res(U(__dfsw___polytracker_log_tainted_control_flow(u64(a[1]), uint32_t(u64(a[2])), lab(3), 0, &rl)));
  } else if (o == "tcfb") { // tcfb cond fn ptr: the label of a byte
    L l = plain ? 0 : dfsan_read_label(P(a[3]), 1);
    res(U(__dfsw___polytracker_log_tainted_control_flow(u64(a[1]), uint32_t(u64(a[2])), l, 0, &rl)));
  } else if (o == "fent") {
    static auto &keep = *new std::vector<std::string *>;
    keep.push_back(new std::string(unhex(a[1])));
    res(U(__polytracker_log_func_entry(keep.back()->data(), uint16_t(keep.back()->size()))));
  } else if (o == "fexit") {
    __polytracker_log_func_exit(uint16_t(u64(a[1])));
    res("0");
  } else if (o == "enter") {
    __polytracker_enter_function(uint32_t(u64(a[1])));
    res("0");
  } else if (o == "leave") {
    __polytracker_leave_function(uint32_t(u64(a[1])));
    res("0");
  } else if (o == "argv") { // argv hex...
    static auto &v = *new std::vector<char *>;
    v.clear();
    for (size_t i = 1; i < a.size(); ++i) {
      auto s = unhex(a[i]);
      auto p = static_cast<char *>(malloc(s.size() + 1));
      memcpy(p, s.c_str(), s.size() + 1);
      dfsan_set_label(0, p, s.size() + 1);
      v.push_back(p);
    }
    v.push_back(nullptr);
    __polytracker_taint_argv(int(a.size() - 1), v.data());
    x = " V=";
    for (size_t i = 1; i < a.size(); ++i)
      x += (i > 1 ? ";" : "") + runs(labels_of(v[i - 1], strlen(v[i - 1]) + 1));
    if (a.size() == 1)
      x += "-";
    res("0");
  } else if (o == "busy") {
    pthread_t t;
    pthread_create(&t, nullptr, busy_thread, nullptr);
    res("0");
  } else if (o == "print") { // stdio output of the program itself
    auto s = unhex(a[1]);
    ::fwrite(s.data(), 1, s.size(), stdout);
    res("0");
  } else if (o == "exit") { // exit how code
    int c = int(i64(a[2]));
    out("r=0 e=0 rl=0 D=- L=-");
    if (a[1] == "ret")
      exit(c);
    if (a[1] == "dexit")
      __dfsw_exit(c, 0);
    if (a[1] == "nested")
      nested(40, c);
    if (a[1] == "assert")
      __dfsw___assert_fail("cond", "file.c", 12, "fn", 0, 0, 0, 0);
    if (a[1] == "thread") {
      pthread_t t;
      pthread_create(&t, nullptr, exit_thread, reinterpret_cast<void *>(intptr_t(c)));
      for (;;)
        pause();
    }
    _exit(c);
  } else {
    res("unknown-op");
  }
  (void)z;
  (void)rep;
  return "r=" + r + " e=" + N(e) + " rl=" + U(rl) + x + changes();
}

static void run_range(size_t b, size_t e) {
  for (size_t i = b; i < e; ++i) {
    if (ops[i][0] == "atexit") { // the next n operations run in an exit handler
      size_t n = u64(ops[i][1]);
      at_exit.push_back({i + 1, i + 1 + n});
      atexit(exit_handler);
      out("r=0 e=0 rl=0 D=- L=-");
      i += n;
    } else {
      out(run(ops[i]));
    }
  }
}

static void put(int from, int to) {
  dup2(from, to);
  if (from != to)
    close(from);
}

int main() {
  // keep the protocol away from the descriptors programs see
  int cmd = fcntl(0, F_DUPFD, 200);
  outfd = fcntl(1, F_DUPFD, 201);
  int nul = open("/dev/null", O_RDWR);
  FILE *in = fdopen(cmd, "r");
  char *buf = nullptr;
  size_t cap = 0;
  auto rd = [&](std::string &s) {
    ssize_t n = getline(&buf, &cap, in);
    if (n < 0)
      return false;
    while (n > 0 && buf[n - 1] == '\n')
      --n;
    s.assign(buf, n);
    return true;
  };
  dup2(nul, 0);
  dup2(nul, 1);
  close(nul);
  signal(SIGPIPE, SIG_IGN);
  std::string s;
  while (rd(s)) {
    auto h = proto::split(s);
    if (h.size() < 3 || h[0] != "CASE")
      return 3;
    ops.clear();
    for (size_t i = 0, n = u64(h[1]); i < n; ++i) {
      if (!rd(s))
        return 3;
      ops.push_back(proto::split(s));
    }
    pid_t pid = fork();
    if (pid < 0)
      return 4;
    if (pid == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      alarm(40);
      umask(022);
      std::fill(std::begin(D), std::end(D), -1);
      std::string sin = "-", sout = "-", serr = "-";
      for (size_t i = 3; i < h.size(); ++i) {
        auto eq = h[i].find('=');
        auto k = h[i].substr(0, eq), v = h[i].substr(eq + 1);
        if (k == "dir") {
          if (chdir(unhex(v).c_str()))
            _exit(70);
        } else if (k == "plain")
          plain = v == "1";
        else if (k == "env") {
          auto t = unhex(v);
          auto q = t.find('=');
          setenv(t.substr(0, q).c_str(), t.substr(q + 1).c_str(), 1);
        } else if (k == "stdin")
          sin = v;
        else if (k == "stdout")
          sout = v;
        else if (k == "stderr")
          serr = v;
      }
      if (sin[0] == 'f')
        put(open(unhex(sin.substr(2)).c_str(), O_RDONLY), 0);
      else if (sin[0] == 'p') {
        int p[2];
        if (pipe(p))
          _exit(71);
        auto d = unhex(sin.substr(2));
        if (write(p[1], d.data(), d.size()) != ssize_t(d.size()))
          _exit(72);
        close(p[1]);
        put(p[0], 0);
      } else if (sin[0] == 'c')
        close(0);
      if (sout[0] == 'f')
        put(open(unhex(sout.substr(2)).c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644), 1);
      else if (sout[0] == 'a')
        put(open(unhex(sout.substr(2)).c_str(), O_RDWR | O_CREAT | O_APPEND, 0644), 1);
      else if (sout[0] == 'p') { // a pipe nobody reads
        int p[2];
        if (pipe(p))
          _exit(71);
        fcntl(p[0], F_DUPFD, 210);
        close(p[0]);
        put(p[1], 1);
      }
      if (serr[0] == 'f')
        put(open(unhex(serr.substr(2)).c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644), 2);
      memcpy(SA, A, ASIZE);
      run_range(0, ops.size());
      exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
    }
    out(WIFEXITED(st) ? "EXIT " + N(WEXITSTATUS(st)) : "EXIT s" + N(WTERMSIG(st)));
    out("DONE");
  }
  return 0;
}
