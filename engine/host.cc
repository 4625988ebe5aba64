#include "host.h"

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

#include <iostream>
#include <new>
#include <streambuf>

#ifdef VF_SAN
#define ARENA 0
extern "C" void __lsan_do_leak_check() __attribute__((weak));
#else
#define ARENA 1
#endif

#define EXPORT __attribute__((visibility("default")))

namespace vf {

const char *status_name(Status s) {
  static const char *n[] = {"ok", "exit", "crash", "hang", "horizon", "out-of-memory"};
  return n[s];
}

// ---------------------------------------------------------------- run state
static volatile bool in_run = false;  // the program under test is executing
static sigjmp_buf escape;
static Status esc_status;
static int esc_code;
static const Env *env;
static RunResult *res;

[[noreturn]] static void leave(Status s, int code) {
  esc_status = s;
  esc_code = code;
  in_run = false;
  siglongjmp(escape, 1);
}

// ---------------------------------------------------------------- output
static char *cap;
static size_t cap_n, cap_max;
static const size_t CAP_LIMIT = size_t(256) << 20;
static void put(const char *p, size_t n) {
  if (cap_n + n > cap_max) {
    size_t m = cap_max ? cap_max : 1 << 16;
    while (m < cap_n + n) m *= 2;
    if (m > CAP_LIMIT) leave(NOMEM, 1);
    cap = (char *)realloc(cap, m);
    cap_max = m;
  }
  memcpy(cap + cap_n, p, n);
  cap_n += n;
}
struct CapBuf : std::streambuf {
  int overflow(int c) override {
    if (c != EOF) {
      char ch = (char)c;
      put(&ch, 1);
    }
    return 0;
  }
  std::streamsize xsputn(const char *s, std::streamsize n) override {
    put(s, n);
    return n;
  }
};
static CapBuf *capbuf;
struct NullBuf : std::streambuf {
  int overflow(int c) override { return c == EOF ? 0 : c; }
};
static NullBuf *nullbuf;
static size_t in_pos;
struct InBuf : std::streambuf {  // unbuffered: shares its position with stdin
  int underflow() override { return in_pos < env->input.size() ? (unsigned char)env->input[in_pos] : EOF; }
  int uflow() override { return in_pos < env->input.size() ? (unsigned char)env->input[in_pos++] : EOF; }
};
static InBuf *inbuf;
static FILE *infile;
static ssize_t cookie_read(void *, char *p, size_t n) {
  if (!n || in_pos >= env->input.size()) return 0;
  *p = env->input[in_pos++];
  return 1;
}
static ssize_t cookie_write(void *, const char *p, size_t n) {
  put(p, n);
  return n;
}
static FILE *capfile;

// ---------------------------------------------------------------- heap
#if ARENA
static char *arena, *arena_p, *arena_base;  // upwards from the start
static char *arena_q;                        // and downwards from the end
static long arena_blocks;
static const size_t ARENA_SIZE = size_t(1) << 30;
static char *arena_hi, *arena_lo;  // furthest addresses ever used
struct Hdr {
  size_t size;
  unsigned long magic;
};
static const unsigned long LIVE = 0xfeedc0dedeadbeefUL, DEAD = 0xdeaddeaddeaddeadUL;
static const int GUARD = 16;
static inline bool ours(void *p) { return p >= arena && p < arena + ARENA_SIZE; }
static void *arena_new(size_t n) {
  size_t total = sizeof(Hdr) + ((n + 15) & ~size_t(15)) + GUARD;
  if (n > ARENA_SIZE || arena_p + total > arena_q) {
    if (n > ARENA_SIZE) return nullptr;
    leave(NOMEM, 0);
  }
  Hdr *h;
  if (env->heap_order == 1 || (env->heap_order == 2 && arena_blocks % 3 == 1)) {
    arena_q -= total;
    if (arena_q < arena_lo) arena_lo = arena_q;
    h = (Hdr *)arena_q;
  } else {
    h = (Hdr *)arena_p;
    arena_p += total;
    if (arena_p > arena_hi) arena_hi = arena_p;
  }
  arena_blocks++;
  h->size = n;
  h->magic = LIVE;
  char *p = (char *)h + sizeof(Hdr);
  memset(p, env->fill, n);
  memset(p + n, 0xEE, total - sizeof(Hdr) - n);
  return p;
}
static void arena_delete(void *p) {
  Hdr *h = (Hdr *)((char *)p - sizeof(Hdr));
  if (h->magic == DEAD) {
    if (in_run && res) res->heap_damage = true;  // double free
    return;
  }
  h->magic = DEAD;
  memset(p, 0xDD, h->size);
}
static bool arena_damaged(char *q, char *end) {
  while (q < end) {
    Hdr *h = (Hdr *)q;
    if (h->magic != LIVE && h->magic != DEAD) return true;
    char *p = q + sizeof(Hdr);
    size_t room = ((h->size + 15) & ~size_t(15)) + GUARD;
    if (p + room > end) return true;
    for (size_t i = h->size; i < room; i++)
      if ((unsigned char)p[i] != 0xEE) return true;
    q = p + room;
  }
  return false;
}
static void arena_reset(long shift) {
  if (arena_hi - arena > (16 << 20)) {
    madvise(arena, arena_hi - arena, MADV_DONTNEED);
    arena_hi = arena;
  }
  char *top = arena + ARENA_SIZE;
  if (top - arena_lo > (16 << 20)) {
    madvise(arena_lo, top - arena_lo, MADV_DONTNEED);
    arena_lo = top;
  }
  arena_q = top - (shift & ~15L);
  arena_blocks = 0;
  arena_p = arena_base = arena + (shift & ~15L);
}
#endif
}  // namespace vf

using namespace vf;

#if ARENA
#pragma GCC diagnostic ignored "-Wmismatched-new-delete"
static inline void *do_new(size_t n) {
  if (in_run) return arena_new(n);
  return malloc(n ? n : 1);
}
static inline void do_delete(void *p) {
  if (!p) return;
  if (ours(p)) {
    arena_delete(p);
    return;
  }
  free(p);
}
EXPORT void *operator new(size_t n) {
  void *p = do_new(n);
  if (!p) throw std::bad_alloc();
  return p;
}
EXPORT void *operator new[](size_t n) {
  void *p = do_new(n);
  if (!p) throw std::bad_alloc();
  return p;
}
EXPORT void operator delete(void *p) noexcept { do_delete(p); }
EXPORT void operator delete[](void *p) noexcept { do_delete(p); }
EXPORT void operator delete(void *p, size_t) noexcept { do_delete(p); }
EXPORT void operator delete[](void *p, size_t) noexcept { do_delete(p); }
#endif

// ---------------------------------------------------------------- interposed calls
static void tick() {
  if (++res->polls == env->jump_at) res->decisions_at_jump = res->decisions;
  if (env->horizon && res->polls > env->horizon) leave(HORIZON, 0);
}
static double now_virtual() {
  double t = 1.0e9 + env->clock_start + 1e-6 * res->polls;
  if (env->jump_at && res->polls >= env->jump_at) t += env->jump;
  return t;
}
extern "C" {
EXPORT int gettimeofday(struct timeval *tv, void *) noexcept {
  if (in_run) {
    tick();
    long us = 1000000000000000L + (long)(env->clock_start * 1e6) + res->polls;
    if (env->jump_at && res->polls >= env->jump_at) us += (long)(env->jump * 1e6);
    tv->tv_sec = us / 1000000;
    tv->tv_usec = us % 1000000;
    return 0;
  }
  return syscall(SYS_gettimeofday, tv, nullptr);
}
EXPORT int clock_gettime(clockid_t id, struct timespec *ts) noexcept {
  if (in_run) {
    tick();
    double t = now_virtual();
    ts->tv_sec = (long)t;
    ts->tv_nsec = (long)((t - (long)t) * 1e9);
    return 0;
  }
  return syscall(SYS_clock_gettime, id, ts);
}
EXPORT time_t time(time_t *p) noexcept {
  time_t t;
  if (in_run) {
    tick();
    t = (time_t)now_virtual();
  } else {
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
    t = ts.tv_sec;
  }
  if (p) *p = t;
  return t;
}
EXPORT void srand(unsigned) noexcept {}
EXPORT int rand(void) noexcept {
  if (!in_run) return 4;
  long i = res->rands++;
  if (env->rand_horizon && i >= env->rand_horizon) leave(HORIZON, 1);
  if (!env->rnd) return 0;
  in_run = false;
  int r = env->rnd(i);
  in_run = true;
  return r;
}
EXPORT long random(void) noexcept { return rand(); }
EXPORT void srandom(unsigned) noexcept {}
EXPORT void exit(int code) {
  if (in_run) leave(EXITED, code);
  fflush(nullptr);
  _exit(code);
}
static bool fails(long n, long at) { return at && (env->fail_sticky ? n >= at : n == at); }
EXPORT ssize_t read(int fd, void *p, size_t n) {
  if (in_run && fd > 2) {
    res->reads++;
    if (fails(res->reads, env->read_fail)) {
      errno = env->fail_errno;
      return -1;
    }
    if (env->read_chunk && n > (size_t)env->read_chunk) n = env->read_chunk;
  }
  return syscall(SYS_read, fd, p, n);
}
EXPORT ssize_t write(int fd, const void *p, size_t n) {
  if (in_run && fd > 2) {
    res->writes++;
    if (fails(res->writes, env->write_fail)) {
      errno = env->fail_errno;
      return -1;
    }
    if (env->write_chunk && n > (size_t)env->write_chunk) n = env->write_chunk;
  }
  return syscall(SYS_write, fd, p, n);
}
EXPORT ssize_t writev(int fd, const struct iovec *v, int n) {
  if (in_run && fd > 2) {
    for (int i = 0; i < n; i++)
      if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
    return 0;
  }
  return syscall(SYS_writev, fd, v, n);
}
EXPORT int mvl_verif_decide(const int *vars, const int *vals, int n, int var, int eq, int val) {
  if (!in_run) return -1;
  res->decisions++;
  if (!env->decide) return -1;
  in_run = false;
  int r = env->decide(vars, vals, n, var, eq, val);
  in_run = true;
  return r;
}
EXPORT int mvl_verif_assign(int var, int domain) {
  if (!in_run || !env->assign) return -1;
  in_run = false;
  int r = env->assign(var, domain);
  in_run = true;
  return r;
}
}

namespace vf {

// ---------------------------------------------------------------- library
struct Seg {
  char *addr;
  size_t len;
  char *copy;
};
struct Lib {
  void *h;
  int (*entry)(int, char **);
  std::vector<Seg> segs;
  bool warm = false;
};

static int phdr_cb(struct dl_phdr_info *i, size_t, void *arg) {
  auto *p = (std::pair<Lib *, const struct link_map *> *)arg;
  if ((ElfW(Addr))p->second->l_addr != i->dlpi_addr || !i->dlpi_name || strcmp(i->dlpi_name, p->second->l_name)) return 0;
  char *ro_lo = nullptr, *ro_hi = nullptr;
  long pg = sysconf(_SC_PAGESIZE);
  for (int k = 0; k < i->dlpi_phnum; k++)
    if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) {
      char *a = (char *)i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
      ro_lo = (char *)((unsigned long)a / pg * pg);
      ro_hi = (char *)(((unsigned long)a + i->dlpi_phdr[k].p_memsz) / pg * pg);
    }
  for (int k = 0; k < i->dlpi_phnum; k++) {
    auto &ph = i->dlpi_phdr[k];
    if (ph.p_type != PT_LOAD || !(ph.p_flags & PF_W)) continue;
    char *a = (char *)i->dlpi_addr + ph.p_vaddr, *e = a + ph.p_memsz;
    if (ro_lo && a < ro_hi && e > ro_lo) a = ro_hi < e ? ro_hi : e;
    if (a < e) {
      Seg s{a, size_t(e - a), (char *)malloc(e - a)};
      memcpy(s.copy, s.addr, s.len);
      p->first->segs.push_back(s);
    }
  }
  return 1;
}

static char *altstack;
static void on_signal(int sig, siginfo_t *, void *) {
  if (!in_run) {
    if (sig == SIGALRM) return;
    signal(sig, SIG_DFL);
    raise(sig);
    return;
  }
  if (sig == SIGALRM) leave(HUNG, 0);
  leave(CRASHED, sig);
}

static void init() {
  static bool done = false;
  if (done) return;
  done = true;
#if ARENA
  arena = (char *)mmap(nullptr, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (arena == MAP_FAILED) {
    perror("mmap");
    _exit(3);
  }
  arena_p = arena_hi = arena_base = arena;
  arena_q = arena_lo = arena + ARENA_SIZE;
#endif
  capbuf = new CapBuf;
  nullbuf = new NullBuf;
  inbuf = new InBuf;
  cookie_io_functions_t ii = {cookie_read, nullptr, nullptr, nullptr};
  infile = fopencookie(nullptr, "r", ii);
  setvbuf(infile, nullptr, _IONBF, 0);
  cookie_io_functions_t io = {nullptr, cookie_write, nullptr, nullptr};
  capfile = fopencookie(nullptr, "w", io);
  setvbuf(capfile, nullptr, _IONBF, 0);
  stack_t ss{};
  const size_t N = 1 << 18;
  altstack = (char *)malloc(N);
  ss.ss_sp = altstack;
  ss.ss_size = N;
  sigaltstack(&ss, nullptr);
  struct sigaction sa{};
  sa.sa_sigaction = on_signal;
  sa.sa_flags = SA_ONSTACK | SA_SIGINFO | SA_NODEFER;
#if ARENA
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGTRAP}) sigaction(s, &sa, nullptr);
#endif
  sigaction(SIGALRM, &sa, nullptr);
}

Lib *load(const char *path) {
  init();
  Lib *l = new Lib;
  l->h = dlopen(path, RTLD_NOW | RTLD_LOCAL);
  if (!l->h) {
    fprintf(stderr, "%s\n", dlerror());
    return nullptr;
  }
  l->entry = (int (*)(int, char **))dlsym(l->h, "main");
  if (!l->entry) {
    fprintf(stderr, "%s\n", dlerror());
    return nullptr;
  }
#if ARENA
  struct link_map *lm = nullptr;
  dlinfo(l->h, RTLD_DI_LINKMAP, &lm);
  std::pair<Lib *, const struct link_map *> arg{l, lm};
  dl_iterate_phdr(phdr_cb, &arg);
#endif
  return l;
}

static void __attribute__((noinline)) dirty_stack(int fill) {
  volatile char b[1 << 16];
  for (size_t i = 0; i < sizeof b; i++) b[i] = (char)fill;
}

static RunResult run1(Lib *lib, const std::vector<std::string> &args, const Env &e) {
  static RunResult r;  // static: survives the longjmp
  r = RunResult();
  res = &r;
  env = &e;
  cap_n = 0;
  static std::vector<std::string> store;
  static std::vector<char *> argv;
  store.assign(1, "Solver");
  store.insert(store.end(), args.begin(), args.end());
  argv.clear();
  for (auto &s : store) argv.push_back(&s[0]);
  argv.push_back(nullptr);
#if ARENA
  for (auto &s : lib->segs) memcpy(s.addr, s.copy, s.len);
  arena_reset(e.heap_shift);
#endif
  static std::streambuf *ob, *ib, *eb;
  static FILE *of, *inf;
  in_pos = 0;
  clearerr(infile);
  static std::ios_base::fmtflags fl;
  ob = std::cout.rdbuf(capbuf);
  ib = std::cin.rdbuf(inbuf);
  eb = std::cerr.rdbuf(nullbuf);
  std::cin.clear();
  std::cout.clear();
  fl = std::cout.flags();
  of = stdout;
  stdout = capfile;
  inf = stdin;
  stdin = infile;
  static int fd0;
  fd0 = dup(0);
  struct itimerval it{};
  it.it_value.tv_sec = e.wall_ms / 1000;
  it.it_value.tv_usec = e.wall_ms % 1000 * 1000;
  setitimer(ITIMER_REAL, &it, nullptr);
  if (!sigsetjmp(escape, 1)) {
    in_run = true;
    if (e.stack_fill >= 0) dirty_stack(e.stack_fill);
    int code = lib->entry((int)argv.size() - 1, argv.data());
    in_run = false;
    r.status = OK;
    r.code = code;
  } else {
    r.status = esc_status;
    r.code = esc_code;
    // descriptors that the abandoned run left open
    for (int f = fd0; f < fd0 + 16; f++)
      if (f != fd0) close(f);
  }
  in_run = false;
  struct itimerval off{};
  setitimer(ITIMER_REAL, &off, nullptr);
  close(fd0);
  stdout = of;
  stdin = inf;
  std::cout.rdbuf(ob);
  std::cin.rdbuf(ib);
  std::cerr.rdbuf(eb);
  std::cout.clear();
  std::cout.flags(fl);
  std::cout.precision(6);
  std::cout.fill(' ');
  std::cout.width(0);
  r.out.assign(cap ? cap : "", cap_n);
#if ARENA
  r.heap = arena_p - arena;
  if (arena_damaged(arena_base, arena_p) || arena_damaged(arena_q, arena + ARENA_SIZE - (env->heap_shift & ~15L))) r.heap_damage = true;
#endif
  return std::move(r);
}

RunResult run(Lib *lib, const std::vector<std::string> &args, const Env &e) {
  if (!lib->warm) {
    lib->warm = true;  // the first run may set up locale facets and the like
    Env w;
    w.horizon = 10;
    run1(lib, {"-nothing"}, w);
  }
  return run1(lib, args, e);
}

MemFile::MemFile(const char *name) {
  fd = memfd_create(name, 0);
  int hi = fcntl(fd, F_DUPFD, 100);
  if (hi >= 0) {
    close(fd);
    fd = hi;
  }
  path = "/proc/self/fd/" + std::to_string(fd);
}
MemFile::~MemFile() { close(fd); }
void MemFile::set(const std::string &t) {
  if (ftruncate(fd, 0) || pwrite(fd, t.data(), t.size(), 0) != (ssize_t)t.size()) {
    perror("memfile");
    _exit(3);
  }
}
std::string MemFile::get() const {
  std::string s;
  char b[65536];
  off_t o = 0;
  ssize_t n;
  while ((n = pread(fd, b, sizeof b, o)) > 0) {
    s.append(b, n);
    o += n;
  }
  return s;
}

}  // namespace vf
