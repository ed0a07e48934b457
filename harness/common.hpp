// Common part of the conformance drivers: reads one JSON case per line, runs it
// on the real library in a child process, and appends the observed result.
//
//   driver CASES TRACE     (CASES: one JSON object per line, with fields "id", "op", ...)
//
// The line is echoed unchanged with an extra field "r".  If the library aborts,
// crashes or hangs in a case, "r" is {"died":<signal>} and the next case runs in
// a fresh process.
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
// Code that is not instrumented (LAPACK, BLAS, FFTW, ARPACK) writes past the end
// of a block unnoticed by the sanitizer.  Every array that the library allocates
// is therefore followed by a pattern, out of bounds for instrumented code, which
// is compared when the array is deleted.
#include <new>
#include <sanitizer/asan_interface.h>
namespace vf_guard {
constexpr size_t HEAD = 32, TAIL = 64;
struct Head { size_t n, magic[2]; };
constexpr size_t MAGIC = 0x5afec0de5afec0deULL;
inline unsigned char fill(size_t i) { return (unsigned char)(0xA7 ^ (i * 29)); }
inline void *get(size_t n) {
  if (n > SIZE_MAX - HEAD - TAIL) throw std::bad_alloc();
  char *b = (char *)malloc(HEAD + n + TAIL);
  if (!b) throw std::bad_alloc();
  Head *h = (Head *)b;
  h->n = n; h->magic[0] = MAGIC; h->magic[1] = ~MAGIC;
  for (size_t i = 0; i < TAIL; i++) b[HEAD + n + i] = (char)fill(i);
  // the head lies just before a multiple of 8; the tail may start within one
  __asan_poison_memory_region(b, HEAD);
  __asan_poison_memory_region(b + HEAD + n, TAIL);
  return b + HEAD;
}
inline void put(void *p) {
  if (!p) return;
  char *b = (char *)p - HEAD;
  __asan_unpoison_memory_region(b, HEAD);
  Head *h = (Head *)b;
  bool bad = h->magic[0] != MAGIC || h->magic[1] != ~MAGIC;
  if (!bad) {
    __asan_unpoison_memory_region(b + HEAD + h->n, TAIL);
    for (size_t i = 0; i < TAIL; i++) bad = bad || (unsigned char)b[HEAD + h->n + i] != fill(i);
  }
  if (bad) {
    fprintf(stderr, "ERROR: array of %zu bytes written out of its bounds\n", h->n);
    _exit(99);
  }
  free(b);
}
}
void *operator new[](size_t n) { return vf_guard::get(n); }
void operator delete[](void *p) noexcept { vf_guard::put(p); }
void operator delete[](void *p, size_t) noexcept { vf_guard::put(p); }
#endif

namespace vf {

// ---------------------------------------------------------------- JSON input
struct J {
  enum K { NUL, BOOL, INT, STR, ARR, OBJ } k = NUL;
  bool b = false;
  long long n = 0;
  std::string s;
  std::vector<J> a;
  std::map<std::string, J> o;
  const J &operator[](const char *f) const {
    auto it = o.find(f);
    if (it == o.end()) { fprintf(stderr, "driver: case lacks field %s\n", f); _exit(3); }
    return it->second;
  }
  bool has(const char *f) const { return o.count(f) > 0; }
  long long i(const char *f) const { return (*this)[f].n; }
  long long i(const char *f, long long d) const { return has(f) ? (*this)[f].n : d; }
  bool flag(const char *f) const { return has(f) && ((*this)[f].b || (*this)[f].n); }
  std::string str(const char *f, const char *d = "") const { return has(f) ? (*this)[f].s : d; }
};

struct Parser {
  const char *p;
  explicit Parser(const std::string &s) : p(s.c_str()) {}
  void ws() { while (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r') p++; }
  J parse() {
    ws();
    J r;
    if (*p == '{') {
      r.k = J::OBJ; p++; ws();
      while (*p != '}') {
        J key = parse(); ws();
        if (*p != ':') die(); p++;
        r.o[key.s] = parse(); ws();
        if (*p == ',') { p++; ws(); }
      }
      p++;
    } else if (*p == '[') {
      r.k = J::ARR; p++; ws();
      while (*p != ']') { r.a.push_back(parse()); ws(); if (*p == ',') { p++; ws(); } }
      p++;
    } else if (*p == '"') {
      r.k = J::STR; p++;
      while (*p && *p != '"') {
        if (*p == '\\') {
          p++;
          switch (*p) {
            case 'n': r.s += '\n'; break;
            case 't': r.s += '\t'; break;
            case 'r': r.s += '\r'; break;
            case 'u': { int v = strtol(std::string(p + 1, 4).c_str(), 0, 16); r.s += (char)v; p += 4; break; }
            default: r.s += *p;
          }
          p++;
        } else r.s += *p++;
      }
      p++;
    } else if (!strncmp(p, "true", 4)) { r.k = J::BOOL; r.b = true; r.n = 1; p += 4; }
    else if (!strncmp(p, "false", 5)) { r.k = J::BOOL; p += 5; }
    else if (!strncmp(p, "null", 4)) { p += 4; }
    else { char *e; r.k = J::INT; r.n = strtoll(p, &e, 10); if (e == p) die(); p = e; }
    return r;
  }
  void die() { fprintf(stderr, "driver: bad JSON near %.40s\n", p); _exit(3); }
};

// --------------------------------------------------------------- JSON output
// The specification computes with 32-bit integers: a number that is not an
// integer in range is written as a sentinel no expected value ever equals.
const long long NONINT = 2000000007, NANV = 2000000003, PINF = 2000000001, NINF = -2000000001,
                BIG = 2000000011;
// A case may work with all its numbers scaled by 2^"pi" (results by 2^"po"),
// and single numbers may be tiny or huge: the codes TINY + k, HUGE_ + k stand for
// k*2^-200, k*2^200 where they are only moved (0 < k <= 1000000).
const long long NEGZERO = 1999999999;   // input only
const long long TINY = 1900000000, HUGE_ = 1950000000;
inline int &pow_in() { static int v = 0; return v; }
inline int &pow_out() { static int v = 0; return v; }
inline double special(long long n) {
  if (n == PINF) return HUGE_VAL;
  if (n == NINF) return -HUGE_VAL;
  if (n == NANV) return std::nan("");
  if (n == NEGZERO) return -0.0;
  if (n < 0) return -special(-n);
  if (n > TINY && n <= TINY + 1000000) return std::ldexp((double)(n - TINY), -200);
  if (n > HUGE_ && n <= HUGE_ + 1000000) return std::ldexp((double)(n - HUGE_), 200);
  return std::ldexp((double)n, pow_in());
}
inline long long enc(double v, double scale = 1.0) {
  if (std::isnan(v)) return NANV;
  if (std::isinf(v)) return v > 0 ? PINF : NINF;
  if (v < 0) { long long k = enc(-v, scale); return k == NONINT || k == BIG ? k : -k; }
  if (!pow_out()) for (int q = -1; q <= 1; q += 2) {
    double k = std::ldexp(v, -200 * q);
    if (k >= 1 && k <= 1000000 && k == std::floor(k)) return (q < 0 ? TINY : HUGE_) + (long long)k;
  }
  double w = std::ldexp(v * scale, -pow_out());
  if (std::fabs(w) > 1073741824.0) return BIG;
  if (w != std::floor(w)) return NONINT;
  return (long long)w;
}
// fixed point: nearest integer of v*scale
inline long long fix(double v, double scale) {
  if (std::isnan(v)) return NANV;
  if (std::isinf(v)) return v > 0 ? PINF : NINF;
  double w = std::floor(std::ldexp(v * scale, -pow_out()) + 0.5);
  if (std::fabs(w) > 1073741824.0) return BIG;
  return (long long)w;
}

// what fix() leaves, in units of 2^-16 of its own
inline long long fixlo(double v, double scale) {
  double w = std::ldexp(v * scale, -pow_out());
  if (!(std::fabs(w) < 1073741824.0)) return 0;
  return (long long)std::floor((w - std::floor(w + 0.5)) * 65536 + 0.5);
}

struct W {   // writes the fields of "r"
  std::string s;
  bool lo = false;         // tensors carry 16 bits more, in "l"
  bool first = true;
  double scale = 1.0;      // multiply numbers by this before writing
  bool fixed = false;      // round instead of requiring integers
  long long num(double v) const { return fixed ? fix(v, scale) : enc(v, scale); }
  std::string lo1(double v) const { return "[" + std::to_string(fixlo(v, scale)) + ",0]"; }
  std::string lo1(const std::complex<double> &v) const {
    return "[" + std::to_string(fixlo(v.real(), scale)) + "," + std::to_string(fixlo(v.imag(), scale)) + "]";
  }
  void key(const char *k) { if (!first) s += ","; first = false; s += "\""; s += k; s += "\":"; }
  static std::string q(const std::string &v) {
    std::string r = "\"";
    for (unsigned char c : v) {
      if (c == '"' || c == '\\') { r += '\\'; r += c; }
      else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
      else r += c;
    }
    return r + "\"";
  }
  void raw(const char *k, const std::string &v) { key(k); s += v; }
  void i(const char *k, long long v) { key(k); s += std::to_string(v); }
  void b(const char *k, bool v) { key(k); s += v ? "true" : "false"; }
  void str(const char *k, const std::string &v) { key(k); s += q(v); }
  template<class V> static std::string list(const V &v) {
    std::string r = "[";
    for (size_t j = 0; j < (size_t)v.size(); j++) { if (j) r += ","; r += std::to_string((long long)v[j]); }
    return r + "]";
  }
  std::string num1(double v) const { return "[" + std::to_string(num(v)) + ",0]"; }
  std::string num1(const std::complex<double> &v) const {
    return "[" + std::to_string(num(v.real())) + "," + std::to_string(num(v.imag())) + "]";
  }
};

typedef std::function<void(const J &, W &)> Op;
inline std::map<std::string, Op> &ops() { static std::map<std::string, Op> m; return m; }
struct Reg { Reg(const char *n, Op f) { ops()[n] = f; } };
#define VF_CAT_(a, b) a##b
#define VF_CAT(a, b) VF_CAT_(a, b)
#define OP(name) static void VF_CAT(op_, __LINE__)(const vf::J &, vf::W &); \
  static vf::Reg VF_CAT(reg_, __LINE__)(name, VF_CAT(op_, __LINE__));       \
  static void VF_CAT(op_, __LINE__)(const vf::J &c, vf::W &o)

// SIGALRM after so many seconds of work (a machine that is busy with other things takes longer), or a few times as long of anything
inline void watchdog(unsigned seconds, unsigned factor = 4) {
  static timer_t t;
  static pid_t owner = 0;       // timers are not inherited
  if (owner != getpid()) {
    struct sigevent e;
    memset(&e, 0, sizeof e);
    e.sigev_notify = SIGEV_SIGNAL;
    e.sigev_signo = SIGALRM;
    owner = timer_create(CLOCK_PROCESS_CPUTIME_ID, &e, &t) == 0 ? getpid() : 0;
  }
  struct itimerspec v;
  memset(&v, 0, sizeof v);
  v.it_value.tv_sec = seconds;
  if (owner) timer_settime(t, 0, &v, 0);
  alarm(seconds * (owner ? factor : 1));
}
inline unsigned &case_seconds() { static unsigned s = 10; return s; }

// the bytes of the heap that are in use (0 without the sanitizer)
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
inline long long bytes() { return __sanitizer_get_current_allocated_bytes ? (long long)__sanitizer_get_current_allocated_bytes() : 0; }
inline int open_files() { int n = 0; for (int k = 0; k < 256; k++) n += fcntl(k, F_GETFD) != -1; return n; }
// repeat the call: what does each repetition leave behind?
inline std::string growth(const Op &op, const J &c, size_t hint) {
  std::string s = "[";
  for (int k = 0; k < 4; k++) {
    long long d;
    {
      W w;
      w.s.reserve(2 * hint + 4096);
      long long b = bytes();
      op(c, w);
      d = bytes() - b;
    }
    s += (k ? "," : "") + std::to_string(d);
  }
  return s + "]";
}

inline int run_cases(int argc, char **argv) {
  if (argc < 3) { fprintf(stderr, "usage: driver CASES TRACE\n"); return 2; }
  std::ifstream in(argv[1]);
  std::vector<std::string> lines;
  for (std::string l; std::getline(in, l);) if (!l.empty()) lines.push_back(l);
  FILE *out = fopen(argv[2], "w");
  if (!out) { perror(argv[2]); return 2; }
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  size_t at = 0;
  int hangs = 0;
  while (at < lines.size()) {
    fflush(out);
    off_t pos = lseek(fileno(out), 0, SEEK_END);
    int pfd[2];
    if (pipe(pfd)) { perror("pipe"); return 2; }
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); return 2; }
    if (pid == 0) {
      close(pfd[0]);
      if (!getenv("VERIF_STDERR")) { int n = open("/dev/null", O_WRONLY); dup2(n, 2); dup2(n, 1); }
      for (size_t k = at; k < lines.size(); k++) {
        if (case_seconds() > 20) alarm(case_seconds()); else watchdog(case_seconds());
        J c = Parser(lines[k]).parse();
        auto it = ops().find(c["op"].s);
        if (it == ops().end()) { fprintf(stderr, "driver: no op %s\n", c["op"].s.c_str()); _exit(3); }
        W w;
        pow_in() = (int)c.i("pi", 0);
        pow_out() = (int)c.i("po", 0);
        it->second(c, w);
        if (c.flag("own")) { int f = open_files(); std::string g = growth(it->second, c, w.s.size()); w = W(); w.raw("grow", g); w.i("fds", open_files() - f); }
        if (case_seconds() > 20) alarm(0); else watchdog(0);
        std::string l = lines[k];
        l.erase(l.find_last_of('}'));
        l += ",\"r\":{" + w.s + "}}\n";
        fwrite(l.data(), 1, l.size(), out);
        fflush(out);
        uint32_t done = k + 1;
        if (write(pfd[1], &done, 4) != 4) _exit(4);
      }
      _exit(0);
    }
    close(pfd[1]);
    uint32_t done = at, v;
    while (read(pfd[0], &v, 4) == 4) done = v;
    close(pfd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    (void)pos;
    fseek(out, 0, SEEK_END);
    if (done == lines.size() && WIFEXITED(st) && WEXITSTATUS(st) == 0) { at = done; break; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { fprintf(stderr, "driver: case %u not understood: %s\n", done, lines[done < lines.size() ? done : 0].substr(0, 300).c_str()); return 3; }
    if (done >= lines.size()) { at = done; break; }
    int code = WIFSIGNALED(st) ? WTERMSIG(st) : 200 + WEXITSTATUS(st);
    std::string l = lines[done];
    l.erase(l.find_last_of('}'));
    l += ",\"r\":{\"died\":" + std::to_string(code) + "}}\n";
    fwrite(l.data(), 1, l.size(), out);
    at = done + 1;
    if (code == SIGALRM && ++hangs >= 3) break;   // the trace ends here
  }
  fclose(out);
  return 0;
}
}  // namespace vf

extern "C" const char *__asan_default_options();
extern "C" __attribute__((used, visibility("default"))) const char *__asan_default_options() {
  return "detect_leaks=0:exitcode=99:allocator_may_return_null=1:max_malloc_fill_size=1048576:malloc_fill_byte=190:detect_stack_use_after_return=0:handle_abort=0:detect_odr_violation=0";
}
#endif
