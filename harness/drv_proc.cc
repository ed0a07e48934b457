// Data files under controlled scheduling: real processes, stopped at every
// system call that touches the files of the scratch directory (or that waits),
// and advanced one call at a time as the schedule of the case says (P15), or
// killed before or after the k-th one (P16).
#include "common.hpp"
#include <tensor/sdf.h>
#include <tensor/tensor.h>
#include <dirent.h>
#include <set>
#include <sys/ptrace.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/user.h>
#include <sys/uio.h>
#include <sys/resource.h>
using namespace vf;
using namespace tensor;
using namespace sdf;

static std::string scratch() {
  const char *d = getenv("VERIF_SCRATCH");
  if (!d || !*d) _exit(3);
  return d;
}
static void wipe() {
  std::string d = scratch();
  if (DIR *h = opendir(d.c_str())) {
    while (dirent *e = readdir(h)) {
      std::string n = e->d_name;
      if (n == "." || n == "..") continue;
      n = d + "/" + n;
      if (unlink(n.c_str()) != 0) rmdir(n.c_str());
    }
    closedir(h);
  }
}
static bool exists(const std::string &p) { struct stat sb; return stat(p.c_str(), &sb) == 0; }
static std::string slurp(const std::string &p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
static void spit(const std::string &p, const std::string &d) { std::ofstream f(p, std::ios::binary | std::ios::trunc); f << d; }

// markers are calls getpriority(MARK, code), which fail and do nothing else
static const long MARK = 0x5150;
enum { WANT = 1, GOT, REL, DONE };
static void mark(int code) { syscall(SYS_getpriority, MARK, code); }

// ------------------------------------------------------------ traced processes
struct Proc {
  pid_t pid = 0;
  bool finished = false, pending = false, insys = false, killed = false;
  int status = 0;
  std::map<long, std::string> fds;      // descriptors open on files of the scratch directory
  long nr = -1, a0 = 0, a1 = 0, a2 = 0;
  std::string kind, path;               // the call at which it is stopped
  std::string target;
  bool skip = false;
};

static std::string peek(pid_t pid, long addr) {
  std::string s;
  char buf[256];
  while (s.size() < 4096) {
    struct iovec l = {buf, sizeof buf}, r = {(void *)addr, sizeof buf};
    // stay inside one page, the next may be unmapped
    size_t inpage = 4096 - (addr & 4095);
    if (r.iov_len > inpage) r.iov_len = inpage;
    ssize_t n = process_vm_readv(pid, &l, 1, &r, 1, 0);
    if (n <= 0) break;
    for (ssize_t k = 0; k < n; k++) { if (!buf[k]) return s; s += buf[k]; }
    addr += n;
  }
  return s;
}
static bool ours(const std::string &p) { return p.compare(0, scratch().size(), scratch()) == 0; }

static bool coarse = false;      // only calls on the lock file, opening and closing the data
// decide whether the call the process is about to make is visible
static bool classify(Proc &p, const user_regs_struct &r) {
  p.nr = r.orig_rax; p.a0 = r.rdi; p.a1 = r.rsi; p.a2 = r.rdx;
  p.kind.clear(); p.path.clear(); p.target.clear(); p.skip = false;
  auto path = [&](long a) { p.path = peek(p.pid, a); return ours(p.path); };
  switch (p.nr) {
    case SYS_open: case SYS_creat: if (path(p.a0)) p.kind = "open"; break;
    case SYS_openat: if (path(p.a1)) p.kind = "open"; break;
    case SYS_unlink: case SYS_rmdir: if (path(p.a0)) p.kind = "unlink"; break;
    case SYS_unlinkat: if (path(p.a1)) p.kind = "unlink"; break;
    case SYS_rename: if (path(p.a0)) { p.kind = "rename"; p.target = peek(p.pid, p.a1); } break;
    case SYS_renameat: case SYS_renameat2: if (path(p.a1)) p.kind = "rename"; break;
    case SYS_link: case SYS_symlink: if (path(p.a0) || path(p.a1)) p.kind = "link"; break;
    case SYS_linkat: if (path(p.a1)) p.kind = "link"; break;
    case SYS_truncate: if (path(p.a0)) p.kind = "truncate"; break;
    case SYS_access: case SYS_stat: case SYS_lstat: if (path(p.a0)) p.kind = "look"; break;
    case SYS_faccessat: case SYS_newfstatat: case SYS_statx: case 439:
      if (path(p.a1)) p.kind = "look";
      else if (p.path.empty() && p.fds.count(p.a0)) { p.kind = "look"; p.path = p.fds[p.a0]; }
      break;
    case SYS_mkdir: case SYS_chmod: if (path(p.a0)) p.kind = "meta"; break;
    case SYS_flock: case SYS_fcntl: case SYS_fstat: case SYS_close: case SYS_write: case SYS_writev: case SYS_pwrite64:
    case SYS_ftruncate: case SYS_fsync: case SYS_fdatasync: case SYS_read: case SYS_dup: case SYS_dup2: case SYS_fallocate:
      if (p.fds.count(p.a0)) {
        p.path = p.fds[p.a0];
        p.kind = p.nr == SYS_flock || p.nr == SYS_fcntl ? "lock" : p.nr == SYS_close ? "close"
                 : p.nr == SYS_read ? "read" : p.nr == SYS_fstat ? "look" : "write";
      }
      break;
    case SYS_nanosleep: case SYS_clock_nanosleep: case SYS_poll: case SYS_select: case SYS_pselect6: case SYS_ppoll:
    case SYS_sched_yield: case SYS_pause:
      p.kind = "sleep"; p.skip = true; break;
    case SYS_getpriority:
      if (p.a0 == MARK) p.kind = "mark";
      break;
  }
  if (coarse && (p.kind == "write" || p.kind == "read" || p.nr == SYS_fstat ||
                 (p.kind == "look" && (p.path.size() < 4 || p.path.compare(p.path.size() - 4, 4, ".lck") != 0))))
    return false;
  return !p.kind.empty();
}

struct World {
  std::vector<Proc> ps;
  std::string log;               // events for the specification: [proc, what]
  std::string raw;               // system calls, for people
  long calls = 0;
  void event(int k, const char *w) { if (!log.empty()) log += ","; log += "[" + std::to_string(k) + ",\"" + w + "\"]"; }

  void spawn(const std::function<void()> &body) {
    Proc p;
    p.pid = fork();
    if (p.pid == 0) {
      ptrace(PTRACE_TRACEME, 0, 0, 0);
      raise(SIGSTOP);
      body();
      _exit(0);
    }
    int st;
    if (waitpid(p.pid, &st, 0) != p.pid || !WIFSTOPPED(st)) { fprintf(stderr, "driver: cannot trace\n"); _exit(5); }
    if (ptrace(PTRACE_SETOPTIONS, p.pid, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL) != 0) { fprintf(stderr, "driver: cannot trace\n"); _exit(5); }
    ps.push_back(p);
    cont(ps.size() - 1);
  }
  // wait for a process to stop; false if it does not (it waits inside a call)
  bool wait(Proc &p, int &st) {
    for (int n = 0;; n++) {
      pid_t r = waitpid(p.pid, &st, WNOHANG);
      if (r == p.pid) return true;
      if (n < 200) { continue; }
      usleep(n < 400 ? 20 : 500);
      if (n > 20 && n % 4 == 0) {
        std::ifstream f("/proc/" + std::to_string(p.pid) + "/stat");
        std::string s; std::getline(f, s);
        size_t c = s.rfind(')');
        static std::map<pid_t, int> asleep;
        if (c != std::string::npos && c + 2 < s.size() && s[c + 2] == 'S') { if (++asleep[p.pid] > 40) { asleep[p.pid] = 0; return false; } }
        else asleep[p.pid] = 0;
      }
      if (n > 8000) return false;
    }
  }
  void ended(size_t k, int st) { ps[k].finished = true; ps[k].status = st; ps[k].pending = false; }
  // let the process run to the entry of its next visible call
  void cont(size_t k) {
    Proc &p = ps[k];
    int sig = 0;
    for (;;) {
      ptrace(PTRACE_SYSCALL, p.pid, 0, sig);
      if (!arrive(k, sig)) return;
    }
  }
  // handle one stop; true: keep running
  bool arrive(size_t k, int &sig) {
    Proc &p = ps[k];
    int st;
    sig = 0;
    if (!wait(p, st)) { p.pending = true; return false; }
    p.pending = false;
    if (WIFEXITED(st) || WIFSIGNALED(st)) { ended(k, st); return false; }
    if (WSTOPSIG(st) == (SIGTRAP | 0x80)) {
      user_regs_struct r;
      ptrace(PTRACE_GETREGS, p.pid, 0, &r);
      if (!p.insys) {
        p.insys = true;
        if (classify(p, r)) {
          if (p.kind == "mark") {
            static const char *names[] = {"", "want", "got", "rel", "done"};
            event(k, names[p.a1 & 7]);
            return true;
          }
          return false;
        }
      } else {
        p.insys = false;
        if (!p.kind.empty() && p.kind != "mark") after(k, r);   // in coarse mode also calls that did not stop
        p.kind.clear();
      }
    } else if (WSTOPSIG(st) != SIGTRAP && WSTOPSIG(st) != SIGSTOP) sig = WSTOPSIG(st);
    return true;
  }
  bool data(const std::string &p) { return p.size() < 4 || p.compare(p.size() - 4, 4, ".lck") != 0; }
  void after(size_t k, const user_regs_struct &r) {
    Proc &p = ps[k];
    long ret = (long)r.rax;
    if (raw.size() < 20000) raw += std::to_string(k) + " " + p.kind + " " + p.path.substr(p.path.rfind('/') + 1) + " = " + std::to_string(ret) + "; ";
    if (p.kind == "open" && ret >= 0) { p.fds[ret] = p.path; if (data(p.path)) event(k, "dopen"); }
    if (p.kind == "close") { std::string path = p.fds[p.a0]; p.fds.erase(p.a0); if (data(path)) event(k, "dclose"); }
    if (p.kind == "write" && (p.nr == SYS_dup || p.nr == SYS_dup2) && ret >= 0) p.fds[ret] = p.path;
  }
  // one step of process k: make its visible call and run to the next one
  void step(size_t k) {
    Proc &p = ps[k];
    calls++;
    if (p.skip) {          // do not really sleep
      user_regs_struct r;
      ptrace(PTRACE_GETREGS, p.pid, 0, &r);
      r.orig_rax = (unsigned long long)-1;
      ptrace(PTRACE_SETREGS, p.pid, 0, &r);
      ptrace(PTRACE_SYSCALL, p.pid, 0, 0);
      int st;
      if (!wait(p, st)) { p.pending = true; return; }
      if (WIFEXITED(st) || WIFSIGNALED(st)) { ended(k, st); return; }
      ptrace(PTRACE_GETREGS, p.pid, 0, &r);
      r.rax = 0;
      ptrace(PTRACE_SETREGS, p.pid, 0, &r);
      p.insys = false;
      p.kind.clear();
    }
    cont(k);
  }
  void poll() {            // processes that were blocked in a call may have come back
    for (size_t k = 0; k < ps.size(); k++)
      if (ps[k].pending && !ps[k].finished) {
        int st;
        if (waitpid(ps[k].pid, &st, WNOHANG) == ps[k].pid) {
          Proc &p = ps[k];
          p.pending = false;
          if (WIFEXITED(st) || WIFSIGNALED(st)) { ended(k, st); continue; }
          if (WSTOPSIG(st) == (SIGTRAP | 0x80)) {   // exit of the blocking call
            user_regs_struct r;
            ptrace(PTRACE_GETREGS, p.pid, 0, &r);
            p.insys = false;
            if (!p.kind.empty() && p.kind != "mark") after(k, r);
            p.kind.clear();
          }
          cont(k);
        }
      }
  }
  bool runnable(size_t k) { return !ps[k].finished && !ps[k].pending; }
  bool alive() { for (auto &p : ps) if (!p.finished) return true; return false; }
  void kill(size_t k) {
    if (ps[k].finished) return;
    ::kill(ps[k].pid, SIGKILL);
    int st;
    while (waitpid(ps[k].pid, &st, 0) == ps[k].pid && !WIFEXITED(st) && !WIFSIGNALED(st)) {}
    ps[k].killed = true;
    ended(k, st);
    event(k, "killed");
  }
  void killall() { for (size_t k = 0; k < ps.size(); k++) kill(k); }
};

static double value_of(int p, int s, int k) { return p * 10000 + s * 100 + k; }
static void write_records(const std::string &path, int mode, const J &vals) {
  OutDataFile f(path, mode);
  for (auto &v : vals.a) f.dump((double)v.n);
}
// all numbers stored in the file, read by an untraced process; -1 where reading fails
static std::string contents(const std::string &path, long n) {
  if (!exists(path)) return "[-2]";
  int p[2];
  if (pipe(p)) _exit(3);
  pid_t pid = fork();
  if (pid == 0) {
    watchdog(5, 3);
    if (!getenv("VERIF_STDERR")) { int z = open("/dev/null", O_WRONLY); dup2(z, 2); }
    InDataFile f(path);
    for (long k = 0; k < n; k++) {
      double x;
      f.load(&x);
      std::string s = std::to_string((long)x) + ",";
      if (write(p[1], s.data(), s.size()) < 0) _exit(1);
    }
    _exit(0);
  }
  close(p[1]);
  std::string s; char b[4096];
  for (ssize_t k; (k = read(p[0], b, sizeof b)) > 0;) s.append(b, k);
  close(p[0]);
  int st; waitpid(pid, &st, 0);
  if (st != 0) s += "-1,";
  if (!s.empty()) s.erase(s.size() - 1);
  return "[" + s + "]";
}

// {"n":procs, "prog":[[sessions of process]], "sched":[...], "pre":[values]}
// session: {"kind":"out"|"in","recs":number}
OP("lock") {
  wipe();
  std::string path = scratch() + "/f";
  if (!c["pre"].a.empty()) write_records(path, 1, c["pre"]);
  unlink((path + ".lck").c_str());
  if (c.flag("stale")) spit(path + ".lck", "");
  World w;
  coarse = c.flag("coarse");
  const J &prog = c["prog"];
  for (size_t q = 0; q < prog.a.size(); q++)
    w.spawn([&] {
      if (c.flag("nostdin")) close(0);
      int z = open("/dev/null", O_WRONLY);
      if (!getenv("VERIF_STDERR")) { dup2(z, 2); dup2(z, 1); }
      if (z > 2) close(z); else if (z == 0) { /* keep descriptor 0 free */ dup2(z, 2); close(0); }
      for (size_t s = 0; s < prog.a[q].a.size(); s++) {
        const J &ss = prog.a[q].a[s];
        mark(WANT);
        if (ss.str("kind") == "out") {
          OutDataFile *f = new OutDataFile(path);
          mark(GOT);
          for (long k = 0; k < ss.i("recs"); k++) f->dump(value_of(q + 1, s, k));
          mark(REL);
          if (ss.flag("close")) f->close();
          delete f;
        } else {
          InDataFile *f = new InDataFile(path);
          mark(GOT);
          for (long k = 0; k < ss.i("recs"); k++) { double x; f->load(&x); if (x != c["pre"].a[k].n) abort(); }
          mark(REL);
          if (ss.flag("close")) f->close();
          delete f;
        }
        mark(DONE);
      }
    });
  size_t at = 0;
  const J &sched = c["sched"];
  size_t n = w.ps.size(), rr = 0;
  long limit = c.i("limit", 4000);
  int idle = 0;
  bool stuck = false;
  while (w.alive()) {
    w.poll();
    if (w.calls > limit || idle > 2000) { stuck = true; break; }
    long k = -1;
    if (at < sched.a.size()) {
      k = sched.a[at++].n;
      if (k < 0) { w.kill(-k - 1); continue; }
      if (!w.runnable(k)) continue;
    } else {
      for (size_t m = 0; m < n && k < 0; m++) if (w.runnable((rr + m) % n)) k = (rr + m) % n;
      rr++;
      if (k < 0) { idle++; usleep(500); continue; }
    }
    idle = 0;
    w.step(k);
  }
  std::string ends;
  w.killall();
  for (auto &p : w.ps) {
    if (!ends.empty()) ends += ",";
    ends += std::to_string(p.killed ? -1 : WIFSIGNALED(p.status) ? WTERMSIG(p.status) : WEXITSTATUS(p.status));
  }
  long total = c["pre"].a.size();
  for (auto &q : prog.a) for (auto &s : q.a) if (s.str("kind") == "out") total += s.i("recs");
  o.raw("log", "[" + w.log + "]");
  o.b("stuck", stuck);
  o.raw("ends", "[" + ends + "]");
  bool left = exists(path + ".lck");
  o.b("lck", left);
  unlink((path + ".lck").c_str());
  o.raw("data", contents(path, total));
  o.raw("extra", contents(path, total + 1));
  o.i("calls", w.calls);
  o.str("sys", c.flag("sys") ? w.raw : "");
  wipe();
}

// paranoid rewriting with a crash at every call: {"old":[..] or absent, "new":[..], "tmp":bool}
OP("crash") {
  std::string path = scratch() + "/f";
  int mode = c.i("mode", 4);
  std::vector<std::string> seen;      // distinct contents; 0: no file
  auto id = [&](const std::string &p) -> long {
    if (!exists(p)) return 0;
    std::string s = slurp(p);
    for (size_t k = 0; k < seen.size(); k++) if (seen[k] == s) return k + 1;
    seen.push_back(s);
    return seen.size();
  };
  coarse = false;
  auto prepare = [&] {
    wipe();
    if (mode < 0) write_records(path + ".src", 1, c["new"]);
    if (c.has("old")) write_records(path, 1, c["old"]);
    if (c.flag("tmp")) spit(path + ".tmp", "left by a process that died");
  };
  auto body = [&] {
    int z = open("/dev/null", O_WRONLY);
    if (!getenv("VERIF_STDERR")) { dup2(z, 2); dup2(z, 1); }
    if (mode < 0) { rename_file(path + ".src", path, true); return; }
    OutDataFile *f = new OutDataFile(path, mode);
    for (auto &v : c["new"].a) f->dump((double)v.n);
    if (c.flag("close")) f->close();
    delete f;
  };
  // the complete run
  prepare();
  long old = id(path);
  World w0;
  std::string during;
  w0.spawn(body);
  while (w0.alive() && w0.calls < 3000) {
    w0.poll();
    if (w0.runnable(0)) w0.step(0); else if (!w0.ps[0].finished) usleep(200);
    during += std::to_string(id(path)) + ",";
  }
  bool stuck = w0.alive();
  w0.killall();
  int end = WIFSIGNALED(w0.ps[0].status) ? WTERMSIG(w0.ps[0].status) : WEXITSTATUS(w0.ps[0].status);
  long fin = id(path);
  bool left = exists(path + (mode < 0 ? ".src" : ".tmp"));
  long total = c["new"].a.size() + (mode == 1 && c.has("old") ? c["old"].a.size() : 0);
  std::string got = contents(path, total), got2 = contents(path, total + 1);
  long n = w0.calls;
  if (!during.empty()) during.erase(during.size() - 1);
  // and a crash before each call, and right after it
  std::string states, redo;
  long stride = c.i("stride", 1);
  for (long k = 0; k <= n; k += 1) {
    if (k % stride != 0 && k < n - 12) continue;
    prepare();
    World w;
    w.spawn(body);
    for (long m = 0; m < k && w.alive(); m++) { if (w.runnable(0)) w.step(0); }
    w.killall();
    if (!states.empty()) states += ",";
    states += mode == 1 ? contents(path, total + 1) : std::to_string(id(path));
    if (mode != 4) continue;
    // a later rewriting is not disturbed by what the dead process left
    unlink((path + ".lck").c_str());
    pid_t pid = fork();
    if (pid == 0) { watchdog(5, 2); body(); _exit(0); }
    int st; waitpid(pid, &st, 0);
    if (!redo.empty()) redo += ",";
    redo += st == 0 ? contents(path, c["new"].a.size()) : "[-3]";
  }
  o.i("end", end);
  o.b("stuck", stuck);
  o.i("old", old);
  o.i("fin", fin);
  o.b("left", left);
  o.raw("got", got);
  o.raw("got2", got2);
  o.i("calls", n);
  o.raw("during", "[" + during + "]");
  o.raw("states", "[" + states + "]");
  o.raw("redo", "[" + redo + "]");
  o.str("sys", c.flag("sys") ? w0.raw : "");
  wipe();
}

int main(int argc, char **argv) { case_seconds() = 120; return run_cases(argc, argv); }
