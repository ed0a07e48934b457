// Jobs, flags: command lines and histories, each run in a process of its own
// whose standard output is recorded too.
#include "tensors.hpp"
#include <tensor/jobs.h>
#include <tensor/flags.h>
#include <tensor/sdf.h>
#include <tensor/tools.h>
#include <time.h>
#include <sys/stat.h>
#include <dirent.h>
using namespace vf;
using namespace tensor;

static std::string scratch() {
  const char *d = getenv("VERIF_SCRATCH");
  if (!d || !*d) _exit(3);
  return d;
}
static void wipe(const std::string &d) {   // plain files of the scratch directory and of its own subdirectories
  if (DIR *h = opendir(d.c_str())) {
    while (dirent *e = readdir(h)) {
      std::string n = e->d_name;
      if (n == "." || n == "..") continue;
      n = d + "/" + n;
      struct stat st;
      if (lstat(n.c_str(), &st)) continue;
      if (S_ISDIR(st.st_mode)) { wipe(n); rmdir(n.c_str()); }
      else unlink(n.c_str());
    }
    closedir(h);
  }
}
static std::string text(const J &b) { std::string s; for (auto &x : b.a) s += (char)x.n; return s; }
static std::string codes(const std::string &s) {
  std::string r = "[";
  for (size_t k = 0; k < s.size(); k++) { if (k) r += ","; r += std::to_string((unsigned char)s[k]); }
  return r + "]";
}

// f writes its findings; st: 0 normal return, 100+n exit(n), -n killed by signal n
struct Ran { int st; std::string got, out; };
static Ran run(const std::function<void(const std::function<void(const std::string &)> &)> &f) {
  Ran r;
  int p[2], q[2];
  if (pipe(p) || pipe(q)) _exit(4);
  fflush(0);
  pid_t pid = fork();
  if (pid == 0) {
    close(p[0]); close(q[0]);
    dup2(q[1], 1);
    int null = open("/dev/null", O_WRONLY);
    dup2(null, 2);
    watchdog(10);
    f([&](const std::string &s) { if (write(p[1], s.data(), s.size()) != (ssize_t)s.size()) _exit(4); });
    std::cout.flush(); fflush(stdout);
    if (write(p[1], "\x01", 1) != 1) _exit(4);
    _exit(0);
  }
  close(p[1]); close(q[1]);
  char b[4096];
  // the pipes are small: read both as they come
  for (bool a = true, c = true; a || c;) {
    fd_set s; FD_ZERO(&s);
    if (a) FD_SET(p[0], &s);
    if (c) FD_SET(q[0], &s);
    select(std::max(p[0], q[0]) + 1, &s, 0, 0, 0);
    if (a && FD_ISSET(p[0], &s)) { ssize_t n = read(p[0], b, sizeof b); if (n <= 0) a = false; else r.got.append(b, n); }
    if (c && FD_ISSET(q[0], &s)) { ssize_t n = read(q[0], b, sizeof b); if (n <= 0) c = false; else r.out.append(b, n); }
  }
  close(p[0]); close(q[0]);
  int st; waitpid(pid, &st, 0);
  bool normal = r.got.size() && r.got.back() == '\x01';
  if (normal) r.got.erase(r.got.size() - 1);
  r.st = WIFSIGNALED(st) ? -WTERMSIG(st) : normal ? 0 : 100 + WEXITSTATUS(st);
  return r;
}
static void result(W &w, const Ran &r) {
  w.i("st", r.st);
  w.raw("got", r.st == 0 ? "[" + r.got + "]" : "[]");
  w.raw("out", codes(r.out.substr(0, 4000)));
}

// --------------------------------------------------------------------- jobs
static const double JS = 1e6;
static std::vector<std::string> args(const J &v, std::string dir) {
  std::vector<std::string> a;
  for (auto &x : v.a) {
    std::string s = text(x);
    if (s.compare(0, 2, "@/") == 0) s = dir + s.substr(1);    // a file of the scratch directory
    a.push_back(s);
  }
  return a;
}
static std::string values(const jobs::Job &j, const J &names) {
  std::string s = "[";
  for (size_t k = 0; k < names.a.size(); k++) {
    if (k) s += ",";
    s += std::to_string(fix(j.get_value(text(names.a[k])), JS));
  }
  return s + "]";
}

static Reg r_job("job", [](const J &c, W &w) {
  std::string dir = scratch();
  wipe(dir);
  for (auto &f : c["files"].a) {
    std::ofstream o((dir + "/" + text(f["name"])).c_str());
    o << text(f["text"]);
  }
  Ran r = run([&](const std::function<void(const std::string &)> &put) {
    std::vector<std::string> a = args(c["argv"], dir);
    std::vector<const char *> v;
    for (auto &x : a) v.push_back(x.c_str());
    v.push_back(0);
    jobs::Job j((int)a.size(), &v[0]);
    put(std::to_string(j.number_of_jobs()) + ",[");
    int n = 0;
    bool more = false;
    for (; j.to_do(); ++j) {
      if (n == c.i("max")) { more = true; break; }
      put((n ? ",[" : "[") + std::to_string(j.current_job()) + "," + values(j, c["names"]) + "]");
      n++;
    }
    put(more ? "],true" : "],false");
    if (c.has("default")) {
      put(",[");
      bool first = true;
      for (auto &x : c["default"].a) {
        put((first ? "" : ",") + std::to_string(fix(j.get_value_with_default(text(x), 123.25), JS)));
        first = false;
      }
      put("]");
    }
    if (c.has("want")) j.get_value(text(c["want"]));
  });
  result(w, r);
});

// the intervals of jobs of all the blocks of a grid
static Reg r_split("split", [](const J &c, W &w) {
  std::string dir = scratch();
  wipe(dir);
  for (auto &f : c["files"].a) {
    std::ofstream o((dir + "/" + text(f["name"])).c_str());
    o << text(f["text"]);
  }
  Ran r = run([&](const std::function<void(const std::string &)> &put) {
    for (long b = 0; b < c.i("nb"); b++) {
      std::vector<std::string> a = args(c["argv"], dir);
      a.push_back("--job-blocks"); a.push_back(std::to_string(c.i("nb")));
      a.push_back("--this-job"); a.push_back(std::to_string(b));
      std::vector<const char *> v;
      for (auto &x : a) v.push_back(x.c_str());
      v.push_back(0);
      jobs::Job j((int)a.size(), &v[0]);
      long first = j.to_do() ? j.current_job() : 0, n = 0;
      bool ok = true;
      for (; j.to_do() && n < 1000000; ++j, n++) ok = ok && j.current_job() == first + n;
      put((b ? ",[" : "[") + std::to_string(first) + "," + std::to_string(n) + "," + (ok ? "1" : "0") + "]");
    }
  });
  result(w, r);
});

// what a file of variables holds: [ok, [values]]
static std::string load(const std::string &file, const J &names) {
  Ran r = run([&](const std::function<void(const std::string &)> &put) {
    sdf::InDataFile f(file);
    std::string s = "[";
    for (size_t k = 0; k < names.a.size(); k++) {
      double x;
      f.load(&x, text(names.a[k]));
      if (k) s += ",";
      s += std::to_string(fix(x, JS));
    }
    put(s + "]");
  });
  return r.st == 0 ? r.got : "[-999]";
}

// grids with more jobs than an int can count
static Reg r_grid("grid", [](const J &c, W &w) {
  std::string dir = scratch(), all, set = dir + "/set";
  wipe(dir);
  auto vals = [&](const std::function<double(const std::string &)> &get) {
    std::string s = "[";
    for (size_t k = 0; k < c["names"].a.size(); k++) s += (k ? "," : "") + std::to_string(lround(100 * get(text(c["names"].a[k]))));
    return s + "]";
  };
  for (auto &inv : c["runs"].a) {
    Ran r = run([&](const std::function<void(const std::string &)> &put) {
      std::vector<std::string> a = args(inv["argv"], dir);
      std::vector<const char *> v;
      for (auto &x : a) v.push_back(x.c_str());
      v.push_back(0);
      jobs::Job j((int)a.size(), &v[0]);
      put(codes(std::to_string(j.number_of_jobs())) + ",[");
      int n = 0;
      bool more = false;
      for (; j.to_do(); ++j, n++) {
        if (n == c.i("max")) { more = true; break; }
        bool before = j.dataset_record_exists(set), opened = false;
        {
          jobs::Job::dataset d = j.open_dataset(set);
          if (&*d) { opened = true; j.dump_variables(*d); d->close(); }
        }
        put((n ? ",[" : "[") + codes(std::to_string(j.current_job())) + "," + vals([&](const std::string &x) { return j.get_value(x); }) + "," +
            (before ? "1" : "0") + "," + (opened ? "1" : "0") + "," + (j.dataset_record_exists(set) ? "1" : "0") + "]");
      }
      put(more ? "],true" : "],false");
    });
    all += (all.size() ? ",[" : "[") + std::to_string(r.st) + "," + (r.st == 0 ? r.got : "[],[],false") + "]";
  }
  w.raw("runs", "[" + all + "]");
  std::string files, values;
  if (DIR *h = opendir(set.c_str())) {
    while (dirent *e = readdir(h)) {
      std::string n = e->d_name;
      if (n == "." || n == "..") continue;
      files += (files.size() ? "," : "") + codes(n);
      Ran r = run([&](const std::function<void(const std::string &)> &put) {
        sdf::InDataFile f(set + "/" + n);
        put(vals([&](const std::string &x) { double d; f.load(&d, x); return d; }));
      });
      values += (values.size() ? "," : "") + (r.st == 0 ? r.got : "[-999]");
    }
    closedir(h);
  }
  w.raw("files", "[" + files + "]");
  w.raw("values", "[" + values + "]");
});

// several invocations of a program that computes a data set
static Reg r_camp("campaign", [](const J &c, W &w) {
  std::string dir = scratch();
  wipe(dir);
  for (auto &f : c["files"].a) {
    std::ofstream o((dir + "/" + text(f["name"])).c_str());
    o << text(f["text"]);
  }
  std::string set = dir + "/set";
  if (c.i("pre", 0) == 1) mkdir(set.c_str(), 0755);
  if (c.i("pre", 0) == 2) { std::ofstream o(set.c_str()); o << "x"; }
  std::string all;
  for (auto &inv : c["runs"].a) {
    Ran r = run([&](const std::function<void(const std::string &)> &put) {
      std::vector<std::string> a = args(inv["argv"], dir);
      std::vector<const char *> v;
      for (auto &x : a) v.push_back(x.c_str());
      v.push_back(0);
      jobs::Job j((int)a.size(), &v[0]);
      bool first = true;
      for (long n = 0; j.to_do(); ++j, n++) {
        bool before = j.dataset_record_exists(set), opened = false;
        std::string during = "false";
        {
          jobs::Job::dataset d = j.open_dataset(set);
          if (&*d) {
            opened = true;
            if (n == inv.i("die", -1)) { put(first ? "" : ","); put("[" + std::to_string(j.current_job()) + ",-1]"); _exit(7); }
            j.dump_variables(*d);
            d->close();
          }
        }
        put((first ? "[" : ",[") + std::to_string(j.current_job()) + "," + (before ? "1" : "0") + "," + (opened ? "1" : "0") + "," +
            (j.dataset_record_exists(set) ? "1" : "0") + "]");
        first = false;
      }
    });
    if (all.size()) all += ",";
    all += "[" + std::to_string(r.st) + ",[" + r.got + "]]";
  }
  w.raw("runs", "[" + all + "]");
  std::vector<long> jobs;
  std::vector<std::string> odd;
  if (DIR *h = opendir(set.c_str())) {
    while (dirent *e = readdir(h)) {
      std::string n = e->d_name;
      if (n == "." || n == "..") continue;
      char *end; long k = strtol(n.c_str(), &end, 10);
      if (*end == 0 && n == std::to_string(k)) jobs.push_back(k); else odd.push_back(n);
    }
    closedir(h);
  }
  std::sort(jobs.begin(), jobs.end());
  w.raw("jobs", W::list(jobs));
  w.i("odd", odd.size());
  std::string s = "[";
  for (size_t k = 0; k < jobs.size(); k++) s += (k ? "," : "") + load(set + "/" + std::to_string(jobs[k]), c["names"]);
  w.raw("values", s + "]");
});

// -------------------------------------------------------------------- flags
static Reg r_flags("flags", [](const J &c, W &w) {
  Ran r = run([&](const std::function<void(const std::string &)> &put) {
    std::vector<Flags> own(2);
    std::vector<std::vector<unsigned> > keys(3);
    bool first = true;
    for (auto &o : c["ops"].a) {
      int t = o.i("t");
      Flags &f = t == 2 ? FLAGS : own[t];
      const std::string a = o.str("o");
      auto key = [&](const char *n) -> unsigned {
        if (o.has("bad")) {       // a key nobody created
          unsigned m = t == 2 ? TENSOR_DEBUG_BLOCK_SVD + 1 : 0;
          for (unsigned k : keys[t]) m = std::max(m, k + 1);
          return o.i("bad") < 0 ? 0u - (unsigned)(-o.i("bad")) : m + (unsigned)o.i("bad");
        }
        return o.i(n) == -1 ? TENSOR_DEBUG_BLOCK_SVD : keys[t].at(o.i(n));
      };
      double v = o.i("v", 0);
      long long res = 0;
      if (a == "create") { unsigned k = f.create_key(v); keys[t].push_back(k); res = k; }
      else if (a == "set") { Flags &g = f.set(key("k"), v); res = &g == &f; }
      else if (a == "set2") { f.set(key("k"), v).set(key("k2"), v + 1); res = 1; }
      else if (a == "get") res = enc(f.get(key("k")));
      else if (a == "copy") { own[0] = own[1]; keys[0] = keys[1]; }
      else if (a == "special") res = TENSOR_DEBUG_BLOCK_SVD;
      else _exit(3);
      put((first ? "" : ",") + std::to_string(res));
      first = false;
    }
  });
  w.i("st", r.st);
  w.raw("got", "[" + r.got + "]");
});

// the stopwatch, in microseconds since the driver's first look at the clock
static long usec() { timespec t; clock_gettime(CLOCK_REALTIME, &t); return t.tv_sec * 1000000L + t.tv_nsec / 1000; }
OP("clock") {
  long zero = usec();
  std::vector<double> tics;
  std::string h;
  for (auto &st : c["ops"].a) {
    std::string k = st.str("o");
    long b = usec() - zero;
    double v = 0;
    if (k == "tic") { v = tic(); tics.push_back(v); v -= tics[0]; }
    else if (k == "toc") v = toc();
    else if (k == "tocw") v = toc(tics.at(st.i("k") - 1));
    else if (k == "sleep") { timespec t = {st.i("us") / 1000000, (st.i("us") % 1000000) * 1000}; nanosleep(&t, 0); }
    else if (k == "busy") { while (usec() - zero - b < st.i("us")) {} }
    else if (k == "edge") { long left = 1000000 - usec() % 1000000 - 4000; if (left > 0) { timespec t = {0, left * 1000}; nanosleep(&t, 0); } }
    else _exit(3);
    long a = usec() - zero + 1;
    double m = v * 1e6;
    h += (h.empty() ? "" : ",") + std::string("{\"o\":\"") + k + "\",\"b\":" + std::to_string(b) + ",\"a\":" + std::to_string(a) + ",\"v\":" +
         std::to_string(m > -1e9 && m < 1e9 ? (long)m : 1000000000L) + ",\"k\":" + std::to_string(st.i("k", 0)) + "}";
  }
  o.raw("h", "[" + h + "]");
}

int main(int argc, char **argv) { case_seconds() = 100; return run_cases(argc, argv); }
