// Histories of data-file sessions.  Every session runs in a process of its own
// inside the scratch directory; numbers travel as the bytes of their memory.
#include "common.hpp"
#include <tensor/sdf.h>
#include <tensor/tensor.h>
#include <sys/stat.h>
#include <dirent.h>
using namespace vf;
using namespace tensor;
using namespace sdf;

static std::string scratch() {
  const char *d = getenv("VERIF_SCRATCH");
  if (!d || !*d) _exit(3);
  return d;
}
static void fs_clear(const std::string &d) {       // links are removed, not followed
  if (DIR *h = opendir(d.c_str())) {
    while (dirent *e = readdir(h)) {
      std::string n = e->d_name;
      if (n == "." || n == "..") continue;
      n = d + "/" + n;
      struct stat sb;
      if (lstat(n.c_str(), &sb) == 0 && S_ISDIR(sb.st_mode)) { fs_clear(n); rmdir(n.c_str()); } else unlink(n.c_str());
    }
    closedir(h);
  }
}
static void wipe() { fs_clear(scratch()); }        // everything in the scratch directory

template<class T> T from_bytes(const J &b) {
  unsigned char v[sizeof(T)];
  if (b.a.size() != sizeof(T)) _exit(3);
  for (size_t k = 0; k < sizeof(T); k++) v[k] = b.a[k].n;
  T r; memcpy(&r, v, sizeof(T)); return r;
}
template<class T> std::string bytes(const T &x) {
  unsigned char v[sizeof(T)]; memcpy(v, &x, sizeof(T));
  std::string s = "[";
  for (size_t k = 0; k < sizeof(T); k++) { if (k) s += ","; s += std::to_string(v[k]); }
  return s + "]";
}
static std::string name_of(const J &b) { std::string s; for (auto &x : b.a) s += (char)x.n; return s; }
static Indices dims(const J &d) { Indices i(d.a.size()); for (size_t k = 0; k < d.a.size(); k++) i.at(k) = d.a[k].n; return i; }
static RTensor rten(const J &v) {
  RTensor t(dims(v["d"]));
  const J &e = v["e"];
  if ((size_t)t.size() != e.a.size()) _exit(3);
  for (size_t k = 0; k < e.a.size(); k++) t.at(k) = from_bytes<double>(e.a[k].a[0]);
  return t;
}
static CTensor cten(const J &v) {
  CTensor t(dims(v["d"]));
  const J &e = v["e"];
  if ((size_t)t.size() != e.a.size()) _exit(3);
  for (size_t k = 0; k < e.a.size(); k++) t.at(k) = cdouble(from_bytes<double>(e.a[k].a[0]), from_bytes<double>(e.a[k].a[1]));
  return t;
}
static std::string num(double x) { return "[" + bytes(x) + "]"; }
static std::string num(const cdouble &x) { return "[" + bytes(x.real()) + "," + bytes(x.imag()) + "]"; }
template<class T> std::string show(const T &t) {
  std::string s = "{\"d\":[";
  for (int k = 0; k < t.rank(); k++) { if (k) s += ","; s += std::to_string((long)t.dimension(k)); }
  s += "],\"e\":[";
  for (tensor::index k = 0; k < t.size(); k++) { if (k) s += ","; s += num(t[k]); }
  return s + "]}";
}
template<class T> std::string showv(const std::vector<T> &v) {
  std::string s = "[";
  for (size_t k = 0; k < v.size(); k++) { if (k) s += ","; s += show(v[k]); }
  return s + "]";
}

static void dump(OutDataFile &f, const J &st) {
  std::string t = st.str("t"), n = name_of(st["name"]);
  const J &v = st["v"];
  bool anon = n.empty() && st.flag("anon");      // leave the name argument out
#define DUMP(x) do { if (anon) f.dump(x); else f.dump(x, n); } while (0)
  if (t == "i") DUMP(from_bytes<int>(v));
  else if (t == "z") DUMP(from_bytes<size_t>(v));
  else if (t == "d") DUMP(from_bytes<double>(v));
  else if (t == "c") DUMP(cdouble(from_bytes<double>(v.a[0]), from_bytes<double>(v.a[1])));
  else if (t == "R") DUMP(rten(v));
  else if (t == "C") DUMP(cten(v));
  else if (t == "RV") { std::vector<RTensor> w; for (auto &x : v.a) w.push_back(rten(x)); DUMP(w); }
  else if (t == "CV") { std::vector<CTensor> w; for (auto &x : v.a) w.push_back(cten(x)); DUMP(w); }
  else _exit(3);
}
static std::string load(InDataFile &f, const J &st) {
  std::string t = st.str("t"), n = name_of(st["name"]);
  bool anon = n.empty() && st.flag("anon");
#define LOAD(x) do { if (anon) f.load(&x); else f.load(&x, n); } while (0)
  if (t == "i") { int x = 77; LOAD(x); return bytes(x); }
  if (t == "z") { size_t x = 77; LOAD(x); return bytes(x); }
  if (t == "d") { double x = 77; LOAD(x); return bytes(x); }
  if (t == "c") { cdouble x = 77; LOAD(x); return num(x); }
  // the targets hold something else before (of dimensions pd), and share it with copies, which must keep it
  Indices pd(st.has("pd") ? st["pd"].a.size() : 2);
  for (size_t k = 0; k < (size_t)pd.size(); k++) pd.at(k) = st.has("pd") ? (long)st["pd"].a[k].n : 2 + (long)k;
  bool kept = true;
  auto before = [&](auto *t) { typedef typename std::remove_pointer<decltype(t)>::type T; T x(pd); x.fill_with(7.0); return x; };
  auto check = [&](const auto &y) {
    kept = kept && y.rank() == pd.size();
    for (int k = 0; kept && k < y.rank(); k++) kept = y.dimension(k) == pd[k];
    for (tensor::index k = 0; kept && k < y.size(); k++) kept = y[k] == 7.0;
  };
  const char *lost = "{\"d\":[-1],\"e\":[]}";
  auto one = [&](auto *t) { auto x = before(t); const auto y = x; LOAD(x); check(y); return kept ? show(x) : std::string(lost); };
  auto many = [&](auto *t) {
    typedef typename std::remove_pointer<decltype(t)>::type T;
    std::vector<T> x;
    for (long k = 0; k < st.i("pre", 0); k++) x.push_back(before(t));
    const std::vector<T> y = x;
    LOAD(x);
    for (auto &z : y) check(z);
    return kept ? showv(x) : "[" + std::string(lost) + "]";
  };
  if (t == "R") return one((RTensor *)0);
  if (t == "C") return one((CTensor *)0);
  if (t == "RV") return many((RTensor *)0);
  if (t == "CV") return many((CTensor *)0);
  _exit(3);
}

struct Res { std::string steps; int died = 0; bool diag = false; };

static Res session(const std::function<void(const std::function<void(const std::string &)> &)> &body, unsigned seconds = 6) {
  int p[2];
  if (pipe(p)) _exit(3);
  int q[2];
  if (pipe2(q, O_NONBLOCK)) _exit(3);
  pid_t pid = fork();
  if (pid == 0) {
    ::close(p[0]);
    watchdog(seconds, 2);
    dup2(q[1], 2);
    bool first = true;
    auto emit = [&](const std::string &s) {
      std::string l = (first ? "" : ",") + s; first = false;
      if (write(p[1], l.data(), l.size()) != (ssize_t)l.size()) _exit(3);
    };
    body(emit);
    fflush(0);
    _exit(0);
  }
  ::close(p[1]);
  Res r;
  char buf[65536];
  for (ssize_t n; (n = read(p[0], buf, sizeof buf)) > 0;) r.steps.append(buf, n);
  ::close(p[0]);
  int st; waitpid(pid, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 3) _exit(3);
  r.died = WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st) ? 200 + WEXITSTATUS(st) : 0;
  r.diag = read(q[0], buf, sizeof buf) > 0;
  ::close(q[0]); ::close(q[1]);
  return r;
}
static std::string json(const Res &r) {
  return "{\"steps\":[" + r.steps + "],\"died\":" + std::to_string(r.died) + ",\"diag\":" + (r.diag ? "true" : "false") + "}";
}

static void run_session(const J &s, const std::string &path, const std::string &dir, const std::function<void(const std::string &)> &emit) {
  std::string kind = s.str("kind");
  int how = s.i("close", 0);           // 0: destructor, 1: close(), 2: close() twice
  if (s.has("limit")) {
    signal(SIGXFSZ, SIG_IGN);
    struct rlimit rl = {(rlim_t)s.i("limit"), (rlim_t)s.i("limit")};
    setrlimit(RLIMIT_FSIZE, &rl);
  }
  if (kind == "out") {
    OutDataFile *f = s.i("mode") == 1 && s.flag("defmode") ? new OutDataFile(path) : new OutDataFile(path, s.i("mode"));
    for (auto &st : s["steps"].a) { dump(*f, st); emit("[]"); }
    if (how) f->close();
    if (how == 2) f->close();
    delete f;
  } else if (kind == "crash") {          // a paranoid session that dies before it ends
    OutDataFile *f = new OutDataFile(path, DataFile::SDF_PARANOID);
    for (auto &st : s["steps"].a) dump(*f, st);
    _exit(0);
  } else if (kind == "two") {            // two files open at the same time
    const J *t[2] = {&s["x"], &s["y"]};
    OutDataFile *w[2] = {0, 0};
    InDataFile *r[2] = {0, 0};
    std::string got[2];
    size_t next[2] = {0, 0};
    auto say = [&](int k, const std::string &v) { got[k] += (got[k].empty() ? "" : ",") + v; };
    for (int k = 0; k < 2; k++) {
      std::string f = dir + t[k]->str("file");
      if (t[k]->str("kind") == "out") w[k] = new OutDataFile(f, t[k]->i("mode"));
      else { r[k] = new InDataFile(f, t[k]->i("mode")); say(k, "[]"); }
    }
    for (auto &o : s["order"].a) {
      int k = o.n;
      const J &st = (*t[k])["steps"].a[next[k]++];
      if (w[k]) { dump(*w[k], st); say(k, "[]"); } else say(k, "[" + load(*r[k], st) + "]");
    }
    for (int j = 0; j < 2; j++) {
      int k = s.flag("swap") ? 1 - j : j;
      if (t[k]->i("close", 0)) { if (w[k]) w[k]->close(); else r[k]->close(); }
      delete w[k];
      delete r[k];
    }
    emit("[" + got[0] + "]");
    emit("[" + got[1] + "]");
  } else {
    InDataFile *f = s.flag("defmode") ? new InDataFile(path) : new InDataFile(path, s.i("mode"));
    emit("[]");                          // opened
    for (auto &st : s["steps"].a) emit("[" + load(*f, st) + "]");
    if (how) f->close();
    if (how == 2) f->close();
    delete f;
  }
}
static long size_of(const std::string &p) { struct stat sb; return stat(p.c_str(), &sb) == 0 ? sb.st_size : -1; }

static void files_in(const std::string &d, const std::string &pre, std::vector<std::string> &out) {
  if (DIR *h = opendir(d.c_str())) {
    while (dirent *e = readdir(h)) {
      std::string n = e->d_name;
      if (n == "." || n == "..") continue;
      struct stat sb;
      if (lstat((d + "/" + n).c_str(), &sb)) continue;
      if (S_ISDIR(sb.st_mode)) files_in(d + "/" + n, pre + n + "/", out); else out.push_back(pre + n);
    }
    closedir(h);
  }
}

// a list of sessions over named files
OP("sdf") {
  wipe();
  std::string res;
  if (c.has("mkdirs")) for (auto &d : c["mkdirs"].a) if (mkdir((scratch() + "/" + d.s).c_str(), 0700)) _exit(3);
  char here[4096];
  if (!getcwd(here, sizeof here)) _exit(3);
  // names of files relative to the directory where the program is, or from the root
  if (c.flag("rel") && chdir(scratch().c_str())) _exit(3);
  std::string dir = c.flag("rel") ? c.str("pre") : scratch() + "/";
  for (auto &s : c["ss"].a) {
    std::string path = dir + s.str("file");
    std::string kind = s.str("kind");
    Res r;
    if (kind == "rename")
      r = session([&](const std::function<void(const std::string &)> &emit) {
        bool ok = rename_file(path, dir + s.str("to"), s.flag("overwrite"));
        emit(ok ? "[true]" : "[false]");
      });
    else if (kind == "delete")
      r = session([&](const std::function<void(const std::string &)> &emit) { emit(delete_file(path) ? "[true]" : "[false]"); });
    else
      r = session([&](const std::function<void(const std::string &)> &emit) { run_session(s, path, dir, emit); });
    if (!res.empty()) res += ",";
    res += json(r);
  }
  // what is left in the directory
  std::string left;
  for (auto &n : c["names"].a) {
    if (!left.empty()) left += ",";
    left += size_of(scratch() + "/" + n.s) >= 0 ? "true" : "false";
  }
  std::vector<std::string> all;
  files_in(scratch(), "", all);
  std::string extra;
  for (auto &f : all) {
    bool known = false;
    for (auto &n : c["names"].a) known = known || n.s == f;
    if (!known) extra += (extra.empty() ? "" : ",") + W::q(f);
  }
  o.raw("ss", "[" + res + "]");
  o.raw("left", "[" + left + "]");
  o.raw("extra", "[" + extra + "]");
  if (chdir(here)) _exit(3);
  wipe();
}

// write the records of "recs" one after the other in sessions of their own, then damage the file
static std::string slurp(const std::string &p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
static void spit(const std::string &p, const std::string &d) { std::ofstream f(p, std::ios::binary | std::ios::trunc); f << d; }

static std::vector<long> build_file(const J &recs, const std::string &path) {
  std::vector<long> sizes;
  for (size_t k = 0; k <= recs.a.size(); k++) {
    Res r = session([&](const std::function<void(const std::string &)> &) {
      OutDataFile f(path, DataFile::SDF_SHARED);
      if (k > 0) dump(f, recs.a[k - 1]);
    });
    sizes.push_back(r.died ? -1 : size_of(path));
  }
  return sizes;
}
static Res read_all(const J &reads, const std::string &path) {
  return session([&](const std::function<void(const std::string &)> &emit) {
    InDataFile f(path);
    emit("[]");
    for (auto &st : reads.a) emit("[" + load(f, st) + "]");
  });
}
static std::string listj(const std::vector<long> &v) { W w; return W::list(v); }

OP("sdfcut") {       // truncations at every offset of "cuts"
  wipe();
  std::string path = scratch() + "/f.dat", bad = scratch() + "/g.dat";
  std::vector<long> sizes = build_file(c["recs"], path);
  std::string all = slurp(path), res;
  std::vector<long> cuts;
  for (long k = c.i("from"); k <= (long)all.size() && k < c.i("to"); k++) cuts.push_back(k);
  for (long k : cuts) {
    spit(bad, all.substr(0, k));
    if (!res.empty()) res += ",";
    res += json(read_all(c["recs"], bad));
  }
  o.raw("sizes", listj(sizes));
  o.raw("cuts", listj(cuts));
  o.raw("reads", "[" + res + "]");
  wipe();
}
// one byte replaced; "at" counts from the start of record "rec" (0: the header)
OP("sdfflip") {
  wipe();
  std::string path = scratch() + "/f.dat", bad = scratch() + "/g.dat";
  std::vector<long> sizes = build_file(c["recs"], path);
  std::string all = slurp(path), res;
  long rec = c.i("rec"), base = rec == 0 ? 0 : sizes[rec - 1];
  for (auto &at : c["at"].a) {
    std::string d = all;
    if (base < 0 || (size_t)(base + at.a[0].n) >= d.size()) _exit(3);
    unsigned char &x = (unsigned char &)d[base + at.a[0].n];
    x ^= (unsigned char)at.a[1].n;
    spit(bad, d);
    if (!res.empty()) res += ",";
    res += json(read_all(c["recs"], bad));
  }
  o.raw("reads", "[" + res + "]");
  wipe();
}
// a file of arbitrary bytes
OP("sdfraw") {
  wipe();
  std::string bad = scratch() + "/g.dat", d;
  if (c.has("bytes")) { for (auto &b : c["bytes"].a) d += (char)b.n; spit(bad, d); }
  if (c.flag("dir")) mkdir(bad.c_str(), 0700);
  if (c.flag("nodir")) bad = scratch() + "/none/g.dat";
  Res r;
  if (c.flag("out"))
    r = session([&](const std::function<void(const std::string &)> &emit) { OutDataFile f(bad, c.i("mode")); dump(f, c["recs"].a[0]); emit("[]"); });
  else
    r = read_all(c["recs"], bad);
  o.raw("read", json(r));
  wipe();
}

// a file written and read in this process
OP("sdf_own") {
  wipe();
  std::string path = scratch() + "/own.dat";
  int how = c.i("close", 0);
  {
    OutDataFile f(path, c.i("mode"));
    for (auto &st : c["recs"].a) dump(f, st);
    if (how) f.close();
    if (how == 2) f.close();
  }
  {
    InDataFile f(path);
    for (auto &st : c["recs"].a) o.raw("x", load(f, st));
    if (how) f.close();
  }
  if (c.flag("move")) {
    rename_file(path, scratch() + "/own2.dat", true);
    path = scratch() + "/own2.dat";
  }
  o.b("gone", delete_file(path));
  wipe();
}

// ---- the helpers that look at files and move them
#include <sys/socket.h>
#include <sys/un.h>
#include <algorithm>
static std::string fs_root() { return scratch() + "/t"; }
static std::string fs_path(const J &p) {
  std::string s;
  for (auto &x : p.a) { if (!s.empty()) s += "/"; s += x.s == "@long" ? std::string(300, 'n') : x.s; }
  return s;
}
static void fs_list(const std::string &d, const std::string &pre, std::vector<std::string> &out) {
  if (DIR *h = opendir(d.c_str())) {
    while (dirent *e = readdir(h)) {
      std::string n = e->d_name;
      if (n == "." || n == "..") continue;
      std::string f = d + "/" + n, p = pre + (pre.empty() ? "" : ",") + W::q(n), k = "other", c = "[]";
      struct stat sb;
      if (lstat(f.c_str(), &sb)) continue;
      if (S_ISREG(sb.st_mode)) {
        k = "file";
        std::ifstream i(f.c_str());
        std::stringstream t; t << i.rdbuf();
        c = "[" + W::q(t.str()) + "]";
      }
      else if (S_ISDIR(sb.st_mode)) k = "dir";
      else if (S_ISSOCK(sb.st_mode)) k = "sock";
      else if (S_ISFIFO(sb.st_mode)) k = "fifo";
      else if (S_ISLNK(sb.st_mode)) {
        k = "link";
        char b[600];
        ssize_t m = readlink(f.c_str(), b, sizeof b);
        std::string t(b, m > 0 ? m : 0), r = fs_root() + "/";
        c = "[";
        if (t.compare(0, r.size(), r) == 0) {
          std::stringstream q(t.substr(r.size()));
          bool first = true;
          for (std::string x; std::getline(q, x, '/');) { c += (first ? "" : ",") + W::q(x); first = false; }
        } else c += W::q(t);
        c += "]";
      }
      out.push_back("{\"p\":[" + p + "],\"k\":\"" + k + "\",\"c\":" + c + "}");
      if (k == "dir") fs_list(f, p, out);
    }
    closedir(h);
  }
}
OP("fs") {
  wipe();
  std::string root = fs_root();
  fs_clear(root);
  mkdir(root.c_str(), 0700);
  std::string res;
  for (auto &st : c["steps"].a) {
    std::string k = st.str("o"), p = fs_path(st["p"]), pre = st.flag("rel") ? "" : root + "/";
    bool ret = true;
    Res r;
    // where there is something already, nothing is made
    if (k == "file") {
      int f = open((root + "/" + p).c_str(), O_CREAT | O_EXCL | O_WRONLY, 0644);
      const std::string &t = st["c"].a[0].s;
      if (f >= 0 && (write(f, t.data(), t.size()) != (ssize_t)t.size() || close(f))) _exit(3);
    }
    else if (k == "fifo") { if (mkfifo((root + "/" + p).c_str(), 0600)) r.died = 0; }
    else if (k == "link") { if (symlink((root + "/" + fs_path(st["c"])).c_str(), (root + "/" + p).c_str())) r.died = 0; }
    else if (k == "sock") {
      r = session([&](const std::function<void(const std::string &)> &) {
        if (chdir(root.c_str())) _exit(3);
        int s = socket(AF_UNIX, SOCK_STREAM, 0);
        sockaddr_un a;
        memset(&a, 0, sizeof a);
        a.sun_family = AF_UNIX;
        strncpy(a.sun_path, p.c_str(), sizeof a.sun_path - 1);
        if (s < 0 || (bind(s, (sockaddr *)&a, sizeof a) && errno != EADDRINUSE && errno != ENOENT && errno != ENOTDIR && errno != ELOOP)) _exit(3);
      });
    }
    else {
      r = session([&](const std::function<void(const std::string &)> &emit) {
        int n = open("/dev/null", O_WRONLY);
        dup2(n, 1);
        if (chdir(root.c_str())) _exit(3);
        umask(st.i("umask", 0));
        std::string f = pre + p;
        if (st.flag("empty")) f = "";
        bool b = false;
        if (k == "exists") b = file_exists(f);
        else if (k == "isdir") b = isdir(f);
        else if (k == "mkdir") b = st.flag("defmode") ? make_directory(f) : make_directory(f, st.i("mode", 0));
        else if (k == "delete") b = delete_file(f);
        else if (k == "rename") {
          std::string q = pre + fs_path(st["q"]);
          b = st.flag("ow") && st.flag("defow") ? rename_file(f, q) : rename_file(f, q, st.flag("ow"));
        }
        else _exit(3);
        mode_t m = umask(0);
        emit((b ? "1" : "0") + std::to_string((int)m));
      });
      ret = r.steps[0] == '1';
    }
    int um = r.steps.size() > 1 ? atoi(r.steps.c_str() + 1) : (int)st.i("umask", 0), mode = 0;
    struct stat sb;
    if (k == "mkdir" && stat((root + "/" + p).c_str(), &sb) == 0) mode = sb.st_mode & 0777;
    std::vector<std::string> tree;
    fs_list(root, "", tree);
    std::sort(tree.begin(), tree.end());
    res += std::string(res.empty() ? "" : ",") + "{\"ret\":" + (ret ? "true" : "false") + ",\"died\":" + std::to_string(r.died) + ",\"diag\":" +
           (r.diag ? "true" : "false") + ",\"umask\":" + std::to_string(um) + ",\"mode\":" + std::to_string(mode) + ",\"tree\":[";
    for (size_t j = 0; j < tree.size(); j++) res += (j ? "," : "") + tree[j];
    res += "]}";
  }
  o.raw("steps", "[" + res + "]");
  fs_clear(root);
  wipe();
}

int main(int argc, char **argv) { case_seconds() = 100; return run_cases(argc, argv); }
