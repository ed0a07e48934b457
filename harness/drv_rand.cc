// The random number generator of the library.
#include "tensors.hpp"
#include <tensor/rand.h>
#include <tensor/sparse.h>
using namespace vf;
using namespace tensor;
#include "rand_ops.hpp"

static std::string show(double x) { return unit(x); }
static std::string show(const cdouble &x) { return "[" + unit(x.real()) + "," + unit(x.imag()) + "]"; }
template<class T> std::string show(const T &t, bool) {
  std::string s = "[";
  for (long k = 0; k < t.size(); k++) s += (k ? "," : "") + show(t[k]);
  return s + "]";
}
template<class T> std::string tensor_op(const J &c) {
  std::vector<long> d;
  for (auto &x : c["d"].a) d.push_back(x.n);
  Indices D(d.size());
  for (size_t k = 0; k < d.size(); k++) D.at(k) = d[k];
  if (c.flag("fill")) {          // an existing tensor, with a copy that must not change
    T t = T::zeros(D), u(t);
    t.randomize();
    for (long k = 0; k < u.size(); k++) if (u[k] != typename T::elt_t(0)) return "[]";
    return show(t, true);
  }
  if (!c.flag("list")) switch (d.size()) {
    case 1: return show(T::random(d[0]), true);
    case 2: return show(T::random(d[0], d[1]), true);
    case 3: return show(T::random(d[0], d[1], d[2]), true);
    case 4: return show(T::random(d[0], d[1], d[2], d[3]), true);
    case 5: return show(T::random(d[0], d[1], d[2], d[3], d[4]), true);
    case 6: return show(T::random(d[0], d[1], d[2], d[3], d[4], d[5]), true);
  }
  return show(T::random(D), true);
}
static std::string draw(const J &c) {
  bool done;
  std::string s = scalar(c, done);
  if (done) return s;
  const std::string o = c.str("o");
  if (o == "R") return tensor_op<RTensor>(c);
  if (o == "C") return tensor_op<CTensor>(c);
  if (o == "S") { RTensor t = full(RSparse::random(c.i("n"), c.i("m"), c.i("pc") / 100.0)); return show(t, true); }
  if (o == "Z") { CTensor t = full(CSparse::random(c.i("n"), c.i("m"), c.i("pc") / 100.0)); return show(t, true); }
  _exit(3);
}
static std::string draws(const J &ops) {
  std::string s = "[";
  for (size_t k = 0; k < ops.a.size(); k++) s += (k ? "," : "") + draw(ops.a[k]);
  return s + "]";
}
static std::string fresh(const J &s) {   // a process that starts with RANDSEED in its environment
  int p[2];
  if (pipe(p)) _exit(4);
  std::string js;
  {
    js = "[";
    for (size_t k = 0; k < s["ops"].a.size(); k++) {
      const J &o = s["ops"].a[k];
      js += k ? ",{" : "{";
      bool first = true;
      for (auto &f : o.o) {
        js += (first ? "\"" : ",\"") + f.first + "\":";
        first = false;
        if (f.second.k == J::STR) js += "\"" + f.second.s + "\"";
        else if (f.second.k == J::ARR) { js += "["; for (size_t j = 0; j < f.second.a.size(); j++) js += (j ? "," : "") + std::to_string(f.second.a[j].n); js += "]"; }
        else js += std::to_string(f.second.n);
      }
      js += "}";
    }
    js += "]";
  }
  fflush(0);
  pid_t pid = fork();
  if (pid == 0) {
    dup2(p[1], 1); close(p[0]); close(p[1]);
    setenv("RANDSEED", std::to_string(s.i("env")).c_str(), 1);
    execl("/proc/self/exe", "fresh", "--fresh", js.c_str(), (char *)0);
    _exit(9);
  }
  close(p[1]);
  std::string out;
  char b[4096];
  for (ssize_t n; (n = read(p[0], b, sizeof b)) > 0;) out.append(b, n);
  close(p[0]);
  int st;
  waitpid(pid, &st, 0);
  size_t at = out.rfind("\n@");
  return WIFEXITED(st) && WEXITSTATUS(st) == 0 && at != std::string::npos ? out.substr(at + 2) : "[]";
}
static std::string segment(const J &s) {
  if (s.has("seed")) set_seed(unlimbs(s["seed"]));
  else if (s.flag("fresh")) return fresh(s);
  else {
    setenv("RANDSEED", std::to_string(s.i("env")).c_str(), 1);
    rand_reseed();
    unsetenv("RANDSEED");
  }
  return draws(s["ops"]);
}
static std::string all(const J &c) {
  std::string s = "[";
  for (size_t k = 0; k < c["segs"].a.size(); k++) s += (k ? "," : "") + segment(c["segs"].a[k]);
  return s + "]";
}
OP("rand") {
  std::string a = all(c);
  for (int k = 0; k < 5; k++) rand<double>();
  std::string b = all(c);
  o.b("same", a == b);
  o.raw("segs", a);
}
OP("twin") {
  std::string a = all(c), b = all(c);
  o.b("same", a == b);
}
int main(int argc, char **argv) {
  if (argc == 3 && !strcmp(argv[1], "--fresh")) {
    std::string s = draws(Parser(argv[2]).parse());
    std::cout << "\n@" << s;
    std::cout.flush();
    _exit(0);
  }
  case_seconds() = 60;
  return run_cases(argc, argv);
}
