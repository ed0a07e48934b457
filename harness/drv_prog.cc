// Random programs: a pool of live tensors, each step an operation of the library
// on some of them whose result replaces one of them.  The program is drawn here,
// from the shapes at hand; the trace tells each step and all the pool after it.
#include "tensors.hpp"
#include <tensor/gen.h>
#include <variant>
#include <random>
using namespace vf;
using namespace tensor;

typedef std::variant<RTensor, CTensor> Any;

struct Prog {
  std::vector<Any> pool;
  std::mt19937 gen;
  W w;

  int rnd(int a, int b) { return a + (int)(gen() % (unsigned)(b - a + 1)); }   // a..b
  bool chance(int percent) { return rnd(1, 100) <= percent; }

  static const Indices &dims(const Any &a) { return a.index() ? std::get<1>(a).dimensions() : std::get<0>(a).dimensions(); }
  static idx size(const Any &a) { return a.index() ? std::get<1>(a).size() : std::get<0>(a).size(); }
  static int rank(const Any &a) { return (int)dims(a).size(); }
  bool big(const Any &a) const {
    return std::visit([](auto &t) {
      for (idx k = 0; k < t.size(); k++) if (std::abs(t[k]) > 2000) return true;
      return false;
    }, a);
  }
  std::string show(const Any &a) const { return std::visit([&](auto &t) { return val(w, t); }, a); }

  // the value of a step takes the place of object k: assigned when the types agree
  template<class T> void store(int k, const T &v) {
    if (T *p = std::get_if<T>(&pool[k])) *p = v; else pool[k] = v;
  }

  static std::string num(long v) { return std::to_string(v); }
  static std::string list(const std::vector<long> &v) { std::string s = "["; for (size_t k = 0; k < v.size(); k++) s += (k ? "," : "") + num(v[k]); return s + "]"; }
  std::string number(bool c, int lim) { return "[" + num(rnd(-lim, lim)) + "," + num(c ? rnd(-lim, lim) : 0) + "]"; }

  std::string fresh(int to) {
    static const std::vector<std::vector<long>> shapes = {{1}, {2}, {3}, {4}, {6}, {2, 2}, {2, 3}, {3, 2}, {3, 3}, {1, 3}, {4, 1}, {2, 2, 2}, {2, 3, 2}, {3, 1, 2},
                                                          {1, 2, 1, 3}, {2, 2, 2, 2}, {0}, {2, 0}, {1, 1, 1}, {12}, {24}};
    std::vector<long> d = shapes[rnd(0, shapes.size() - 1)];
    bool c = chance(40);
    long n = 1;
    for (long x : d) n *= x;
    std::string e;
    for (long k = 0; k < n; k++) e += (k ? "," : "") + number(c, 4);
    return "{\"op\":\"ctor\",\"to\":" + num(to) + ",\"c\":" + (c ? "true" : "false") + ",\"d\":" + list(d) + ",\"e\":[" + e + "]}";
  }
  std::string range_of(long n, long *count) {
    int k = n ? rnd(0, 3) : 4;
    if (k == 0) { *count = 1; return "[\"s\"," + num(rnd(0, n - 1)) + "]"; }
    if (k == 1) { long a = rnd(0, n - 1), b = rnd(a, n - 1); *count = b - a + 1; return "[\"r\"," + num(a) + "," + num(b) + "]"; }
    if (k == 2) {
      std::vector<long> v;
      for (int j = rnd(1, (int)n); j; j--) v.push_back(rnd(0, n - 1));
      *count = v.size();
      return "[\"i\"," + list(v) + "]";
    }
    *count = n;
    return "[\"f\"]";
  }
  // distinct: no position twice (what is written twice has no one value)
  std::string ranges(const Indices &d, long *count, bool distinct) {
    std::string s = "[";
    *count = 1;
    for (idx k = 0; k < d.size(); k++) {
      long n;
      std::string r;
      do r = range_of(d[k], &n); while (distinct && r[2] == 'i');
      *count *= n;
      s += (k ? "," : "") + r;
    }
    return s + "]";
  }

  // one step, as a call of the trace, or "" when what was drawn does not fit
  std::string draw() {
    int N = pool.size(), to = rnd(0, N - 1), i = rnd(0, N - 1), j = rnd(0, N - 1);
    for (int k = 0; k < N; k++) if (big(pool[k]) || size(pool[k]) > 48) return fresh(k);
    const Any &x = pool[i], &y = pool[j];
    int r = rank(x), q = rank(y);
    bool cx = x.index(), cy = y.index();
    auto call = [&](const std::string &op, const std::string &more = "") {
      return "{\"op\":\"" + op + "\",\"to\":" + num(to) + ",\"x\":" + num(i) + more + "}";
    };
    std::string Y = ",\"y\":" + num(j);
    auto same = [&]() { if (r != q) return false; for (int k = 0; k < r; k++) if (dims(x)[k] != dims(y)[k]) return false; return true; };
    auto ij = [&](long a, long b) { return ",\"i\":" + num(a) + ",\"j\":" + num(b); };
    switch (rnd(0, 33)) {
      case 0: case 1: return chance(25) ? fresh(to) : "";
      case 2: case 3: case 4: case 5: return call("assign", Y);
      case 6: case 7: { static const char *o[] = {"t+t", "t-t", "t*t"}; return same() ? call(o[rnd(0, 2)], Y) : ""; }
      case 8: case 9: {
        static const char *o[] = {"t+=t", "t-=t", "t*=t"};
        if (!same() || (cy && !cx)) return "";
        to = i;
        return call(o[rnd(0, 2)], Y);
      }
      case 10: { static const char *o[] = {"t+n", "t-n", "t*n", "n+t", "n-t", "n*t"}; bool nc = chance(40); return call(o[rnd(0, 5)], ",\"n\":" + number(nc, 3) + (nc ? ",\"nc\":true" : "")); }
      case 11: { static const char *o[] = {"t+=n", "t-=n", "t*=n"}; bool nc = cx && chance(40); to = i; return call(o[rnd(0, 2)], ",\"n\":" + number(nc, 3) + (nc ? ",\"nc\":true" : "")); }
      case 12: { static const char *o[] = {"neg", "conj", "real", "imag", "to_complex"}; return call(o[rnd(0, 4)]); }
      case 13: case 14: case 15: {
        if (!r || !q) return "";
        long a = rnd(0, r - 1), b = rnd(0, q - 1);
        if (dims(x)[a] != dims(y)[b] || !dims(x)[a] || r + q - 2 > 5 || size(x) / dims(x)[a] * (size(y) / dims(y)[b]) > 48) return "";
        if (chance(30)) a -= r;
        if (chance(30)) b -= q;
        int k = rnd(0, 3);
        if (k == 2 && cx != cy) k = 0;
        if (k == 3) return dims(x)[r - 1] == dims(y)[0] && dims(y)[0] ? call("mmult", Y) : "";
        static const char *o[] = {"fold", "foldc", "foldin"};
        return call(o[k], Y + ij(a, b));
      }
      case 16: return r ? call("permute", ij(rnd(-r, r - 1), rnd(-r, r - 1))) : "";
      case 17: return r == 2 ? call(chance(50) ? "transpose" : "adjoint") : "";
      case 18: case 19: case 20: {
        int k = rnd(0, 2);
        if (k == 0) return call("flatten");
        if (k == 1) return call("squeeze");
        long n = size(x), f = n ? rnd(1, (int)n) : 0;
        if (n && n % f) f = 1;
        std::vector<long> d = n == 0 ? std::vector<long>{0, rnd(0, 3)} : chance(50) ? std::vector<long>{f, n / f} : std::vector<long>{n / f, 1, f};
        if (chance(50)) { to = i; return call("reshape", ",\"in\":true,\"d\":" + list(d)); }
        return call("reshape", ",\"d\":" + list(d));
      }
      case 21: return r ? call("change_dimension", ",\"i\":" + num(rnd(-r, r - 1)) + ",\"n\":" + num(rnd(0, 4))) : "";
      case 22: case 23: { long n; if (!r) return ""; std::string g = ranges(dims(x), &n, false); return n <= 48 ? call("view", ",\"rg\":" + g) : ""; }
      case 24: case 25: case 26: {
        if (!r) return "";
        long n, m = -1;
        std::string g = ranges(dims(x), &n, true), h;
        to = i;
        switch (rnd(0, 3)) {
          case 0: return call("vset", ",\"rg\":" + g + ",\"src\":\"n\",\"n\":" + number(cx, 9));
          case 1:
            if (size(y) != n || cx != cy) return "";
            return call("vset", ",\"rg\":" + g + ",\"src\":\"" + (i == j ? "self" : "t") + "\"" + Y);
          case 2:
            if (!q || cx != cy || i == j) return "";
            for (int k = 0; k < 20 && m != n; k++) h = ranges(dims(y), &m, false);
            return m == n ? call("vset", ",\"rg\":" + g + ",\"src\":\"v\",\"rg2\":" + h + Y) : "";
          default:
            for (int k = 0; k < 20 && m != n; k++) h = ranges(dims(x), &m, false);
            return m == n ? call("vset", ",\"rg\":" + g + ",\"src\":\"selfview\",\"rg2\":" + h) : "";
        }
      }
      case 27: case 28: {
        long n = size(x);
        if (!n) return "";
        to = i;
        if (chance(50)) return call("setseq", ",\"i\":" + num(rnd(0, n - 1)) + ",\"n\":" + number(cx, 9));
        std::vector<long> v;
        for (int k = 0; k < r; k++) v.push_back(rnd(chance(30) ? -dims(x)[k] : 0, dims(x)[k] - 1));
        return call("set", ",\"i\":" + list(v) + ",\"n\":" + number(cx, 9));
      }
      case 29: { static const char *o[] = {"kron", "kron2"}; return cx == cy && r == q && r <= 2 && r >= 1 && size(x) * size(y) <= 48 && size(x) && size(y) ? call(o[rnd(0, 1)], Y) : ""; }
      case 30: return r == 1 && size(x) <= 4 ? call("diag", ",\"w\":" + num(rnd(-1, 1))) : "";
      case 31: {
        if (r < 2 || !size(x)) return "";
        long a = rnd(0, r - 1), b = rnd(0, r - 1);
        return a != b ? call("take_diag", ij(a, b) + ",\"w\":0") : "";
      }
      case 32: {
        if (!r) return "";
        for (int k = 0; k < r; k++)
          if (dims(x)[k] == size(y) && size(y) && (cx || !cy)) { if (chance(40)) { to = i; return call("scale_inplace", ",\"i\":" + num(k) + Y); } return call("scale", ",\"i\":" + num(k) + Y); }
        return "";
      }
      default: { to = i; return call("fill", cx ? ",\"n\":" + number(true, 5) : ",\"n\":" + number(false, 5)); }
    }
  }

  template<class T> void step1(const std::string &op, int to, T &x, const J &s) {     // x is the object itself
    const T &cx = x;
    typedef typename T::elt_t E;
    auto tn = [&](auto n) {
      if (op == "t+n") store(to, cx + n); else if (op == "t-n") store(to, cx - n); else if (op == "t*n") store(to, cx * n);
      else if (op == "n+t") store(to, n + cx); else if (op == "n-t") store(to, n - cx); else store(to, n * cx);
    };
    if (op == "neg") store(to, -cx);
    else if (op == "conj") store(to, conj(cx));
    else if (op == "real") store(to, real(cx));
    else if (op == "imag") store(to, imag(cx));
    else if (op == "to_complex") store(to, to_complex(cx));
    else if (op == "permute") store(to, permute(cx, s.i("i"), s.i("j")));
    else if (op == "transpose") store(to, transpose(cx));
    else if (op == "adjoint") store(to, adjoint(cx));
    else if (op == "flatten") store(to, flatten(cx));
    else if (op == "squeeze") store(to, squeeze(cx));
    else if (op == "reshape") { if (s.flag("in")) x.reshape(ind(s["d"])); else store(to, reshape(cx, ind(s["d"]))); }
    else if (op == "change_dimension") store(to, change_dimension(cx, (int)s.i("i"), s.i("n")));
    else if (op == "view") store(to, getview(cx, s["rg"]));
    else if (op == "setseq") x.at_seq(s.i("i")) = mknum<E>(s["n"]);
    else if (op == "set") atel(x, s["i"]) = mknum<E>(s["n"]);
    else if (op == "diag") store(to, diag(cx, s.i("w")));
    else if (op == "take_diag") store(to, take_diag(cx, s.i("w"), s.i("i"), s.i("j")));
    else if (op == "fill") x.fill_with(mknum<E>(s["n"]));
    else if (op == "vset") {
      const std::string k = s.str("src");
      if (k == "n") { E n = mknum<E>(s["n"]); withmview(x, s["rg"], [&](auto &&m) { m = n; }); }
      else if (k == "self") withmview(x, s["rg"], [&](auto &&m) { m = cx; });
      else if (k == "selfview") withview(cx, s["rg2"], [&](auto &&v) { withmview(x, s["rg"], [&](auto &&m) { m = v; }); });
      else {
        const T &y = std::get<T>(pool[s.i("y")]);
        if (k == "t") withmview(x, s["rg"], [&](auto &&m) { m = y; });
        else withview(y, s["rg2"], [&](auto &&v) { withmview(x, s["rg"], [&](auto &&m) { m = v; }); });
      }
    }
    else if (op.size() == 4 && op[0] == 't' && op[2] == '=' && op[3] == 'n') {
      auto f = [&](auto n) { if (op[1] == '+') x += n; else if (op[1] == '-') x -= n; else x *= n; };
      if constexpr (is_c<T>::v) { if (s.flag("nc")) f(mknum<cdouble>(s["n"])); else f(mknum<double>(s["n"])); }
      else f(mknum<double>(s["n"]));
    }
    else if (s.flag("nc")) tn(mknum<cdouble>(s["n"]));
    else tn(mknum<double>(s["n"]));
  }
  template<class T, class U> void step2(const std::string &op, int to, T &x, const U &y, const J &s) {
    const T &cx = x;
    if (op == "t+t") store(to, cx + y);
    else if (op == "t-t") store(to, cx - y);
    else if (op == "t*t") store(to, cx * y);
    else if (op == "fold") store(to, fold(cx, s.i("i"), y, s.i("j")));
    else if (op == "foldc") store(to, foldc(cx, s.i("i"), y, s.i("j")));
    else if (op == "mmult") store(to, mmult(cx, y));
    else if constexpr (is_c<T>::v || !is_c<U>::v) {
      if (op == "t+=t") x += y;
      else if (op == "t-=t") x -= y;
      else if (op == "t*=t") x *= y;
      else if (op == "scale") store(to, scale(cx, (int)s.i("i"), y));
      else if (op == "scale_inplace") scale_inplace(x, (int)s.i("i"), y);
      else if constexpr (std::is_same<T, U>::value) {
        if (op == "kron") store(to, kron(cx, y));
        else if (op == "kron2") store(to, kron2(cx, y));
        else if (op == "foldin") store(to, foldin(cx, s.i("i"), y, s.i("j")));
        else { fprintf(stderr, "driver: operation %s\n", op.c_str()); _exit(3); }
      }
      else { fprintf(stderr, "driver: operation %s\n", op.c_str()); _exit(3); }
    }
    else { fprintf(stderr, "driver: operation %s\n", op.c_str()); _exit(3); }
  }
  void perform(const J &s) {
    const std::string op = s.str("op");
    int to = s.i("to");
    if (op == "ctor") { if (s["c"].b) store(to, mk<CTensor>(s)); else store(to, mk<RTensor>(s)); return; }
    if (op == "assign") {       // from the object itself
      const Any &y = pool[s.i("y")];
      if (y.index() == pool[to].index()) {
        if (y.index()) std::get<1>(pool[to]) = std::get<1>(y); else std::get<0>(pool[to]) = std::get<0>(y);
      } else { Any copy = y; pool[to] = copy; }
      return;
    }
    Any &x = pool[s.i("x")];
    if (s.has("y") && op != "vset")
      std::visit([&](auto &a, auto &b) { step2(op, to, a, b, s); }, x, pool[s.i("y")]);
    else
      std::visit([&](auto &a) { step1(op, to, a, s); }, x);
  }
};

OP("prog") {
  Prog p;
  p.gen.seed(c.i("seed"));
  p.pool.resize(c.i("objects"));
  auto all = [&]() {
    std::string r;
    for (size_t m = 0; m < p.pool.size(); m++) r += (m ? "," : "") + p.show(p.pool[m]);
    return "[" + r + "]";
  };
  std::string init, steps;
  for (size_t k = 0; k < p.pool.size(); k++) {
    std::string s = p.fresh(k);
    p.perform(Parser(s).parse());
    init += (k ? "," : "") + s;
  }
  o.raw("init", "[" + init + "]");
  o.raw("start", all());
  for (int k = 0; k < c.i("steps"); k++) {
    std::string s;
    while (s.empty()) s = p.draw();
    p.perform(Parser(s).parse());
    s.insert(s.size() - 1, ",\"pool\":" + all());
    steps += (k ? "," : "") + s;
  }
  o.raw("steps", "[" + steps + "]");
}

int main(int argc, char **argv) { return run_cases(argc, argv); }
