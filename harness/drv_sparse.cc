// Sparse matrices.  s: {"c":bool,"d":[rows,cols],"rs":[..],"cl":[..],"e":[[re,im],..]}
#include "tensors.hpp"
#include <tensor/sparse.h>
#include <tensor/rand.h>
#include <unistd.h>
#include <variant>
#include <random>
using namespace vf;
using namespace tensor;

static bool slack;      // there are preallocated elements: only those in use are written
template<class S> S mks(const J &j) {
  typedef typename S::elt_t N;
  if (j.has("cap")) {     // preallocated, and filled as the comments of the public members say
    slack = true;
    S s((long)j["d"].a[0].n, (long)j["d"].a[1].n, j.i("cap"));
    Indices rs = ind(j["rs"]), cl = ind(j["cl"]);
    for (long k = 0; k < rs.size(); k++) s.row_start_.at(k) = rs[k];
    for (long k = 0; k < cl.size(); k++) { s.column_.at(k) = cl[k]; put(j["e"].a[k], j.i("q", 1), s.data_.at(k)); }
    return s;
  }
  Tensor<N> data((long)j["e"].a.size());
  double q = j.i("q", 1);
  for (size_t k = 0; k < j["e"].a.size(); k++) put(j["e"].a[k], q, data.at(k));
  return S(ind(j["d"]), ind(j["rs"]), ind(j["cl"]), data);
}
template<class N> std::string sval(const W &w, const Sparse<N> &s) {
  long n = s.priv_data().size();
  Indices cl = s.priv_column();
  if (slack && s.length() <= n && s.length() <= cl.size()) {
    Indices used(n = s.length());
    for (long k = 0; k < n; k++) used.at(k) = cl[k];
    cl = used;
  }
  std::string r = std::string("{\"c\":") + (is_c<N>::v ? "true" : "false") + ",\"d\":" + W::list(s.dimensions()) +
    ",\"rs\":" + W::list(s.priv_row_start()) + ",\"cl\":" + W::list(cl) + ",\"e\":[";
  for (long k = 0; k < n; k++) { if (k) r += ","; r += w.num1(s.priv_data()[k]); }
  return r + "]}";
}
// everything a user can see of a sparse matrix
template<class N> void see(W &o, const Sparse<N> &s) {
  o.raw("s", sval(o, s));
  o.raw("f", val(o, full(s)));
  std::string g = "[";
  for (long j = 0; j < s.columns(); j++)
    for (long i = 0; i < s.rows(); i++) { if (g.size() > 1) g += ","; g += o.num1((i + j) % 2 ? s(i - s.rows(), j) : s(i, j - s.columns())); }
  o.raw("g", g + "]");
  o.raw("n", "[" + std::to_string(s.rows()) + "," + std::to_string(s.columns()) + "," + std::to_string(s.dimension(0)) + "," +
        std::to_string(s.dimension(1)) + "," + std::to_string(s.length()) + "," + (s.is_empty() ? "1" : "0") + "]");
  // a copy is independent, an assigned one too
  Sparse<N> a(s), b;
  b = s;
  if (a.priv_data().size()) a.data_.at(0) = a.data_[0] + N(1);
  if (b.column_.size()) b.column_.at(0) = 77;
  b.row_start_.at(0) = 55;
  b.dims_.at(0) = 33;
  // one assigned over a matrix of the same dimensions, with as many elements in each row
  auto f = full(s);
  auto g2 = f;
  for (long i = 0; i < s.rows(); i++) for (long j = 0; j < s.columns(); j++) g2.at(i, j) = f(i, s.columns() - 1 - j);
  Sparse<N> over(g2);
  over = s;
  o.raw("s3", sval(o, over));
  o.raw("s2", sval(o, s));
}
template<class N> bool same(const Sparse<N> &a, const Sparse<N> &b) {
  return samebits(a.priv_data(), b.priv_data()) && W::list(a.dimensions()) == W::list(b.dimensions()) &&
    W::list(a.priv_row_start()) == W::list(b.priv_row_start()) && W::list(a.priv_column()) == W::list(b.priv_column());
}
template<class F> void pickS(const J &j, F f) { if (j["c"].b) f((CSparse *)0); else f((RSparse *)0); }
#define TY(t) typename std::remove_pointer<decltype(t)>::type

// ------------------------------------------------------------- construction
OP("sp_dense") {
  pick(c["x"], [&](auto *t) {
    typedef TY(t) T;
    Arg<T> x(c["x"], c.flag("sh"));
    Sparse<typename T::elt_t> s(x.v);
    see(o, s);
    if (s.data_.size()) s.data_.at(0) = 5;
    if (!x.intact()) o.i("post", 1);
  });
}
OP("sp_trip") {
  pick(c["x"], [&](auto *t) {
    typedef TY(t) T;
    Arg<T> x(c["x"], c.flag("sh"));
    Indices r = ind(c["rows"]), q = ind(c["cols"]);
    typedef Sparse<typename T::elt_t> S;
    S s = c.has("nr") ? (c.has("nc") ? S(r, q, x.v, c.i("nr"), c.i("nc")) : S(r, q, x.v, c.i("nr"))) : S(r, q, x.v);
    see(o, s);
    if (!x.intact() || W::list(r) != W::list(ind(c["rows"])) || W::list(q) != W::list(ind(c["cols"]))) o.i("post", 1);
  });
}
OP("sp_repr") { pickS(c["s"], [&](auto *t) { see(o, mks<TY(t)>(c["s"])); }); }
OP("sp_none") { if (c.flag("c")) see(o, CSparse()); else see(o, RSparse()); }
OP("sp_zero") {
  if (c.has("cap")) {
    slack = true;
    if (c.flag("c")) see(o, CSparse(c.i("n"), c.i("m"), c.i("cap"))); else see(o, RSparse(c.i("n"), c.i("m"), c.i("cap")));
  } else if (c.flag("c")) see(o, CSparse(c.i("n"), c.i("m"))); else see(o, RSparse(c.i("n"), c.i("m")));
}
OP("sp_eye") {
  bool one = !c.has("m");
  if (c.flag("c")) see(o, one ? CSparse::eye(c.i("n")) : CSparse::eye(c.i("n"), c.i("m")));
  else see(o, one ? RSparse::eye(c.i("n")) : RSparse::eye(c.i("n"), c.i("m")));
}
OP("sp_random") {      // numbers are written in units of 2^-20, rounded
  o.scale = 1048576.0; o.fixed = true;
  set_seed(c.i("seed"));
  double d = c.i("pc") / 100.0;
  if (c.flag("c")) see(o, c.flag("def") ? CSparse::random(c.i("n"), c.i("m")) : CSparse::random(c.i("n"), c.i("m"), d));
  else see(o, c.flag("def") ? RSparse::random(c.i("n"), c.i("m")) : RSparse::random(c.i("n"), c.i("m"), d));
}
OP("sp_conv") {
  RSparse x = mks<RSparse>(c["s"]), x0 = mks<RSparse>(c["s"]);
  CSparse s;
  if (c.i("how") == 0) s = x; else if (c.i("how") == 1) s = CSparse(x); else s = to_complex(x);
  see(o, s);
  if (s.data_.size()) s.data_.at(0) = cdouble(5, 5);
  if (!same(x, x0)) o.i("post", 1);
}
OP("sp_get") {
  pickS(c["s"], [&](auto *t) {
    auto s = mks<TY(t)>(c["s"]);
    o.raw("v", o.num1(s(far(c.i("i")), far(c.i("j")))));
  });
}
OP("sp_dim") { pickS(c["s"], [&](auto *t) { auto s = mks<TY(t)>(c["s"]); o.i("v", s.dimension((int)c.i("i"))); }); }
OP("sp_equal") {
  pickS(c["s"], [&](auto *t) {
    auto s = mks<TY(t)>(c["s"]);
    {
      auto v = mks<TY(t)>(c["t"]);
      auto fv = full(v);
      o.raw("v", std::string("[") + (all_equal(s, v) ? "true" : "false") + "," + (all_equal(s, fv) ? "true" : "false") + "," +
            (all_equal(fv, s) ? "true" : "false") + "]");
    }
  });
}

// ------------------------------------------------------------------ algebra
template<class R, class S> void done(W &o, const R &r, const S &s, const S &s0) {
  o.raw("s", sval(o, r));
  o.raw("f", val(o, full(r)));
  R q(r);                       // writing to the result must not change the argument
  if (q.data_.size()) q.data_.at(0) = 12345;
  if (q.column_.size()) q.column_.at(0) = 77;
  q.row_start_.at(0) = 7;
  if (!same(s, s0)) o.i("post", 1);
}
OP("sp_un") {
  const std::string k = c.str("k");
  o.scale = c.i("sc", 1);
  pickS(c["s"], [&](auto *t) {
    typedef TY(t) S;
    const S s = mks<S>(c["s"]), s0 = mks<S>(c["s"]);
    if (k == "neg") done(o, S(-s), s, s0);
    else if (k == "transpose") done(o, S(transpose(s)), s, s0);
    else if (k == "adjoint") done(o, S(adjoint(s)), s, s0);
    else if (k == "conj") done(o, S(conj(s)), s, s0);
    else if (k == "real") done(o, RSparse(real(s)), s, s0);
    else if (k == "imag") done(o, RSparse(imag(s)), s, s0);
    else if (k == "copy") { S b; b = s; b = *&b; done(o, b, s, s0); }
    else _exit(3);
  });
}
template<class S, class N> void nop(W &o, const std::string &k, const S &s, const S &s0, N n) {
  if (k == "*") done(o, s * n, s, s0);
  else if (k == "/") done(o, s / n, s, s0);
  else if (k == "n*") done(o, n * s, s, s0);
  else _exit(3);
}
OP("sp_num") {
  o.scale = c.i("sc", 1);
  pickS(c["s"], [&](auto *t) {
    typedef TY(t) S;
    const S s = mks<S>(c["s"]), s0 = mks<S>(c["s"]);
    if (c.flag("nc")) nop(o, c.str("k"), s, s0, mknum<cdouble>(c["n"]));
    else nop(o, c.str("k"), s, s0, mknum<double>(c["n"]));
  });
}
template<class A, class B> struct mix { template<class F> static void go(F f, const A &a, const B &b) { f(a, b); } };
template<class A, class B> void arith(W &o, const std::string &k, const A &a, const A &a0, const B &b) {
  if (k == "+") done(o, a + b, a, a0);
  else if (k == "-") done(o, a - b, a, a0);
  else if (k == "*") done(o, a * b, a, a0);
  else _exit(3);
}
template<class A> void krons(W &o, const std::string &k, const A &a, const A &a0, const A &b) {
  if (k == "kron") done(o, A(kron(a, b)), a, a0);
  else if (k == "kron2") done(o, A(kron2(a, b)), a, a0);
  else if (k == "kron2_sum") done(o, A(kron2_sum(a, b)), a, a0);
  else _exit(3);
}
OP("sp_bin") {
  const std::string k = c.str("k");
  o.scale = c.i("sc", 1);
  pickS(c["s"], [&](auto *t) {
    typedef TY(t) S;
    const S s = mks<S>(c["s"]), s0 = mks<S>(c["s"]);
    if (c.flag("al")) {           // both arguments are the same object
      if (k[0] == 'k') krons(o, k, s, s0, s); else arith(o, k, s, s0, s);
      return;
    }
    pickS(c["t"], [&](auto *u) {
      typedef TY(u) U;
      const U v = mks<U>(c["t"]), v0 = mks<U>(c["t"]);
      if (k[0] == 'k') {
        if constexpr (is_c<typename S::elt_t>::v || is_c<typename U::elt_t>::v) krons(o, k, CSparse(s), CSparse(s0), CSparse(v));
        else krons(o, k, s, s0, v);
      } else arith(o, k, s, s0, v);
      if (!same(v, v0)) o.i("post", 1);
    });
  });
}
template<class S, class T> void mm(W &o, const J &c, const S &s, const T &x) {
  if (c.str("k") == "st") o.raw("v", val(o, mmult(s, x))); else o.raw("v", val(o, mmult(x, s)));
}
// mixtures of real and complex are converted by the caller: the library has no overload for them
inline void mm(W &o, const J &c, const RSparse &s, const CTensor &x) { mm(o, c, CSparse(s), x); }
inline void mm(W &o, const J &c, const CSparse &s, const RTensor &x) { mm(o, c, s, to_complex(x)); }
OP("sp_mm") {      // k: "st" sparse * tensor, "ts" tensor * sparse
  pickS(c["s"], [&](auto *t) {
    typedef TY(t) S;
    const S s = mks<S>(c["s"]), s0 = mks<S>(c["s"]);
    pick(c["x"], [&](auto *u) {
      typedef TY(u) T;
      Arg<T> x(c["x"], c.flag("sh"));
      const T &xv = x.v;
      mm(o, c, s, xv);
      if (!same(s, s0) || !x.intact()) o.i("post", 1);
    });
  });
}
// ------------------------------------------------------------------ programs
// A pool of live sparse matrices; each step is drawn here from the dimensions at
// hand, and its result replaces one of the pool, which is then shown whole.
struct SProg {
  typedef std::variant<RSparse, CSparse> Any;
  std::vector<Any> pool;
  std::mt19937 gen;
  W w;
  int rnd(int a, int b) { return a + (int)(gen() % (unsigned)(b - a + 1)); }
  bool chance(int percent) { return rnd(1, 100) <= percent; }
  static std::string num(long v) { return std::to_string(v); }
  std::string number(bool c, int lim) { return "[" + num(rnd(-lim, lim)) + "," + num(c ? rnd(-lim, lim) : 0) + "]"; }
  static long rows(const Any &a) { return std::visit([](auto &s) { return (long)s.rows(); }, a); }
  static long cols(const Any &a) { return std::visit([](auto &s) { return (long)s.columns(); }, a); }
  static long used(const Any &a) { return std::visit([](auto &s) { return (long)s.length(); }, a); }
  std::string show(const Any &a) const { return std::visit([&](auto &s) { return sval(w, s); }, a); }
  static bool big(const Any &a) {
    return std::visit([](auto &s) {
      for (long k = 0; k < s.length(); k++) if (std::abs(s.priv_data()[k]) > 2000) return true;
      return s.rows() * s.columns() > 64;
    }, a);
  }
  template<class S> void store(int k, const S &v) { if (S *p = std::get_if<S>(&pool[k])) *p = v; else pool[k] = v; }

  std::string dense(long n, long m, bool c) {
    int p = std::vector<int>{0, 15, 35, 35, 60, 100}[rnd(0, 5)];
    std::string e;
    for (long k = 0; k < n * m; k++) e += (k ? "," : "") + (chance(p) ? number(c, 4) : std::string("[0,0]"));
    return std::string("{\"c\":") + (c ? "true" : "false") + ",\"d\":[" + num(n) + "," + num(m) + "],\"e\":[" + e + "]}";
  }
  std::string fresh(int to) {
    static const std::vector<std::pair<int, int>> shapes = {{1, 1}, {2, 2}, {2, 2}, {2, 3}, {3, 2}, {3, 3}, {3, 3}, {1, 3}, {4, 1}, {2, 4}, {4, 4}, {5, 5}, {0, 2}};
    auto d = shapes[rnd(0, shapes.size() - 1)];
    return "{\"op\":\"ctor\",\"to\":" + num(to) + ",\"v\":" + dense(d.first, d.second, chance(40)) + "}";
  }
  std::string draw() {
    int N = pool.size(), to = rnd(0, N - 1), i = rnd(0, N - 1), j = rnd(0, N - 1);
    for (int k = 0; k < N; k++) if (big(pool[k])) return fresh(k);
    const Any &x = pool[i], &y = pool[j];
    long n = rows(x), m = cols(x), n2 = rows(y), m2 = cols(y);
    auto call = [&](const std::string &op, const std::string &more = "") {
      return "{\"op\":\"" + op + "\",\"to\":" + num(to) + ",\"x\":" + num(i) + more + "}";
    };
    std::string Y = ",\"y\":" + num(j);
    switch (rnd(0, 12)) {
      case 0: return chance(30) ? fresh(to) : "";
      case 1: case 2: return call("assign");
      case 3: case 4: { static const char *o[] = {"neg", "transpose", "transpose", "adjoint", "adjoint", "conj", "real", "imag"}; return call(o[rnd(0, 7)]); }
      case 5: { bool nc = chance(40); return call(chance(50) ? "*" : "n*", ",\"n\":" + number(nc, 3) + (nc ? ",\"nc\":true" : "")); }
      case 6: case 7: case 8: case 9: { static const char *o[] = {"+", "-", "*"}; return n == n2 && m == m2 ? call(std::string("t") + o[rnd(0, 2)], Y) : ""; }
      case 10: {
        if (x.index() != y.index() || n * n2 * m * m2 > 64) return "";
        if (n == m && n2 == m2 && n && n2 && chance(50)) return call("kron2_sum", Y);
        return call(chance(50) ? "kron" : "kron2", Y);
      }
      case 11: {
        if (!n || !m) return "";
        bool left = chance(50);
        return call(left ? "st" : "ts", ",\"v\":" + (left ? dense(m, rnd(1, 3), x.index()) : dense(rnd(1, 3), n, x.index())));
      }
      default: {       // a write to the public member
        if (!used(x)) return "";
        to = i;
        return call("poke", ",\"i\":" + num(rnd(0, used(x) - 1)) + ",\"n\":" + number(x.index(), 9));
      }
    }
  }
  template<class S> void unary(const std::string &op, int to, S &x, const J &s) {
    typedef typename S::elt_t E;
    const S &cx = x;
    if (op == "assign") store(to, cx);
    else if (op == "neg") store(to, S(-cx));
    else if (op == "transpose") store(to, S(transpose(cx)));
    else if (op == "adjoint") store(to, S(adjoint(cx)));
    else if (op == "conj") store(to, S(conj(cx)));
    else if (op == "real") store(to, RSparse(real(cx)));
    else if (op == "imag") store(to, RSparse(imag(cx)));
    else if (op == "*" || op == "n*") {
      auto f = [&](auto n) { if (op[0] == 'n') store(to, n * cx); else store(to, cx * n); };
      if (s.flag("nc")) f(mknum<cdouble>(s["n"])); else f(mknum<double>(s["n"]));
    }
    else if (op == "st") store(to, S(mmult(cx, mk<Tensor<E>>(s["v"]))));
    else if (op == "ts") store(to, S(mmult(mk<Tensor<E>>(s["v"]), cx)));
    else if (op == "poke") x.data_.at(s.i("i")) = mknum<E>(s["n"]);
    else _exit(3);
  }
  template<class S, class U> void binary(const std::string &op, int to, const S &x, const U &y) {
    if (op == "t+") store(to, x + y);
    else if (op == "t-") store(to, x - y);
    else if (op == "t*") store(to, x * y);
    else if constexpr (std::is_same<S, U>::value) {
      if (op == "kron") store(to, S(kron(x, y)));
      else if (op == "kron2") store(to, S(kron2(x, y)));
      else if (op == "kron2_sum") store(to, S(kron2_sum(x, y)));
      else _exit(3);
    } else _exit(3);
  }
  void perform(const J &s) {
    const std::string op = s.str("op");
    int to = s.i("to");
    if (op == "ctor") {
      if (s["v"]["c"].b) store(to, CSparse(mk<CTensor>(s["v"]))); else store(to, RSparse(mk<RTensor>(s["v"])));
    } else if (s.has("y")) std::visit([&](auto &a, auto &b) { binary(op, to, a, b); }, pool[s.i("x")], pool[s.i("y")]);
    else if (op == "assign" && pool[s.i("x")].index() != pool[to].index()) { Any copy = pool[s.i("x")]; pool[to] = copy; }
    else std::visit([&](auto &a) { unary(op, to, a, s); }, pool[s.i("x")]);
  }
};
OP("sp_prog") {
  SProg p;
  p.gen.seed(c.i("seed"));
  p.pool.resize(c.i("objects"));
  auto all = [&]() {
    std::string r;
    for (size_t m = 0; m < p.pool.size(); m++) r += (m ? "," : "") + p.show(p.pool[m]);
    return "[" + r + "]";
  };
  for (size_t k = 0; k < p.pool.size(); k++) p.perform(Parser(p.fresh(k)).parse());
  o.raw("start", all());
  std::string steps;
  for (int k = 0; k < c.i("steps"); k++) {
    std::string s;
    while (s.empty()) s = p.draw();
    J j = Parser(s).parse();
    p.perform(j);
    const SProg::Any &v = p.pool[j.i("to")];
    std::string eq;          // equal to which of the pool, as dense matrices and mixed
    for (size_t m = 0; m < p.pool.size(); m++)
      std::visit([&](auto &a, auto &b) {
        CSparse ca = CSparse(a), cb = CSparse(b);
        CTensor fa = full(ca), fb = full(cb);
        bool q = all_equal(ca, fb);
        bool q2 = all_equal(fb, ca), q3 = all_equal(fa, cb);
        eq += (m ? "," : "") + std::string(q == q2 && q == q3 ? (q ? "1" : "0") : "2");
      }, v, p.pool[m]);
    s.insert(s.size() - 1, ",\"pool\":" + all() + ",\"f\":" + std::visit([&](auto &a) { return val(o, full(a)); }, v) + ",\"eq\":[" + eq + "]");
    steps += (k ? "," : "") + s;
  }
  o.raw("steps", "[" + steps + "]");
}
// ------------------------------------ more columns than an int can count (TraceWide)
// numbers in limbs of four digits; entries [row, column, [re, im]]
static long wlong(const J &j) { long v = 0; for (size_t k = j.a.size(); k-- > 0;) v = v * 10000 + (long)j.a[k].n; return v; }
static std::string limbs(long v) {
  if (v < 0) return "[-1]";
  std::string s = "[";
  for (; v; v /= 10000) s += (s.size() > 1 ? "," : "") + std::to_string(v % 10000);
  return s + "]";
}
template<class N> std::string wval(const W &w, const Sparse<N> &s) {
  std::string r = std::string("{\"c\":") + (is_c<N>::v ? "true" : "false") + ",\"d\":[" + std::to_string(s.rows()) + "," + limbs(s.columns()) +
    "],\"rs\":[";
  const Indices &rs = s.priv_row_start();
  for (long k = 0, l; k < rs.size(); k = l) {
    for (l = k; l < rs.size() && rs[l] == rs[k]; ) l++;
    r += (k ? ",[" : "[") + std::to_string(rs[k]) + "," + std::to_string(l - k) + "]";
  }
  r += "],\"cl\":[";
  for (long k = 0; k < s.priv_column().size(); k++) r += (k ? "," : "") + limbs(s.priv_column()[k]);
  r += "],\"e\":[";
  for (long k = 0; k < s.priv_data().size(); k++) r += (k ? "," : "") + w.num1(s.priv_data()[k]);
  return r + "]}";
}
template<class S> S wtrip(const J &s) {
  long l = s["ent"].a.size();
  Indices r(l), q(l);
  Tensor<typename S::elt_t> x(l);
  for (long k = 0; k < l; k++) {
    const J &e = s["ent"].a[k];
    r.at(k) = (long)e.a[0].n; q.at(k) = wlong(e.a[1]); put(e.a[2], 1.0, x.at(k));
  }
  return S(r, q, x, s.i("n"), wlong(s["m"]));
}
template<class S> S wrepr(const J &s) {      // entries in order
  long l = s["ent"].a.size(), n = s.i("n");
  Indices rs(n + 1), cl(l);
  Tensor<typename S::elt_t> x(l);
  long k = 0;
  for (long i = 0; i < n; i++) {
    rs.at(i) = k;
    for (; k < l && (long)s["ent"].a[k].a[0].n == i; k++) { cl.at(k) = wlong(s["ent"].a[k].a[1]); put(s["ent"].a[k].a[2], 1.0, x.at(k)); }
  }
  rs.at(n) = k;
  Indices d = igen << n << wlong(s["m"]);
  return S(d, rs, cl, x);
}
OP("wide_trip") { pickS(c["s"], [&](auto *t) { o.raw("s", wval(o, wtrip<TY(t)>(c["s"]))); }); }
OP("wide_repr") {
  pickS(c["s"], [&](auto *t) {
    auto s = wrepr<TY(t)>(c["s"]);
    o.raw("s", wval(o, s));
    o.raw("cols", s.dimension(1) == s.columns() ? limbs(s.columns()) : "[-1]");
  });
}
OP("wide_get") {
  pickS(c["s"], [&](auto *t) {
    auto s = wrepr<TY(t)>(c["s"]);
    long j = wlong(c["j"]);
    o.raw("v", o.num1(s(c.i("i"), c.flag("neg") ? -j : j)));
  });
}
template<class S, class R> void wdone(W &o, const R &r, const S &s, const S &s0) {
  o.raw("s", wval(o, r));
  if (!same(s, s0)) o.i("post", 1);
}
OP("wide_un") {
  pickS(c["s"], [&](auto *t) {
    typedef TY(t) S;
    typedef typename S::elt_t N;
    const S s = wrepr<S>(c["s"]), s0 = wrepr<S>(c["s"]);
    const std::string k = c.str("k");
    if (k == "neg") wdone(o, S(-s), s, s0);
    else if (k == "conj") wdone(o, S(conj(s)), s, s0);
    else if (k == "real") wdone(o, RSparse(real(s)), s, s0);
    else if (k == "imag") wdone(o, RSparse(imag(s)), s, s0);
    else if (k == "copy") { S b; b = s; wdone(o, b, s, s0); }
    else if (k == "num") wdone(o, S(s * mknum<N>(c["z"])), s, s0);
    else _exit(3);
  });
}
OP("wide_turn") {
  pickS(c["s"], [&](auto *t) {
    typedef TY(t) S;
    const S s = wrepr<S>(c["s"]), s0 = wrepr<S>(c["s"]);
    if (c.str("k") == "adjoint") wdone(o, S(adjoint(s)), s, s0); else wdone(o, S(transpose(s)), s, s0);
  });
}
OP("wide_bin") {
  const std::string k = c.str("k");
  pickS(c["s"], [&](auto *t) {
    typedef TY(t) S;
    const S s = wrepr<S>(c["s"]), s0 = wrepr<S>(c["s"]);
    pickS(c["t"], [&](auto *u) {
      auto v = wrepr<TY(u)>(c["t"]);
      if (k == "+") wdone(o, s + v, s, s0);
      else if (k == "-") wdone(o, s - v, s, s0);
      else if (k == "*") wdone(o, s * v, s, s0);
      else _exit(3);
    });
  });
}
OP("wide_kron") {
  pickS(c["s"], [&](auto *t) {
    typedef TY(t) S;
    const S s = wrepr<S>(c["s"]), s0 = wrepr<S>(c["s"]), v = wrepr<S>(c["t"]);
    if (c.str("k") == "kron") wdone(o, S(kron(s, v)), s, s0); else wdone(o, S(kron2(s, v)), s, s0);
  });
}
OP("wide_equal") {
  pickS(c["s"], [&](auto *t) {
    typedef TY(t) S;
    o.raw("v", all_equal(wrepr<S>(c["s"]), wrepr<S>(c["t"])) ? "true" : "false");
  });
}
int main(int argc, char **argv) { return run_cases(argc, argv); }
