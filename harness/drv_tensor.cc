// Conformance driver: dense tensors (construction, access, slices, reordering,
// contraction, arithmetic, comparison, reduction, generators).
#include "tensors.hpp"
#include <tensor/gen.h>
using namespace vf;
using namespace tensor;
#define X(e) [&](auto &x) { return e; }
#define XY(e) [&](auto &x, auto &y) { return e; }

// ------------------------------------------------------------- P03 access
OP("get") { un(c, o, X(getel(x, c["i"]))); }
OP("getseq") { un(c, o, X(x[(idx)c.i("i")])); }
OP("set") {
  un(c, o, [&](auto &x) {
    typedef typename std::remove_const<typename std::remove_reference<decltype(x)>::type>::type T;
    T y(x);
    atel(y, c["i"]) = mknum<typename T::elt_t>(c["n"]);
    return y;
  });
}
OP("setseq") {
  un(c, o, [&](auto &x) {
    typedef typename std::remove_const<typename std::remove_reference<decltype(x)>::type>::type T;
    T y(x);
    y.at_seq(c.i("i")) = mknum<typename T::elt_t>(c["n"]);
    return y;
  });
}
OP("set_inplace") {   // sole owner: write then read back everything
  setup(c, o);
  pick(c["x"], [&](auto *t) {
    typedef typename std::remove_pointer<decltype(t)>::type T;
    T y = mk<T>(c["x"]);
    atel(y, c["i"]) = mknum<typename T::elt_t>(c["n"]);
    o.raw("v", val(o, y));
  });
}
OP("fill") {
  un(c, o, [&](auto &x) {
    typedef typename std::remove_const<typename std::remove_reference<decltype(x)>::type>::type T;
    T y(x);
    if (c.flag("zero")) y.fill_with_zeros(); else y.fill_with(mknum<typename T::elt_t>(c["n"]));
    return y;
  });
}
// dimensions as seen through every query; -1 marks a query this rank does not have
OP("dims") {
  setup(c, o);
  pick(c["x"], [&](auto *t) {
    typedef typename std::remove_pointer<decltype(t)>::type T;
    T x = mk<T>(c["x"]);
    std::vector<long> v;
    v.push_back(x.size()); v.push_back(x.rank()); v.push_back(x.is_empty());
    for (int k = 0; k < x.rank(); k++) v.push_back(x.dimension(k));
    idx a = -1, b = -1, d = -1, e = -1, f = -1, g = -1;
    switch (x.rank()) {
      case 1: x.get_dimensions(&a); break;
      case 2: x.get_dimensions(&a, &b); break;
      case 3: x.get_dimensions(&a, &b, &d); break;
      case 4: x.get_dimensions(&a, &b, &d, &e); break;
      case 5: x.get_dimensions(&a, &b, &d, &e, &f); break;
      case 6: x.get_dimensions(&a, &b, &d, &e, &f, &g); break;
    }
    for (idx q : {a, b, d, e, f, g}) v.push_back(q);
    v.push_back(x.rank() >= 1 ? x.rows() : -1);
    v.push_back(x.rank() >= 2 ? x.columns() : -1);
    v.push_back(x.end_const() - x.begin_const());
    v.push_back(x.dimensions().total_size());
    o.raw("v", W::list(v));
  });
}
OP("dimension") { un(c, o, [&](auto &x) { return (double)x.dimension((int)c.i("i")); }); }
OP("getdims") {   // get_dimensions with the wrong number of arguments is refused
  un(c, o, [&](auto &x) {
    idx a = -1, b = -1, d = -1, e = -1, f = -1, g = -1;
    switch (c.i("i")) {
      case 1: x.get_dimensions(&a); break;
      case 2: x.get_dimensions(&a, &b); break;
      case 3: x.get_dimensions(&a, &b, &d); break;
      case 4: x.get_dimensions(&a, &b, &d, &e); break;
      case 5: x.get_dimensions(&a, &b, &d, &e, &f); break;
      default: x.get_dimensions(&a, &b, &d, &e, &f, &g);
    }
    Indices r(6); r.at(0) = a; r.at(1) = b; r.at(2) = d; r.at(3) = e; r.at(4) = f; r.at(5) = g;
    return r;
  });
}
template<class T> T ctor(const std::vector<idx> &d, int how) {
  if (how == 0) { Indices i((idx)d.size()); for (size_t k = 0; k < d.size(); k++) i.at(k) = d[k]; return T(i); }
  switch (d.size()) {
    case 1: return T(d[0]);
    case 2: return T(d[0], d[1]);
    case 3: return T(d[0], d[1], d[2]);
    case 4: return T(d[0], d[1], d[2], d[3]);
    case 5: return T(d[0], d[1], d[2], d[3], d[4]);
    default: return T(d[0], d[1], d[2], d[3], d[4], d[5]);
  }
}
template<class T> void do_ctor(const J &c, W &o) {
  std::vector<idx> d; for (auto &x : c["d"].a) d.push_back(far(x.n));
  T t = ctor<T>(d, c.i("how", 0));
  const J &e = c["e"];   // fill through iterators, in column-major order
  if ((idx)e.a.size() == t.size()) { size_t k = 0; for (auto it = t.begin(); it != t.end(); ++it) put(e.a[k++], 1, *it); }
  o.raw("v", val(o, t));
}
OP("ctor") { setup(c, o); if (c["c"].b) do_ctor<CTensor>(c, o); else do_ctor<RTensor>(c, o); }
// Tensor(dims, data), Tensor(vector), Tensor(Vector), RTensor -> CTensor
OP("ctor_data") {
  un(c, o, [&](auto &x) {
    typedef typename std::remove_const<typename std::remove_reference<decltype(x)>::type>::type T;
    return T(indf(c["d"]), x);
  });
}
OP("ctor_vec") {
  un(c, o, [&](auto &x) {
    typedef typename std::remove_const<typename std::remove_reference<decltype(x)>::type>::type T;
    typedef typename T::elt_t E;
    if (c.i("how", 0) == 0) return T(std::vector<E>(x.begin(), x.end()));
    if (c.i("how", 0) == 1) { Vector<E> v = x; return T(v); }
    Vector<E> v(x.size()); std::copy(x.begin(), x.end(), v.begin()); return T(v);
  });
}
OP("coerce") { unT<RTensor>(c, o, [&](auto &x) { return CTensor(x); }); }
OP("assign") {   // assignment over an existing object
  binEq(c, o, [&](auto &x, auto &y) {
    typedef typename std::remove_const<typename std::remove_reference<decltype(x)>::type>::type T;
    T z(x); z = y; return z;
  });
}

// ------------------------------------------------------------- P04/P05 slices
OP("view") { un(c, o, X(getview(x, c["rg"]))); }
OP("vset") {   // x.at(rs) = source; the source may be x itself or share its storage
  setup(c, o);
  pick(c["x"], [&](auto *tt) {
    typedef typename std::remove_pointer<decltype(tt)>::type T;
    typedef typename T::elt_t E;
    T x = mk<T>(c["x"]);
    T keep; bool sh = c.flag("sh"); if (sh) keep = x;
    T orig = mk<T>(c["x"]);
    const std::string k = c.str("src");
    bool yok = true;
    if (k == "n") { E n = mknum<E>(c["n"]); withmview(x, c["rg"], [&](auto &&m) { m = n; }); }
    else if (k == "e") { const T &cx = x; withmview(x, c["rg"], [&](auto &&m) { m = cx[(idx)c.i("k")]; }); }
    else if (k == "self") { withmview(x, c["rg"], [&](auto &&m) { m = x; }); }
    else if (k == "selfview") { const T &cx = x; withview(cx, c["rg2"], [&](auto &&v) { withmview(x, c["rg"], [&](auto &&m) { m = v; }); }); }
    else if (k == "copy") { const T y(x); withmview(x, c["rg"], [&](auto &&m) { m = y; }); yok = samebits(y, orig); }
    else {
      Arg<T> y(c["y"], c.flag("shy"));
      if (k == "t") { const T &yv = y.v; withmview(x, c["rg"], [&](auto &&m) { m = yv; }); }
      else { const T &yv = y.v; withview(yv, c["rg2"], [&](auto &&v) { withmview(x, c["rg"], [&](auto &&m) { m = v; }); }); }
      yok = y.intact();
    }
    o.raw("v", val(o, x));
    if (sh && !samebits(keep, orig)) yok = false;
    if (!yok) o.i("post", 1);
  });
}
// two views combined in an expression, views converted repeatedly
OP("view2") {
  un(c, o, [&](auto &x) {
    typedef typename std::remove_const<typename std::remove_reference<decltype(x)>::type>::type T;
    T r; withview(x, c["rg"], [&](auto &&v) { T a(v); T b(v); r = samebits(a, b) ? b : T(); });
    return r;
  });
}

// ------------------------------------------------------------- P06 reordering
template<class T> T rsh(const T &x, const J &d, int how) {
  std::vector<idx> v; for (auto &q : d.a) v.push_back(far(q.n));
  if (how == 0) return reshape(x, indf(d));
  if (how == 1) { T y(x); y.reshape(indf(d)); return y; }
  switch (v.size()) {
    case 1: return reshape(x, v[0]);
    case 2: return reshape(x, v[0], v[1]);
    case 3: return reshape(x, v[0], v[1], v[2]);
    case 4: return reshape(x, v[0], v[1], v[2], v[3]);
    case 5: return reshape(x, v[0], v[1], v[2], v[3], v[4]);
    default: return reshape(x, v[0], v[1], v[2], v[3], v[4], v[5]);
  }
}
OP("reshape") { un(c, o, X(rsh(x, c["d"], c.i("how", 0)))); }
OP("flatten") { un(c, o, X(flatten(x))); }
OP("squeeze") { un(c, o, X(squeeze(x))); }
OP("permute") { un(c, o, X(permute(x, far(c.i("i")), far(c.i("j"))))); }
OP("permute0") { un(c, o, X(permute(x))); }
OP("transpose") { un(c, o, X(transpose(x))); }
OP("adjoint") { un(c, o, X(adjoint(x))); }
OP("change_dimension") { un(c, o, X(change_dimension(x, (int)c.i("i"), c.i("n")))); }

// ------------------------------------------------------------- P07 contraction
OP("fold") { bin(c, o, XY(fold(x, c.i("i"), y, c.i("j")))); }
OP("foldc") { bin(c, o, XY(foldc(x, c.i("i"), y, c.i("j")))); }
OP("mmult") { bin(c, o, XY(mmult(x, y))); }
OP("foldin") { binEq(c, o, XY(foldin(x, c.i("i"), y, c.i("j")))); }
// the functions of numbers
template<class N> CTensor number(N z) {
  CTensor v(9);
  v.at(0) = tensor::to_complex(z); v.at(1) = tensor::real(z); v.at(2) = tensor::imag(z); v.at(3) = tensor::conj(z);
  v.at(4) = tensor::abs2(z); v.at(5) = tensor::square(z); v.at(6) = tensor::to_complex(tensor::real(z), tensor::imag(z));
  v.at(7) = tensor::number_zero<N>(); v.at(8) = tensor::number_one<N>();
  return v;
}
OP("number") {
  setup(c, o);
  o.raw("v", c.flag("nc") ? val(o, number(mknum<cdouble>(c["n"]))) : val(o, number(mknum<double>(c["n"]))));
}
OP("scprod") { binEq(c, o, XY(scprod(x, y))); }
// the output object exists already (with other contents, and another owner); out: it is operand 1, 2
template<class F> void into(const J &c, W &o, F f) {
  setup(c, o);
  Arg<RTensor> x(c["x"], c.flag("sh"));
  Arg<RTensor> y(c["y"], c.flag("sh"));
  RTensor out = c.has("z") ? mk<RTensor>(c["z"]) : RTensor();
  RTensor outkeep(out), outorig = c.has("z") ? mk<RTensor>(c["z"]) : RTensor();
  const RTensor &xv = x.v, &yv = y.v;
  int k = c.i("out", 0);
  bool al = c.i("al", 0) == 1;
  if (k) out = k == 1 || al ? xv : yv;
  f(out, k == 1 || (k && al) ? out : xv, k == 2 || (k && al) ? out : al ? xv : yv);
  o.raw("v", val(o, out));
  poke(out);
  if (!x.intact() || !y.intact() || !samebits(outkeep, outorig)) o.i("post", 1);
}
OP("fold_into") { into(c, o, [&](auto &z, auto &x, auto &y) { fold_into(z, x, c.i("i"), y, c.i("j")); }); }
OP("foldin_into") { into(c, o, [&](auto &z, auto &x, auto &y) { foldin_into(z, x, c.i("i"), y, c.i("j")); }); }
OP("mmult_into") { into(c, o, [&](auto &z, auto &x, auto &y) { mmult_into(z, x, y); }); }

// ------------------------------------------------------------- P08 arithmetic
OP("t+t") { bin(c, o, XY(x + y)); }
OP("t-t") { bin(c, o, XY(x - y)); }
OP("t*t") { bin(c, o, XY(x * y)); }
OP("t/t") { bin(c, o, XY(x / y)); }
template<class F> void tnum(const J &c, W &o, F f) {   // number "n", real or complex ("nc")
  if (c.flag("nc")) { cdouble n = mknum<cdouble>(c["n"], c.i("nq", 1)); un(c, o, [&](auto &x) { return f(x, n); }); }
  else { double n = mknum<double>(c["n"], c.i("nq", 1)); un(c, o, [&](auto &x) { return f(x, n); }); }
}
OP("t+n") { tnum(c, o, XY(x + y)); }
OP("t-n") { tnum(c, o, XY(x - y)); }
OP("t*n") { tnum(c, o, XY(x * y)); }
OP("t/n") { tnum(c, o, XY(x / y)); }
OP("n+t") { tnum(c, o, XY(y + x)); }
OP("n-t") { tnum(c, o, XY(y - x)); }
OP("n*t") { tnum(c, o, XY(y * x)); }
OP("n/t") { tnum(c, o, XY(y / x)); }
// in place: x op= y (al=1: y is x itself, al=2: y shares storage with x)
template<class T, class U> void opeq(T &a, const U &b, char k) {
  switch (k) { case '+': a += b; break; case '-': a -= b; break; case '*': a *= b; break; default: a /= b; }
}
template<class T, class U> void do_opeq_tt(const J &c, W &o, char k) {
  Arg<T> x(c["x"], c.flag("sh"));
  Arg<U> y(c["y"], c.flag("shy"));
  const U &yv = y.v;
  opeq(x.v, yv, k);
  o.raw("v", val(o, x.v));
  if (!x.kept() || !y.intact()) o.i("post", 1);
}
template<class T> void do_opeq_self(const J &c, W &o, char k) {
  Arg<T> x(c["x"], c.flag("sh"));
  bool ok = true;
  if (c.i("al") == 1) { const T &y = x.v; opeq(x.v, y, k); }
  else { const T y(x.v); opeq(x.v, y, k); ok = samebits(y, x.orig); }
  o.raw("v", val(o, x.v));
  if (!x.kept() || !ok) o.i("post", 1);
}
static void opeq_tt(const J &c, W &o, char k) {
  setup(c, o);
  bool a = c["x"]["c"].b;
  if (c.i("al", 0)) { if (a) do_opeq_self<CTensor>(c, o, k); else do_opeq_self<RTensor>(c, o, k); return; }
  bool b = c["y"]["c"].b;
  if (a && b) do_opeq_tt<CTensor, CTensor>(c, o, k);
  else if (a) do_opeq_tt<CTensor, RTensor>(c, o, k);
  else do_opeq_tt<RTensor, RTensor>(c, o, k);
}
OP("t+=t") { opeq_tt(c, o, '+'); }
OP("t-=t") { opeq_tt(c, o, '-'); }
OP("t*=t") { opeq_tt(c, o, '*'); }
OP("t/=t") { opeq_tt(c, o, '/'); }
template<class T, class N> void do_opeq_tn(const J &c, W &o, char k) {
  Arg<T> x(c["x"], c.flag("sh"));
  if (c.has("k")) {   // the number is an element of the tensor itself
    const T &cx = x.v;
    const typename T::elt_t &n = cx[(idx)c.i("k")];
    opeq(x.v, n, k);
  } else {
    N n = mknum<N>(c["n"], c.i("nq", 1));
    opeq(x.v, n, k);
  }
  o.raw("v", val(o, x.v));
  if (!x.kept()) o.i("post", 1);
}
static void opeq_tn(const J &c, W &o, char k) {
  setup(c, o);
  bool a = c["x"]["c"].b, n = c.flag("nc");
  if (a && n) do_opeq_tn<CTensor, cdouble>(c, o, k);
  else if (a) do_opeq_tn<CTensor, double>(c, o, k);
  else do_opeq_tn<RTensor, double>(c, o, k);
}
OP("t+=n") { opeq_tn(c, o, '+'); }
OP("t-=n") { opeq_tn(c, o, '-'); }
OP("t*=n") { opeq_tn(c, o, '*'); }
OP("t/=n") { opeq_tn(c, o, '/'); }
OP("neg") { un(c, o, X(-x)); }
OP("conj") { un(c, o, X(conj(x))); }
OP("real") { un(c, o, X(real(x))); }
OP("imag") { un(c, o, X(imag(x))); }
OP("to_complex") { un(c, o, X(to_complex(x))); }
OP("to_complex2") { binTT<RTensor, RTensor>(c, o, XY(to_complex(x, y))); }
OP("abs") { un(c, o, X(abs(x))); }
OP("round") { unT<RTensor>(c, o, X(round(x))); }
// mathematical functions: the value of the scalar function at each element is
// recorded in "t"; the specification says the tensor function is its map
template<class T> T umap(const std::string &f, const T &x) {
  if (f == "cos") return cos(x);
  if (f == "sin") return sin(x);
  if (f == "tan") return tan(x);
  if (f == "cosh") return cosh(x);
  if (f == "sinh") return sinh(x);
  if (f == "tanh") return tanh(x);
  if (f == "exp") return exp(x);
  if (f == "sqrt") return sqrt(x);
  if (f == "log") return log(x);
  fprintf(stderr, "driver: function %s\n", f.c_str()); _exit(3);
}
template<class E> E usc(const std::string &f, const E &x) {
  if (f == "cos") return std::cos(x);
  if (f == "sin") return std::sin(x);
  if (f == "tan") return std::tan(x);
  if (f == "cosh") return std::cosh(x);
  if (f == "sinh") return std::sinh(x);
  if (f == "tanh") return std::tanh(x);
  if (f == "exp") return std::exp(x);
  if (f == "sqrt") return std::sqrt(x);
  return std::log(x);
}
OP("umap") {
  un(c, o, X(umap(c.str("f"), x)));
  pick(c["x"], [&](auto *t) {
    typedef typename std::remove_pointer<decltype(t)>::type T;
    T x = mk<T>(c["x"]);
    for (auto it = x.begin(); it != x.end(); ++it) *it = usc(c.str("f"), *it);
    o.raw("t", val(o, x));
  });
}

// ------------------------------------------------------------- P09 comparison
template<class A, class B> Booleans cmp(const std::string &k, const A &a, const B &b) {
  if (k == "==") return a == b;
  if (k == "!=") return a != b;
  if (k == "<") return a < b;
  if (k == ">") return a > b;
  if (k == "<=") return a <= b;
  return a >= b;
}
template<class A, class B> Booleans cmpeq(const std::string &k, const A &a, const B &b) {
  if (k == "==") return a == b;
  return a != b;
}
OP("cmp_tt") {
  if (c["x"]["c"].b) { if (c.i("al", 0)) binSame<CTensor>(c, o, XY(cmpeq(c.str("k"), x, y))); else binTT<CTensor, CTensor>(c, o, XY(cmpeq(c.str("k"), x, y))); }
  else { if (c.i("al", 0)) binSame<RTensor>(c, o, XY(cmp(c.str("k"), x, y))); else binTT<RTensor, RTensor>(c, o, XY(cmp(c.str("k"), x, y))); }
}
OP("cmp_tn") { double n = mknum<double>(c["n"]); unT<RTensor>(c, o, X(cmp(c.str("k"), x, n))); }
OP("cmp_nt") { double n = mknum<double>(c["n"]); unT<RTensor>(c, o, X(cmp(c.str("k"), n, x))); }
#ifndef NO_CTENSOR_CMP
OP("cmp_zn") { cdouble n = mknum<cdouble>(c["n"]); unT<CTensor>(c, o, X(cmpeq(c.str("k"), x, n))); }
OP("cmp_nz") { cdouble n = mknum<cdouble>(c["n"]); unT<CTensor>(c, o, X(cmpeq(c.str("k"), n, x))); }
#endif
// indices may be offset by +-2^"bp"
static idx base(const J &c) { long long b = c.i("bp", 0); return b > 0 ? (idx)1 << b : b < 0 ? -((idx)1 << -b) : 0; }
static Indices indb(const J &c, const char *f) { Indices x = ind(c[f]); for (idx k = 0; k < x.size(); k++) x.at(k) += base(c); return x; }
OP("cmp_ii") { Indices x = indb(c, "x"), y = indb(c, "y"); o.raw("v", val(o, cmp(c.str("k"), x, y))); }
OP("cmp_in") { Indices x = indb(c, "x"); o.raw("v", val(o, cmp(c.str("k"), x, base(c) + (idx)c.i("n")))); }
OP("cmp_ni") { Indices x = indb(c, "x"); o.raw("v", val(o, cmp(c.str("k"), base(c) + (idx)c.i("n"), x))); }
OP("all_equal") { if (c.i("al", 0)) { binEq(c, o, XY(all_equal(x, y))); } else { binEq(c, o, XY(all_equal(x, y))); } }
OP("vec_equal") {      // the elements, as vectors
  binEq(c, o, [&](auto &x, auto &y) {
    typedef typename std::decay<decltype(x)>::type::elt_t E;
    Vector<E> v(x.size()), w(y.size());
    std::copy(x.begin(), x.end(), v.begin());
    if (c.flag("same")) return bool(v == v);
    std::copy(y.begin(), y.end(), w.begin());
    return bool(v == w);
  });
}
OP("some_unequal") { binEq(c, o, XY(some_unequal(x, y))); }
OP("all_equal_n") {
  if (c["x"]["c"].b) { cdouble n = mknum<cdouble>(c["n"]); unT<CTensor>(c, o, X(c.flag("left") ? all_equal(n, x) : all_equal(x, n))); }
  else { double n = mknum<double>(c["n"]); unT<RTensor>(c, o, X(c.flag("left") ? all_equal(n, x) : all_equal(x, n))); }
}
OP("all_equal_i") { o.raw("v", val(o, (bool)all_equal(ind(c["x"]), ind(c["y"])))); }
OP("some_unequal_i") { o.raw("v", val(o, (bool)some_unequal(ind(c["x"]), ind(c["y"])))); }
OP("bnot") { Booleans x = boo(c["x"]); o.raw("v", val(o, !x)); }
OP("band") { Booleans x = boo(c["x"]), y = boo(c["y"]); o.raw("v", val(o, x && y)); }
OP("bor") { Booleans x = boo(c["x"]), y = boo(c["y"]); o.raw("v", val(o, x || y)); }
OP("all_of") { o.raw("v", val(o, (bool)all_of(boo(c["x"])))); }
OP("any_of") { o.raw("v", val(o, (bool)any_of(boo(c["x"])))); }
OP("none_of") { o.raw("v", val(o, (bool)none_of(boo(c["x"])))); }
OP("which") { o.raw("v", val(o, which(boo(c["x"])))); }
OP("sort") { unT<RTensor>(c, o, X(c.has("rev") ? sort(x, c.flag("rev")) : sort(x))); }
OP("sort_indices") { unT<RTensor>(c, o, X(c.has("rev") ? sort_indices(x, c.flag("rev")) : sort_indices(x))); }
OP("sort_i") { Indices x = indb(c, "x"); Indices k(x); Indices r = sort(x, c.flag("rev")); Indices q(r); for (idx j = 0; j < q.size(); j++) q.at(j) -= base(c); o.raw("v", val(o, q)); poke(r); if (!all_equal(k, indb(c, "x")) || !all_equal(x, k)) o.i("post", 1); }
OP("sort_indices_i") { Indices x = indb(c, "x"); o.raw("v", val(o, sort_indices(x, c.flag("rev")))); if (!all_equal(x, indb(c, "x"))) o.i("post", 1); }
OP("min") { unT<RTensor>(c, o, X(min(x))); }
OP("max") { unT<RTensor>(c, o, X(max(x))); }

// ------------------------------------------------------------- P10 reductions
OP("sum") { un(c, o, X(sum(x))); }
OP("mean") { un(c, o, X(mean(x))); }
OP("mean_ndx") { un(c, o, X(mean(x, (int)c.i("i")))); }
OP("norm0") { un(c, o, X(norm0(x))); }
OP("norm2") { un(c, o, X(norm2(x))); }
OP("matrix_norminf") { un(c, o, X(matrix_norminf(x))); }
OP("trace") { un(c, o, X(trace(x))); }
OP("trace2") { un(c, o, X(trace(x, far(c.i("i")), far(c.i("j"))))); }
OP("diag") { un(c, o, X(diag(x, c.i("w")))); }
OP("diag_rc") { un(c, o, X(diag(x, c.i("w"), c.i("rows"), c.i("cols")))); }
OP("take_diag") {
  un(c, o, [&](auto &x) {
    if (c.flag("member")) { auto y = x; return y.diag(c.i("w"), c.i("i"), c.i("j")); }
    return take_diag(x, c.i("w"), c.i("i"), c.i("j"));
  });
}
OP("take_diag0") { un(c, o, [&](auto &x) { if (c.flag("member")) { auto y = x; return c.i("w") ? y.diag(c.i("w")) : y.diag(); } return take_diag(x, c.i("w")); }); }
OP("scale") {
  auto f = [&](auto &x, auto &y) { return scale(x, (int)c.i("i"), y); };
  if (c.i("al", 0)) { binEq(c, o, f); return; }
  bool a = c["x"]["c"].b, b = c["y"]["c"].b;
  if (a && b) binTT<CTensor, CTensor>(c, o, f); else if (a) binTT<CTensor, RTensor>(c, o, f); else binTT<RTensor, RTensor>(c, o, f);
}
template<class T, class U> void do_scale_inplace(const J &c, W &o) {
  setup(c, o);
  Arg<T> x(c["x"], c.flag("sh")); Arg<U> y(c["y"], c.flag("shy"));
  const U &yv = y.v;
  scale_inplace(x.v, (int)c.i("i"), yv);
  o.raw("v", val(o, x.v));
  if (!x.kept() || !y.intact()) o.i("post", 1);
}
OP("scale_inplace") {
  bool a = c["x"]["c"].b, b = c["y"]["c"].b;
  if (a && b) do_scale_inplace<CTensor, CTensor>(c, o);
  else if (a) do_scale_inplace<CTensor, RTensor>(c, o);
  else do_scale_inplace<RTensor, RTensor>(c, o);
}
OP("kron") { binEq(c, o, XY(kron(x, y))); }
OP("kron2") { binEq(c, o, XY(kron2(x, y))); }
OP("kron2_sum") { binEq(c, o, XY(kron2_sum(x, y))); }

// ------------------------------------------------------------- P11 generators
OP("linspace") {
  setup(c, o);
  auto go = [&](auto n) {
    auto a = mknum<decltype(n)>(c["a"], c.i("q", 1)), b = mknum<decltype(n)>(c["b"], c.i("q", 1));
    o.raw("v", val(o, c.flag("dn") ? linspace(a, b) : linspace(a, b, c.i("n"))));
  };
  if (c["nc"].b) go(cdouble()); else go(double());
}
OP("linspace_t") { binEq(c, o, XY(c.flag("dn") ? linspace(x, y) : linspace(x, y, c.i("n")))); }
OP("iota") { if (c.has("step")) o.raw("v", val(o, iota(c.i("a"), c.i("b"), c.i("step")))); else o.raw("v", val(o, iota(c.i("a"), c.i("b")))); }
OP("indices_range") { if (c.has("step")) o.raw("v", val(o, Indices::range(c.i("a"), c.i("b"), c.i("step")))); else o.raw("v", val(o, Indices::range(c.i("a"), c.i("b")))); }
OP("concat") { Indices x = ind(c["x"]), y = ind(c["y"]); Indices r = x << y; o.raw("v", val(o, r)); poke(r); if (!all_equal(x, ind(c["x"])) || !all_equal(y, ind(c["y"]))) o.i("post", 1); }
OP("total_size") { o.i("v", ind(c["x"]).total_size()); }
OP("index_to_tensor") { o.raw("v", val(o, index_to_tensor(ind(c["x"])))); }
template<class T> T gen_zeros(const std::vector<idx> &d, int how) {
  if (how == 0) { Indices i((idx)d.size()); for (size_t k = 0; k < d.size(); k++) i.at(k) = d[k]; return T::zeros(i); }
  switch (d.size()) {
    case 1: return T::zeros(d[0]);
    case 2: return T::zeros(d[0], d[1]);
    case 3: return T::zeros(d[0], d[1], d[2]);
    case 4: return T::zeros(d[0], d[1], d[2], d[3]);
    case 5: return T::zeros(d[0], d[1], d[2], d[3], d[4]);
    default: return T::zeros(d[0], d[1], d[2], d[3], d[4], d[5]);
  }
}
template<class T> T gen_ones(const std::vector<idx> &d, int how) {
  if (how == 0) { Indices i((idx)d.size()); for (size_t k = 0; k < d.size(); k++) i.at(k) = d[k]; return T::ones(i); }
  switch (d.size()) {
    case 1: return T::ones(d[0]);
    case 2: return T::ones(d[0], d[1]);
    case 3: return T::ones(d[0], d[1], d[2]);
    case 4: return T::ones(d[0], d[1], d[2], d[3]);
    case 5: return T::ones(d[0], d[1], d[2], d[3], d[4]);
    default: return T::ones(d[0], d[1], d[2], d[3], d[4], d[5]);
  }
}
template<class T> void do_gen(const J &c, W &o) {
  std::vector<idx> d; for (auto &x : c["d"].a) d.push_back(x.n);
  const std::string k = c.str("k");
  T r;
  if (k == "zeros") r = gen_zeros<T>(d, c.i("how", 0));
  else if (k == "ones") r = gen_ones<T>(d, c.i("how", 0));
  else r = d.size() == 1 ? T::eye(d[0]) : T::eye(d[0], d[1]);
  o.raw("v", val(o, r));
}
OP("gen") { if (c["c"].b) do_gen<CTensor>(c, o); else do_gen<RTensor>(c, o); }
template<class G, class E, class R> R list_gen(const G &g, const std::vector<E> &e) {
  switch (e.size()) {
    case 1: return R(g << e[0]);
    case 2: return R(g << e[0] << e[1]);
    case 3: return R(g << e[0] << e[1] << e[2]);
    case 4: return R(g << e[0] << e[1] << e[2] << e[3]);
    case 5: return R(g << e[0] << e[1] << e[2] << e[3] << e[4]);
    case 6: return R(g << e[0] << e[1] << e[2] << e[3] << e[4] << e[5]);
    default: return R(g << e[0] << e[1] << e[2] << e[3] << e[4] << e[5] << e[6]);
  }
}
OP("listgen") {
  const std::string k = c.str("k");
  if (k == "i") { std::vector<idx> v; for (auto &x : c["e"].a) v.push_back(x.n); Indices r = list_gen<decltype(igen), idx, Indices>(igen, v); o.raw("v", val(o, r)); }
  else if (k == "r") { std::vector<double> v; for (auto &x : c["e"].a) v.push_back(mknum<double>(x)); o.raw("v", val(o, list_gen<decltype(rgen), double, RTensor>(rgen, v))); }
  else { std::vector<cdouble> v; for (auto &x : c["e"].a) v.push_back(mknum<cdouble>(x)); o.raw("v", val(o, list_gen<decltype(cgen), cdouble, CTensor>(cgen, v))); }
}
template<class G> bool gen_equal(const Indices &x, const G &g) {
  bool r = x == g;
  if (r != (g == x)) _exit(88);       // both ways round
  return r;
}
OP("gen_equal") {  // indices == igen << ...
  Indices x = ind(c["x"]), y = ind(c["y"]);
  bool r = false;
  switch (y.size()) {
    case 1: r = gen_equal(x, igen << y[0]); break;
    case 2: r = gen_equal(x, igen << y[0] << y[1]); break;
    case 3: r = gen_equal(x, igen << y[0] << y[1] << y[2]); break;
    default: r = gen_equal(x, igen << y[0] << y[1] << y[2] << y[3]);
  }
  o.raw("v", val(o, r));
}
OP("listgen_dims") {   // Tensor(gen expression, dims)
  std::vector<double> e; for (auto &x : c["e"].a) e.push_back(mknum<double>(x));
  Indices d = ind(c["d"]);
  RTensor r = e.size() == 4 ? RTensor(rgen << e[0] << e[1] << e[2] << e[3], d)
                            : RTensor(rgen << e[0] << e[1] << e[2] << e[3] << e[4] << e[5], d);
  o.raw("v", val(o, r));
}

int main(int argc, char **argv) { return run_cases(argc, argv); }
