// dense linear algebra (P21), block SVD (P23), eigensolvers (P24), iterative methods (P25)
#include "tensors.hpp"
#include <tensor/linalg.h>
#include <tensor/arpack_d.h>
#include <tensor/arpack_z.h>
#include <tensor/sparse.h>
using namespace vf;
using namespace tensor;
#define TY(t) typename std::remove_pointer<decltype(t)>::type

static void fix20(W &o) { o.scale = 1048576; o.fixed = true; o.lo = true; }

OP("solve") {
  o.scale = 65536; o.fixed = true; o.lo = true;
  pick(c["a"], [&](auto *t) {
    typedef TY(t) T;
    Arg<T> a(c["a"], c.flag("sh")), b(c["b"], c.flag("sh2"));
    T x = linalg::solve(a.v, c.flag("al") ? a.v : b.v);
    o.raw("v", val(o, x));
    poke(x);
    if (!a.intact() || !b.intact()) o.i("post", 1);
  });
}
// an output that already holds a tensor of those dimensions, and shares it with a copy
template<class T> struct Held {
  T copy;
  bool on = false;
  Held(T &out, const Indices &d, bool use) : on(use) { if (on) { out = T(d); out.fill_with(3.0); copy = out; } }
  Held(T &out, const T &other, bool use) : on(use) { if (on) { out = other; copy = out; } }
  bool intact() const {
    for (tensor::index k = 0; on && k < copy.size(); k++) if (!(copy[k] == 3.0)) return false;
    return true;
  }
};
OP("svd") {      // block: block_svd; ec: economic
  fix20(o);
  bool blk = c.flag("block"), ec = c.flag("ec");
  pick(c["x"], [&](auto *t) {
    typedef TY(t) T;
    Arg<T> x(c["x"], c.flag("sh"));
    auto f = [&](T *u, T *v) { return blk ? linalg::block_svd(x.v, u, v, ec) : linalg::svd(x.v, u, v, ec); };
    T u, v, u1, v2;
    if (c.flag("full")) { u = T::ones(3, 5); v = u; }   // outputs that already hold something
    RTensor s;
    bool same = c.flag("full") && x.v.size() % 2 == 0 && !c.i("out", 0);
    if (same) { T a, b; f(&a, &b); u1 = a; v2 = b; }
    Held<T> hu(u, u1.dimensions(), same), hv(v, v2.dimensions(), same), hu1(u1, u, same), hv2(v2, v, same);
    if (c.i("out", 0)) {          // an output takes the place of the input
      T w(x.v);
      auto g = [&](T *u, T *v) { return blk ? linalg::block_svd(w, u, v, ec) : linalg::svd(w, u, v, ec); };
      if (c.i("out") == 1) { s = g(&w, &v); u = w; } else { s = g(&u, &w); v = w; }
    } else s = f(&u, &v);
    o.raw("s", val(o, s)); o.raw("u", val(o, u)); o.raw("v", val(o, v));
    poke(u); poke(v);
    if (!x.intact()) o.i("post", 1);
    o.raw("s0", val(o, f(0, 0)));
    o.raw("s1", val(o, f(&u1, 0))); o.raw("u1", val(o, u1));
    o.raw("s2", val(o, f(0, &v2))); o.raw("v2", val(o, v2));
    if (!x.intact()) o.i("post", 2);
    else if (!hu.intact() || !hv.intact() || !hu1.intact() || !hv2.intact()) o.i("post", 3);
  });
}
OP("eig") {
  fix20(o);
  pick(c["x"], [&](auto *t) {
    typedef TY(t) T;
    Arg<T> x(c["x"], c.flag("sh"));
    CTensor r, l, r1, l2;
    CTensor w(x.v);
    Held<CTensor> h(r, x.v.dimensions(), x.v.size() % 2 == 1 && x.v.rank() == 2);
    if (h.on) l = r1 = l2 = r;
    o.raw("w3", val(o, CTensor(c.i("out", 0) == 1 ? linalg::eig(w, &w, &l) : c.i("out", 0) == 2 ? linalg::eig(w, &r, &w) : linalg::eig(x.v, &r, &l))));
    if (c.i("out", 0) == 1) r = w; else if (c.i("out", 0)) l = w;
    o.raw("r3", val(o, r)); o.raw("l3", val(o, l));
    if (!x.intact()) o.i("post", 1);
    o.raw("w0", val(o, CTensor(linalg::eig(x.v))));
    o.raw("w1", val(o, CTensor(linalg::eig(x.v, &r1)))); o.raw("r1", val(o, r1));
    o.raw("w2", val(o, CTensor(linalg::eig(x.v, 0, &l2)))); o.raw("l2", val(o, l2));
    if (!x.intact() || !h.intact()) o.i("post", 2);
  });
}
OP("eig_sym") {
  fix20(o);
  pick(c["x"], [&](auto *t) {
    typedef TY(t) T;
    Arg<T> x(c["x"], c.flag("sh"));
    T v;
    Held<T> h(v, x.v.dimensions(), x.v.size() % 2 == 1 && x.v.rank() == 2);
    if (c.i("out", 0)) { v = x.v; o.raw("w1", val(o, linalg::eig_sym(v, &v))); }
    else o.raw("w1", val(o, linalg::eig_sym(x.v, &v))); o.raw("v", val(o, v));
    poke(v);
    o.raw("w0", val(o, linalg::eig_sym(x.v)));
    if (!x.intact() || !h.intact()) o.i("post", 1);
  });
}
template<class T> struct SparseOf; 
template<> struct SparseOf<RTensor> { typedef tensor::RSparse type; };
template<> struct SparseOf<CTensor> { typedef tensor::CSparse type; };
template<class T> struct Fun {      // the matrix as a function
  T a;
  T operator()(const T &v) const { return mmult(a, v); }
};
template<class T> T apply1(const T &v, const T &a) { return mmult(a, v); }
template<class T> T apply2(const T &v, const T &a, double f) { return f * mmult(a, v); }
template<class T> T apply3(const T &v, const T &a, double f, const T &z) { return f * mmult(a, v) + z; }
template<class T> T apply4(const T &v, const T &a, double f, const T &z, int n) { T w = v; for (; n > 1; n--) w = (w + v) - v; return f * mmult(a, w) + z; }
template<class T> T apply5(const T &v, const T &a, double f, const T &z, int n, double g) { return (g / n) * (f * mmult(a, v) + z); }
// the same matrix as a function with 1 to 5 arguments bound
template<class T, class F> auto with_closure(int how, const T &a, F run, T z = T()) -> decltype(run(Fun<T>{a})) {
  if (z.is_empty()) z = T::zeros(Indices(tensor::igen << a.rows()));
  switch (how) {
    case 0: return run(tensor::with_args(&apply1<T>, a));
    case 1: return run(tensor::with_args(&apply2<T>, a, 1.0));
    case 2: return run(tensor::with_args(&apply3<T>, a, 1.0, z));
    case 3: return run(tensor::with_args(&apply4<T>, a, 1.0, z, 1));
    default: return run(tensor::with_args(&apply5<T>, a, 1.0, z, 2, 2.0));
  }
}
OP("lsq") {
  fix20(o);
  pick(c["a"], [&](auto *t) {
    typedef TY(t) T;
    Arg<T> a(c["a"], c.flag("sh")), b(c["b"], c.flag("sh2"));
    T x = c.flag("tol") ? linalg::solve_with_svd(a.v, b.v, 1e-6) : linalg::solve_with_svd(a.v, b.v);
    o.raw("v", val(o, x));
    poke(x);
    if (!a.intact() || !b.intact()) o.i("post", 1);
  });
}
OP("cgs") {        // form: dense, sparse, fun; x0: starting vector; it: iterations allowed
  fix20(o);
  pick(c["a"], [&](auto *t) {
    typedef TY(t) T;
    typedef typename SparseOf<T>::type S;
    Arg<T> a(c["a"], c.flag("sh")), b(c["b"], c.flag("sh2"));
    T x0, keep;
    const T *px = 0;
    if (c.has("x0")) { x0 = mk<T>(c["x0"]); keep = mk<T>(c["x0"]); px = &x0; }
    int it = c.i("it", 0);
    double tol = c.flag("tol") ? 1e-11 : 0;
    std::string f = c.str("form");
    const T &bv = b.v;
    T x = f == "dense" ? linalg::cgs(a.v, bv, px, it, tol)
        : f == "sparse" ? linalg::cgs(S(a.v), bv, px, it, tol)
        : f == "closure" ? with_closure(c.i("how", 0), a.v, [&](auto &&g) -> T { return linalg::cgs(g, bv, px, it, tol); }, T(T::zeros(bv.dimensions())))
        : linalg::cgs(Fun<T>{a.v}, bv, px, it, tol);
    o.raw("v", val(o, x));
    poke(x);
    if (!a.intact() || !b.intact() || (px && !samebits(x0, keep))) o.i("post", 1);
  });
}
OP("power") {      // side: right, left; form; v0: starting vector
  fix20(o);
  pick(c["x"], [&](auto *t) {
    typedef TY(t) T;
    typedef typename SparseOf<T>::type S;
    Arg<T> x(c["x"], c.flag("sh"));
    T v, keep;
    if (c.has("v0")) { v = mk<T>(c["v0"]); keep = v; }
    size_t it = c.i("it", 0);
    std::string f = c.str("form");
    bool left = c.str("side") == "left";
    size_t n = x.v.rows();
    typename T::elt_t w;
    if (f == "dense") w = left ? linalg::eig_power_left(x.v, &v, it) : linalg::eig_power_right(x.v, &v, it);
    else if (f == "sparse") w = left ? linalg::eig_power_left(S(x.v), &v, it) : linalg::eig_power_right(S(x.v), &v, it);
    else if (f == "closure") w = with_closure(c.i("how", 0), left ? T(transpose(x.v)) : x.v, [&](auto &&g) { return linalg::eig_power(g, n, &v, it); });
    else w = linalg::eig_power(Fun<T>{left ? T(transpose(x.v)) : x.v}, n, &v, it);
    o.raw("v", val(o, w)); o.raw("l", o.lo1(w)); o.raw("z", val(o, v));
    if (!x.intact() || (c.has("v0") && !samebits(keep, mk<T>(c["v0"])))) o.i("post", 1);
  });
}
OP("expm") {
  fix20(o);
  pick(c["x"], [&](auto *t) {
    typedef TY(t) T;
    Arg<T> x(c["x"], c.flag("sh"));
    T v = c.has("order") ? linalg::expm(x.v, c.i("order")) : linalg::expm(x.v);
    o.raw("v", val(o, v));
    poke(v);
    if (!x.intact()) o.i("post", 1);
  });
}
OP("expm_decay") {
  fix20(o);
  pick(c["x"], [&](auto *t) {
    typedef TY(t) T;
    Arg<T> x(c["x"], c.flag("sh"));
    T v = linalg::expm(x.v);
    o.raw("v", val(o, v));
    if (!x.intact()) o.i("post", 1);
  });
}
OP("expm_nil") {
  o.scale = 256 * 24; o.fixed = true; o.lo = true;
  pick(c["x"], [&](auto *t) {
    typedef TY(t) T;
    Arg<T> x(c["x"], c.flag("sh"));
    T v = linalg::expm(x.v);
    o.raw("v", val(o, v));
    if (!x.intact()) o.i("post", 1);
  });
}
template<class T> struct ArpackOf;
template<> struct ArpackOf<RTensor> { typedef linalg::RArpack type; };
template<> struct ArpackOf<CTensor> { typedef linalg::CArpack type; };
template<class T> T eigs1(const J &c, const T &a, T *z, bool *conv) {
  typedef typename SparseOf<T>::type S;
  typedef typename ArpackOf<T>::type A;
  std::string f = c.str("form");
  int t = c.i("t");
  size_t k = c.i("k");
  if (f == "dense") return linalg::eigs(a, t, k, z, conv);
  if (f == "sparse") return linalg::eigs(S(a), t, k, z, conv);
  if (f == "closure") return with_closure(c.i("how", 0), a, [&](auto &&g) -> T { return linalg::eigs(g, (size_t)a.columns(), t, k, z, conv); });
  if (f == "fun") return linalg::eigs(Fun<T>{a}, (size_t)a.columns(), t, k, z, conv);
  A data(a.columns(), (linalg::EigType)t, k);
  if (z && z->size() >= a.columns()) data.set_start_vector(z->begin_const());
  bool pointers = c.flag("ptr");
  while (data.update() < A::Finished) {
    if (pointers) {
      T x(Indices(tensor::igen << a.columns()), tensor::Vector<typename T::elt_t>(a.columns(), data.get_x_vector()));
      T y = mmult(a, x);
      memcpy((void *)data.get_y_vector(), (const void *)y.begin_const(), sizeof(typename T::elt_t) * y.size());
    } else data.set_y(mmult(a, data.get_x()));
  }
  *conv = data.get_status() == A::Finished;
  return data.get_data(z);
}
OP("eigs") {       // form: dense, sparse, fun, class
  fix20(o);
  pick(c["x"], [&](auto *t) {
    typedef TY(t) T;
    Arg<T> x(c["x"], c.flag("sh"));
    T z, keep;
    if (c.has("z0")) { z = mk<T>(c["z0"]); keep = z; }
    bool conv = false, conv0 = false;
    T v = eigs1(c, x.v, &z, &conv);
    o.raw("v", val(o, v)); o.raw("z", val(o, z)); o.b("conv", conv);
    bool noflag = c.flag("nc") && c.str("form") != "class";     // the flag is optional
    T v0 = eigs1(c, x.v, (T *)0, noflag ? (bool *)0 : &conv0);
    o.raw("v0", val(o, v0)); o.b("conv0", noflag || conv0);
    if (c.flag("again")) {          // the vectors found are the estimate of another call
      bool conv2 = false;
      T v2 = eigs1(c, x.v, &z, noflag ? (bool *)0 : &conv2);
      o.raw("v2", val(o, v2)); o.raw("z2", val(o, z)); o.b("conv2", noflag || conv2);
    }
    if (!x.intact() || (c.has("z0") && !samebits(keep, mk<T>(c["z0"])))) o.i("post", 1);
  });
}
template<class T> struct Laplacian {        // of a chain of n points
  long n;
  T operator()(const T &x) const {
    T y(n);
    for (long i = 0; i < n; i++) y.at(i) = 2.0 * x[i] - (i ? x[i - 1] : 0.0) - (i + 1 < n ? x[i + 1] : 0.0);
    return y;
  }
};
template<class T> void slow(const J &c, W &o) {
  typedef typename SparseOf<T>::type S;
  long n = c.i("n");
  T z = T::ones(n), v;
  bool conv = true, *p = c.flag("nc") ? 0 : &conv;
  std::string f = c.str("form");
  if (f == "fun") v = linalg::eigs(Laplacian<T>{n}, (size_t)n, c.i("t"), c.i("k"), &z, p);
  else {
    T a = T::zeros(n, n);
    for (long i = 0; i < n; i++) { a.at(i, i) = 2.0; if (i) { a.at(i, i - 1) = -1.0; a.at(i - 1, i) = -1.0; } }
    if (f == "dense") v = linalg::eigs(a, c.i("t"), c.i("k"), &z, p);
    else v = linalg::eigs(S(a), c.i("t"), c.i("k"), &z, p);
  }
  o.scale = 68719476736.0; o.fixed = true;
  o.raw("v", val(o, v)); o.b("conv", conv);
}
OP("slow") { if (c["c"].b) slow<CTensor>(c, o); else slow<RTensor>(c, o); }
OP("arpack") {     // a session: ops
  pick(c["x"], [&](auto *t) {
    typedef TY(t) T;
    typedef typename ArpackOf<T>::type A;
    T a = mk<T>(c["x"]);
    long n = a.columns();
    A data(n, (linalg::EigType)c.i("t"), c.i("k"));
    T st = T::ones(n);
    std::string s = "[";
    for (const J &p : c["ops"].a) {
      std::string q = p.str("o");
      long long r = 0;
      if (q == "update") {
        r = data.update();
        if (r == A::Running && !p.flag("nomul")) data.set_y(mmult(a, data.get_x()));
      } else if (q == "run") {
        while ((r = data.update()) < A::Finished) data.set_y(mmult(a, data.get_x()));
      } else if (q == "status") r = data.get_status();
      else if (q == "msg") r = !data.error_message().empty();
      else if (q == "size") r = data.get_vector_size();
      else if (q == "sety") data.set_y(p.i("n") == n ? T(mmult(a, data.get_x())) : T::ones((long)p.i("n")));
      else if (q == "data") r = data.get_data((typename T::elt_t *)0).size();
      else if (q == "vectors") { T z; r = data.get_data(&z).size() * 1000 + z.rows() * 10 + z.columns(); }
      else if (q == "x") data.get_x_vector();
      else if (q == "y") data.get_y_vector();
      else if (q == "start") data.set_start_vector(st.begin_const());
      else if (q == "rand") data.set_random_start_vector();
      else if (q == "tol") data.set_tolerance(1e-10);
      else if (q == "maxit") data.set_maxiter(p.i("n"));
      if (s.size() > 1) s += ",";
      s += std::to_string(r);
    }
    o.raw("obs", s + "]");
  });
}
template<class T> struct Wrong {     // returns vectors of another length
  long d;
  T operator()(const T &v) const { return T::random((long)v.size() + d); }
};
OP("badmap") {
  pick(c["x"], [&](auto *t) {
    typedef TY(t) T;
    Wrong<T> f = {(long)c.i("d")};
    T b = mk<T>(c["x"]), z;
    long n = b.size();
    std::string h = c.str("how");
    if (h == "eigs") linalg::eigs<Wrong<T>, T>(f, n, 0, 1);
    else if (h == "power") linalg::eig_power<Wrong<T>, T>(f, n, &z, 50);
    else linalg::cgs<Wrong<T>, T>(f, b, NULL, 20);
    o.i("v", 1);
  });
}
int main(int argc, char **argv) { return run_cases(argc, argv); }
