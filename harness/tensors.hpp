// Tensors, indices and views <-> JSON values of the specification.
//   tensor: {"c":bool,"d":[dims],"e":[[re,im],...]}   (column-major), optional "q": divide by q
#ifndef VERIF_TENSORS_HPP
#define VERIF_TENSORS_HPP
#include "common.hpp"
#include <tensor/tensor.h>
#include <tensor/io.h>

namespace vf {
using tensor::RTensor; using tensor::CTensor; using tensor::Indices; using tensor::Booleans;
using tensor::cdouble; using tensor::PRange;
typedef tensor::index idx;

template<class T> struct is_c { static const bool v = false; };
template<> struct is_c<CTensor> { static const bool v = true; };
template<> struct is_c<cdouble> { static const bool v = true; };

inline void put(const J &e, double q, double &out) { out = special(e.a[0].n) / q; }
inline void put(const J &e, double q, cdouble &out) { out = cdouble(special(e.a[0].n) / q, special(e.a[1].n) / q); }

// numbers beyond the 32 bits of the specification: near 1.0, 1.2, 1.4 10^9 stand for 2^32, 2^61, 2^62 and as near
inline idx far(long long n) {
  long long m = n < 0 ? -n : n, b[3] = {1000000000LL, 1200000000LL, 1400000000LL};
  int p[3] = {32, 61, 62};
  for (int k = 0; k < 3; k++)
    if (m > b[k] - 1000 && m < b[k] + 1000) { long long v = m - b[k] + (1LL << p[k]); return n < 0 ? -v : v; }
  return n;
}
inline Indices indf(const J &j) {
  Indices d((idx)j.a.size());
  for (size_t k = 0; k < j.a.size(); k++) d.at(k) = far(j.a[k].n);
  return d;
}
inline Indices ind(const J &j) {
  Indices d((idx)j.a.size());
  for (size_t k = 0; k < j.a.size(); k++) d.at(k) = j.a[k].n;
  return d;
}
inline Booleans boo(const J &j) {
  Booleans d((idx)j.a.size());
  for (size_t k = 0; k < j.a.size(); k++) d.at(k) = j.a[k].b || j.a[k].n;
  return d;
}
template<class T> T mk(const J &j) {
  double q = j.i("q", 1);
  T t(ind(j["d"]));
  const J &e = j["e"];
  if ((idx)e.a.size() != t.size()) { fprintf(stderr, "driver: tensor with %zu elements, dims say %ld\n", e.a.size(), (long)t.size()); _exit(3); }
  for (size_t k = 0; k < e.a.size(); k++) put(e.a[k], q, t.at_seq(k));
  return t;
}
template<class N> N mknum(const J &e, double q = 1) { N n; put(e, q, n); return n; }

template<class A, class B> bool samebits(const A &a, const B &b) {
  if (a.dimensions().size() != b.dimensions().size() || a.size() != b.size()) return false;
  for (idx i = 0; i < a.dimensions().size(); i++) if (a.dimensions()[i] != b.dimensions()[i]) return false;
  return a.size() == 0 || !memcmp((const void *)a.begin_const(), (const void *)b.begin_const(), sizeof(*a.begin_const()) * a.size());
}

template<class T> std::string tens(const W &w, const T &t) {
  std::string s = std::string("{\"c\":") + (is_c<T>::v ? "true" : "false") + ",\"d\":" + W::list(t.dimensions()) + ",\"e\":[";
  const typename T::elt_t *p = t.begin_const();
  for (idx k = 0; k < t.size(); k++) { if (k) s += ","; s += w.num1(p[k]); }
  if (w.lo) {
    s += "],\"l\":[";
    for (idx k = 0; k < t.size(); k++) { if (k) s += ","; s += w.lo1(p[k]); }
  }
  return s + "]}";
}
// one output operator for every kind of result
inline std::string val(const W &w, const RTensor &t) { return tens(w, t); }
inline std::string val(const W &w, const CTensor &t) { return tens(w, t); }
inline std::string val(const W &w, double v) { return w.num1(v); }
inline std::string val(const W &w, const cdouble &v) { return w.num1(v); }
inline std::string val(const W &, bool v) { return v ? "true" : "false"; }
inline std::string val(const W &, const Indices &v) { return W::list(v); }
inline std::string val(const W &, const Booleans &v) {
  std::string s = "[";
  for (idx k = 0; k < v.size(); k++) { if (k) s += ","; s += v[k] ? "true" : "false"; }
  return s + "]";
}

// An argument: the object, optionally a second owner of its storage, and a
// pristine copy to compare with after the call.
template<class T> struct Arg {
  T v, keep, orig;
  Arg(const J &j, bool shared) : v(mk<T>(j)), keep(), orig(mk<T>(j)) { if (shared) keep = v; sh = shared; }
  bool sh;
  bool intact() const { return samebits(v, orig) && (!sh || samebits(keep, orig)); }
  bool kept() const { return !sh || samebits(keep, orig); }
};

template<class T> void poke(T &t) {   // write through a result: must not show in the arguments
  if (t.size()) t.at_seq(0) = t.begin_const()[0] + typename T::elt_t(1.0);
}
inline void poke(double &) {} inline void poke(cdouble &) {} inline void poke(bool &) {}
inline void poke(Indices &i) { if (i.size()) i.at(0) = -12345; }
inline void poke(Booleans &b) { if (b.size()) b.at(0) = !b[0]; }

template<class F> void pick(const J &j, F f) {   // f(type tag)
  if (j["c"].b) f((CTensor *)0); else f((RTensor *)0);
}

// r := f(x), const in x
template<class R, class X> void finish(W &o, R r, const X &x) {
  o.raw("v", val(o, r));
  poke(r);
  if (!x.intact()) o.i("post", 1);
}
template<class R, class X, class Y> void finish(W &o, R r, const X &x, const Y &y) {
  o.raw("v", val(o, r));
  poke(r);
  if (!x.intact() || !y.intact()) o.i("post", 1);
}
template<class T> struct strip { typedef T type; };
template<class T> struct strip<const T> { typedef T type; };
template<class T> struct strip<const T &> { typedef T type; };
template<class T> struct strip<T &> { typedef T type; };

inline void setup(const J &c, W &o) { o.scale = c.i("sc", 1); o.fixed = c.flag("fx"); }

template<class F> void un(const J &c, W &o, F f) {       // any type of x
  setup(c, o);
  pick(c["x"], [&](auto *t) {
    typedef typename std::remove_pointer<decltype(t)>::type T;
    Arg<T> x(c["x"], c.flag("sh"));
    const T &xv = x.v;
    finish(o, typename strip<decltype(f(xv))>::type(f(xv)), x);
  });
}
template<class T, class F> void unT(const J &c, W &o, F f) {   // one type only
  setup(c, o);
  Arg<T> x(c["x"], c.flag("sh"));
  const T &xv = x.v;
  finish(o, typename strip<decltype(f(xv))>::type(f(xv)), x);
}
template<class TX, class TY, class F> void binTT(const J &c, W &o, F f) {
  setup(c, o);
  Arg<TX> x(c["x"], c.flag("sh"));
  Arg<TY> y(c["y"], c.flag("sh"));
  const TX &xv = x.v; const TY &yv = y.v;
  finish(o, typename strip<decltype(f(xv, yv))>::type(f(xv, yv)), x, y);
}
template<class TX, class F> void binSame(const J &c, W &o, F f) {   // y is the very same object, or shares its storage
  setup(c, o);
  Arg<TX> x(c["x"], c.flag("sh"));
  const TX &xv = x.v;
  if (c.i("al") == 1) finish(o, typename strip<decltype(f(xv, xv))>::type(f(xv, xv)), x);
  else { TX y2(xv); const TX &yv = y2; finish(o, typename strip<decltype(f(xv, yv))>::type(f(xv, yv)), x); }
}
// all four type combinations
template<class F> void bin(const J &c, W &o, F f) {
  bool a = c["x"]["c"].b;
  if (c.i("al", 0)) { if (a) binSame<CTensor>(c, o, f); else binSame<RTensor>(c, o, f); return; }
  bool b = c["y"]["c"].b;
  if (a && b) binTT<CTensor, CTensor>(c, o, f);
  else if (a) binTT<CTensor, RTensor>(c, o, f);
  else if (b) binTT<RTensor, CTensor>(c, o, f);
  else binTT<RTensor, RTensor>(c, o, f);
}
// equal types only
template<class F> void binEq(const J &c, W &o, F f) {
  bool a = c["x"]["c"].b;
  if (c.i("al", 0)) { if (a) binSame<CTensor>(c, o, f); else binSame<RTensor>(c, o, f); return; }
  if (a) binTT<CTensor, CTensor>(c, o, f); else binTT<RTensor, RTensor>(c, o, f);
}

// ranges: ["s",n] ["r",a,b] ["t",a,b,step] ["i",[..]] ["f"]
inline PRange rng(const J &j) {
  const std::string &k = j.a[0].s;
  if (k == "s") return tensor::range(far(j.a[1].n));
  if (k == "r") return tensor::range(far(j.a[1].n), far(j.a[2].n));
  if (k == "t") return tensor::range(far(j.a[1].n), far(j.a[2].n), far(j.a[3].n));
  if (k == "i") return tensor::range(indf(j.a[1]));
  return tensor::range();
}
template<class T> T getview(const T &t, const J &r) {
  const auto &a = r.a;
  switch (a.size()) {
    case 1: return T(t(rng(a[0])));
    case 2: return T(t(rng(a[0]), rng(a[1])));
    case 3: return T(t(rng(a[0]), rng(a[1]), rng(a[2])));
    case 4: return T(t(rng(a[0]), rng(a[1]), rng(a[2]), rng(a[3])));
    case 5: return T(t(rng(a[0]), rng(a[1]), rng(a[2]), rng(a[3]), rng(a[4])));
    default: return T(t(rng(a[0]), rng(a[1]), rng(a[2]), rng(a[3]), rng(a[4]), rng(a[5])));
  }
}
// g(view) / g(mutable view)
template<class T, class G> void withview(const T &t, const J &r, G g) {
  const auto &a = r.a;
  switch (a.size()) {
    case 1: g(t(rng(a[0]))); break;
    case 2: g(t(rng(a[0]), rng(a[1]))); break;
    case 3: g(t(rng(a[0]), rng(a[1]), rng(a[2]))); break;
    case 4: g(t(rng(a[0]), rng(a[1]), rng(a[2]), rng(a[3]))); break;
    case 5: g(t(rng(a[0]), rng(a[1]), rng(a[2]), rng(a[3]), rng(a[4]))); break;
    default: g(t(rng(a[0]), rng(a[1]), rng(a[2]), rng(a[3]), rng(a[4]), rng(a[5])));
  }
}
template<class T, class G> void withmview(T &t, const J &r, G g) {
  const auto &a = r.a;
  switch (a.size()) {
    case 1: g(t.at(rng(a[0]))); break;
    case 2: g(t.at(rng(a[0]), rng(a[1]))); break;
    case 3: g(t.at(rng(a[0]), rng(a[1]), rng(a[2]))); break;
    case 4: g(t.at(rng(a[0]), rng(a[1]), rng(a[2]), rng(a[3]))); break;
    case 5: g(t.at(rng(a[0]), rng(a[1]), rng(a[2]), rng(a[3]), rng(a[4]))); break;
    default: g(t.at(rng(a[0]), rng(a[1]), rng(a[2]), rng(a[3]), rng(a[4]), rng(a[5])));
  }
}
template<class T> typename T::elt_t getel(const T &t, const J &r) {
  std::vector<idx> i; for (auto &x : r.a) i.push_back(far(x.n));
  switch (i.size()) {
    case 1: return t(i[0]);
    case 2: return t(i[0], i[1]);
    case 3: return t(i[0], i[1], i[2]);
    case 4: return t(i[0], i[1], i[2], i[3]);
    case 5: return t(i[0], i[1], i[2], i[3], i[4]);
    default: return t(i[0], i[1], i[2], i[3], i[4], i[5]);
  }
}
template<class T> typename T::elt_t &atel(T &t, const J &r) {
  std::vector<idx> i; for (auto &x : r.a) i.push_back(far(x.n));
  switch (i.size()) {
    case 1: return t.at(i[0]);
    case 2: return t.at(i[0], i[1]);
    case 3: return t.at(i[0], i[1], i[2]);
    case 4: return t.at(i[0], i[1], i[2], i[3]);
    case 5: return t.at(i[0], i[1], i[2], i[3], i[4]);
    default: return t.at(i[0], i[1], i[2], i[3], i[4], i[5]);
  }
}
}  // namespace vf
#endif
