// Histories of operations over several live objects; after each step all objects
// are projected (values, owner counts, identity of storage, live blocks).
#include "tensors.hpp"
#include <tensor/sparse.h>
#include <tensor/linalg.h>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
using namespace vf;
using namespace tensor;
typedef tensor::Vector<double> V;

// ------------------------------------------------ allocations of the library
static const size_t MAXA = 1 << 16;
static struct { const volatile void *p; size_t n; } tab[MAXA];
static size_t ntab = 0;
static bool counting = false;
static void on_malloc(const volatile void *p, size_t n) {
  if (!counting || !p || ntab >= MAXA) return;
  tab[ntab].p = p; tab[ntab].n = n; ntab++;
}
static void on_free(const volatile void *p) {
  if (!p) return;
  for (size_t k = ntab; k-- > 0;) if (tab[k].p == p) { tab[k] = tab[--ntab]; return; }
}
#ifdef __SANITIZE_ADDRESS__
static const size_t GUARD = vf_guard::HEAD + vf_guard::TAIL;   // around each array
#else
static const size_t GUARD = 0;
#endif
static long live(size_t atleast) { long c = 0; for (size_t k = 0; k < ntab; k++) c += tab[k].n >= atleast; return c; }

struct Tracked {   // pointee of shared_ptr
  static long alive; static std::vector<long> &dead() { static std::vector<long> d; return d; }
  long v, magic;
  Tracked(long x) : v(x), magic(0x5ca1ab1e) { alive++; }
  ~Tracked() { if (magic != 0x5ca1ab1e) abort(); magic = 0; alive--; }
};
long Tracked::alive = 0;
typedef tensor::shared_ptr<Tracked> SP;
typedef tensor::RefPointer<double> Q;

struct World {
  std::map<std::string, RTensor *> R; std::map<std::string, CTensor *> C; std::map<std::string, Indices *> I;
  std::map<std::string, V *> v; std::map<std::string, RSparse *> S; std::map<std::string, SP *> P;
  std::map<std::string, Q *> q;
  std::vector<double *> ext;
  ~World() { for (auto p : ext) delete[] p; }
};

template<class T> std::map<std::string, T *> &slots(World &w);
template<> std::map<std::string, RTensor *> &slots(World &w) { return w.R; }
template<> std::map<std::string, CTensor *> &slots(World &w) { return w.C; }
template<> std::map<std::string, Indices *> &slots(World &w) { return w.I; }
template<> std::map<std::string, V *> &slots(World &w) { return w.v; }
template<> std::map<std::string, RSparse *> &slots(World &w) { return w.S; }
template<> std::map<std::string, SP *> &slots(World &w) { return w.P; }
template<> std::map<std::string, Q *> &slots(World &w) { return w.q; }
template<class T> T &get(World &w, const std::string &n) { T *p = slots<T>(w)[n]; if (!p) _exit(3); return *p; }
template<class T> void put(World &w, const std::string &n, const T &x) {
  T *&p = slots<T>(w)[n];
  if (p) *p = x; else p = new T(x);
}

template<class It> std::string vecval(It b, It e) {
  W w; std::string s = "{\"c\":false,\"d\":[" + std::to_string((long)(e - b)) + "],\"e\":[";
  for (It p = b; p != e; ++p) { if (p != b) s += ","; s += "[" + std::to_string(w.num((double)*p)) + ",0]"; }
  return s + "]}";
}
static std::string value(World &w, const std::string &n) {
  W o;
  switch (n[0]) {
    case 'R': { const RTensor *p = w.R[n]; return p ? "[" + tens(o, *p) + "]" : "[]"; }
    case 'C': { const CTensor *p = w.C[n]; return p ? "[" + tens(o, *p) + "]" : "[]"; }
    case 'I': { const Indices *p = w.I[n]; return p ? "[" + vecval(p->begin_const(), p->end_const()) + "]" : "[]"; }
    case 'V': { const V *p = w.v[n]; return p ? "[" + vecval(p->begin_const(), p->end_const()) + "]" : "[]"; }
    case 'Q': { const Q *p = w.q[n]; return p ? "[" + vecval(p->begin_const(), p->end_const()) + "]" : "[]"; }
    case 'S': { const RSparse *p = w.S[n]; if (!p) return "[]"; RTensor t(full(*p)); return "[" + tens(o, t) + "]"; }
    case 'P': { const SP *p = w.P[n]; if (!p) return "[]"; double x = (*p)->v; return "[" + vecval(&x, &x + 1) + "]"; }
  }
  _exit(3);
}
static const void *addr(World &w, const std::string &n) {
  switch (n[0]) {
    case 'R': { const RTensor *p = w.R[n]; return p && p->size() ? p->begin_const() : 0; }
    case 'C': { const CTensor *p = w.C[n]; return p && p->size() ? p->begin_const() : 0; }
    case 'I': { const Indices *p = w.I[n]; return p && p->size() ? p->begin_const() : 0; }
    case 'V': { const V *p = w.v[n]; return p && p->size() ? p->begin_const() : 0; }
    case 'P': { const SP *p = w.P[n]; return p ? &**p : 0; }
    case 'Q': { const Q *p = w.q[n]; return p && p->size() ? p->begin() : 0; }
  }
  return 0;
}
static long refs(World &w, const std::string &n) {
  switch (n[0]) {
    case 'R': return w.R[n]->ref_count();
    case 'C': return w.C[n]->ref_count();
    case 'I': return w.I[n]->ref_count();
    case 'V': return w.v[n]->ref_count();
    case 'Q': return w.q[n]->ref_count();
  }
  return 0;
}
template<class T> void dropall(std::map<std::string, T *> &m) { for (auto &x : m) { delete x.second; x.second = 0; } }

template<class T> void sw(T &a, T &b) { std::swap(a, b); }
template<class T> static void byval(T x) { if (x.size()) { x.at_seq(0) = typename T::elt_t(77); x.fill_with_zeros(); } }
template<class T> static void vec(const T &x) {
  std::vector<T> v;
  for (int k = 0; k < 4; k++) v.push_back(x);
  if (x.size()) { v[1].at_seq(0) = typename T::elt_t(5); v[2].fill_with_zeros(); }
  v.erase(v.begin());
  v.push_back(v[0]);
  v[0] = v[2]; v.pop_back();
}

// operations common to tensors of either kind
template<class T> bool common(World &w, const J &c, const std::string &op) {
  typedef typename T::elt_t E;
  const std::string s = c.str("s"), t = c.str("t"), u = c.str("u");
  if (op == "new") put<T>(w, s, mk<T>(c["x"]));
  else if (op == "newI") {
    T x(get<Indices>(w, u));
    for (idx k = 0; k < x.size(); k++) x.at_seq(k) = E(c.i("n") + k);
    put<T>(w, s, x);
  } else if (op == "def") put<T>(w, s, T());
  else if (op == "copy") {
    T *n = new T(get<T>(w, t));   // construct, then let go of the old object
    delete slots<T>(w)[s];
    slots<T>(w)[s] = n;
  } else if (op == "assign") get<T>(w, s) = get<T>(w, t);
  else if (op == "drop") { delete slots<T>(w)[s]; slots<T>(w)[s] = 0; }
  else if (op == "swap") sw(get<T>(w, s), get<T>(w, t));
  else if (op == "set") atel(get<T>(w, s), c["i"]) = mknum<E>(c["n"]);
  else if (op == "setseq") get<T>(w, s).at_seq(c.i("k")) = mknum<E>(c["n"]);
  else if (op == "setit") *(get<T>(w, s).begin() + c.i("k")) = mknum<E>(c["n"]);
  else if (op == "setend") *(get<T>(w, s).end() - 1 - c.i("k")) = mknum<E>(c["n"]);
  else if (op == "fill") get<T>(w, s).fill_with(mknum<E>(c["n"]));
  else if (op == "reshapeI") get<T>(w, s).reshape(get<Indices>(w, u));
  else if (op == "reshaped") get<T>(w, s).reshape(ind(c["d"]));
  else if (op == "ctorI") put<T>(w, s, T(get<Indices>(w, u), get<T>(w, t)));
  else if (op == "+=t") get<T>(w, s) += get<T>(w, t);
  else if (op == "-=t") get<T>(w, s) -= get<T>(w, t);
  else if (op == "*=t") get<T>(w, s) *= get<T>(w, t);
  else if (op == "+=n") get<T>(w, s) += mknum<E>(c["n"]);
  else if (op == "*=n") get<T>(w, s) *= mknum<E>(c["n"]);
  else if (op == "vsett") { T &d = get<T>(w, s); const T &b = get<T>(w, t); withmview(d, c["rg"], [&](auto v) { v = b; }); }
  else if (op == "vsetv") {
    T &d = get<T>(w, s); const T &b = get<T>(w, t);
    withmview(d, c["rg"], [&](auto v) { withview(b, c["rg2"], [&](auto q) { v = q; }); });
  } else if (op == "vsetn") { T &d = get<T>(w, s); E n = mknum<E>(c["n"]); withmview(d, c["rg"], [&](auto v) { v = n; }); }
  else if (op == "byval") byval<T>(get<T>(w, s));
  else if (op == "vec") vec<T>(get<T>(w, s));
  else if (op == "f") {
    const std::string f = c.str("f");
    const T &x = get<T>(w, t);
    if (f == "neg") put<T>(w, s, -x);
    else if (f == "conj") put<T>(w, s, conj(x));
    else if (f == "flatten") put<T>(w, s, flatten(x));
    else if (f == "squeeze") put<T>(w, s, squeeze(x));
    else if (f == "reshape") put<T>(w, s, reshape(x, ind(c["d"])));
    else if (f == "permute") put<T>(w, s, permute(x, c.i("i"), c.i("j")));
    else if (f == "transpose") put<T>(w, s, transpose(x));
    else if (f == "addn") put<T>(w, s, x + mknum<E>(c["n"]));
    else if (f == "muln") put<T>(w, s, x * mknum<E>(c["n"]));
    else if (f == "add") put<T>(w, s, x + get<T>(w, u));
    else if (f == "sub") put<T>(w, s, x - get<T>(w, u));
    else if (f == "mul") put<T>(w, s, x * get<T>(w, u));
    else if (f == "view") put<T>(w, s, getview(x, c["rg"]));
    else if (f == "chdim") put<T>(w, s, change_dimension(x, c.i("i"), c.i("m")));
    else if (f == "fold") put<T>(w, s, fold(x, c.i("i"), get<T>(w, u), c.i("j")));
    else if (f == "kron") put<T>(w, s, kron(x, get<T>(w, u)));
    else return false;
  }
  else return false;
  return true;
}

static bool apply(World &w, const J &c, std::string &extra) {
  const std::string op = c.str("o"), s = c.str("s"), t = c.str("t"), u = c.str("u");
  if (op == "dimsof") { if (t[0] == 'R') put<Indices>(w, s, get<RTensor>(w, t).dimensions()); else put<Indices>(w, s, get<CTensor>(w, t).dimensions()); return true; }
  if (op == "toV") { V x(get<RTensor>(w, t)); put<V>(w, s, x); return true; }
  if (op == "fromV") { put<RTensor>(w, s, RTensor(get<V>(w, t))); return true; }
  if (op == "tocomplex") { put<CTensor>(w, s, to_complex(get<RTensor>(w, t))); return true; }
  if (op == "coerce") { put<CTensor>(w, s, CTensor(get<RTensor>(w, t))); return true; }
  if (op == "realpart") { put<RTensor>(w, s, real(get<CTensor>(w, t))); return true; }
  if (op == "imagpart") { put<RTensor>(w, s, imag(get<CTensor>(w, t))); return true; }
  if (op == "+=R") { get<CTensor>(w, s) += get<RTensor>(w, t); return true; }
  if (op == "svd") { RTensor U, VT; if (get<RTensor>(w, t).size()) linalg::svd(get<RTensor>(w, t), &U, &VT); return true; }
  if (op == "solve") { const RTensor &x = get<RTensor>(w, t); RTensor b = x; linalg::solve(x + RTensor::eye(x.rows()) * 100.0, b); return true; }
  if (op == "fold_into") { fold_into(get<RTensor>(w, s), get<RTensor>(w, t), c.i("i"), get<RTensor>(w, u), c.i("j")); return true; }
  if (op == "foldin_into") { foldin_into(get<RTensor>(w, s), get<RTensor>(w, t), c.i("i"), get<RTensor>(w, u), c.i("j")); return true; }
  if (op == "mmult_into") { mmult_into(get<RTensor>(w, s), get<RTensor>(w, t), get<RTensor>(w, u)); return true; }
  if (op == "full") { put<RTensor>(w, s, full(get<RSparse>(w, t))); return true; }
  if (op == "mksp") { put<RSparse>(w, s, RSparse(get<RTensor>(w, t))); return true; }
  if (op == "poke") {   // write through copies of the parts of a sparse matrix
    const RSparse &x = get<RSparse>(w, t);
    RTensor d = x.priv_data(); if (d.size()) d.at_seq(0) = 99;
    Indices a = x.priv_column(), b = x.priv_row_start(), e = x.dimensions();
    if (a.size()) a.at(0) = 55;
    if (b.size()) b.at(0) = 33;
    e.at(0) = 11; e.at(1) = 12;
    RSparse y = x;
    y = y * 2.0;
    y = -x;
    return true;
  }
  switch (s[0]) {
    case 'R': return common<RTensor>(w, c, op);
    case 'C': return common<CTensor>(w, c, op);
    case 'I': {
      if (op == "new") put<Indices>(w, s, ind(c["l"]));
      else if (op == "def") put<Indices>(w, s, Indices());
      else if (op == "copy") { Indices *n = new Indices(get<Indices>(w, t)); delete w.I[s]; w.I[s] = n; }
      else if (op == "assign") get<Indices>(w, s) = get<Indices>(w, t);
      else if (op == "drop") { delete w.I[s]; w.I[s] = 0; }
      else if (op == "swap") sw(get<Indices>(w, s), get<Indices>(w, t));
      else if (op == "setseq") get<Indices>(w, s).at(c.i("k")) = c["n"].a[0].n;
      else if (op == "setit") *(get<Indices>(w, s).begin() + c.i("k")) = c["n"].a[0].n;
      else if (op == "setend") *(get<Indices>(w, s).end() - 1 - c.i("k")) = c["n"].a[0].n;
      else if (op == "concat") put<Indices>(w, s, get<Indices>(w, t) << get<Indices>(w, u));
      else if (op == "resize") { Indices &x = get<Indices>(w, s); x.resize(c.i("m")); for (idx k = 0; k < x.size(); k++) x.at(k) = 0; }
      else return false;
      return true;
    }
    case 'V': {
      if (op == "new") { RTensor x = mk<RTensor>(c["x"]); V y(x.size()); for (idx k = 0; k < x.size(); k++) y.at(k) = x[k]; x = RTensor(); put<V>(w, s, y); }
      else if (op == "borrow") {
        bool was = counting; counting = false;
        RTensor x = mk<RTensor>(c["x"]);
        double *d = new double[x.size()];
        w.ext.push_back(d);
        std::copy(x.begin_const(), x.end_const(), d);
        counting = was;
        V *n = new V(x.size(), d);
        delete w.v[s]; w.v[s] = n;
      }
      else if (op == "def") put<V>(w, s, V());
      else if (op == "copy") { V *n = new V(get<V>(w, t)); delete w.v[s]; w.v[s] = n; }
      else if (op == "assign") get<V>(w, s) = get<V>(w, t);
      else if (op == "drop") { delete w.v[s]; w.v[s] = 0; }
      else if (op == "swap") sw(get<V>(w, s), get<V>(w, t));
      else if (op == "setseq") get<V>(w, s).at(c.i("k")) = c["n"].a[0].n;
      else if (op == "setit") *(get<V>(w, s).begin() + c.i("k")) = c["n"].a[0].n;
      else if (op == "setend") *(get<V>(w, s).end() - 1 - c.i("k")) = c["n"].a[0].n;
      else if (op == "resize") { V &x = get<V>(w, s); x.resize(c.i("m")); for (idx k = 0; k < x.size(); k++) x.at(k) = 0; }
      else if (op == "resize_fail") { V &x = get<V>(w, s); try { x.resize(-1); } catch (std::bad_alloc &) { } }
      else return false;
      return true;
    }
    case 'Q': {     // the handle on its own
      if (op == "new" || op == "borrow") {
        bool was = counting, wrap = c.flag("wrap") || op == "borrow"; counting = false;
        RTensor x = mk<RTensor>(c["x"]);
        counting = was && op == "new";
        double *d = wrap ? new double[x.size()] : 0;
        counting = false;
        if (op == "borrow") w.ext.push_back(d);
        counting = was;
        Q *n = !wrap ? new Q(x.size()) : op == "new" ? new Q(d, x.size()) : new Q(d, x.size(), false);
        std::copy(x.begin_const(), x.end_const(), n->begin());
        delete w.q[s]; w.q[s] = n;
      }
      else if (op == "def") put<Q>(w, s, Q());
      else if (op == "copy") { Q *n = new Q(get<Q>(w, t)); delete w.q[s]; w.q[s] = n; }
      else if (op == "assign") get<Q>(w, s) = get<Q>(w, t);
      else if (op == "drop") { delete w.q[s]; w.q[s] = 0; }
      else if (op == "swap") sw(get<Q>(w, s), get<Q>(w, t));
      else if (op == "setit") *(get<Q>(w, s).begin() + c.i("k")) = c["n"].a[0].n;
      else if (op == "setend") *(get<Q>(w, s).end() - 1 - c.i("k")) = c["n"].a[0].n;
      else if (op == "resize") { Q &x = get<Q>(w, s); x.reallocate(c.i("m")); std::fill(x.begin(), x.end(), 0.0); }
      else return false;
      return true;
    }
    case 'S': {
      if (op == "copy") { RSparse *n = new RSparse(get<RSparse>(w, t)); delete w.S[s]; w.S[s] = n; }
      else if (op == "assign") get<RSparse>(w, s) = get<RSparse>(w, t);
      else if (op == "drop") { delete w.S[s]; w.S[s] = 0; }
      else if (op == "swap") sw(get<RSparse>(w, s), get<RSparse>(w, t));
      else if (op == "sadd") put<RSparse>(w, s, get<RSparse>(w, t) + get<RSparse>(w, u));
      else if (op == "ssub") put<RSparse>(w, s, get<RSparse>(w, t) - get<RSparse>(w, u));
      else if (op == "smuln") put<RSparse>(w, s, get<RSparse>(w, t) * (double)c["n"].a[0].n);
      else if (op == "stran") put<RSparse>(w, s, transpose(get<RSparse>(w, t)));
      else return false;
      return true;
    }
    case 'P': {
      if (op == "new") { SP *n = new SP(new Tracked(c.i("m"))); delete w.P[s]; w.P[s] = n; }
      else if (op == "copy") { SP *n = new SP(get<SP>(w, t)); delete w.P[s]; w.P[s] = n; }
      else if (op == "assign") get<SP>(w, s) = get<SP>(w, t);
      else if (op == "drop") { delete w.P[s]; w.P[s] = 0; }
      else if (op == "swap") sw(get<SP>(w, s), get<SP>(w, t));
      else if (op == "pset") { (*get<SP>(w, s)).v = c["n"].a[0].n; }
      else if (op == "byval") { auto f = [](SP p) { SP q(p); return q->v; }; f(get<SP>(w, s)); }
      else return false;
      return true;
    }
  }
  return false;
}

OP("history") {
  static bool hooked = false;
  if (!hooked) { __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); hooked = true; }
  bool share = c.str("mode") == "share" || c.str("mode") == "ptr";
  std::string out;
  long left = 0;
  for (int round = share ? 0 : 1; round < 2; round++) {   // the first round warms up the allocator
    World w;
    ntab = 0;
    Tracked::alive = 0;
    std::map<std::string, std::string> last;
    std::map<std::string, const void *> la;
    for (auto &n : c["slots"].a) { value(w, n.s); last[n.s] = "[]"; la[n.s] = 0; }
    out = "[";
    bool firststep = true;
    for (auto &op : c["ops"].a) {
      std::string extra;
      counting = share;
      if (!apply(w, op, extra)) { fprintf(stderr, "driver: history op %s %s %s?\n", op.str("o").c_str(), op.str("f").c_str(), op.str("s").c_str()); _exit(3); }
      counting = false;
      if (!firststep) out += ",";
      firststep = false;
      out += "{\"v\":{";
      bool first = true;
      for (auto &n : c["slots"].a) {
        std::string v = value(w, n.s);
        if (v != last[n.s]) {
          if (!first) out += ",";
          first = false;
          out += W::q(n.s) + ":" + v;
          last[n.s] = v;
        }
      }
      out += "}";
      if (share) {
        std::map<const void *, std::string> owner;
        std::string bk, rc, mv;
        for (auto &n : c["slots"].a) {
          const void *a = addr(w, n.s);
          std::string o = "";
          if (a) { if (!owner.count(a)) owner[a] = n.s; o = owner[a]; }
          bk += (bk.empty() ? "" : ",") + W::q(n.s) + ":" + W::q(o);
          rc += (rc.empty() ? "" : ",") + W::q(n.s) + ":" + std::to_string(a ? refs(w, n.s) : 0);
          if (a != la[n.s]) mv += (mv.empty() ? "" : ",") + W::q(n.s);
          la[n.s] = a;
        }
        out += ",\"bk\":{" + bk + "},\"rc\":{" + rc + "},\"mv\":[" + mv + "],\"live\":" +
               std::to_string(c.str("mode") == "ptr" ? Tracked::alive : live(c.i("min") + GUARD));
      }
      out += "}";
    }
    out += "]";
    dropall(w.R); dropall(w.C); dropall(w.I); dropall(w.v); dropall(w.S); dropall(w.P); dropall(w.q);
    left = (long)ntab;
    if (c.str("mode") == "ptr") left += Tracked::alive;
  }
  o.raw("steps", out);
  o.i("left", left);
}

int main(int argc, char **argv) { return run_cases(argc, argv); }
