// text output (P27)
#include "tensors.hpp"
#include <tensor/gen.h>
#include <tensor/sparse.h>
#include <sstream>
using namespace vf;
using namespace tensor;

template<class V> static void show(W &o, const V &v) {
  std::ostringstream s;
  s << v << '|' << v << '|';
  o.str("v", s.str());
}
OP("text") {
  std::string k = c.str("k");
  if (c.has("x")) {
    pick(c["x"], [&](auto *t) {
      typedef typename std::remove_pointer<decltype(t)>::type T;
      typedef typename T::elt_t E;
      Arg<T> x(c["x"], true);
      const T &xv = x.v;
      if (k == "tensor") show(o, xv);
      else if (k == "vector") show(o, (const tensor::Vector<E> &)xv);
      else if (k == "matrix") show(o, matrix_form(xv));
      else if (k == "sparse") show(o, tensor::Sparse<E>(xv));
      else if (k == "smatrix") show(o, matrix_form(tensor::Sparse<E>(xv)));
      if (!x.intact()) o.i("post", 1);
    });
  } else if (k == "indices") show(o, ind(c["l"]));
  else if (k == "booleans") {
    Booleans b(c["l"].a.size());
    for (size_t j = 0; j < c["l"].a.size(); j++) b.at(j) = c["l"].a[j].b;
    show(o, b);
  } else if (k == "static") {
    Indices l = ind(c["l"]);
    if (l.size() == 1) show(o, igen << l[0]);
    else if (l.size() == 2) show(o, igen << l[0] << l[1]);
    else show(o, igen << l[0] << l[1] << l[2]);
  } else if (k == "number") {
    cdouble z = mknum<cdouble>(c["n"]);
    std::ostringstream s;
    tensor::operator<<(tensor::operator<<(s, z) << '|', z) << '|';
    o.str("v", s.str());
  } else if (k == "scan") {
    std::stringstream s;
    for (const J &p : c["l"].a) { tensor::operator<<(s, mknum<cdouble>(p)); s << '\n'; }
    std::string r = "[";
    for (size_t j = 0; j < c["l"].a.size(); j++) {
      cdouble z;
      tensor::operator>>(s, z);
      if (j) r += ",";
      r += o.num1(z);
    }
    o.raw("v", r + "]");
  }
}
int main(int argc, char **argv) { return run_cases(argc, argv); }
