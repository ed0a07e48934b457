// fftw, fftw_inplace and fftshift (P22)
#include "tensors.hpp"
#include <tensor/fftw.h>
using namespace vf;
using namespace tensor;

static CTensor fwd(const J &c, const CTensor &x, int dir) {
  std::string k = c.str("k");
  if (k == "all") return fftw(x, dir);
  if (k == "one") return fftw(x, far(c.i("dim")), dir);
  return fftw(x, boo(c["conv"]), dir);
}
static void inplace(const J &c, CTensor &x, int dir) {
  std::string k = c.str("k");
  if (k == "all") fftw_inplace(x, dir);
  else if (k == "one") fftw_inplace(x, far(c.i("dim")), dir);
  else fftw_inplace(x, boo(c["conv"]), dir);
}
static CTensor shift(const J &c, const CTensor &x, int dir) {
  std::string k = c.str("k");
  if (k == "all") return fftshift(x, dir);
  if (k == "one") return fftshift(x, far(c.i("dim")), dir);
  return fftshift(x, boo(c["conv"]), dir);
}
OP("fft") {        // v: returned, w: computed in place, k: copy of the input of the in-place call
  Arg<CTensor> x(c["x"], c.flag("sh"));
  W exact = o;
  o.scale = 65536; o.fixed = true;
  CTensor v = fwd(c, x.v, c.i("dir"));
  o.raw("v", val(o, v));
  poke(v);
  if (!x.intact()) o.i("post", 1);
  CTensor y = mk<CTensor>(c["x"]);
  CTensor keep = y;
  inplace(c, y, c.i("dir"));
  o.raw("w", val(o, y));
  o.raw("k", val(exact, keep));
}
OP("fft_back") {   // there and back
  Arg<CTensor> x(c["x"], c.flag("sh"));
  o.scale = 4096; o.fixed = true;
  int d = c.i("dir");
  CTensor v;
  if (c.flag("in")) { v = x.v; inplace(c, v, d); inplace(c, v, -d); }
  else v = fwd(c, fwd(c, x.v, d), -d);
  o.raw("v", val(o, v));
  if (!x.intact()) o.i("post", 1);
}
OP("fftshift") {   // v: shifted, b: shifted back
  Arg<CTensor> x(c["x"], c.flag("sh"));
  int d = c.i("dir");
  CTensor v = shift(c, x.v, d);
  o.raw("v", val(o, v));
  o.raw("b", val(o, shift(c, v, -d)));
  poke(v);
  if (!x.intact()) o.i("post", 1);
}
int main(int argc, char **argv) { return run_cases(argc, argv); }
