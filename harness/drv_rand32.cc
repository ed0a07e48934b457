// The 32-bit generator, which this configuration of the library leaves out:
// its sources, under a namespace of their own.
#include <algorithm>
#include <limits>
#include "common.hpp"
#include <tensor/config.h>
#undef TENSOR_64BITS
#define tensor tensor32
#include "rand/rand32.cc"
#undef N
#undef M
#undef MATRIX_A
#include "rand/rand.cc"
using namespace vf;
#include "rand_ops.hpp"
static std::string all(const J &c) {
  std::string s = "[";
  for (size_t k = 0; k < c["segs"].a.size(); k++) {
    const J &g = c["segs"].a[k];
    if (g.has("seed")) tensor::set_seed(unlimbs(g["seed"]));
    else { setenv("RANDSEED", std::to_string(g.i("env")).c_str(), 1); tensor::rand_reseed(); unsetenv("RANDSEED"); }
    s += k ? ",[" : "[";
    for (size_t j = 0; j < g["ops"].a.size(); j++) {
      bool done;
      s += (j ? "," : "") + scalar(g["ops"].a[j], done);
      if (!done) _exit(3);
    }
    s += "]";
  }
  return s + "]";
}
OP("rand") {
  std::string a = all(c);
  for (int k = 0; k < 5; k++) tensor::rand<double>();
  std::string b = all(c);
  o.b("same", a == b);
  o.raw("segs", a);
}
int main(int argc, char **argv) { case_seconds() = 60; return run_cases(argc, argv); }
