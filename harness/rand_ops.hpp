// Draws of random numbers; included by the drivers of both generators.
static std::string limbs(unsigned long long v) {
  return "[" + std::to_string(v & 0xffff) + "," + std::to_string((v >> 16) & 0xffff) + "," +
    std::to_string((v >> 32) & 0xffff) + "," + std::to_string(v >> 48) + "]";
}
static std::string unit(double x) {
  double y = x * 9007199254740992.0;
  if (!(x >= 0 && x <= 1) || y != std::floor(y)) return "[]";
  return limbs((unsigned long long)y);
}
static unsigned long long unlimbs(const J &s) {
  unsigned long long v = 0;
  for (size_t k = s.a.size(); k-- > 0;) v = (v << 16) | (unsigned long long)s.a[k].n;
  return v;
}
static std::string scalar(const J &c, bool &done) {
  const std::string o = c.str("o");
  long n = c.i("n", 0), m = c.i("m", 0);
  done = true;
  if (o == "i") return limbs((long long)tensor::rand<int>());
  if (o == "u") return limbs(tensor::rand<unsigned int>());
  if (o == "l") return limbs((long long)tensor::rand<long>());
  if (o == "U") return limbs(tensor::rand<unsigned long>());
  if (o == "f") return unit(tensor::rand<float>());
  if (o == "d") return unit(tensor::rand<double>());
  if (o == "z") { tensor::cdouble z = tensor::rand<tensor::cdouble>(); return "[" + unit(z.real()) + "," + unit(z.imag()) + "]"; }
  if (o == "I1") return limbs((long long)tensor::rand<int>((int)n));
  if (o == "I2") return limbs((long long)tensor::rand<int>((int)m, (int)n));
  if (o == "L1") return limbs((long long)tensor::rand<long>(n));
  if (o == "L2") return limbs((long long)tensor::rand<long>(m, n));
  if (o == "U1") return limbs(tensor::rand<unsigned long>(n));
  if (o == "U2") return limbs(tensor::rand<unsigned long>(m, n));
  if (o == "h") return limbs(tensor::rand<unsigned int>((unsigned)n));
  if (o == "D2") {
    double lo = m, hi = n, v = c.flag("one") ? (lo = 0, tensor::rand<double>(hi)) : tensor::rand<double>(lo, hi);
    return "[" + std::string(v >= lo && v < hi ? "1" : "0") + "," + std::to_string((long)std::floor((v - lo) / (hi - lo) * 67108864.0)) + "]";
  }
  if (o == "none") return "[]";
  done = false;
  return "";
}
