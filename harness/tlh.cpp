#include "tl.h"
#include <adolc/adtl_hov.h>
int main(int argc, char **argv) {
  return tl_main(argc, argv, [](const std::string &mode, Tok &t, const std::vector<Ins> &prog, Out &o) {
    using T = adtl_hov::adouble;
    int m = (int)t.n(), n = (int)t.n(), d = (int)t.n(), p = (int)t.n(), rep = (int)t.n();
    (void)m; (void)rep;
    std::vector<double> x(n + 1);
    for (int i = 0; i < n; ++i) x[i] = t.d();
    adtl_hov::setNumDir(p);
    adtl_hov::setDegree(d);
    TL<T> tl;
    std::vector<T> xs(n, T(0.0));
    for (int i = 0; i < n; ++i) {
      xs[i] = x[i];
      for (int k = 0; k < d; ++k) xs[i].setOneADValue(k, (double *)std::calloc(p, sizeof(double)));
      for (int l = 0; l < p; ++l) for (int k = 0; k < d; ++k) {
        double v = t.d();
        xs[i].getOneADValue(k)[l] = v;
        if (k == 0) xs[i].setADValue(l, v);
      }
    }
    tl.run(prog, xs, o);
    for (auto &y : tl.Y) o.add(y.getValue());
    for (auto &y : tl.Y) for (int l = 0; l < p; ++l) for (int k = 0; k < d; ++k) o.add(y.getOneADValue(k)[l]);
    for (auto &y : tl.Y) for (int l = 0; l < p; ++l) o.add(y.getADValue(l));
  });
}
