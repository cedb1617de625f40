#include "tl.h"
#include <adolc/adolc.h>
#include <adolc/adtl.h>
#include <adolc/adtl_indo.h>
namespace in = ADOLC::Sparse::adtl_indo;

template <class T> struct Fun : func_ad<T> {
  const std::vector<Ins> &prog;
  Out *o;
  Fun(const std::vector<Ins> &p, Out *o) : prog(p), o(o) {}
  int operator()(int n, T *x, int m, T *y) override {
    TL<T> tl;
    Out dummy;
    std::vector<T> xs(x, x + n);
    tl.run(prog, xs, dummy);
    for (int j = 0; j < m; ++j) y[j] = tl.Y[j];
    return 0;
  }
};

static void tl_eval(const std::string &mode, Tok &t, const std::vector<Ins> &prog, Out &o) {
    int m = (int)t.n(), n = (int)t.n(), d = (int)t.n(), p = (int)t.n(), rep = (int)t.n();
    std::vector<double> x(n + 1);
    for (int i = 0; i < n; ++i) x[i] = t.d();
    if (mode == "vec") {
      using T = adtl::adouble;
      adtl::setNumDir(p);
      TL<T> tl;
      std::vector<T> xs(n);
      for (int i = 0; i < n; ++i) {
        std::vector<double> r(p);
        for (int l = 0; l < p; ++l) r[l] = t.d();
        if (i % 3 == 0) xs[i] = T(x[i], r.data());
        else { xs[i] = x[i]; for (int l = 0; l < p; ++l) xs[i].setADValue(l, r[l]); }
        if (i % 3 == 2) { xs[i].setValue(x[i]); xs[i].setADValue(r.data()); }
      }
      tl.run(prog, xs, o);
      for (auto &y : tl.Y) o.add(y.getValue());
      for (auto &y : tl.Y) for (int l = 0; l < p; ++l) o.add(l % 2 ? y.getADValue()[l] : y.getADValue(l));
    } else if (mode == "pat") {
      using T = in::adouble;
      TL<T> tl;
      std::unique_ptr<T[]> a(new T[n]);
      for (int i = 0; i < n; ++i) a[i] = x[i];
      in::ADOLC_Init_sparse_pattern(a.get(), n, rep);
      std::vector<T> xs(a.get(), a.get() + n);
      tl.run(prog, xs, o);
      for (auto &y : tl.Y) o.add(y.getValue());
      std::unique_ptr<T[]> b(new T[tl.Y.size()]);
      for (size_t j = 0; j < tl.Y.size(); ++j) b[j] = tl.Y[j];
      std::vector<uint *> pat;
      in::ADOLC_get_sparse_pattern(b.get(), (int)tl.Y.size(), pat);
      for (size_t j = 0; j < tl.Y.size(); ++j) {
        std::vector<int> has(n, 0);
        for (uint q = 1; q <= pat[j][0]; ++q) {
          long c = (long)pat[j][q] - rep;
          if (c < 0 || c >= n || has[c]) o.addi(-7); else has[c] = 1;
        }
        for (int v : has) o.addi(v);
      }
    } else if (mode == "jac") {
      Fun<adtl::adouble> f(prog, &o);
      Fun<in::adouble> g(prog, &o);
      ADOLC::Sparse::SparseMatrix S;
      o.rcode(in::ADOLC_get_sparse_jacobian(&f, &g, n, m, rep, x.data(), S));
      std::vector<double> J((size_t)m * n, 0.0);
      std::vector<char> seen((size_t)m * n, 0);
      for (size_t i = 0; i < S.size(); ++i) {
        size_t q = (size_t)S.rowIndex(i) * n + S.colIndex(i);
        if (S.rowIndex(i) >= (uint)m || S.colIndex(i) >= (uint)n || seen[q]) { o.addi(-7); continue; }
        seen[q] = 1;
        J[q] = S.value(i);
      }
      for (double v : J) o.add(v);
    } else throw ScriptError("script: tl mode " + mode);
}

int main(int argc, char **argv) { return tl_main(argc, argv, tl_eval); }
