// Derivative tensors, inverse functions, Jacobian solves, ODE Taylor expansions, Lie derivatives.
#include "core.h"
#include <adolc/drivers/taylor.h>
#include <adolc/drivers/odedrivers.h>
#include <adolc/lie/drivers.h>

struct TaylorCore : Core {
  std::vector<double> ten;
  std::vector<double *> trow;
  int tm = 0, tp = 0, td = 0;
  size_t tdim = 0;

  void shape(int m, int p, int d) {
    tm = m; tp = p; td = d; tdim = binomi(p + d, d);
    ten.assign(m * tdim + 1, 12345.678);
    trow.assign(m + 1, nullptr);
    for (int j = 0; j < m; ++j) trow[j] = ten.data() + j * tdim;
  }
  static double deref(void *t, const std::vector<int> &j, size_t i) {
    return i + 1 == j.size() ? ((double *)t)[j[i]] : deref(((void **)t)[j[i]], j, i + 1);
  }

  bool xcmd(const std::string &c, Tok &t, Out &o) override {
    auto vec = [&](int k) { std::vector<double> v(k + 1); for (int i = 0; i < k; ++i) v[i] = t.d(); return v; };
    auto mat = [&](int r, int k) { M2 A(r, k); for (int i = 0; i < r; ++i) for (int j = 0; j < k; ++j) A[i][j] = t.d(); return A; };
    if (c == "ten") {
      short tag = t.n(); int m = t.n(), n = t.n(), d = t.n(), p = t.n();
      auto x = vec(n);
      M2 S = mat(n, p);
      shape(m, p, d);
      int rc = tensor_eval(tag, m, n, d, p, x.data(), trow.data(), S);
      o.rcode(rc);
      for (size_t i = 0; i < m * tdim; ++i) o.add(ten[i]);
    } else if (c == "iten") {
      short tag = t.n(); int n = t.n(), d = t.n(), p = t.n();
      auto x = vec(n);
      M2 S = mat(n, p);
      shape(n, p, d);
      int rc = inverse_tensor_eval(tag, n, d, p, x.data(), trow.data(), S);
      o.rcode(rc);
      for (size_t i = 0; i < n * tdim; ++i) o.add(ten[i]);
    } else if (c == "taddr") { // d, multi-index
      int d = t.n();
      std::vector<int> j(d + 1);
      for (int i = 0; i < d; ++i) j[i] = t.n();
      auto k = j;
      o.addi(tensor_address(d, j.data()));
      if (j != k) o.rcode(-1000);
    } else if (c == "tval") { // how, multi-index into the tensor computed last
      int how = t.n(), nj = t.n();
      std::vector<int> j(td + 1);
      for (int i = 0; i < nj && i < td; ++i) j[i] = t.n();
      if (!tm) return true;
      if (how == 0) { std::vector<double> y(tm + 1, 12345.678); tensor_value(td, tm, y.data(), trow.data(), j.data()); for (int i = 0; i < tm; ++i) o.add(y[i]); }
      else if (how == 1) { size_t a = tensor_address(td, j.data()); for (int i = 0; i < tm; ++i) o.add(a < tdim ? trow[i][a] : 9e99); }
      else {
        j.resize(td);
        std::sort(j.rbegin(), j.rend());
        void **e = tensorsetup(tm, tp, td, trow.data());
        for (int i = 0; i < tm; ++i) o.add(deref(e[i], j, 0));
        if (td > 1) freetensor(tm, tp, td, (double **)e);
        free(e);
      }
    } else if (c == "itp") {
      short tag = t.n(); int n = t.n(), d = t.n();
      auto x = vec(n);
      M2 X(n, d + 1), Y(n, d + 1);
      for (int i = 0; i < n; ++i) { X[i][0] = x[i]; Y[i][0] = 4.5; for (int k = 1; k <= d; ++k) Y[i][k] = t.d(); }
      o.rcode(inverse_Taylor_prop(tag, n, d, Y, X));
      for (int i = 0; i < n; ++i) for (int k = 0; k <= d; ++k) o.add(X[i][k]);
    } else if (c == "jsolv") {
      short tag = t.n(); int n = t.n(), mode = t.n();
      auto x = vec(n), b = vec(n);
      o.rcode(jac_solv(tag, n, x.data(), b.data(), mode));
      for (int i = 0; i < n; ++i) o.add(b[i]);
    } else if (c == "forode") {
      std::string kind = t.s();
      short tag = t.n(); int n = t.n(); double tau = t.d(); int dol = t.n(), deg = t.n();
      M2 X(n, deg + 1);
      for (int i = 0; i < n; ++i) for (int k = 0; k <= dol; ++k) X[i][k] = t.d();
      int rc;
      if (kind == "c") rc = forodec(tag, n, tau, dol, deg, X);
      else if (kind == "full") rc = forode(tag, n, tau, dol, deg, (double **)X);
      else if (kind == "notau") rc = forode(tag, n, dol, deg, (double **)X);
      else if (kind == "nodol") rc = forode(tag, n, tau, deg, (double **)X);
      else if (kind == "short") rc = forode(tag, n, deg, (double **)X);
      else {
        fint ft = tag, fn = n, fdol = dol, fdeg = deg;
        fdouble ftau = tau;
        std::vector<double> f(n * (deg + 1) + 1);
        for (int i = 0; i < n; ++i) for (int k = 0; k <= deg; ++k) f[i + n * k] = X[i][k];
        rc = forodec_(&ft, &fn, &ftau, &fdol, &fdeg, f.data());
        for (int i = 0; i < n; ++i) for (int k = 0; k <= deg; ++k) X[i][k] = f[i + n * k];
      }
      o.rcode(rc);
      for (int i = 0; i < n; ++i) for (int k = 0; k <= deg; ++k) o.add(X[i][k]);
    } else if (c == "accode") {
      std::string kind = t.s();
      int n = t.n(); double tau = t.d(); int deg = t.n(), usenz = t.n();
      M3 A(n, n, deg + 1), B(n, n, deg + 1);
      for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k <= deg; ++k) A[i][j][k] = t.d();
      std::vector<std::vector<short>> z(n, std::vector<short>(n));
      std::vector<short *> nz(n + 1);
      for (int i = 0; i < n; ++i) { nz[i] = z[i].data(); if (usenz) for (int j = 0; j < n; ++j) z[i][j] = t.n(); }
      short **pz = usenz ? nz.data() : nullptr;
      if (kind == "c") accodec(n, tau, deg, A, B, pz);
      else if (kind == "full") accode(n, tau, deg, A, B, pz);
      else if (kind == "notau") accode(n, deg, A, B, pz);
      else {
        fint fn = n, fdeg = deg;
        fdouble ftau = tau;
        std::vector<double> fa(n * n * (deg + 1)), fb(n * n * (deg + 1));
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k <= deg; ++k) fa[i + n * (j + n * k)] = A[i][j][k];
        accodec_(&fn, &ftau, &fdeg, fa.data(), fb.data());
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k <= deg; ++k) B[i][j][k] = fb[i + n * (j + n * k)];
      }
      for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k <= deg; ++k) {
        o.add(B[i][j][k]);
        if (usenz && k < -z[i][j] && B[i][j][k] != 0) o.rcode(-1000);
      }
    } else if (c == "jacode") {
      short tag = t.n(); int n = t.n(); double tau = t.d(); int deg = t.n(), usenz = t.n();
      M2 X(n, deg + 1);
      for (int i = 0; i < n; ++i) X[i][0] = t.d();
      int rc = forode(tag, n, tau, deg, (double **)X);
      if (rc >= 0) {
        M3 A(n, n, deg), B(n, n, deg);
        M2 I(n, n, 0.0);
        for (int i = 0; i < n; ++i) I[i][i] = 1;
        std::vector<std::vector<short>> z(n, std::vector<short>(n));
        std::vector<short *> nz(n + 1);
        for (int i = 0; i < n; ++i) nz[i] = z[i].data();
        int rr = usenz == 2 ? reverse(tag, n, n, deg - 1, (double ***)A, nz.data()) : hov_reverse(tag, n, n, deg - 1, n, I, A, usenz ? nz.data() : nullptr);
        if (rr < rc) rc = rr;
        accode(n, tau, deg - 1, A, B, usenz ? nz.data() : nullptr);
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k < deg; ++k) o.add(B[i][j][k]);
      }
      o.rcode(rc);
    } else if (c == "lie") {
      std::string kind = t.s();
      short tag = t.n(), tagh = t.n(); int n = t.n(), m = t.n(), d = t.n();
      auto x = vec(n);
      int rc;
      if (kind == "scalarv" || kind == "cscalarv") {
        M2 R(m, d + 1);
        rc = kind[0] == 'c' ? lie_scalarcv(tag, tagh, n, m, x.data(), d, R) : lie_scalar(tag, tagh, (short)n, (short)m, x.data(), (short)d, (double **)R);
        for (int j = 0; j < m; ++j) for (int k = 0; k <= d; ++k) o.add(R[j][k]);
      } else if (kind == "scalar" || kind == "cscalar") {
        std::vector<double> R(d + 2, 12345.678);
        rc = kind[0] == 'c' ? lie_scalarc(tag, tagh, n, x.data(), d, R.data()) : lie_scalar(tag, tagh, (short)n, x.data(), (short)d, R.data());
        for (int k = 0; k <= d; ++k) o.add(R[k]);
      } else if (kind == "gradientv" || kind == "cgradientv") {
        M3 R(m, n, d + 1);
        rc = kind[0] == 'c' ? lie_gradientcv(tag, tagh, n, m, x.data(), d, R) : lie_gradient(tag, tagh, (short)n, (short)m, x.data(), (short)d, (double ***)R);
        for (int j = 0; j < m; ++j) for (int i = 0; i < n; ++i) for (int k = 0; k <= d; ++k) o.add(R[j][i][k]);
      } else {
        M2 R(n, d + 1);
        if (kind == "gradient") rc = lie_gradient(tag, tagh, (short)n, x.data(), (short)d, (double **)R);
        else if (kind == "cgradient") rc = lie_gradientc(tag, tagh, n, x.data(), d, R);
        else if (kind == "covector") rc = lie_covector(tag, tagh, n, x.data(), d, R);
        else rc = lie_bracket(tag, tagh, n, x.data(), d, R);
        for (int i = 0; i < n; ++i) for (int k = 0; k <= d; ++k) o.add(R[i][k]);
      }
      o.rcode(rc);
    } else return false;
    return true;
  }
};

int main(int argc, char **argv) {
  return run_cases(argc, argv, [](const std::vector<std::string> &b, FILE *f) { auto *c = new TaylorCore; c->run(b, f); _exit((std::fprintf(f, "end\n"), std::fflush(f), 0)); });
}
