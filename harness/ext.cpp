// External functions: one operation on the tape whose values and derivatives
// come from callbacks, in each of the calling styles the library offers.
#include "core.h"
#include <adolc/edfclasses.h>
#include <adolc/externfcts.h>
#include <adolc/externfcts2.h>

// y_j = c s_j s_{j+1} + (j+1) w s_j, indices of s modulo n; the arguments may
// be overwritten by s/2+1
enum { CHG = 1, NEST = 2, PRIOR = 4, NOX = 8, NONEST = 16, NOY = 32 };
struct Fn {
  long slot = 0;
  int style = 0, fl = 0;
  double c = 0;
  int n = 0, m = 0; // shape of the function on the inner tape
  double w = 0;
  int ret() const { return slot & 1 ? 2 : 3; }

  template <class T> void f(double w_, int n_, int m_, const T *s, T *y) const {
    for (int j = 0; j < m_; ++j) y[j] = c * (s[j % n_] * s[(j + 1) % n_]) + (j + 1) * w_ * s[j % n_];
  }
  void inner(double w_, int n_, int m_, const double *s) {
    if (n == n_ && m == m_ && w == w_) return;
    n = n_; m = m_; w = w_;
    trace_on((short)slot);
    {
      std::vector<adouble> a(n), b(m);
      for (int i = 0; i < n; ++i) a[i] <<= s[i];
      f(w, n, m, a.data(), b.data());
      double d;
      for (int j = 0; j < m; ++j) b[j] >>= d;
    }
    trace_off();
  }
  void zos(double w_, int n_, int m_, double *s, double *y) {
    if (fl & NEST) { inner(w_, n_, m_, s); zos_forward((short)slot, m_, n_, 0, s, y); }
    else f(w_, n_, m_, s, y);
    if (fl & CHG) for (int i = 0; i < n_; ++i) s[i] = s[i] / 2 + 1;
  }
  void fos(double w_, int n_, int m_, double *s, double *S, double *y, double *Y) {
    if (fl & NEST) { inner(w_, n_, m_, s); fos_forward((short)slot, m_, n_, 0, s, S, y, Y); }
    else {
      f(w_, n_, m_, s, y);
      for (int j = 0; j < m_; ++j) { int a = j % n_, b = (j + 1) % n_; Y[j] = c * (S[a] * s[b] + s[a] * S[b]) + (j + 1) * w_ * S[a]; }
    }
    if (fl & CHG) for (int i = 0; i < n_; ++i) { s[i] = s[i] / 2 + 1; S[i] /= 2; }
  }
  void fov(double w_, int n_, int m_, int p, double *s, double **S, double *y, double **Y) {
    if (fl & NEST) { inner(w_, n_, m_, s); fov_forward((short)slot, m_, n_, p, s, S, y, Y); }
    else {
      f(w_, n_, m_, s, y);
      for (int j = 0; j < m_; ++j) for (int l = 0; l < p; ++l) { int a = j % n_, b = (j + 1) % n_; Y[j][l] = c * (S[a][l] * s[b] + s[a] * S[b][l]) + (j + 1) * w_ * S[a][l]; }
    }
    if (fl & CHG) for (int i = 0; i < n_; ++i) { s[i] = s[i] / 2 + 1; for (int l = 0; l < p; ++l) S[i][l] /= 2; }
  }
  // x and y are the values after the call
  std::vector<double> before(double w_, int n_, int m_, const double *x, const double *y, double &wrong) {
    std::vector<double> s(x, x + n_), t(m_);
    if (fl & CHG) for (auto &v : s) v = 2 * (v - 1);
    f(w_, n_, m_, s.data(), t.data());
    wrong = 0;
    for (int j = 0; j < m_; ++j) if (!(std::fabs(t[j] - y[j]) <= 1e-9 * (1 + std::fabs(t[j])))) wrong = 1000;
    return s;
  }
  void rev1(double w_, int n_, int m_, const double *s, const double *u, double *z) const {
    if (fl & CHG) for (int i = 0; i < n_; ++i) z[i] /= 2;
    for (int j = 0; j < m_; ++j) { int a = j % n_, b = (j + 1) % n_; z[a] += u[j] * (c * s[b] + (j + 1) * w_); z[b] += u[j] * c * s[a]; }
  }
  void fosr(double w_, int n_, int m_, double *u, double *z, double *x, double *y) {
    double wrong;
    auto s = before(w_, n_, m_, x, y, wrong);
    if (fl & NEST) {
      inner(w_, n_, m_, s.data());
      zos_forward((short)slot, m_, n_, 1, s.data(), y);
      if (fl & CHG) for (int i = 0; i < n_; ++i) z[i] /= 2;
      findTape((short)slot).nestedReverseEval(true);
      fos_reverse((short)slot, m_, n_, u, z);
      findTape((short)slot).nestedReverseEval(false);
    } else rev1(w_, n_, m_, s.data(), u, z);
    for (int i = 0; i < n_; ++i) z[i] += wrong;
  }
  void fovr(double w_, int n_, int m_, int q, double **U, double **Z, double *x, double *y) {
    double wrong;
    auto s = before(w_, n_, m_, x, y, wrong);
    if (fl & NEST) {
      inner(w_, n_, m_, s.data());
      zos_forward((short)slot, m_, n_, 1, s.data(), y);
      if (fl & CHG) for (int l = 0; l < q; ++l) for (int i = 0; i < n_; ++i) Z[l][i] /= 2;
      findTape((short)slot).nestedReverseEval(true);
      fov_reverse((short)slot, m_, n_, q, U, Z);
      findTape((short)slot).nestedReverseEval(false);
    } else for (int l = 0; l < q; ++l) rev1(w_, n_, m_, s.data(), U[l], Z[l]);
    for (int l = 0; l < q; ++l) for (int i = 0; i < n_; ++i) Z[l][i] += wrong;
  }
};
static double weight(size_t n, const size_t *a) { double w = 1; for (size_t i = 0; i < n; ++i) w += (double)a[i]; return w; }
#define HO1 short, int, int, int, int, double *, double **, double *, double **
#define HO2 short, int, int, int, int, double *, double ***, double *, double ***
#define HO3 short, int, int, int, double *, double **, double **, double **
#define HO4 short, int, int, int, int, double **, double ***, short **, double **, double **
#define IA1 short, size_t, size_t *, int, int, int, int, double *, double **, double *, double **
#define IA2 short, size_t, size_t *, int, int, int, int, double *, double ***, double *, double ***
#define IA3 short, size_t, size_t *, int, int, int, double *, double **, double **, double **
#define IA4 short, size_t, size_t *, int, int, int, int, double **, double ***, short **, double **, double **

struct Obj : EDFobject {
  Fn *F;
  Obj(short outer, short ext, Fn *f) : EDFobject(outer, ext), F(f) {}
  ext_diff_fct *e() { return edf; }
  int function(short, int m, int n, double *x, double *y) override { F->zos(1, n, m, x, y); return F->ret(); }
  int zos_forward(short, int m, int n, int, double *x, double *y) override { F->zos(1, n, m, x, y); return F->ret(); }
  int fos_forward(short, int m, int n, int, double *x, double *X, double *y, double *Y) override { F->fos(1, n, m, x, X, y, Y); return F->ret(); }
  int fov_forward(short, int m, int n, int p, double *x, double **X, double *y, double **Y) override { F->fov(1, n, m, p, x, X, y, Y); return F->ret(); }
  int fos_reverse(short, int m, int n, double *u, double *z, double *x, double *y) override { F->fosr(1, n, m, u, z, x, y); return F->ret(); }
  int fov_reverse(short, int m, int n, int q, double **U, double **Z, double *x, double *y) override { F->fovr(1, n, m, q, U, Z, x, y); return F->ret(); }
  int hos_forward(HO1) override { return -1; }
  int hov_forward(HO2) override { return -1; }
  int hos_reverse(HO3) override { return -1; }
  int hov_reverse(HO4) override { return -1; }
};
struct ObjI : EDFobject_iArr {
  Fn *F;
  ObjI(Fn *f) : F(f) {}
  ext_diff_fct *e() { return edf; }
  int function(short, size_t k, size_t *a, int m, int n, double *x, double *y) override { F->zos(weight(k, a), n, m, x, y); return F->ret(); }
  int zos_forward(short, size_t k, size_t *a, int m, int n, int, double *x, double *y) override { F->zos(weight(k, a), n, m, x, y); return F->ret(); }
  int fos_forward(short, size_t k, size_t *a, int m, int n, int, double *x, double *X, double *y, double *Y) override { F->fos(weight(k, a), n, m, x, X, y, Y); return F->ret(); }
  int fov_forward(short, size_t k, size_t *a, int m, int n, int p, double *x, double **X, double *y, double **Y) override { F->fov(weight(k, a), n, m, p, x, X, y, Y); return F->ret(); }
  int fos_reverse(short, size_t k, size_t *a, int m, int n, double *u, double *z, double *x, double *y) override { F->fosr(weight(k, a), n, m, u, z, x, y); return F->ret(); }
  int fov_reverse(short, size_t k, size_t *a, int m, int n, int q, double **U, double **Z, double *x, double *y) override { F->fovr(weight(k, a), n, m, q, U, Z, x, y); return F->ret(); }
  int hos_forward(IA1) override { return -1; }
  int hov_forward(IA2) override { return -1; }
  int hos_reverse(IA3) override { return -1; }
  int hov_reverse(IA4) override { return -1; }
};

// groups of the second interface, flattened
struct Flat {
  size_t n = 0;
  std::vector<double *> p;
  Flat(size_t k, size_t *sz, double **x) { for (size_t i = 0; i < k; ++i) for (size_t j = 0; j < sz[i]; ++j, ++n) p.push_back(&x[i][j]); }
  std::vector<double> get() { std::vector<double> v; for (auto q : p) v.push_back(*q); return v; }
  void put(const std::vector<double> &v) { for (size_t i = 0; i < p.size(); ++i) *p[i] = v[i]; }
};
static std::vector<double *> rows(size_t k, size_t *sz, double ***X) { std::vector<double *> r; for (size_t i = 0; i < k; ++i) for (size_t j = 0; j < sz[i]; ++j) r.push_back(X[i][j]); return r; }
static int v2zos(short, size_t k, size_t *a, size_t nin, size_t nout, size_t *isz, double **x, size_t *osz, double **y, void *ctx) {
  Fn *F = (Fn *)ctx;
  Flat fx(nin, isz, x), fy(nout, osz, y);
  auto s = fx.get(), t = fy.get();
  F->zos(weight(k, a), (int)s.size(), (int)t.size(), s.data(), t.data());
  fx.put(s); fy.put(t);
  return F->ret();
}
static int v2fos(short, size_t k, size_t *a, size_t nin, size_t nout, size_t *isz, double **x, double **xp, size_t *osz, double **y, double **yp, void *ctx) {
  Fn *F = (Fn *)ctx;
  Flat fx(nin, isz, x), fX(nin, isz, xp), fy(nout, osz, y), fY(nout, osz, yp);
  auto s = fx.get(), S = fX.get(), t = fy.get(), T = fY.get();
  F->fos(weight(k, a), (int)s.size(), (int)t.size(), s.data(), S.data(), t.data(), T.data());
  fx.put(s); fX.put(S); fy.put(t); fY.put(T);
  return F->ret();
}
static int v2fov(short, size_t k, size_t *a, size_t nin, size_t nout, size_t *isz, double **x, size_t p, double ***X, size_t *osz, double **y, double ***Y, void *ctx) {
  Fn *F = (Fn *)ctx;
  Flat fx(nin, isz, x), fy(nout, osz, y);
  auto s = fx.get(), t = fy.get();
  auto S = rows(nin, isz, X), T = rows(nout, osz, Y);
  F->fov(weight(k, a), (int)s.size(), (int)t.size(), (int)p, s.data(), S.data(), t.data(), T.data());
  fx.put(s); fy.put(t);
  return F->ret();
}
static int v2fosr(short, size_t k, size_t *a, size_t nout, size_t nin, size_t *osz, double **u, size_t *isz, double **z, double **x, double **y, void *ctx) {
  Fn *F = (Fn *)ctx;
  Flat fx(nin, isz, x), fz(nin, isz, z), fy(nout, osz, y), fu(nout, osz, u);
  auto s = fx.get(), Z = fz.get(), t = fy.get(), U = fu.get();
  F->fosr(weight(k, a), (int)s.size(), (int)t.size(), U.data(), Z.data(), s.data(), t.data());
  fz.put(Z);
  return F->ret();
}
static int v2fovr(short, size_t k, size_t *a, size_t nout, size_t nin, size_t *osz, size_t q, double ***Up, size_t *isz, double ***Zp, double **x, double **y, void *ctx) {
  Fn *F = (Fn *)ctx;
  Flat fx(nin, isz, x), fy(nout, osz, y);
  auto s = fx.get(), t = fy.get();
  auto U = rows(nout, osz, Up), Z = rows(nin, isz, Zp);
  for (size_t l = 0; l < q; ++l) {
    std::vector<double> u, z;
    for (auto r : U) u.push_back(r[l]);
    for (auto r : Z) z.push_back(r[l]);
    auto tt = t;
    F->fosr(weight(k, a), (int)s.size(), (int)t.size(), u.data(), z.data(), s.data(), tt.data());
    for (size_t i = 0; i < Z.size(); ++i) Z[i][l] = z[i];
  }
  return F->ret();
}
#define G short t, size_t k, size_t *a, size_t nin, size_t nout, size_t *isz, double **x
#define R_ short t, size_t k, size_t *a, size_t nout, size_t nin, size_t *osz
struct Obj2 : EDFobject_v2 {
  Fn *F;
  Obj2(short outer, short ext, Fn *f) : EDFobject_v2(outer, ext), F(f) {}
  ext_diff_fct_v2 *e() { return edf; }
  int function(G, size_t *osz, double **y, void *) override { return v2zos(t, k, a, nin, nout, isz, x, osz, y, F); }
  int zos_forward(G, size_t *osz, double **y, void *) override { return v2zos(t, k, a, nin, nout, isz, x, osz, y, F); }
  int fos_forward(G, double **xp, size_t *osz, double **y, double **yp, void *) override { return v2fos(t, k, a, nin, nout, isz, x, xp, osz, y, yp, F); }
  int fov_forward(G, size_t p, double ***X, size_t *osz, double **y, double ***Y, void *) override { return v2fov(t, k, a, nin, nout, isz, x, p, X, osz, y, Y, F); }
  int fos_reverse(R_, double **u, size_t *isz, double **z, double **x, double **y, void *) override { return v2fosr(t, k, a, nout, nin, osz, u, isz, z, x, y, F); }
  int fov_reverse(R_, size_t q, double ***U, size_t *isz, double ***Z, double **x, double **y, void *) override { return v2fovr(t, k, a, nout, nin, osz, q, U, isz, Z, x, y, F); }
};

struct ExtCore : Core {
  std::map<long, Fn> fn;
  std::map<long, ext_diff_fct *> e1;
  std::map<long, ext_diff_fct_v2 *> e2;
  std::map<long, Obj *> o1;
  std::map<long, ObjI *> oi;
  std::map<long, Obj2 *> o2;

  template <class E> static void flags(E *e, int fl) {
    if (fl & NOX) e->dp_x_changes = 0;
    if (fl & NOY) e->dp_y_priorRequired = 0;
    e->nestedAdolc = !(fl & NONEST);
  }
  static ext_diff_fct *cb(ext_diff_fct *e, Fn *F) {
    e->zos_forward = [F](short, int m, int n, int, double *x, double *y) { F->zos(1, n, m, x, y); return F->ret(); };
    e->fos_forward = [F](short, int m, int n, int, double *x, double *X, double *y, double *Y) { F->fos(1, n, m, x, X, y, Y); return F->ret(); };
    e->fov_forward = [F](short, int m, int n, int p, double *x, double **X, double *y, double **Y) { F->fov(1, n, m, p, x, X, y, Y); return F->ret(); };
    e->fos_reverse = [F](short, int m, int n, double *u, double *z, double *x, double *y) { F->fosr(1, n, m, u, z, x, y); return F->ret(); };
    e->fov_reverse = [F](short, int m, int n, int q, double **U, double **Z, double *x, double *y) { F->fovr(1, n, m, q, U, Z, x, y); return F->ret(); };
    return e;
  }
  static ext_diff_fct *cbi(ext_diff_fct *e, Fn *F) {
    e->zos_forward_iArr = [F](short, size_t k, size_t *a, int m, int n, int, double *x, double *y) { F->zos(weight(k, a), n, m, x, y); return F->ret(); };
    e->fos_forward_iArr = [F](short, size_t k, size_t *a, int m, int n, int, double *x, double *X, double *y, double *Y) { F->fos(weight(k, a), n, m, x, X, y, Y); return F->ret(); };
    e->fov_forward_iArr = [F](short, size_t k, size_t *a, int m, int n, int p, double *x, double **X, double *y, double **Y) { F->fov(weight(k, a), n, m, p, x, X, y, Y); return F->ret(); };
    e->fos_reverse_iArr = [F](short, size_t k, size_t *a, int m, int n, double *u, double *z, double *x, double *y) { F->fosr(weight(k, a), n, m, u, z, x, y); return F->ret(); };
    e->fov_reverse_iArr = [F](short, size_t k, size_t *a, int m, int n, int q, double **U, double **Z, double *x, double *y) { F->fovr(weight(k, a), n, m, q, U, Z, x, y); return F->ret(); };
    return e;
  }

  int call(Fn &F, std::vector<size_t> &ia, int n, adouble *s, int m, adouble *y) {
    const long key = F.slot;
    const short outer = curTag(), ext = (short)F.slot;
    Fn *f = &F;
    switch (F.style) {
    case 0:
      if (!e1.count(key)) flags(e1[key] = cb(reg_ext_fct(outer, ext, ADOLC_ext_fct([f](short, int m, int n, double *x, double *y) { f->zos(1, n, m, x, y); return f->ret(); })), f), F.fl);
      return call_ext_fct(e1[key], n, s, m, y);
    case 1:
      if (!e1.count(key)) flags(e1[key] = cbi(reg_ext_fct(outer, ext, ADOLC_ext_fct_iArr([f](short, size_t k, size_t *a, int m, int n, double *x, double *y) { f->zos(weight(k, a), n, m, x, y); return f->ret(); })), f), F.fl);
      return call_ext_fct(e1[key], ia.size(), ia.data(), n, s, m, y);
    case 2:
      if (!o1.count(key)) flags((o1[key] = new Obj(outer, ext, f))->e(), F.fl);
      return o1[key]->call(n, s, m, y);
    case 3:
      if (!oi.count(key)) flags((oi[key] = new ObjI(f))->e(), F.fl);
      return oi[key]->call(ia.size(), ia.data(), n, s, m, y);
    }
    size_t isz[2] = {(size_t)n, 0}, osz[2] = {(size_t)m, 0}, nin = 1, nout = 1;
    adouble *xs[2] = {s, s + 1}, *ys[2] = {y, y + 1};
    if (n >= 2) { nin = 2; isz[0] = 1; isz[1] = n - 1; }
    if (m >= 2) { nout = 2; osz[0] = 1; osz[1] = m - 1; }
    if (F.style == 4) {
      if (!e2.count(key)) {
        auto *e = reg_ext_fct(outer, ext, v2zos);
        e->zos_forward = v2zos; e->fos_forward = v2fos; e->fov_forward = v2fov; e->fos_reverse = v2fosr; e->fov_reverse = v2fovr;
        edf_set_opaque_context(e, f);
        flags(e2[key] = e, F.fl);
      }
      return call_ext_fct(e2[key], ia.size(), ia.data(), nin, nout, isz, xs, osz, ys);
    }
    if (!o2.count(key)) flags((o2[key] = new Obj2(outer, ext, f))->e(), F.fl);
    return o2[key]->call(ia.size(), ia.data(), nin, nout, isz, xs, osz, ys);
  }

  bool xop(File &f, const Ins &x, Out &o) override {
    if (x.op != "ext") return false;
    auto &M = f.m;
    const int n = (int)x.b, m = x.k % 10, style = x.k / 10 % 10, fl = x.k / 100 % 100, v = x.k / 10000 % 10;
    Fn &F = fn[x.k / 100000];
    F.slot = x.k / 100000; F.style = style; F.fl = fl & ~PRIOR; F.c = x.c;
    std::vector<size_t> ia;
    for (int i = 1; i <= v; ++i) ia.push_back(i);
    currentTape().ensureContiguousLocations(2 * (n + m));
    std::vector<adouble> s(n), t(m), q, u;
    for (int i = 0; i < n; ++i) s[i] = M.g(x.a + i);
    for (int i = 0; i < n; ++i) q.push_back(s[i] * s[(i + 1) % n]);
    if (fl & PRIOR) {
      for (int j = 0; j < m; ++j) { t[j] = s[j % n]; t[j] *= 2.0; }
      for (int j = 0; j < m; ++j) u.push_back(t[j] * t[j]);
    }
    o.add(call(F, ia, n, s.data(), m, t.data()));
    for (int j = 0; j < m; ++j) {
      adouble r = t[j] + q[j % n] + s[j % n] * t[j];
      if (fl & PRIOR) r += u[j];
      M.set(x.r + j, std::move(r));
    }
    return true;
  }

  bool xcmd(const std::string &c, Tok &t, Out &o) override {
    if (c != "exterr") return false;
    // one recording with something missing or wrong, then one sweep
    std::string kind = t.s();
    const short tag = t.n();
    auto &F = fn[2];
    F.slot = 2; F.c = 0.5;
    auto *e = cb(reg_ext_fct(tag, 2, ADOLC_ext_fct([f = &F](short, int m, int n, double *x, double *y) { f->zos(1, n, m, x, y); return 3; })), &F);
    auto *ei = cbi(reg_ext_fct(tag, 2, ADOLC_ext_fct_iArr([f = &F](short, size_t k, size_t *a, int m, int n, double *x, double *y) { f->zos(weight(k, a), n, m, x, y); return 3; })), &F);
    auto *e2 = reg_ext_fct(tag, 2, v2zos);
    e2->zos_forward = v2zos; e2->fos_forward = v2fos; e2->fov_forward = v2fov; e2->fos_reverse = v2fosr; e2->fov_reverse = v2fovr;
    edf_set_opaque_context(e2, &F);
    const int style = t.n();
    if (kind == "zos") { e->zos_forward = nullptr; ei->zos_forward_iArr = nullptr; e2->zos_forward = nullptr; }
    if (kind == "fos") { e->fos_forward = nullptr; ei->fos_forward_iArr = nullptr; e2->fos_forward = nullptr; }
    if (kind == "fov") { e->fov_forward = nullptr; ei->fov_forward_iArr = nullptr; e2->fov_forward = nullptr; }
    if (kind == "fosr") { e->fos_reverse = nullptr; ei->fos_reverse_iArr = nullptr; e2->fos_reverse = nullptr; }
    if (kind == "fovr") { e->fov_reverse = nullptr; ei->fov_reverse_iArr = nullptr; e2->fov_reverse = nullptr; }
    bool threw = false;
    trace_on(tag, 1);
    {
      currentTape().ensureContiguousLocations(8);
      std::vector<adouble> s(2), w(2);
      s[0] <<= 0.5; s[1] <<= 0.25;
      if (kind == "gap") s[1] = s[0] * s[0];
      if (kind == "outgap") w[0] = s[0] + s[1];
      size_t two[1] = {2}, ia[1] = {2};
      adouble *xs[1] = {s.data()}, *ys[1] = {w.data()};
      try {
        if (style == 0) call_ext_fct(e, 2, s.data(), 2, w.data());
        else if (style == 1) call_ext_fct(ei, 1, ia, 2, s.data(), 2, w.data());
        else call_ext_fct(e2, 1, ia, 1, 1, two, xs, two, ys);
      } catch (const ADOLCError::ADOLCError &) { threw = true; }
      double y;
      w[0] >>= y; w[1] >>= y;
    }
    trace_off();
    if (!threw) {
      double x[2] = {0.5, 0.25}, X[2] = {1, 0}, y[2], Y[2], u[2] = {1, 1}, z[2];
      double **XX = myallocI2(2), **YY = myalloc2(2, 2), **U = myallocI2(2), **Z = myalloc2(2, 2);
      try {
        if (kind == "zos") zos_forward(tag, 2, 2, 0, x, y);
        else if (kind == "fos") fos_forward(tag, 2, 2, 0, x, X, y, Y);
        else if (kind == "fov") fov_forward(tag, 2, 2, 2, x, XX, y, YY);
        else if (kind == "fosr") fos_reverse(tag, 2, 2, u, z);
        else if (kind == "fovr") fov_reverse(tag, 2, 2, 2, U, Z);
        else { zos_forward(tag, 2, 2, 1, x, y); fos_forward(tag, 2, 2, 1, x, X, y, Y); fov_forward(tag, 2, 2, 2, x, XX, y, YY); fos_reverse(tag, 2, 2, u, z); fov_reverse(tag, 2, 2, 2, U, Z); }
      } catch (const ADOLCError::ADOLCError &) { threw = true; }
    }
    o.addi(threw);
    return true;
  }
};

int main(int argc, char **argv) {
  return run_cases(argc, argv, [](const std::vector<std::string> &b, FILE *f) {
    auto *c = new ExtCore;
    c->run(b, f);
    _exit((std::fprintf(f, "end\n"), std::fflush(f), 0));
  });
}
