// Fixed-point iterations recorded as one operation.
#include "core.h"
#include <adolc/fixpoint.h>
#include <utility>

struct FSlot { int kind = 0; double c = 0; };
static thread_local FSlot slots[10];

template <class T> static T pp(const T *u, size_t du, size_t i) {
  i %= du;
  T p = u[i] * u[(i + 1) % du] / 4.0 + u[i] / 2.0;
  return p + i / 4.0;
}
// one application of the iteration function
template <class T> static void apply(const FSlot &s, T *x, T *u, T *y, size_t dx, size_t du) {
  std::vector<T> z(dx);
  for (size_t i = 0; i < dx; ++i) {
    const size_t j = i % du;
    if (s.kind == 0) z[i] = s.c * x[(i + 1) % dx] + pp(u, du, i);
    else if (s.kind == 1 || (s.kind == 3 && i == 0)) z[i] = (x[i] + (u[j] * u[j] + 1.0) / x[i]) / 2.0;
    else if (s.kind == 2) z[i] = x[i] - (x[i] * x[i] - (1.0 / (1.0 + u[j] * u[j]) + 0.25)) / 2.0;
    else z[i] = s.c * x[i] + x[i - 1] * u[j] / 4.0;
  }
  for (size_t i = 0; i < dx; ++i) y[i] = z[i];
}
template <int S> int appD(double *x, double *u, double *y, size_t dx, size_t du) { apply(slots[S], x, u, y, dx, du); return 1; }
template <int S> int appA(adouble *x, adouble *u, adouble *y, size_t dx, size_t du) { apply(slots[S], x, u, y, dx, du); return 1; }
struct Fns { double_F d; adouble_F a; };
template <size_t... I> static Fns fns_(size_t i, std::index_sequence<I...>) { static const Fns f[] = {{appD<I>, appA<I>}...}; return f[i]; }
static Fns fns(size_t i) { return fns_(i, std::make_index_sequence<10>()); }
static double norm(double *v, size_t n) {
  double m = 0;
  for (size_t i = 0; i < n; ++i) m = std::max(m, std::isnan(v[i]) ? 1e300 : std::fabs(v[i]));
  return m;
}
// derivatives are accurate to the eleven digits a user may expect
static double dnorm(double *v, size_t n) { return norm(v, n); }
// norms in other units, with tolerances of their own
static double norm6(double *v, size_t n) { return norm(v, n) * 1e-6; }
static double dnorm6(double *v, size_t n) { return norm(v, n) * 1e-6; }

struct FpCore : Core {
  bool xop(File &f, const Ins &x, Out &) override {
    if (x.op != "fp") return false;
    auto &M = f.m;
    const long du = x.b, dx = x.k % 10, kind = x.k / 10 % 10, slot = x.k / 100 % 10, flags = x.k / 1000;
    slots[slot].kind = kind; slots[slot].c = x.c;
    currentTape().ensureContiguousLocations(du + 2 * dx + 4);
    std::vector<adouble> u(du), x0(dx), xf(dx);
    for (long i = 0; i < du; ++i) u[i] = M.g(x.a + i);
    for (long i = 0; i < dx; ++i) if (flags & 1) { x0[i] = 1.0 / (1.0 + u[0] * u[0]); x0[i] += 1.0; } else x0[i] = 1.0 + i / 4.0;
    std::vector<adouble> res(dx);
    for (long i = 0; i < dx; ++i) {
      res[i] = u[i % du] * u[(i + 1) % du];
      if (flags & 2) { xf[i] = u[i % du]; xf[i] *= 2.0; res[i] += xf[i] * xf[i]; }
    }
    Fns fn = fns(slot);
    fp_iteration(curTag(), (short)slot, fn.d, fn.a, flags & 4 ? norm6 : norm, flags & 8 ? dnorm6 : dnorm,
                 flags & 4 ? 1e-18 : 1e-12, flags & 8 ? 1e-17 : 1e-11, 200, 200, x0.data(), u.data(), xf.data(), dx, du);
    for (long i = 0; i < dx; ++i) M.set(x.r + i, res[i] + xf[i] * u[i % du]);
    return true;
  }

  bool xcmd(const std::string &c, Tok &t, Out &o) override {
    if (c != "fperr") return false;
    // more steps needed than allowed, or a sweep without callback
    const std::string kind = t.s();
    const short tag = t.n();
    slots[2].kind = 0; slots[2].c = 0.5;
    Fns fn = fns(2);
    bool threw = false;
    int k = 0, rc = 0;
    const size_t few = kind == "slow" ? 3 : 200;
    trace_on(tag, 1);
    {
      currentTape().ensureContiguousLocations(8);
      std::vector<adouble> u(1), x0(1), xf(1);
      u[0] <<= 0.5; x0[0] = 4.0;
      k = fp_iteration(tag, 2, fn.d, fn.a, norm, dnorm, 1e-12, 1e-11, few, few, x0.data(), u.data(), xf.data(), 1, 1);
      double y;
      xf[0] >>= y;
    }
    trace_off();
    double x[1] = {0.75}, X[1] = {1}, y[1] = {0}, Y[1], U[1] = {1}, Z[1];
    double **XX = myallocI2(1), **YY = myalloc2(1, 1), **ZZ = myalloc2(1, 1);
    double *X1[1] = {X}, *Y1[1] = {Y};
    try {
      if (kind == "fov") fov_forward(tag, 1, 1, 1, x, XX, y, YY);
      else if (kind == "fovr") fov_reverse(tag, 1, 1, 1, XX, ZZ);
      else if (kind == "hos") hos_forward(tag, 1, 1, 1, 0, x, X1, y, Y1);
      else { rc = zos_forward(tag, 1, 1, 1, x, y); int r = fos_forward(tag, 1, 1, 1, x, X, y, Y); rc = std::min(rc, r); r = fos_reverse(tag, 1, 1, U, Z); rc = std::min(rc, r); }
    } catch (const ADOLCError::ADOLCError &e) { threw = true; o.s.push_back(e.what()); }
    o.addi(threw); o.addi(k < 0); o.addi(rc < 0);
    return true;
  }
};

int main(int argc, char **argv) {
  return run_cases(argc, argv, [](const std::vector<std::string> &b, FILE *f) {
    auto *c = new FpCore;
    c->run(b, f);
    _exit((std::fprintf(f, "end\n"), std::fflush(f), 0));
  });
}
