// The C interface: programs recorded through location tokens and handles, evaluated through the C entry points.
#include "core.h"
#include "tl.h"
#include <ADOLC_TB_interface.h>
#include <ADOLC_TL_interface.h>
extern "C" {
#include <array_handler.h>
}
#include <driver_interface.h>
extern "C" fint zos_forward_(const fint *, const fint *, const fint *, const fint *, const fdouble *, fdouble *);

// ---- an active variable owned through its C token; every operation is a C call
struct CA {
  tape_loc l;
  CA() : l(adolc_tb_new_empty()) {}
  CA(double x) : l(std::fabs(x) < 1 ? adolc_tb_new(x) : adolc_tb_assign(x)) {}
  explicit CA(tape_loc v) : l(v) {}
  CA(const CA &o) : l(adolc_tb_new_empty()) { adolc_tb_assign_to(l, o.l); }
  CA(CA &&o) : l(o.l) { o.l.loc = ADOLC_TB_INVALID_LOC; }
  ~CA() { adolc_tb_free(l); }
  CA &operator=(const CA &o) { adolc_tb_assign_to(l, o.l); return *this; }
  CA &operator=(CA &&o) { std::swap(l, o.l); return *this; }
  CA &operator=(double x) { adolc_tb_assign_double_to(l, x); return *this; }
  CA &operator+=(const CA &o) { adolc_tb_add_to(l, o.l); return *this; }
  CA &operator-=(const CA &o) { adolc_tb_sub_to(l, o.l); return *this; }
  CA &operator*=(const CA &o) { adolc_tb_mul_to(l, o.l); return *this; }
  CA &operator/=(const CA &o) { adolc_tb_div_to(l, o.l); return *this; }
  CA &to(tape_loc v) { CA t(v); adolc_tb_assign_to(l, t.l); return *this; }
  CA &operator+=(double x) { return to(adolc_tb_add_d(l, x)); }
  CA &operator-=(double x) { return to(adolc_tb_sub_d(l, x)); }
  CA &operator*=(double x) { return to(adolc_tb_mul_d(l, x)); }
  CA &operator/=(double x) { return to(adolc_tb_div_d(l, x)); }
};
#define B_(OP, N)                                                                                \
  static CA operator OP(const CA &a, const CA &b) { return CA(adolc_tb_##N(a.l, b.l)); }          \
  static CA operator OP(const CA &a, double b) { return CA(adolc_tb_##N##_d(a.l, b)); }           \
  static CA operator OP(double a, const CA &b) { return CA(adolc_tb_d_##N(a, b.l)); }
B_(+, add) B_(-, sub) B_(*, mul) B_(/, div)
#undef B_
static CA operator-(const CA &a) { return CA(adolc_tb_mul_d(a.l, -1.0)); }
static CA operator+(const CA &a) { return CA(adolc_tb_add_d(a.l, 0.0)); }
#define F_(N) static CA N(const CA &a) { return CA(adolc_tb_##N(a.l)); }
F_(sqrt) F_(exp) F_(log) F_(sin) F_(cos) F_(tan) F_(asin) F_(acos) F_(atan) F_(sinh) F_(cosh) F_(tanh) F_(asinh) F_(acosh) F_(atanh)
#undef F_
static CA fabs(const CA &a) { return CA(adolc_tb_abs(a.l)); }
static bool relt(long w, tape_loc a, tape_loc b) {
  switch (w) { case 0: return adolc_tb_l(a, b); case 1: return adolc_tb_le(a, b); case 2: return adolc_tb_g(a, b); case 3: return adolc_tb_ge(a, b);
    case 4: return adolc_tb_eq(a, b); default: return !adolc_tb_eq(a, b); }
}
static bool relt(long w, tape_loc a, double b) {
  switch (w) { case 0: return adolc_tb_l_d(a, b); case 1: return adolc_tb_le_d(a, b); case 2: return adolc_tb_g_d(a, b); case 3: return adolc_tb_ge_d(a, b);
    case 4: return adolc_tb_eq_d(a, b); default: return !adolc_tb_eq_d(a, b); }
}
static bool relt(long w, double a, tape_loc b) {
  switch (w) { case 0: return adolc_tb_d_l(a, b); case 1: return adolc_tb_d_le(a, b); case 2: return adolc_tb_d_g(a, b); case 3: return adolc_tb_d_ge(a, b);
    case 4: return adolc_tb_d_eq(a, b); default: return !adolc_tb_d_eq(a, b); }
}

// ---- a traceless number owned through its C handle
struct CT {
  TLAdoubleHandle h;
  CT() : h(create_tl_adouble_empty()) {}
  CT(double x) : h(create_tl_adouble(x)) {}
  explicit CT(TLAdoubleHandle v) : h(v) {}
  CT(const CT &o) : h(create_tl_adouble_with_ad(get_tl_value(o.h), get_tl_ad_values(o.h))) {}
  CT(CT &&o) : h(o.h) { o.h = nullptr; }
  ~CT() { free_tl_adouble(h); }
  CT &operator=(const CT &o) { if (h != o.h) { set_tl_value(h, get_tl_value(o.h)); set_tl_ad_value(h, get_tl_ad_values(o.h)); } return *this; }
  CT &operator=(CT &&o) { std::swap(h, o.h); return *this; }
  double getValue() const { return get_tl_value(h); }
};
#define B_(OP, N)                                                                                \
  static CT operator OP(const CT &a, const CT &b) { return CT(N##_tl_adouble(a.h, b.h)); }        \
  static CT operator OP(const CT &a, double b) { return CT(N##_tl_adouble_double(a.h, b)); }      \
  static CT operator OP(double a, const CT &b) { return CT(N##_double_tl_adouble(a, b.h)); }
B_(+, add) B_(-, subtr) B_(*, mult) B_(/, div)
#undef B_
#define R_(OP, N)                                                                                \
  static bool operator OP(const CT &a, const CT &b) { return N##_tl_adouble(a.h, b.h); }          \
  static bool operator OP(const CT &a, double b) { return N##_tl_adouble_double(a.h, b); }        \
  static bool operator OP(double a, const CT &b) { return N##_double_tl_adouble(a, b.h); }
R_(<, l) R_(<=, le) R_(>, g) R_(>=, ge) R_(==, eq)
#undef R_
template <class A, class B, class = std::enable_if_t<std::is_same_v<A, CT> || std::is_same_v<B, CT>>> static bool operator!=(const A &a, const B &b) { return !(a == b); }
#define I_(OP) template <class T> static CT &operator OP##=(CT &a, const T &b) { return a = a OP b; }
I_(+) I_(-) I_(*) I_(/)
#undef I_
static CT operator-(const CT &a) { return a * -1.0; }
static CT operator+(const CT &a) { return a + 0.0; }
static CT &operator++(CT &a) { return a = a + 1.0; }
static CT &operator--(CT &a) { return a = a - 1.0; }
static CT operator++(CT &a, int) { CT r(a); a = a + 1.0; return r; }
static CT operator--(CT &a, int) { CT r(a); a = a - 1.0; return r; }
#define F_(N) static CT N(const CT &a) { return CT(tl_##N(a.h)); }
F_(sqrt) F_(exp) F_(log) F_(sin) F_(cos) F_(tan) F_(asin) F_(acos) F_(atan) F_(sinh) F_(cosh) F_(tanh) F_(asinh) F_(acosh) F_(atanh)
F_(log10) F_(ceil) F_(floor) F_(erf) F_(erfc)
#undef F_
static CT fabs(const CT &a) { return CT(tl_abs(a.h)); }
static CT pow(const CT &a, const CT &b) { return CT(pow_tl_adouble(a.h, b.h)); }
static CT pow(const CT &a, double b) { return CT(pow_tl_adouble_double(a.h, b)); }
#define M_(N, C)                                                                     \
  static CT N(const CT &a, const CT &b) { return CT(C##_tl_adouble(a.h, b.h)); }      \
  static CT N(const CT &a, double b) { return CT(C##_tl_adouble_double(a.h, b)); }    \
  static CT N(double a, const CT &b) { return CT(C##_double_tl_adouble(a, b.h)); }
M_(fmin, min) M_(fmax, max)
#undef M_
static CT ldexp(const CT &a, double n) { return CT(tl_ldexp(a.h, (int)n)); }
[[noreturn]] static CT none() { throw ScriptError("script: not offered by the C interface"); }
static CT ldexp(const CT &a, const CT &b) { return CT(tl_ldexp(a.h, (int)b.getValue())); }
static CT ldexp(double, const CT &) { none(); }
static CT pow(double, const CT &) { none(); }
static CT cbrt(const CT &) { none(); }
static CT atan2(const CT &, const CT &) { none(); }
static double frexp(const CT &, int *) { none(); }
static std::ostream &operator<<(std::ostream &, const CT &) { none(); }
static std::istream &operator>>(std::istream &, CT &) { none(); }
static void condassign(CT &, const CT &, const CT &) { none(); }
static void condassign(CT &, const CT &, const CT &, const CT &) { none(); }
static void condeqassign(CT &, const CT &, const CT &) { none(); }
static void condeqassign(CT &, const CT &, const CT &, const CT &) { none(); }

struct CIf : Core {
  std::map<short, Machine<CA>> C;
  std::map<short, std::map<long, double>> P;
  long ntapes = 0;

  void exec(const Ins &x, Out &out, long &skip) override {
    Machine<CA> &M = C[curTag()];
    if (x.op == "asgc" && (x.k & 1)) { adolc_tb_set_value(M.g(x.r).l, x.c); return; }
    if (x.op == "kill" && (x.k & 1)) { // freed while another tape is current
      short me = curTag();
      tape_loc v = M.g(x.r).l;
      M.g(x.r).l.loc = ADOLC_TB_INVALID_LOC;
      M.R[x.r].reset();
      if (x.a >= 0) setCurrentTape((short)x.a);
      adolc_tb_free_on_tape(me, v);
      if (x.a >= 0) { if (curTag() != (short)x.a) out.addi(-5); setCurrentTape(me); }
      return;
    }
    if (M.common(x)) return;
    const std::string &o = x.op;
    const long r = x.r, a = x.a, b = x.b, k = x.k;
    const double c = x.c;
    auto L = [&](long i) { return M.g(i).l; };
    auto set = [&](long i, tape_loc v) { M.set(i, CA(v)); };
    auto to = [&](long i, tape_loc v) { M.g(i).to(v); };
    if (o == "new") { M.R[r].reset(); M.R[r].emplace(); return; }
    if (o == "ind") { adolc_tb_independent(L(r), c); return; }
    if (o == "dep") { double v = -77; adolc_tb_dependent(L(r), &v); out.add(v); return; }
    if (o == "val") { out.add(adolc_tb_value(L(r))); return; }
    if (o == "incpre") { to(r, adolc_tb_add_d(L(r), 1.0)); return; }
    if (o == "decpre") { to(r, adolc_tb_d_add(-1.0, L(r))); return; }
    if (o == "log10s") { set(r, adolc_tb_log10(L(a))); to(r, adolc_tb_mul_d(L(r), std::log(10.0))); return; }
    if (o == "erfs") { set(r, adolc_tb_erf(L(a))); to(r, adolc_tb_mul_d(L(r), SQRTPI_2)); return; }
    if (o == "erfcs") { set(r, adolc_tb_erfc(L(a))); to(r, adolc_tb_sub_d(L(r), 1.0)); to(r, adolc_tb_d_mul(SQRTPI_2, L(r))); return; }
    if (o == "ceil") { set(r, adolc_tb_ceil(L(a))); return; }
    if (o == "floor") { set(r, adolc_tb_floor(L(a))); return; }
    if (o == "powc") { set(r, adolc_tb_pow_d(L(a), c)); return; }
    if (o == "pow") { set(r, adolc_tb_pow(L(a), L(b))); return; }
    if (o == "fmin") { set(r, adolc_tb_min(L(a), L(b))); return; }
    if (o == "fmax") { set(r, adolc_tb_max(L(a), L(b))); return; }
    if (o == "fminc") { set(r, adolc_tb_min_d(L(a), c)); return; }
    if (o == "cfmin") { set(r, adolc_tb_d_min(c, L(a))); return; }
    if (o == "fmaxc") { set(r, adolc_tb_max_d(L(a), c)); return; }
    if (o == "cfmax") { set(r, adolc_tb_d_max(c, L(a))); return; }
    if (o == "ldexp") { set(r, adolc_tb_ldexp(L(a), (int)b)); return; }
    if (o == "br") { bool t = relt(k, L(a), L(b)); out.addi(t); if (!t) skip = r; return; }
    if (o == "brc") { bool t = relt(k, L(a), c); out.addi(t); if (!t) skip = r; return; }
    if (o == "cbr") { bool t = relt(k, c, L(a)); out.addi(t); if (!t) skip = r; return; }
    if (o == "mkp") { P[curTag()][r] = c; return; } // parameter and variable come together: the newp that follows
    if (o == "newp") { set(r, adolc_mkparam(P[curTag()].at(a))); return; }
    throw ScriptError("script: unknown op " + o);
  }

  void clear(short t) override {
    ValueTape *old = currentTapePtr();
    setCurrentTape(t);
    C.erase(t);
    setCurrentTape(old);
  }

  void fwd(Tok &t, Out &o) override {
    Tok t0 = t;
    std::string kind = t.s();
    short tag = (short)t.n();
    int m = (int)t.n(), n = (int)t.n(), d = (int)t.n(), p = (int)t.n(), keep = (int)t.n();
    std::vector<double> x(n + 1), y(m + 1, 9e99);
    for (int i = 0; i < n; ++i) setindex_vec(x.data(), t.d(), i);
    std::vector<double> X(n * p * d + 1);
    for (int i = 0; i < n * p * d; ++i) X[i] = t.d();
    auto XX = [&](int i, int l, int k) { return X[(i * p + l) * d + k]; };
    std::vector<double> Y(m * p * d + 1, 9e99);
    fint ft = tag, fm = m, fn = n, fd = d, fp = p, fk = keep;
    int rc;
    if (kind == "forward1" || kind == "forward2") {
      M2 A(n, d + 1), B(m, d + 1);
      for (int i = 0; i < n; ++i) { setindex_mat(A, x[i], i, 0); for (int k = 0; k < d; ++k) setindex_mat(A, XX(i, 0, k), i, k + 1); }
      rc = kind == "forward1" ? forward1(tag, m, n, d, keep, A, B) : forward2(tag, m, n, d, keep, A, B[0]);
      for (int j = 0; j < m; ++j) { y[j] = getindex_mat((const double **)(double **)B, j, 0); for (int k = 0; k < d; ++k) Y[j * d + k] = getindex_mat((const double **)(double **)B, j, k + 1); }
    } else if (kind == "forward3") rc = forward3(tag, m, n, 0, keep, x.data(), y.data());
    else if (kind == "forward4") rc = forward4(tag, m, n, keep, x.data(), y.data());
    else if (kind == "forward5") {
      M3 A(n, p, d), B(m, p, d);
      for (int i = 0; i < n; ++i) for (int l = 0; l < p; ++l) for (int k = 0; k < d; ++k) setindex_tens(A, XX(i, l, k), i, l, k);
      rc = forward5(tag, m, n, d, p, x.data(), A, y.data(), B);
      for (int j = 0; j < m; ++j) for (int l = 0; l < p; ++l) for (int k = 0; k < d; ++k)
        Y[(j * p + l) * d + k] = k % 2 ? getindex_tens((const double ***)(double ***)B, j, l, k) : getindex_ten((const double ***)(double ***)B, j)[l][k];
    } else if (kind == "forward6") {
      M2 A(n, p), B(m, p);
      for (int i = 0; i < n; ++i) for (int l = 0; l < p; ++l) A[i][l] = XX(i, l, 0);
      rc = forward6(tag, m, n, p, x.data(), A, y.data(), B);
      for (int j = 0; j < m; ++j) for (int l = 0; l < p; ++l) Y[j * p + l] = B[j][l];
    } else if (kind == "zos_") rc = (int)zos_forward_(&ft, &fm, &fn, &fk, x.data(), y.data());
    else if (kind == "hos_") { // column-major arrays
      std::vector<double> A(n * d + 1), B(m * d + 1, 9e99);
      for (int i = 0; i < n; ++i) for (int k = 0; k < d; ++k) A[k * n + i] = XX(i, 0, k);
      rc = (int)hos_forward_(&ft, &fm, &fn, &fd, &fk, x.data(), A.data(), y.data(), B.data());
      for (int j = 0; j < m; ++j) for (int k = 0; k < d; ++k) Y[j * d + k] = B[k * m + j];
    } else if (kind == "fov_") {
      std::vector<double> A(n * p + 1), B(m * p + 1, 9e99);
      for (int i = 0; i < n; ++i) for (int l = 0; l < p; ++l) A[l * n + i] = XX(i, l, 0);
      rc = (int)fov_forward_(&ft, &fm, &fn, &fp, x.data(), A.data(), y.data(), B.data());
      for (int j = 0; j < m; ++j) for (int l = 0; l < p; ++l) Y[j * p + l] = B[l * m + j];
    } else if (kind == "hov_") {
      std::vector<double> A(n * p * d + 1), B(m * p * d + 1, 9e99);
      for (int i = 0; i < n; ++i) for (int l = 0; l < p; ++l) for (int k = 0; k < d; ++k) A[(k * p + l) * n + i] = XX(i, l, k);
      rc = (int)hov_forward_(&ft, &fm, &fn, &fd, &fp, x.data(), A.data(), y.data(), B.data());
      for (int j = 0; j < m; ++j) for (int l = 0; l < p; ++l) for (int k = 0; k < d; ++k) Y[(j * p + l) * d + k] = B[(k * p + l) * m + j];
    } else { t = t0; Core::fwd(t, o); return; }
    o.rcode(rc);
    for (int j = 0; j < m; ++j) o.add(getindex_vec(y.data(), j));
    for (int i = 0; i < m * p * d; ++i) o.add(Y[i]);
  }

  void rev(Tok &t, Out &o) override {
    Tok t0 = t;
    std::string kind = t.s();
    short tag = (short)t.n();
    int m = (int)t.n(), n = (int)t.n(), d = (int)t.n(), q = (int)t.n();
    long nu = t.n();
    std::vector<double> u(nu + 1);
    for (long i = 0; i < nu; ++i) u[i] = t.d();
    int rc;
    std::vector<double> Z((size_t)q * n * (d + 1) + 1, 9e99); // [q][n][d+1]
    auto put = [&](int l, int i, int k, double v) { Z[(l * n + i) * (d + 1) + k] = v; };
    struct Nz { short **s; Nz(int q, int n) : s(alloc_short_mat(q, n)) {} ~Nz() { free_short_mat(s); } } nz(q, n);
    fint ft = tag, fm = m, fn = n, fd = d, fq = q;
    if (kind == "reverse1" || kind == "reverse2") {
      M2 B(n, d + 1);
      rc = kind == "reverse1" ? reverse1(tag, m, n, d, u.data(), B) : reverse2(tag, m, n, d, u[0], B);
      for (int i = 0; i < n; ++i) for (int k = 0; k <= d; ++k) put(0, i, k, B[i][k]);
    } else if (kind == "reverse3") rc = reverse3(tag, m, n, 0, u.data(), Z.data());
    else if (kind == "reverse4") rc = reverse4(tag, m, n, 0, u[0], Z.data());
    else if (kind == "reverse5" || kind == "reverse6" || kind == "reverse10") {
      M2 U(q, m);
      M3 B(q, n, d + 1);
      for (int l = 0; l < q; ++l) for (int j = 0; j < m; ++j) U[l][j] = u[(l * m + j) % (nu ? nu : 1)];
      if (kind == "reverse5") rc = reverse5(tag, m, n, d, q, U, B, nz.s);
      else if (kind == "reverse6") rc = reverse6(tag, m, n, d, q, u.data(), B, nz.s);
      else rc = reverse10(tag, m, n, d, B, nz.s);
      for (int l = 0; l < q; ++l) for (int i = 0; i < n; ++i) for (int k = 0; k <= d; ++k) put(l, i, k, B[l][i][k]);
    } else if (kind == "reverse7" || kind == "reverse8" || kind == "reverse9") {
      M2 U(q, m), B(q, n);
      for (int l = 0; l < q; ++l) for (int j = 0; j < m; ++j) U[l][j] = u[(l * m + j) % (nu ? nu : 1)];
      if (kind == "reverse7") rc = reverse7(tag, m, n, 0, q, U, B);
      else if (kind == "reverse8") rc = reverse8(tag, m, n, q, U, B);
      else rc = reverse9(tag, m, n, 0, q, u.data(), B);
      for (int l = 0; l < q; ++l) for (int i = 0; i < n; ++i) put(l, i, 0, B[l][i]);
    } else if (kind == "fos_") rc = (int)fos_reverse_(&ft, &fm, &fn, u.data(), Z.data());
    else if (kind == "hos_" || kind == "hosti_") {
      std::vector<double> U(m * (d + 1) + 1), B(n * (d + 1) + 1, 9e99);
      if (kind == "hosti_") for (int j = 0; j < m; ++j) for (int k = 0; k <= d; ++k) U[k * m + j] = u[j * (d + 1) + k];
      rc = (int)(kind == "hos_" ? hos_reverse_(&ft, &fm, &fn, &fd, u.data(), B.data()) : hos_ti_reverse_(&ft, &fm, &fn, &fd, U.data(), B.data()));
      for (int i = 0; i < n; ++i) for (int k = 0; k <= d; ++k) put(0, i, k, B[k * n + i]);
    } else if (kind == "fov_") {
      std::vector<double> U(q * m + 1), B(q * n + 1, 9e99);
      for (int l = 0; l < q; ++l) for (int j = 0; j < m; ++j) U[j * q + l] = u[l * m + j];
      rc = (int)fov_reverse_(&ft, &fm, &fn, &fq, U.data(), B.data());
      for (int l = 0; l < q; ++l) for (int i = 0; i < n; ++i) put(l, i, 0, B[i * q + l]);
    } else if (kind == "hov_" || kind == "hovti_") {
      std::vector<double> U(q * m * (d + 1) + 1), B(q * n * (d + 1) + 1, 9e99);
      if (kind == "hov_") for (int l = 0; l < q; ++l) for (int j = 0; j < m; ++j) U[j * q + l] = u[l * m + j];
      else for (int l = 0; l < q; ++l) for (int j = 0; j < m; ++j) for (int k = 0; k <= d; ++k) U[(k * m + j) * q + l] = u[(l * m + j) * (d + 1) + k];
      rc = (int)(kind == "hov_" ? hov_reverse_(&ft, &fm, &fn, &fd, &fq, U.data(), B.data()) : hov_ti_reverse_(&ft, &fm, &fn, &fd, &fq, U.data(), B.data()));
      for (int l = 0; l < q; ++l) for (int i = 0; i < n; ++i) for (int k = 0; k <= d; ++k) put(l, i, k, B[(k * n + i) * q + l]);
    } else { t = t0; Core::rev(t, o); return; }
    o.rcode(rc);
    for (long i = 0; i < (long)q * n * (d + 1); ++i) o.add(Z[i]);
  }

  void drv(Tok &t, Out &o) override {
    Tok t0 = t;
    std::string kind = t.s();
    if (kind.back() != '_') { t = t0; Core::drv(t, o); return; }
    fint tag = t.n(), m = t.n(), n = t.n(), q = t.n();
    auto vec = [&](long len) { std::vector<double> v(len + 1); for (long i = 0; i < len; ++i) v[i] = t.d(); return v; };
    auto outv = [&](double *v, long len) { for (long i = 0; i < len; ++i) o.add(v[i]); };
    std::vector<double> x = vec(n), y(m + 1, 9e99), g(n + 1, 9e99);
    if (kind == "function_") { o.rcode((int)function_(&tag, &m, &n, x.data(), y.data())); outv(y.data(), m); }
    else if (kind == "gradient_") { o.rcode((int)gradient_(&tag, &n, x.data(), g.data())); outv(g.data(), n); }
    else if (kind == "jacobian_") { std::vector<double> J(m * n + 1, 9e99); o.rcode((int)jacobian_(&tag, &m, &n, x.data(), J.data()));
      for (long j = 0; j < m; ++j) for (long i = 0; i < n; ++i) o.add(J[i * m + j]); }
    else if (kind == "vec_jac_") { auto u = vec(m); o.rcode((int)vec_jac_(&tag, &m, &n, &q, x.data(), u.data(), g.data())); outv(g.data(), n); }
    else if (kind == "jac_vec_") { auto v = vec(n); o.rcode((int)jac_vec_(&tag, &m, &n, x.data(), v.data(), y.data())); outv(y.data(), m); }
    else if (kind == "hessian_") { std::vector<double> H(n * n + 1, 9e99); o.rcode((int)hessian_(&tag, &n, x.data(), H.data()));
      for (long i = 0; i < n; ++i) for (long k = 0; k <= i; ++k) o.add(H[k * n + i]); }
    else if (kind == "hess_vec_") { auto v = vec(n); o.rcode((int)hess_vec_(&tag, &n, x.data(), v.data(), g.data())); outv(g.data(), n); }
    else if (kind == "lagra_hess_vec_") { auto v = vec(n); auto u = vec(m); o.rcode((int)lagra_hess_vec_(&tag, &m, &n, x.data(), v.data(), u.data(), g.data())); outv(g.data(), n); }
    else throw ScriptError("script: drv kind " + kind);
  }

  void command(const std::string &c, Tok &t, Out &o, std::function<std::string()> nextline) override {
    if (c == "new") {
      if (ntapes % 2) o.addi(createNewTape());
      else { adolc_ensure_tape((short)ntapes); o.addi(findTapePtr_((short)ntapes) ? ntapes : -1); }
      ++ntapes;
    } else if (c == "on") { short tag = (short)t.n(); int keep = (int)t.n(); o.rcode(adolc_trace_on(tag, keep)); }
    else if (c == "off") { adolc_trace_off((int)t.n()); o.addi(curTag()); }
    else if (c == "setp") { short tag = (short)t.n(); long n = t.n(); std::vector<double> v(n + 1); for (long i = 0; i < n; ++i) v[i] = t.d(); adolc_set_param_vec(tag, (unsigned)n, v.data()); }
    else if (c == "numid") { short tag = (short)t.n(); o.addi((long)adolc_num_independent(tag)); o.addi((long)adolc_num_dependent(tag)); }
    else if (c == "minmax") { ValueTape *old = currentTapePtr(); setCurrentTape((short)t.n());
      if (t.n()) adolc_enable_min_max_using_abs(); else adolc_disable_min_max_using_abs(); setCurrentTape(old); }
    else if (c == "tl") {
      long nl = t.n();
      std::vector<Ins> prog;
      for (long k = 0; k < nl; ++k) prog.push_back(parse_ins(split(nextline())));
      t.s();
      int m = (int)t.n(), n = (int)t.n(), d = (int)t.n(), p = (int)t.n(), rep = (int)t.n();
      std::vector<double> x(n + 1);
      for (int i = 0; i < n; ++i) x[i] = t.d();
      set_num_dir(p);
      TL<CT> tl;
      std::vector<CT> xs;
      for (int i = 0; i < n; ++i) {
        std::vector<double> r(p);
        for (int l = 0; l < p; ++l) r[l] = t.d();
        if (i % 3 == 0) xs.emplace_back(create_tl_adouble_with_ad(x[i], r.data()));
        else { xs.emplace_back(x[i]); for (int l = 0; l < p; ++l) set_tl_ad_value_idx(xs.back().h, l, r[l]); }
        if (i % 3 == 2) { set_tl_value(xs.back().h, x[i]); set_tl_ad_value(xs.back().h, r.data()); }
      }
      tl.run(prog, xs, o);
      for (auto &y : tl.Y) o.add(get_tl_value(y.h));
      for (auto &y : tl.Y) for (int l = 0; l < p; ++l) o.add(l % 2 ? get_tl_ad_values(y.h)[l] : get_tl_ad_value_idx(y.h, l));
    } else Core::command(c, t, o, nextline);
  }
};

int main(int argc, char **argv) {
  return run_cases(argc, argv, [](const std::vector<std::string> &b, FILE *f) {
    auto *c = new CIf;
    c->run(b, f);
    _exit((std::fprintf(f, "end\n"), std::fflush(f), 0));
  });
}
