// Piecewise linear sweeps, abs-normal forms (dense and sparse), directional active gradients.
#include "core.h"
#include <adolc/drivers/psdrivers.h>
#include <adolc/drivers/absnormalform.h>
#include <adolc/sparse/sparsedrivers.h>
#include <span>
namespace S = ADOLC::Sparse;

struct PLCore : Core {
  S::SparseANF anf; // storage offered again by the caller

  bool xcmd(const std::string &c, Tok &t, Out &o) override {
    if (c == "nsw") { short tag = t.n(); o.addi((long)get_num_switches(tag)); return true; }
    if (c != "pl") return false;
    std::string kind = t.s();
    short tag = t.n();
    int m = t.n(), n = t.n(), dsw = t.n(), p = t.n();
    std::vector<double> x(n + 1), y(m + 1, 12345.678), w(8);
    for (int i = 0; i < n; ++i) x[i] = t.d();
    M2 X(n, p);
    for (int i = 0; i < n; ++i) for (int l = 0; l < p; ++l) X[i][l] = t.d();
    for (double &a : w) a = t.d();
    int s = 0;
    try { s = (int)get_num_switches(tag); } catch (...) { s = 0; }
    const int sc = s + dsw < 0 ? s + 1 : s + dsw;
    const int sa = std::max(s, sc) + 1;
    std::vector<double> z(sa, 12345.678);
    std::vector<short> sig(sa, 77);
    auto W = [&](int k) { return w[k & 7]; };
    auto out = [&](const double *v, int k) { for (int i = 0; i < k; ++i) o.add(v[i]); };
    auto outm = [&](double **v, int r, int k) { for (int i = 0; i < r; ++i) out(v[i], k); };
    M2 Y(m, p), Z(sa, p);
    std::vector<double> x1(n + 1), y1(m + 1), z1(sa);
    if (p > 0) for (int i = 0; i < n; ++i) x1[i] = X[i][0];
    if (kind == "zos" || kind == "zosk") {
      o.rcode(zos_pl_forward(tag, m, n, kind == "zosk", x.data(), y.data(), z.data()));
      out(y.data(), m); out(z.data(), s);
    } else if (kind == "fos") {
      o.rcode(fos_pl_forward(tag, m, n, x.data(), x1.data(), y.data(), y1.data(), z.data(), z1.data()));
      out(y.data(), m); out(y1.data(), m); out(z.data(), s); out(z1.data(), s);
    } else if (kind == "fov") {
      o.rcode(fov_pl_forward(tag, m, n, p, x.data(), X, y.data(), Y, z.data(), Z, sig.data()));
      out(y.data(), m); outm(Y, m, p); out(z.data(), s); outm(Z, s, p);
      for (int k = 0; k < s; ++k) o.addi(sig[k]);
    } else if (kind == "sfos" || kind == "sfov" || kind == "sfosd" || kind == "sfovd") {
      zos_pl_forward(tag, m, n, 0, x.data(), y.data(), z.data());
      std::vector<short> base(sa), dir(sa);
      for (int k = 0; k < s; ++k) base[k] = z[k] > 0 ? 1 : z[k] < 0 ? -1 : 0;
      const bool vec = kind.substr(0, 4) == "sfov", d = kind.back() == 'd';
      for (int round = 0; round < (d ? 2 : 1); ++round) {
        int rc = vec ? fov_pl_sig_forward(tag, m, n, p, x.data(), X, sc, base.data(), round ? dir.data() : nullptr, y.data(), Y, z.data(), Z, sig.data())
                     : fos_pl_sig_forward(tag, m, n, x.data(), x1.data(), sc, base.data(), round ? dir.data() : nullptr, y.data(), y1.data(), z.data(), z1.data(), sig.data());
        o.rcode(rc);
        dir = sig;
        // the first sign along the first direction
        if (d && vec) for (int k = 0; k < s; ++k) dir[k] = base[k] ? base[k] : Z[k][0] > 0 ? 1 : Z[k][0] < 0 ? -1 : 0;
      }
      out(y.data(), m); if (vec) outm(Y, m, p); else out(y1.data(), m);
      out(z.data(), s); if (vec) outm(Z, s, p); else out(z1.data(), s);
      for (int k = 0; k < s; ++k) o.addi(sig[k]);
    } else if (kind == "rfos") {
      std::vector<double> u(m + 1), us(sa), r(n + 1, 12345.678), rs(sa, 12345.678);
      for (int j = 0; j < m; ++j) u[j] = W(j);
      for (int k = 0; k < s; ++k) us[k] = W(m + k);
      o.rcode(fos_pl_reverse(tag, m, n, sc, u.data(), us.data(), r.data(), rs.data()));
      out(r.data(), n); out(rs.data(), s);
    } else if (kind == "rfov") {
      M2 U(p, m), Us(p, sa), R(p, n), Rs(p, sa);
      for (int l = 0; l < p; ++l) { for (int j = 0; j < m; ++j) U[l][j] = W(j + 3 * l); for (int k = 0; k < s; ++k) Us[l][k] = W(m + k + 3 * l); }
      o.rcode(fov_pl_reverse(tag, m, n, sc, p, U, Us, R, Rs));
      for (int l = 0; l < p; ++l) { out(R[l], n); out(Rs[l], s); }
    } else if (kind == "rsig") {
      std::vector<double> u(m + 1), r(n + 1, 12345.678);
      for (int j = 0; j < m; ++j) u[j] = W(j);
      for (int k = 0; k < s; ++k) sig[k] = W(m + k) > 0 ? 1 : W(m + k) < 0 ? -1 : 0;
      o.rcode(fos_pl_sig_reverse(tag, m, n, sc, sig.data(), u.data(), r.data()));
      out(r.data(), n);
    } else if (kind == "anfc") {
      M2 A(m, n), J(m, sa), B(sa, n), L(sa, sa);
      o.rcode(abs_normal(tag, m, n, sc, x.data(), y.data(), z.data(), A, J, B, L));
      out(y.data(), m); out(z.data(), s); outm(A, m, n); outm(J, m, s); outm(B, s, n); outm(L, s, s);
    } else if (kind == "anf" || kind == "anfq") {
      auto a = ADOLC::AbsNormalForm::fromTape(tag);
      std::span<const double> xs(x.data(), n);
      if (kind == "anf") o.rcode(ADOLC::abs_normal<ADOLC::UpdateConsts::True>(tag, xs, a));
      else { o.rcode(ADOLC::abs_normal<ADOLC::UpdateConsts::False>(tag, xs, a)); }
      out(a.y.data(), m); out(a.z.data(), s); outm(a.Y.data(), m, n); outm(a.J.data(), m, s); outm(a.Z.data(), s, n); outm(a.L.data(), s, s);
      if (kind == "anfq") { a.updateCy(); a.updateCz(); }
      out(a.cy.data(), m); out(a.cz.data(), s);
    } else if (kind == "dag") {
      std::vector<double> g(n + 1, 12345.678);
      o.rcode(directional_active_gradient(tag, n, x.data(), x1.data(), g.data(), sig.data()));
      out(g.data(), n);
      for (int k = 0; k < s; ++k) o.addi(sig[k]);
    } else if (kind == "pat") {
      std::vector<uint *> r(m + sa, nullptr);
      std::span<uint *> sp(r.data(), m + s);
      o.rcode(S::jac_pat<S::PiecewiseLinear{}>(tag, m, n, sc, x.data(), sp));
      for (int j = 0; j < m + s; ++j) {
        std::vector<long> f(n + s, 0);
        if (r[j]) for (uint q = 1; q <= r[j][0]; ++q) { long k = r[j][q]; if (k < 0 || k >= n + s) o.addi(-9); else f[k] = f[k] ? -7 : 1; }
        for (long v : f) o.addi(v);
      }
    } else if (kind.substr(0, 4) == "sanf") { // sanf, sanfm (storage of the previous call), +r: repeat
      const bool rep = kind.find('r') != std::string::npos, man = kind.find('m') != std::string::npos;
      int rc;
      if (man) rc = S::sparse_jac<S::PiecewiseLinear{}, S::MemoryHandler::Manual>(tag, m, n, sc, rep, x.data(), anf);
      else rc = S::sparse_jac<S::PiecewiseLinear{}>(tag, m, n, sc, rep, x.data(), anf);
      o.rcode(rc);
      if (rc < 0) return true;
      out(anf.y.data(), m); out(anf.z.data(), s);
      auto block = [&](S::SparseMatrix &M, int r, int q) {
        std::vector<long> f(r * q, 0);
        std::vector<double> v(r * q, 0.0);
        for (size_t e = 0; e < M.size(); ++e) {
          long i = M.rowIndex(e), j = M.colIndex(e);
          if (i < 0 || j < 0 || i >= r || j >= q) { o.addi(-9); continue; }
          f[i * q + j] = f[i * q + j] ? -7 : 1;
          v[i * q + j] = M.value(e);
        }
        for (int i = 0; i < r * q; ++i) { o.addi(f[i]); o.add(v[i]); }
      };
      block(anf.Y, m, n); block(anf.J, m, s); block(anf.Z, s, n); block(anf.L, s, s);
      out(anf.cy.data(), m); out(anf.cz.data(), s);
    } else return false;
    return true;
  }
};

int main(int argc, char **argv) {
  return run_cases(argc, argv, [](const std::vector<std::string> &b, FILE *f) { auto *c = new PLCore; c->run(b, f); _exit((std::fprintf(f, "end\n"), std::fflush(f), 0)); });
}
