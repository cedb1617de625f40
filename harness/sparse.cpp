// Sparsity patterns, sparse Jacobians and Hessians, bit pattern propagation.
#include "core.h"
#include <adolc/sparse/sparsedrivers.h>
#include <adolc/sparse/sparse_fo_rev.h>
#include <adolc/sparse/sparsedrivers_c.h>
#include <span>
namespace S = ADOLC::Sparse;
using S::SparseMethod; using S::ControlFlowMode; using S::CompressionMode; using S::RecoveryMethod; using S::MemoryHandler;
using BP = S::BitPatternPropagationDirection;

struct SparseCore : Core {
  std::vector<uint *> rows; // pattern obtained last
  int rm = 0, rn = 0;

  // runs f with the compile-time option constants named by the run-time ones
  template <class F> int jacopt(int sm, int cfm, int dir, F f) {
    if (sm == 0) return cfm ? f.template operator()<SparseMethod::IndexDomains, ControlFlowMode::Tight, BP::Auto>()
                            : f.template operator()<SparseMethod::IndexDomains, ControlFlowMode::Safe, BP::Auto>();
    if (cfm == 0) return dir == 0 ? f.template operator()<SparseMethod::BitPattern, ControlFlowMode::Safe, BP::Auto>()
                       : dir == 1 ? f.template operator()<SparseMethod::BitPattern, ControlFlowMode::Safe, BP::Forward>()
                                  : f.template operator()<SparseMethod::BitPattern, ControlFlowMode::Safe, BP::Reverse>();
    return dir == 0 ? f.template operator()<SparseMethod::BitPattern, ControlFlowMode::Tight, BP::Auto>()
         : dir == 1 ? f.template operator()<SparseMethod::BitPattern, ControlFlowMode::Tight, BP::Forward>()
                    : f.template operator()<SparseMethod::BitPattern, ControlFlowMode::Tight, BP::Reverse>();
  }
  // one flag per position; -7 in place of a repeated or impossible one
  void flags(Out &o, int m, int n, const std::vector<uint *> &r) {
    for (int j = 0; j < m; ++j) {
      std::vector<long> f(n, 0);
      if (r[j]) for (uint q = 1; q <= r[j][0]; ++q) { long c = r[j][q]; if (c < 0 || c >= n) o.addi(-9); else f[c] = f[c] ? -7 : 1; }
      for (long v : f) o.addi(v);
    }
  }
  void entries(Out &o, int m, int n, long nnz, const std::function<void(long, long &, long &, double &)> &get, bool upper) {
    std::vector<long> f((size_t)m * n, 0);
    std::vector<double> v((size_t)m * n, 0.0);
    for (long e = 0; e < nnz; ++e) {
      long i, j; double a;
      get(e, i, j, a);
      if (i < 0 || j < 0 || i >= m || j >= n || (upper && i > j)) { o.addi(-9); continue; }
      f[i * n + j] = f[i * n + j] ? -7 : 1;
      v[i * n + j] = a;
    }
    for (int i = 0; i < m; ++i) for (int j = upper ? i : 0; j < n; ++j) { o.addi(f[i * n + j]); o.add(v[i * n + j]); }
  }

  bool xcmd(const std::string &c, Tok &t, Out &o) override {
    auto vec = [&](int k) { std::vector<double> v(k + 1); for (int i = 0; i < k; ++i) v[i] = t.d(); return v; };
    if (c == "jp") {
      rows.clear(); rm = rn = 0;
      long capi = t.n(); short tag = (short)t.n(); int m = t.n(), n = t.n(), sm = t.n(), cfm = t.n(), dir = t.n(), nox = t.n();
      auto x = vec(n);
      const double *px = nox ? nullptr : x.data();
      std::vector<uint *> r(m + 1, nullptr);
      int opt[3] = {sm, cfm, dir};
      int rc;
      if (capi) rc = jac_pat(tag, m, n, px, r.data(), opt);
      else rc = jacopt(sm, cfm, dir, [&]<SparseMethod SM, ControlFlowMode CF, BP B>() { std::span<uint *> s(r.data(), m); return S::jac_pat<SM, CF, B>(tag, m, n, px, s); });
      o.rcode(rc);
      if (rc >= 0) { flags(o, m, n, r); rows = r; rm = m; rn = n; }
    } else if (c == "hp") {
      rows.clear(); rm = rn = 0;
      long capi = t.n(); short tag = (short)t.n(); int n = t.n(), cfm = t.n(), nox = t.n();
      auto x = vec(n);
      const double *px = nox ? nullptr : x.data();
      std::vector<uint *> r(n + 1, nullptr);
      int rc;
      std::span<uint *> s(r.data(), n);
      if (capi) rc = hess_pat(tag, n, px, r.data(), &cfm);
      else rc = cfm == 0 ? S::hess_pat<ControlFlowMode::Safe>(tag, n, px, s) : cfm == 1 ? S::hess_pat<ControlFlowMode::Tight>(tag, n, px, s)
              : cfm == 2 ? S::hess_pat<ControlFlowMode::OldSafe>(tag, n, px, s) : S::hess_pat<ControlFlowMode::OldTight>(tag, n, px, s);
      o.rcode(rc);
      if (rc >= 0) { flags(o, n, n, r); rows = r; rm = n; rn = n; }
    } else if (c == "seedj" || c == "seedh") { // seed matrix for the pattern obtained last, as 0/1
      long capi = t.n(); int opt = t.n();
      if (rows.empty()) { o.rcode(-98); return true; } // no pattern
      double **seed = nullptr; int p = -1;
      std::span<uint *> s(rows.data(), rm);
      if (c == "seedj") {
        if (capi) generate_seed_jac(rm, rn, rows.data(), &seed, &p, &opt);
        else if (opt) S::generate_seed_jac<CompressionMode::Row>(rm, rn, s, &seed, &p);
        else S::generate_seed_jac<CompressionMode::Column>(rm, rn, s, &seed, &p);
        o.addi(p);
        for (int a = 0; a < (opt ? p : rn); ++a) for (int b = 0; b < (opt ? rm : p); ++b) o.addi(seed[a][b] == 1.0 ? 1 : seed[a][b] == 0.0 ? 0 : -7);
      } else {
        if (capi) generate_seed_hess(rn, rows.data(), &seed, &p, &opt);
        else if (opt) S::generate_seed_hess<RecoveryMethod::Direct>(rn, s, &seed, &p);
        else S::generate_seed_hess<RecoveryMethod::Indirect>(rn, s, &seed, &p);
        o.addi(p);
        for (int a = 0; a < rn; ++a) for (int b = 0; b < p; ++b) o.addi(seed[a][b] == 1.0 ? 1 : seed[a][b] == 0.0 ? 0 : -7);
      }
    } else if (c == "sj") {
      long capi = t.n(); short tag = (short)t.n(); int m = t.n(), n = t.n(), rep = t.n(), sm = t.n(), cfm = t.n(), dir = t.n(), cm = t.n();
      long mem = t.n(); // caller-provided storage for this many entries, or -1
      auto x = vec(n);
      int opt[4] = {sm, cfm, dir, cm};
      if (capi) {
        int nnz = mem < 0 ? 0 : (int)mem;
        unsigned *ri = mem < 0 ? nullptr : new unsigned[mem], *ci = mem < 0 ? nullptr : new unsigned[mem];
        double *va = mem < 0 ? nullptr : new double[mem];
        int rc = sparse_jac(tag, m, n, rep, x.data(), &nnz, &ri, &ci, &va, opt);
        o.rcode(rc);
        if (rc >= 0) entries(o, m, n, nnz, [&](long e, long &i, long &j, double &a) { i = ri[e]; j = ci[e]; a = va[e]; }, false);
      } else {
        S::SparseMatrix M(mem < 0 ? 0 : mem);
        int rc = jacopt(sm, cfm, dir, [&]<SparseMethod SM, ControlFlowMode CF, BP B>() {
          using enum MemoryHandler;
          if (cm) return mem < 0 ? S::sparse_jac<SM, CompressionMode::Row, CF, B, Auto>(tag, m, n, rep, x.data(), M) : S::sparse_jac<SM, CompressionMode::Row, CF, B, Manual>(tag, m, n, rep, x.data(), M);
          return mem < 0 ? S::sparse_jac<SM, CompressionMode::Column, CF, B, Auto>(tag, m, n, rep, x.data(), M) : S::sparse_jac<SM, CompressionMode::Column, CF, B, Manual>(tag, m, n, rep, x.data(), M); });
        o.rcode(rc);
        if (rc >= 0) entries(o, m, n, M.size(), [&](long e, long &i, long &j, double &a) { i = M.rowIndex(e); j = M.colIndex(e); a = M.value(e); }, false);
      }
    } else if (c == "sh") {
      long capi = t.n(); short tag = (short)t.n(); int n = t.n(), rep = t.n(), cfm = t.n(), rcm = t.n();
      long mem = t.n();
      auto x = vec(n);
      int opt[2] = {cfm, rcm};
      int nnz = mem < 0 ? 0 : (int)mem;
      if (rep && hnnz.count(tag) && mem == -1) nnz = hnnz[tag];
      unsigned *ri = nullptr, *ci = nullptr; double *va = nullptr;
      if (mem >= 0) { ri = new unsigned[mem]; ci = new unsigned[mem]; va = new double[mem]; }
      auto go = [&]<ControlFlowMode C>() { return rcm ? S::sparse_hess<C, RecoveryMethod::Direct>(tag, n, rep, x.data(), &nnz, &ri, &ci, &va)
                                                      : S::sparse_hess<C, RecoveryMethod::Indirect>(tag, n, rep, x.data(), &nnz, &ri, &ci, &va); };
      int rc;
      if (capi) rc = sparse_hess(tag, n, rep, x.data(), &nnz, &ri, &ci, &va, opt);
      else rc = cfm == 0 ? go.template operator()<ControlFlowMode::Safe>() : cfm == 1 ? go.template operator()<ControlFlowMode::Tight>()
              : cfm == 2 ? go.template operator()<ControlFlowMode::OldSafe>() : go.template operator()<ControlFlowMode::OldTight>();
      o.rcode(rc);
      if (rc >= 0) { hnnz[tag] = nnz; entries(o, n, n, nnz, [&](long e, long &i, long &j, double &a) { i = ri[e]; j = ci[e]; a = va[e]; }, true); }
    } else if (c == "bits") { // propagation of bit patterns: p words of 32 bits per variable
      std::string kind = t.s(); short tag = (short)t.n(); int m = t.n(), n = t.n(), p = t.n(), tight = t.n(), via = t.n();
      auto x = vec(n);
      bool fw = kind == "f";
      int in = fw ? n : m, out = fw ? m : n;
      std::vector<std::vector<bitword_t>> A(in, std::vector<bitword_t>(p)), B(out, std::vector<bitword_t>(p, 0xdeadbeef));
      if (!fw) for (auto &r : A) for (auto &w : r) w = 0;
      // input: for each input variable the list of bits set
      if (fw) for (auto &r : A) { long k = t.n(); while (k--) { long b = t.n(); r[b / 32] |= (bitword_t)1 << (b % 32); } }
      else for (auto &r : A) { long k = t.n(); while (k--) { long b = t.n(); r[b / 32] |= (bitword_t)1 << (b % 32); } }
      // the transposed layout is not used: rows of A and B belong to variables
      std::vector<bitword_t *> pa, pb;
      std::vector<std::vector<bitword_t>> AT, BT;
      if (fw) { for (auto &r : A) pa.push_back(r.data()); for (auto &r : B) pb.push_back(r.data()); }
      else { // reverse: q rows of weights, words of one row hold ... see int_reverse: U[q][m], Z[q][n]
        AT.assign(p, std::vector<bitword_t>(m)); BT.assign(p, std::vector<bitword_t>(n, 0xdeadbeef));
        for (int l = 0; l < p; ++l) for (int j = 0; j < m; ++j) AT[l][j] = A[j][l];
        for (auto &r : AT) pa.push_back(r.data()); for (auto &r : BT) pb.push_back(r.data());
      }
      std::vector<double> y(m + 1, 9e99);
      int rc;
      const char mode = via == 3 ? 2 + tight : tight;
      if (fw && via == 2) rc = S::forward(tag, m, n, p, pa.data(), pb.data(), mode);
      else if (fw && via) rc = S::forward(tag, m, n, p, tight ? x.data() : nullptr, pa.data(), tight ? y.data() : nullptr, pb.data(), mode);
      else if (fw) rc = tight ? S::forward<ControlFlowMode::Tight>(tag, m, n, p, x.data(), pa, y.data(), pb) : S::forward<ControlFlowMode::Safe>(tag, m, n, p, pa, pb);
      else {
        if (tight) zos_forward(tag, m, n, 1, x.data(), y.data());
        rc = via ? S::reverse(tag, m, n, p, pa.data(), pb.data(), mode) : tight ? S::reverse<ControlFlowMode::Tight>(tag, m, n, p, pa, pb) : S::reverse<ControlFlowMode::Safe>(tag, m, n, p, pa, pb);
        for (int l = 0; l < p; ++l) for (int i = 0; i < n; ++i) B[i][l] = BT[l][i];
      }
      o.rcode(rc);
      if (rc >= 0) {
        if (tight) for (int j = 0; j < m; ++j) o.add(y[j]);
        for (auto &r : B) for (int b = 0; b < 32 * p; ++b) o.addi((r[b / 32] >> (b % 32)) & 1);
      }
    } else return false;
    return true;
  }
  std::map<short, int> hnnz;
};

int main(int argc, char **argv) {
  return run_cases(argc, argv, [](const std::vector<std::string> &b, FILE *f) { auto *c = new SparseCore; c->run(b, f); _exit((std::fprintf(f, "end\n"), std::fflush(f), 0)); });
}
