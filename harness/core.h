// Taped-mode harness: executes API calls named by a script and reports what they returned.
#pragma once
#include "machine.h"
#include <adolc/adolc.h>
#include <adolc/adolcerror.h>
#include <adolc/advector.h>
#include <set>

struct Core {
  struct File {
    Machine<adouble> m;
    std::map<long, std::unique_ptr<pdouble>> P;
    std::map<long, std::unique_ptr<advector>> V;
  };
  std::map<short, File> files;
  virtual ~Core() {}
  short curTag() { return currentTapePtr() ? currentTapePtr()->tapeId() : -1; }
  File &cur() { return files[curTag()]; }

  // further operations / commands supplied by other harness programs
  virtual bool xop(File &, const Ins &, Out &) { return false; }
  virtual bool xcmd(const std::string &, Tok &, Out &) { return false; }

  static bool rel(long w, const adouble &a, const adouble &b) {
    switch (w) { case 0: return a < b; case 1: return a <= b; case 2: return a > b; case 3: return a >= b; case 4: return a == b; default: return a != b; }
  }
  static bool relc(long w, const adouble &a, double b) {
    switch (w) { case 0: return a < b; case 1: return a <= b; case 2: return a > b; case 3: return a >= b; case 4: return a == b; default: return a != b; }
  }
  static bool crel(long w, double a, const adouble &b) {
    switch (w) { case 0: return a < b; case 1: return a <= b; case 2: return a > b; case 3: return a >= b; case 4: return a == b; default: return a != b; }
  }

  // executes one instruction; skip = number of following instructions to skip (branches)
  virtual void exec(const Ins &x, Out &out, long &skip) {
    File &f = cur();
    Machine<adouble> &M = f.m;
    if (M.common(x)) return;
    const std::string &o = x.op;
    const long r = x.r, a = x.a, b = x.b, k = x.k;
    const double c = x.c;
    auto g = [&](long i) -> adouble & { return M.g(i); };
    auto set = [&](long i, adouble &&v) { M.set(i, std::move(v)); };
    if (o == "new") { M.R[r].reset(); M.R[r].emplace(); return; }
    if (o == "ind") { if (k & 1) { g(r) = c; g(r).declareIndependent(); } else g(r) <<= c; return; }
    if (o == "dep") { double v = -77; if (k & 1) { v = g(r).value(); g(r).declareDependent(); } else g(r) >>= v; out.add(v); return; }
    if (o == "val") { out.add(g(r).value()); return; }
    if (o == "setval") { g(r).value(c); return; }
    if (o == "incpre") { ++g(r); return; }
    if (o == "decpre") { --g(r); return; }
    if (o == "incpost") { set(r, g(a)++); return; }
    if (o == "decpost") { set(r, g(a)--); return; }
    if (o == "cbrt") { if (k & 1) set(r, cbrt(adouble(g(a)))); else set(r, cbrt(g(a))); return; }
    if (o == "log10s") { if (k & 1) set(r, log10(adouble(g(a)))); else set(r, log10(g(a))); g(r) *= std::log(10.0); return; }
    if (o == "erfs") { if (k & 1) set(r, erf(adouble(g(a)))); else set(r, erf(g(a))); g(r) *= SQRTPI_2; return; }
    if (o == "erfcs") { if (k & 1) set(r, erfc(adouble(g(a)))); else set(r, erfc(g(a))); g(r) -= 1.0; g(r) *= SQRTPI_2; return; }
    if (o == "ceil") { if (k & 1) set(r, ceil(adouble(g(a)))); else set(r, ceil(g(a))); return; }
    if (o == "floor") { if (k & 1) set(r, floor(adouble(g(a)))); else set(r, floor(g(a))); return; }
    if (o == "powc") { if (k & 1) set(r, pow(adouble(g(a)), c)); else set(r, pow(g(a), c)); return; }
    if (o == "cpow") { set(r, pow(c, g(a))); return; }
    if (o == "pow") { set(r, pow(g(a), g(b))); return; }
    if (o == "atan2") { set(r, atan2(g(a), g(b))); return; }
#define MM(NAME, F)                                                            \
  if (o == NAME) {                                                             \
    if ((k & 3) == 3) set(r, F(adouble(g(a)), adouble(g(b))));                 \
    else if (k & 1) set(r, F(adouble(g(a)), g(b)));                            \
    else if (k & 2) set(r, F(g(a), adouble(g(b))));                            \
    else set(r, F(g(a), g(b)));                                                \
    return;                                                                    \
  }                                                                            \
  if (o == NAME "c") { if (k & 1) set(r, F(adouble(g(a)), c)); else set(r, F(g(a), c)); return; } \
  if (o == "c" NAME) { if (k & 1) set(r, F(c, adouble(g(a)))); else set(r, F(c, g(a))); return; }
    MM("fmin", fmin)
    MM("fmax", fmax)
    MM("min", min)
    MM("max", max)
#undef MM
    if (o == "ldexp") { if (k < 0) set(r, ldexp(adouble(g(a)), (int)b)); else set(r, ldexp(g(a), (int)b)); return; }
    if (o == "frexp") { // mantissa and exponent, put together again
      int e = 0;
      adouble m = k & 1 ? frexp(adouble(g(a)), &e) : frexp(g(a), &e);
      const double q = std::fabs(m.value());
      out.addi(q == 0 || (q >= 0.5 && q < 1));
      m *= std::ldexp(1.0, e);
      set(r, std::move(m));
      return;
    }
    if (o == "strin") { std::ostringstream os; os.precision(17); os << c; std::istringstream is(os.str()); is >> g(r); return; }
    if (o == "strout") { // what is printed reads as the value
      std::ostringstream os; os.precision(17); os << g(r);
      char *end = nullptr;
      const std::string s = os.str();
      out.add(std::strtod(s.c_str(), &end));
      out.addi(end != s.c_str());
      return;
    }
    if (o == "cond") { condassign(g(r), g(a), g(b), g(k)); return; }
    if (o == "cond2") { condassign(g(r), g(a), g(b)); return; }
    if (o == "condeq") { condeqassign(g(r), g(a), g(b), g(k)); return; }
    if (o == "condeq2") { condeqassign(g(r), g(a), g(b)); return; }
    if (o == "eqp") { g(r) += g(a) * g(b); return; }
    if (o == "eqmp") { g(r) -= g(a) * g(b); return; }
    // comparisons: b = relation, r = number of instructions skipped when false
    if (o == "br") { bool t = rel(k, g(a), g(b)); out.addi(t); if (!t) skip = r; return; }
    if (o == "brc") { bool t = relc(k, g(a), c); out.addi(t); if (!t) skip = r; return; }
    if (o == "cbr") { bool t = crel(k, c, g(a)); out.addi(t); if (!t) skip = r; return; }
    if (o == "vcopy") { // b elements: registers r.. := registers a..  (contiguous block helper)
      currentTape().ensureContiguousLocations(2 * b);
      auto s = std::make_unique<adouble[]>(b), d = std::make_unique<adouble[]>(b);
      for (long i = 0; i < b; ++i) s[i] = g(a + i);
      adolc_vec_copy(d.get(), s.get(), b);
      for (long i = 0; i < b; ++i) set(r + i, adouble(d[i]));
      return;
    }
    if (o == "vover" || o == "vaxpy" || o == "vdot") { // blocks of adjacent variables; results k (or one) registers from r
      long K = o == "vover" ? b : k;
      currentTape().ensureContiguousLocations(3 * K);
      auto s = std::make_unique<adouble[]>(K), d = std::make_unique<adouble[]>(K);
      for (long i = 0; i < K; ++i) d[i] = g(o == "vover" ? a + i : b + i);
      for (long i = 0; i < K; ++i) s[i] = g(o == "vover" ? a + (i + k) % K : a + i);
      if (o == "vdot") { set(r, adolc_vec_dot(s.get(), d.get(), K)); return; }
      std::vector<adouble> q;
      for (long i = 0; i < K; ++i) q.push_back(d[i] * d[(i + 1) % K]);
      if (o == "vover") adolc_vec_copy(d.get(), s.get(), K); else adolc_vec_axpy(d.get(), s[0], s.get(), d.get(), K);
      for (long i = 0; i < K; ++i) set(r + i, q[i] + d[i]);
      return;
    }
    if (o == "avnew") { f.V[r] = std::make_unique<advector>((size_t)a); return; }
    if (o == "avcopy") { f.V[r] = std::make_unique<advector>(*f.V[a]); return; }
    if (o == "avkill") { f.V.erase(r); return; }
    if (o == "avsett") { (*f.V[r])[(size_t)b] = g(a) * c; return; }
    if (o == "avfrom") { std::vector<adouble> w; for (long i = 0; i < b; ++i) w.push_back(g(a + i)); f.V[r] = std::make_unique<advector>(w); return; }
    if (o == "avass") { *f.V[r] = *f.V[a]; return; }
    if (o == "avset") { (*f.V[r])[(size_t)b] = g(a); return; }
    if (o == "avsetc") { (*f.V[r])[(size_t)b] = c; return; }
    if (o == "avind") { (*f.V[r])[(size_t)b] <<= c; return; }
    if (o == "avget") { set(r, adouble((*f.V[a])[(size_t)b])); return; }
    if (o == "rd") { const advector &v = *f.V[a]; set(r, v[g(b)]); return; }       // const read
    if (o == "rdref") { set(r, adouble((*f.V[a])[g(b)])); return; }                // through reference
    if (o == "wr") { (*f.V[r])[g(b)] = g(a); return; }
    if (o == "wrc") { (*f.V[r])[g(b)] = c; return; }
    if (o == "wind") { if (k & 1) { (*f.V[r])[g(b)] = c; (*f.V[r])[g(b)].declareIndependent(); } else (*f.V[r])[g(b)] <<= c; return; }
    if (o == "weqa") { (*f.V[r])[g(b)] += g(a); return; }
    if (o == "weqs") { (*f.V[r])[g(b)] -= g(a); return; }
    if (o == "weqm") { (*f.V[r])[g(b)] *= g(a); return; }
    if (o == "weqd") { (*f.V[r])[g(b)] /= g(a); return; }
    if (o == "weqac") { (*f.V[r])[g(b)] += c; return; }
    if (o == "weqsc") { (*f.V[r])[g(b)] -= c; return; }
    if (o == "weqmc") { (*f.V[r])[g(b)] *= c; return; }
    if (o == "weqdc") { (*f.V[r])[g(b)] /= c; return; }
    if (o == "winc") { if (k == 0) ++(*f.V[r])[g(b)]; else if (k == 1) --(*f.V[r])[g(b)]; else if (k == 2) (*f.V[r])[g(b)]++; else (*f.V[r])[g(b)]--; return; }
    if (o == "wincg") { if (k == 2) set(a, (*f.V[r])[g(b)]++); else set(a, (*f.V[r])[g(b)]--); return; }
    if (o == "wcond") { // V[r][R[b]] = R[a] > 0 ? R[k/1000] : R[k%1000]
      auto &&ref = (*f.V[r])[g(b)];
      condassign(const_cast<adubref &>(static_cast<const adubref &>(ref)), g(a), g(k / 1000), g(k % 1000)); return; }
    if (o == "wcondeq") { auto &&ref = (*f.V[r])[g(b)];
      condeqassign(const_cast<adubref &>(static_cast<const adubref &>(ref)), g(a), g(k / 1000), g(k % 1000)); return; }
    if (o == "wcond2") { auto &&ref = (*f.V[r])[g(b)];
      condassign(const_cast<adubref &>(static_cast<const adubref &>(ref)), g(a), g(k)); return; }
    if (o == "wcondeq2") { auto &&ref = (*f.V[r])[g(b)];
      condeqassign(const_cast<adubref &>(static_cast<const adubref &>(ref)), g(a), g(k)); return; }
    if (o == "avlook") { set(r, f.V[a]->lookupindex(g(b), g(k))); return; }
    // parameters
    if (o == "mkp") { f.P[r] = std::make_unique<pdouble>(c); return; }
    if (o == "newp") { set(r, adouble(*f.P[a])); return; }
    if (o == "asgp") { g(r) = *f.P[a]; return; }
    if (o == "valp") { out.add(f.P[r]->value()); return; }
#define PB(NAME, OP)                                                           \
  if (o == NAME "p") { set(r, g(a) OP *f.P[b]); return; }                      \
  if (o == "p" NAME) { set(r, *f.P[b] OP g(a)); return; }                      \
  if (o == NAME "pc") { set(r, *f.P[b] OP c); return; }                        \
  if (o == NAME "cp") { set(r, c OP *f.P[b]); return; }
    PB("add", +)
    PB("sub", -)
    PB("mul", *)
    PB("div", /)
#undef PB
    if (o == "eqap") { g(r) += *f.P[a]; return; }
    if (o == "eqsp") { g(r) -= *f.P[a]; return; }
    if (o == "eqmp1") { g(r) *= *f.P[a]; return; }
    if (o == "eqdp") { g(r) /= *f.P[a]; return; }
    if (o == "negp") { set(r, -*f.P[a]); return; }
    if (o == "powp") { set(r, pow(g(a), *f.P[b])); return; }
    if (o == "ppow") { set(r, pow(*f.P[b], g(a))); return; }
    if (o == "powpc") { set(r, pow(*f.P[b], c)); return; }
    if (o == "fminp") { set(r, fmin(g(a), *f.P[b])); return; }
    if (o == "pfmin") { set(r, fmin(*f.P[b], g(a))); return; }
    if (o == "fmaxp") { set(r, fmax(g(a), *f.P[b])); return; }
    if (o == "pfmax") { set(r, fmax(*f.P[b], g(a))); return; }
    if (o == "wdep") { double v = -77; if (k & 1) { v = adouble((*f.V[r])[g(b)]).value(); (*f.V[r])[g(b)].declareDependent(); } else (*f.V[r])[g(b)] >>= v; out.add(v); return; }
    if (o == "wrp") { (*f.V[r])[g(b)] = *f.P[a]; return; }
#define PREL(L, R) switch (k) { case 0: t = L < R; break; case 1: t = L <= R; break; case 2: t = L > R; break; case 3: t = L >= R; break; case 4: t = L == R; break; default: t = L != R; }
    if (o == "brp") { bool t; PREL(g(a), *f.P[b]) out.addi(t); if (!t) skip = r; return; }
    if (o == "pbr") { bool t; PREL(*f.P[b], g(a)) out.addi(t); if (!t) skip = r; return; }
#undef PREL
    if (o == "unp") { // unary function of a parameter, selected by k
      const pdouble &p = *f.P[a];
      switch (k) { case 0: set(r, exp(p)); break; case 1: set(r, log(p)); break; case 2: set(r, sqrt(p)); break; case 3: set(r, sin(p)); break;
        case 4: set(r, cos(p)); break; case 5: set(r, tan(p)); break; case 6: set(r, asin(p)); break; case 7: set(r, acos(p)); break;
        case 8: set(r, atan(p)); break; case 9: set(r, sinh(p)); break; case 10: set(r, cosh(p)); break; case 11: set(r, tanh(p)); break;
        case 12: set(r, fabs(p)); break; case 13: set(r, ceil(p)); break; case 14: set(r, floor(p)); break; case 15: set(r, cbrt(p)); break;
        case 16: set(r, asinh(p)); break; case 17: set(r, acosh(p)); break; case 18: set(r, atanh(p)); break; default: throw ScriptError("unp"); }
      return;
    }
    if (xop(f, x, out)) return;
    throw ScriptError("script: unknown op " + o);
  }

  virtual void clear(short t) {
    ValueTape *old = currentTapePtr();
    setCurrentTape(t);
    files.erase(t);
    setCurrentTape(old);
  }

  // a thread ends: its variables go before the tapes of the thread do
  virtual void finish() {
    for (auto &t : tapeBuffer()) clear(t->tapeId());
    for (auto &t : tapeBuffer()) if (t->numLives()) (void)t.release(); // variables held elsewhere
  }

  // --- sweeps -------------------------------------------------------------
  virtual void fwd(Tok &t, Out &o) {
    std::string kind = t.s();
    short tag = (short)t.n();
    int m = (int)t.n(), n = (int)t.n(), d = (int)t.n(), p = (int)t.n(), keep = (int)t.n();
    std::vector<double> x(n + 1), y(m + 1, 9e99);
    for (int i = 0; i < n; ++i) x[i] = t.d();
    std::vector<double> X(n * p * d + 1);
    for (int i = 0; i < n * p * d; ++i) X[i] = t.d(); // [i][dir][deg]
    auto XX = [&](int i, int l, int k) { return X[(i * p + l) * d + k]; };
    std::vector<double> Y(m * p * d + 1, 9e99); // [j][dir][deg]
    bool haveY = d > 0;
    int rc;
    if (kind == "zos") rc = zos_forward(tag, m, n, keep, x.data(), y.data());
        else if (kind == "fx0") rc = forward(tag, m, n, 0, keep, x.data(), y.data());
    else if (kind == "fxk") rc = forward(tag, m, n, keep, x.data(), y.data());
    else if (kind == "fos") {
      std::vector<double> xp(n + 1);
      for (int i = 0; i < n; ++i) xp[i] = XX(i, 0, 0);
      rc = fos_forward(tag, m, n, keep, x.data(), xp.data(), y.data(), Y.data());
    } else if (kind == "hos") {
      M2 A(n, d), B(m, d);
      for (int i = 0; i < n; ++i) for (int k = 0; k < d; ++k) A[i][k] = XX(i, 0, k);
      rc = hos_forward(tag, m, n, d, keep, x.data(), A, y.data(), B);
      for (int j = 0; j < m; ++j) for (int k = 0; k < d; ++k) Y[j * d + k] = B[j][k];
    } else if (kind == "f0" || kind == "f0m1") {
      M2 A(n, d + 1), B(m, d + 1);
      for (int i = 0; i < n; ++i) { A[i][0] = x[i]; for (int k = 0; k < d; ++k) A[i][k + 1] = XX(i, 0, k); }
      rc = kind == "f0" ? forward(tag, m, n, d, keep, (double **)A, (double **)B) : forward(tag, m, n, d, keep, (double **)A, B[0]);
      for (int j = 0; j < m; ++j) { y[j] = B[j][0]; for (int k = 0; k < d; ++k) Y[j * d + k] = B[j][k + 1]; }
    } else if (kind == "fov" || kind == "ffov" || kind == "fovoff") {
      M2 A(n, p), B(m, p);
      for (int i = 0; i < n; ++i) for (int l = 0; l < p; ++l) A[i][l] = XX(i, l, 0);
      if (kind == "fov") rc = fov_forward(tag, m, n, p, x.data(), A, y.data(), B);
      else if (kind == "ffov") rc = forward(tag, m, n, p, x.data(), (const double *const *)(double **)A, y.data(), (double **)B);
      else { // offset variant: keep carries the offset, results land in columns offset.. of a wider matrix
        int off = keep;
        M2 A2(n, p + off), B2(m, p + off);
        for (int i = 0; i < n; ++i) for (int l = 0; l < p; ++l) A2[i][off + l] = XX(i, l, 0);
        rc = fov_offset_forward(tag, m, n, p, off, x.data(), A2, y.data(), B2);
        for (int j = 0; j < m; ++j) for (int l = 0; l < p; ++l) B[j][l] = B2[j][off + l];
        for (int j = 0; j < m; ++j) for (int l = 0; l < off; ++l) if (B2[j][l] != 12345.678) rc = -1000;
      }
      for (int j = 0; j < m; ++j) for (int l = 0; l < p; ++l) Y[j * p + l] = B[j][l];
    } else if (kind == "hov" || kind == "fhov" || kind == "hovwk") {
      M3 A(n, p, d), B(m, p, d);
      for (int i = 0; i < n; ++i) for (int l = 0; l < p; ++l) for (int k = 0; k < d; ++k) A[i][l][k] = XX(i, l, k);
      if (kind == "hov") rc = hov_forward(tag, m, n, d, p, x.data(), A, y.data(), B);
      else if (kind == "fhov") rc = forward(tag, m, n, d, p, x.data(), (const double *const *const *)(double ***)A, y.data(), (double ***)B);
      else rc = hov_wk_forward(tag, m, n, d, keep, p, x.data(), A, y.data(), B);
      for (int j = 0; j < m; ++j) for (int l = 0; l < p; ++l) for (int k = 0; k < d; ++k) Y[(j * p + l) * d + k] = B[j][l][k];
    } else if (kind == "pzos" || kind == "pfos" || kind == "phos" || kind == "pfov" || kind == "phov") {
      // partitioned independents: keep = number of parts; parts are consecutive blocks (sizes follow)
      int np = keep;
      std::vector<int> nd(np);
      for (int i = 0; i < np; ++i) nd[i] = (int)t.n();
      std::vector<std::vector<double>> xs(np);
      std::vector<double *> xp(np);
      { int c = 0; for (int i = 0; i < np; ++i) { for (int j = 0; j < nd[i]; ++j) xs[i].push_back(x[c++]); xs[i].push_back(0); xp[i] = xs[i].data(); } }
      if (kind == "pzos") rc = zos_forward_partx(tag, m, np, nd.data(), xp.data(), y.data());
      else if (kind == "pfos" || kind == "phos") {
        int w = kind == "pfos" ? 2 : d + 1;
        std::vector<std::unique_ptr<M2>> ms; std::vector<double **> q;
        int c = 0;
        for (int i = 0; i < np; ++i) { ms.push_back(std::make_unique<M2>(nd[i], w)); q.push_back(*ms.back());
          for (int j = 0; j < nd[i]; ++j, ++c) { (*ms[i])[j][0] = x[c]; for (int k = 0; k + 1 < w; ++k) (*ms[i])[j][k + 1] = XX(c, 0, k); } }
        M2 B(m, w);
        rc = kind == "pfos" ? fos_forward_partx(tag, m, np, nd.data(), q.data(), B) : hos_forward_partx(tag, m, np, nd.data(), d, q.data(), B);
        for (int j = 0; j < m; ++j) { y[j] = B[j][0]; for (int k = 0; k + 1 < w; ++k) Y[j * d + k] = B[j][k + 1]; }
      } else if (kind == "pfov") {
        std::vector<std::unique_ptr<M2>> ms; std::vector<double **> q;
        int c = 0;
        for (int i = 0; i < np; ++i) { ms.push_back(std::make_unique<M2>(nd[i], p)); q.push_back(*ms.back());
          for (int j = 0; j < nd[i]; ++j, ++c) for (int l = 0; l < p; ++l) (*ms[i])[j][l] = XX(c, l, 0); }
        M2 B(m, p);
        rc = fov_forward_partx(tag, m, np, nd.data(), p, xp.data(), q.data(), y.data(), B);
        for (int j = 0; j < m; ++j) for (int l = 0; l < p; ++l) Y[j * p + l] = B[j][l];
      } else {
        std::vector<std::unique_ptr<M3>> ms; std::vector<double ***> q;
        int c = 0;
        for (int i = 0; i < np; ++i) { ms.push_back(std::make_unique<M3>(nd[i], p, d)); q.push_back(*ms.back());
          for (int j = 0; j < nd[i]; ++j, ++c) for (int l = 0; l < p; ++l) for (int k = 0; k < d; ++k) (*ms[i])[j][l][k] = XX(c, l, k); }
        M3 B(m, p, d);
        rc = hov_forward_partx(tag, m, np, nd.data(), d, p, xp.data(), q.data(), y.data(), B);
        for (int j = 0; j < m; ++j) for (int l = 0; l < p; ++l) for (int k = 0; k < d; ++k) Y[(j * p + l) * d + k] = B[j][l][k];
      }
    } else throw ScriptError("script: fwd kind " + kind);
    o.rcode(rc);
    for (int j = 0; j < m; ++j) o.add(y[j]);
    if (haveY) for (int i = 0; i < m * p * d; ++i) o.add(Y[i]);
  }

  virtual void rev(Tok &t, Out &o) {
    std::string kind = t.s();
    short tag = (short)t.n();
    int m = (int)t.n(), n = (int)t.n(), d = (int)t.n(), q = (int)t.n();
    long nu = t.n();
    std::vector<double> u(nu + 1);
    for (long i = 0; i < nu; ++i) u[i] = t.d();
    int rc;
    std::vector<double> Z((size_t)q * n * (d + 1) + 1, 9e99); // [q][n][d+1]
    auto put = [&](int l, int i, int k, double v) { Z[(l * n + i) * (d + 1) + k] = v; };
    bool nzout = false;
    std::vector<short> nzm((size_t)q * n + 1, -7);
    std::vector<short *> nz(q + 1);
    for (int l = 0; l < q; ++l) nz[l] = nzm.data() + l * n;
    if (kind == "fos") rc = fos_reverse(tag, m, n, u.data(), Z.data());
    else if (kind == "r1") rc = reverse(tag, m, n, 0, (const double *)u.data(), Z.data());
    else if (kind == "r1s") rc = reverse(tag, m, n, 0, u[0], Z.data());
    else if (kind == "hos" || kind == "r0" || kind == "r0s") {
      M2 B(n, d + 1);
      if (kind == "hos") rc = hos_reverse(tag, m, n, d, u.data(), B);
      else if (kind == "r0") rc = reverse(tag, m, n, d, (const double *)u.data(), (double **)B);
      else rc = reverse(tag, m, n, d, u[0], (double **)B);
      for (int i = 0; i < n; ++i) for (int k = 0; k <= d; ++k) put(0, i, k, B[i][k]);
    } else if (kind == "hosti") {
      M2 U(m, d + 1), B(n, d + 1);
      for (int j = 0; j < m; ++j) for (int k = 0; k <= d; ++k) U[j][k] = u[j * (d + 1) + k];
      rc = hos_ti_reverse(tag, m, n, d, U, B);
      for (int i = 0; i < n; ++i) for (int k = 0; k <= d; ++k) put(0, i, k, B[i][k]);
    } else if (kind == "fov" || kind == "rf" || kind == "rf2" || kind == "rfs") {
      M2 U(q, m), B(q, n);
      for (int l = 0; l < q; ++l) for (int j = 0; j < m; ++j) U[l][j] = u[l * m + j];
      if (kind == "fov") rc = fov_reverse(tag, m, n, q, U, B);
      else if (kind == "rf") rc = reverse(tag, m, n, 0, q, (const double *const *)(double **)U, (double **)B);
      else if (kind == "rf2") rc = reverse(tag, m, n, q, (const double *const *)(double **)U, (double **)B);
      else rc = reverse(tag, m, n, 0, q, u.data(), (double **)B);
      for (int l = 0; l < q; ++l) for (int i = 0; i < n; ++i) put(l, i, 0, B[l][i]);
    } else if (kind == "hov" || kind == "rv" || kind == "rvs" || kind == "ri" || kind == "hovnz" || kind == "rvnz") {
      M2 U(q, m);
      M3 B(q, n, d + 1);
      for (int l = 0; l < q; ++l) for (int j = 0; j < m; ++j) U[l][j] = u[(l * m + j) % (nu ? nu : 1)];
      if (kind == "hov") rc = hov_reverse(tag, m, n, d, q, U, B, nullptr);
      else if (kind == "hovnz") { rc = hov_reverse(tag, m, n, d, q, U, B, nz.data()); nzout = true; }
      else if (kind == "rv") rc = reverse(tag, m, n, d, q, (const double *const *)(double **)U, (double ***)B);
      else if (kind == "rvnz") { rc = reverse(tag, m, n, d, q, (const double *const *)(double **)U, (double ***)B, nz.data()); nzout = true; }
      else if (kind == "rvs") rc = reverse(tag, m, n, d, q, u.data(), (double ***)B);
      else rc = reverse(tag, m, n, d, (double ***)B); // identity weights, q = m
      for (int l = 0; l < q; ++l) for (int i = 0; i < n; ++i) for (int k = 0; k <= d; ++k) put(l, i, k, B[l][i][k]);
    } else if (kind == "hovti" || kind == "hovtinz") {
      M3 U(q, m, d + 1), B(q, n, d + 1);
      for (int l = 0; l < q; ++l) for (int j = 0; j < m; ++j) for (int k = 0; k <= d; ++k) U[l][j][k] = u[(l * m + j) * (d + 1) + k];
      nzout = kind == "hovtinz";
      rc = hov_ti_reverse(tag, m, n, d, q, U, B, nzout ? nz.data() : nullptr);
      for (int l = 0; l < q; ++l) for (int i = 0; i < n; ++i) for (int k = 0; k <= d; ++k) put(l, i, k, B[l][i][k]);
    } else if (kind == "hosov") {
      M2 U(m, d + 1);
      M3 B(q, n, d + 1);
      for (int j = 0; j < m; ++j) for (int k = 0; k <= d; ++k) U[j][k] = u[j * (d + 1) + k];
      rc = hos_ov_reverse(tag, m, n, d, q, U, B);
      for (int l = 0; l < q; ++l) for (int i = 0; i < n; ++i) for (int k = 0; k <= d; ++k) put(l, i, k, B[l][i][k]);
    } else throw ScriptError("script: rev kind " + kind);
    o.rcode(rc);
    for (long i = 0; i < (long)q * n * (d + 1); ++i) o.add(Z[i]);
    if (nzout) for (int i = 0; i < q * n; ++i) o.addi(nzm[i]);
  }

  virtual void drv(Tok &t, Out &o) {
    std::string kind = t.s();
    short tag = (short)t.n();
    int m = (int)t.n(), n = (int)t.n(), q = (int)t.n();
    std::vector<double> x(n + 1);
    for (int i = 0; i < n; ++i) x[i] = t.d();
    auto vec = [&](int len) { std::vector<double> v(len + 1); for (int i = 0; i < len; ++i) v[i] = t.d(); return v; };
    auto outv = [&](double *v, int len) { for (int i = 0; i < len; ++i) o.add(v[i]); };
    std::vector<double> y(m + 1, 9e99), g(n + 1, 9e99);
    if (kind == "function") { o.rcode(function(tag, m, n, x.data(), y.data())); outv(y.data(), m); }
    else if (kind == "gradient") { o.rcode(gradient(tag, n, x.data(), g.data())); outv(g.data(), n); }
    else if (kind == "jacobian") { M2 J(m, n); o.rcode(jacobian(tag, m, n, x.data(), J)); for (int j = 0; j < m; ++j) outv(J[j], n); }
    else if (kind == "large_jacobian") { M2 J(m, n); o.rcode(large_jacobian(tag, m, n, q, x.data(), y.data(), J)); outv(y.data(), m); for (int j = 0; j < m; ++j) outv(J[j], n); }
    else if (kind == "vec_jac") { auto u = vec(m); o.rcode(vec_jac(tag, m, n, q, x.data(), u.data(), g.data())); outv(g.data(), n); }
    else if (kind == "jac_vec") { auto v = vec(n); o.rcode(jac_vec(tag, m, n, x.data(), v.data(), y.data())); outv(y.data(), m); }
    else if (kind == "hessian" || kind == "hessian2") { M2 H(n, n); o.rcode(kind == "hessian" ? hessian(tag, n, x.data(), H) : hessian2(tag, n, x.data(), H));
      for (int i = 0; i < n; ++i) outv(H[i], i + 1); }
    else if (kind == "hess_vec") { auto v = vec(n); o.rcode(hess_vec(tag, n, x.data(), v.data(), g.data())); outv(g.data(), n); }
    else if (kind == "hess_mat") { auto v = vec(n * q); M2 V(n, q), W(n, q); for (int i = 0; i < n; ++i) for (int l = 0; l < q; ++l) V[i][l] = v[i * q + l];
      o.rcode(hess_mat(tag, n, q, x.data(), V, W)); for (int i = 0; i < n; ++i) outv(W[i], q); }
    else if (kind == "lagra_hess_vec") { auto v = vec(n); auto u = vec(m); o.rcode(lagra_hess_vec(tag, m, n, x.data(), v.data(), u.data(), g.data())); outv(g.data(), n); }
    else throw ScriptError("script: drv kind " + kind);
  }

  virtual void command(const std::string &c, Tok &t, Out &o, std::function<std::string()> nextline) {
    if (c == "new") { o.addi(createNewTape()); }
    else if (c == "rcfile") { // buffer sizes for the tapes created from here on
      FILE *f = std::fopen(".adolcrc", "w");
      const char *nm[] = {"OBUFSIZE", "LBUFSIZE", "VBUFSIZE", "TBUFSIZE", "INITLIVE"};
      for (int i = 0; t.more() && i < 5; ++i) { long v = t.n(); if (v) std::fprintf(f, "\"%s\" \"%ld\"\n", nm[i], v); }
      std::fclose(f); }
    else if (c == "cur") { setCurrentTape((short)t.n()); }
    else if (c == "on") { short tag = (short)t.n(); int keep = (int)t.n(); o.rcode(trace_on(tag, keep)); }
    else if (c == "on7") { short tag = (short)t.n(); int keep = (int)t.n(); size_t a = t.n(), b = t.n(), v = t.n(), w = t.n(); int sk = (int)t.n();
      o.rcode(trace_on(tag, keep, a, b, v, w, sk)); }
    else if (c == "off") { trace_off((int)t.n()); o.addi(curTag()); }
    else if (c == "clr") { clear((short)t.n()); }
    else if (c == "clrcur") { clear(curTag()); }
    else if (c == "ins") {
      long n = t.n(), skip = 0;
      for (long i = 0; i < n; ++i) {
        Ins x = parse_ins(split(nextline()));
        if (skip > 0) { --skip; continue; }
        exec(x, o, skip);
      }
    } else if (c == "fwd") fwd(t, o);
    else if (c == "rev") rev(t, o);
    else if (c == "drv") drv(t, o);
    else if (c == "setp") { short tag = (short)t.n(); long n = t.n(); std::vector<double> v(n + 1); for (long i = 0; i < n; ++i) v[i] = t.d(); findTape(tag).set_param_vec(tag, n, v.data()); }
    else if (c == "nparam") { o.addi((long)get_num_param((short)t.n())); }
    else if (c == "stats") { auto s = tapestats((short)t.n());
      for (auto w : {TapeInfos::NUM_INDEPENDENTS, TapeInfos::NUM_DEPENDENTS, TapeInfos::NUM_MAX_LIVES, TapeInfos::NUM_TAYS, TapeInfos::NUM_OPERATIONS,
                     TapeInfos::NUM_LOCATIONS, TapeInfos::NUM_VALUES, TapeInfos::NUM_PARAM, TapeInfos::NUM_SWITCHES, TapeInfos::OP_FILE_ACCESS,
                     TapeInfos::LOC_FILE_ACCESS, TapeInfos::VAL_FILE_ACCESS, TapeInfos::NO_MIN_MAX, TapeInfos::NUM_EQ_PROD}) o.addi((long)s[w]); }
    else if (c == "tags") { std::vector<short> v; cachedTraceTags(v); for (auto w : v) o.addi(w); }
    else if (c == "curtag") { o.addi(curTag()); }
    else if (c == "minmax") { short tag = (short)t.n(); if (t.n()) findTape(tag).enableMinMaxUsingAbs(); else findTape(tag).disableMinMaxUsingAbs(); }
    else if (!xcmd(c, t, o)) throw ScriptError("script: unknown command " + c);
  }

  // executes the command at body[i] and advances i
  Out one(const std::vector<std::string> &body, size_t &i) {
    Tok t = split(body[i++]);
    std::string c = t.s();
    Out o;
    size_t save = i;
    long nl = 0;
    if (c == "ins" || c == "tl") { nl = std::stol(t.t[1]); }
    try {
      command(c, t, o, [&]() -> std::string { return body.at(i++); });
    } catch (const ADOLCError::ADOLCError &e) {
      o.err = "ADOLCError";
      o.s.push_back(e.what());
    } catch (const ScriptError &) {
      throw;
    } catch (const std::exception &e) {
      o.err = std::string("std:") + e.what();
    }
    i = save + nl;
    return o;
  }

  void run(const std::vector<std::string> &body, FILE *f) {
    size_t i = 0;
    while (i < body.size()) {
      if (body[i].empty() || body[i][0] == '#') { ++i; continue; }
      try {
        std::fprintf(f, "%s\n", dump(one(body, i)).c_str());
      } catch (const ScriptError &e) {
        std::fprintf(f, "harness %s\n", e.what());
        std::fflush(f);
        _exit(4);
      }
      std::fflush(f);
    }
  }
};
