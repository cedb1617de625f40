// Traceless harness: runs a program on a traceless number type.
//   tl <number of instructions> <mode> <m> <n> <d> <p> <repeat> <x: n> <X: n*p*d>   followed by the instructions
#pragma once
#include "machine.h"

template <class T> struct TL {
  Machine<T> M;
  std::vector<T> *X = nullptr; // independents, set by the caller
  size_t nx = 0;
  std::vector<T> Y;
  T &g(long i) { return M.g(i); }
  template <class A, class B> static bool rel(long w, const A &a, const B &b) {
    switch (w) { case 0: return a < b; case 1: return a <= b; case 2: return a > b; case 3: return a >= b; case 4: return a == b; default: return a != b; }
  }
  void exec(const Ins &x, Out &out, long &skip) {
    if (M.common(x)) return;
    const std::string &o = x.op;
    const long r = x.r, a = x.a, b = x.b, k = x.k;
    const double c = x.c;
    auto set = [&](long i, T &&v) { M.set(i, std::move(v)); };
    if (o == "new") { M.R[r].reset(); M.R[r].emplace(); return; }
    if (o == "ind") { if (k & 1) set(r, T((*X)[nx++])); else g(r) = (*X)[nx++]; return; }
    if (o == "dep") { Y.push_back(g(r)); return; }
    if (o == "val") { out.add(g(r).getValue()); return; }
    if (o == "setval") { g(r) = T(c); return; }
    if (o == "incpre") { ++g(r); return; }
    if (o == "decpre") { --g(r); return; }
    if (o == "incpost") { set(r, g(a)++); return; }
    if (o == "decpost") { set(r, g(a)--); return; }
    if (o == "cbrt") { set(r, cbrt(g(a))); return; }
    if (o == "log10s") { set(r, log10(g(a))); g(r) *= std::log(10.0); return; }
    if (o == "erfs") { set(r, erf(g(a))); g(r) *= SQRTPI_2; return; }
    if (o == "erfcs") { set(r, erfc(g(a))); g(r) -= 1.0; g(r) *= SQRTPI_2; return; }
    if (o == "ceil") { set(r, ceil(g(a))); return; }
    if (o == "floor") { set(r, floor(g(a))); return; }
    if (o == "powc") { if (k & 1) set(r, pow(T(g(a)), c)); else set(r, pow(g(a), c)); return; }
    if (o == "cpow") { set(r, pow(c, g(a))); return; }
    if (o == "pow") { set(r, pow(g(a), g(b))); return; }
    if (o == "atan2") { set(r, atan2(g(a), g(b))); return; }
    if (o == "fmin") { set(r, fmin(g(a), g(b))); return; }
    if (o == "fmax") { set(r, fmax(g(a), g(b))); return; }
    if (o == "fminc") { set(r, fmin(g(a), c)); return; }
    if (o == "cfmin") { set(r, fmin(c, g(a))); return; }
    if (o == "fmaxc") { set(r, fmax(g(a), c)); return; }
    if (o == "cfmax") { set(r, fmax(c, g(a))); return; }
    if (o == "ldexp") { if (k < 0) set(r, ldexp(g(a), T((double)b))); else set(r, ldexp(g(a), (double)b)); return; }
    if (o == "ldexpr") { set(r, ldexp(g(a), g(b))); return; }
    if (o == "cldexp") { set(r, ldexp(c, g(a))); return; }
    if (o == "frexp") { // mantissa and exponent, put together again
      int e = 0;
      const double v = frexp(g(a), &e), q = std::fabs(v);
      out.addi(q == 0 || (q >= 0.5 && q < 1));
      set(r, T(std::ldexp(v, e)));
      return;
    }
    if (o == "strio") { std::stringstream s; s.precision(17); s << g(a); T q(1.25); s >> q; set(r, std::move(q)); return; }
    if (o == "cond") { condassign(g(r), g(a), g(b), g(k)); return; }
    if (o == "cond2") { condassign(g(r), g(a), g(b)); return; }
    if (o == "condeq") { condeqassign(g(r), g(a), g(b), g(k)); return; }
    if (o == "condeq2") { condeqassign(g(r), g(a), g(b)); return; }
    if (o == "eqp") { g(r) += g(a) * g(b); return; }
    if (o == "eqmp") { g(r) -= g(a) * g(b); return; }
    if (o == "br") { bool t = rel(k, g(a), g(b)); out.addi(t); if (!t) skip = r; return; }
    if (o == "brc") { bool t = rel(k, g(a), c); out.addi(t); if (!t) skip = r; return; }
    if (o == "cbr") { bool t = rel(k, c, g(a)); out.addi(t); if (!t) skip = r; return; }
    throw ScriptError("script: unknown instruction " + o);
  }
  void run(const std::vector<Ins> &prog, std::vector<T> &xs, Out &o) {
    M.R.clear();
    Y.clear();
    X = &xs;
    nx = 0;
    long skip = 0;
    for (auto &x : prog) {
      if (skip > 0) { --skip; continue; }
      exec(x, o, skip);
    }
  }
};

using TlFn = std::function<void(const std::string &mode, Tok &, const std::vector<Ins> &, Out &)>;
inline int tl_main(int argc, char **argv, const TlFn &fn) {
  return run_cases(argc, argv, [&](const std::vector<std::string> &body, FILE *f) {
    for (size_t i = 0; i < body.size();) {
      if (body[i].empty()) { ++i; continue; }
      Tok t = split(body[i++]);
      Out o;
      if (t.s() != "tl") { std::fprintf(f, "harness unknown command\n"); std::fflush(f); _exit(4); }
      long nl = t.n();
      try {
        std::vector<Ins> prog;
        for (long k = 0; k < nl; ++k) prog.push_back(parse_ins(split(body.at(i + k))));
        std::string mode = t.s();
        fn(mode, t, prog, o);
      } catch (const ScriptError &e) {
        std::fprintf(f, "harness %s\n", e.what());
        std::fflush(f);
        _exit(4);
      } catch (const std::exception &e) {
        o.err = std::string("std:") + e.what();
      }
      i += nl;
      std::fprintf(f, "%s\n", dump(o).c_str());
      std::fflush(f);
    }
  });
}
