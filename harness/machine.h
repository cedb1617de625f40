// Interpreter of straight-line programs over an arbitrary active type T.
// An instruction is: op r a b k c   (r,a,b registers, k integer, c scalar constant)
#pragma once
#include "common.h"

struct Ins {
  std::string op;
  long r, a, b, k;
  double c;
};
inline Ins parse_ins(Tok t) {
  Ins x;
  x.op = t.s();
  x.r = t.n();
  x.a = t.n();
  x.b = t.n();
  x.k = t.n();
  x.c = t.d();
  return x;
}

static const double SQRTPI_2 = 0.88622692545275801364908374167057;

template <class T> struct Machine {
  std::map<long, std::optional<T>> R;
  T &g(long i) {
    auto it = R.find(i);
    if (it == R.end() || !it->second) throw ScriptError("script: dead register");
    return *it->second;
  }
  void set(long i, T &&v) {
    auto &s = R[i];
    if (s) *s = std::move(v); else s.emplace(std::move(v));
  }
  // returns true if the op is one of the type-independent ones
  bool common(const Ins &x) {
    const std::string &o = x.op;
    const long r = x.r, a = x.a, b = x.b, k = x.k;
    const double c = x.c;
    using std::move;
#define L1 T(g(a))
#define BIN(NAME, OP)                                                          \
  if (o == NAME) {                                                             \
    if ((k & 3) == 3) set(r, T(g(a)) OP T(g(b)));                              \
    else if (k & 1) set(r, T(g(a)) OP g(b));                                   \
    else if (k & 2) set(r, g(a) OP T(g(b)));                                   \
    else set(r, g(a) OP g(b));                                                 \
    return true;                                                               \
  }                                                                            \
  if (o == NAME "c") {                                                         \
    if (k & 1) set(r, T(g(a)) OP c); else set(r, g(a) OP c);                   \
    return true;                                                               \
  }                                                                            \
  if (o == "c" NAME) {                                                         \
    if (k & 1) set(r, c OP T(g(a))); else set(r, c OP g(a));                   \
    return true;                                                               \
  }
    BIN("add", +)
    BIN("sub", -)
    BIN("mul", *)
    BIN("div", /)
#undef BIN
#define UN(NAME, F)                                                            \
  if (o == NAME) {                                                             \
    if (k & 1) set(r, F(T(g(a)))); else set(r, F(g(a)));                       \
    return true;                                                               \
  }
    UN("neg", -)
    UN("pos", +)
    UN("sqrt", sqrt)
    UN("exp", exp)
    UN("log", log)
    UN("sin", sin)
    UN("cos", cos)
    UN("tan", tan)
    UN("asin", asin)
    UN("acos", acos)
    UN("atan", atan)
    UN("sinh", sinh)
    UN("cosh", cosh)
    UN("tanh", tanh)
    UN("asinh", asinh)
    UN("acosh", acosh)
    UN("atanh", atanh)
    UN("fabs", fabs)
#undef UN
    if (o == "asg") { g(r) = g(a); return true; }
    if (o == "asgc") { g(r) = c; return true; }
    if (o == "copy") { set(r, T(g(a))); return true; }
    if (o == "newc") { set(r, T(c)); return true; }
    if (o == "kill") { R[r].reset(); return true; }
    if (o == "move") { T t(std::move(g(a))); R[a].reset(); set(r, std::move(t)); return true; }
    if (o == "eqa") { if (k & 1) g(r) += T(g(a)); else g(r) += g(a); return true; }
    if (o == "eqs") { if (k & 1) g(r) -= T(g(a)); else g(r) -= g(a); return true; }
    if (o == "eqm") { g(r) *= g(a); return true; }
    if (o == "eqd") { g(r) /= g(a); return true; }
    if (o == "eqac") { g(r) += c; return true; }
    if (o == "eqsc") { g(r) -= c; return true; }
    if (o == "eqmc") { g(r) *= c; return true; }
    if (o == "eqdc") { g(r) /= c; return true; }
    return false;
  }
};
