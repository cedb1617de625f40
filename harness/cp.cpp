// Checkpointed time loops and the schedule generator behind them.
#include "core.h"
#include <adolc/checkpointing.h>
#include <adolc/revolve.h>
#include <utility>

#include "revdecl.h"

struct Slot { int kind = 0; double c = 0; long t = 0; };
static thread_local Slot slots[10];

template <class T> static void step(Slot &s, size_t n, T *y) {
  const double c = s.c;
  std::vector<T> z(y, y + n);
  for (size_t i = 0; i < n; ++i) {
    const size_t j = (i + 1) % n;
    switch (s.kind) {
    case 0: y[i] = c * z[i] - z[i] * z[j] / 8.0 + 0.25; break;
    case 1: y[i] = sin(z[j]) + c * z[i]; break;
    case 2:
      if (z[0] > 0) y[i] = c * z[j] + z[i] * z[0] / 8.0 - 0.5;
      else y[i] = c * z[i] - z[j] * z[0] / 8.0 + 0.5;
      break;
    case 3: y[i] = fabs(z[i]) - 1.0 + c * z[j]; break;
    default: y[i] = c * z[i] + (s.t + 1.0) * z[j] / 4.0; break;
    }
  }
  s.t++;
}
template <int S> int stepA(size_t n, adouble *y) { step(slots[S], n, y); return 1; }
template <int S> int stepD(size_t n, double *y) { step(slots[S], n, y); return 1; }
template <int S> void *save() { return new double[1]{(double)slots[S].t}; }
template <int S> void restore(void *p) { slots[S].t = (long)*(double *)p; }
struct Fns { ADOLC::CP::TimeStepFunction *a; ADOLC::CP::TimeStepFunctionDouble *d; ADOLC::CP::SaveFunction *s; ADOLC::CP::RestoreFunction *r; };
template <size_t... I> static Fns fns_(size_t i, std::index_sequence<I...>) { static const Fns f[] = {{stepA<I>, stepD<I>, save<I>, restore<I>}...}; return f[i]; }
static Fns fns(size_t i) { return fns_(i, std::make_index_sequence<10>()); }

struct CpCore : Core {
  void command(const std::string &c, Tok &t, Out &o, std::function<std::string()> next) override {
    for (auto &s : slots) s.t = 0;
    Core::command(c, t, o, next);
  }

  static void loop(Slot &S, long slot, short outer, long K, long steps, long cps, long bits, adouble *in, adouble *out) {
    Fns f = fns(slot);
    ADOLC::CP::Context ctx(outer, (short)slot, f.a);
    ctx.setDoubleFct(f.d);
    if (S.kind == 4) { ctx.setSaveFct(f.s); ctx.setRestoreFct(f.r); }
    ctx.setNumberOfSteps((int)steps);
    ctx.setNumberOfCheckpoints((int)cps);
    ctx.setDimensionXY((int)K);
    ctx.setInput(in);
    ctx.setOutput(out);
    ctx.setAlwaysRetaping((bits & 2) || S.kind == 4);
    ctx.checkpointing(outer);
  }

  bool xop(File &f, const Ins &x, Out &) override {
    if (x.op != "cp") return false;
    auto &M = f.m;
    const long K = x.b, steps = x.k % 100, cps = x.k / 100 % 100, kind = x.k / 10000 % 10, bits = x.k / 100000 % 10, slot = x.k / 1000000;
    Slot &S = slots[slot];
    S.kind = kind; S.c = x.c; S.t = 0;
    currentTape().ensureContiguousLocations(3 * K);
    std::vector<adouble> s(K), t(K), q;
    for (long i = 0; i < K; ++i) s[i] = M.g(x.a + i);
    for (long i = 0; i < K; ++i) q.push_back(s[i] * s[(i + 1) % K]);
    adouble *out = bits & 1 ? s.data() : t.data();
    loop(S, slot, curTag(), K, steps, cps, bits, s.data(), out);
    for (long i = 0; i < K; ++i)
      if (bits & 1) M.set(x.r + i, q[i] + out[i]); else M.set(x.r + i, q[i] + out[i] * s[i]);
    return true;
  }

  bool xcmd(const std::string &c, Tok &t, Out &o) override {
    if (c == "revolve") {
      int steps = t.n(), snaps = t.n();
      int check = -1, capo = 0, fine = steps, info = 0;
      for (int i = 0; i < 100000; ++i) {
        auto a = revolve(&check, &capo, &fine, snaps, &info);
        o.addi(a); o.addi(check); o.addi(capo); o.addi(fine);
        if (a == revolve_terminate || a == revolve_error) break;
      }
      return true;
    }
    if (c == "maxrange") { int a = t.n(), b = t.n(); o.addi(maxrange(a, b)); return true; }
    if (c == "numforw") { int a = t.n(), b = t.n(); o.addi(numforw(a, b)); return true; }
    if (c == "expense") { int a = t.n(), b = t.n(); o.add(expense(a, b)); return true; }
    if (c == "cperr") { // misuse while recording: none of these may pass silently
      std::string kind = t.s();
      short tag = t.n();
      trace_on(tag);
      bool threw = false;
      {
        currentTape().ensureContiguousLocations(8);
        std::vector<adouble> s(2), w(2);
        s[0] <<= 0.5; s[1] <<= 0.25;
        if (kind == "gap") s[1] = s[0] * s[0];
        if (kind == "outgap") w[0] = s[0] + s[1];
        Fns f = fns(2);
        slots[2] = Slot{0, 0.5, 0};
        try {
          ADOLC::CP::Context ctx(tag, 2, kind == "nofct" ? nullptr : f.a);
          if (kind != "nodouble") ctx.setDoubleFct(f.d);
          ctx.setNumberOfSteps(3); ctx.setNumberOfCheckpoints(2); ctx.setDimensionXY(2);
          if (kind != "noinput") ctx.setInput(s.data());
          ctx.setOutput(kind == "outgap" ? w.data() : s.data());
          ctx.setAlwaysRetaping(false);
          ctx.checkpointing(kind == "mismatch" ? tag + 1 : tag);
        } catch (const ADOLCError::ADOLCError &) { threw = true; }
        double y;
        s[0] >>= y; s[1] >>= y;
      }
      trace_off();
      o.addi(threw);
      return true;
    }
    return false;
  }
};

int main(int argc, char **argv) {
  return run_cases(argc, argv, [](const std::vector<std::string> &b, FILE *f) {
    auto *c = new CpCore;
    c->run(b, f);
    _exit((std::fprintf(f, "end\n"), std::fflush(f), 0));
  });
}
