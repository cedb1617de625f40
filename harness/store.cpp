// Life of active variables: creation, copies, moves, containers, slots.
#include "core.h"
#include <algorithm>

struct Group { // n adjacent or separate variables under one name
  int kind = 0; // 0 std::vector, 1 array, 2 advector
  std::unique_ptr<std::vector<adouble>> v;
  std::unique_ptr<adouble[]> a;
  std::unique_ptr<advector> w;
  size_t n = 0;
  size_t size() const { return kind == 0 ? v->size() : kind == 1 ? n : w->size(); }
  adouble &at(size_t i) { return kind == 0 ? (*v)[i] : kind == 1 ? a[i] : (*w)[i]; }
};
struct Objects {
  std::map<long, std::unique_ptr<adouble>> one;
  std::map<long, size_t> raw; // released slots
  std::map<long, Group> grp;
};
// per tape; never destroyed: its variables do not outlive the tapes of a thread that ends
static std::map<short, Objects> &objects() { thread_local auto *m = new std::map<short, Objects>; return *m; }
#define all objects()

struct StoreCore : Core {
  short tag() { return currentTape().tapeId(); }
  adouble &one(long i) {
    auto &O = all[tag()];
    if (i < 100) { auto p = O.one.find(i); if (p == O.one.end()) throw ScriptError("script: no variable"); return *p->second; }
    return O.grp[i / 100].at(i % 100 - 1);
  }
  void report(Out &o, long maxlive) {
    auto &O = all[tag()];
    o.addi(currentTape().numLives()); o.addi(currentTape().storeSize()); o.addi(maxlive);
    for (auto &[i, p] : O.one) { o.addi(i); o.addi(p->loc()); o.add(p->value()); }
    for (auto &[i, l] : O.raw) { o.addi(i); o.addi(l); o.add(adouble::borrow_location(l).value()); }
    for (auto &[g, G] : O.grp) for (size_t i = 0; i < G.size(); ++i) { o.addi(100 * g + i + 1); o.addi(G.at(i).loc()); o.add(G.at(i).value()); }
  }
  void finish() override {
    for (auto &t : tapeBuffer()) {
      setCurrentTape(t->tapeId());
      for (auto &[i, l] : all[t->tapeId()].raw) t->free_loc(l);
      all.erase(t->tapeId());
    }
    Core::finish();
  }
  bool xcmd(const std::string &c, Tok &t, Out &o) override {
    if (c != "mem") return false;
    const std::string op = t.s();
    long maxlive = -1;
    auto &O = all[tag()];
    if (op == "mk") {
      long id = t.n(), n = t.n(), form = t.n(); double v = t.d();
      if (id < 100) { if (form == 0) O.one[id] = std::make_unique<adouble>(v); else O.one[id] = std::make_unique<adouble>(); }
      else {
        Group G;
        if (form == 0) { currentTape().ensureContiguousLocations(n); G.v = std::make_unique<std::vector<adouble>>(n); }
        else if (form == 1) { currentTape().ensureContiguousLocations(n); G.kind = 1; G.n = n; G.a = std::make_unique<adouble[]>(n); }
        else if (form == 2) { G.kind = 2; G.w = std::make_unique<advector>((size_t)n); }
        else if (form == 3) G.v = std::make_unique<std::vector<adouble>>(n);
        else { G.v = std::make_unique<std::vector<adouble>>(); for (long i = 0; i < n; ++i) G.v->push_back(adouble(v)); }
        O.grp[id / 100] = std::move(G);
      }
    } else if (op == "blk") {
      long n = t.n();
      currentTape().ensureContiguousLocations(n);
      for (long i = 0; i < n; ++i) { long id = t.n(); O.one[id] = std::make_unique<adouble>(); }
    } else if (op == "copy") { long a = t.n(), b = t.n(); O.one[a] = std::make_unique<adouble>(one(b)); }
    else if (op == "expr") { long a = t.n(), b = t.n(); double v = t.d(); O.one[a] = std::make_unique<adouble>(one(b) * one(b) + v); }
    else if (op == "rm") { long a = t.n(); if (O.raw.count(a)) { currentTape().free_loc(O.raw[a]); O.raw.erase(a); } else O.one.erase(a); }
    else if (op == "rmg") O.grp.erase(t.n());
    else if (op == "asg") { long a = t.n(), b = t.n(); one(a) = one(b); }
    else if (op == "asgc") { long a = t.n(); one(a) = t.d(); }
    else if (op == "inc") { long a = t.n(); one(a) += t.d(); }
    else if (op == "asgt") { long a = t.n(), b = t.n(); double v = t.d(); one(a) = one(b) * one(b) + v; }
    else if (op == "mv") { long a = t.n(), b = t.n(); one(a) = std::move(one(b)); O.one.erase(b); }
    else if (op == "mvnew") { long a = t.n(), b = t.n(); O.one[a] = std::make_unique<adouble>(std::move(one(b))); O.one.erase(b); }
    else if (op == "swap") { long a = t.n(), b = t.n(); std::swap(one(a), one(b)); }
    else if (op == "push") { auto &v = *O.grp[t.n()].v; v.push_back(adouble(t.d())); }
    else if (op == "pushm") { auto &v = *O.grp[t.n()].v; long b = t.n(); v.push_back(std::move(one(b))); O.one.erase(b); }
    else if (op == "front") { auto &v = *O.grp[t.n()].v; v.insert(v.begin(), adouble(t.d())); }
    else if (op == "erase") { auto &v = *O.grp[t.n()].v; v.erase(v.begin() + (t.n() - 1)); }
    else if (op == "rev") { auto &v = *O.grp[t.n()].v; std::reverse(v.begin(), v.end()); }
    else if (op == "vcopy") { auto &v = *O.grp[t.n()].v; auto &G = O.grp[t.n()]; if (G.kind == 0) v = *G.v; else if (G.kind == 2) v = (const std::vector<adouble> &)*G.w; else v.assign(G.a.get(), G.a.get() + G.n); }
    else if (op == "wr") { auto &w = *O.grp[t.n()].w; long b = t.n(); w[one(b)] = t.d(); }
    else if (op == "rel") { long a = t.n(); O.raw[a] = one(a).release_loc(); O.one.erase(a); }
    else if (op == "gc") { double r = t.d(); currentTape().setStoreManagerControl(r, t.n()); }
    else if (op == "ens") currentTape().ensureContiguousLocations(t.n());
    else if (op == "type") { long k = t.n(); currentTape().setStoreManagerType(k ? StoreManager::ADOLC_LOCATION_SINGLETONS : StoreManager::ADOLC_LOCATION_BLOCKS); }
    else if (op == "trace") trace_on(tag(), t.n());
    else if (op == "untrace") { short g = tag(); trace_off(t.n()); if (tag() != g) throw ScriptError("tape changed"); auto s = tapestats(g); maxlive = (long)s[2]; }
    else if (op == "eval") { double x[1] = {0}, y[1]; zos_forward(tag(), 0, 0, 0, x, y); }
    else if (op != "look") throw ScriptError("script: " + op);
    report(o, maxlive);
    return true;
  }
};

int main(int argc, char **argv) {
  return run_cases(argc, argv, [](const std::vector<std::string> &b, FILE *f) {
    auto *c = new StoreCore;
    c->run(b, f);
    _exit((std::fprintf(f, "end\n"), std::fflush(f), 0));
  });
}
