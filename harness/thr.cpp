// Several threads of one process, each with its own history: executed one call at a time in the
// order of the script ("seq"), or all at once, the k-th calls of all threads together ("free").
#include "core.h"
#include "tl.h"
#include <ADOLC_TB_interface.h>
#include <ADOLC_TL_interface.h>
#include <adolc/adolc.h>
#include <adolc/adtl.h>
#include <adolc/adtl_indo.h>
#include <adolc/checkpointing.h>
#include <adolc/drivers/absnormalform.h>
#include <adolc/drivers/odedrivers.h>
#include <adolc/drivers/psdrivers.h>
#include <adolc/drivers/taylor.h>
#include <adolc/edfclasses.h>
#include <adolc/externfcts.h>
#include <adolc/externfcts2.h>
#include <adolc/fixpoint.h>
#include <adolc/lie/drivers.h>
#include <adolc/revolve.h>
#include <adolc/sparse/sparse_fo_rev.h>
#include <adolc/sparse/sparsedrivers.h>
#include <adolc/sparse/sparsedrivers_c.h>
#include <adolc/tapedoc/tapedoc.h>
extern "C" {
#include <array_handler.h>
}
#include <driver_interface.h>
#include <algorithm>
#include <array>
#include <atomic>
#include <cctype>
#include <condition_variable>
#include <fstream>
#include <functional>
#include <mutex>
#include <set>
#include <span>
#include <thread>
#include <utility>
#include "revdecl.h"

#define main unused_main
namespace h_cp {
#include "cp.cpp"
}
namespace h_ext {
#include "ext.cpp"
#undef G
}
namespace h_fp {
#include "fp.cpp"
}
namespace h_sparse {
#include "sparse.cpp"
}
namespace h_taylor {
#include "taylor.cpp"
}
namespace h_pl {
#include "pl.cpp"
}
namespace h_stats {
#include "stats.cpp"
}
namespace h_cif {
#include "cif.cpp"
}
namespace h_tl {
#include "tl.cpp"
}
namespace h_store {
#include "store.cpp"
#undef all
}
#undef main

struct TlCore : Core {
  void command(const std::string &c, Tok &t, Out &o, std::function<std::string()> nextline) override {
    if (c != "tl") { Core::command(c, t, o, nextline); return; }
    long nl = t.n();
    std::vector<Ins> prog;
    for (long k = 0; k < nl; ++k) prog.push_back(parse_ins(split(nextline())));
    std::string mode = t.s();
    h_tl::tl_eval(mode, t, prog, o);
  }
};

static Core *make(const std::string &kind) {
  if (kind == "core") return new Core;
  if (kind == "cp") return new h_cp::CpCore;
  if (kind == "ext") return new h_ext::ExtCore;
  if (kind == "fp") return new h_fp::FpCore;
  if (kind == "sparse") return new h_sparse::SparseCore;
  if (kind == "taylor") return new h_taylor::TaylorCore;
  if (kind == "pl") return new h_pl::PLCore;
  if (kind == "stats") return new h_stats::StatsCore;
  if (kind == "cif") return new h_cif::CIf;
  if (kind == "tl") return new TlCore;
  if (kind == "store") return new h_store::StoreCore;
  throw ScriptError("script: kind " + kind);
}

struct Cmd { int p; std::vector<std::string> lines; Out out; };

static void die(FILE *f, const char *w) {
  std::fprintf(f, "harness %s\n", w);
  std::fflush(f);
  _exit(4);
}

struct Worker {
  std::thread th;
  std::mutex mu;
  std::condition_variable cv;
  Cmd *job = nullptr;
  bool stop = false;
};

static void perform(Core *&c, Cmd &x, FILE *f) {
  try {
    Tok t = split(x.lines[0]);
    if (t.t[0] == "start") c = make(t.t[1]);
    else if (t.t[0] == "exit") { c->finish(); delete c; c = nullptr; }
    else { size_t i = 0; x.out = c->one(x.lines, i); }
  } catch (const ScriptError &e) { die(f, e.what()); }
}

int main(int argc, char **argv) {
  return run_cases(argc, argv, [](const std::vector<std::string> &b, FILE *f) {
    std::vector<Cmd> cmds;
    std::string mode;
    size_t i = 0;
    int np = 0;
    for (; i < b.size() && b[i].empty(); ++i) {}
    mode = b.at(i++);
    while (i < b.size()) {
      if (b[i].empty()) { ++i; continue; }
      size_t sp = b[i].find(' ');
      Cmd c;
      c.p = std::stoi(b[i].substr(1, sp - 1));
      np = std::max(np, c.p + 1);
      c.lines.push_back(b[i++].substr(sp + 1));
      Tok t = split(c.lines[0]);
      long nl = t.t[0] == "ins" || t.t[0] == "tl" ? std::stol(t.t[1]) : 0;
      for (; nl; --nl) c.lines.push_back(b.at(i++));
      cmds.push_back(std::move(c));
    }
    auto put = [&](const Cmd &c) { std::fprintf(f, "%s\n", dump(c.out).c_str()); std::fflush(f); };
    if (mode == "mode seq") {
      std::vector<std::unique_ptr<Worker>> W(np);
      auto end = [&](int p) {
        if (!W[p]) return;
        { std::lock_guard<std::mutex> g(W[p]->mu); W[p]->stop = true; W[p]->cv.notify_all(); }
        W[p]->th.join();
        W[p].reset();
      };
      for (auto &x : cmds) {
        Tok t = split(x.lines[0]);
        if (t.t[0] == "start") {
          end(x.p);
          W[x.p] = std::make_unique<Worker>();
          Worker *w = W[x.p].get();
          w->th = std::thread([w, f] {
            Core *c = nullptr;
            for (;;) {
              std::unique_lock<std::mutex> g(w->mu);
              w->cv.wait(g, [w] { return w->job || w->stop; });
              if (w->stop) return;
              perform(c, *w->job, f);
              w->job = nullptr;
              w->cv.notify_all();
            }
          });
        }
        Worker *w = W[x.p].get();
        if (!w) die(f, "thread not started");
        std::unique_lock<std::mutex> g(w->mu);
        w->job = &x;
        w->cv.notify_all();
        w->cv.wait(g, [w] { return !w->job; });
        g.unlock();
        if (t.t[0] == "exit") end(x.p);
        put(x);
      }
      for (int p = 0; p < np; ++p) end(p);
    } else {
      // every thread starts once; all threads begin their k-th call together
      std::vector<std::vector<Cmd *>> q(np);
      for (auto &x : cmds) q[x.p].push_back(&x);
      size_t rounds = 0;
      for (auto &v : q) rounds = std::max(rounds, v.size());
      std::atomic<long> arrived{0};
      std::vector<std::thread> T;
      for (int p = 0; p < np; ++p)
        T.emplace_back([&, p] {
          Core *c = nullptr;
          for (size_t k = 0; k < rounds; ++k) {
            ++arrived;
            for (long n = 0; arrived < (long)(np * (k + 1)); ++n) if (n > 2000) std::this_thread::yield();
            if (k < q[p].size()) perform(c, *q[p][k], f);
          }
        });
      for (auto &t : T) t.join();
      for (auto &x : cmds) put(x);
    }
    _exit((std::fprintf(f, "end\n"), std::fflush(f), 0));
  });
}
