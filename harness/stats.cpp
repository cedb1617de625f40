// Tape statistics and the printed description of a tape.
#include "core.h"
#include <adolc/tapedoc/tapedoc.h>
#include <cctype>
#include <fstream>

static std::string trim(std::string s) {
  auto drop = [](char c) { return std::isspace((unsigned char)c) || c == '$'; };
  while (!s.empty() && drop(s.back())) s.pop_back();
  size_t i = 0;
  while (i < s.size() && drop(s[i])) ++i;
  return s.substr(i);
}

struct StatsCore : Core {
  static size_t ops(short tag) { return tapestats(tag)[TapeInfos::NUM_OPERATIONS]; }

  bool xcmd(const std::string &c, Tok &t, Out &o) override {
    if (c == "tstats") {
      auto st = tapestats((short)t.n());
      for (size_t v : st) o.addi((long)v);
      return true;
    }
    if (c != "doc") return false;
    short tag = t.n();
    int m = t.n(), n = t.n();
    std::vector<double> x(n + 1, 1.0), y(m + 1);
    tape_doc(tag, m, n, x.data(), y.data());
    auto st = tapestats(tag);
    o.addi((long)st[TapeInfos::NUM_OPERATIONS]);
    o.addi((long)st[TapeInfos::NUM_MAX_LIVES]);
    std::ifstream in("tape_" + std::to_string(tag) + ".tex");
    std::string line;
    while (std::getline(in, line)) {
      auto e = line.find("\\\\ \\hline");
      if (e == std::string::npos || line.find("code &") != std::string::npos) continue;
      line = line.substr(0, e);
      std::vector<std::string> cell;
      size_t i = 0;
      for (;;) {
        auto k = line.find('&', i);
        cell.push_back(trim(line.substr(i, k == std::string::npos ? k : k - i)));
        if (k == std::string::npos) break;
        i = k + 1;
      }
      if (cell.size() < 4) continue;
      auto arrow = cell[3].find(" $\\longrightarrow");
      if (arrow == std::string::npos) arrow = cell[3].find(" $");
      o.s.push_back(arrow == std::string::npos ? cell[3] : cell[3].substr(0, arrow));
      o.addi(cell[0].empty() ? -1 : std::stol(cell[0]));
      o.addi(cell[1].empty() ? -1 : std::stol(cell[1]));
      // locations, left aligned, -1 where there is none
      std::vector<long> loc;
      for (size_t k = 4; k < 8 && k < cell.size(); ++k)
        if (!cell[k].empty()) loc.push_back(std::isdigit((unsigned char)cell[k][0]) ? std::stol(cell[k]) : -2);
      loc.resize(4, -1);
      for (long l : loc) o.addi(l);
      std::vector<std::string> cst;
      for (size_t k = 8; k < cell.size(); ++k) if (!cell[k].empty()) cst.push_back(cell[k]);
      cst.resize(2, "0");
      for (auto &q : cst) o.o.push_back(q);
    }
    return true;
  }
};

int main(int argc, char **argv) {
  return run_cases(argc, argv, [](const std::vector<std::string> &b, FILE *f) { auto *c = new StatsCore; c->run(b, f); _exit((std::fprintf(f, "end\n"), std::fflush(f), 0)); });
}
