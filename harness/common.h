// Shared plumbing of the conformance harnesses: token reader, JSON output, case isolation.
#pragma once
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <optional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

struct ScriptError : std::logic_error { using std::logic_error::logic_error; };

struct Tok {
  std::vector<std::string> t;
  size_t i = 0;
  bool more() const { return i < t.size(); }
  const std::string &s() {
    if (i >= t.size()) throw ScriptError("script: missing token");
    return t[i++];
  }
  long n() { return std::stol(s()); }
  double d();
};

inline double rat(const std::string &s) {
  auto k = s.find('/');
  if (k == std::string::npos) return std::strtod(s.c_str(), nullptr);
  return std::strtod(s.substr(0, k).c_str(), nullptr) /
         std::strtod(s.substr(k + 1).c_str(), nullptr);
}
// n/d : rational;  Ln/d : log(n/d);  Ac,s : angle with cosine c and sine s
inline double scalar(const std::string &s) {
  if (s[0] == 'L') return std::log(rat(s.substr(1)));
  if (s[0] == 'A') {
    auto k = s.find(',');
    return std::atan2(rat(s.substr(k + 1)), rat(s.substr(1, k - 1)));
  }
  return rat(s);
}
inline double Tok::d() { return scalar(s()); }

inline Tok split(const std::string &line) {
  Tok r;
  std::istringstream is(line);
  std::string w;
  while (is >> w) r.t.push_back(w);
  return r;
}

inline std::string num(double v) {
  if (std::isnan(v)) return "nan";
  if (std::isinf(v)) return v > 0 ? "inf" : "-inf";
  char b[40];
  std::snprintf(b, sizeof b, "%.17g", v);
  return b;
}

struct Out { // one event's observed outputs
  int rc = -99;
  bool rcset = false;
  std::string err;
  std::vector<std::string> o; // numbers
  std::vector<long> k;        // integers
  std::vector<std::string> s; // strings
  void rcode(int r) { rc = r; rcset = true; }
  void add(double v) { o.push_back(num(v)); }
  void addi(long v) { k.push_back(v); }
};

inline std::string jstr(const std::string &s) {
  std::string r = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if ((unsigned char)c < 32) r += ' ';
    else r += c;
  }
  return r + "\"";
}
inline std::string dump(const Out &x) {
  std::string r = "{\"rc\":" + std::to_string(x.rc) + ",\"err\":" + jstr(x.err) + ",\"o\":[";
  for (size_t i = 0; i < x.o.size(); ++i) r += (i ? ",\"" : "\"") + x.o[i] + "\"";
  r += "],\"k\":[";
  for (size_t i = 0; i < x.k.size(); ++i) r += (i ? "," : "") + std::to_string(x.k[i]);
  r += "],\"s\":[";
  for (size_t i = 0; i < x.s.size(); ++i) r += (i ? "," : "") + jstr(x.s[i]);
  return r + "]}";
}

// matrices for the pointer based interfaces
struct M2 {
  std::vector<double> a;
  std::vector<double *> p;
  M2(size_t r, size_t c, double fill = 12345.678) : a(r * c + 1, fill), p(r + 1) {
    for (size_t i = 0; i < r; ++i) p[i] = a.data() + i * c;
  }
  operator double **() { return p.data(); }
  double *operator[](size_t i) { return p[i]; }
};
struct M3 {
  std::vector<double> a;
  std::vector<double *> p;
  std::vector<double **> q;
  M3(size_t x, size_t y, size_t z, double fill = 12345.678)
      : a(x * y * z + 1, fill), p(x * y + 1), q(x + 1) {
    for (size_t i = 0; i < x * y; ++i) p[i] = a.data() + i * z;
    for (size_t i = 0; i < x; ++i) q[i] = p.data() + i * y;
  }
  operator double ***() { return q.data(); }
  double **operator[](size_t i) { return q[i]; }
};

// Runs every case of a script in its own process; a case that dies yields a "crash" line.
using CaseFn = std::function<void(const std::vector<std::string> &, FILE *)>;
inline int run_cases(int argc, char **argv, const CaseFn &fn) {
  if (argc < 4) { std::fprintf(stderr, "usage: %s script out workdir [shard nshard]\n", argv[0]); return 2; }
  std::ifstream in(argv[1]);
  if (!in) return 2;
  std::string outname = argv[2], wd = argv[3];
  int shard = argc > 5 ? atoi(argv[4]) : 0, ns = argc > 5 ? atoi(argv[5]) : 1;
  std::vector<std::vector<std::string>> cases;
  std::string line;
  while (std::getline(in, line)) {
    if (line.rfind("case ", 0) == 0) cases.emplace_back();
    if (!cases.empty()) cases.back().push_back(line);
  }
  unsigned tmo = getenv("CASE_TIMEOUT") ? atoi(getenv("CASE_TIMEOUT")) : 20;
  int late = 0; // cases that did not end in time: the following get less
  for (size_t i = shard; i < cases.size(); i += ns) {
    std::string dir = wd + "/c" + std::to_string(i);
    mkdir(dir.c_str(), 0700);
    std::fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
      alarm(tmo);
      FILE *f = std::fopen(outname.c_str(), "a");
      if (!f || chdir(dir.c_str()) != 0) _exit(3);
      if (!std::freopen("stdout.txt", "w", stdout) || !std::freopen("stderr.txt", "w", stderr)) _exit(3);
      std::fprintf(f, "%s\n", cases[i][0].c_str());
      std::fflush(f);
      std::vector<std::string> body(cases[i].begin() + 1, cases[i].end());
      fn(body, f);
      std::fprintf(f, "end\n");
      std::fflush(f);
      _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM && ++late >= 2) tmo = std::min(tmo, late >= 6 ? 1u : 4u);
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
      FILE *f = std::fopen(outname.c_str(), "a");
      std::fprintf(f, "crash %d %d\n", WIFSIGNALED(st) ? WTERMSIG(st) : 0, WIFEXITED(st) ? WEXITSTATUS(st) : -1);
      std::fclose(f);
    }
    // remove the scratch directory of the case (files only, one level)
    std::string cmd = "rm -rf '" + dir + "'";
    if (std::system(cmd.c_str()) != 0) return 2;
  }
  return 0;
}
