#include "core.h"
int main(int argc, char **argv) {
  return run_cases(argc, argv, [](const std::vector<std::string> &b, FILE *f) {
    auto *c = new Core;
    c->run(b, f);
    _exit((std::fprintf(f, "end\n"), std::fflush(f), 0));
  });
}
