#include "core.h"

namespace sim {
void add_cli_worlds();
}
int main(int argc, char** argv) {
  sim::add_cli_worlds();
  return sim::sim_main(argc, argv);
}
