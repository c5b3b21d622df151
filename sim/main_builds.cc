#include "core.h"

namespace sim {
void add_builds_world();
}
int main(int argc, char** argv) {
  sim::add_builds_world();
  return sim::sim_main(argc, argv);
}
