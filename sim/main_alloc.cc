#include "core.h"

namespace sim {
void add_alloc_world();
}
int main(int argc, char** argv) {
  sim::add_alloc_world();
  return sim::sim_main(argc, argv);
}
