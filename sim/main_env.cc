#include "core.h"

namespace sim {
void add_env_world();
}
int main(int argc, char** argv) {
  sim::add_env_world();
  return sim::sim_main(argc, argv);
}
