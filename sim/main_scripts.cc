#include "core.h"

namespace sim {
void add_script_worlds();
}
int main(int argc, char** argv) {
  sim::add_script_worlds();
  return sim::sim_main(argc, argv);
}
