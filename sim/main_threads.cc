#include "core.h"

namespace sim {
void add_thread_worlds();
}
int main(int argc, char** argv) {
  sim::add_thread_worlds();
  return sim::sim_main(argc, argv);
}
