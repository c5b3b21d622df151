#include "core.h"
namespace sim {
void add_session_worlds();
void add_stream_worlds();
void add_safety_world();
}
int main(int argc, char** argv) {
  // callers run on threads with small stacks: no input may need a deep one
  struct rlimit r;
  if (getrlimit(RLIMIT_STACK, &r) == 0) {
    r.rlim_cur = 1 << 20;
    setrlimit(RLIMIT_STACK, &r);
  }
  sim::add_session_worlds();
  sim::add_stream_worlds();
  sim::add_safety_world();
  return sim::sim_main(argc, argv);
}
