// The small-footprint build behind plain functions (compiled with the namespaces
// of the library and of the simulator renamed).
#include "builds_side.h"

void* min_open() { return new sim::Side; }
void min_close(void* s) { delete (sim::Side*)s; }
const std::vector<std::string>& min_deliver(void* s, const std::string& kind, const uint8_t* p, size_t n, int option) {
  sim::Side& d = *(sim::Side*)s;
  d.deliver(kind, p, n, option, [](const auto&) {});
  return d.out;
}
