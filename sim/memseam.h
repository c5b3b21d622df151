// The memory seam: every allocation the code under test makes goes through here
// and may be made to fail, or be placed and pre-filled as the scenario says.
#pragma once
#include "core.h"

namespace sim {

struct MemSeam {
  bool on = false;          // the code under test is running
  uint64_t count = 0;       // allocations since reset
  uint64_t fail_at = 0;     // 1-based; 0: never
  uint64_t fail_n = 0;      // how many fail from fail_at on
  uint64_t failed = 0;
  // placement (arena) mode
  bool arena = false;
  bool down = false;
  int fill = 0xbe;          // -1: pseudo-random
  int scrub = 0x5a;         // on release
  uint64_t gap_seed = 0;
  uint8_t* base = nullptr;
  size_t size = 0, used = 0;
  uint64_t rnd = 1;
};
MemSeam& mem();
void arena_reset(uint64_t seed, bool down, int fill, int scrub);
void arena_off();

struct OnMem {
  bool was;
  OnMem() : was(mem().on) { mem().on = true; }
  ~OnMem() { mem().on = was; }
};

}  // namespace sim
