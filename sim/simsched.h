// Seeded one-at-a-time scheduler for real threads running the real library.
// The library is compiled with -fsanitize=thread but linked against the
// callbacks below instead of the ThreadSanitizer runtime: every memory access,
// atomic operation and basic block of the code under test is a point where the
// scheduler may switch threads, and every access is checked for data races with
// vector clocks.
#pragma once
#include "core.h"

namespace sim {

static const int kMaxThreads = 4;

struct Preempt {  // thread, call number, step inside the call -> next thread
  int thread;
  long call;
  uint64_t step;
  int to;
  int hold;         // boundaries the others get before the thread may continue
  uint64_t repeat;  // >0: switch again every `repeat` steps until the call ends
  int kind = 0;     // what `step` counts: 0 every point, 1 touches of global data
};

struct SchedResult {
  uint64_t steps = 0, switches = 0, fired = 0, accesses = 0, unfired = 0, globals = 0;
  uint64_t trace = 0;  // hash of the sequence of (thread, step) switches
  std::string race;    // first data race, "" if none
  bool stuck = false;
};

// A thread's program: calls, in order.  Each has its place in the default order.
struct Call {
  long order;
  std::function<void()> run;
};

// Runs the programs to completion under the given preemptions.
SchedResult run_threads(const std::vector<std::vector<Call>>& prog,
                        const std::vector<Preempt>& pre);

uint64_t sched_now();  // simulated time: steps executed so far

// Marks the code under test inside a thread.
struct InLib {
  InLib();
  ~InLib();
};

}  // namespace sim
