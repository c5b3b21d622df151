// What the simulator, the traps in the script's interpreter (scrshim.cc) and the
// stand-in for the tool (scrchild.cc) share: one mapped file per run.
#pragma once
#include <stdint.h>

namespace scr {

enum { kFiles = 100 };

// How the tool behaves when it is asked to read one file.
struct Child {
  char name[32];     // base name of the input
  uint32_t mode;     // 0 as the real tool, 1 dies by `arg`, 2 exits with `arg`, 3 hangs
  uint32_t arg;
  uint64_t keep;     // bytes of its output that still come out
  uint32_t chunk;    // 0: whole writes
  uint32_t runs;     // result: how often it was run
};

struct Shm {
  char dir[200];
  // reading the inputs
  int32_t in_open_errno;
  uint32_t in_open_nth;
  int32_t in_err_no;
  uint64_t in_err_at;
  uint32_t rd_chunk;
  uint64_t rd_eintr;
  // writing the results
  int32_t out_open_errno;
  uint32_t out_open_nth;
  int32_t out_err_no;
  uint64_t out_err_at;
  uint32_t out_err_times;
  uint32_t wr_chunk;
  uint64_t wr_eintr;
  int32_t out_close_errno;
  uint32_t out_close_nth;
  uint32_t out_stdout;   // standard output is a result
  uint32_t crash_at;     // the nth operation on a result file is the last, 0: never
  uint32_t crash_part;   // bytes of that write that are stored
  int32_t err_errno;     // writing diagnostics fails
  uint32_t hang;         // some tool hangs: waiting is simulated
  Child child[kFiles];
  // what happened
  uint32_t started;
  uint32_t in_opens, reads, out_opens, writes, closes, out_ops;
  uint64_t in_bytes, out_bytes;
  uint32_t out_err_left;
  uint32_t fired_in_open, fired_in_err, fired_rd_short, fired_rd_eintr, fired_out_open,
      fired_out_err, fired_wr_short, fired_wr_eintr, fired_out_close, fired_crash, fired_err,
      fired_child, fired_wait;
  int32_t hang_pid;  // the tool that hangs
  uint64_t waited_ms;
  uint64_t hash;  // of the operations on inputs and results, in order
};

}  // namespace scr
