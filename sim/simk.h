// The simulated kernel under the command-line tool: what the simulator and the
// tool's process share.  The simulator writes the configuration, the traps in the
// tool's process (simkernel.cc) serve its system calls and write the results.
#pragma once
#include <stdint.h>

namespace simk {

enum { kShmFd = 777, kMaxFiles = 12, kMaxFds = 64, kTrace = 6000 };
enum Kind { kRegular, kPipe, kDir, kTty };
enum Role { rNone, rIn, rOut, rErr, rOther };

enum { kInCap = 4 << 20, kFileCap = 8 << 20, kEdges = 1 << 16 };

struct File {
  char name[64];
  uint32_t exists, kind, role;
  uint64_t len;
};

struct Event {
  int32_t nr, fd;
  int64_t arg, res;
};

struct Cfg {
  uint64_t step_budget;
  uint32_t trap_budget;
  // input
  char in_path[64];
  uint32_t in_stdin, in_kind, in_present;
  uint64_t in_len;
  int32_t in_open_errno, in_stat_errno, in_close_errno;
  int32_t in_seek_errno;
  uint32_t in_seek_from, in_seek_times;
  uint64_t in_err_at;
  int32_t in_err_no;
  uint32_t in_err_times;
  uint32_t in_shrink_on;
  uint64_t in_shrink_to;
  uint32_t in_shrink_after;  // system calls on the input before it shrinks
  uint32_t rd_chunk[8], rd_chunks;
  uint64_t rd_eintr;  // bit n: the nth read is interrupted
  // output
  uint32_t out_stdout, out_kind;
  uint32_t out_preexisting;
  int32_t out_open_errno, out_close_errno;
  uint64_t out_close_lose;
  uint64_t out_err_at;
  int32_t out_err_no;
  uint32_t out_err_times;
  uint32_t wr_chunk[8], wr_chunks;
  uint64_t wr_eintr;
  uint32_t sigpipe_ignored;
  // diagnostics
  int32_t err_errno;
  uint32_t err_from, err_short;
};

struct Res {
  uint32_t started, overflow, unsupported, budget_hit;
  uint32_t traps, trace_n;
  uint64_t steps;
  uint32_t edges;
  uint32_t reads, writes, seeks, in_calls, err_writes;
  uint32_t fired_open, fired_seek, fired_stat, fired_read_err, fired_read_short, fired_read_eintr,
      fired_shrink, fired_in_close, fired_out_open, fired_write_err, fired_write_short,
      fired_write_eintr, fired_out_close, fired_err, fired_sigpipe;
  uint64_t last_size;  // what the last size-taking call on the input returned
  uint32_t size_taken;
  uint64_t sim_us;
  Event trace[kTrace];
};

struct Shm {
  Cfg cfg;
  Res res;
  File files[kMaxFiles];  // 0 stdin/input, 1 stdout, 2 stderr, 3.. others
  uint8_t hit[kEdges];
  uint8_t in[kInCap];
  uint8_t data[kMaxFiles][kFileCap];  // contents of the files 1..
};

}  // namespace simk
