// File-system operations under control: every change the code under test makes below one directory
// is numbered; the process can be killed before, in the middle of, or given an error at any of them.
#ifndef FSX_H_
#define FSX_H_
#include <cstdint>
#include <string>
#include <vector>

namespace fsx {
enum Mode { OFF, RECORD, CRASH, FAULT };
constexpr int KILLED = 77; // exit status of a process killed at an operation
struct Op {
  char kind[12];
  char path[200]; // relative to the root
  uint64_t size;
  uint32_t mark; // the value of mark() when it happened
  uint8_t quiet; // read-only operation
};
constexpr uint32_t MAXOPS = 20000;
struct Log { // lives in shared memory, so it survives the process
  uint32_t n;       // operations so far
  uint32_t mark;    // last mark set by the harness
  uint32_t faulted; // how many operations were given an error
  char fault_at[256];
  Op op[MAXOPS];
};
// In the process under test:
void start(Log *log, const std::string &root, Mode mode, uint32_t at = 0, int variant = 0);
void stop();
void mark(uint32_t m);
// CRASH variants for a write of n bytes: 0 = nothing of it, 1 = its first half, 2 = all but the last byte.
// FAULT variants: 0 = this operation fails (ENOSPC for writes, EIO otherwise), 1 = this write is cut

// `reads`: also number reads and opens for reading (for FAULT).
extern bool include_reads;
// RECORD mode: called before every modification, and (torn writes) with part of a write done
extern void (*on_op)();
extern void (*on_torn)();
extern bool (*torn_bytes)(const char *path); // true: on_torn after every byte of a write, not only its half and all but its last
void pause(bool p); // inside a hook: operations are neither recorded nor counted
Log *new_log();
int variants(const Op &op, Mode mode); // how many variants the operation has
} // namespace fsx
#endif
