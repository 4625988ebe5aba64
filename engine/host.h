// Runs the program under test (loaded as a shared library) in this process, once
// per case, with every source of nondeterminism owned by the explorer: clock,
// rand(), heap contents, exit(), input files, decision literals. Each run starts
// from the same process image: the library's writable data is restored and all
// memory the previous run allocated is gone.
#pragma once
#include <functional>
#include <string>
#include <vector>

namespace vf {

enum Status { OK, EXITED, CRASHED, HUNG, HORIZON, NOMEM };
const char *status_name(Status s);

struct RunResult {
  Status status = OK;
  int code = 0;            // exit code, or signal number
  std::string out;         // everything the run printed to stdout, in order
  long polls = 0;          // clock reads
  long reads = 0, writes = 0;  // calls on files
  long rands = 0;          // rand() calls
  long decisions = 0;      // calls of the decision hook
  long decisions_at_jump = 0;  // and how many of them before the clock jumped
  bool heap_damage = false;  // a heap block's guard bytes were overwritten
  size_t heap = 0;         // bytes the run allocated
};

// What the environment answers during one run.
struct Env {
  // clock: every read advances the clock by one microsecond; read number
  // jump_at (1-based; 0 = never) and all later ones are jump seconds later.
  long jump_at = 0;
  double jump = 0;
  double clock_start = 0;     // seconds added to every answer of the clock
  int heap_order = 0;         // addresses of new blocks: 0 up, 1 down, 2 a third of them down
  long heap_shift = 0;        // bytes left out at the start of the heap
  long horizon = 0;          // clock reads after which the run is cut (0 = none)
  // rand(): answers, in order; called with the index of the call. Null = 0.
  std::function<int(long)> rnd;
  long rand_horizon = 0;     // rand() calls after which the run is cut
  // decision hook: see /repo/src/Formula.cc. Null = keep the heuristic's choice.
  std::function<int(const int *vars, const int *vals, int n, int var, int eq, int val)> decide;
  // assignment hook. Null = leave the assignment.
  std::function<int(int var, int domain)> assign;
  std::string input;          // what the program can read from stdin
  unsigned char fill = 0xA5;  // what fresh heap memory contains
  int stack_fill = -1;        // what the stack below main() contains (-1: whatever)
  // files: most bytes one read / write transfers (0 = all); number (1-based) of the
  // read / write that fails, and whether the later ones fail as well
  long read_chunk = 0, write_chunk = 0, read_fail = 0, write_fail = 0;
  int fail_errno = 5;
  bool fail_sticky = true;
  int wall_ms = 3000;         // watchdog for code that never reads the clock
};

// Load the library. Several may be loaded; each has its own image.
struct Lib;
Lib *load(const char *path);
bool has_hooks(Lib *);

// Run main(args) of the library. args[0] is supplied.
RunResult run(Lib *lib, const std::vector<std::string> &args, const Env &env);

// A file of the explorer that the program can open by name.
struct MemFile {
  int fd;
  std::string path;
  explicit MemFile(const char *name = "case");
  ~MemFile();
  void set(const std::string &text);
  std::string get() const;
};

}  // namespace vf
