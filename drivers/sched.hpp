// A deterministic scheduler for multithreaded drivers.  pthread functions are
// interposed: exactly one thread runs at a time, every synchronisation
// operation (and, for code compiled with -fsanitize=thread but linked without
// its runtime, every memory access) is a point where the schedule is decided.
// Deadlocks are decided exactly: no thread can run.
#pragma once
#include <functional>
#include <string>
#include <vector>

namespace vs {

struct Config {
  enum Mode { FIRST, RANDOM, PCT, PREFIX } mode = FIRST;
  unsigned long long seed = 1;
  int switchPerMille = 200;     // RANDOM: chance of a switch at a point
  int depth = 3;                // PCT: number of priority changes
  int steps = 300;              // PCT: expected length
  bool accesses = true;         // memory accesses are scheduling points
  bool trackedOnly = false;     // ... only those to tracked objects
  bool spurious = false;        // condition variables may wake up spuriously
  long maxSteps = 200000;
  std::vector<unsigned char> prefix;
};

// Result of one run, in shared memory.
struct Shared {
  enum { MAXC = 20000, MAXT = 1 << 20 };
  int status;                   // 0 ok, 1 deadlock, 2 hang, 3 crash, 4 misuse
  long nchoice;
  unsigned char n[MAXC], c[MAXC], cur[MAXC];  // alternatives, taken, index of the running thread (255: it was blocked)
  long tlen;
  char text[MAXT];              // the trace, one JSON event per line
};

// Runs body in a forked child under the configuration.
void runForked(const Config& c, Shared* sh, const std::function<void()>& body);
Shared* makeShared();

// --- inside the child ---
void log(const std::string& jsonLine);    // appends to the trace
void point();                             // a scheduling point
void waitFor(const std::function<bool()>& p);  // blocks until p holds
int self();                               // small number of the calling thread
void track(const void* p, size_t n);      // accesses to it are scheduling points also when trackedOnly
void dead(const void* p, size_t n);       // from now on every access to it is an error
void setQuiet(bool q);                    // accesses of this thread are no scheduling points
bool quiet();
struct Quiet { bool o; Quiet(bool q = true) : o(quiet()) { setQuiet(q); } ~Quiet() { setQuiet(o); } };
struct Armed : Quiet { Armed() : Quiet(false) {} };

}  // namespace vs
