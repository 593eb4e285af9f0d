// Controlled scheduler: one thread at a time, every synchronisation operation is a choice point.
#ifndef MCRT_H_
#define MCRT_H_
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>

namespace mc {
// The body of one execution.  It may create threads freely; `finish` is called after every thread
// has ended, still in the child, to check the outcome.
struct Scenario {
  std::string name;
  std::function<void()> setup; // unscheduled, in the child
  std::function<void()> body;  // scheduled
  std::function<void()> check; // unscheduled, after all threads ended
};
void fail(const std::string &key, const std::string &detail); // report from inside an execution
void outcome(const std::string &s);                           // what this execution observed
void drain();                                                 // wait for all other threads to end
bool active();
void point(void *obj); // a choice point of the harness's own
uint64_t stamp(); // a global event number, invisible to the race detector
int self();
// Explores every schedule with at most `bound` deviations from the default schedule.
// Returns true if the whole space was covered within the budget.
bool explore(const Scenario &s, int bound, int budget_s, uint64_t max_execs = 0);
// Deterministic (default) schedule in the calling process; used by the crash explorer.
void begin();
void end();
extern void (*on_point)(); // called at every choice point (crash explorer)
struct Totals {
  uint64_t execs, points, outcomes, accesses;
};
extern Totals totals;
extern bool detect_races;
extern int policy; // default choice: 0 stay with the running thread, 1 run a new thread at once, 2 round robin,
                   // 3 run a new thread at once, and the newest one when a thread waits or ends
} // namespace mc
#endif
