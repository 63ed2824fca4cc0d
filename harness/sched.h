// Controlled scheduler for real code: threads are coroutines that switch only
// at synchronisation operations; the code under test is compiled with
// -fsanitize=thread against the runtime in sched.cc, which checks every memory
// access for races (vector clocks) and for use of freed memory.  All
// interleavings of synchronisation operations are explored up to equivalence
// (dynamic partial-order reduction).
#ifndef VERIF_SCHED_H_
#define VERIF_SCHED_H_
#include <functional>
#include <string>
#include <vector>
namespace sched {
static const int kMaxT = 4;
struct Call { long begin = -1, end = -1; };
struct Execution {
  std::vector<int> schedule;  // thread chosen at every scheduling point
  std::string error;          // empty: no race, deadlock, or use after free
  long steps = 0, accesses = 0;
  std::vector<std::vector<Call>> calls;  // per thread, per call: when it began and ended
};
struct Explorer {
  // setup() makes the objects; calls[t][k]() is the k-th call of thread t;
  // finish(e) judges the execution and destroys the objects.  finish returns false to stop.
  std::function<void()> setup;
  std::vector<std::vector<std::function<void()>>> calls;
  std::function<bool(const Execution&)> finish;
  long max_executions = -1;
  bool full = false;  // every schedule, without reduction
  // results
  long executions = 0, steps = 0, accesses = 0;
  bool complete = false;
  void Run();                             // every schedule up to equivalence
  Execution RunOne(const std::vector<int>& schedule);  // one schedule (prefix)
};
// Puts the variables of the code under test back to what they were when the program
// started, so that every execution is a first one.
void Restore();
std::string ShowSchedule(const std::vector<int>& s);
}  // namespace sched
#endif
