// Deterministic scheduler and fault injector: the only component that decides
// who runs, where an operation fails and what nests inside it.
#pragma once
#include "core.hpp"
#include <exception>
#include <new>
#include <stdexcept>

namespace dst {

// ---- injected failures -------------------------------------------------
struct FaultCustom : std::exception {
  int id; explicit FaultCustom(int i) : id(i) {}
  const char *what() const noexcept override { return "simulated failure"; }
};
struct FaultBadAlloc : std::bad_alloc { int id; explicit FaultBadAlloc(int i) : id(i) {} };
struct FaultOverflow : std::overflow_error { int id; explicit FaultOverflow(int i) : std::overflow_error("simulated overflow"), id(i) {} };
struct FaultCancel { int id; };                       // not a std::exception
struct NaturalOverflow : std::overflow_error { NaturalOverflow() : std::overflow_error("exact number overflow") {} };
struct DeviceError { int id; };

// ---- per-task state ----------------------------------------------------
struct Frame {
  Frame *up = nullptr;
  int step = -1, rec = -1;
  bool nestedFrame = false;
  int tag = 0;                      // nested frame: name of the event that started it
  int nthrow = -1, xk = 0;          // nested frame: its own failure
  uint32_t dead = 0, race = 0, npt = 0, nthr = 0, narith = 0, fired = 0, asgFired = 0, nested = 0, switches = 0;
  int64_t live0 = 0;
  int firstId = -1;
};
struct TaskCtx {
  int id = 0;
  bool inLib = false;
  int noPre = 0;
  int depth = 0;
  int64_t live = 0;
  int nextId = 1;
  Frame *fr = nullptr;
  uint32_t vc[8] = {};              // happens-before: what this task knows of every task's time
  uint32_t spins = 0;
  std::vector<const Event *> ev;    // this task's events
};
extern thread_local TaskCtx *tc;
extern const Plan *curPlan;
void paintStack();   // gives the memory of the variables of the following call a definite content
extern History *H;

enum PClass { P_ARITH = 0, P_COPY, P_MODE, P_POLICY, P_MEM, P_ASSIGN };
void pointSlow(int cls);
inline void point(int cls) {
  TaskCtx *t = tc;
  if (!t || !t->inLib || t->noPre) return;
  pointSlow(cls);
}
// Every access to memory with static storage duration (and to the operands the tasks share) is
// checked against the other tasks': unordered by locks, guards or atomics means a data race.
extern bool raceOn;
void accessSlow(const void *a, unsigned n, bool write, bool atomic);
inline void access(const void *a, unsigned n, bool write, bool atomic = false) { if (raceOn && tc && tc->inLib) accessSlow(a, n, write, atomic); }
void syncAcquire(const void *a);
void syncRelease(const void *a);
struct NoPre { TaskCtx *t; NoPre() : t(tc) { if (t) ++t->noPre; } ~NoPre() { if (t) --t->noPre; } };
struct OutLib { TaskCtx *t; bool o; OutLib() : t(tc) { if (t) { o = t->inLib; t->inLib = false; } } ~OutLib() { if (t) t->inLib = o; } };

int newRec();                       // index of a fresh record
void beginCall(Frame &, int step, int rec, bool nested);
void endCall(Frame &);
void classify(Rec &);               // call inside catch(...): fills outcome, ex, exId
[[noreturn]] void harnessFail(const char *);
void countFault(int fc);

// Runs one plan in a forked child.  Returns the wait status; history in *h.
struct RunStatus { int end; int sig; };
RunStatus runPlan(const Plan &, History *h);
History *allocHistory();

// hw control words as one summary
int hwMode();            // (mxcsr RC)<<2 | x87 RC   plus x87 precision control <<4
void hwSetMode(int m);   // RN..RZ on both units
unsigned hwSave();       // saves both control words and selects round-to-nearest
void hwRestore(unsigned);
extern thread_local int simMode;

} // namespace dst
