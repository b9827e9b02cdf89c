// Shared plain-data types of the simulator.  Nothing here includes Boost.Interval.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <cmath>

namespace dst {

// ---------------------------------------------------------------- numbers
// A value of any simulated or hardware number type, exactly.  Floating-like
// types use f; the exact rational type uses n/d.
struct NumV {
  long double f = 0;
  int64_t n = 0, d = 1;
};
inline NumV mkf(long double x) { NumV v; v.f = x; return v; }
inline NumV mkq(int64_t n, int64_t d) { NumV v; v.n = n; v.d = d; v.f = (long double)n / d; return v; }
inline bool sameNum(const NumV &a, const NumV &b) {   // value equality; NaN == NaN, +0 == -0
  if (a.f != a.f || b.f != b.f) return a.f != a.f && b.f != b.f;
  return a.f == b.f && a.n == b.n && a.d == b.d;
}

// ---------------------------------------------------------------- number formats
struct Fmt { int p; long emin, emax; bool rat; bool inf; bool ext = false; };   // ext: intermediate results may be wider

// Run-time knobs of the simulated number type.
struct Toy { int p = 5, emin = -8, emax = 12, ext = 0, pimode = 0; };

enum Mode { RN = 0, RD = 1, RU = 2, RZ = 3 };

// ---------------------------------------------------------------- operations
enum OpId {
#define OP(id, args, res, grp) OP_##id,
#include "ops.def"
#undef OP
  OP_COUNT
};
struct OpInfo { const char *name; const char *args; char res; const char *grp; };
extern const OpInfo opInfo[OP_COUNT];
inline bool opHas(int op, char c) { for (const char *p = opInfo[op].args; *p; ++p) if (*p == c) return true; return false; }
inline bool opGrp(int op, char c) { for (const char *p = opInfo[op].grp; *p; ++p) if (*p == c) return true; return false; }
int opByName(const std::string &);

// ---------------------------------------------------------------- directed primitives
// What the i-th call of a primitive sequence (rnd, rndt, rctl) does: function number and operands.
enum Prim { PR_ADDD, PR_ADDU, PR_SUBD, PR_SUBU, PR_MULD, PR_MULU, PR_DIVD, PR_DIVU, PR_MED, PR_INTD, PR_INTU, PR_SQRTD, PR_SQRTU, PR_TR, PR_N = PR_TR + 28 };
const int PR_FN = 14;   // exp log sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh; PR_TR + 2 * f + up
struct PrimCall { int f; NumV x, y; };
// how rounding objects are combined: alone, inside another, unprotected inside another; calls
// alternating between an outer and an inner one; inner ones for part of the calls
inline int primVariant(int k) { return ((unsigned)k * 2654435761u >> 16) % 7; }
inline PrimCall primCall(int op, int k, int i, const NumV &t, const NumV &s, bool rootOk) {
  int base = op == OP_rnd ? PR_TR : PR_N;
  for (int j = 0; j < i; ++j) k /= base;
  PrimCall c{k % base, i & 1 ? s : t, i & 1 ? t : s};
  if (c.x.f != c.x.f || c.y.f != c.y.f) { c.f = PR_ADDD + (c.f & 1); return c; }
  if ((c.f == PR_DIVD || c.f == PR_DIVU) && c.y.f == 0) c.f = c.f - PR_DIVD + PR_MULD;
  if ((c.f == PR_SQRTD || c.f == PR_SQRTU) && (!rootOk || !(c.x.f > 0))) c.f = c.f - PR_SQRTD + PR_INTD;
  if (c.f >= PR_TR) {   // the documented domains
    long double x = c.x.f, ax = fabsl(x); bool ok = true;
    switch ((c.f - PR_TR) / 2) {
      case 1: ok = x > 0; break;
      case 2: ok = ax <= 6.28L; break;
      case 3: ok = x >= 0 && x <= 6.28L; break;
      case 4: ok = ax <= 1.57L; break;
      case 5: case 6: ok = ax <= 1; break;
      case 12: ok = x >= 1; break;
      case 13: ok = ax < 1; break;
    }
    if (!ok) c.f = PR_ADDD + ((c.f - PR_TR) & 1);
  }
  return c;
}

// ---------------------------------------------------------------- plan
enum StepKind { SK_OP = 0, SK_BEGIN, SK_END, SK_MODE, SK_LOADI, SK_LOADT, SK_NOP, SK_WARM };
enum UType { U_INT = 0, U_UINT, U_FLOAT, U_DOUBLE, U_LDBL, U_LL, U_NT };

const int NREG = 6, NTREG = 4;

struct Step {
  uint8_t kind = SK_NOP;
  uint16_t op = 0;
  uint8_t form = 0;            // 0 protected, 1 unprotected (inside a block)
  uint8_t d = 0, a = 0, b = 0; // interval registers
  uint8_t t = 0, s = 0;        // number registers
  int32_t k = 0;               // integer argument / sub-operation
  uint8_t ut = 0;              // foreign scalar type
  NumV x, y;                   // literals: LOADI [x,y], LOADT x, foreign scalars
  uint8_t emp = 0;             // LOADI: load an empty interval
  uint8_t unwind = 0;          // an exception from this step escapes the current block
  uint8_t share = 0;           // reads operands all threads share: 1 a, 2 b, 4 numbers
};

enum EvKind { EV_SWITCH = 0, EV_THROW, EV_NEST, EV_STREAM };
enum ExKind { XK_CUSTOM = 0, XK_BADALLOC, XK_OVERFLOW, XK_CANCEL, XK_N };

struct Event {
  uint8_t task = 0; uint16_t step = 0;
  uint8_t kind = 0;
  uint32_t at = 0;             // SWITCH/NEST: index among all points of the step; THROW: among throwable points
  uint8_t target = 0;          // SWITCH: task
  uint16_t tag = 0, parent = 0; // NEST: its name; the nested call it interrupts (0: the step itself)
  uint8_t xk = 0;              // THROW: exception kind
  Step nest;                   // NEST: the nested operation (protected)
  int32_t nthrow = -1;         // NEST: throwable point of the nested op that fails
  NumV na[2], nb[2], nt[2];    // NEST: operands
  int32_t sfail = -1;          // STREAM: device fails at this character
  uint8_t smode = 0;           // STREAM: bits, see stream op
};

struct Plan {
  uint64_t seed = 0;           // where it came from (information only)
  int world = 0;
  Toy toy;
  std::vector<std::vector<Step>> prog;
  std::vector<Event> ev;
  int paint = 0;               // what the stack holds where a call will put its variables
};

// ---------------------------------------------------------------- history
enum Outcome { OC_OK = 0, OC_THROW };
enum ExClass {
  EX_NONE = 0, EX_CUSTOM, EX_BADALLOC, EX_OVERFLOW, EX_CANCEL,   // injected, identity in exId
  EX_NATURAL_OVERFLOW,      // raised by the exact number type itself
  EX_POL_EMPTY, EX_POL_NAN, EX_POL_INF,  // raised by a checking policy
  EX_COMPARE,               // comparison_error
  EX_IOS,                   // ios_base::failure
  EX_DEVICE,                // thrown by the simulated device
  EX_OTHER_STD, EX_UNKNOWN
};
const char *exName(int);

struct Rec {
  uint8_t task, form, kind, ut;  // kind: StepKind
  uint16_t step; uint16_t op;
  int16_t nestOf;              // index of the enclosing record, -1 if none
  int8_t outcome; uint8_t ex; int32_t exId;
  uint8_t depth;               // block depth when executed
  uint8_t done;
  uint8_t d, alias;            // alias: 1 b is the left operand, 2 a is, 4 a is b
  int32_t k;
  NumV a[2], b[2], t, s, x, y; // operands as they were when the call started
  NumV dst0[2], dst1[2];       // in-place operations: left operand before / after
  NumV srcA1[2], srcB1[2], srcT1[2]; // operands after
  NumV r[4]; int32_t rb;       // result
  int32_t mode0, mode1;        // rounding mode (or control word summary) around the call
  int32_t live;                // change in live number objects
  uint32_t npt, nthr, narith;  // points reached, throwable points, number operations
  uint32_t fired;              // faults thrown within
  uint32_t dead;               // uses of number objects that did not live
  uint32_t race;               // accesses that conflict with another thread's, unordered
  uint32_t asgFired;           // ... by the assignment of a number
  int32_t firstId;             // identity of the first of them
  uint32_t nested;             // nested operations executed within
  uint32_t switches;           // context switches taken within
  uint64_t tick0, tick1;
  int32_t sfail; uint8_t smode; uint8_t siost; uint8_t siost0;
  uint8_t sflagsSame; uint16_t slen; char stext[200]; uint16_t xlen; char xtext[200];
};

const int NO_OVERLOAD = 9;     // Rec::rb: the library does not compile this documented call
const int MAXREC = 160;
enum RunEnd { RE_RUNNING = 0, RE_OK = 1, RE_STUCK = 2, RE_TERMINATE = 3, RE_HARNESS = 4 };
const int NFK = 21;
enum FaultCount { FC_CUSTOM = 0, FC_BADALLOC, FC_OVERFLOW, FC_CANCEL, FC_SWITCH, FC_NEST, FC_NESTTHROW, FC_DEVICE, FC_DEVTHROW,
                  FC_NAN, FC_EMPTY, FC_MODE, FC_UNWIND, FC_POLICY, FC_MEMSWITCH, FC_MEMNEST, FC_NEST2, FC_WARM, FC_ASSIGN, FC_SHARE, FC_YIELD };
struct History {
  volatile int32_t end;
  volatile int32_t curTask, curStep, curOp, curPoint;
  volatile int32_t nrec;
  uint64_t ticks;
  uint64_t schedHash;
  uint32_t fc[NFK];
  char note[160];
  Rec rec[MAXREC];
};

// ---------------------------------------------------------------- worlds
enum ChkKind { CK_BASE = 0, CK_STRICT, CK_CATCH, CK_CATCHBASE, CK_NOEMPTY, CK_NONAN };
struct WorldInfo {
  const char *name;
  bool sim;        // simulated number type (faults inside number operations possible)
  bool hw;         // hardware FPU modes
  bool rat;        // exact rational
  bool transc;     // transcendental functions available
  bool root;       // sqrt / nth_root available
  bool mem;        // memory-access points available (instrumented build)
  int chk;         // ChkKind
  bool customEx;   // policy throws user-supplied exceptions
  int fmtId;       // 0 toy, 1 float, 2 double, 3 long double, 4 rational
  int libm;        // 0 exact directed (sim or MPFR), 1 real libm, 2 nearest multiple of 2^-30
  bool fpumode;    // has rounding modes at all
};
struct TaskCtx;
struct World {
  WorldInfo info;
  virtual ~World() {}
  virtual bool supports(int op) const = 0;
  virtual void prepare() = 0;                         // before the tasks start
  virtual void runTask(int task) = 0;                 // executes the task's program
  virtual void runNested(const Event &, int nestOf) = 0;
  virtual int getMode() = 0;
  virtual void setMode(int) = 0;
};
extern std::vector<World *> worlds;
struct WorldReg { WorldReg(World *w); };
World *worldByName(const std::string &);
Fmt worldFmt(const WorldInfo &, const Toy &);

} // namespace dst
