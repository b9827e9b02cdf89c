#include "engine.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <semaphore.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <ucontext.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <dlfcn.h>
#include <ios>
#include <unordered_map>
#include <map>
#include <malloc.h>
#include <sched.h>

namespace dst {

extern Toy toy;
const OpInfo opInfo[OP_COUNT] = {
#define OP(id, args, res, grp) {#id, args, res, grp},
#include "ops.def"
#undef OP
};
int opByName(const std::string &s) {
  for (int i = 0; i < OP_COUNT; ++i) if (s == opInfo[i].name) return i;
  return -1;
}
const char *exName(int e) {
  static const char *n[] = {"none","injected-custom","injected-bad_alloc","injected-overflow","injected-cancel","number-overflow",
    "policy-empty","policy-nan","policy-no-infinity","comparison_error","ios_failure","device-error","other std::exception","unknown"};
  return n[e];
}

__attribute__((init_priority(200))) std::vector<World *> worlds;
WorldReg::WorldReg(World *w) { worlds.push_back(w); }
World *worldByName(const std::string &s) { for (auto w : worlds) if (s == w->info.name) return w; return nullptr; }
Fmt worldFmt(const WorldInfo &w, const Toy &t) {
  bool x87 = strstr(w.name, "_x87") != nullptr;
  switch (w.fmtId) {
    case 1: return {24, -126, 127, false, true, x87};
    case 2: return {53, -1022, 1023, false, true, x87};
    case 3: return {64, -16382, 16383, false, true};
    case 4: return {0, 0, 0, true, false};
  }
  return {t.p, t.emin, t.emax, false, true, t.ext > 0};
}

thread_local TaskCtx *tc = nullptr;
thread_local int simMode = RN;
const Plan *curPlan = nullptr;
History *H = nullptr;
static World *W = nullptr;

// ------------------------------------------------------------ scheduler
static int nTasks = 0;
static sem_t *sems = nullptr;
static sem_t mainSem;
static std::vector<char> finished;

static void hashSched(uint64_t v) { H->schedHash = (H->schedHash ^ v) * 0x100000001b3ull; H->schedHash ^= H->schedHash >> 29; }

static bool switchTo(int target) {
  int me = tc->id;
  if (target < 0 || target >= nTasks || target == me || finished[target]) return false;
  sem_post(&sems[target]);
  while (sem_wait(&sems[me]) != 0) {}
  return true;
}

// ------------------------------------------------------------ data races
bool raceOn = false;
namespace {
extern "C" char __data_start, _end;
struct Cell { uint32_t w = 0, r[8] = {}, ra[8] = {}; uint8_t wt = 0, watomic = 0; };
struct Clock { uint32_t c[8] = {}; };
std::unordered_map<const char *, Cell> *cells;
std::unordered_map<const void *, Clock> *syncs;
std::map<const char *, size_t> *blocks;          // memory allocated by the library
bool busy = false;                               // our own containers allocate
struct Busy { Busy() { busy = true; } ~Busy() { busy = false; } };
bool allocated(const char *p) {
  if (blocks->empty()) return false;
  auto i = blocks->upper_bound(p);
  if (i == blocks->begin()) return false;
  --i;
  return p < i->first + i->second;
}
void heapDied(void *q) {
  if (!tc || busy || blocks->empty()) return;
  auto i = blocks->find((const char *)q);
  if (i == blocks->end()) return;
  Busy b;
  const char *p = i->first; size_t n = i->second;
  if (n < cells->size()) { for (size_t k = 0; k < n; ++k) cells->erase(p + k); }
  else for (auto c = cells->begin(); c != cells->end();) if (c->first >= p && c->first < p + n) c = cells->erase(c); else ++c;
  blocks->erase(i);
}
void heapBorn(void *p, size_t n) { if (tc && tc->inLib && !busy && p) { Busy b; (*blocks)[(const char *)p] = n; } }
}
void accessSlow(const void *a, unsigned n, bool write, bool atomic) {
  const char *p = (const char *)a;
  if ((p < &__data_start || p >= &_end) && !allocated(p)) return;
  Busy busyNow;
  TaskCtx *t = tc;
  bool bad = false;
  for (unsigned i = 0; i < n; ++i) {
    Cell &c = (*cells)[p + i];
    if (c.w && c.wt != t->id && c.w > t->vc[c.wt] && !(atomic && c.watomic)) bad = true;
    if (write) {
      for (int k = 0; k < nTasks; ++k) if (k != t->id && (c.r[k] > t->vc[k] || (!atomic && c.ra[k] > t->vc[k]))) bad = true;
      c.w = t->vc[t->id]; c.wt = t->id; c.watomic = atomic;
    } else (atomic ? c.ra : c.r)[t->id] = t->vc[t->id];
  }
  if (bad && t->fr) ++t->fr->race;
}
void syncAcquire(const void *a) {
  if (!raceOn || !tc) return;
  auto i = syncs->find(a); if (i == syncs->end()) return;
  for (int k = 0; k < nTasks; ++k) if (i->second.c[k] > tc->vc[k]) tc->vc[k] = i->second.c[k];
}
void syncRelease(const void *a) {
  if (!raceOn || !tc) return;
  Busy busyNow;
  Clock &c = (*syncs)[a];
  for (int k = 0; k < nTasks; ++k) if (tc->vc[k] > c.c[k]) c.c[k] = tc->vc[k];
  ++tc->vc[tc->id];
}
// a thread that gives way, or that keeps polling an atomic variable
void yieldTask() {
  TaskCtx *t = tc;
  if (!t || !t->inLib || t->noPre || nTasks < 2) return;
  for (int k = 1; k < nTasks; ++k) if (switchTo((t->id + k) % nTasks)) { countFault(FC_YIELD); if (t->fr) ++t->fr->switches; return; }
}
static void atomicOp(const void *a, unsigned n, bool write, int order) {
  if (!tc || !tc->inLib) return;
  if (++tc->spins % 512 == 0) yieldTask();
  if (order != 0 && order != 3) syncAcquire(a);
  access(a, n, write, true);
  if (write && order >= 3) syncRelease(a);
}

void harnessFail(const char *m) {
  if (H) { strncpy(H->note, m, sizeof H->note - 1); H->end = RE_HARNESS; }
  _exit(79);
}
void countFault(int fc) { if (H) ++H->fc[fc]; }

static void stuck(const char *m) {
  strncpy(H->note, m, sizeof H->note - 1);
  H->end = RE_STUCK;
  _exit(78);
}

void pointSlow(int cls) {
  TaskCtx *t = tc;
  Frame *f = t->fr;
  if (!f) return;
  ++H->ticks;
  uint32_t idx = f->npt++;
  H->curPoint = idx;
  if (cls == P_ARITH) { if (++f->narith > 300000) stuck("more than 300000 number operations in one call"); }
  if (f->npt > 6000000) stuck("more than 6000000 steps in one call");
  bool throwable = cls == P_ARITH || cls == P_COPY || cls == P_POLICY || cls == P_ASSIGN;
  uint32_t tix = throwable ? f->nthr++ : 0;
  const Event *thr = nullptr;
  if (!f->nestedFrame) {
    for (const Event *e : t->ev) {
      if (e->step != f->step || e->parent) continue;
      if (e->kind == EV_SWITCH && e->at == idx) {
        if (switchTo(e->target)) {
          ++f->switches; countFault(FC_SWITCH); if (cls == P_MEM) countFault(FC_MEMSWITCH);
          hashSched(((uint64_t)t->id << 56) ^ ((uint64_t)f->step << 40) ^ idx ^ ((uint64_t)e->target << 48));
        }
      } else if (e->kind == EV_NEST && e->at == idx) {
        ++f->nested; countFault(FC_NEST); if (cls == P_MEM) countFault(FC_MEMNEST);
        hashSched(0x9e37ull ^ ((uint64_t)f->step << 40) ^ idx);
        W->runNested(*e, f->rec);
      } else if (e->kind == EV_THROW && throwable && e->at == tix) thr = e;
    }
  }
  else if (f->tag)
    for (const Event *e : t->ev)
      if (e->kind == EV_NEST && e->parent == f->tag && e->at == idx) {
        ++f->nested; countFault(FC_NEST2);
        hashSched(0x51c3ull ^ ((uint64_t)e->tag << 40) ^ idx);
        W->runNested(*e, f->rec);
      }
  int xk = -1;
  if (thr) xk = thr->xk;
  else if (f->nestedFrame && throwable && f->nthrow >= 0 && (uint32_t)f->nthrow == tix) { xk = f->xk; countFault(FC_NESTTHROW); }
  if (xk >= 0) {
    ++f->fired;
    if (cls == P_ASSIGN) { ++f->asgFired; countFault(FC_ASSIGN); }
    int id = t->id * 100000 + t->nextId++;
    if (f->firstId < 0) f->firstId = id;
    hashSched(0x7f4aull ^ ((uint64_t)f->step << 40) ^ tix);
    if (cls == P_POLICY) countFault(FC_POLICY);
    switch (xk) {
      case XK_CUSTOM: countFault(FC_CUSTOM); throw FaultCustom(id);
      case XK_BADALLOC: countFault(FC_BADALLOC); throw FaultBadAlloc(id);
      case XK_OVERFLOW: countFault(FC_OVERFLOW); throw FaultOverflow(id);
      default: countFault(FC_CANCEL); throw FaultCancel{id};
    }
  }
}

int newRec() {
  int i = H->nrec;
  if (i >= MAXREC) harnessFail("too many records");
  H->nrec = i + 1;
  memset((void *)&H->rec[i], 0, sizeof(Rec));
  H->rec[i].nestOf = -1; H->rec[i].rb = -1; H->rec[i].sfail = -1;
  return i;
}
void beginCall(Frame &f, int step, int rec, bool nested) {
  TaskCtx *t = tc;
  f.up = t->fr; f.step = step; f.rec = rec; f.nestedFrame = nested; f.live0 = t->live;
  t->fr = &f;
  H->curTask = t->id; H->curStep = step; H->curOp = H->rec[rec].op; H->curPoint = -1;
  H->rec[rec].tick0 = ++H->ticks;
}
void endCall(Frame &f) {
  TaskCtx *t = tc;
  t->fr = f.up;
  Rec &r = H->rec[f.rec];
  r.npt = f.npt; r.nthr = f.nthr; r.narith = f.narith; r.fired = f.fired; r.asgFired = f.asgFired; r.firstId = f.firstId; r.nested = f.nested; r.switches = f.switches; r.dead = f.dead; r.race = f.race;
  r.live = (int32_t)(t->live - f.live0);
  r.tick1 = ++H->ticks;
  r.done = 1;
}

static void taskMain(int id) {
  static thread_local TaskCtx ctx;
  ctx.id = id; ctx.vc[id] = 1;
  for (auto &e : curPlan->ev) if (e.task == id) ctx.ev.push_back(&e);
  tc = &ctx;
  simMode = RN; hwSetMode(RN);
  W->runTask(id);
  tc = nullptr;
}
static void *threadMain(void *p) {
  int id = (int)(intptr_t)p;
  while (sem_wait(&sems[id]) != 0) {}
  taskMain(id);
  finished[id] = 1;
  for (int i = 0; i < nTasks; ++i) if (!finished[i]) { sem_post(&sems[i]); return nullptr; }
  sem_post(&mainSem);
  return nullptr;
}

static void onTerminate() {
  H->end = RE_TERMINATE;
  strncpy(H->note, "std::terminate called inside a library call", sizeof H->note - 1);
  _exit(77);
}

// Stacks and histories have fixed addresses: what an uninitialised variable may hold, addresses included,
// is the same in every process that executes the plan.
static const size_t STK = 1 << 20;
static char *fixedMap(uintptr_t at, size_t n, int flags) {
#ifdef MAP_FIXED_NOREPLACE
  void *p = mmap((void *)at, n, PROT_READ | PROT_WRITE, flags | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != MAP_FAILED && p != (void *)at) { munmap(p, n); p = MAP_FAILED; }
  if (p != MAP_FAILED) return (char *)p;
#endif
  void *q = mmap(nullptr, n, PROT_READ | PROT_WRITE, flags | MAP_ANONYMOUS, -1, 0);
  if (q == MAP_FAILED) { perror("mmap"); exit(3); }
  return (char *)q;
}
static char *taskStack(int i) {
  char *p = fixedMap(0x210000000000ull + (uintptr_t)i * 16 * STK, STK, MAP_PRIVATE | MAP_NORESERVE);
  mprotect(p, 4096, PROT_NONE);
  return p;
}
static ucontext_t mainCtx, soloCtx;
static void solo() { taskMain(0); H->end = RE_OK; _exit(0); }

static void childMain() {
  std::set_terminate(onTerminate);
  int fd = open("/dev/null", O_WRONLY);
  if (fd >= 0) dup2(fd, 2);
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  struct itimerval it; memset(&it, 0, sizeof it);
  it.it_value.tv_sec = 10; setitimer(ITIMER_PROF, &it, nullptr);
  it.it_value.tv_sec = 120; setitimer(ITIMER_REAL, &it, nullptr);
  toy = curPlan->toy;
  nTasks = (int)curPlan->prog.size();
  H->end = RE_RUNNING;
  W->prepare();
  if (nTasks == 1) {
    finished.assign(1, 0);
    getcontext(&soloCtx); soloCtx.uc_stack.ss_sp = taskStack(0); soloCtx.uc_stack.ss_size = STK; soloCtx.uc_link = &mainCtx;
    makecontext(&soloCtx, solo, 0); swapcontext(&mainCtx, &soloCtx);
  }
  else {
    finished.assign(nTasks, 0);
    cells = new std::unordered_map<const char *, Cell>; syncs = new std::unordered_map<const void *, Clock>; blocks = new std::map<const char *, size_t>;
    raceOn = W->info.mem && nTasks <= 8;
    sems = new sem_t[nTasks];
    sem_init(&mainSem, 0, 0);
    std::vector<pthread_t> th(nTasks);
    pthread_attr_t at; pthread_attr_init(&at);     for (int i = 0; i < nTasks; ++i) sem_init(&sems[i], 0, 0);
    for (int i = 0; i < nTasks; ++i) if (pthread_attr_setstack(&at, taskStack(i), STK) || pthread_create(&th[i], &at, threadMain, (void *)(intptr_t)i) != 0) harnessFail("pthread_create");
    sem_post(&sems[0]);
    while (sem_wait(&mainSem) != 0) {}
  }
  H->end = RE_OK;
  _exit(0);
}

History *allocHistory() {
  static int n = 0;
  return (History *)fixedMap(0x200000000000ull + (uintptr_t)n++ * (1ull << 30), sizeof(History), MAP_SHARED);
}

// Valid numbers in every format, so that a variable read before it is set yields an ordinary
// value, another one in the executions a call is compared with.
__attribute__((noinline)) void paintStack() {
  uint64_t a[2048];
  uint64_t v = curPlan && curPlan->paint ? 0x8001400000004001ull : 0xc00ac000c00a4000ull;
  if (curPlan && curPlan->paint) v |= 0x4008000000000000ull;
  for (auto &x : a) x = v;
  __asm__ __volatile__("" : : "r"(a) : "memory");
}

RunStatus runPlan(const Plan &p, History *h) {
  memset((void *)h, 0, offsetof(History, rec));
  h->curTask = h->curStep = h->curOp = -1;
  curPlan = &p; H = h; W = worlds[p.world];
  pid_t pid;
  for (int tries = 0; (pid = fork()) < 0; ++tries) { if (tries > 200) { perror("fork"); exit(3); } usleep(20000); }
  if (pid == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); childMain(); }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0) {}
  RunStatus r{h->end, 0};
  if (WIFSIGNALED(st)) r.sig = WTERMSIG(st);
  else if (WIFEXITED(st) && h->end == RE_RUNNING) r.sig = 1000 + WEXITSTATUS(st);
  return r;
}

// ------------------------------------------------------------ hardware modes
static unsigned getMx() { unsigned v; __asm__ __volatile__("stmxcsr %0" : "=m"(v)); return v; }
static void setMx(unsigned v) { __asm__ __volatile__("ldmxcsr %0" : : "m"(v)); }
static unsigned short getCw() { unsigned short v; __asm__ __volatile__("fnstcw %0" : "=m"(v)); return v; }
static void setCw(unsigned short v) { __asm__ __volatile__("fldcw %0" : : "m"(v)); }
int hwMode() { unsigned m = (getMx() >> 13) & 3, c = getCw(); return (int)(((c >> 8) & 3) << 4 | m << 2 | ((c >> 10) & 3)); }
unsigned hwSave() { unsigned r = getMx() << 16 | getCw(); hwSetMode(RN); return r; }
void hwRestore(unsigned r) { setMx(r >> 16); setCw((unsigned short)r); }
void hwSetMode(int m) {
  static const unsigned rc[4] = {0, 1, 2, 3}; // RN, RD, RU, RZ share the hardware encoding
  setMx((getMx() & ~0x6000u) | rc[m] << 13);
  setCw((unsigned short)((getCw() & ~0xc00u) | rc[m] << 10));
}

} // namespace dst

// ------------------------------------------------------------ interposed seams
// The C99 rounding-mode calls of the hardware worlds are scheduling points.
extern "C" int fesetround(int m) {
  dst::point(dst::P_MODE);
  if (m & ~0xc00) return 1;
  dst::setMx((dst::getMx() & ~0x6000u) | ((unsigned)m << 3));
  dst::setCw((unsigned short)((dst::getCw() & ~0xc00u) | (unsigned)m));
  return 0;
}
extern "C" int fegetround(void) { dst::point(dst::P_MODE); return dst::getCw() & 0xc00; }

// Memory the library allocates while threads are simulated takes part in the search for data races.
extern "C" void *__libc_malloc(size_t); extern "C" void __libc_free(void *); extern "C" void *__libc_calloc(size_t, size_t); extern "C" void *__libc_realloc(void *, size_t);
extern "C" void *malloc(size_t n) noexcept { void *p = __libc_malloc(n); if (dst::raceOn) dst::heapBorn(p, n); return p; }
extern "C" void *calloc(size_t a, size_t b) noexcept { void *p = __libc_calloc(a, b); if (dst::raceOn) dst::heapBorn(p, a * b); return p; }
extern "C" void *realloc(void *q, size_t n) noexcept {
  if (dst::raceOn && q) dst::heapDied(q);
  void *p = __libc_realloc(q, n); if (dst::raceOn) dst::heapBorn(p, n); return p; }
extern "C" void free(void *p) noexcept { if (dst::raceOn && p) dst::heapDied(p); __libc_free(p); }

// Static initialisers and locks: never preempted while held, so that real
// blocking primitives cannot deadlock under the baton scheduler.
extern "C" int __cxa_guard_acquire(long long *g) {
  char *c = (char *)g;
  if (__atomic_load_n(c, __ATOMIC_ACQUIRE)) { dst::syncAcquire(g); return 0; }
  if (c[1]) abort();
  c[1] = 1;
  if (dst::tc) ++dst::tc->noPre;
  return 1;
}
extern "C" void __cxa_guard_release(long long *g) {
  char *c = (char *)g; c[1] = 0;
  dst::syncRelease(g);
  __atomic_store_n(c, 1, __ATOMIC_RELEASE);
  if (dst::tc) --dst::tc->noPre;
}
extern "C" void __cxa_guard_abort(long long *g) { ((char *)g)[1] = 0; if (dst::tc) --dst::tc->noPre; }

template<class F> static F nextSym(const char *n) { return (F)dlsym(RTLD_NEXT, n); }
#define LOCKFN(name, type, delta) \
  extern "C" int name(type *m) noexcept { \
    static int (*real)(type *) = nullptr; \
    if (!real) real = nextSym<int (*)(type *)>(#name); \
    bool lib = dst::tc && dst::tc->inLib; \
    if (lib && delta < 0) dst::syncRelease((const void *)m); \
    int r = real(m); \
    if (lib && r == 0) { dst::tc->noPre += delta; if (delta > 0) dst::syncAcquire((const void *)m); } \
    if (lib && r != 0 && ++dst::tc->spins % 512 == 0) dst::yieldTask(); \
    return r; }
LOCKFN(pthread_mutex_lock, pthread_mutex_t, 1)
LOCKFN(pthread_mutex_trylock, pthread_mutex_t, 1)
LOCKFN(pthread_mutex_unlock, pthread_mutex_t, -1)
LOCKFN(pthread_spin_lock, pthread_spinlock_t, 1)
LOCKFN(pthread_spin_trylock, pthread_spinlock_t, 1)
LOCKFN(pthread_spin_unlock, pthread_spinlock_t, -1)
LOCKFN(pthread_rwlock_rdlock, pthread_rwlock_t, 1)
LOCKFN(pthread_rwlock_tryrdlock, pthread_rwlock_t, 1)
LOCKFN(pthread_rwlock_wrlock, pthread_rwlock_t, 1)
LOCKFN(pthread_rwlock_trywrlock, pthread_rwlock_t, 1)
LOCKFN(pthread_rwlock_unlock, pthread_rwlock_t, -1)
extern "C" int pthread_once(pthread_once_t *o, void (*f)()) {
  if (__atomic_load_n(o, __ATOMIC_ACQUIRE) == 2) { dst::syncAcquire(o); return 0; }
  dst::NoPre np;
  f();                                  // an exception leaves it undone
  dst::syncRelease(o);
  __atomic_store_n(o, 2, __ATOMIC_RELEASE);
  return 0;
}
extern "C" int sched_yield() noexcept { dst::yieldTask(); return 0; }

// ------------------------------------------------------------ memory-access points
// Library code in the instrumented worlds is compiled with -fsanitize=thread
// but linked against these functions instead of the sanitizer's run-time.
#define MEMP(n, w) (const void *a) { dst::point(dst::P_MEM); dst::access(a, n, w); }
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
#define RW(n) void __tsan_read##n MEMP(n, false) void __tsan_write##n MEMP(n, true) \
  void __tsan_unaligned_read##n MEMP(n, false) void __tsan_unaligned_write##n MEMP(n, true) \
  void __tsan_read_write##n MEMP(n, true) void __tsan_unaligned_read_write##n MEMP(n, true) \
  void __tsan_volatile_read##n MEMP(n, false) void __tsan_volatile_write##n MEMP(n, true) \
  void __tsan_unaligned_volatile_read##n MEMP(n, false) void __tsan_unaligned_volatile_write##n MEMP(n, true)
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(const void *a, unsigned long n) { dst::point(dst::P_MEM); dst::access(a, n, false); }
void __tsan_write_range(const void *a, unsigned long n) { dst::point(dst::P_MEM); dst::access(a, n, true); }
void *__tsan_memcpy(void *d, const void *s, unsigned long n) { dst::point(dst::P_MEM); dst::access(s, n, false); dst::access(d, n, true); return memcpy(d, s, n); }
void *__tsan_memset(void *d, int c, unsigned long n) { dst::point(dst::P_MEM); dst::access(d, n, true); return memset(d, c, n); }
void *__tsan_memmove(void *d, const void *s, unsigned long n) { dst::point(dst::P_MEM); dst::access(s, n, false); dst::access(d, n, true); return memmove(d, s, n); }
#define AT(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T *a, int o) { dst::point(dst::P_MEM); dst::atomicOp((const void *)a, sizeof(T), false, o); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##bits##_store(volatile T *a, T v, int o) { dst::point(dst::P_MEM); dst::atomicOp((const void *)a, sizeof(T), true, o); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_exchange(volatile T *a, T v, int o) { dst::point(dst::P_MEM); dst::atomicOp((const void *)a, sizeof(T), true, o); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int o) { dst::point(dst::P_MEM); dst::atomicOp((const void *)a, sizeof(T), true, o); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int o) { dst::point(dst::P_MEM); dst::atomicOp((const void *)a, sizeof(T), true, o); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int o) { dst::point(dst::P_MEM); dst::atomicOp((const void *)a, sizeof(T), true, o); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int o) { dst::point(dst::P_MEM); dst::atomicOp((const void *)a, sizeof(T), true, o); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int o) { dst::point(dst::P_MEM); dst::atomicOp((const void *)a, sizeof(T), true, o); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int o) { dst::point(dst::P_MEM); dst::atomicOp((const void *)a, sizeof(T), true, o); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int o, int) { dst::point(dst::P_MEM); dst::atomicOp((const void *)a, sizeof(T), true, o); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int o, int) { dst::point(dst::P_MEM); dst::atomicOp((const void *)a, sizeof(T), true, o); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int o, int) { dst::point(dst::P_MEM); dst::atomicOp((const void *)a, sizeof(T), true, o); __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { dst::syncAcquire(nullptr); dst::syncRelease(nullptr); __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}
}
