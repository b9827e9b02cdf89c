// Seeded search over programs, schedules and faults; gating, minimisation,
// replay files and evidence.
#include "check.hpp"
#include "engine.hpp"
#include "plan.hpp"
#include <algorithm>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <sstream>
#include <map>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <functional>

using namespace dst;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static const size_t SLOTS = 1 << 22;
struct Shared {
  std::atomic<uint64_t> plans, sims, ops, judged, ticks, nontrivial, harness, shapes, scheds, full;
  std::atomic<uint64_t> minViol, done, reruns, differ;
  std::atomic<uint64_t> fc[NFK], opn[OP_COUNT], opf[OP_COUNT], world[64], maxArith, maxPts, unprot, nestedN, threads2;
  char note[200];
  std::atomic<uint64_t> nviol, viol[64];   // failing plans: if one does not repeat (the failing code is itself not deterministic) another may
  std::atomic<uint64_t> tab[SLOTS], tab2[SLOTS];
};
static Shared *S;
static bool insert(std::atomic<uint64_t> *tab, uint64_t v) {
  if (!v) v = 1;
  size_t i = (v * 0x9e3779b97f4a7c15ull) >> 42;
  for (int n = 0; n < 64; ++n, i = (i + 1) & (SLOTS - 1)) {
    uint64_t o = tab[i].load(std::memory_order_relaxed);
    if (o == v) return false;
    if (!o) { if (tab[i].compare_exchange_strong(o, v)) return true; if (o == v) return false; }
  }
  return false;   // table full: not counted
}
static uint64_t runSeed(const std::string &prop, uint64_t seed, uint64_t idx) {
  uint64_t h = 0; for (char c : prop) h = h * 131 + c;
  return mix(mix(seed, h), idx);
}
static std::string key(const Issue &i) { return i.what.substr(0, i.what.find(':')); }

static std::string jesc(const std::string &s) {
  std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r;
}

// ------------------------------------------------------------ minimisation
struct Mini {
  std::string prop, k; History *h, *h2; int evals = 0; double t0 = now(); double limit = 25;
  bool fails(const Plan &p) {
    if (now() - t0 > limit) return false;
    ++evals; Eval e; evaluate(prop, p, h, h2, e);
    if (e.harness) return false;
    for (auto &i : e.issues) if (key(i) == k) return true;
    return false;
  }
  static Plan without(const Plan &p, size_t t, size_t from, size_t to) {
    Plan q = p; q.prog[t].erase(q.prog[t].begin() + from, q.prog[t].begin() + to);
    std::vector<Event> ev;
    for (auto e : p.ev) { if (e.task == t) { if (e.step >= from && e.step < to) continue; if (e.step >= to) e.step -= (uint16_t)(to - from); } ev.push_back(e); }
    q.ev = ev; return q;
  }
  Plan run(Plan p) {
    bool progress = true;
    for (int round = 0; round < 4 && progress; ++round) {
      progress = false;
      for (size_t t = 0; t < p.prog.size(); ++t) {
        for (size_t chunk = std::max<size_t>(1, p.prog[t].size() / 2); chunk >= 1; chunk /= 2) {
          for (size_t at = p.prog[t].size(); at > 0;) {
            size_t from = at > chunk ? at - chunk : 0;
            Plan q = without(p, t, from, at);
            if (fails(q)) { p = q; progress = true; }
            at = from;
          }
          if (chunk == 1) break;
        }
      }
      for (size_t chunk = std::max<size_t>(1, p.ev.size() / 2); chunk >= 1; chunk /= 2) {
        for (size_t at = p.ev.size(); at > 0;) {
          size_t from = at > chunk ? at - chunk : 0;
          Plan q = p; q.ev.erase(q.ev.begin() + from, q.ev.begin() + at);
          if (fails(q)) { p = q; progress = true; }
          at = from;
        }
        if (chunk == 1) break;
      }
      while (p.prog.size() > 1 && p.prog.back().empty()) { Plan q = p; q.prog.pop_back(); bool used = false; for (auto &e : q.ev) used |= e.task == q.prog.size(); if (used || !fails(q)) break; p = q; }
    }
    // simpler values
    bool rat = worlds[p.world]->info.rat;
    auto simpler = [&](std::function<NumV *(Plan &)> ref) {
      NumV *cur = ref(p);
      for (int v : {0, 1, -1, 2, -2, 3}) {
        NumV c = rat ? mkq(v, 1) : mkf(v);
        if (sameNum(*cur, c)) break;
        Plan q = p; *ref(q) = c;
        if (fails(q)) { p = q; break; }
      }
    };
    for (size_t t = 0; t < p.prog.size(); ++t) for (size_t i = 0; i < p.prog[t].size(); ++i) {
      int kd = p.prog[t][i].kind;
      if (kd == SK_LOADI || kd == SK_LOADT) simpler([=](Plan &q) { return &q.prog[t][i].x; });
      if (kd == SK_LOADI) simpler([=](Plan &q) { return &q.prog[t][i].y; });
      if (kd == SK_OP && p.prog[t][i].form) { Plan q = p; q.prog[t][i].form = 0; if (fails(q)) p = q; }
      if (kd == SK_OP && p.prog[t][i].unwind) { Plan q = p; q.prog[t][i].unwind = 0; if (fails(q)) p = q; }
      if (kd == SK_OP && p.prog[t][i].share) { Plan q = p; q.prog[t][i].share = 0; if (fails(q)) p = q; }
    }
    if (p.toy.ext) { Plan q = p; q.toy.ext = 0; if (fails(q)) p = q; }
    return p;
  }
};

static std::string replayText(const std::string &prop, const Plan &p, const Eval &e, const History *h) {
  std::ostringstream o;
  o << "# replay: /verif/check.py --replay THIS_FILE (rebuilds from the working tree and runs exactly this schedule and fault trace)\n";
  o << "property " << prop << "\nhash " << e.hash << '\n';
  for (auto &i : e.issues) o << "# violation: " << i.what << '\n';
  o << planText(p);
  std::istringstream is(historyText(p, h)); std::string l;
  o << "# history:\n"; while (std::getline(is, l)) o << "# " << l << '\n';
  return o.str();
}

static int doReplay(const char *path, bool verbose) {
  std::ifstream in(path); std::stringstream ss; ss << in.rdbuf(); std::string text = ss.str(), err, prop; uint64_t hash = 0;
  std::istringstream is(text); std::string l;
  while (std::getline(is, l)) { std::istringstream ls(l); std::string k; ls >> k; if (k == "property") ls >> prop; else if (k == "hash") ls >> hash; }
  Plan p; if (!planParse(text, p, err) || prop.empty()) { fprintf(stderr, "cannot read %s: %s\n", path, err.c_str()); return 3; }
  History *h = allocHistory(), *h2 = allocHistory();
  Eval e; evaluate(prop, p, h, h2, e);
  if (verbose) printf("%s", historyText(p, h).c_str());
  printf("history hash %llu %s\n", (unsigned long long)e.hash, hash == e.hash ? "(as recorded)" : "(differs from the recorded one)");
  if (e.harness) { printf("harness: %s\n", e.harnessNote.c_str()); return 3; }
  for (auto &i : e.issues) printf("violation: %s\n", i.what.c_str());
  if (e.issues.empty()) { printf("property %s held\n", prop.c_str()); return 0; }
  printf("VIOLATION property=%s replay=%s\n", prop.c_str(), path);
  return hash == e.hash ? 1 : 4;
}

int main(int argc, char **argv) {
  if (argc < 3) { fprintf(stderr, "usage: dst run PROP --seed N --runs R --cap SEC --workers W --out FILE --replays DIR --tier T | replay FILE | show FILE | hash PROP SEED FROM COUNT | worlds -\n"); return 3; }
  int per = personality(0xffffffff);
  if (per != -1 && !(per & ADDR_NO_RANDOMIZE) && !getenv("DST_REEXEC")) {
    setenv("DST_REEXEC", "1", 1);
    if (personality(per | ADDR_NO_RANDOMIZE) != -1) { char self[4096]; ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1); if (n > 0) { self[n] = 0; execv(self, argv); } }
  }
  std::string cmd = argv[1], prop = argv[2];
  std::sort(worlds.begin(), worlds.end(), [](World *a, World *b) { return strcmp(a->info.name, b->info.name) < 0; });
  if (cmd == "replay" || cmd == "show") return doReplay(argv[2], cmd == "show");
  if (cmd == "worlds") { for (auto w : worlds) printf("%s%s\n", w->info.name, w->info.mem ? " (memory points)" : ""); return 0; }
  if (cmd == "hash") {
    uint64_t seed = strtoull(argv[3], 0, 10), from = strtoull(argv[4], 0, 10), n = strtoull(argv[5], 0, 10);
    History *h = allocHistory(), *h2 = allocHistory();
    for (uint64_t i = from; i < from + n; ++i) { Plan p = genPlan(prop, runSeed(prop, seed, i), h); Eval e; evaluate(prop, p, h, h2, e); printf("%llu %016llx %zu\n", (unsigned long long)i, (unsigned long long)e.hash, e.issues.size()); }
    return 0;
  }
  if (cmd == "plan") {
    uint64_t seed = strtoull(argv[3], 0, 10), idx = strtoull(argv[4], 0, 10);
    History *h = allocHistory(), *h2 = allocHistory();
    Plan p = genPlan(prop, runSeed(prop, seed, idx), h); Eval e; evaluate(prop, p, h, h2, e); printf("%s", replayText(prop, p, e, h).c_str()); return 0;
  }
  uint64_t seed = 1, runs = 20000; double cap = 240; int workers = 8; std::string out, rdir = ".", tier = "quick";
  bool all = false;
  for (int i = 3; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--all") { all = true; continue; }
    if (i + 1 >= argc) break;
    const char *v = argv[++i];
    if (a == "--seed") seed = strtoull(v, 0, 10); else if (a == "--runs") runs = strtoull(v, 0, 10); else if (a == "--cap") cap = atof(v);
    else if (a == "--workers") workers = atoi(v); else if (a == "--out") out = v; else if (a == "--replays") rdir = v; else if (a == "--tier") tier = v;
  }
  S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (S == MAP_FAILED) { perror("mmap"); return 3; }
  S->minViol = UINT64_MAX;
  printf("property %s seed %llu runs %llu workers %d\n", prop.c_str(), (unsigned long long)seed, (unsigned long long)runs, workers); fflush(stdout);
  double t0 = now();
  std::vector<pid_t> pids;
  for (int wk = 0; wk < workers; ++wk) {
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); return 3; }
    if (pid == 0) {
      History *h = allocHistory(), *h2 = allocHistory();
      std::map<std::string, int> seen;
      for (uint64_t i = wk; i < runs; i += workers) {
        if (now() - t0 > cap) break;
        if (!all && i > S->minViol.load()) break;
        Plan p = genPlan(prop, runSeed(prop, seed, i), h);
        Eval e; evaluate(prop, p, h, h2, e);
        if (i % 61 == 7 && e.issues.empty()) { Eval e2; evaluate(prop, p, h, h2, e2); ++S->reruns; if (e2.hash != e.hash) ++S->differ; }
        ++S->plans; S->sims += e.runs + 1; S->ops += e.ops; S->judged += e.judged; S->ticks += h->ticks; ++S->world[p.world];
        if (p.prog.size() > 1) ++S->threads2;
        for (int k = 0; k < NFK; ++k) S->fc[k] += h->fc[k];
        uint64_t ma = 0, mp = 0;
        for (int k = 0; k < h->nrec; ++k) { const Rec &r = h->rec[k]; if (r.kind != SK_OP || r.op >= OP_COUNT) continue; ++S->opn[r.op]; if (r.fired) ++S->opf[r.op]; if (r.form) ++S->unprot; if (r.nestOf >= 0) ++S->nestedN; ma = std::max<uint64_t>(ma, r.narith); mp = std::max<uint64_t>(mp, r.npt); }
        for (uint64_t c = S->maxArith; ma > c && !S->maxArith.compare_exchange_weak(c, ma);) {}
        for (uint64_t c = S->maxPts; mp > c && !S->maxPts.compare_exchange_weak(c, mp);) {}
        if (e.harness) { ++S->harness; strncpy(S->note, e.harnessNote.c_str(), sizeof S->note - 1); continue; }
        if (e.nontrivial) { ++S->nontrivial; if (insert(S->tab, e.shape)) ++S->shapes; if (insert(S->tab2, h->schedHash)) ++S->scheds; }
        if (!e.issues.empty()) {
          if (all) { for (auto &is : e.issues) if (seen[key(is)]++ < 3) { printf("[%llu] %s: %s\n", (unsigned long long)i, is.prop.c_str(), is.what.c_str()); fflush(stdout); } continue; }
          uint64_t at = S->nviol++; if (at < 64) S->viol[at] = i + 1;
          uint64_t m = S->minViol; while (i < m && !S->minViol.compare_exchange_weak(m, i)) {}
        }
      }
      fflush(stdout); _exit(0);
    }
    pids.push_back(pid);
  }
  bool workerFail = false;
  for (pid_t p : pids) { int st; while (waitpid(p, &st, 0) < 0) {} if (!WIFEXITED(st) || WEXITSTATUS(st)) workerFail = true; }
  double wall = now() - t0;
  History *h = allocHistory(), *h2 = allocHistory();
  int rc = 0; int violations = 0; std::string vmsg;
  if (S->minViol.load() != UINT64_MAX) {
    std::vector<uint64_t> cand;
    for (uint64_t k = 0; k < 64 && k < S->nviol; ++k) if (S->viol[k]) cand.push_back(S->viol[k] - 1);
    std::sort(cand.begin(), cand.end());
    uint64_t idx = S->minViol; Plan p; Eval e1, e2;
    for (uint64_t c : cand) {
      idx = c; p = genPlan(prop, runSeed(prop, seed, idx), h); e1 = Eval(); e2 = Eval();
      evaluate(prop, p, h, h2, e1); evaluate(prop, p, h, h2, e2);
      if (!e1.issues.empty() && !e2.issues.empty() && e1.hash == e2.hash && key(e1.issues[0]) == key(e2.issues[0])) break;
    }
    if (e1.issues.empty() || e2.issues.empty() || e1.hash != e2.hash || key(e1.issues[0]) != key(e2.issues[0])) {
      printf("ERROR: run %llu failed once but does not repeat (hashes %llx %llx)\n", (unsigned long long)idx, (unsigned long long)e1.hash, (unsigned long long)e2.hash);
      rc = 2;
    } else {
      Mini m; m.prop = prop; m.k = key(e1.issues[0]); m.h = h; m.h2 = h2;
      Plan q = m.run(p);
      auto emit = [&](const Plan &pl, std::string &path) {
        Eval a, b; evaluate(prop, pl, h, h2, a); std::string txt = replayText(prop, pl, a, h); evaluate(prop, pl, h, h2, b);
        if (a.issues.empty() || a.hash != b.hash || b.issues.empty()) return false;
        mkdir(rdir.c_str(), 0777);
        char n[64]; snprintf(n, sizeof n, "/%s-%016llx.replay", prop.c_str(), (unsigned long long)a.hash); path = rdir + n;
        { std::ofstream f(path); f << txt; }
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) { freopen("/dev/null", "w", stdout); char self[4096]; ssize_t k = readlink("/proc/self/exe", self, sizeof self - 1); self[k] = 0; execl(self, self, "replay", path.c_str(), (char *)nullptr); _exit(99); }
        int st; while (waitpid(pid, &st, 0) < 0) {}
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 1) return false;
        for (auto &i : a.issues) if (key(i) == m.k) { vmsg = i.what; break; }
        return true;
      };
      std::string path;
      bool ok = emit(q, path);
      if (!ok) ok = emit(p, path);
      int more = 0;
      for (uint64_t c : cand) {   // the failing code reads something beyond the simulator's control: look for a plan that fails everywhere
        if (ok || more == 12) break;
        if (c <= idx) continue;
        ++more; p = genPlan(prop, runSeed(prop, seed, c), h); Eval e; evaluate(prop, p, h, h2, e);
        if (e.issues.empty()) continue;
        m.k = key(e.issues[0]); q = p; ok = emit(p, path);
        if (ok) { idx = c; m.limit = 15; m.t0 = now(); Plan q2 = m.run(p); std::string path2; if (emit(q2, path2)) { q = q2; path = path2; } }
      }
      if (!ok) { printf("ERROR: violation in run %llu does not replay in a fresh process\n", (unsigned long long)idx); rc = 2; }
      else {
        printf("run %llu (seed %llu), minimised with %d evaluations to %zu steps and %zu events\n", (unsigned long long)idx, (unsigned long long)p.seed, m.evals, [&] { size_t n = 0; for (auto &t : q.prog) n += t.size(); return n; }(), q.ev.size());
        printf("%s\n", vmsg.c_str());
        printf("VIOLATION property=%s replay=%s\n", prop.c_str(), path.c_str());
        rc = 1; violations = 1;
      }
    }
  }
  if (rc == 0 && (workerFail || S->plans == 0)) { printf("ERROR: a worker failed\n"); rc = 2; }
  if (rc == 0 && S->harness * 200 > S->plans) { printf("ERROR: %llu of %llu runs unusable: %s\n", (unsigned long long)S->harness.load(), (unsigned long long)S->plans.load(), S->note); rc = 2; }
  // ---- evidence
  static const char *fn[NFK] = {"number_or_policy_throws_custom_exception", "allocation_failure_bad_alloc", "number_overflow_exception", "cancellation_non_std_exception", "thread_preemption", "nested_computation", "nested_computation_fails", "device_write_failure", "device_exception",
    "invalid_number_enters", "empty_interval_enters", "ambient_rounding_mode_changed", "block_left_by_exception", "policy_call_throws", "preemption_at_memory_access", "nesting_at_memory_access", "nested_computation_inside_a_nested_one", "unobserved_earlier_calls", "assignment_of_a_number_throws", "operands_shared_with_other_threads", "thread_gives_way"};
  if (!out.empty()) {
    std::ostringstream o; double hrs = wall / 3600;
    auto n = [](std::atomic<uint64_t> &a) { return (unsigned long long)a.load(); };
    o << "{\n \"property\": \"" << prop << "\", \"tier\": \"" << tier << "\", \"seed\": " << seed << ", \"level\": \"exploration\",\n \"coverage\": {\n"
      << "  \"evaluations\": " << n(S->plans) << ",\n  \"distinct_nontrivial\": " << n(S->shapes) << ",\n"
      << "  \"rule\": \"one evaluation is one generated plan (program per thread, schedule, faults) executed against the real headers and judged; non-trivial: at least one library call completed and at least one fault, preemption, nested call, ambient-mode change, invalid number or empty interval actually occurred; distinct: different 64-bit digest of configuration, operation sequence, outcomes, modes, points passed and schedule/fault positions\",\n"
      << "  \"simulated_runs\": " << n(S->sims) << ", \"runs_per_hour\": " << (uint64_t)(S->sims / hrs) << ", \"seeds_per_hour\": " << (uint64_t)(S->plans / hrs) << ",\n"
      << "  \"simulated_time_ticks\": " << n(S->ticks) << ", \"simulated_time_note\": \"the library has no clock; one tick is one scheduling point (number operation, policy call, mode access, memory access) or call boundary\",\n"
      << "  \"library_calls\": " << n(S->ops) << ", \"library_calls_unprotected\": " << n(S->unprot) << ", \"library_calls_nested\": " << n(S->nestedN) << ", \"oracle_judgements\": " << n(S->judged) << ", \"multi_thread_runs\": " << n(S->threads2) << ",\n"
      << "  \"distinct_schedules\": " << n(S->scheds) << ", \"distinct_schedules_measure\": \"digest of the sequence of (task, step, point index) at which a switch, nested call or failure took effect\",\n"
      << "  \"determinism_reruns\": " << n(S->reruns) << ", \"determinism_reruns_with_another_history\": " << n(S->differ) << ",\n"
      << "  \"longest_call_number_operations\": " << n(S->maxArith) << ", \"longest_call_points\": " << n(S->maxPts) << ", \"unusable_runs\": " << n(S->harness) << ",\n  \"faults_fired\": {";
    for (int i = 0; i < NFK; ++i) o << (i ? ", " : "") << '"' << fn[i] << "\": " << n(S->fc[i]);
    o << "},\n  \"runs_per_configuration\": {";
    for (size_t i = 0; i < worlds.size(); ++i) o << (i ? ", " : "") << '"' << worlds[i]->info.name << "\": " << n(S->world[i]);
    o << "},\n  \"calls_per_operation\": {"; bool first = true;
    for (int i = 0; i < OP_COUNT; ++i) if (S->opn[i]) { o << (first ? "" : ", ") << '"' << opInfo[i].name << "\": [" << n(S->opn[i]) << ", " << n(S->opf[i]) << "]"; first = false; }
    o << "},\n  \"calls_per_operation_note\": \"[calls, calls in which an injected exception fired]\",\n"
      << "  \"components_real\": [\"all Boost.Interval headers of /repo, compiled unmodified\", \"libstdc++ streams\", \"hardware FPU and control words in the hardware configurations\", \"C++ exceptions and threads (released one at a time)\"],\n"
      << "  \"components_stubbed\": [\"scheduler\", \"number types of the toy_* and rat_* configurations with their rounding control and mathematical library\", \"fesetround/fegetround (same effect, with a scheduling point)\", \"static-initialiser guards (no preemption while held)\", \"stream device\"],\n"
      << "  \"samples\": [";
    int got = 0;
    for (uint64_t i = 0; i < 60 && got < 3; ++i) {
      Plan p = genPlan(prop, runSeed(prop, seed, i), h); Eval e; evaluate(prop, p, h, h2, e);
      if (!e.nontrivial || p.ev.empty()) continue;
      std::string t = planText(p) + "history:\n" + historyText(p, h); if (t.size() > 6000) t.resize(6000);
      o << (got++ ? ", " : "") << '"' << jesc(t) << '"';
    }
    o << "]\n },\n \"assumptions\": [\"sampling, not enumeration: a clean batch is evidence, not proof\", \"preemption granularity is the listed points; code between two points runs atomically\", \"reference values come from GMP/MPFR\"],\n"
      << " \"wall_s\": " << wall << ", \"violations\": " << violations << "\n}\n";
    std::ofstream f(out); f << o.str();
  }
  printf("%llu plans, %llu simulated runs, %llu calls, %llu judgements, %llu distinct, %.1f s, %llu unusable%s%s\n", (unsigned long long)S->plans.load(), (unsigned long long)S->sims.load(), (unsigned long long)S->ops.load(), (unsigned long long)S->judged.load(), (unsigned long long)S->shapes.load(), wall, (unsigned long long)S->harness.load(), S->harness ? ": " : "", S->note);
  return rc;
}
