/* Controlled OpenMP runtime (replaces libgomp), __tsan_* memory hooks, checked arena allocator,
 * and the stateless explorer with iterative preemption bounding.
 *
 * The library under test is compiled with -fopenmp -fsanitize=thread and linked against this file only
 * (neither libgomp nor libtsan): parallel regions run on coroutines whose every switch is a recorded choice.
 */
#include "mc.hpp"
#include <sys/time.h>
#include <cstdio>
#include <climits>
#include <cstdlib>
#include <cstring>
#include <csetjmp>
#include <csignal>
#include <cerrno>
#include <unordered_set>
#include <set>
#include <list>
#include <algorithm>
#include <chrono>
#include <iostream>
#include <new>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>

// the wrapped versions are for the code under test
extern "C" { void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t); }
#define memset __real_memset
#define memcpy __real_memcpy
#define memmove __real_memmove

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_memalign(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_calloc(size_t, size_t);
}

namespace mc {

/* ------------------------------------------------------------------ arena */
static const size_t ARENA_SIZE = size_t(1) << 30;   // reserved; touched pages only
static char* A0 = nullptr; static char* Acur = nullptr; static char* SHhigh = nullptr;
static uint8_t* SH = nullptr;      // 1 byte per 8 arena bytes: 0 ok, 1..7 first k bytes ok, 0xfa redzone, 0xfd freed
static bool g_exec = false;        // inside an execution window: allocations come from the arena
static int g_mute = 0;             // >0: hooks ignore
struct Blk { char* p; size_t n; bool live; };
static Blk* BT = nullptr; static size_t nBT = 0; static const size_t BTMAX = 1 << 22;
static long g_live = 0;

static inline bool in_arena(const void* p) { return (const char*)p >= A0 && (const char*)p < A0 + ARENA_SIZE; }

static void arena_init() {
  if (A0) return;
  A0 = (char*)mmap(nullptr, ARENA_SIZE, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
  SH = (uint8_t*)mmap(nullptr, ARENA_SIZE/8, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
  BT = (Blk*)mmap(nullptr, BTMAX*sizeof(Blk), PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
  Acur = A0; SHhigh = A0;
}
static void arena_reset() {
  size_t used = Acur - A0;
  // everything not allocated is a redzone
  memset(SH, 0xfa, (used + 8) / 8);
  Acur = A0; nBT = 0; g_live = 0;
}
static const size_t RZ = 32;
[[noreturn]] static void die_internal(const char* m);
static void* arena_alloc(size_t n, size_t al, bool zero) {
  if (al < 16) al = 16;
  char* p = Acur + RZ;
  p = (char*)(((uintptr_t)p + al - 1) & ~(uintptr_t)(al - 1));
  char* e = p + n; e = (char*)(((uintptr_t)e + 7) & ~(uintptr_t)7);
  if (e + RZ > A0 + ARENA_SIZE - (1<<20)) fail_abort("memory: unbounded allocation");
  // shadow: gap redzone, payload ok
  size_t g0 = (Acur - A0) / 8, gp = (p - A0) / 8, ge = (e - A0) / 8;
  memset(SH + g0, 0xfa, gp - g0);
  memset(SH + gp, 0, ge - gp);
  if (n & 7) SH[ge - 1] = n & 7;
  if (e + (1 << 16) > SHhigh) { char* s = e > SHhigh ? e : SHhigh; SHhigh = (char*)(((uintptr_t)e + (1 << 18)) & ~(uintptr_t)7); memset(SH + (s - A0) / 8, 0xfa, (SHhigh - s) / 8); }
  // Fresh memory holds no value anybody may rely on: not-a-number as a floating point value of
  // either precision, and, as an integer, -1 or a large negative number turn by turn, so that two
  // objects agree in their uninitialised parts by accident as little as possible.
  if (zero || !__builtin_parity(nBT)) memset(p, zero ? 0 : 0xff, e - p);
  else for (char* q = p; q < e; q += 4) { const uint32_t w = 0xfffe1234u; memcpy(q, &w, 4); }
  Acur = e;
  if (nBT < BTMAX) BT[nBT++] = Blk{p, n, true};
  g_live++;
  return p;
}
static Blk* find_blk(const void* p) {
  size_t lo = 0, hi = nBT;
  while (lo < hi) { size_t m = (lo + hi) / 2; if (BT[m].p <= (char*)p) lo = m + 1; else hi = m; }
  return lo ? &BT[lo - 1] : nullptr;
}
static void free_access(const void* p, size_t n);
static void arena_free(void* p) {
  if (!g_exec) return;              // leftovers of an abandoned execution
  Blk* b = find_blk(p);
  if (!b || b->p != p) fail_abort("memory: free of a pointer that was not allocated");
  if (b->live && b->n) free_access(p, b->n);      // releasing a block conflicts with every access to it (and other threads may run first)
  if (!b->live) fail_abort("memory: double free");
  b->live = false; g_live--;
  size_t g = (b->p - A0) / 8, ge = (b->p + b->n + 7 - A0) / 8;
  memset(SH + g, 0xfd, ge - g);
}
bool arena_ok(const void* p, size_t n) {
  if (!in_arena(p)) return true;
  Blk* b = find_blk(p);
  return b && b->live && (char*)p + n <= b->p + b->n;
}
long live_blocks() { return g_live; }

/* ------------------------------------------------------------------ failure handling */
static sigjmp_buf g_jmp;
static std::string* g_msg;          // failure of the current execution
static volatile bool g_have_jmp = false;

std::string fmt(const char* f, ...) {
  char buf[4096]; va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
  return buf;
}
[[noreturn]] void fail_abort(const std::string& m) {
  bool e = g_exec; g_exec = false;
  if (!e || !g_have_jmp) die_internal(m.c_str());
  if (g_msg->empty()) *g_msg = m;
  siglongjmp(g_jmp, 1);
}
void fail(const std::string& m) { fail_abort(m); }

/* ------------------------------------------------------------------ scheduler */
static const int MAXT = 24;
static const size_t STK = 512 * 1024;
enum St { RUN, BARRIER, DELAY, LOCK, DONE, JOIN };
struct WS { long next, end, incr, chunk; int active; bool exhausted; bool isloop; bool single_taken; long sect; };
struct Th { void* sp; St st; int ws; int bar; long lockid; char* stk; int delay_inst; int nest; WS cw; bool cw_on; long acq; };
static long acq_count;      // order in which work was handed out (policy 1)
static Th T[MAXT];
static int cur = 0, nT = 1;
static bool in_region = false;      // multi-threaded region active
static void (*r_fn)(void*); static void* r_data;
static char* master_sp;             // master's stack below this address is private during a region
static Cfg cfg;
static int g_threads = 1, g_delay = -1;

static const int MAXWS = 8192;
static WS WSP[MAXWS]; static int nWS;   // work-sharing instances of the current region, by order of encounter
static int barrier_arrived; static int barrier_phase;
static long lock_ids[64]; static int nlocks;   // locks currently held
static bool lock_held(long id) { for (int i = 0; i < nlocks; i++) if (lock_ids[i] == id) return true; return false; }
static bool g_untracked; static bool region_had_dyn, region_conf;

struct Pt { uint8_t n, chosen, kind; int region; };   // kind 0: preemptive, 1: free, 2: data
static std::vector<Pt> trace; static std::vector<uint8_t>* prefix; static std::vector<Pt> prev_trace;
static int heuristic;               // discovery runs: 1 = rotate at every point, 2 = random-free round robin each k-th
static int region_id;
struct RI { bool dep; };
static std::vector<RI> regions;
static long n_points, n_acc, steps;

static long g_trans = 0;

extern "C" void mc_switch(void** save, void* load);
asm(R"(
.text
.globl mc_switch
mc_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
)");

static bool inst_done(int k) {
  WS& w = WSP[k];
  return w.exhausted && w.active == 0;
}
static bool enabled(int t) {
  Th& h = T[t];
  switch (h.st) {
    case RUN: return true;
    case BARRIER: return h.bar < barrier_phase;
    case DELAY: for (int k = 0; k <= h.delay_inst; k++) if (WSP[k].isloop && !inst_done(k)) return false; return true;
    case LOCK: return !lock_held(h.lockid);
    case JOIN: for (int i = 1; i < nT; i++) if (T[i].st != DONE) return false; return true;
    default: return false;
  }
}
static const size_t TRACE_MAX = 1 << 20, REG_MAX = 1 << 20;
static bool g_diverged = false;
static int next_choice(int n, int kind) {
  if (n <= 1) return 0;
  size_t i = trace.size();
  int c = 0;
  if (i < prefix->size()) {
    c = (*prefix)[i];
    if (c >= n || (i < prev_trace.size() && prev_trace[i].n != n)) { g_diverged = true; fail_abort("two executions with the same inputs and the same schedule behave differently"); }
  } else if (heuristic && kind != 2) {
    if (heuristic == 1) c = n > 1 ? 1 : 0;
    else c = (i % heuristic == 0) ? (int)(i / heuristic) % n : 0;
  }
  trace.push_back(Pt{(uint8_t)n, (uint8_t)c, (uint8_t)kind, kind == 2 ? -1 : region_id});
  n_points++;
  if (trace.size() >= TRACE_MAX) fail_abort("execution does not terminate (scheduling points)");
  return c;
}
int choose(int n) { if (n > 250) die_internal("choose: too many alternatives"); return next_choice(n, 2); }

static void go(int t) {
  if (t == cur) { T[t].st = RUN; return; }
  int me = cur; cur = t; T[t].st = RUN;
  mc_switch(&T[me].sp, T[t].sp);
}
// current thread is at a scheduling point; if it is not runnable the switch is free
static void point(bool freechoice = false) {
  int en[MAXT], n = 0; bool self = enabled(cur);
  if (self) en[n++] = cur;
  for (int k = 1; k < nT; k++) { int t = (cur + k) % nT; if (enabled(t)) en[n++] = t; }
  if (n == 0) fail_abort("deadlock: no thread of the parallel region can run");
  if (cfg.policy == 1 && n > 1) {       // default choice: threads about to ask for work first, then the one that got its work last
    int b = 0; for (int k = 1; k < n; k++) if (T[en[k]].acq > T[en[b]].acq) b = k;
    if (b) { std::swap(en[0], en[b]); }
  }
  int c = next_choice(n, self && !freechoice ? 0 : 1);
  go(en[c]);
}
static void sync_point() { if (in_region && !T[cur].nest) { regions[region_id].dep = true; T[cur].acq = LONG_MAX; point(); T[cur].acq = ++acq_count; } }

extern "C" void mc_thread_main() {
  r_fn(r_data);
  T[cur].st = DONE;
  point();
  die_internal("finished thread resumed");
}
static void free_point_start() {
  // any thread may run first
  int n = nT; int c = next_choice(n, 1);
  go(c);
}

void region_begin(); void region_phase(); void loop_seen(long);
static void run_parallel(void (*fn)(void*), void* data, unsigned num_threads, const WS* pre) {
  int n = num_threads ? (int)num_threads : g_threads;
  if (n > MAXT) n = MAXT;
  if (in_region || T[cur].nest || !g_exec) n = 1;
  if (n == 1) {      // a serialised (or nested) region: a team of one on the running coroutine
    Th& h = T[cur]; WS sv = h.cw; bool on = h.cw_on;
    h.nest++;
    if (pre) { h.cw = *pre; h.cw_on = true; } else h.cw_on = false;
    fn(data);
    h.nest--; h.cw = sv; h.cw_on = on;
    return;
  }
  nT = n; cur = 0; region_id = (int)regions.size(); 
  if (regions.size() >= REG_MAX) fail_abort("execution does not terminate (parallel regions)");
  regions.push_back(RI{false});
  r_fn = fn; r_data = data; barrier_phase = 0; barrier_arrived = 0; region_had_dyn = false; region_conf = false; nWS = 0; nlocks = 0;
  if (pre) { if (pre->isloop) loop_seen(pre->chunk); WSP[nWS++] = *pre; WSP[0].active = n; regions[region_id].dep = true; region_had_dyn = true; }
  char here; master_sp = &here;
  for (int t = 0; t < n; t++) {
    T[t].st = RUN; T[t].ws = pre ? 1 : 0; T[t].bar = 0; T[t].nest = 0; T[t].acq = LONG_MAX - t;
    if (t) {
      void** sp = (void**)(T[t].stk + STK - 64);
      *--sp = nullptr; *--sp = (void*)mc_thread_main;
      for (int i = 0; i < 6; i++) *--sp = nullptr;
      T[t].sp = sp;
    }
  }
  region_begin();
  in_region = true;
  free_point_start();
  fn(data);
  T[0].st = JOIN;
  point();
  in_region = false;
  nT = 1; cur = 0;
  if (!region_had_dyn && region_conf) g_untracked = true;   // threads share data in loops whose sweeps cannot be told apart
}

/* ---- work sharing ---- */
static WS& get_ws() {
  int k = T[cur].ws++;
  if (k >= MAXWS) fail_abort("execution does not terminate (work-sharing constructs)");
  if (nWS <= k) { memset(&WSP[k], 0, sizeof(WS)); nWS = k + 1; }
  return WSP[k];
}
static bool ws_next(WS* w, long* is, long* ie) {
  bool more = w->incr > 0 ? w->next < w->end : w->next > w->end;
  if (!more) { w->exhausted = true; w->active--; return false; }
  *is = w->next; long e = w->next + w->chunk * w->incr;
  if (w->incr > 0 ? e > w->end : e < w->end) e = w->end;
  *ie = e; w->next = e;
  if (!(w->incr > 0 ? w->next < w->end : w->next > w->end)) w->exhausted = true;   // nothing left to hand out
  return true;
}
static bool team_of_one() { return !in_region || T[cur].nest; }
void loop_seen(long);
static bool loop_start(long start, long end, long incr, long chunk, long* is, long* ie) {
  if (chunk < 1) chunk = 1;
  if (team_of_one()) {
    WS& w = T[cur].cw; memset(&w, 0, sizeof w); w.next = start; w.end = end; w.incr = incr; w.chunk = chunk; w.isloop = true; w.active = 1; T[cur].cw_on = true;
    return ws_next(&w, is, ie);
  }
  region_had_dyn = true;
  int k = T[cur].ws;
  if (g_delay >= 0) {
    int lim = k - 1 - g_delay;
    if (lim >= 0) { T[cur].delay_inst = lim; T[cur].st = DELAY; T[cur].acq = LONG_MAX - 1; if (!enabled(cur)) point(); else T[cur].st = RUN; }
  }
  sync_point();
  WS& w = get_ws();
  if (!w.isloop) { loop_seen(chunk); w.next = start; w.end = end; w.incr = incr; w.chunk = chunk; w.isloop = true; }
  w.active++;
  return ws_next(&w, is, ie);
}
static bool loop_next(long* is, long* ie) {
  if (team_of_one()) return T[cur].cw_on ? ws_next(&T[cur].cw, is, ie) : false;
  sync_point();
  return ws_next(&WSP[T[cur].ws - 1], is, ie);
}
static void barrier() {
  if (team_of_one()) return;
  T[cur].bar = barrier_phase;
  if (++barrier_arrived == nT) { barrier_arrived = 0; barrier_phase++; region_phase(); }
  T[cur].st = BARRIER; T[cur].acq = LONG_MAX - 1; point(true);
}
static void lock_acquire(long id) {
  if (team_of_one()) return;
  sync_point();
  if (lock_held(id)) { T[cur].st = LOCK; T[cur].lockid = id; point(); }
  if (nlocks < 64) lock_ids[nlocks++] = id;
}
static void lock_release(long id) { if (in_region) for (int i = 0; i < nlocks; i++) if (lock_ids[i] == id) { lock_ids[i] = lock_ids[--nlocks]; return; } }

/* ------------------------------------------------------------------ contention tracking */
struct Gr { uintptr_t g; uint32_t stamp; uint8_t r[MAXT], w[MAXT]; };
static const size_t GH = 1 << 17;
static Gr* GT; static uint32_t g_stamp = 0; static size_t g_used;
// contended locations; those found during an execution become scheduling points from the next one on, so that a
// failing execution can be repeated exactly
static uintptr_t* CS; static uint32_t* CSgen; static uint32_t g_cgen = 1; static const size_t CH = 1 << 16; static size_t nC; static bool C_grew;
static inline size_t hsh(uintptr_t g) { return (g * 0x9E3779B97F4A7C15ull) >> 40; }
static long g_dropped;
void region_begin() { g_stamp++; g_used = 0; }
void region_phase() { g_stamp++; g_used = 0; }
static bool in_C(uintptr_t g) {
  size_t i = hsh(g) & (CH - 1);
  while (CS[i]) { if (CS[i] == g) return CSgen[i] <= g_cgen; i = (i + 1) & (CH - 1); }
  return false;
}
__attribute__((noinline)) static void add_C(uintptr_t g) {
  size_t i = hsh(g) & (CH - 1);
  while (CS[i]) { if (CS[i] == g) return; i = (i + 1) & (CH - 1); }
  if (nC > CH / 2) { g_dropped++; return; }      // too many: the rest are not scheduling points
  CS[i] = g; CSgen[i] = g_cgen + 1; nC++; C_grew = true;
}
static void track(uintptr_t g, uint8_t mask, bool wr) {
  size_t i = hsh(g) & (GH - 1);
  while (GT[i].stamp == g_stamp && GT[i].g != g) i = (i + 1) & (GH - 1);
  Gr& e = GT[i];
  if (e.stamp != g_stamp) { if (g_used >= GH * 3 / 4) { g_dropped++; return; } g_used++; memset(&e, 0, sizeof e); e.g = g; e.stamp = g_stamp; }
  bool conf = false;
  for (int t = 0; t < nT; t++) if (t != cur) { if (e.w[t] & mask) conf = true; if (wr && (e.r[t] & mask)) conf = true; }
  if (wr) e.w[cur] |= mask; else e.r[cur] |= mask;
  if (conf) { regions[region_id].dep = true; region_conf = true; add_C(g); }
}

struct RO { const char* b; const char* e; };
static std::vector<RO>* ros;
void mark_readonly(const void* p, size_t n) { bool e = g_exec; g_exec = false; ros->push_back(RO{(const char*)p, (const char*)p + n}); g_exec = e; }
void clear_readonly() { ros->clear(); }

static void bounds(const void* p, size_t n, bool wr) {
  size_t o = (const char*)p - A0;
  bool bad = false;
  size_t g = o / 8, ge = (o + n - 1) / 8;
  for (size_t k = g; k <= ge && !bad; k++) {
    uint8_t s = SH[k];
    if (!s) continue;
    if (s >= 8) bad = true;
    else { size_t last = (k == ge) ? ((o + n - 1) & 7) : 7; if (last >= s) bad = true; }
  }
  if (!bad) return;
  g_mute++;
  Blk* b = find_blk(p);
  std::string where = "outside every allocated block";
  if (b) {
    if ((char*)p < b->p + b->n + 64) where = fmt("at offset %ld of a %s block of %zu bytes", (long)((char*)p - b->p), b->live ? "live" : "freed", b->n);
  }
  if (b && !b->live && (char*)p < b->p + b->n) fail_abort(fmt("memory: %s of %zu bytes in a freed block (%s)", wr ? "write" : "read", n, where.c_str()));
  fail_abort(fmt("memory: out-of-bounds %s of %zu bytes %s", wr ? "write" : "read", n, where.c_str()));
}

// rmw: gcc expands '#pragma omp atomic' and reductions into an atomic load (hooked) and a bare cmpxchg (not
// hooked); nothing can be scheduled between the two, so the load stands for the whole read-modify-write
static inline void access(const void* p, size_t n, bool wr, bool rmw = false) {
  if (!g_exec || g_mute) return;
  if (++steps > cfg.max_steps) { steps = LONG_MIN / 2; fail_abort("hang: execution exceeds the step horizon"); }
  n_acc++;
  if (in_arena(p)) bounds(p, n, wr);
  if (wr && !ros->empty())
    for (const RO& r : *ros) if ((const char*)p < r.e && (const char*)p + n > r.b) fail_abort("memory: store into an input that must not be modified");
  if (!in_region) return;
  // private stack of the running thread
  if (cur == 0) { if ((char*)p < master_sp && (char*)p > master_sp - (8 << 20)) return; }
  else if ((char*)p >= T[cur].stk && (char*)p < T[cur].stk + STK) return;
  uintptr_t a = (uintptr_t)p, g = a >> 3, ge = (a + n - 1) >> 3;
  if (nC) { for (uintptr_t k = g; k <= ge; k++) if (in_C(k)) { point(); break; } }
  for (uintptr_t k = g; k <= ge; k++) {
    unsigned lo = k == g ? (a & 7) : 0, hi = k == ge ? ((a + n - 1) & 7) : 7;
    track(k, (uint8_t)((0xff << lo) & (0xff >> (7 - hi))), wr || rmw);
  }
}

static void free_access(const void* p, size_t n) { if (in_region && !T[cur].nest) access(p, n, true); }

/* ------------------------------------------------------------------ observations */
static std::unordered_set<uint64_t>* obs;
uint64_t hash(const void* p, size_t n, uint64_t h) { const uint8_t* b = (const uint8_t*)p; for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; } return h; }
static uint64_t case_hash;
void observe(uint64_t h) { bool e = g_exec; g_exec = false; obs->insert(h ^ (case_hash * 0x9E3779B97F4A7C15ull)); g_exec = e; }
uint64_t distinct_observations() { return obs->size(); }
bool in_execution() { return g_exec; }
bool discovering() { return heuristic != 0; }
void set_threads(int n) { g_threads = n; }
void set_delay(int d) { g_delay = d; }
bool untracked_loops() { return g_untracked; }
int team_regions() { return (int)regions.size(); }
static long g_loops, g_cmin, g_cmax; static const int CHUNKS = 4096; static int g_cnt[CHUNKS];
void loops_reset() { g_loops = 0; g_cmin = LONG_MAX; g_cmax = 0; memset(g_cnt, 0, sizeof g_cnt); }
long loops_seen() { return g_loops; }
long chunk_min() { return g_cmin; }
long chunk_max() { return g_cmax; }
long loops_from(long c) { long k = g_loops; for (long i = 0; i < c && i < CHUNKS; i++) k -= g_cnt[i]; return k; }
long loops_with(long c) { return c > 0 && c < CHUNKS ? g_cnt[c] : 0; }
void loop_seen(long c) { g_loops++; if (c > 0 && c < CHUNKS) g_cnt[c]++; if (c < g_cmin) g_cmin = c; if (c > g_cmax) g_cmax = c; }
long trans_add(long n) { return g_trans += n; }

/* ------------------------------------------------------------------ runner */
static int out_fd = 1;
struct Viol { std::string cas, msg; std::vector<int> sched; };
static std::vector<Viol>* viols;
static std::map<std::string,long>* notes;
static std::vector<std::string>* samples;
static std::vector<std::string>* capped_cases;
static long c_idx = 0, c_run = 0; static std::string* cur_case;
static long t_execs = 0, t_exec_total = 0, t_points = 0, t_acc = 0, t_pre = 0, t_shared_cases = 0; static int t_maxlen = 0;
static char* progress = nullptr;
static double t0;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

[[noreturn]] static void die_internal(const char* m) {
  g_exec = false;
  dprintf(2, "mc internal error: %s (case %s)\n", m, cur_case ? cur_case->c_str() : "?");
  _exit(3);
}
static char* stack_base;
static char* altstk;
static void on_sig(int s, siginfo_t* si, void*) {
  if (!g_exec || !g_have_jmp) { dprintf(2, "mc: signal %d outside an execution (case %s)\n", s, cur_case ? cur_case->c_str() : "?"); signal(s, SIG_DFL); raise(s); _exit(4); }
  g_exec = false;
  if (g_msg->empty()) {
    if (s == SIGABRT) *g_msg = "abort (assertion failure, uncaught exception or explicit abort) in library code";
    else if (s == SIGPROF) *g_msg = "hang: execution did not finish within the time limit";
    else *g_msg = fmt("fatal signal %d (%s) in library code", s, s == SIGSEGV ? "invalid memory access" : s == SIGFPE ? "arithmetic" : "?");
  }
  (void)si;
  siglongjmp(g_jmp, 1);
}

static bool g_stop = false; static double g_deadline = 0;
static bool past_deadline() { return g_deadline > 0 && now() > g_deadline; }
Runner::Runner(int argc, char** argv, const char* p) : prop(p), tier("quick") {
  t0 = now(); { char here; stack_base = (char*)((uintptr_t)&here & ~(uintptr_t)4095); }
  if (getenv("MC_BUDGET")) g_deadline = t0 + atof(getenv("MC_BUDGET"));
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--tier") tier = argv[++i];
    else if (a == "--shard") sscanf(argv[++i], "%d/%d", &shard, &nshards);
    else if (a == "--out") outfile = argv[++i];
    else if (a == "--case") only_case = argv[++i];
    else if (a == "--progress") {
      int fd = open(argv[++i], O_RDWR|O_CREAT|O_TRUNC, 0644); if (fd < 0 || ftruncate(fd, 4096)) die_internal("progress file");
      progress = (char*)mmap(nullptr, 4096, PROT_READ|PROT_WRITE, MAP_SHARED, fd, 0); close(fd);
    }
  }
  arena_init();
  GT = (Gr*)mmap(nullptr, GH * sizeof(Gr), PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
  CS = (uintptr_t*)mmap(nullptr, CH * sizeof(uintptr_t), PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
  CSgen = (uint32_t*)mmap(nullptr, CH * sizeof(uint32_t), PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
  g_stamp = 1;
  for (int t = 1; t < MAXT; t++) T[t].stk = (char*)mmap(nullptr, STK, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
  g_msg = new std::string; ros = new std::vector<RO>; obs = new std::unordered_set<uint64_t>;
  viols = new std::vector<Viol>; notes = new std::map<std::string,long>; samples = new std::vector<std::string>; capped_cases = new std::vector<std::string>;
  cur_case = new std::string; prefix = new std::vector<uint8_t>;
  prev_trace.reserve(1 << 16); regions.reserve(1 << 20); ros->reserve(64); g_msg->reserve(8192);
  trace.reserve(1 << 20);
  // the library chats on stdout/stderr: silence it, keep our own descriptor
  out_fd = dup(1);
  int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); close(nul);
  if (!getenv("MC_KEEP_STDERR")) { int n2 = open("/dev/null", O_WRONLY); int keep = dup(2); (void)keep; dup2(n2, 2); close(n2); }
  static char ob[1 << 16]; setvbuf(stdout, ob, _IOFBF, sizeof ob);
  static char eb[1 << 12]; setvbuf(stderr, eb, _IOLBF, sizeof eb);
  std::cout << 1.5 << 3 << std::endl; printf("%g %d\n", 1.5, 3); fflush(stdout);   // warm up locale data
  std::cerr << 1.5 << std::endl;
  try { throw std::string("warm"); } catch (std::string&) {}
  altstk = (char*)mmap(nullptr, 1 << 18, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = altstk; ss.ss_size = 1 << 18; sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_sig; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL, SIGPROF}) sigaction(s, &sa, nullptr);
}

static const size_t MAX_VIOL = 40;
bool Runner::begin(const std::string& id) {
  long k = c_idx++;
  if (!only_case.empty()) { if (id != only_case) return false; }
  else {
    if (k % nshards != shard) return false;
    if (viols->size() >= MAX_VIOL || g_stop) return false;
    if (past_deadline()) { (*notes)["cases skipped at the time budget"]++; return false; }
  }
  *cur_case = id; c_run++;
  case_hash = hash(id.data(), id.size());
  if (progress) { snprintf(progress, 4096, "%s", id.c_str()); }
  if (samples->size() < 3 || (samples->size() < 6 && (c_run & (c_run - 1)) == 0)) samples->push_back(id);
  return true;
}
void Runner::note(const std::string& k, long v) { (*notes)[k] += v; }

static void cpu_limit(int sec) { struct itimerval v; memset(&v, 0, sizeof v); v.it_value.tv_sec = sec; setitimer(ITIMER_PROF, &v, nullptr); }
// every execution starts at the same stack address: contended locations may lie on the stack
__attribute__((noinline)) static void call_at_base(const std::function<void()>& body) {
  char here; long pad = &here - (stack_base - (256 << 10));
  if (pad < 64) die_internal("stack too deep");
  volatile char* room = (volatile char*)__builtin_alloca(pad); room[0] = 0;
  body();
  room[0] = 1;
}
static void one_execution(const std::function<void()>& body, bool again = false) {
  if (!again) g_cgen++;
  trace.clear(); regions.clear(); region_id = -1; g_msg->clear(); ros->clear(); steps = 0;
  in_region = false; nT = 1; cur = 0; T[0].ws = 0; T[0].st = RUN; T[0].nest = 0; T[0].cw_on = false; nlocks = 0; g_untracked = false; acq_count = 0;
  g_threads = cfg.threads; g_delay = cfg.delay; g_mute = 0;
  arena_reset();
  g_have_jmp = true;
  if (sigsetjmp(g_jmp, 1) == 0) {
    cpu_limit(30);
    g_exec = true;
    std::string what; bool threw = false;
    try { call_at_base(body); }
    catch (std::exception& e) { g_exec = false; threw = true; *g_msg = std::string("uncaught exception from library: ") + e.what(); }
    catch (...) { g_exec = false; threw = true; *g_msg = "uncaught exception of unknown type from library"; }
    bool leak = !threw && cfg.check_leaks && g_live > 0;
    long lv = g_live;
    g_exec = false;
    if (leak) *g_msg = fmt("memory: %ld block(s) leaked", lv);
  }
  cpu_limit(0);
  g_exec = false; g_have_jmp = false; in_region = false; cur = 0; nT = 1; T[0].nest = 0;
}

static bool g_confirm_mismatch = false;
Stats Runner::explore(const Cfg& c, const std::function<void()>& body) {
  Stats st; cfg = c; if (cfg.threads > MAXT) die_internal("too many threads");
  if (nC) memset(CS, 0, CH * sizeof(uintptr_t)); nC = 0;
  long p0 = n_points, a0 = n_acc; bool diverged = false; g_diverged = false; g_dropped = 0;
  auto record = [&]() -> bool {
    if (g_msg->empty()) return false;
    // confirm: the same schedule must fail again
    std::string m = *g_msg; std::vector<uint8_t> sch; for (auto& p : trace) sch.push_back(p.chosen);
    int h = heuristic; heuristic = 0; *prefix = sch; prev_trace.clear();
    one_execution(body, true);
    heuristic = h;
    if (*g_msg != m) { g_confirm_mismatch = true; dprintf(2, "mc: failure not reproduced: '%s' vs '%s'\n", m.c_str(), g_msg->c_str()); 
      if (g_msg->empty()) m += " (not when the execution is repeated: it depends on earlier executions)"; }
    Viol v; v.cas = *cur_case; v.msg = m; for (auto x : sch) v.sched.push_back(x);
    if (m.compare(0, 5, "hang:") == 0) g_stop = true;      // every further case would take as long
    viols->push_back(v); st.failed = true; return true;
  };
  // discovery: find the contended locations
  if (cfg.schedules && cfg.threads > 1) {
    int hs[] = {1, 2, 3, 7};
    for (int round = 0; round < 3; round++) {
      C_grew = false;
      for (int h : hs) { heuristic = h; prefix->clear(); prev_trace.clear(); one_execution(body); st.execs_total++; if (record()) { heuristic = 0; goto done; } if (trace.empty()) break; }
      if (!C_grew || trace.empty()) break;
    }
  }
restart:
  heuristic = 0; prefix->clear(); prev_trace.clear(); C_grew = false; st.execs = 0; st.preemptive = 0;
  for (;;) {
    one_execution(body);
    st.execs++; st.execs_total++;
    if ((int)trace.size() > st.maxlen) st.maxlen = (int)trace.size();
    if (g_diverged && !diverged) { g_diverged = false; diverged = true; goto restart; }      // something was set up once: try again
    if (record()) break;
    if (C_grew) goto restart;
    bool pre = false; for (auto& p : trace) if (p.kind == 0 && p.chosen) { pre = true; break; }
    if (pre) st.preemptive++;
    // backtrack
    long i = (long)trace.size() - 1; int cost_total = 0;
    for (auto& p : trace) if (p.kind == 0 && p.chosen) cost_total++;
    int cost = cost_total, dev = 0;
    for (auto& p : trace) if (p.kind != 2 && p.chosen) dev++;
    for (; i >= 0; i--) {
      Pt& p = trace[i];
      bool was = p.kind == 0 && p.chosen;
      if (was) cost--;
      if (p.kind != 2 && p.chosen) dev--;
      if (p.chosen + 1 >= p.n) continue;
      if (p.kind != 2) {
        if (!cfg.schedules) continue;
        if (p.kind == 0 && cfg.preempt >= 0 && cost + 1 > cfg.preempt) continue;
        if (cfg.deviations >= 0 && dev + 1 > cfg.deviations) continue;
        if (!regions[p.region].dep) continue;       // threads of the region are independent: one order suffices
      }
      break;
    }
    if (i < 0) break;
    prefix->clear(); for (long k = 0; k < i; k++) prefix->push_back(trace[k].chosen);
    prefix->push_back(trace[i].chosen + 1);
    prev_trace.assign(trace.begin(), trace.begin() + i + 1);
    if (st.execs >= cfg.max_execs || ((st.execs & 63) == 0 && past_deadline())) { st.capped = true; break; }
  }
done:
  st.points = n_points - p0; st.accesses = n_acc - a0; st.shared = nC;
  if (st.capped) capped_cases->push_back(*cur_case);
  if (g_dropped) (*notes)["explorations in which not every contended word is a scheduling point"]++;
  t_execs += st.execs; t_exec_total += st.execs_total; t_points += st.points; t_acc += st.accesses; t_pre += st.preemptive;
  if (nC) t_shared_cases++;
  if (st.maxlen > t_maxlen) t_maxlen = st.maxlen;
  return st;
}
Stats Runner::run(int threads, const std::function<void()>& body) {
  Cfg c; c.threads = threads; c.preempt = 1; return explore(c, body);
}

static std::string jesc(const std::string& s) {
  std::string o; for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if (ch < 32) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; } else o += ch; } return o;
}
int Runner::finish() {
  std::string o = "{";
  o += fmt("\"cases\":%ld,\"cases_total\":%ld,\"execs\":%ld,\"execs_total\":%ld,\"points\":%ld,\"accesses\":%ld,\"preemptive\":%ld,\"contended_cases\":%ld,\"maxlen\":%d,\"ops\":%ld,\"distinct\":%zu,\"wall\":%.3f,",
           c_run, c_idx, t_execs, t_exec_total, t_points, t_acc, t_pre, t_shared_cases, t_maxlen, g_trans, obs->size(), now() - t0);
  o += "\"notes\":{"; bool f = true; for (auto& n : *notes) { o += fmt("%s\"%s\":%ld", f ? "" : ",", jesc(n.first).c_str(), n.second); f = false; } o += "},";
  o += "\"samples\":["; f = true; for (auto& s : *samples) { o += (f ? "\"" : ",\"") + jesc(s) + "\""; f = false; } o += "],";
  o += "\"capped\":["; f = true; for (auto& s : *capped_cases) { o += (f ? "\"" : ",\"") + jesc(s) + "\""; f = false; } o += "],";
  o += "\"violations\":["; f = true;
  for (auto& v : *viols) {
    o += std::string(f ? "" : ",") + "{\"case\":\"" + jesc(v.cas) + "\",\"msg\":\"" + jesc(v.msg) + "\",\"schedule\":[";
    for (size_t i = 0; i < v.sched.size(); i++) o += fmt(i ? ",%d" : "%d", v.sched[i]);
    o += "]}"; f = false;
  }
  o += "]}\n";
  if (!outfile.empty()) { FILE* fp = fopen(outfile.c_str(), "w"); if (!fp) return 3; fputs(o.c_str(), fp); fclose(fp); }
  else { ssize_t r = write(out_fd, o.data(), o.size()); (void)r; }
  return viols->empty() ? 0 : 1;
}
} // namespace mc

using namespace mc;

/* ------------------------------------------------------------------ allocator interposition */
extern "C" {
void* malloc(size_t n) { return g_exec && !g_mute ? arena_alloc(n, 16, false) : __libc_malloc(n); }
void free(void* p) { if (!p) return; if (in_arena(p)) arena_free(p); else __libc_free(p); }
void* calloc(size_t a, size_t b) { return g_exec && !g_mute ? arena_alloc(a * b, 16, true) : __libc_calloc(a, b); }
void* realloc(void* p, size_t n) {
  if (!p) return malloc(n);
  if (!in_arena(p)) { if (!g_exec || g_mute) return __libc_realloc(p, n); return __libc_realloc(p, n); }
  Blk* b = find_blk(p); size_t old = b ? b->n : 0; void* q = malloc(n); memcpy(q, p, old < n ? old : n); free(p); return q;
}
void* memalign(size_t al, size_t n) { return g_exec && !g_mute ? arena_alloc(n, al, false) : __libc_memalign(al, n); }
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** p, size_t al, size_t n) { *p = memalign(al, n); return *p ? 0 : ENOMEM; }
}
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { 
  if (mc::in_execution() && n > (size_t(1) << 29)) throw std::bad_alloc();
  void* p = mc::in_execution() ? malloc(n) : malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

extern "C" [[noreturn]] void __assert_fail(const char* e, const char* f, unsigned l, const char*) noexcept {
  const char* b = strrchr(f, '/'); (void)l;
  fail_abort(std::string("assertion failed in ") + (b ? b + 1 : f) + ": " + e);
}

/* ------------------------------------------------------------------ memory hooks */
extern "C" {
#define RW(n) void __tsan_read##n(void* p) { access(p, n, false); } void __tsan_write##n(void* p) { access(p, n, true); } \
  void __tsan_unaligned_read##n(void* p) { access(p, n, false); } void __tsan_unaligned_write##n(void* p) { access(p, n, true); } \
  void __tsan_volatile_read##n(void* p) { access(p, n, false); } void __tsan_volatile_write##n(void* p) { access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { if (n) access(p, n, false); }
void __tsan_write_range(void* p, size_t n) { if (n) access(p, n, true); }
void __tsan_vptr_update(void** p, void*) { access(p, 8, true); }
void __tsan_vptr_read(void** p) { access(p, 8, false); }
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
#define AT(bits, ty) \
  ty __tsan_atomic##bits##_load(const volatile ty* p, int) { access((const void*)p, sizeof(ty), false, true); return *p; } \
  void __tsan_atomic##bits##_store(volatile ty* p, ty v, int) { access((const void*)p, sizeof(ty), true); *p = v; } \
  ty __tsan_atomic##bits##_exchange(volatile ty* p, ty v, int) { access((const void*)p, sizeof(ty), true); ty o = *p; *p = v; return o; } \
  ty __tsan_atomic##bits##_fetch_add(volatile ty* p, ty v, int) { access((const void*)p, sizeof(ty), true); ty o = *p; *p = o + v; return o; } \
  ty __tsan_atomic##bits##_fetch_sub(volatile ty* p, ty v, int) { access((const void*)p, sizeof(ty), true); ty o = *p; *p = o - v; return o; } \
  ty __tsan_atomic##bits##_fetch_and(volatile ty* p, ty v, int) { access((const void*)p, sizeof(ty), true); ty o = *p; *p = o & v; return o; } \
  ty __tsan_atomic##bits##_fetch_or(volatile ty* p, ty v, int) { access((const void*)p, sizeof(ty), true); ty o = *p; *p = o | v; return o; } \
  ty __tsan_atomic##bits##_fetch_xor(volatile ty* p, ty v, int) { access((const void*)p, sizeof(ty), true); ty o = *p; *p = o ^ v; return o; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile ty* p, ty* e, ty v, int, int) { access((const void*)p, sizeof(ty), true); ty o = *p; if (o == *e) { *p = v; return 1; } *e = o; return 0; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile ty* p, ty* e, ty v, int, int) { access((const void*)p, sizeof(ty), true); ty o = *p; if (o == *e) { *p = v; return 1; } *e = o; return 0; } \
  ty __tsan_atomic##bits##_compare_exchange_val(volatile ty* p, ty e, ty v, int, int) { access((const void*)p, sizeof(ty), true); ty o = *p; if (o == e) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}

} // extern "C"
/* ------------------------------------------------------------------ linked lists: these live in libstdc++, which has no hooks */
namespace std { namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept {
  access(&p->_M_prev, 8, false); access(this, 16, true);
  _M_next = p; _M_prev = p->_M_prev;
  access(&p->_M_prev->_M_next, 8, true); p->_M_prev->_M_next = this; access(&p->_M_prev, 8, true); p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept {
  access(this, 16, false);
  _List_node_base* const nx = _M_next; _List_node_base* const pv = _M_prev;
  access(&pv->_M_next, 8, true); pv->_M_next = nx; access(&nx->_M_prev, 8, true); nx->_M_prev = pv;
}
} }
extern "C" {
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (n) { access(s, n, false); access(d, n, true); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (n) { access(s, n, false); access(d, n, true); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if (n) access(d, n, true); return __real_memset(d, c, n); }

/* ------------------------------------------------------------------ OpenMP runtime */
int omp_get_thread_num() { return team_of_one() ? 0 : cur; }
int omp_get_num_threads() { return team_of_one() ? 1 : nT; }
int omp_get_max_threads() { return g_exec ? g_threads : 1; }
void omp_set_num_threads(int n) { if (g_exec) g_threads = n < 1 ? 1 : n; }
int omp_in_parallel() { return in_region && !T[cur].nest; }
int omp_get_num_procs() { return g_threads; }
int omp_get_level() { return (in_region ? 1 : 0) + T[cur].nest; }
void omp_set_dynamic(int) {} int omp_get_dynamic() { return 0; }
double omp_get_wtime() { return 0; }
void omp_init_lock(void**) {} void omp_destroy_lock(void**) {}
void omp_set_lock(void** l) { lock_acquire((long)l); } void omp_unset_lock(void** l) { lock_release((long)l); }

void GOMP_parallel(void (*fn)(void*), void* d, unsigned nt, unsigned) { run_parallel(fn, d, nt, nullptr); }
#define PLOOP(name) void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, long c, unsigned) { \
  WS w; memset(&w, 0, sizeof w); w.next = s; w.end = e; w.incr = i; w.chunk = c < 1 ? 1 : c; w.isloop = true; run_parallel(fn, d, nt, &w); }
PLOOP(dynamic) PLOOP(nonmonotonic_dynamic) PLOOP(guided) PLOOP(nonmonotonic_guided)
#define LOOP(name) bool GOMP_loop_##name##_start(long s, long e, long i, long c, long* a, long* b) { return loop_start(s, e, i, c, a, b); } \
  bool GOMP_loop_##name##_next(long* a, long* b) { return loop_next(a, b); }
LOOP(dynamic) LOOP(nonmonotonic_dynamic) LOOP(guided) LOOP(nonmonotonic_guided)
bool GOMP_loop_runtime_start(long s, long e, long i, long* a, long* b) { return loop_start(s, e, i, 1, a, b); }
bool GOMP_loop_runtime_next(long* a, long* b) { return loop_next(a, b); }
bool GOMP_loop_nonmonotonic_runtime_start(long s, long e, long i, long* a, long* b) { return loop_start(s, e, i, 1, a, b); }
bool GOMP_loop_nonmonotonic_runtime_next(long* a, long* b) { return loop_next(a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long* a, long* b) { return loop_start(s, e, i, 1, a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long* a, long* b) { return loop_next(a, b); }
void GOMP_parallel_loop_runtime(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, unsigned) { GOMP_parallel_loop_dynamic(fn, d, nt, s, e, i, 1, 0); }
void GOMP_parallel_loop_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, unsigned) { GOMP_parallel_loop_dynamic(fn, d, nt, s, e, i, 1, 0); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, unsigned) { GOMP_parallel_loop_dynamic(fn, d, nt, s, e, i, 1, 0); }
typedef unsigned long long ull;
#define ULOOP(name) bool GOMP_loop_ull_##name##_start(bool up, ull s, ull e, ull i, ull c, ull* a, ull* b) { (void)up; return loop_start((long)s, (long)e, (long)i, (long)c, (long*)a, (long*)b); } \
  bool GOMP_loop_ull_##name##_next(ull* a, ull* b) { return loop_next((long*)a, (long*)b); }
ULOOP(dynamic) ULOOP(nonmonotonic_dynamic) ULOOP(guided) ULOOP(nonmonotonic_guided)
void GOMP_loop_end() { barrier(); }
void GOMP_loop_end_nowait() {}
void GOMP_barrier() { barrier(); }
void GOMP_critical_start() { lock_acquire(1); } void GOMP_critical_end() { lock_release(1); }
void GOMP_critical_name_start(void** p) { lock_acquire((long)p); } void GOMP_critical_name_end(void** p) { lock_release((long)p); }
void GOMP_atomic_start() { lock_acquire(2); } void GOMP_atomic_end() { lock_release(2); }
bool GOMP_single_start() {
  if (team_of_one()) return true;
  sync_point(); WS& w = get_ws(); if (w.single_taken) return false; w.single_taken = true; return true;
}
unsigned GOMP_sections_start(unsigned n) {
  if (team_of_one()) { WS& w = T[cur].cw; memset(&w, 0, sizeof w); w.end = n; return n ? (unsigned)++w.sect : 0; }
  sync_point(); WS& w = get_ws(); if (w.end == 0) w.end = n; return w.sect < w.end ? (unsigned)++w.sect : 0; }
unsigned GOMP_sections_next() {
  if (team_of_one()) { WS& w = T[cur].cw; return w.sect < w.end ? (unsigned)++w.sect : 0; }
  sync_point(); WS& w = WSP[T[cur].ws - 1]; return w.sect < w.end ? (unsigned)++w.sect : 0; }
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned nt, unsigned cnt, unsigned) { WS w; memset(&w, 0, sizeof w); w.end = cnt; run_parallel(fn, d, nt, &w); }
void GOMP_sections_end() { barrier(); } void GOMP_sections_end_nowait() {}
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long sz, long al, bool, unsigned, void**, int, void*) {
  if (cpy) { void* b = memalign(al < 16 ? 16 : al, sz); cpy(b, data); fn(b); free(b); } else fn(data);
}
void GOMP_taskwait() {} void GOMP_taskyield() { sync_point(); } void GOMP_taskgroup_start() {} void GOMP_taskgroup_end() {}
void GOMP_ordered_start() {} void GOMP_ordered_end() {}
}
