/* Controlled OpenMP runtime, memory monitor and exhaustive explorer.  See DESIGN.md. */
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <map>
#include <functional>
#include <cstdarg>

namespace mc {

struct Cfg {
  int threads = 1;           // team size the controlled runtime gives to every parallel region
  int preempt = 1;           // preemption bound; <0: no bound
  int delay = -1;            // bounded-delay model: a thread may not enter dynamic loop instance k+1+delay
                             // of a region before every iteration of instance k is finished. <0: unbounded
  long max_execs = 2000000;  // hard cap; hitting it is reported (exploration of that case not exhaustive)
  long max_steps = 50000000; // per execution: more observed memory accesses than this is a hang
  int deviations = -1;       // >=0: at most this many scheduling choices differ from the default scheduler (delay-bounded
                             // scheduling; for teams too large for the preemption bound alone)
  int policy = 0;            // default scheduler: 0 keeps the running thread; 1 hands out all work before any of it is done and then
                             // lets the thread that got its work last go first (iterations run in reverse)
  bool schedules = true;     // branch over schedules (false: only data choices)
  bool check_leaks = false;  // blocks allocated in the execution and still live at its end are a failure
};

struct Stats {
  long execs = 0;        // complete executions of the real code in the final (exhaustive) pass
  long execs_total = 0;  // including discovery passes
  long points = 0;       // scheduling / choice points passed
  long accesses = 0;     // memory accesses of library code observed
  long preemptive = 0;   // executions with at least one preemption
  int maxlen = 0;        // longest choice sequence
  bool capped = false;
  long shared = 0;       // number of contended 8-byte locations
  bool failed = false;
};

/* ---- inside an execution ---- */
[[noreturn]] void fail_abort(const std::string& msg);   // record failure, abandon this execution
void fail(const std::string& msg);                      // same as fail_abort (does not return)
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
int choose(int n);                                      // nondeterministic data choice 0..n-1, enumerated exhaustively
void observe(uint64_t h);                               // record an outcome (distinct ones are counted)
uint64_t hash(const void* p, size_t n, uint64_t seed = 1469598103934665603ull);
bool in_execution();
bool discovering();                                     // this execution only looks for contended locations; its schedule may exceed the bounds
void set_threads(int n);                                // change team size inside an execution
void set_delay(int d);
long live_blocks();                                     // arena blocks currently allocated
bool untracked_loops();                                 // threads of some region shared data in loops that were not intercepted (no sweep bound applies)
int team_regions();                                     // parallel regions run by more than one thread so far in this execution
void loops_reset(); long loops_seen(); long loops_with(long chunk); long chunk_min(); long chunk_max();   // dynamically scheduled loops run by teams, their chunk sizes
long loops_from(long chunk);              // loops whose chunks have at least this size
void mark_readonly(const void* p, size_t n);            // library stores into it are reported as failures
void clear_readonly();
bool arena_ok(const void* p, size_t n);                 // whole range inside live allocated blocks
long trans_add(long n);                                 // count model-level transitions (operations executed)

/* ---- harness driver ---- */
struct Runner {
  std::string prop, tier, outfile, only_case, replay_dir;
  int shard = 0, nshards = 1;
  bool thorough() const { return tier == "thorough"; }
  Runner(int argc, char** argv, const char* prop);
  // returns false when the case belongs to another shard / is filtered out
  bool begin(const std::string& case_id);
  Stats explore(const Cfg& cfg, const std::function<void()>& body);
  Stats run(int threads, const std::function<void()>& body);      // preempt bound 1 (data + free choices)
  int finish();      // write results
  void note(const std::string& key, long v);   // additional measured counters (summed over shards)
};

uint64_t distinct_observations();
}
