// Deterministic simulator core: shared simulated world (disk, clock, faults),
// plan (recorded seeded choices), simulated processes.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <functional>

// ---------------------------------------------------------------- PRNG
static inline uint64_t mix64(uint64_t z) {
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
static inline uint64_t fnv(const void *p, size_t n, uint64_t h = 0xcbf29ce484222325ULL) {
  const unsigned char *c = (const unsigned char *)p;
  for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 0x100000001b3ULL; }
  return h;
}
static inline uint64_t fnvs(const std::string &s, uint64_t h = 0xcbf29ce484222325ULL) { return fnv(s.data(), s.size(), h); }
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  uint64_t next() { s += 0x9e3779b97f4a7c15ULL; return mix64(s); }
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)(next() % (uint64_t)(hi - lo + 1)); }
  double unit() { return (double)(next() >> 11) / 9007199254740992.0; }
  bool chance(int num, int den) { return (int)(next() % (uint64_t)den) < num; }
};

// ---------------------------------------------------------------- faults
enum OpClass { OC_OPEN, OC_READ, OC_WRITE, OC_SEEK, OC_CLOSE, OC_REMOVE, OC_STAT, OC_MALLOC, OC_LMALLOC, OC_ANY, OC_N };
enum FaultKind { FK_EIO, FK_ENOSPC, FK_SHORT, FK_EOF, FK_EACCES, FK_EMFILE, FK_ENOENT, FK_CRASH, FK_CRASH_TORN, FK_NOMEM, FK_EINTR, FK_N };
extern const char *opclass_name[OC_N];
extern const char *faultkind_name[FK_N];
struct Fault {
  int proc;        // simulated process index
  int cls;         // OpClass
  int kind;        // FaultKind
  int64_t nth;     // fires for occurrence counts [nth, nth+len)
  int64_t len;
  int64_t arg;     // bytes for short/torn
  int64_t fired;   // how often it fired
};

static const int MAXFILES = 24;
static const size_t FILECAP = 8u << 20;
static const int MAXFAULTS = 12;
static const size_t REPCAP = 1u << 20;
static const size_t TRACECAP = 1u << 19;

struct SimInode { char name[128]; int linked; int used; int refs; uint64_t size; uint64_t nwrites; };

struct World {
  SimInode ino[MAXFILES];
  int64_t disk_free;             // bytes left before ENOSPC (INT64_MAX: unlimited)
  int64_t clock;                 // simulated time() value
  int64_t clock_step;            // added per time() call (may be negative: clock jumps)
  uint64_t ops[OC_N];            // per-process op counters
  uint64_t total_ops, step_budget;
  uint64_t all_ops;              // over the whole run
  Fault faults[MAXFAULTS];
  int nfaults;
  int cur_proc;
  uint64_t hash;                 // running hash of every op of the run
  int open_handles;
  int hang;                      // budget exceeded
  int crashed;                   // crash fault fired
  int64_t mem_limit, mem_live, mem_peak;
  int64_t mallocs_live;
  int alloc_fill;                // byte pattern for fresh memory
  int trace_on;
  int seam_bypass;
  int crash_lib;                 // a fatal access happened inside cfitsio
  int mark;                      // set by a process that got to a certain point
  int64_t sim_seconds;           // simulated time consumed
  int64_t full_disk_events;
  uint32_t reread[64]; uint32_t nreread;   // read operations that fetched a block for the second time
  char report[REPCAP]; size_t rep_len;
  char trace[TRACECAP]; size_t trace_len;
};
extern World *W;
extern unsigned char *DISK;

void world_init();
void world_reset();
static inline unsigned char *ino_data(int i) { return DISK + (size_t)i * FILECAP; }
int disk_find(const std::string &path);          // inode or -1
bool disk_exists(const std::string &path);
std::vector<uint8_t> disk_get(const std::string &path);
void disk_put(const std::string &path, const std::vector<uint8_t> &b);
void disk_rm(const std::string &path);
std::vector<std::string> disk_ls();
typedef std::map<std::string, std::vector<uint8_t>> DiskImage;
DiskImage disk_image();
int64_t heap_blocks();                                // blocks of memory in use by the whole process, libraries included
extern "C" void leaks_show(int64_t from);           // SIM_LEAKS=1: where live allocations were made (debugging)
extern "C" void sim_free(void *p);             // for memory obtained from the repository
void report(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void tracef(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

// ---------------------------------------------------------------- simulated processes
struct ProcResult {
  bool exited = false; int code = -1;   // normal exit
  int sig = 0;                          // killed by signal
  bool hang = false, crashed = false;   // crash = injected
  bool runaway = false, asan = false, in_cfitsio = false;
  std::string out, err, rep;
  uint64_t ops[OC_N] = {0}; uint64_t total_ops = 0;
  int open_handles = 0;
  int64_t mem_peak = 0, mallocs_live = 0;
  std::vector<uint32_t> reread;
  std::string describe() const;
  bool abnormal() const { return !crashed && (hang || runaway || asan || sig != 0); }
};
// run fn as simulated process number proc in a forked child (one at a time)
ProcResult run_proc(int proc, const std::function<int()> &fn);
void set_faults(const std::vector<Fault> &f);
uint64_t faults_fired(int kind);

// ---------------------------------------------------------------- plan
struct Plan {
  uint64_t seed = 0;
  std::map<std::string, int64_t> ov;                      // overrides (replay / minimiser)
  std::vector<std::string> order;
  struct Rec { int64_t v, lo, hi; };
  std::map<std::string, Rec> rec;
  int64_t pick(const std::string &key, int64_t lo, int64_t hi);
  bool chance(const std::string &key, int num, int den) { // recorded as 0/1 with 0 = simplest
    uint64_t h = mix64(seed ^ mix64(fnvs(key)));
    int64_t v = (int64_t)(h % (uint64_t)den) < num ? 1 : 0;
    return note(key, v, 0, 1);
  }
  int64_t note(const std::string &key, int64_t v, int64_t lo, int64_t hi);
  Rng rng(const std::string &key) const { return Rng(mix64(seed ^ mix64(fnvs(key) + 77))); }
};

struct Violation { std::string cls, msg; };
struct RunResult {
  std::vector<Violation> v;
  uint64_t hash = 0;
  std::vector<Fault> faults;
  bool faulty = false;
  uint64_t ops = 0;
  int64_t sim_seconds = 0;
  int procs = 0;
  std::map<std::string, int64_t> cnt;     // free-form coverage counters
  std::vector<uint64_t> states;           // abstract state hashes reached
  std::string detail;
  void viol(const std::string &cls, const std::string &msg) { v.push_back({cls, msg}); }
};
