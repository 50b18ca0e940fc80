// Driver: seeded search over simulated runs, gating, minimising, replay files,
// evidence.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "scen.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <ctime>
#include <fstream>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

const Scen *scen_find(const std::string &id) {
  for (int i = 0; i < NSCENS; i++) if (id == SCENS[i].id) return &SCENS[i];
  return nullptr;
}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }
static std::string oneline(std::string s, size_t max = 1500) {
  std::string r;
  for (char c : s) { if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += '?'; else r += c; }
  if (r.size() > max) r.resize(max);
  return r;
}
static std::string jstr(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += (char)c;
  }
  return r + "\"";
}
static uint64_t run_seed(uint64_t base, const std::string &prop, uint64_t i) { return mix64(mix64(base) ^ mix64(fnvs(prop)) ^ (i * 0x9e3779b97f4a7c15ULL)); }

static void run_one(const Scen *s, Plan &P, RunResult &R) {
  int tr = W->trace_on;
  world_reset();
  W->trace_on = tr;
  Rng r = P.rng("world");
  W->clock = 86400 + r.range(0, 2100000000);          // any time between 1970 and 2036
  W->alloc_fill = (int)r.range(0, 255);
  s->fn(P, R);
  R.hash = W->hash;
  R.sim_seconds = W->sim_seconds;
}
static std::string fault_desc(const std::vector<Fault> &fs) {
  std::string r;
  for (auto &f : fs) {
    char b[160];
    snprintf(b, sizeof b, "process %d: %s at %s #%lld x%lld arg %lld (fired %lld)", f.proc, faultkind_name[f.kind], opclass_name[f.cls], (long long)f.nth, (long long)f.len, (long long)f.arg, (long long)f.fired);
    r += (r.empty() ? "" : "; "); r += b;
  }
  return r;
}

// ---------------------------------------------------------------- peer / fresh process
struct Line { bool ok = false; uint64_t hash = 0; std::string cls, digest; };
struct Server {                     // another simrun process answering "seed k=v ..." lines
  pid_t pid = -1; FILE *to = nullptr, *from = nullptr;
  bool start(const std::string &bin, const std::string &prop) {
    int a[2], b[2];
    if (pipe(a) || pipe(b)) return false;
    pid = fork();
    if (pid == 0) {
      dup2(a[0], 0); dup2(b[1], 1);
      for (int i = 3; i < 64; i++) close(i);
      execl(bin.c_str(), bin.c_str(), "serve", prop.c_str(), (char *)nullptr);
      _exit(127);
    }
    close(a[0]); close(b[1]);
    to = fdopen(a[1], "w"); from = fdopen(b[0], "r");
    return true;
  }
  Line ask(const Plan &P) {
    Line L;
    fprintf(to, "%llu", (unsigned long long)P.seed);
    for (auto &kv : P.ov) fprintf(to, " %s=%lld", kv.first.c_str(), (long long)kv.second);
    fprintf(to, "\n"); fflush(to);
    char *buf = nullptr; size_t n = 0;
    ssize_t k = getline(&buf, &n, from);
    if (k > 0) {
      std::istringstream is(std::string(buf, (size_t)k));
      std::string h; is >> h >> L.cls >> L.digest;
      if (h.size()) { L.ok = true; L.hash = strtoull(h.c_str(), nullptr, 16); if (L.cls == "-") L.cls = ""; }
    }
    free(buf);
    return L;
  }
  void stop() { if (to) fclose(to); if (from) fclose(from); if (pid > 0) { int st; waitpid(pid, &st, 0); } pid = -1; to = from = nullptr; }
};
static std::string self;
static std::string peer_bin;
static Server *peer = nullptr;
static std::string digest_of(const RunResult &R) { char b[32]; snprintf(b, sizeof b, "%016llx", (unsigned long long)fnvs(R.detail)); return b; }
static void run_checked(const Scen *s, Plan &P, RunResult &R) {
  run_one(s, P, R);
  if (R.v.empty() && !peer_bin.empty()) {
    if (!peer) { peer = new Server; peer->start(peer_bin, s->id); }
    Line L = peer->ask(P);
    if (!L.ok) { delete peer; peer = nullptr; }
    else if (L.cls.empty() && L.digest != digest_of(R)) R.viol("depends-on-stack-content", "the same run gives other results when automatic variables start with other contents");
    R.cnt["runs compared with the other stack fill"]++;
  }
}
static int serve(const Scen *s) {
  char *buf = nullptr; size_t n = 0; ssize_t k;
  while ((k = getline(&buf, &n, stdin)) > 0) {
    Plan P; RunResult R;
    std::istringstream is(std::string(buf, (size_t)k));
    std::string t; is >> t; P.seed = strtoull(t.c_str(), nullptr, 10);
    while (is >> t) { size_t e = t.rfind('='); if (e != std::string::npos) P.ov[t.substr(0, e)] = strtoll(t.c_str() + e + 1, nullptr, 10); }
    run_one(s, P, R);
    printf("%016llx %s %s\n", (unsigned long long)R.hash, R.v.empty() ? "-" : R.v[0].cls.c_str(), digest_of(R).c_str());
    fflush(stdout);
  }
  return 0;
}
// run in a fresh process of this binary
static Line fresh(const Scen *s, const Plan &P) {
  std::string cmd = self + " one " + s->id + " " + std::to_string((unsigned long long)P.seed);
  if (!peer_bin.empty()) cmd += " --peer " + peer_bin;
  char tmpl[] = "/tmp/simovXXXXXX";
  int fd = mkstemp(tmpl);
  std::string txt;
  for (auto &kv : P.ov) txt += kv.first + "=" + std::to_string((long long)kv.second) + "\n";
  if (write(fd, txt.data(), txt.size()) < 0) {}
  close(fd);
  cmd += std::string(" --overrides ") + tmpl + " 2>/dev/null";
  Line L;
  FILE *f = popen(cmd.c_str(), "r");
  if (f) {
    char b[8192];
    while (fgets(b, sizeof b, f)) if (!strncmp(b, "RESULT ", 7)) {
      std::istringstream is(b + 7); std::string h; is >> h >> L.cls >> L.digest;
      L.ok = true; L.hash = strtoull(h.c_str(), nullptr, 16); if (L.cls == "-") L.cls = "";
    }
    pclose(f);
  }
  unlink(tmpl);
  return L;
}

// ---------------------------------------------------------------- known findings
struct Known { std::string prop, match, what; bool seen = false; };
static std::vector<Known> load_known(const std::string &file, const std::string &prop) {
  std::vector<Known> v;
  std::ifstream f(file);
  std::string l;
  while (std::getline(f, l)) {
    if (l.compare(0, 6, "known:")) continue;
    size_t p = l.find("property="), m = l.find("match="), d = l.find(" what=");
    if (p == std::string::npos || m == std::string::npos || d == std::string::npos) continue;
    Known k; k.prop = l.substr(p + 9, l.find(' ', p) - p - 9); k.match = l.substr(m + 6, d - m - 6); k.what = l.substr(d + 6);
    if (k.prop == prop) v.push_back(k);
  }
  return v;
}
static int known_index(const std::vector<Known> &k, const Violation &v) {
  for (size_t i = 0; i < k.size(); i++) if (v.cls == k[i].match) return (int)i;
  return -1;
}

// ---------------------------------------------------------------- minimiser
static bool same_fail(const Scen *s, const Plan &base, const std::string &cls, RunResult &out, Plan &used) {
  Plan P; P.seed = base.seed; P.ov = base.ov;
  RunResult R;
  run_checked(s, P, R);
  for (auto &v : R.v) if (v.cls == cls) { out = R; used = P; std::swap(out.v[0], out.v[(size_t)(&v - &R.v[0])]); return true; }
  return false;
}
static int minimise(const Scen *s, Plan &P, const std::string &cls, double secs) {
  // P.ov holds the current overrides; P.rec/order the record of the failing run
  double t0 = now(); int trials = 0;
  RunResult R; Plan U;
  if (!same_fail(s, P, cls, R, U)) return 0;
  bool progress = true;
  for (int pass = 0; pass < 3 && progress; pass++) {
    progress = false;
    std::vector<std::string> keys = U.order;
    // fault choices first: fewer faults make the best reports
    std::stable_sort(keys.begin(), keys.end(), [](const std::string &a, const std::string &b) {
      auto w = [](const std::string &k) { return k.size() > 3 && k.compare(k.size() - 3, 3, ".nf") == 0 ? 0 : 1; };
      return w(a) < w(b); });
    for (auto &k : keys) {
      if (now() - t0 > secs || trials > 600) return trials;
      auto it = U.rec.find(k);
      if (it == U.rec.end()) continue;
      int64_t v = it->second.v, lo = it->second.lo;
      for (int64_t c : {lo, lo + (v - lo) / 2, v - 1}) {
        if (c < lo || c >= v) continue;
        Plan T; T.seed = P.seed; T.ov = P.ov; T.ov[k] = c;
        RunResult r2; Plan u2;
        trials++;
        if (same_fail(s, T, cls, r2, u2)) { P.ov = T.ov; U = u2; progress = true; break; }
      }
    }
  }
  return trials;
}

// ---------------------------------------------------------------- search
struct Shared { volatile int stop; volatile int64_t done; };
struct Agg {
  int64_t runs = 0, faulty = 0, procs = 0, ops = 0, simsec = 0, unstable = 0, rechecked = 0, mismatch = 0;
  std::map<std::string, int64_t> cnt;
  std::set<uint64_t> states, schedules;
  std::vector<std::string> samples;
  std::map<std::string, int64_t> knownhits;
};
static void put(FILE *f, const Agg &a) {
  fprintf(f, "A %lld %lld %lld %lld %lld %lld %lld %lld\n", (long long)a.runs, (long long)a.faulty, (long long)a.procs, (long long)a.ops, (long long)a.simsec, (long long)a.unstable, (long long)a.rechecked, (long long)a.mismatch);
  for (auto &kv : a.cnt) fprintf(f, "C %lld %s\n", (long long)kv.second, kv.first.c_str());
  for (auto h : a.states) fprintf(f, "S %llx\n", (unsigned long long)h);
  for (auto h : a.schedules) fprintf(f, "H %llx\n", (unsigned long long)h);
  for (auto &s : a.samples) fprintf(f, "P %s\n", s.c_str());
  for (auto &kv : a.knownhits) fprintf(f, "K %lld %s\n", (long long)kv.second, kv.first.c_str());
}
static void get(FILE *f, Agg &a) {
  char *b = nullptr; size_t n = 0; ssize_t k;
  while ((k = getline(&b, &n, f)) > 0) {
    if (b[k - 1] == '\n') b[k - 1] = 0;
    if (b[0] == 'A') { long long v[8]; if (sscanf(b + 2, "%lld %lld %lld %lld %lld %lld %lld %lld", v, v + 1, v + 2, v + 3, v + 4, v + 5, v + 6, v + 7) == 8) { a.runs += v[0]; a.faulty += v[1]; a.procs += v[2]; a.ops += v[3]; a.simsec += v[4]; a.unstable += v[5]; a.rechecked += v[6]; a.mismatch += v[7]; } }
    else if (b[0] == 'C') { char *e; long long v = strtoll(b + 2, &e, 10); a.cnt[e + 1] += v; }
    else if (b[0] == 'S') a.states.insert(strtoull(b + 2, nullptr, 16));
    else if (b[0] == 'H') a.schedules.insert(strtoull(b + 2, nullptr, 16));
    else if (b[0] == 'P') a.samples.push_back(b + 2);
    else if (b[0] == 'K') { char *e; long long v = strtoll(b + 2, &e, 10); a.knownhits[e + 1] += v; }
  }
  free(b);
}
static void write_replay(const std::string &path, const Scen *s, const std::string &variant, const Plan &P, const Violation &v, const RunResult &R, uint64_t hash) {
  std::ofstream f(path);
  f << "# replay: bash /verif/check.sh --replay " << path << "\n";
  f << "property " << s->id << "\nvariant " << variant << "\nseed " << P.seed << "\n";
  for (auto &kv : P.ov) f << "override " << kv.first << " " << kv.second << "\n";
  f << "class " << v.cls << "\n";
  char b[32]; snprintf(b, sizeof b, "%016llx", (unsigned long long)hash);
  f << "hash " << b << "\nmessage " << oneline(v.msg) << "\nfaults " << fault_desc(R.faults) << "\n";
  f << "trace\n" << std::string(W->trace, W->trace_len);
}
static bool read_replay(const std::string &path, std::string &prop, std::string &variant, Plan &P, std::string &cls, uint64_t &hash) {
  std::ifstream f(path); std::string l;
  if (!f) return false;
  while (std::getline(f, l)) {
    std::istringstream is(l); std::string k; is >> k;
    if (k == "property") is >> prop;
    else if (k == "variant") is >> variant;
    else if (k == "seed") { unsigned long long s; is >> s; P.seed = s; }
    else if (k == "override") { std::string a; long long v; is >> a >> v; P.ov[a] = v; }
    else if (k == "class") is >> cls;
    else if (k == "hash") { std::string h; is >> h; hash = strtoull(h.c_str(), nullptr, 16); }
    else if (k == "trace") break;
  }
  return !prop.empty();
}

int main(int argc, char **argv) {
  if (!getenv("SIM_NOASLR")) {
    setenv("SIM_NOASLR", "1", 1);
    setenv("ASAN_OPTIONS", "exitcode=86:detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:handle_segv=1:detect_stack_use_after_return=0:symbolize=0", 1);
    setenv("UBSAN_OPTIONS", "exitcode=86:print_stacktrace=0:symbolize=0", 1);
    setenv("G_SLICE", "always-malloc", 1);
    setenv("TZ", "UTC", 1);
    setenv("LC_ALL", "C", 1);
    personality(ADDR_NO_RANDOMIZE);
    execv("/proc/self/exe", argv);
  }
  { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); self.assign(b, n > 0 ? (size_t)n : 0); }
  signal(SIGPIPE, SIG_IGN);
  if (argc < 3) { fprintf(stderr, "usage: simrun check|one|serve|replay ...\n"); return 2; }
  std::string mode = argv[1], prop = argv[2];
  std::string tier = "quick", variant = "plain", evid, repdir = ".", knownf, ovfile;
  uint64_t base = 1; int64_t count = 200; double secs = 60; int jobs = 8; bool trace = false;
  std::vector<std::string> rest;
  for (int i = 3; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--tier") tier = val(); else if (a == "--variant") variant = val(); else if (a == "--evidence") evid = val();
    else if (a == "--replays") repdir = val(); else if (a == "--known") knownf = val(); else if (a == "--seed") base = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--count") count = atoll(val().c_str()); else if (a == "--secs") secs = atof(val().c_str()); else if (a == "--jobs") jobs = atoi(val().c_str());
    else if (a == "--peer") peer_bin = val(); else if (a == "--overrides") ovfile = val(); else if (a == "--trace") trace = true;
    else rest.push_back(a);
  }
  world_init();
  if (mode == "replay") {
    std::string file = prop; Plan P; std::string cls; uint64_t hash = 0; prop = "";
    if (!read_replay(file, prop, variant, P, cls, hash)) { fprintf(stderr, "cannot read %s\n", file.c_str()); return 2; }
    const Scen *s = scen_find(prop);
    W->trace_on = 1;
    RunResult R; run_checked(s, P, R);
    for (auto &v : R.v) if (v.cls == cls) {
      printf("%s", std::string(W->trace, W->trace_len).c_str());
      printf("REPRODUCED property=%s class=%s hash=%016llx (%s)\n%s\n", prop.c_str(), cls.c_str(), (unsigned long long)R.hash, R.hash == hash ? "identical" : "DIFFERENT", v.msg.c_str());
      return 1;
    }
    printf("NOT REPRODUCED property=%s class=%s\n", prop.c_str(), cls.c_str());
    return 0;
  }
  const Scen *s = scen_find(prop);
  if (!s) { fprintf(stderr, "no scenario %s\n", prop.c_str()); return 2; }
  if (mode == "serve") return serve(s);
  if (mode == "one") {
    Plan P;
    if (!rest.empty()) { if (rest[0][0] == '#') P.seed = run_seed(base, prop, strtoull(rest[0].c_str() + 1, nullptr, 10)); else P.seed = strtoull(rest[0].c_str(), nullptr, 10); }
    for (size_t i = 1; i < rest.size(); i++) { size_t e = rest[i].rfind('='); P.ov[rest[i].substr(0, e)] = atoll(rest[i].c_str() + e + 1); }
    if (!ovfile.empty()) { std::ifstream f(ovfile); std::string l; while (std::getline(f, l)) { size_t e = l.rfind('='); if (e != std::string::npos) P.ov[l.substr(0, e)] = atoll(l.c_str() + e + 1); } }
    W->trace_on = trace;
    RunResult R; run_checked(s, P, R);
    if (trace) { printf("%s", std::string(W->trace, W->trace_len).c_str()); for (auto &k : P.order) printf("pick %s=%lld [%lld,%lld]\n", k.c_str(), (long long)P.rec[k].v, (long long)P.rec[k].lo, (long long)P.rec[k].hi); }
    for (auto &v : R.v) printf("VIOL %s: %s\n", v.cls.c_str(), v.msg.c_str());
    if (trace) for (auto &kv : R.cnt) printf("cnt %s = %lld\n", kv.first.c_str(), (long long)kv.second);
    printf("FAULTS %s\n", fault_desc(R.faults).c_str());
    printf("RESULT %016llx %s %s\n", (unsigned long long)R.hash, R.v.empty() ? "-" : R.v[0].cls.c_str(), digest_of(R).c_str());
    return 0;
  }
  // ---- check
  double t0 = now();
  std::vector<Known> known = load_known(knownf, prop);
  Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::vector<int> fds;
  std::vector<pid_t> pids;
  mkdir(repdir.c_str(), 0755);
  for (int w = 0; w < jobs; w++) {
    int fd = memfd_create("agg", 0);
    fds.push_back(fd);
    pid_t pid = fork();
    if (pid == 0) {
      world_init();
      Agg a;
      std::string found;
      for (int64_t i = w; i < count && !sh->stop && now() - t0 < secs; i += jobs) {
        Plan P; P.seed = run_seed(base, prop, (uint64_t)i);
        RunResult R;
        if (getenv("SIM_SHOW_MISMATCH")) W->trace_on = 1;
        run_checked(s, P, R);
        std::string tr0; if (getenv("SIM_SHOW_MISMATCH")) tr0.assign(W->trace, W->trace_len);
        a.runs++; a.procs += R.procs; a.ops += (int64_t)R.ops; a.simsec += R.sim_seconds;
        if (R.faulty) a.faulty++;
        for (auto &kv : R.cnt) a.cnt[kv.first] += kv.second;
        for (auto h : R.states) if (a.states.size() < 200000) a.states.insert(h);
        a.schedules.insert(R.hash);
        if (a.samples.size() < 2 && R.faulty) a.samples.push_back("seed " + std::to_string((unsigned long long)P.seed) + " (" + std::to_string(P.order.size()) + " recorded choices), " + std::to_string(R.procs) + " simulated processes, " + std::to_string((unsigned long long)R.ops) + " I/O operations; faults: " + fault_desc(R.faults));
        else if (a.samples.size() < 1) a.samples.push_back("seed " + std::to_string((unsigned long long)P.seed) + " (" + std::to_string(P.order.size()) + " recorded choices), " + std::to_string(R.procs) + " simulated processes, " + std::to_string((unsigned long long)R.ops) + " I/O operations; no fault");
        if (R.v.empty() && i % 64 == w % 64 && i / jobs % 8 == 0) {   // determinism: the same seed again
          Plan Q; Q.seed = P.seed; RunResult R2; run_one(s, Q, R2);
          a.rechecked++; if (R2.hash != R.hash) { a.mismatch++; if (getenv("SIM_SHOW_MISMATCH")) { fprintf(stderr, "mismatch: seed %llu\n", (unsigned long long)P.seed); std::ofstream("/tmp/mismatch.1") << tr0; std::ofstream("/tmp/mismatch.2") << std::string(W->trace, W->trace_len); } }
        }
        bool stop = false;
        for (auto &v : R.v) {
          int ki = known_index(known, v);
          if (ki >= 0) { a.knownhits[known[(size_t)ki].match]++; continue; }
          // gate: the same violation again, twice, in fresh processes
          Line l1 = fresh(s, P), l2 = fresh(s, P);
          if (!(l1.ok && l2.ok && !l1.cls.empty() && !l2.cls.empty())) { a.unstable++; fprintf(stderr, "unstable: seed %llu class %s (fresh runs: %s, %s)\n", (unsigned long long)P.seed, v.cls.c_str(), l1.cls.c_str(), l2.cls.c_str()); continue; }
          if (__sync_lock_test_and_set(&sh->stop, 1)) { stop = true; break; }   // somebody else reports
          std::string cls = v.cls;
          int trials = minimise(s, P, cls, tier == "thorough" ? 120 : 40);
          W->trace_on = 1;
          RunResult Rm; Plan U;
          bool ok = same_fail(s, P, cls, Rm, U);
          Violation vv = ok ? Rm.v[0] : v;
          char name[128]; snprintf(name, sizeof name, "/%s-%016llx.replay", prop.c_str(), (unsigned long long)P.seed);
          std::string path = repdir + name;
          write_replay(path, s, variant, P, vv, ok ? Rm : R, ok ? Rm.hash : R.hash);
          W->trace_on = 0;
          Line l3 = fresh(s, P);
          printf("violation of %s, class %s: %s\n", prop.c_str(), cls.c_str(), oneline(vv.msg, 3000).c_str());
          printf("seed %llu, minimised in %d trials to %zu choices away from default; faults: %s; replay in a fresh process %s\n", (unsigned long long)P.seed, trials, P.ov.size(), fault_desc(ok ? Rm.faults : R.faults).c_str(), l3.ok && l3.hash == (ok ? Rm.hash : R.hash) ? "identical" : "differs");
          printf("VIOLATION property=%s replay=%s\n", prop.c_str(), path.c_str());
          fflush(stdout);
          found = path; stop = true;
          break;
        }
        if (stop) break;
      }
      if (peer) peer->stop();
      FILE *f = fdopen(fd, "w");
      put(f, a);
      fprintf(f, "%s", found.empty() ? "" : "V\n");
      fflush(f);
      _exit(found.empty() ? 0 : 1);
    }
    pids.push_back(pid);
  }
  int viol = 0, broken = 0;
  for (pid_t p : pids) { int st = 0; waitpid(p, &st, 0); if (WIFEXITED(st) && WEXITSTATUS(st) == 1) viol++; else if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) broken++; }
  Agg a;
  for (int fd : fds) { lseek(fd, 0, SEEK_SET); FILE *f = fdopen(fd, "r"); get(f, a); fclose(f); }
  double wall = now() - t0;
  for (auto &k : known) printf("KNOWN-FINDING: property=%s %s\n", prop.c_str(), k.what.c_str());
  if (!evid.empty()) {
    std::ofstream f(evid);
    int64_t ff = 0;
    std::string fk, oc;
    for (auto &kv : a.cnt) {
      bool isf = kv.first.compare(0, 6, "fault ") == 0;
      if (isf) ff += kv.second;
      std::string &d = isf ? fk : oc;
      d += (d.empty() ? "" : ", ") + jstr(isf ? kv.first.substr(6) : kv.first) + ": " + std::to_string((long long)kv.second);
    }
    f << "{\"property\": " << jstr(prop) << ", \"tier\": " << jstr(tier) << ", \"seed\": " << base << ", \"level\": \"exploration\",\n \"coverage\": {\n";
    f << "  \"evaluations\": " << a.runs << ",\n  \"distinct_nontrivial\": " << a.schedules.size() << ",\n";
    f << "  \"rule\": " << jstr(std::string(s->rule) + " A run is one seed; distinct means a different hash over the full sequence of I/O operations with their data, injected faults and process exits of the run.") << ",\n";
    f << "  \"samples\": [";
    for (size_t i = 0; i < a.samples.size() && i < 6; i++) f << (i ? ",\n    " : "\n    ") << jstr(a.samples[i]);
    f << "],\n";
    f << "  \"seeds_per_hour\": " << (int64_t)((double)a.runs / (wall > 0 ? wall : 1) * 3600) << ",\n  \"runs_with_faults\": " << a.faulty << ",\n  \"simulated_processes\": " << a.procs << ",\n  \"simulated_io_operations\": " << a.ops
      << ",\n  \"simulated_seconds\": " << a.simsec << ",\n  \"faults_fired\": " << ff << ",\n  \"faults_by_kind\": {" << fk << "},\n  \"observed\": {" << oc << "},\n  \"distinct_states\": " << a.states.size()
      << ",\n  \"state_measure\": \"hash of the bytes of all files plus exit state, taken after each simulated process\",\n  \"determinism\": {\"runs_repeated_in_process\": " << a.rechecked << ", \"hash_mismatches\": " << a.mismatch << ", \"unreproducible_violations_discarded\": " << a.unstable << "},\n";
    f << "  \"build_variant\": " << jstr(variant) << ",\n";
    f << "  \"components\": {\"real\": [\"src/oifitslib/*.c\", \"src/util/oifits-{merge,filter,upgrade,check}.c (main renamed)\", \"cfitsio\", \"glib\"], \"simulated\": [\"file system below stdio (open/read/write/seek/close/remove/rename/stat/access/truncate)\", \"time()\", \"malloc/calloc/realloc of the repository's code\", \"process start, crash and exit\"], \"stub\": []}\n },\n";
    f << " \"wall_s\": " << wall << ", \"violations\": " << viol << ",\n \"assumptions\": [\"stdio buffers of 4096 bytes; a crash loses what was not handed to the kernel, completed writes survive (no reordering of completed writes)\", \"cfitsio and glib are trusted as installed\", \"only seeds listed by base seed and index were explored\"]}\n";
  }
  printf("%s: %lld runs (%lld with faults), %zu distinct, %lld processes, %lld I/O ops, %.1f s; rechecked %lld, mismatches %lld, unstable %lld%s\n", prop.c_str(), (long long)a.runs, (long long)a.faulty, a.schedules.size(), (long long)a.procs, (long long)a.ops, wall, (long long)a.rechecked, (long long)a.mismatch, (long long)a.unstable, broken ? " (worker died)" : "");
  if (viol) return 1;
  if (broken || a.runs == 0) return 2;
  return 0;
}
