// Scenarios about histories: sequences of operations in one process, several
// tasks interleaved by a seeded scheduler, pipelines of tool runs.
#include "scen.h"
#include <algorithm>
#include <memory>
#include <unistd.h>

static std::string S(int64_t v) { return std::to_string((long long)v); }
static std::string hx(const std::string &s) { char b[40]; snprintf(b, sizeof b, "%016llx", (unsigned long long)fnvs(s)); return b; }

// ---------------------------------------------------------------- tasks advanced one library call at a time
struct Task {
  int st = 0; bool done = false; std::string res;
  virtual void step() = 0;
  virtual ~Task() {}
};
struct ReadTask : Task {              // table-level reader
  std::string path; int mode; fitsfile *f = nullptr; oi_fits oi; std::vector<int> kinds; size_t at = 0; bool opened = false, fresh = true; DS ds;
  ReadTask(const std::string &p, int m) : path(p), mode(m) { memset(&oi, 0, sizeof oi); kinds = {0, 1, 2, 3, 4, 5, 6, 7, 8}; if (m & 1) std::reverse(kinds.begin(), kinds.end()); }
  void finish() {
    done = true;
    if (f) { int s2 = st; fits_close_file(f, &s2); if (!st) st = s2; f = nullptr; }
    res = "tables " + S(st);
    if (!st) res += " " + hx(dump(from_oi(&oi)));
    if (oi.targets.targ) free_oi_target(&oi.targets);
#define FREE(TYPE, LIST) for (GList *l = oi.LIST; l; l = l->next) { free_##TYPE((TYPE *)l->data); free(l->data); } g_list_free(oi.LIST);
    FREE(oi_array, arrayList) FREE(oi_wavelength, wavelengthList) FREE(oi_corr, corrList) FREE(oi_inspol, inspolList)
    FREE(oi_vis, visList) FREE(oi_vis2, vis2List) FREE(oi_t3, t3List) FREE(oi_flux, fluxList)
#undef FREE
  }
  void step() override {
    if (!opened) { opened = true; if (fits_open_file(&f, path.c_str(), READONLY, &st)) { f = nullptr; finish(); return; } read_oi_header(f, &oi.header, &st); if (st) finish(); return; }
    if (at >= kinds.size()) { finish(); return; }
    int k = kinds[at], ht;
    if (fresh) { fits_movabs_hdu(f, 1, &ht, &st); fresh = false; if (st) { finish(); return; } }
    if (k == 0) { oi_target t; memset(&t, 0x3C, sizeof t); if (read_oi_target(f, &t, &st)) { finish(); return; } oi.targets = t; at++; fresh = true; return; }
    bool end = false;
#define SEQ(K, TYPE, FN, LIST) \
    if (k == K) { TYPE *p = (TYPE *)malloc(sizeof(TYPE)); memset(p, 0x3C, sizeof *p); if (FN(f, p, &st)) { end = true; free(p); } else oi.LIST = g_list_append(oi.LIST, p); }
    SEQ(1, oi_array, read_next_oi_array, arrayList)
    SEQ(2, oi_wavelength, read_next_oi_wavelength, wavelengthList)
    SEQ(3, oi_corr, read_next_oi_corr, corrList)
    SEQ(4, oi_inspol, read_next_oi_inspol, inspolList)
    SEQ(5, oi_vis, read_next_oi_vis, visList)
    SEQ(6, oi_vis2, read_next_oi_vis2, vis2List)
    SEQ(7, oi_t3, read_next_oi_t3, t3List)
    SEQ(8, oi_flux, read_next_oi_flux, fluxList)
#undef SEQ
    if (end) { if (st == END_OF_FILE) { st = 0; at++; fresh = true; } else finish(); }
  }
};
struct WriteTask : Task {             // table-level writer
  std::string path; DS ds; oi_fits oi; fitsfile *f = nullptr; int k = -1; GList *l = nullptr; int ev = 1; bool started = false;
  WriteTask(const std::string &p, const DS &d) : path(p), ds(d) {}
  void finish() { done = true; if (f) { int s2 = st; fits_close_file(f, &s2); if (!st) st = s2; f = nullptr; } free_oi_fits(&oi); res = "written " + S(st); }
  void step() override {
    if (!started) { started = true; to_oi(ds, &oi); if (fits_create_file(&f, path.c_str(), &st)) { f = nullptr; finish(); return; } return; }
    if (k < 0) { write_oi_header(f, oi.header, &st); k = 0; if (st) finish(); return; }
    if (k == 0) { write_oi_target(f, oi.targets, &st); k = 1; l = oi.arrayList; ev = 1; if (st) finish(); return; }
    while (!l && k < 8) { k++; ev = 1; GList *L[] = {nullptr, nullptr, oi.wavelengthList, oi.corrList, oi.inspolList, oi.visList, oi.vis2List, oi.t3List, oi.fluxList}; l = L[k]; }
    if (!l) { finish(); return; }
    switch (k) {
      case 1: write_oi_array(f, *(oi_array *)l->data, ev++, &st); break;
      case 2: write_oi_wavelength(f, *(oi_wavelength *)l->data, ev++, &st); break;
      case 3: write_oi_corr(f, *(oi_corr *)l->data, ev++, &st); break;
      case 4: write_oi_inspol(f, *(oi_inspol *)l->data, ev++, &st); break;
      case 5: write_oi_vis(f, *(oi_vis *)l->data, ev++, &st); break;
      case 6: write_oi_vis2(f, *(oi_vis2 *)l->data, ev++, &st); break;
      case 7: write_oi_t3(f, *(oi_t3 *)l->data, ev++, &st); break;
      case 8: write_oi_flux(f, *(oi_flux *)l->data, ev++, &st); break;
    }
    l = l->next;
    if (st) finish();
  }
};
struct CallTask : Task {              // a call that cannot be interrupted
  std::function<std::string(int &)> fn;
  explicit CallTask(const std::function<std::string(int &)> &f) : fn(f) {}
  void step() override { res = fn(st); done = true; }
};

// ---------------------------------------------------------------- C11
struct HOp { int kind = 0; std::string in, in2, out; Job J; DS wds; int mode = 0, sub = 0; uint64_t sched = 0; };
static const char *hop_name[] = {"read", "write", "library calls", "table-level read", "interleaved tasks"};
static std::string whole_read(const std::string &path, int &st) {
  oi_fits o; memset(&o, 0x3C, sizeof o);
  st = 0;
  read_oi_fits(path.c_str(), &o, &st);
  if (st) return "read " + S(st);
  std::string r = "read 0 " + hx(dump(from_oi(&o)));
  free_oi_fits(&o);
  return r;
}
// sched == 0: one task after the other
static std::string run_hop(const HOp &h, bool serial, int &bad) {
  bad = 0;
  switch (h.kind) {
    case 0: return whole_read(h.in, bad);
    case 1: { oi_fits o; to_oi(h.wds, &o); int st = 0; write_oi_fits(h.out.c_str(), o, &st); free_oi_fits(&o); bad = st; return "write " + S(st); }
    case 2: return lib_text(h.J, bad);
    case 3: { DS d; bad = op_read_tables(h.in, d, h.mode); return "tables " + S(bad) + (bad ? "" : " " + hx(dump(d))); }
    default: {
      std::vector<std::unique_ptr<Task>> T;
      T.emplace_back(new ReadTask(h.in, h.mode));
      if (h.sub & 1) T.emplace_back(new ReadTask(h.in2, h.mode >> 1));
      if (h.sub & 2) T.emplace_back(new WriteTask(h.out, h.wds));
      if (h.sub & 4) { std::string p = h.in2; T.emplace_back(new CallTask([p](int &st) { return whole_read(p, st); })); }
      Rng r(h.sched);
      for (;;) {
        std::vector<size_t> live;
        for (size_t i = 0; i < T.size(); i++) if (!T[i]->done) live.push_back(i);
        if (live.empty()) break;
        size_t w = serial ? live[0] : live[(size_t)r.range(0, (int64_t)live.size() - 1)];
        T[w]->step();
      }
      std::string s;
      for (auto &t : T) { s += t->res + "; "; if (t->st) bad = t->st; }
      return s;
    }
  }
}
void c11(Plan &P, RunResult &R) {
  Inputs I = gen_inputs(P, R, 3, 1, 4, false, true);
  int nops = (int)P.pick("nops", 2, 6);
  // another party may replace an input file between two operations
  std::vector<std::vector<uint8_t>> alt;
  struct Step { HOp h; std::vector<Fault> f; bool replace = false; std::string rpath; std::vector<uint8_t> rbytes; std::string want; int wbad = 0; bool wout = false; std::string wfile; bool reps = false; };
  std::vector<Step> steps;
  DiskImage img = disk_image();
  std::vector<Fault> all;
  int64_t c0 = W->clock;
  W->step_budget = 4000000;
  for (int i = 0; i < nops; i++) {
    std::string k = "o" + S(i);
    Step s;
    if (i && P.chance(k + ".repl", 1, 5)) {
      s.replace = true; s.rpath = I.path[(size_t)P.pick(k + ".rp", 0, (int64_t)I.path.size() - 1)];
      size_t other = (size_t)P.pick(k + ".rw", 0, (int64_t)I.path.size() - 1);
      if (I.path[other] == s.rpath) s.rbytes = fits_encode(gen_ds(P, k + ".rd.", gen_opt(P, k + ".rg", true)), enc_opt(P, k + ".re"));
      else s.rbytes = img[I.path[other]];
      disk_put(s.rpath, s.rbytes);
      R.cnt["input files replaced between operations"]++;
    }
    HOp &h = s.h;
    h.kind = (int)P.pick(k + ".kind", 0, 4);
    h.in = I.path[(size_t)P.pick(k + ".in", 0, (int64_t)I.path.size() - 1)];
    h.in2 = I.path[(size_t)P.pick(k + ".in2", 0, (int64_t)I.path.size() - 1)];
    h.out = "/sim/out" + S(i) + ".fits";
    h.mode = (int)P.pick(k + ".mode", 0, 3);
    h.sub = (int)P.pick(k + ".sub", 1, 7);
    h.sched = P.rng(k + ".sched").next();
    if (h.kind == 1 || (h.kind == 4 && (h.sub & 2))) { GenOpt go = gen_opt(P, k + ".wg", false); go.big = false; h.wds = gen_ds(P, k + ".w.", go); }
    if (h.kind == 2) { h.J.name = "lib"; h.J.in = {h.in}; if (h.in2 != h.in) h.J.in.push_back(h.in2); h.J.lib = (int)P.pick(k + ".lib", 1, 255); h.J.out = h.out; h.J.f = gen_spec(P, k + ".s", I.ds[0], false); }
    // alone in a fresh process
    disk_rm(h.out);
    ProcResult p = runp(R, 0, [&]() -> int { int bad; std::string r = run_hop(h, true, bad); report("BAD:%d", bad); report_text("RES", r); return 0; });
    bool found; s.want = rep_text(p, "RES", &found);
    if (crashed_badly(p)) { R.cnt["runs that ended abnormally (see C14)"]++; return; }
    if (!found) { R.cnt["runs ended by a diagnosed abort"]++; return; }
    s.wbad = atoi(rep_text(p, "BAD").c_str());
    if (p.open_handles) { R.viol("handle-left-open", std::string(hop_name[h.kind]) + (s.wbad ? " (failed)" : "") + " left " + S(p.open_handles) + " file handle(s) open"); return; }
    s.wout = disk_exists(h.out);
    if (s.wout) s.wfile = norm_file(disk_get(h.out));
    disk_rm(h.out);
    if (P.chance(k + ".faulty", 1, 2)) { s.f = choose_faults(P, k, i + 1, p, FS_IO, 2); for (auto &f : s.f) if (all.size() < (size_t)MAXFAULTS) all.push_back(f); }
    s.reps = s.f.empty() && P.chance(k + ".reps", 1, 3);
    R.cnt[std::string("operation ") + hop_name[h.kind]]++;
    steps.push_back(s);
  }
  disk_restore(img); W->clock = c0;
  arm(all);
  auto body = [&]() -> int {
    auto wrong = [&](const Step &s, const std::string &r, int bad, bool under) -> std::string {
      // without any fault, cfitsio itself uses uninitialised memory on declared sizes beyond all bounds
      // (status 111, see C13) or beyond the end of the file (107, 108, or 412 as the garbage will have it)
      auto undef = [](const std::string &t) { for (const char *c : {"107", "108", "111"}) for (const char *o : {"read ", "tables "}) { size_t q = t.find(std::string(o) + c); if (q != std::string::npos && !isdigit((unsigned char)t[q + strlen(o) + 3])) return true; } return false; };
      if (undef(r) || undef(s.want)) return "";
      // which error a damaged header gives is cfitsio's business too
      auto plain = [](std::string t) {
        for (const char *o : {"read ", "tables "}) for (size_t q = t.find(o); q != std::string::npos; q = t.find(o, q + 1)) { size_t b = q + strlen(o), e = b; while (e < t.size() && isdigit((unsigned char)t[e])) e++; if (e > b && !(e == b + 1 && t[b] == '0')) t.replace(b, e - b, "failed"); }
        return t;
      };
      if (I.damaged ? plain(r) != plain(s.want) : r != s.want) return "returned <" + r + "> instead of <" + s.want + ">";
      if (s.h.kind == 2 && under) return "";
      bool e = disk_exists(s.h.out);
      if (e != s.wout) return e ? "made a file" : "made no file";
      if (e && norm_file(disk_get(s.h.out)) != s.wfile) return "wrote another file: " + slice(diff(dump(fits_decode(std::vector<uint8_t>(s.wfile.begin(), s.wfile.end())).ds), dump(fits_decode(disk_get(s.h.out)).ds)));
      return "";
    };
    std::string past;
    for (size_t i = 0; i < steps.size(); i++) {
      const Step &s = steps[i];
      std::string nm = hop_name[s.h.kind];
      if (s.replace) { disk_put(s.rpath, s.rbytes); past += " replace;"; }
      W->cur_proc = (int)i + 1; memset(W->ops, 0, sizeof W->ops);
      int64_t m0 = W->mallocs_live; int bad;
      std::string r = run_hop(s.h, false, bad);
      W->cur_proc = 1000;
      bool hit = false; for (int q = 0; q < W->nfaults; q++) if (W->faults[q].proc == (int)i + 1 && W->faults[q].fired && W->faults[q].kind != FK_SHORT) hit = true;
      if (W->open_handles) { report_text("VIOL", "handle-left-open " + nm + (bad ? " that failed with " + r : "") + " left " + S(W->open_handles) + " file handle(s) open"); return 0; }
      if (!bad && W->mallocs_live != m0) { leaks_show(0); report_text("VIOL", "memory-left-allocated " + nm + (hit ? " (under faults)" : "") + ", after freeing its dataset, left " + S(W->mallocs_live - m0) + " allocations"); return 0; }
      if (!hit) {
        std::string d = wrong(s, r, bad, false);
        if (!d.empty()) { report_text("VIOL", "differs-from-fresh-process after" + (past.empty() ? " nothing" : past) + " a " + nm + " " + d); return 0; }
      } else if (bad || r != s.want) {
        // the faults are over: the same again
        disk_rm(s.h.out);
        memset(W->ops, 0, sizeof W->ops);
        int64_t m1 = W->mallocs_live; int b2;
        std::string r2 = run_hop(s.h, false, b2);
        report("RETRY");
        std::string d = wrong(s, r2, b2, false);
        if (!d.empty()) { report_text("VIOL", "retry-differs after a failed " + nm + " the same operation " + d); return 0; }
        if (W->open_handles) { report_text("VIOL", "handle-left-open " + nm + " retried left " + S(W->open_handles) + " file handle(s) open"); return 0; }
        if (!b2 && W->mallocs_live != m1) { report_text("VIOL", "memory-left-allocated " + nm + " retried left " + S(W->mallocs_live - m1) + " allocations"); return 0; }
      }
      if (s.reps && !bad) {
        int64_t u[9];
        for (int q = 0; q < 9; q++) {
          disk_rm(s.h.out);
          { int b2; std::string r2 = run_hop(s.h, false, b2); if (!wrong(s, r2, b2, true).empty()) { report_text("VIOL", "repetition-differs repeating a " + nm + " gave <" + r2 + "> instead of <" + r + ">"); return 0; } }
          u[q] = heap_blocks();
        }
        report("REPS");
        if (u[4] < u[5] && u[5] < u[6] && u[6] < u[7] && u[7] < u[8]) { report_text("VIOL", "memory-grows repeating a " + nm + " takes " + S(u[8] - u[7]) + " more blocks of memory each time"); return 0; }
      }
      past += " " + nm + (hit ? bad ? " (failed);" : " (under faults);" : ";");
    }
    report("DONE");
    return 0;
  };
  ProcResult p = runp(R, 1, body);
  disarm(R);
  if (getenv("SIM_LEAKS")) fprintf(stderr, "%s\n%s\n", p.rep.c_str(), p.err.c_str());
  R.detail += hx(p.rep);
  if (crashed_badly(p)) { R.viol("history-abnormal", "a sequence of operations " + p.describe() + ": " + slice(p.err)); return; }
  std::string v = rep_text(p, "VIOL");
  for (size_t q = p.rep.find("RETRY"); q != std::string::npos; q = p.rep.find("RETRY", q + 1)) R.cnt["failed operations repeated after the faults"]++;
  for (size_t q = p.rep.find("REPS"); q != std::string::npos; q = p.rep.find("REPS", q + 1)) R.cnt["operations repeated nine times while watching the heap"]++;
  if (!v.empty()) { size_t b = v.find(' '); R.viol(v.substr(0, b), v.substr(b + 1)); return; }
  if (p.rep.find("DONE") == std::string::npos) { R.cnt["histories ended by a diagnosed abort"]++; return; }
  R.cnt["complete histories"]++;
}

// ---------------------------------------------------------------- C16
void c16(Plan &P, RunResult &R) {
  Inputs I = gen_inputs(P, R, 3, 0, 1);
  int n = (int)P.pick("nsteps", 2, 5);
  struct Step { std::string name, out; std::vector<std::string> args; bool clob = false; int code = 0; std::string text, file; bool has = false; ProcResult dry; };
  std::vector<Step> steps;
  std::vector<std::string> avail = I.path;
  DiskImage img = disk_image();
  int64_t c0 = W->clock;
  auto runs = [&](const Step &s, int proc) { return runp(R, proc, [&]() -> int { return tool(s.name.c_str(), s.args); }); };
  // the uninterrupted run
  for (int i = 0; i < n; i++) {
    std::string k = "s" + S(i);
    Step s; s.out = "/sim/s" + S(i) + ".fits";
    std::vector<std::string> in;
    int ni = (int)P.pick(k + ".nin", 1, 3);
    // prefer the latest results: chains rather than fans
    for (int q = 0; q < ni; q++) in.push_back(P.chance(k + ".new" + S(q), 2, 3) ? avail[avail.size() - 1 - (size_t)std::min<int>(q, (int)avail.size() - 1)] : avail[(size_t)P.pick(k + ".in" + S(q), 0, (int64_t)avail.size() - 1)]);
    s.args = some_tool(P, k, in, s.out, s.name);
    if (s.name == "filter" && P.chance(k + ".clob", 1, 3)) { s.clob = true; s.args.insert(s.args.begin(), "--clobber"); }
    ProcResult p = runs(s, 0);
    if (crashed_badly(p) || p.sig) { R.cnt["pipelines ended by an abort of a step on a healthy disk"]++; return; }
    s.dry = p; s.code = p.code; s.text = norm_text(p.out); s.has = disk_exists(s.out);
    if (s.has) { s.file = norm_file(disk_get(s.out)); avail.push_back(s.out); }
    if (p.code == 0 && s.name != "check" && !s.has) { R.viol("no-output", s.name + " reported success but made no output file"); return; }
    steps.push_back(s);
    R.cnt["step " + s.name]++;
  }
  // the same pipeline in a hostile environment, every step repeated until it succeeds
  disk_restore(img);
  W->clock = c0 + P.pick("later", 0, 1000000);
  for (int i = 0; i < n; i++) {
    std::string k = "s" + S(i);
    Step &s = steps[(size_t)i];
    DiskImage before = disk_image();
    auto untouched = [&](const char *when) {
      DiskImage a = disk_image();
      for (auto &kv : before) if (!a.count(kv.first) || a[kv.first] != kv.second) { R.viol("finished-file-damaged", s.name + " " + when + " changed " + kv.first); return false; }
      for (auto &kv : a) if (kv.first != s.out && !before.count(kv.first)) { R.viol("stray-file", s.name + " " + when + " left " + kv.first); return false; }
      return true;
    };
    // a step that reported what the uninterrupted one reported has to have the same result
    auto same = [&](const ProcResult &p) -> std::string {
      if (!p.exited || p.code != s.code) return "exit status " + S(p.code) + " instead of " + S(s.code) + ": " + slice(p.err);
      // the date of creation of an intermediate file shows in the summary of the next
      auto nodate = [](std::string t) { for (size_t q = t.find("  DATE    = '"); q != std::string::npos; q = t.find("  DATE    = '", q + 1)) { size_t e = t.find('\n', q); t.erase(q + 12, e == std::string::npos ? e : e - q - 12); } return t; };
      if (nodate(norm_text(p.out)) != nodate(s.text)) return "other output text";
      bool e = disk_exists(s.out);
      if (e != s.has) return e ? "an output file" : "no output file";
      if (e && norm_file(disk_get(s.out)) != s.file) return "another output file: " + slice(diff(dump(fits_decode(std::vector<uint8_t>(s.file.begin(), s.file.end())).ds), dump(fits_decode(disk_get(s.out)).ds)));
      return "";
    };
    bool finished = false;
    int tries = (int)P.pick(k + ".tries", 0, 2);
    for (int t = 0; t < tries && !finished; t++) {
      std::string kt = k + ".t" + S(t);
      int m = (int)P.pick(kt + ".mode", 0, 3);
      if (m == 2) W->disk_free = P.pick(kt + ".free", 0, (int64_t)s.file.size() + 3000);
      std::vector<Fault> f;
      if (m != 2) f = choose_faults(P, kt, 1, s.dry, m <= 1 ? FS_CRASH : FS_IO, m == 0 ? 1 : 2);
      arm(f);
      ProcResult p = runs(s, 1);
      W->disk_free = INT64_MAX;
      int64_t hit = disarm(R);
      W->clock += P.pick(kt + ".wait", 0, 100000);
      if (crashed_badly(p)) { R.viol("interrupted-abnormal", s.name + " under faults " + p.describe()); return; }
      if (!untouched("interrupted")) return;
      R.cnt[p.crashed ? "steps crashed" : p.exited && p.code == 0 ? "disturbed steps that succeeded" : "disturbed steps that failed"]++;
      std::string why;
      if (p.exited && p.code == 0 && !p.crashed) {
        // it says it is finished
        if (s.code != 0) { if (hit) { R.viol("success-invented", s.name + " fails on a healthy disk but reported success under faults"); return; } }
        std::string d = same(p);
        if (d.empty()) { finished = true; break; }
        if (!clean_messages(p, &why)) { R.cnt["steps that said which table they could not read"]++; }
        else { R.viol("unfinished-step-reported-successful", s.name + " was disturbed, reported success, but gave " + d); return; }
      } else if (!hit && !p.crashed) {
        std::string d = same(p);
        if (!d.empty()) { R.viol("undisturbed-differs", s.name + " gave " + d); return; }
        finished = true; break;
      }
      if (disk_exists(s.out) && P.chance(kt + ".again", 1, 2) && s.name != "check") {
        // rerun without removing the remains: refused, remains left alone (unless asked to overwrite)
        std::vector<uint8_t> rest = disk_get(s.out);
        ProcResult q = runs(s, 2);
        if (crashed_badly(q)) { R.viol("rerun-abnormal", s.name + " run over the remains of an earlier run " + q.describe()); return; }
        if (!untouched("rerun")) return;
        if (s.clob) {
          std::string d = same(q);
          if (!d.empty()) { R.viol("overwrite-differs", s.name + " --clobber over the remains of an interrupted run gave " + d); return; }
          R.cnt["remains overwritten on request"]++; finished = true; break;
        }
        if (s.code == 0 && q.exited && q.code == 0) { R.viol("remains-accepted", s.name + " reported success with the remains of an interrupted run in place of its output"); return; }
        if (!disk_exists(s.out) || disk_get(s.out) != rest) { R.viol("remains-changed", s.name + " refused to overwrite but changed the existing file"); return; }
        R.cnt["reruns refused because of remains"]++;
      }
      disk_rm(s.out);
    }
    if (!finished) {
      ProcResult p = runs(s, 3);
      if (crashed_badly(p)) { R.viol("rerun-abnormal", s.name + " rerun " + p.describe()); return; }
      if (!untouched("rerun")) return;
      std::string d = same(p);
      if (!d.empty()) { R.viol("rerun-differs", s.name + " rerun after an interruption gave " + d); return; }
    }
    W->clock += P.pick(k + ".gap", 0, 100000);
  }
  for (auto &s : steps) if (s.has && (!disk_exists(s.out) || norm_file(disk_get(s.out)) != s.file)) { R.viol("final-differs", "at the end " + s.out + " differs from the uninterrupted run"); return; }
  R.cnt["pipelines completed"]++;
}

// ---------------------------------------------------------------- reading for C17, C18, C19
// reads under the armed faults; after a failure the faults stop and it is tried again
static oi_fits *read_again(const std::string &p) {
  for (int t = 0; t < 2; t++) {
    oi_fits *o = (oi_fits *)malloc(sizeof *o); memset(o, 0x3C, sizeof *o);
    int st = 0;
    if (!read_oi_fits(p.c_str(), o, &st)) { W->cur_proc = 1000; return o; }
    free(o);
    W->cur_proc = 1000;
  }
  return nullptr;
}
static void drop(oi_fits *o) { free_oi_fits(o); free(o); }
static bool same_num(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= 1e-12 * std::fabs(b); }
static bool unique_names(const DS &d) {
  std::set<std::string> s;
  for (auto &w : d.w) if (!s.insert(w.name).second) return false;
  return true;
}
static void arm_reading(Plan &P, RunResult &R, const std::vector<std::string> &paths) {
  if (!P.chance("rfault", 1, 3)) return;
  ProcResult dry = runp(R, 0, [&]() -> int { for (auto &p : paths) { oi_fits *o = read_again(p); if (o) drop(o); } return 0; });
  arm(choose_faults(P, "rf", 0, dry, FS_READ | FS_OPEN | FS_SHORT, 2));
}

// ---------------------------------------------------------------- C17
struct ItTask {
  int kind, ds, mask; bool null; FilterSpec f; oi_filter_spec sp; _oi_iter it; std::vector<IterPt> want; size_t at = 0; int past = 0; bool cur = false; int runs = 0;
};
void c17(Plan &P, RunResult &R) {
  Inputs I = gen_inputs(P, R, 2, 1, 5);
  for (size_t i = 0; i < I.path.size(); i++) {
    std::string k = "val" + S((int64_t)i);
    int how = (int)P.pick(k, 0, 3);
    if (!how || I.ds[i].trev < 2) continue;
    if (how & 1) exact_values(I.ds[i], P.rng(k + ".exact"));
    if (how & 2) extreme_values(I.ds[i], P.rng(k + ".extreme"), true);
    disk_put(I.path[i], fits_encode(I.ds[i], enc_opt(P, k + ".e")));
  }
  // some data tables without (or with a shorter) wavelength table
  if (P.chance("nowave", 1, 4)) {
    DS d = I.ds[0]; Rng r = P.rng("nw");
    if (d.w.size() > 1 && r.chance(1, 2)) d.w.erase(d.w.begin() + r.range(0, (int64_t)d.w.size() - 1));
    else { Wav &w = d.w[(size_t)r.range(0, (int64_t)d.w.size() - 1)]; if (w.w.size() > 1) { w.w.pop_back(); w.b.pop_back(); } }
    if (d.p.empty()) { I.ds[0] = d; disk_put(I.path[0], fits_encode(d, enc_opt(P, "nwe"))); }
  }
  int nt = (int)P.pick("ntask", 1, 5);
  std::vector<ItTask> T((size_t)nt);
  for (int i = 0; i < nt; i++) {
    std::string k = "t" + S(i);
    ItTask &t = T[(size_t)i];
    t.kind = (int)P.pick(k + ".kind", 0, 2); t.ds = (int)P.pick(k + ".ds", 0, (int64_t)I.path.size() - 1);
    t.mask = P.chance(k + ".nulls", 1, 3) ? (int)P.pick(k + ".mask", 0, 31) : 31; t.null = P.chance(k + ".nospec", 1, 3);
    if (!t.null) { t.f = gen_spec(P, k + ".s", as_read(I.ds[(size_t)t.ds]), false); if (P.chance(k + ".mild", 1, 2)) { FilterSpec g; g.flagged = t.f.flagged; g.mjd[0] = t.f.mjd[0]; g.ins = t.f.ins; g.snr[0] = t.f.snr[0]; t.f = g; } }
  }
  uint64_t sched = P.rng("sched").next();
  int burst = (int)P.pick("burst", 1, 6);
  arm_reading(P, R, I.path);
  auto body = [&]() -> int {
    std::vector<oi_fits *> L; std::vector<DS> M; std::vector<std::string> D;
    for (auto &p : I.path) { oi_fits *o = read_again(p); L.push_back(o); M.push_back(o ? from_oi(o) : DS()); D.push_back(dump(M.back())); }
    Rng r(sched);
    auto start = [&](ItTask &t) {
      t.at = 0; t.past = 0; t.cur = false;
      memset(&t.it, (int)r.range(0, 255), sizeof t.it);
      memset(&t.sp, 0, sizeof t.sp);
      apply_spec(t.f, &t.sp);
      const oi_filter_spec *sp = t.null ? nullptr : &t.sp;
      if (t.kind == VIS) oi_vis_iter_init(&t.it, L[(size_t)t.ds], sp); else if (t.kind == VIS2) oi_vis2_iter_init(&t.it, L[(size_t)t.ds], sp); else oi_t3_iter_init(&t.it, L[(size_t)t.ds], sp);
      // the caller may reuse its filter at once
      if (r.chance(1, 2)) { t.sp.target_id = 29999; t.sp.mjd_range[0] = 1e9; strcpy(t.sp.insname, "zzz"); t.sp.accept_vis = t.sp.accept_vis2 = t.sp.accept_t3amp = t.sp.accept_t3phi = 0; }
    };
    std::vector<ItTask *> live;
    for (auto &t : T) {
      if (!L[(size_t)t.ds] || !unique_names(M[(size_t)t.ds])) continue;
      if (filter_ambiguous(M[(size_t)t.ds], t.f)) { report("AMBIG"); continue; }
      t.want = ref_iter(M[(size_t)t.ds], t.kind, t.f);
      report("POINTS:%zu", t.want.size());
      live.push_back(&t); start(t);
    }
    long guard = 0, switches = 0;
    std::vector<ItTask *> pend = live; ItTask *last = nullptr;
    while (!pend.empty() && guard++ < 60000) {
      size_t w = (size_t)r.range(0, (int64_t)pend.size() - 1);
      ItTask &t = *pend[w];
      if (&t != last) switches++; last = &t;
      int steps = (int)r.range(1, burst);
      for (int q = 0; q < steps; q++) {
        int act = (int)r.range(0, 39);
        oi_fits *o = L[(size_t)t.ds];
        if (act == 0) { (void)facts_text(o); continue; }
        if (act == 1) { oi_filter_spec sp; memset(&sp, 0, sizeof sp); apply_spec(t.f, &sp); oi_fits x; memset(&x, 0x3C, sizeof x); apply_oi_filter(o, &sp, &x); free_oi_fits(&x); continue; }
        if (act == 2) { (void)checks_text(o); continue; }
        if (act == 3) { (void)lookups_text(o); continue; }
        if (act == 4 && t.runs < 2 && r.chance(1, 8)) { t.runs++; start(t); continue; }
        std::string id = std::string(kind_ext[t.kind]) + " iterator, point " + S((int64_t)t.at + 1) + " of " + S((int64_t)t.want.size()) + ": ";
        if (act <= 10 && t.cur) {
          const IterPt &p = t.want[t.at - 1];
          double e = -1, u[4] = {-1, -1, -1, -1}; int m = (int)r.range(0, 31); if (r.chance(2, 3)) m = 31;
          if (t.kind == T3) oi_t3_iter_get_uv(&t.it, m & 1 ? &e : nullptr, m & 2 ? &u[0] : nullptr, m & 4 ? &u[1] : nullptr, m & 8 ? &u[2] : nullptr, m & 16 ? &u[3] : nullptr);
          else (t.kind == VIS ? oi_vis_iter_get_uv : oi_vis2_iter_get_uv)(&t.it, m & 1 ? &e : nullptr, m & 2 ? &u[0] : nullptr, m & 4 ? &u[1] : nullptr);
          if ((m & 1) && e != p.wl) { report_text("VIOL", "iterator-wrong-wavelength " + id + "wavelength " + std::to_string(e * 1e9) + " nm instead of " + std::to_string(p.wl * 1e9)); return 0; }
          for (int c = 0; c < (t.kind == T3 ? 4 : 2); c++) if ((m & (2 << c)) && !same_num(u[c], p.uv[c])) { report_text("VIOL", "iterator-wrong-uv " + id + "coordinate " + S(c) + " is " + std::to_string(u[c]) + " instead of " + std::to_string(p.uv[c])); return 0; }
          continue;
        }
        int ev = -7, iw = -7; long ir = -7; void *tab = nullptr, *rec = nullptr;
        bool ok;
        int *pe = t.mask & 1 ? &ev : nullptr, *pw = t.mask & 16 ? &iw : nullptr; long *pi = t.mask & 4 ? &ir : nullptr;
        if (t.kind == VIS) ok = oi_vis_iter_next(&t.it, pe, t.mask & 2 ? (oi_vis **)&tab : nullptr, pi, t.mask & 8 ? (oi_vis_record **)&rec : nullptr, pw);
        else if (t.kind == VIS2) ok = oi_vis2_iter_next(&t.it, pe, t.mask & 2 ? (oi_vis2 **)&tab : nullptr, pi, t.mask & 8 ? (oi_vis2_record **)&rec : nullptr, pw);
        else ok = oi_t3_iter_next(&t.it, pe, t.mask & 2 ? (oi_t3 **)&tab : nullptr, pi, t.mask & 8 ? (oi_t3_record **)&rec : nullptr, pw);
        if (t.at >= t.want.size()) {
          if (ok) { report_text("VIOL", "iterator-invents " + id + "a datum (" + S(ev) + "," + S(ir) + "," + S(iw) + ") that is not accepted or was already visited"); return 0; }
          t.cur = false;
          if (++t.past >= 3) { pend.erase(pend.begin() + (long)w); break; }
          continue;
        }
        const IterPt &p = t.want[t.at];
        std::string should = "(" + S(p.ev) + "," + S(p.irec) + "," + S(p.iw) + ")";
        if (!ok) { report_text("VIOL", "iterator-misses " + id + "the iteration ended although " + should + " is accepted"); return 0; }
        if (((t.mask & 1) && ev != p.ev) || ((t.mask & 4) && ir != p.irec) || ((t.mask & 16) && iw != p.iw)) { report_text("VIOL", "iterator-wrong-datum " + id + "(" + S(ev) + "," + S(ir) + "," + S(iw) + ") instead of " + should); return 0; }
        GList *l = t.kind == VIS ? o->visList : t.kind == VIS2 ? o->vis2List : o->t3List;
        void *wt = g_list_nth_data(l, (guint)(p.ev - 1));
        void *wr = t.kind == VIS ? (void *)&((oi_vis *)wt)->record[p.irec] : t.kind == VIS2 ? (void *)&((oi_vis2 *)wt)->record[p.irec] : (void *)&((oi_t3 *)wt)->record[p.irec];
        if (((t.mask & 2) && tab != wt) || ((t.mask & 8) && rec != wr)) { report_text("VIOL", "iterator-wrong-pointer " + id + "table or record pointer of another datum than " + should); return 0; }
        t.at++; t.cur = true;
      }
    }
    for (size_t i = 0; i < L.size(); i++) if (L[i]) {
      if (dump(from_oi(L[i])) != D[i]) { report_text("VIOL", "iterator-changes-data iterating changed the dataset: " + slice(diff(D[i], dump(from_oi(L[i]))))); return 0; }
      drop(L[i]);
    }
    report("DONE:%ld", switches);
    return 0;
  };
  ProcResult p = runp(R, 0, body);
  disarm(R);
  R.detail += hx(p.rep);
  R.states.push_back(fnvs(p.rep));
  if (crashed_badly(p)) { R.viol("iterator-abnormal", "iteration " + p.describe() + ": " + slice(p.err)); return; }
  std::string v = rep_text(p, "VIOL");
  if (!v.empty()) { size_t b = v.find(' '); R.viol(v.substr(0, b), v.substr(b + 1)); return; }
  for (size_t q = p.rep.find("POINTS:"); q != std::string::npos; q = p.rep.find("POINTS:", q + 1)) { R.cnt["iterations"]++; R.cnt["data points visited"] += atol(p.rep.c_str() + q + 7); }
  for (size_t q = p.rep.find("AMBIG"); q != std::string::npos; q = p.rep.find("AMBIG", q + 1)) R.cnt["filters skipped because of rounding"]++;
  std::string sw = rep_text(p, "DONE"); if (!sw.empty()) { R.cnt["runs completed"]++; R.cnt["task switches"] += atol(sw.c_str()); }
}

// ---------------------------------------------------------------- C18
// everything alive: single tables and datasets; each with the content it must have
struct Obj { int kind; void *p; std::string want, what; };     // kind 0..8 tables, 9 dataset
static std::string obj_dump(int kind, const void *p) {
  switch (kind) {
    case 0: { oi_fits o; memset(&o, 0, sizeof o); o.targets = *(const oi_target *)p; return dump_targets(from_oi(&o)); }
    case 1: return dump_arr(from_arr((const oi_array *)p));
    case 2: return dump_wav(from_wav((const oi_wavelength *)p));
    case 3: return dump_corr(from_corr((const oi_corr *)p));
    case 4: return dump_pol(from_pol((const oi_inspol *)p));
    case 5: return dump_tab(from_vis((const oi_vis *)p));
    case 6: return dump_tab(from_vis2((const oi_vis2 *)p));
    case 7: return dump_tab(from_t3((const oi_t3 *)p));
    case 8: return dump_tab(from_flux((const oi_flux *)p));
    default: return dump(from_oi((const oi_fits *)p));
  }
}
static void *obj_dup(int kind, const void *p) {
  switch (kind) {
    case 0: return dup_oi_target((const oi_target *)p);
    case 1: return dup_oi_array((const oi_array *)p);
    case 2: return dup_oi_wavelength((const oi_wavelength *)p);
    case 3: return dup_oi_corr((const oi_corr *)p);
    case 4: return dup_oi_inspol((const oi_inspol *)p);
    case 5: return dup_oi_vis((const oi_vis *)p);
    case 6: return dup_oi_vis2((const oi_vis2 *)p);
    case 7: return dup_oi_t3((const oi_t3 *)p);
    default: return dup_oi_flux((const oi_flux *)p);
  }
}
static void obj_free(int kind, void *p) {
  switch (kind) {
    case 0: free_oi_target((oi_target *)p); break;
    case 1: free_oi_array((oi_array *)p); break;
    case 2: free_oi_wavelength((oi_wavelength *)p); break;
    case 3: free_oi_corr((oi_corr *)p); break;
    case 4: free_oi_inspol((oi_inspol *)p); break;
    case 5: free_oi_vis((oi_vis *)p); break;
    case 6: free_oi_vis2((oi_vis2 *)p); break;
    case 7: free_oi_t3((oi_t3 *)p); break;
    case 8: free_oi_flux((oi_flux *)p); break;
    default: free_oi_fits((oi_fits *)p); free(p); return;
  }
  sim_free(p);
}
// overwrite all values of a table, keeping sizes, revisions and names
template <class V> static void scr(V *v, long n, Rng &r) { if (v) for (long i = 0; i < n; i++) v[i] = (V)r.range(1, 100); }
static void scribble(int kind, void *p, Rng &r) {
  switch (kind) {
    case 0: { auto t = (oi_target *)p; for (int i = 0; i < t->ntarget; i++) { t->targ[i].raep0 = r.unit(); t->targ[i].target_id = (int)r.range(1, 999); strcpy(t->targ[i].target, "changed"); strcpy(t->targ[i].spectyp, "X"); } break; }
    case 1: { auto t = (oi_array *)p; t->arrayx = r.unit(); for (int i = 0; i < t->nelement; i++) { t->elem[i].diameter = (float)r.unit(); strcpy(t->elem[i].tel_name, "chg"); t->elem[i].sta_index = (int)r.range(1, 999); t->elem[i].staxyz[2] = r.unit(); } break; }
    case 2: { auto t = (oi_wavelength *)p; scr(t->eff_wave, t->nwave, r); scr(t->eff_band, t->nwave, r); break; }
    case 3: { auto t = (oi_corr *)p; scr(t->iindx, t->ncorr, r); scr(t->jindx, t->ncorr, r); scr(t->corr, t->ncorr, r); break; }
    case 4: { auto t = (oi_inspol *)p; for (long i = 0; i < t->numrec; i++) { auto &x = t->record[i]; x.mjd_obs = r.unit(); x.target_id = 999; strcpy(x.insname, "chg"); scr((float *)x.jxx, 2 * t->nwave, r); scr((float *)x.jyy, 2 * t->nwave, r); scr((float *)x.jxy, 2 * t->nwave, r); scr((float *)x.jyx, 2 * t->nwave, r); } break; }
    case 5: { auto t = (oi_vis *)p; strcpy(t->date_obs, "chg"); for (long i = 0; i < t->numrec; i++) { auto &x = t->record[i]; x.mjd = r.unit(); x.ucoord = r.unit(); x.sta_index[1] = 999; x.target_id = 999;
      for (DATA *v : {x.visamp, x.visamperr, x.visphi, x.visphierr}) scr(v, t->nwave, r);
      if (t->usecomplex) for (DATA *v : {x.rvis, x.rviserr, x.ivis, x.iviserr}) scr(v, t->nwave, r);
      if (t->usevisrefmap) for (long q = 0; q < (long)t->nwave * t->nwave; q++) x.visrefmap[q] = !x.visrefmap[q];
      for (int q = 0; q < t->nwave; q++) x.flag[q] = !x.flag[q]; } break; }
    case 6: { auto t = (oi_vis2 *)p; strcpy(t->date_obs, "chg"); for (long i = 0; i < t->numrec; i++) { auto &x = t->record[i]; x.mjd = r.unit(); x.ucoord = r.unit(); x.sta_index[1] = 999; x.target_id = 999; scr(x.vis2data, t->nwave, r); scr(x.vis2err, t->nwave, r); for (int q = 0; q < t->nwave; q++) x.flag[q] = !x.flag[q]; } break; }
    case 7: { auto t = (oi_t3 *)p; strcpy(t->date_obs, "chg"); for (long i = 0; i < t->numrec; i++) { auto &x = t->record[i]; x.mjd = r.unit(); x.u1coord = r.unit(); x.sta_index[2] = 999; x.target_id = 999; for (DATA *v : {x.t3amp, x.t3amperr, x.t3phi, x.t3phierr}) scr(v, t->nwave, r); for (int q = 0; q < t->nwave; q++) x.flag[q] = !x.flag[q]; } break; }
    case 8: { auto t = (oi_flux *)p; strcpy(t->date_obs, "chg"); for (long i = 0; i < t->numrec; i++) { auto &x = t->record[i]; x.mjd = r.unit(); x.target_id = 999; scr(x.fluxdata, t->nwave, r); scr(x.fluxerr, t->nwave, r); for (int q = 0; q < t->nwave; q++) x.flag[q] = !x.flag[q]; } break; }
    default: {
      auto o = (oi_fits *)p;
      strcpy(o->header.object, "changed");
      scribble(0, &o->targets, r);
      GList *L[] = {nullptr, o->arrayList, o->wavelengthList, o->corrList, o->inspolList, o->visList, o->vis2List, o->t3List, o->fluxList};
      for (int k = 1; k < 9; k++) for (GList *l = L[k]; l; l = l->next) scribble(k, l->data, r);
    }
  }
}
static const char *obj_name[] = {"target table", "array table", "wavelength table", "correlation table", "polarisation table", "OI_VIS table", "OI_VIS2 table", "OI_T3 table", "OI_FLUX table", "dataset"};
void c18(Plan &P, RunResult &R) {
  Inputs I = gen_inputs(P, R, 2, 1, 6);
  int nev = (int)P.pick("nevents", 3, 14);
  uint64_t sched = P.rng("sched").next();
  FilterSpec f0 = gen_spec(P, "f0", as_read(I.ds[0]), false);
  arm_reading(P, R, I.path);
  auto body = [&]() -> int {
    std::vector<Obj> O;
    int64_t m0 = W->mallocs_live;
    for (auto &p : I.path) { oi_fits *o = read_again(p); if (!o) { report("UNREADABLE"); m0 = INT64_MIN; continue; } O.push_back({9, o, obj_dump(9, o), "a dataset read"}); }
    if (m0 != INT64_MIN) { for (auto &x : O) (void)x; }
    Rng r(sched);
    std::string past;
    for (int e = 0; e < nev && !O.empty(); e++) {
      size_t w = (size_t)r.range(0, (int64_t)O.size() - 1);
      Obj &x = O[w];
      int act = (int)r.range(0, 9);
      std::string ev;
      bool used = false;   // content of a changed dataset may be inconsistent: only copied and freed
      used = x.kind == 9 && x.what.find("changed") != std::string::npos;
      if (act <= 4) {
        int k; const void *src; std::string want;
        if (x.kind == 9) {
          oi_fits *o = (oi_fits *)x.p;
          GList *L[] = {nullptr, o->arrayList, o->wavelengthList, o->corrList, o->inspolList, o->visList, o->vis2List, o->t3List, o->fluxList};
          std::vector<int> ks = {0}; for (int q = 1; q < 9; q++) if (L[q]) { ks.push_back(q); ks.push_back(q); }
          k = ks[(size_t)r.range(0, (int64_t)ks.size() - 1)];
          src = k ? g_list_nth_data(L[k], (guint)r.range(0, (int64_t)g_list_length(L[k]) - 1)) : (void *)&o->targets;
        } else { k = x.kind; src = x.p; }
        want = obj_dump(k, src);
        void *c = obj_dup(k, src);
        std::string got = obj_dump(k, c);
        if (got != want) { report_text("VIOL", "copy-differs a copy of a " + std::string(obj_name[k]) + " differs from it: " + slice(diff(want, got))); return 0; }
        ev = std::string("copy ") + obj_name[k];
        O.push_back({k, c, want, std::string("a copy of a ") + obj_name[k]});
      } else if (act == 5 && x.kind == 9 && !used) {
        oi_filter_spec sp; memset(&sp, 0, sizeof sp); apply_spec(r.chance(1, 2) ? f0 : FilterSpec(), &sp);
        oi_fits *o = (oi_fits *)malloc(sizeof *o); memset(o, 0x3C, sizeof *o);
        apply_oi_filter((oi_fits *)x.p, &sp, o);
        O.push_back({9, o, obj_dump(9, o), "a filtered dataset"}); ev = "filter";
      } else if (act == 6 && x.kind == 9 && !used) {
        GList *l = nullptr; int n = 0;
        for (auto &y : O) if (y.kind == 9 && y.what.find("changed") == std::string::npos && ((oi_fits *)y.p)->targets.ntarget > 0 && n < 3) { DS d = from_oi((oi_fits *)y.p); bool ok = !d.w.empty(); for (auto &q : d.p) for (auto &t : q.rec) { bool f2 = false; for (auto &z : d.w) if (z.name == t.ins) f2 = true; ok &= f2; } if (ok) { l = g_list_append(l, y.p); n++; } }
        if (n >= 1) {
          oi_fits *o = (oi_fits *)malloc(sizeof *o); memset(o, 0x3C, sizeof *o);
          merge_oi_fits_list(l, o);
          O.push_back({9, o, obj_dump(9, o), "a merged dataset"}); ev = "merge " + S(n);
        }
        g_list_free(l);
      } else if (act == 7) {
        scribble(x.kind, x.p, r); x.want = obj_dump(x.kind, x.p);
        if (x.what.find("changed") == std::string::npos) x.what += " (changed)";
        ev = std::string("change ") + x.what;
      } else {
        ev = "free " + x.what;
        obj_free(x.kind, x.p); O.erase(O.begin() + (long)w);
      }
      past += ev + "; ";
      for (auto &y : O) { std::string d = obj_dump(y.kind, y.p); if (d != y.want) { report_text("VIOL", "not-independent " + y.what + " changed through: " + past + slice(diff(y.want, d))); return 0; } }
    }
    while (!O.empty()) {
      size_t w = (size_t)r.range(0, (int64_t)O.size() - 1);
      past += "free " + O[w].what + "; ";
      obj_free(O[w].kind, O[w].p); O.erase(O.begin() + (long)w);
      for (auto &y : O) if (obj_dump(y.kind, y.p) != y.want) { report_text("VIOL", "not-independent " + y.what + " changed through: " + past); return 0; }
    }
    report("DONE %s", hx(past).c_str());
    return 0;
  };
  ProcResult p = runp(R, 0, body);
  disarm(R);
  R.detail += hx(p.rep); R.states.push_back(fnvs(p.rep));
  if (crashed_badly(p)) { R.viol("copies-abnormal", "copying, changing and freeing " + p.describe() + ": " + slice(p.err)); return; }
  std::string v = rep_text(p, "VIOL");
  if (!v.empty()) { size_t b = v.find(' '); R.viol(v.substr(0, b), v.substr(b + 1)); return; }
  R.cnt[p.rep.find("DONE") == std::string::npos ? "runs ended by a diagnosed abort" : "event sequences completed"]++;
}

// ---------------------------------------------------------------- C19
static std::string nodate(std::string t) { for (size_t q = t.find("  DATE    = '"); q != std::string::npos; q = t.find("  DATE    = '", q + 1)) { size_t e = t.find('\n', q); t.erase(q + 12, e == std::string::npos ? e : e - q - 12); } return t; }
static std::string facts_wrong(const oi_fits *o, const DS &d, Rng &r) {
  long c[3] = {-1, -1, -1}; int m = r.chance(1, 2) ? 7 : (int)r.range(0, 7);
  count_oi_fits_data(o, m & 1 ? &c[0] : nullptr, m & 2 ? &c[1] : nullptr, m & 4 ? &c[2] : nullptr);
  for (int k = 0; k < 3; k++) { long w = (m & (1 << k)) ? ref_count(d, k) : -1; if (c[k] != w) return "count-wrong number of unflagged " + std::string(kind_ext[k]) + " data is given as " + S(c[k]) + " instead of " + S(w); }
  if ((is_oi_fits_two(o) != 0) != (d.h[H_CONTENT] == "OIFITS2")) return "version-wrong is_oi_fits_two() is wrong";
  if ((is_oi_fits_one(o) != 0) != ref_one(d)) return "version-wrong is_oi_fits_one() is wrong";
  if (d.d[0].size() + d.d[1].size() + d.d[2].size() + d.d[3].size()) {
    double lo = 1e300, hi = -1e300; bool odd = false;
    for (auto &q : d.d) for (auto &T : q) for (auto &x : T.rec) { if (!(x.mjd > 0 && x.mjd < 100000)) odd = true; lo = std::min(lo, x.mjd); hi = std::max(hi, x.mjd); }
    if (!odd) for (double days : {0.0, hi - lo, (hi - lo) * 0.999 - 1e-9, (hi - lo) * 1.001 + 1e-9, 0.5, 1e6}) if ((is_atomic(o, days) != 0) != ref_atomic(d, days)) return "atomic-wrong is_atomic(" + std::to_string(days) + ") is wrong";
  }
  std::string s = format_oi_fits_summary(o), w = ref_summary(d);
  if (s != w) return "summary-wrong the summary differs from the content: " + slice(diff(w, s));
  return "";
}
static std::string captured_stdout() { fflush(stdout); std::string e(1 << 17, 0); ssize_t n = pread(1, &e[0], e.size(), 0); e.resize(n > 0 ? (size_t)n : 0); return e; }
void c19(Plan &P, RunResult &R) {
  Inputs I = gen_inputs(P, R, 3, 1, 5);
  if (P.chance("single", 1, 2)) {       // small datasets, so that "atomic" ones occur
    for (size_t i = 0; i < I.ds.size(); i++) {
      DS d = I.ds[i]; Rng r = P.rng("single" + S((int64_t)i));
      while (d.a.size() > 1 && r.chance(3, 4)) d.a.pop_back();
      while (d.w.size() > 1 && r.chance(3, 4)) d.w.pop_back();
      while (d.t.size() > 1 && r.chance(3, 4)) d.t.pop_back();
      if (r.chance(1, 2)) { double base = 50000 + r.unit() * 1000; for (auto &q : d.d) for (auto &T : q) for (auto &x : T.rec) x.mjd = base + (r.chance(1, 2) ? r.unit() : 0); }
      auto haveA = [&](const std::string &n) { for (auto &x : d.a) if (x.name == n) return true; return false; };
      auto haveW = [&](const std::string &n) { for (auto &x : d.w) if (x.name == n) return true; return false; };
      for (auto &q : d.d) q.erase(std::remove_if(q.begin(), q.end(), [&](const Tab &T) { return (!T.arr.empty() && !haveA(T.arr)) || !haveW(T.ins); }), q.end());
      d.p.erase(std::remove_if(d.p.begin(), d.p.end(), [&](const Pol &p) { if (!haveA(p.arr)) return true; for (auto &x : p.rec) if (!haveW(x.ins)) return true; return false; }), d.p.end());
      for (auto &q : d.d) for (auto &T : q) for (auto &x : T.rec) x.tid = d.t[0].id;
      for (auto &p : d.p) for (auto &x : p.rec) x.tid = d.t[0].id;
      I.ds[i] = d; disk_put(I.path[i], fits_encode(d, enc_opt(P, "se" + S((int64_t)i))));
    }
    I.damaged = false;
  }
  int nst = (int)P.pick("steps", 0, 4);
  uint64_t sched = P.rng("sched").next();
  std::vector<FilterSpec> fs; for (int i = 0; i < 3; i++) fs.push_back(gen_spec(P, "f" + S(i), as_read(I.ds[0]), false));
  DiskImage img = disk_image();
  arm_reading(P, R, I.path);
  auto body = [&]() -> int {
    std::vector<oi_fits *> L; std::vector<std::string> how;
    Rng r(sched);
    for (auto &p : I.path) { oi_fits *o = read_again(p); if (o) { L.push_back(o); how.push_back("read"); } }
    for (int s = 0; s < nst && !L.empty(); s++) {
      size_t a = (size_t)r.range(0, (int64_t)L.size() - 1), b = (size_t)r.range(0, (int64_t)L.size() - 1);
      oi_fits *o = (oi_fits *)malloc(sizeof *o); memset(o, 0x3C, sizeof *o);
      if (r.chance(1, 2)) { oi_filter_spec sp; memset(&sp, 0, sizeof sp); apply_spec(fs[(size_t)r.range(0, 2)], &sp); apply_oi_filter(L[a], &sp, o); L.push_back(o); how.push_back(how[a] + ", filtered"); }
      else {
        bool ok = true;
        for (size_t q : {a, b}) { DS d = from_oi(L[q]); if (d.t.empty() || d.w.empty()) ok = false; for (auto &p : d.p) for (auto &t : p.rec) { bool f2 = false; for (auto &z : d.w) if (z.name == t.ins) f2 = true; ok &= f2; } }
        if (!ok) { free(o); continue; }
        merge_oi_fits(o, L[a], L[b], NULL); L.push_back(o); how.push_back("merge of " + how[a] + " and " + how[b]);
      }
    }
    // facts of all datasets, in drawn order, some repeatedly
    size_t n = L.size();
    for (size_t q = 0; q < 2 * n; q++) {
      size_t i = q < n ? q : (size_t)r.range(0, (int64_t)n - 1);
      bool touched = q >= n && r.chance(1, 2);
      if (touched) {                         // the client changes revisions and CONTENT of the dataset, or is done with part of its data
        oi_fits *o = L[i];
        static const char *CT[] = {"", "", "", "OIFITS2", "OIFITS1", "OIFITS", "OIFITS2X", "OIFITS22", "oifits2", "XOIFITS2"};
        g_strlcpy(o->header.content, CT[r.range(0, 9)], FLEN_VALUE);
        std::vector<int *> rv = {&o->targets.revision};
        for (GList *l = o->arrayList; l; l = l->next) rv.push_back(&((oi_array *)l->data)->revision);
        for (GList *l = o->wavelengthList; l; l = l->next) rv.push_back(&((oi_wavelength *)l->data)->revision);
        for (GList *l = o->corrList; l; l = l->next) rv.push_back(&((oi_corr *)l->data)->revision);
        for (GList *l = o->inspolList; l; l = l->next) rv.push_back(&((oi_inspol *)l->data)->revision);
        for (GList *l = o->visList; l; l = l->next) rv.push_back(&((oi_vis *)l->data)->revision);
        for (GList *l = o->vis2List; l; l = l->next) rv.push_back(&((oi_vis2 *)l->data)->revision);
        for (GList *l = o->t3List; l; l = l->next) rv.push_back(&((oi_t3 *)l->data)->revision);
        for (GList *l = o->fluxList; l; l = l->next) rv.push_back(&((oi_flux *)l->data)->revision);
        for (int *x : rv) *x = 1;
        if (r.chance(2, 3)) *rv[(size_t)r.range(0, (int64_t)rv.size() - 1)] = r.chance(1, 4) ? 3 : 2;
      }
      DS d = from_oi(L[i]);
      std::string v = facts_wrong(L[i], d, r);
      if (!v.empty()) { report_text("VIOL", v + " (dataset: " + how[i] + ")"); return 0; }
      report("FACT");
      if (r.chance(1, 3)) {
        const FilterSpec &f = fs[(size_t)r.range(0, 2)];
        oi_filter_spec sp; memset(&sp, 0, sizeof sp); apply_spec(f, &sp);
        std::string t = format_oi_filter(&sp);
        if (t != ref_spec_text(f)) { report_text("VIOL", "filter-text-wrong the description of a filter is wrong: " + diff(ref_spec_text(f), t)); return 0; }
      }
      if (r.chance(1, 4)) {
        std::string before = captured_stdout();
        print_oi_fits_summary(L[i]);
        std::string after = captured_stdout();
        if (after.size() < (1 << 17) && after != before + ref_summary(d)) { report_text("VIOL", "summary-wrong the printed summary differs from the content"); return 0; }
      }
    }
    for (auto *o : L) drop(o);
    report("DONE");
    return 0;
  };
  ProcResult p = runp(R, 0, body);
  disarm(R);
  R.detail += hx(p.rep + p.out); R.states.push_back(fnvs(p.rep + p.out));
  if (crashed_badly(p)) { R.viol("facts-abnormal", "asking for facts about datasets " + p.describe() + ": " + slice(p.err)); return; }
  std::string v = rep_text(p, "VIOL");
  if (!v.empty()) { size_t b = v.find(' '); R.viol(v.substr(0, b), v.substr(b + 1)); return; }
  for (size_t q = p.rep.find("FACT"); q != std::string::npos; q = p.rep.find("FACT", q + 1)) R.cnt["datasets described"]++;
  R.cnt[p.rep.find("DONE") == std::string::npos ? "runs ended by a diagnosed abort" : "runs completed"]++;
  // what the tools print is what they read and what they wrote
  if (I.damaged) return;
  disk_restore(img);
  std::string name; std::vector<std::string> args = some_tool(P, "t", I.path, "/sim/out.fits", name);
  ProcResult dry = runp(R, 0, [&]() -> int { return tool(name.c_str(), args); });
  for (int round = 0; round < 3; round++) {
    ProcResult t = dry;
    if (round) { disk_restore(img); arm(choose_faults(P, "r" + S(round), 0, dry, FS_IO, 2)); t = runp(R, 0, [&]() -> int { return tool(name.c_str(), args); }); disarm(R); }
    if (!t.exited || t.code) continue;
    std::string why, text = nodate(t.out);
    if (!clean_messages(t, &why)) continue;
    std::vector<std::string> want;
    if (name == "check" || name == "filter") want.push_back(nodate(ref_summary(as_read(I.ds[0]))));
    if (name == "upgrade") { DS u = as_read(I.ds[0]); u.h[H_ORIGIN] = args[2]; u.h[H_OBSERVER] = args[3]; u.h[H_INSMODE] = args[4]; want.push_back(nodate(ref_summary(u))); }
    if (name == "merge" || name == "filter") { Decoded D = fits_decode(disk_get("/sim/out.fits")); if (!D.ok) continue; D.ds.h[H_CONTENT] = fits_decode(disk_get("/sim/out.fits")).ds.h[H_CONTENT]; want.push_back(nodate(ref_summary(D.ds))); }
    if (name == "filter") {
      FilterSpec f;
      for (auto &a : args) {
        double v = atof(a.substr(a.find('=') + 1).c_str());
        auto is = [&](const char *o) { return a.compare(0, strlen(o), o) == 0; };
        if (is("--target-id=")) f.target = (int)v; else if (is("--mjd-min=")) f.mjd[0] = v; else if (is("--wave-min=")) f.wave[0] = (float)(1e-9 * v); else if (is("--wave-max=")) f.wave[1] = (float)(1e-9 * v);
        else if (is("--arrname=")) f.arr = "A*"; else if (is("--accept-flagged=")) f.flagged = false; else if (is("--bas-min=")) f.bas[0] = v; else if (is("--snr-min=")) f.snr[0] = (float)v; else if (is("--accept-vis=")) f.vis = false; else if (is("--uvrad-max=")) f.uv[1] = v;
      }
      std::string w = ref_spec_text(f);
      if (text.find(w) == std::string::npos) { R.viol("tool-filter-text-wrong", "filter did not print the criteria it was given: " + slice(text, 1500)); return; }
    }
    for (size_t q = 0; q < want.size(); q++) {
      // what is written is always version 2; the summary printed before may say 1
      std::string w = want[q].substr(want[q].find('\n') + 1);
      if (text.find(w) == std::string::npos) { R.viol("tool-summary-wrong", name + " printed no summary that agrees with the " + (name == "merge" || q ? "file written" : "file read") + ": " + slice(text, 700)); return; }
    }
    if (!want.empty()) R.cnt["tool summaries compared"]++;
  }
}
