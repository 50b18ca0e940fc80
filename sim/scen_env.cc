// Scenarios about the environment of an operation: memory exhaustion, process
// history, reproducibility, hostile files, interrupted pipelines.
#include "scen.h"
#include <algorithm>
#include <malloc.h>
#include <regex>
#include <unistd.h>

static std::string S(int64_t v) { return std::to_string((long long)v); }
static std::string hx(const std::string &s) { char b[40]; snprintf(b, sizeof b, "%016llx", (unsigned long long)fnvs(s)); return b; }

// messages without process ids, wall clock and addresses
std::string norm_text(const std::string &s) {
  std::string r;
  for (size_t i = 0; i < s.size();) {
    if (s[i] == '(' ) {                       // "(name:123): "
      size_t e = s.find("): ", i);
      size_t c = s.rfind(':', e);
      if (e != std::string::npos && e - i < 60 && c != std::string::npos && c > i && c < e && s.find_first_not_of("0123456789", c + 1) == e) { r += "(pid): "; i = e + 3; continue; }
    }
    if (isdigit((unsigned char)s[i]) && i + 12 < s.size() && s[i + 2] == ':' && s[i + 5] == ':' && s[i + 8] == '.' && s.compare(i + 12, 2, ": ") == 0) { i += 14; continue; }
    if (s.compare(i, 5, " at 0") == 0 && s[i + 5] == 'x') { size_t e = s.find(' ', i + 5); if (e == std::string::npos) e = s.size(); r += " at PTR"; i = e; continue; }
    r += s[i++];
  }
  return r;
}
std::string norm_file(std::vector<uint8_t> b) {
  for (size_t c = 0; c + 80 <= b.size(); c += 80) {
    if (!memcmp(&b[c], "CHECKSUM= '", 11) || !memcmp(&b[c], "DATE    = '", 11)) memset(&b[c + 10], '.', 70);
    if (!memcmp(&b[c], "DATASUM = '", 11)) memset(&b[c + 31], '.', 49);
  }
  return std::string(b.begin(), b.end());
}

// ---------------------------------------------------------------- library calls on one dataset
std::string iter_text(const oi_fits *o, const oi_filter_spec *sp) {
  std::string r; char b[200];
  int ev; long ir; int iw; double e, u, v, u2, v2;
  { oi_vis_iter it; oi_vis_iter_init(&it, o, sp); oi_vis *t; oi_vis_record *q; while (oi_vis_iter_next(&it, &ev, &t, &ir, &q, &iw)) { oi_vis_iter_get_uv(&it, &e, &u, &v); snprintf(b, sizeof b, "%d/%ld/%d %.17g %.17g %.17g %.17g\n", ev, ir, iw, e, u, v, q->visamp[iw]); r += b; } }
  { oi_vis2_iter it; oi_vis2_iter_init(&it, o, sp); oi_vis2 *t; oi_vis2_record *q; while (oi_vis2_iter_next(&it, &ev, &t, &ir, &q, &iw)) { oi_vis2_iter_get_uv(&it, &e, &u, &v); snprintf(b, sizeof b, "%d/%ld/%d %.17g %.17g %.17g %.17g\n", ev, ir, iw, e, u, v, q->vis2data[iw]); r += b; } }
  { oi_t3_iter it; oi_t3_iter_init(&it, o, sp); oi_t3 *t; oi_t3_record *q; while (oi_t3_iter_next(&it, &ev, &t, &ir, &q, &iw)) { oi_t3_iter_get_uv(&it, &e, &u, &v, &u2, &v2); snprintf(b, sizeof b, "%d/%ld/%d %.17g %.17g %.17g %.17g %.17g %.17g\n", ev, ir, iw, e, u, v, u2, v2, q->t3phi[iw]); r += b; } }
  return r;
}
static const check_func CHECKS[] = {check_tables, check_header, check_keywords, check_visrefmap, check_unique_targets, check_targets_present, check_arrname,
                                    check_elements_present, check_corr_present, check_flagging, check_t3amp, check_waveorder, check_time, check_flux};
std::string checks_text(const oi_fits *o) {
  std::string r;
  for (check_func f : CHECKS) {
    oi_check_result c; memset(&c, 0x3C, sizeof c);
    int lv = f(o, &c);
    r += S(lv) + ":";
    if (lv) { char *t = format_check_result(&c); r += t; }
    free_check_result(&c);
  }
  return r;
}
std::string dups_text(const oi_fits *o) {
  // copy every table, free nothing of the original, look at the copy
  std::string r;
  { oi_target *t = dup_oi_target(&o->targets); for (int i = 0; i < t->ntarget; i++) r += S(t->targ[i].target_id) + t->targ[i].target + ","; free_oi_target(t); sim_free(t); }
#define DUP(LIST, TYPE, NAME, CONV, DUMP) for (GList *l = o->LIST; l; l = l->next) { TYPE *t = dup_##NAME((TYPE *)l->data); r += DUMP(CONV(t)); free_##NAME(t); sim_free(t); }
  DUP(arrayList, oi_array, oi_array, from_arr, dump_arr)
  DUP(wavelengthList, oi_wavelength, oi_wavelength, from_wav, dump_wav)
  DUP(corrList, oi_corr, oi_corr, from_corr, dump_corr)
  DUP(inspolList, oi_inspol, oi_inspol, from_pol, dump_pol)
  DUP(visList, oi_vis, oi_vis, from_vis, dump_tab)
  DUP(vis2List, oi_vis2, oi_vis2, from_vis2, dump_tab)
  DUP(t3List, oi_t3, oi_t3, from_t3, dump_tab)
  DUP(fluxList, oi_flux, oi_flux, from_flux, dump_tab)
  return r;
}
std::string lookups_text(const oi_fits *o) {
  std::string r;
  auto one = [&](const char *a, const char *i, const char *c, int tid, int sta) {
    r += oi_fits_lookup_array(o, a) ? "A" : "-"; r += oi_fits_lookup_element(o, a, sta) ? "E" : "-";
    r += oi_fits_lookup_wavelength(o, i) ? "W" : "-"; r += oi_fits_lookup_corr(o, c) ? "C" : "-"; r += oi_fits_lookup_target(o, tid) ? "T" : "-";
  };
#define LK(LIST, TYPE, STA) for (GList *l = o->LIST; l; l = l->next) { TYPE *t = (TYPE *)l->data; for (long k = 0; k < t->numrec; k++) one(t->arrname, t->insname, t->corrname, t->record[k].target_id, t->record[k].STA); }
  LK(visList, oi_vis, sta_index[1]) LK(vis2List, oi_vis2, sta_index[0]) LK(t3List, oi_t3, sta_index[2]) LK(fluxList, oi_flux, sta_index)
  return r;
}
std::string facts_text(const oi_fits *o) {
  long a, b, c; count_oi_fits_data(o, &a, &b, &c);
  return std::string(format_oi_fits_summary(o)) + S(is_oi_fits_one(o)) + S(is_oi_fits_two(o)) + S(is_atomic(o, 0.5)) + S(a) + "," + S(b) + "," + S(c);
}
// a job: what one process does with files on the simulated disk
// bits of lib: 1 facts, 2 checks, 4 iterators, 8 copies, 16 filter, 32 merge, 64 write, 128 look-ups
std::string lib_text(const Job &J, int &bad) {
  std::vector<oi_fits *> L;
  std::string r;
  bad = 0;
  for (auto &p : J.in) {
    oi_fits *o = (oi_fits *)malloc(sizeof *o); memset(o, 0x3C, sizeof *o);
    int st = 0;
    if (read_oi_fits(p.c_str(), o, &st)) { r += "read " + S(st) + "\n"; free(o); bad = 1; continue; }
    L.push_back(o);
    r += "read 0 " + hx(dump(from_oi(o))) + "\n";
  }
  oi_filter_spec sp; memset(&sp, 0, sizeof sp); apply_spec(J.f, &sp);
  size_t base = L.size();
  for (size_t i = 0; i < base; i++) {
    if (J.lib & 1) r += "facts " + hx(facts_text(L[i])) + "\n";
    if (J.lib & 2) r += "checks " + hx(checks_text(L[i])) + "\n";
    if (J.lib & 4) r += "iter " + hx(iter_text(L[i], nullptr)) + " " + hx(iter_text(L[i], &sp)) + "\n";
    if (J.lib & 8) r += "dups " + hx(dups_text(L[i])) + "\n";
    if (J.lib & 128) r += "lookups " + hx(lookups_text(L[i])) + "\n";
    if (J.lib & 16) { oi_fits *o = (oi_fits *)malloc(sizeof *o); memset(o, 0x3C, sizeof *o); apply_oi_filter(L[i], &sp, o); r += "filter " + hx(dump(from_oi(o))) + "\n"; L.push_back(o); }
  }
  if ((J.lib & 32) && base >= 1) {
    GList *l = nullptr;
    for (size_t i = 0; i < base; i++) l = g_list_append(l, L[i]);
    if (base == 1) l = g_list_append(l, L[0]);
    oi_fits *o = (oi_fits *)malloc(sizeof *o); memset(o, 0x3C, sizeof *o);
    if (base == 2 && (J.lib & 1)) merge_oi_fits(o, L[0], L[1], NULL);
    else merge_oi_fits_list(l, o);
    g_list_free(l);
    r += "merge " + hx(dump(from_oi(o))) + " " + hx(lookups_text(o)) + hx(facts_text(o)) + "\n";
    L.push_back(o);
  }
  if ((J.lib & 64) && !L.empty()) { int st = 0; write_oi_fits(J.out.c_str(), *L.back(), &st); r += "write " + S(st) + "\n"; if (st) bad = 1; }
  for (auto *o : L) { free_oi_fits(o); free(o); }
  return r;
}
static int run_lib(const Job &J) { int bad; report_text("LIB", lib_text(J, bad)); return bad; }
int run_job(const Job &J) {
  if (J.name == "lib") return run_lib(J);
  if (J.name == "write") { int st = op_write(J.wds, J.out); report("WR:%d", st); return st ? 1 : 0; }
  if (J.name == "tables") { DS d; int st = op_read_tables(J.in[0], d, J.lib & 3); report("TB:%d %s", st, st ? "" : hx(dump(d)).c_str()); return st ? 1 : 0; }
  if (J.name == "demo") return run_demo(J.text, J.out, J.in[0]);
  return tool(J.name.c_str(), J.args);
}
Job gen_job(Plan &P, const std::string &k, const std::vector<std::string> &in, const std::vector<DS> &ds, const std::string &out, int kinds) {
  Job J; J.in = in; J.out = out;
  if (P.chance(k + ".demo", 1, 16)) { J.name = "demo"; J.text = some_description(P, k + ".d"); J.in = {in[0]}; J.writes = true; return J; }
  int kd = (int)P.pick(k + ".kind", 0, kinds - 1);
  if (kd <= 2) {
    J.args = some_tool(P, k, in, out, J.name); J.writes = J.name != "check";
    if (J.name == "filter" && P.chance(k + ".clob", 1, 4)) J.args.insert(J.args.begin(), "--clobber");
  } else if (kd == 3) { J.name = "tables"; J.lib = (int)P.pick(k + ".tm", 0, 3); J.in = {in[0]}; }
  else if (kd == 4) { J.name = "write"; J.wds = gen_ds(P, k + ".w.", gen_opt(P, k + ".wg", false)); J.writes = true; }
  else { J.name = "lib"; J.lib = (int)P.pick(k + ".lib", 0, 255); J.writes = J.lib & 64; if (P.chance(k + ".spec", 3, 4)) J.f = gen_spec(P, k + ".s", ds[0], false); }
  return J;
}
Inputs gen_inputs(Plan &P, RunResult &R, int maxn, int dmg_num, int dmg_den, bool big, bool dangle) {
  Inputs I;
  int n = (int)P.pick("nfiles", 1, maxn);
  for (int i = 0; i < n; i++) {
    std::string k = "f" + S(i);
    GenOpt go = gen_opt(P, k + ".g", true); go.shared = n > 1; if (!big) go.big = false; go.wide = P.chance(k + ".wide", 1, 6);
    DS d = gen_ds(P, k + ".d.", go);
    if (dangle && P.chance(k + ".dangle", 1, 6)) {     // references to tables that are not there
      Rng r = P.rng(k + ".dangler");
      auto f = [&](std::string &x) { if (!x.empty() && r.chance(1, 4)) x = r.chance(1, 2) ? "nowhere" : d.w[0].name; };
      for (auto &q : d.d) for (auto &T : q) { f(T.arr); f(T.ins); f(T.corr); }
      for (auto &q : d.p) { f(q.arr); for (auto &x : q.rec) f(x.ins); }
      R.cnt["files with references to missing tables"]++;
    }
    I.ds.push_back(d);
    EncOpt e = enc_opt(P, k + ".e");
    std::vector<uint8_t> b;
    if (dmg_num && P.chance(k + ".dmg", dmg_num, dmg_den)) { b = damaged_file(P, k + ".dm", d, e, R); I.damaged = true; }
    else b = fits_encode(d, e);
    I.path.push_back("/sim/in" + S(i) + ".fits");
    disk_put(I.path.back(), b);
  }
  return I;
}
bool crashed_badly(const ProcResult &p) { return p.hang || p.runaway || p.asan || (p.sig && !diagnosed_abort(p)); }

// ---------------------------------------------------------------- C10
void c10(Plan &P, RunResult &R) {
  Inputs I = gen_inputs(P, R, 3, 0, 1);
  Job J = gen_job(P, "j", I.path, I.ds, "/sim/out.fits");
  bool keep = J.writes && J.name != "filter" && P.chance("exists", 1, 6);
  if (keep) disk_put("/sim/out.fits", std::vector<uint8_t>(500, 'o'));
  DiskImage img = disk_image();
  int64_t c0 = W->clock;
  auto body = [&]() -> int { return run_job(J); };
  ProcResult dry = runp(R, 0, body);
  if (crashed_badly(dry)) { R.viol("clean-abnormal", J.name + " with plenty of memory " + dry.describe()); return; }
  R.cnt["operation " + J.name]++;
  R.cnt["allocations of healthy runs"] += (int64_t)dry.ops[OC_MALLOC] + (int64_t)dry.ops[OC_LMALLOC];
  DiskImage done = disk_image();
  for (int round = 0; round < 8; round++) {
    std::string k = "r" + S(round);
    disk_restore(img); W->clock = c0;
    bool lib = P.chance(k + ".lib", 1, 3);
    int set = lib ? FS_LMEM : FS_MEM;
    if (dry.ops[lib ? OC_LMALLOC : OC_MALLOC] == 0) set = lib ? FS_MEM : FS_LMEM;
    std::vector<Fault> f = choose_faults(P, k, 0, dry, set, 2);
    arm(f);
    ProcResult p = runp(R, 0, body);
    int64_t n = disarm(R);
    // cfitsio does not survive all failures of its own allocations
    bool own = false; for (auto &q : f) own |= q.cls == OC_LMALLOC;
    if (own && p.in_cfitsio) { R.cnt["runs in which cfitsio itself crashed after its own failed allocation"]++; continue; }
    if (crashed_badly(p)) { R.viol("nomem-abnormal", J.name + " after a failed allocation " + p.describe()); return; }
    DiskImage a = disk_image();
    for (auto &kv : img) if (kv.first != J.out || keep) if (!a.count(kv.first) || a[kv.first] != kv.second) { R.viol("nomem-damage", J.name + " after a failed allocation damaged " + kv.first); return; }
    bool ok = p.exited && p.code == 0;
    R.cnt[!n ? "runs without effect" : ok ? "runs that succeeded all the same" : p.sig ? "runs ended by a diagnosed abort" : "runs that reported failure"]++;
    if (!ok) {
      // a failure must say something: message or status
      if (dry.exited && dry.code == 0 && n == 0) { R.viol("nomem-spurious", J.name + " failed without a failed allocation"); return; }
      continue;
    }
    if (dry.code != 0 || dry.sig) continue;
    std::string why;
    if (!clean_messages(p, &why)) { R.cnt["runs that said which table they could not read"]++; continue; }
    std::string d;
    if (p.rep != dry.rep) d = "other results";
    else if (norm_text(p.out) != norm_text(dry.out)) d = "other output text";
    else if (a.count(J.out) != done.count(J.out) || (a.count(J.out) && a[J.out] != done[J.out])) d = "another output file";
    if (!d.empty()) { R.viol("nomem-wrong", J.name + " reported success after a failed allocation but gave " + d); return; }
  }
}

// ---------------------------------------------------------------- C13
// cfitsio keeps one stack of explanatory messages per process, and some of an
// earlier, handled error may still be on it, and some quote undefined memory:
// leave its text out
static std::string own_lines(const std::string &s) {
  std::string r;
  for (size_t i = 0; i < s.size();) {
    size_t e = s.find('\n', i); if (e == std::string::npos) e = s.size();
    std::string l = s.substr(i, e - i);
    for (const char *m : {"FITSIO status", "FITSIO error", "ERROR", "WARNING", "WARN", "CRITICAL", "Skipping"}) if (l.find(m) != std::string::npos) { r += l + "\n"; break; }
    i = e + 1;
  }
  return r;
}
static std::string outcome(const ProcResult &p, const std::string &out, bool withfile = true) {
  std::string r = p.sig ? "signal " + S(p.sig) : "exit " + S(p.code);
  r += "\nREPORT\n" + p.rep + "\nSTDOUT\n" + norm_text(p.out) + "\nSTDERR\n" + own_lines(norm_text(p.err));
  if (withfile) r += disk_exists(out) ? "\nFILE\n" + norm_file(disk_get(out)) : "\nNOFILE\n";
  return r;
}
static std::string why_differs(const std::string &a, const std::string &b) {
  size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
  static const char *sec[] = {"\nREPORT\n", "\nSTDOUT\n", "\nSTDERR\n", "\nFILE\n"};
  static const char *nm[] = {"the returned data", "the standard output", "the messages", "the output file"};
  std::string w = "the exit status";
  for (int k = 0; k < 4; k++) { size_t p = a.find(sec[k]); if (p != std::string::npos && p + 1 < i) w = nm[k]; }
  auto cut = [&](const std::string &s) { size_t st = i > 40 ? i - 40 : 0; std::string t = st < s.size() ? s.substr(st, 120) : ""; for (auto &c : t) if ((unsigned char)c < 32 || (unsigned char)c > 126) c = '.'; return t; };
  size_t fa = a.find("\nFILE\n"), fb = b.find("\nFILE\n");
  if (fa != std::string::npos && fb != std::string::npos && i > fa) {
    Decoded A = fits_decode(std::vector<uint8_t>(a.begin() + (long)fa + 6, a.end())), B = fits_decode(std::vector<uint8_t>(b.begin() + (long)fb + 6, b.end()));
    if (getenv("SIM_KEEP")) { for (auto &kv : disk_image()) { std::string n = kv.first; std::replace(n.begin(), n.end(), '/', '_'); FILE *f = fopen(("/tmp/keep" + n).c_str(), "w"); fwrite(kv.second.data(), 1, kv.second.size(), f); fclose(f); } FILE *f = fopen("/tmp/keepA", "w"); fwrite(&a[fa + 6], 1, a.size() - fa - 6, f); fclose(f); f = fopen("/tmp/keepB", "w"); fwrite(&b[fb + 6], 1, b.size() - fb - 6, f); fclose(f); }
    if (!A.ok || !B.ok) w += " (" + A.err + B.err + ")";
    else w += " (" + slice(diff(dump(A.ds), dump(B.ds))) + ")";
  }
  return w + ": <" + cut(a) + "> versus <" + cut(b) + ">";
}
void c13(Plan &P, RunResult &R) {
  Inputs I = gen_inputs(P, R, 3, 1, 3, false, true);
  Job J = gen_job(P, "j", I.path, I.ds, "/sim/out.fits");
  Job H; bool hist = P.chance("hist", 1, 2);
  // tools end by exit(), so only library calls can precede
  if (hist) { H.name = "lib"; H.in = I.path; if (P.chance("hrev", 1, 2)) std::reverse(H.in.begin(), H.in.end()); H.lib = (int)P.pick("hlib", 0, 255); H.out = "/sim/hist.fits"; H.f = gen_spec(P, "hs", I.ds[0], false); }
  DiskImage img = disk_image();
  Rng r = P.rng("mem");
  int fillA = W->alloc_fill, fillB = (fillA ^ (int)r.range(1, 255)) & 255;
  int64_t c0 = W->clock;
  auto body = [&]() -> int { return run_job(J); };
  ProcResult dry = runp(R, 0, body);
  if (crashed_badly(dry)) { R.cnt["runs that ended abnormally (see C14)"]++; return; }
  R.cnt["operation " + J.name]++;
  std::string A = outcome(dry, J.out);
  R.detail += hx(A); if (getenv("SIM_DETAIL")) fprintf(stderr, "%s\n", A.substr(0, A.find("\nFILE")).c_str());
  auto compare = [&](const char *cls, const std::string &what, const std::string &x, const std::string &y) {
    // cfitsio (ffbinit) goes on with an undefined number of columns after some header errors
    for (const char *m : {"FITS table descriptors (ffbinit)", "array dimensions too big"}) if (x.find(m) != std::string::npos || y.find(m) != std::string::npos) { R.cnt["comparisons void: cfitsio used undefined memory"]++; return false; }
    if (x != y) { R.viol(cls, J.name + ": the same input gives different results " + what + "; " + why_differs(x, y)); return true; } return false; };
  // other memory contents, other clock (with jumps in both directions)
  disk_restore(img);
  W->alloc_fill = fillB;
  if (P.chance("clk", 2, 3)) { W->clock = 86400 + r.range(0, 2100000000); W->clock_step = P.pick("jump", 0, 4) == 0 ? 0 : r.range(-100000, 100000); }
  ProcResult p = runp(R, 0, body);
  W->clock_step = 0; W->clock = c0;
  if (compare("depends-on-memory-or-clock", "with other contents of fresh memory and another clock", A, outcome(p, J.out))) return;
  if (hist) {
    disk_restore(img);
    auto hb = [&]() -> int {
      run_job(H); fflush(stdout); fflush(stderr);
      (void)!ftruncate(1, 0); (void)!ftruncate(2, 0); lseek(1, 0, SEEK_SET); lseek(2, 0, SEEK_SET);
      W->rep_len = 0; W->mark = 1;
      return run_job(J);
    };
    ProcResult q = runp(R, 0, hb);
    if (!W->mark) R.cnt["histories ended by a diagnosed abort"]++;
    else { R.cnt["runs after a history of other operations"]++; if (compare("depends-on-history", "after other operations in the same process", A, outcome(q, J.out))) return; }
  }
  // the same fault at the same point, twice, with different memory
  for (int round = 0; round < 2; round++) {
    std::string k = "r" + S(round);
    disk_restore(img); W->clock = c0; W->alloc_fill = fillA;
    std::vector<Fault> f = choose_faults(P, k, 0, dry, FS_IO | FS_MEM, 2);
    arm(f); ProcResult a = runp(R, 0, body); disarm(R);
    if (crashed_badly(a)) { R.cnt["runs that ended abnormally (see C10)"]++; continue; }
    std::string x = outcome(a, J.out);
    R.detail += hx(x); if (getenv("SIM_DETAIL")) fprintf(stderr, "%s\n", x.substr(0, x.find("\nFILE")).c_str());
    disk_restore(img); W->clock = c0; W->alloc_fill = fillB;
    for (auto &q : f) q.fired = 0;
    arm(f); ProcResult b = runp(R, 0, body); disarm(R);
    if (compare("faulty-depends-on-memory", "under the same faults with other contents of fresh memory", x, outcome(b, J.out))) return;
  }
}

// ---------------------------------------------------------------- C14
void c14(Plan &P, RunResult &R) {
  Inputs I = gen_inputs(P, R, 2, 4, 5, true, true);
  if (P.chance("junk", 1, 40)) { std::vector<uint8_t> b((size_t)P.pick("junkn", 0, 9000)); Rng r = P.rng("junkb"); for (auto &c : b) c = (uint8_t)r.next(); disk_put(I.path[0], b); }
  R.faulty = I.damaged;
  DiskImage img = disk_image();
  for (int q = 0; q < 3; q++) {
    std::string k = "j" + S(q);
    disk_restore(img);
    Job J = gen_job(P, k, I.path, I.ds, "/sim/out.fits", 8);
    if (J.name == "lib" && P.chance(k + ".all", 1, 2)) J.lib = 255;
    auto body = [&]() -> int { return run_job(J); };
    ProcResult dry = runp(R, 0, body);
    R.cnt["operation " + J.name]++;
    R.cnt[dry.sig ? "ended by a diagnosed abort" : dry.code ? "reported an error" : "ended normally"]++;
    if (crashed_badly(dry)) { R.viol("invalid-access-" + J.name, J.name + " on " + (I.damaged ? "a damaged file " : "a good file ") + dry.describe()); return; }
    disk_restore(img);
    arm(choose_faults(P, k, 0, dry, FS_IO | FS_MEM, 3));
    ProcResult p = runp(R, 0, body);
    disarm(R);
    if (crashed_badly(p)) { R.viol("invalid-access-faulty-" + J.name, J.name + " on " + (I.damaged ? "a damaged file" : "a good file") + " under faults " + p.describe()); return; }
  }
}
