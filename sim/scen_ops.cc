// Scenarios about operations on datasets: merge, filter, upgrade, check, lookups.
#include "scen.h"
#include <algorithm>

static std::string S(int64_t v) { return std::to_string((long long)v); }
static bool abnormal(RunResult &R, const ProcResult &p, const std::string &what) {
  if (!looks_bad(p)) return false;
  R.viol(what + "-abnormal", what + " " + p.describe() + ": " + slice(p.err));
  return true;
}
// run a tool on a healthy disk and then under faults; after every reported
// success `good' judges the output
static void tool_rounds(Plan &P, RunResult &R, const std::string &name, const std::vector<std::string> &args, bool must_succeed,
                        const std::function<std::string(bool)> &good, int rounds, const std::string &out) {
  auto body = [&]() -> int { return tool(name.c_str(), args); };
  DiskImage img = disk_image();
  auto judge = [&](const ProcResult &p, bool faulty) {
    if (p.crashed) return;
    if (p.hang || p.runaway || p.asan || (p.sig && !(diagnosed_abort(p) && !must_succeed))) { R.viol(name + (faulty ? "-faulty-abnormal" : "-abnormal"), name + " " + p.describe() + ": " + slice(p.err)); return; }
    if (p.exited && p.code == 0) {
      std::string d = good(faulty);
      if (!d.empty() && faulty && p.err.find("Skipping bad OI_") != std::string::npos) { R.cnt[name + " runs that said which table they could not read"]++; return; }
      if (!d.empty()) R.viol(name + (faulty ? "-wrong-under-faults" : "-wrong"), name + " reported success but its result is wrong: " + d);
      R.cnt[name + " runs reported successful"]++;
    } else {
      R.cnt[name + " runs reported failed"]++;
      if (!faulty && must_succeed) R.viol(name + "-refused", name + " failed on good input and a healthy disk: " + slice(p.out.size() > 300 ? p.out.substr(p.out.size() - 300) : p.out) + slice(p.err));
    }
  };
  ProcResult dry = runp(R, 0, body);
  judge(dry, false);
  if (!R.v.empty()) return;
  DiskImage done = disk_image();
  for (int i = 0; i < rounds; i++) {
    std::string k = "r" + S(i);
    disk_restore(img);
    int m = (int)P.pick(k + ".fmode", 0, 3);
    if (m == 3) W->disk_free = P.pick(k + ".free", 0, (int64_t)(done.count(out) ? done[out].size() : 0) + 3000);
    arm(choose_faults(P, k, 0, dry, m == 0 ? FS_READ | FS_SHORT : m == 1 ? FS_WRITE | FS_CLOSE | FS_SHORT : FS_IO, 2));
    ProcResult p = runp(R, 0, body);
    W->disk_free = INT64_MAX;
    int64_t n = disarm(R);
    judge(p, n > 0);
    if (!R.v.empty()) return;
  }
  disk_restore(done);
}
// tables a merge tool lost after saying so do not count as silently lost
// ---------------------------------------------------------------- C07
static std::vector<DS> merge_inputs(Plan &P, int n, const char *pfx = "f") {
  std::vector<DS> in;
  bool anyv1 = P.chance("anyv1", 1, 3);
  for (int i = 0; i < n; i++) {
    std::string k = pfx + S(i);
    GenOpt go; go.shared = true;
    go.v1 = anyv1 && P.chance(k + ".v1", 1, 2);
    go.lowprec = go.v1;
    DS d = gen_ds(P, k + ".d.", go);
    // names as they come out of earlier merges
    if (P.chance(k + ".odd", 1, 4)) {
      auto ren = [&](auto &list, const char *base, const std::string &key, auto apply) {
        if (list.empty()) return;
        size_t w = (size_t)P.pick(k + key + ".w", 0, (int64_t)list.size() - 1);
        char b[64]; snprintf(b, sizeof b, "%s%d_%03d", base, (int)P.pick(k + key + ".s", 0, 3), (int)P.pick(k + key + ".n", 1, 5));
        for (auto &x : list) if (x.name == b) return;
        std::string old = list[w].name; list[w].name = b; apply(old, std::string(b));
      };
      ren(d.a, "Arr", ".a", [&](const std::string &o, const std::string &n2) { for (auto &q : d.d) for (auto &T : q) if (T.arr == o) T.arr = n2; for (auto &p : d.p) if (p.arr == o) p.arr = n2; });
      ren(d.w, "Ins", ".w", [&](const std::string &o, const std::string &n2) { for (auto &q : d.d) for (auto &T : q) if (T.ins == o) T.ins = n2; for (auto &p : d.p) for (auto &r : p.rec) if (r.ins == o) r.ins = n2; });
      ren(d.c, "Corr", ".c", [&](const std::string &o, const std::string &n2) { for (auto &q : d.d) for (auto &T : q) if (T.corr == o) T.corr = n2; });
    }
    in.push_back(d);
  }
  return in;
}
void c07(Plan &P, RunResult &R) {
  int n = (int)P.pick("nfiles", 2, P.chance("many", 1, 24) ? 14 : 4);
  std::vector<DS> in = merge_inputs(P, n), rd;
  std::vector<std::string> args = {"/sim/out.fits"};
  for (int i = 0; i < n; i++) {
    std::string f = "/sim/in" + S(i) + ".fits";
    disk_put(f, fits_encode(in[(size_t)i], enc_opt(P, "e" + S(i))));
    args.push_back(f);
    rd.push_back(as_read(in[(size_t)i]));
  }
  int mode = (int)P.pick("mode", 0, 3);
  std::string why;
  DS ref = ref_merge(rd, &why);
  if (mode == 3) {
    // library calls: merge, and the inputs must not change
    int vararg = n <= 4 ? (int)P.pick("vararg", 0, 1) : 0, again = (int)P.pick("again", 0, 1);
    auto body = [&]() -> int {
      std::vector<oi_fits> oi((size_t)n);
      GList *l = nullptr;
      for (int i = 0; i < n; i++) { int st = 0; memset(&oi[(size_t)i], 0x3C, sizeof(oi_fits)); if (read_oi_fits(args[(size_t)i + 1].c_str(), &oi[(size_t)i], &st)) { report("ST:%d", st); return 0; } l = g_list_append(l, &oi[(size_t)i]); }
      for (int rep = 0; rep <= again; rep++) {
        oi_fits o; memset(&o, 0x3C, sizeof o);
        if (!vararg) merge_oi_fits_list(l, &o);
        else if (n == 2) merge_oi_fits(&o, &oi[0], &oi[1], NULL);
        else if (n == 3) merge_oi_fits(&o, &oi[0], &oi[1], &oi[2], NULL);
        else merge_oi_fits(&o, &oi[0], &oi[1], &oi[2], &oi[3], NULL);
        DS got = from_oi(&o);
        std::string d = merge_diff(ref, got);
        if (!d.empty()) report_text("DIFF", d);
        for (int i = 0; i < n; i++) { std::string e = diff(dump(rd[(size_t)i]), dump(from_oi(&oi[(size_t)i]))); if (!e.empty()) report_text("INPUT", e); }
        free_oi_fits(&o);
      }
      report("ST:0");
      return 0;
    };
    ProcResult p = runp(R, 0, body);
    if (abnormal(R, p, "merge call")) return;
    if (rep_text(p, "ST") != "0") { R.viol("read-failed", "reading a merge input failed: " + slice(p.err)); return; }
    std::string d = rep_text(p, "DIFF"), e = rep_text(p, "INPUT");
    if (!d.empty()) R.viol("merge-wrong", "merged dataset is not the union of its inputs: " + d);
    else if (!e.empty()) R.viol("merge-input-changed", "merging changed an input dataset: " + e);
    return;
  }
  int64_t c0 = W->clock;
  DS want = as_written(ref);
  tool_rounds(P, R, "merge", args, true, [&](bool) { return check_file("/sim/out.fits", want, c0, W->clock, false); }, 3, "/sim/out.fits");
  if (!R.v.empty() || mode != 2) return;
  // the result becomes an input of the next merge
  Decoded D = fits_decode(disk_get("/sim/out.fits"));
  if (!D.ok) return;
  std::vector<DS> rd2 = {as_read(D.ds), rd[(size_t)P.pick("again", 0, n - 1)]};
  std::vector<std::string> args2 = {"/sim/out2.fits", "/sim/out.fits", args[(size_t)P.rec["again"].v + 1]};
  if (P.chance("more", 1, 2)) { DS x = merge_inputs(P, 1, "x")[0]; disk_put("/sim/x.fits", fits_encode(x, EncOpt())); rd2.push_back(as_read(x)); args2.push_back("/sim/x.fits"); }
  if (P.chance("swap", 1, 2)) { std::swap(rd2[0], rd2[1]); std::swap(args2[1], args2[2]); }
  DS want2 = as_written(ref_merge(rd2, &why));
  tool_rounds(P, R, "merge", args2, true, [&](bool) { return check_file("/sim/out2.fits", want2, c0, W->clock, false); }, 0, "/sim/out2.fits");
}

// ---------------------------------------------------------------- C08
static std::string dbl(double v) { char b[64]; snprintf(b, sizeof b, "%.17g", v); return b; }
void apply_spec(const FilterSpec &f, oi_filter_spec *o) {
  init_oi_filter(o);
  snprintf(o->arrname, sizeof o->arrname, "%s", f.arr.c_str()); snprintf(o->insname, sizeof o->insname, "%s", f.ins.c_str()); snprintf(o->corrname, sizeof o->corrname, "%s", f.corr.c_str());
  o->target_id = f.target;
  const FilterSpec d;      // criteria not given are left as the library initialised them
  for (int i = 0; i < 2; i++) { if (f.mjd[i] != d.mjd[i]) o->mjd_range[i] = f.mjd[i]; if (f.wave[i] != d.wave[i]) o->wave_range[i] = f.wave[i]; if (f.bas[i] != d.bas[i]) o->bas_range[i] = f.bas[i]; if (f.uv[i] != d.uv[i]) o->uvrad_range[i] = f.uv[i]; if (f.snr[i] != d.snr[i]) o->snr_range[i] = f.snr[i]; }
  o->accept_vis = f.vis; o->accept_vis2 = f.vis2; o->accept_t3amp = f.t3amp; o->accept_t3phi = f.t3phi; o->accept_flux = f.flux; o->accept_flagged = f.flagged;
}
static std::string pattern_for(Rng &r, const std::string &name) {
  if (name.empty()) return "*";
  switch (r.range(0, 6)) {
    case 0: return name;
    case 1: return name.substr(0, (size_t)r.range(1, (int64_t)name.size())) + "*";
    case 2: return "*" + name.substr((size_t)r.range(0, (int64_t)name.size() - 1));
    case 3: { std::string s = name; s[(size_t)r.range(0, (int64_t)s.size() - 1)] = '?'; return s; }
    case 4: return name + "?";
    case 5: { size_t a = (size_t)r.range(0, (int64_t)name.size() - 1); return name.substr(0, a) + "*" + name.substr(a + (size_t)r.range(0, (int64_t)(name.size() - a))); }
    default: return "?*";
  }
}
static double coord(Rng &r) { return (double)r.range(-12, 12); }
// give the dataset values for which criteria are met exactly at their limits
void exact_values(DS &ds, Rng r) {
  static const double tri[6][2] = {{3, 4}, {5, 12}, {8, 15}, {0, 7}, {6, 8}, {0, 0}};
  for (auto &w : ds.w) for (auto &x : w.w) if (r.chance(1, 2)) x = std::ldexp(1.0f, (int)-r.range(16, 21));
  for (int k = 0; k < NKIND; k++) for (auto &T : ds.d[k]) for (auto &R : T.rec) {
    if (r.chance(2, 3)) R.mjd = std::floor(R.mjd) + (double)r.range(0, 8) / 8;
    if (k != FLUX && r.chance(2, 3)) { int t = (int)r.range(0, 5); R.u[0] = tri[t][0]; R.u[1] = -tri[t][1]; if (k == T3) { int q = (int)r.range(0, 5); R.u[2] = r.chance(1, 3) ? coord(r) : tri[q][0]; R.u[3] = tri[q][1]; } }
    for (int j = 0; j < T.nwave; j++) if (r.chance(1, 2)) { R.d[0][(size_t)j] = (double)r.range(-20, 40); R.d[1][(size_t)j] = std::ldexp(1.0, (int)r.range(-2, 3)); if (k != VIS2 && k != FLUX) R.d[3][(size_t)j] = (double)r.range(1, 200); }
  }
}
// values near and beyond the ranges the default criteria accept
void extreme_values(DS &ds, Rng r, bool dates) {
  bool mm = r.chance(1, 4);
  for (auto &w : ds.w) for (auto &x : w.w) if (r.chance(1, 3)) x *= mm ? (float)(1 + r.unit() * 300) : (float)(1 + r.unit() * 12);
  for (int k = 0; k < NKIND; k++) for (auto &T : ds.d[k]) for (auto &R : T.rec) {
    if (k != FLUX && r.chance(1, 2)) { static const double sc[] = {10, 40, 60, 1e-3, 0, 1000}; double f = sc[r.range(0, 5)]; for (double &u : R.u) u *= f; }
    if (dates && r.chance(1, 4)) { static const double dt[] = {-1, -0.0, 0, 99999.5, 150000, 9.99e6, 1e7, 1.1e7}; R.mjd = dt[r.range(0, 7)]; }
    for (int j = 0; j < T.nwave; j++) if (r.chance(1, 5)) {
      static const double s[] = {-5, -5.5, -4.5, 0, 1e9, 9e9, 1e10, 2e10, 1e12};
      int m = r.chance(2, 3) ? 0 : 2; if (m == 2 && k != VIS && k != T3) m = 0;
      if (m == 0) { R.d[0][(size_t)j] = s[r.range(0, 8)]; R.d[1][(size_t)j] = r.chance(1, 6) ? 0.0 : 1.0; }
      else R.d[3][(size_t)j] = r.chance(1, 4) ? 0.0 : std::ldexp(1.0, -(int)r.range(20, 40));
    }
  }
}
FilterSpec gen_spec(Plan &P, const std::string &k, const DS &ds, bool cli) {
  FilterSpec f;
  Rng r = P.rng(k + ".spec");
  std::vector<double> mj, ba, uv, sn; std::vector<float> wl;
  for (auto &w : ds.w) for (float x : w.w) wl.push_back(x);
  for (int q = 0; q < NKIND; q++) for (auto &T : ds.d[q]) for (auto &R : T.rec) {
    mj.push_back(R.mjd);
    if (q != FLUX) { ba.push_back(std::sqrt(R.u[0] * R.u[0] + R.u[1] * R.u[1])); if (q == T3) { ba.push_back(std::sqrt(R.u[2] * R.u[2] + R.u[3] * R.u[3])); ba.push_back(std::sqrt((R.u[0] + R.u[2]) * (R.u[0] + R.u[2]) + (R.u[1] + R.u[3]) * (R.u[1] + R.u[3]))); }
      for (auto &w : ds.w) if (w.name == T.ins) for (float x : w.w) for (size_t i = ba.size() - (q == T3 ? 3 : 1); i < ba.size(); i++) uv.push_back(ba[i] / x); }
    for (int j = 0; j < T.nwave; j++) { double v = R.d[0][(size_t)j] / R.d[1][(size_t)j]; if (std::isfinite(v) && std::fabs(v) < 1e9) sn.push_back(v); if (q == VIS || q == T3) { v = 57.2958 / R.d[3][(size_t)j]; if (std::isfinite(v) && v < 1e9) sn.push_back(v); } }
  }
  auto one = [&](std::vector<double> &v, double d, double scale) { double x = v.empty() ? d : v[(size_t)r.range(0, (int64_t)v.size() - 1)]; switch (r.range(0, 4)) { case 0: case 1: return x; case 2: return x + scale * r.unit(); case 3: return x - scale * r.unit(); default: return x * (1 + 0.2 * (r.unit() - 0.5)); } };
  auto range = [&](const std::string &key, std::vector<double> &v, double *lo, double *hi, double scale) {
    int m = (int)P.pick(k + key, 0, 4);
    if (m == 1 || m == 3) *lo = one(v, *lo, scale);
    if (m == 2 || m == 3) *hi = one(v, *hi, scale);
    if (m == 4) { *lo = one(v, *lo, scale); *hi = *lo; }
    if (m == 3 && *lo > *hi && r.chance(4, 5)) std::swap(*lo, *hi);
  };
  int nm = (int)P.pick(k + ".names", 0, 3);
  if (nm == 1 && !ds.a.empty()) f.arr = pattern_for(r, ds.a[(size_t)r.range(0, (int64_t)ds.a.size() - 1)].name);
  if (nm == 2) f.ins = pattern_for(r, ds.w[(size_t)r.range(0, (int64_t)ds.w.size() - 1)].name);
  if (nm == 3 && !ds.c.empty()) f.corr = pattern_for(r, ds.c[(size_t)r.range(0, (int64_t)ds.c.size() - 1)].name);
  if (P.chance(k + ".tgt", 1, 3)) f.target = r.chance(9, 10) ? ds.t[(size_t)r.range(0, (int64_t)ds.t.size() - 1)].id : (int)r.range(0, 40000);
  int crit = (int)P.pick(k + ".crit", 0, 63);
  if (crit & 1) range(".mjd", mj, &f.mjd[0], &f.mjd[1], 2);
  if (crit & 2) {
    double lo = f.wave[0], hi = f.wave[1]; std::vector<double> v(wl.begin(), wl.end());
    range(".wave", v, &lo, &hi, 2e-6);
    if (!cli) { f.wave[0] = (float)lo; f.wave[1] = (float)hi; } else { f.wave[0] = (float)(1e-9 * (1e9 * lo)); f.wave[1] = (float)(1e-9 * (1e9 * hi)); }
  }
  if (crit & 4) range(".bas", ba, &f.bas[0], &f.bas[1], 50);
  if (crit & 8) range(".uv", uv, &f.uv[0], &f.uv[1], 1e7);
  if (crit & 16) { double lo = f.snr[0], hi = f.snr[1]; range(".snr", sn, &lo, &hi, 3); f.snr[0] = (float)lo; f.snr[1] = (float)hi; }
  if (crit & 32) { int a = (int)P.pick(k + ".accept", 0, 31); f.vis = !(a & 1); f.vis2 = !(a & 2); f.t3amp = !(a & 4); f.t3phi = !(a & 8); f.flux = !(a & 16); }
  f.flagged = !P.chance(k + ".noflag", 1, 3);
  return f;
}
static std::vector<std::string> spec_args(const FilterSpec &f) {
  FilterSpec d; std::vector<std::string> a;
  if (f.arr != d.arr) a.push_back("--arrname=" + f.arr);
  if (f.ins != d.ins) a.push_back("--insname=" + f.ins);
  if (f.corr != d.corr) a.push_back("--corrname=" + f.corr);
  if (f.target >= 0) a.push_back("--target-id=" + S(f.target));
  if (f.mjd[0] != d.mjd[0]) a.push_back("--mjd-min=" + dbl(f.mjd[0]));
  if (f.mjd[1] != d.mjd[1]) a.push_back("--mjd-max=" + dbl(f.mjd[1]));
  if (f.wave[0] != d.wave[0]) a.push_back("--wave-min=" + dbl(1e9 * (double)f.wave[0]));
  if (f.wave[1] != d.wave[1]) a.push_back("--wave-max=" + dbl(1e9 * (double)f.wave[1]));
  if (f.bas[0] != d.bas[0]) a.push_back("--bas-min=" + dbl(f.bas[0]));
  if (f.bas[1] != d.bas[1]) a.push_back("--bas-max=" + dbl(f.bas[1]));
  if (f.uv[0] != d.uv[0]) a.push_back("--uvrad-min=" + dbl(f.uv[0]));
  if (f.uv[1] != d.uv[1]) a.push_back("--uvrad-max=" + dbl(f.uv[1]));
  if (f.snr[0] != d.snr[0]) a.push_back("--snr-min=" + dbl(f.snr[0]));
  if (f.snr[1] != d.snr[1]) a.push_back("--snr-max=" + dbl(f.snr[1]));
  if (!f.vis) a.push_back("--accept-vis=0");
  if (!f.vis2) a.push_back("--accept-vis2=0");
  if (!f.t3amp) a.push_back("--accept-t3amp=0");
  if (!f.t3phi) a.push_back("--accept-t3phi=0");
  if (!f.flux) a.push_back("--accept-flux=0");
  if (!f.flagged) a.push_back("--accept-flagged=0");
  return a;
}
static bool wave_close(const DS &ds, const FilterSpec &f) {
  for (auto &w : ds.w) for (float x : w.w) for (float l : f.wave) if (l && std::fabs(x - l) / l < 1e-6) return true;
  return false;
}
void c08(Plan &P, RunResult &R) {
  GenOpt go = gen_opt(P, "g", true);
  if (P.chance("shared", 1, 3)) go.shared = true;
  DS ds = gen_ds(P, "d.", go);
  if (P.chance("exact", 2, 3)) exact_values(ds, P.rng("exactv"));
  if (P.chance("extreme", 1, 4)) extreme_values(ds, P.rng("extremev"), !go.v1);
  if (go.lowprec) for (auto &q : ds.d) for (auto &T : q) for (auto &r : T.rec) for (auto &v : r.d) for (auto &x : v) x = (double)(float)x;
  disk_put("/sim/in.fits", fits_encode(ds, enc_opt(P, "e")));
  DS in = as_read(ds);
  int mode = (int)P.pick("mode", 0, 2);
  FilterSpec f = gen_spec(P, "s", in, mode == 2);
  if (filter_ambiguous(in, f) || (mode == 2 && wave_close(in, f))) { R.cnt["runs skipped: a limit is met within rounding"]++; return; }
  DS ref = ref_filter(in, f);
  if (mode == 2) {
    std::vector<std::string> a = spec_args(f);
    if (P.chance("shuf", 1, 2)) std::reverse(a.begin(), a.end());
    a.push_back("/sim/in.fits"); a.push_back("/sim/out.fits");
    int64_t c0 = W->clock;
    DS want = as_written(ref);
    R.cnt["records offered"] += 1;
    tool_rounds(P, R, "filter", a, !ref.t.empty(), [&](bool) { return check_file("/sim/out.fits", want, c0, W->clock); }, 3, "/sim/out.fits");
    return;
  }
  bool second = mode == 1;
  FilterSpec f2; DS ref2;
  if (ref.t.empty() || ref.w.empty()) second = false;   // zero-size tables are trapped on purpose
  if (second) { f2 = gen_spec(P, "s2", ref, false); if (filter_ambiguous(ref, f2)) second = false; else ref2 = ref_filter(ref, f2); }
  int fromdisk = (int)P.pick("fromdisk", 0, 1);
  auto body = [&]() -> int {
    oi_fits oi; int st = 0;
    if (fromdisk) { memset(&oi, 0x3C, sizeof oi); if (read_oi_fits("/sim/in.fits", &oi, &st)) { report("ST:%d", st); return 0; } }
    else { to_oi(in, &oi); }
    oi_filter_spec sp; memset(&sp, 0x3C, sizeof sp); apply_spec(f, &sp);
    oi_fits o; memset(&o, 0x3C, sizeof o);
    apply_oi_filter(&oi, &sp, &o);
    const std::string got = dump(from_oi(&o));
    report("GOT:%016llx", (unsigned long long)fnvs(got, 1));
    std::string d = diff(dump(ref), got);
    if (!d.empty()) report_text("DIFF", d);
    d = diff(dump(in), dump(from_oi(&oi)));
    if (!d.empty()) report_text("INPUT", d);
    if (second) {
      oi_fits o2; memset(&o2, 0x3C, sizeof o2);
      apply_spec(f2, &sp);
      apply_oi_filter(&o, &sp, &o2);
      d = diff(dump(ref2), dump(from_oi(&o2)));
      if (!d.empty()) report_text("DIFF", "second filter: " + d);
      free_oi_fits(&o2);
    }
    free_oi_fits(&o);
    if (fromdisk) free_oi_fits(&oi);
    report("ST:0");
    return 0;
  };
  ProcResult p = runp(R, 0, body);
  if (abnormal(R, p, "filter call")) return;
  if (rep_text(p, "ST") != "0") { R.viol("read-failed", "reading the filter input failed: " + slice(p.err)); return; }
  std::string d = rep_text(p, "DIFF"), e = rep_text(p, "INPUT");
  if (!d.empty()) R.viol("filter-wrong", "filtered dataset is not what the criteria select: " + d);
  else if (!e.empty()) R.viol("filter-input-changed", "filtering changed its input dataset: " + e);
}

// ---------------------------------------------------------------- C09
void c09(Plan &P, RunResult &R) {
  GenOpt go = gen_opt(P, "g", true); go.v1 = true; go.lowprec = P.chance("low", 1, 2);
  int mixed = (int)P.pick("mixed", 0, 5);
  DS ds;
  if (mixed == 5) { go.v1 = false; ds = gen_ds(P, "d.", go); ds.h[H_CONTENT] = ""; R.cnt["files with version 2 tables but no CONTENT"]++; }
  else ds = gen_ds(P, "d.", go);
  if (P.chance("early", 1, 6)) { double sh = (double)P.pick("shift", 0, 30000); for (auto &q : ds.d) for (auto &T : q) for (auto &r : T.rec) r.mjd -= sh; }   // any date since 1880
  if (P.chance("midnight", 1, 3)) for (auto &q : ds.d) for (auto &T : q) for (auto &r : T.rec) r.mjd = std::floor(r.mjd);
  disk_put("/sim/in.fits", fits_encode(ds, enc_opt(P, "e")));
  DS in = as_read(ds);
  if (P.chance("call", 1, 3)) {
    // reading alone derives the same header
    // and converting the tables in memory changes their revision and times, nothing else
    DS up = in;
    auto rev2 = [](int &v) { if (v == 1) v = 2; };
    rev2(up.trev); for (auto &a : up.a) rev2(a.rev); for (auto &w : up.w) rev2(w.rev);
    for (int k : {VIS, VIS2, T3}) for (auto &T : up.d[k]) if (T.rev == 1) { T.rev = 2; for (auto &x : T.rec) x.time = 0; }
    auto body = [&]() -> int {
      oi_fits o; memset(&o, 0x3C, sizeof o); int st = 0;
      read_oi_fits("/sim/in.fits", &o, &st);
      report("ST:%d", st);
      if (st) return 0;
      report_text("DIFF", diff(dump(in), dump(from_oi(&o))));
      for (int i = 0; i < 2; i++) {
        upgrade_oi_target(&o.targets);
        for (GList *l = o.arrayList; l; l = l->next) upgrade_oi_array((oi_array *)l->data);
        for (GList *l = o.wavelengthList; l; l = l->next) upgrade_oi_wavelength((oi_wavelength *)l->data);
        for (GList *l = o.visList; l; l = l->next) upgrade_oi_vis((oi_vis *)l->data);
        for (GList *l = o.vis2List; l; l = l->next) upgrade_oi_vis2((oi_vis2 *)l->data);
        for (GList *l = o.t3List; l; l = l->next) upgrade_oi_t3((oi_t3 *)l->data);
      }
      report_text("UP", diff(dump(up), dump(from_oi(&o))));
      free_oi_fits(&o);
      return 0;
    };
    ProcResult p = runp(R, 0, body);
    if (abnormal(R, p, "read")) return;
    if (rep_text(p, "ST") != "0") R.viol("read-refused", "a version 1 file was refused: " + slice(p.err));
    else if (!rep_text(p, "DIFF").empty()) R.viol("read-wrong", "content or derived header of a version 1 file is wrong: " + rep_text(p, "DIFF"));
    else if (!rep_text(p, "UP").empty()) R.viol("convert-wrong", "converting the tables in memory: " + rep_text(p, "UP"));
    return;
  }
  Rng r = P.rng("args");
  auto word = [&]() { static const char al[] = "abcdefghijklmnopqrstuvwxyz ABC0123456789-_'"; std::string s = "x"; int n = r.chance(1, 6) ? 60 : (int)r.range(0, 20); for (int i = 0; i < n; i++) s += al[r.range(0, (int)sizeof al - 2)]; while (s.size() > 1 && s.back() == ' ') s.pop_back(); int q = 0; for (char c : s) q += c == '\''; if ((int)s.size() + q > 66) s.resize(40); while (s.back() == ' ') s.pop_back(); return s; };
  std::string org = word(), obs = word(), mod = word();
  std::vector<std::string> args = {"/sim/in.fits", "/sim/out.fits", org, obs, mod};
  DS want = in;
  want.h[H_ORIGIN] = org; want.h[H_OBSERVER] = obs; want.h[H_INSMODE] = mod;
  want = as_written(want);
  if (P.chance("twice", 1, 8)) {
    // a version 2 file, or one without array, is not converted
    disk_put("/sim/in.fits", fits_encode(want, EncOpt()));
    ProcResult p = runp(R, 0, [&]() -> int { return tool("upgrade", args); });
    if (abnormal(R, p, "upgrade")) return;
    if (p.code == 0 || disk_exists("/sim/out.fits")) R.viol("upgrade-not-needed", "a version 2 file was upgraded again");
    return;
  }
  int64_t c0 = W->clock;
  if (in.a.empty()) {
    ProcResult p = runp(R, 0, [&]() -> int { return tool("upgrade", args); });
    if (abnormal(R, p, "upgrade")) return;
    if (p.code == 0) R.viol("upgrade-no-array", "a file without OI_ARRAY, which version 2 requires, was reported as upgraded");
    return;
  }
  tool_rounds(P, R, "upgrade", args, true, [&](bool) { return check_file("/sim/out.fits", want, c0, W->clock); }, 3, "/sim/out.fits");
}

// ---------------------------------------------------------------- C12
// break a few rules on purpose
static void breach(Plan &P, const std::string &k, DS &ds) {
  Rng r = P.rng(k + ".b");
  auto tab = [&](int kind) -> Tab * { auto &v = ds.d[kind]; return v.empty() ? nullptr : &v[(size_t)r.range(0, (int64_t)v.size() - 1)]; };
  auto rec = [&](Tab *T) -> Rec & { return r.chance(1, 3) ? T->rec.back() : T->rec[(size_t)r.range(0, (int64_t)T->rec.size() - 1)]; };
  // a value that is none of the allowed ones, now and then one that looks much like one of them
  auto wrong = [&](const std::vector<std::string> &legal, const std::string &dflt) {
    std::string s = legal[(size_t)r.range(0, (int64_t)legal.size() - 1)];
    switch (r.range(0, 7)) {
      case 0: s += "X"; break;
      case 1: s.pop_back(); break;
      case 2: { size_t i = (size_t)r.range(0, (int64_t)s.size() - 1); s[i] = (char)(s[i] ^ 32); break; }
      case 3: s = " " + s; break;
      case 4: s[(size_t)r.range(0, (int64_t)s.size() - 1)] = 'q'; break;
      case 5: s = s.substr(0, 1); break;
      case 6: { static const char *other[] = {"absolute", "differential", "correlated flux", "FWHM", "RADIUS", "GEOCENTRIC", "SKY", "C", "U", "none"}; s = other[r.range(0, 9)]; break; }
      default: s = dflt;
    }
    while (!s.empty() && s.back() == ' ') s.pop_back();
    return s.empty() || std::find(legal.begin(), legal.end(), s) != legal.end() ? dflt : s;
  };
  int kd = (int)r.range(0, 3);
  Tab *T = tab(kd);
  // numbers no target or station has
  static const int ABSENT[] = {31999, 32767, -32768, -7, -1, 0, 255, 256};
  auto absent_sta = [&](const std::string &arr) { for (int q = 0; q < 8; q++) { int v = ABSENT[r.range(0, 7)]; bool used = false; for (auto &a : ds.a) if (a.name == arr) for (auto &e : a.el) used |= e.idx == v; if (!used) return v; } return 31999; };
  auto absent_tid = [&]() { for (int q = 0; q < 8; q++) { int v = ABSENT[r.range(0, 7)]; bool used = false; for (auto &t : ds.t) used |= t.id == v; if (!used) return v; } return 31999; };
  // a name no table of the list has, now and then one that looks much like one that is there
  auto ghost = [&](const std::vector<std::string> &have, const std::string &dflt) {
    for (int q = 0; q < 4; q++) {
      std::string s = dflt;
      switch (r.range(0, 6)) {
        case 0: s = std::string(1, (char)('a' + r.range(0, 25))); break;
        case 1: if (!have.empty()) { s = have[(size_t)r.range(0, (int64_t)have.size() - 1)]; if (s.size() > 1) s.pop_back(); } break;
        case 2: if (!have.empty()) { s = have[(size_t)r.range(0, (int64_t)have.size() - 1)]; if (s.size() < 60) s += "2"; } break;
        case 3: if (!have.empty()) { s = have[(size_t)r.range(0, (int64_t)have.size() - 1)]; for (char &c : s) if (isalpha((unsigned char)c)) { c ^= 32; break; } } break;
        case 4: if (!ds.w.empty()) s = ds.w[0].name; break;
        default: break;
      }
      while (!s.empty() && s.back() == ' ') s.pop_back();
      if (!s.empty() && std::find(have.begin(), have.end(), s) == have.end()) return s;
    }
    return dflt;
  };
  std::vector<std::string> an, cn; for (auto &a : ds.a) an.push_back(a.name); for (auto &c : ds.c) cn.push_back(c.name);
  switch (P.pick(k + ".kind", 0, 25)) {
    case 0: { static const int HK[] = {H_ORIGIN, H_DATE, H_DATEOBS, H_TELESCOP, H_INSTRUME, H_OBSERVER, H_INSMODE, H_OBJECT}; ds.h[HK[r.range(0, 7)]] = ""; if (r.chance(1, 2)) ds.h[HK[r.range(0, 7)]] = ""; if (ds.h[H_CONTENT].empty()) ds.h[H_CONTENT] = "OIFITS2"; break; }
    case 1: if (!ds.a.empty()) ds.a[(size_t)r.range(0, (int64_t)ds.a.size() - 1)].frame = r.chance(1, 2) ? "sky" : wrong({"GEOCENTRIC", "SKY"}, "GEO"); break;
    case 2: if (Tab *V = tab(VIS)) V->amptyp = wrong({"absolute", "differential", "correlated flux"}, "weird"); break;
    case 3: if (Tab *V = tab(VIS)) V->phityp = wrong({"absolute", "differential"}, "relative"); break;
    case 4: if (Tab *F = tab(FLUX)) F->calstat = "XCUc"[r.range(0, 3)]; break;
    case 5: if (Tab *F = tab(FLUX)) { F->fovtype = wrong({"FWHM", "RADIUS"}, "DISC"); if (std::isnan(F->fov)) F->fov = 1; } break;
    case 6: if (ds.t.size() > 1) { size_t a = (size_t)r.range(0, (int64_t)ds.t.size() - 1), b = (size_t)r.range(0, (int64_t)ds.t.size() - 1); if (a == b) { a = 0; b = ds.t.size() - 1; } ds.t[b].name = ds.t[a].name; } break;
    case 7: if (T) { int id = r.chance(1, 2) ? absent_tid() : (int)r.range(30000, 32000); if (r.chance(1, 3)) for (auto &x : T->rec) x.tid = id; else rec(T).tid = id; } break;
    case 8: if (T && T->kind != FLUX) T->arr = ""; break;
    case 9: if (T && !T->arr.empty()) { int v = kd == FLUX ? 31999 : absent_sta(T->arr); if (r.chance(1, 3)) for (auto &x : T->rec) x.sta[0] = v; else rec(T).sta[(size_t)r.range(0, NSTA[kd] - 1)] = v; } break;
    case 10: if (T && !ds.c.empty()) { T->corr = ghost(cn, "no such corr"); for (auto &x : T->rec) for (int m = 0; m < 4; m++) if (!x.ci[m]) x.ci[m] = 1; } break;
    case 11: if (T && kd != FLUX) { Rec &x = rec(T); size_t j = (size_t)r.range(0, T->nwave - 1); int m = kd == VIS2 ? 1 : r.chance(1, 2) ? 1 : 3; x.d[m][j] = -1.0 - (double)r.range(0, 3); x.flag[j] = r.chance(3, 4) ? 0 : 1; } break;
    case 12: if (Tab *U = tab(T3)) { Rec &x = rec(U); size_t j = (size_t)r.range(0, U->nwave - 1); x.d[0][j] = 2.5; x.d[1][j] = (double)r.range(0, 12) / 8; x.flag[j] = r.chance(3, 4) ? 0 : 1; } break;
    case 13: if (ds.w.empty()) break; else { Wav &w = ds.w[(size_t)r.range(0, (int64_t)ds.w.size() - 1)]; if (w.w.size() > 1) { size_t a = (size_t)r.range(0, (int64_t)w.w.size() - 2); std::swap(w.w[a], w.w[a + 1]); } break; }
    case 14: if (T && kd != FLUX) rec(T).time = r.chance(1, 2) ? (r.chance(1, 3) ? 1e-9 : r.chance(1, 2) ? -1e-12 : 1e-3) : (double)r.range(-5, 5); break;
    case 15: if (Tab *F = tab(FLUX)) { F->calstat = r.chance(1, 2) ? 'C' : 'U'; if (r.chance(1, 2)) { F->arr = ""; for (auto &x : F->rec) x.sta[0] = -1; } if (r.chance(1, 2)) { F->fovtype = ""; F->fov = NAN; } } break;
    case 16: if (r.chance(1, 2)) ds.a.clear(), ds.p.clear(); else if (!ds.a.empty()) ds.a.pop_back(), ds.p.clear(); break;
    case 17: for (int q = 0; q < NKIND; q++) ds.d[q].clear(); break;
    case 18: if (Tab *V = tab(VIS)) { V->userefmap = !V->userefmap; for (auto &x : V->rec) { x.refmap.clear(); if (V->userefmap) x.refmap.resize((size_t)(V->nwave * V->nwave), 0); } } break;
    case 20: ds.h[H_CONTENT] = r.chance(1, 2) ? "OIFITS1" : r.chance(1, 2) ? "oifits2" : "OIFITS22"; break;
    case 21: { std::vector<int *> rv = {&ds.trev}; for (auto &a : ds.a) rv.push_back(&a.rev); for (auto &w : ds.w) rv.push_back(&w.rev); for (auto &c : ds.c) rv.push_back(&c.rev); for (auto &p : ds.p) rv.push_back(&p.rev); for (auto &q : ds.d) for (auto &t : q) rv.push_back(&t.rev);
      int *v = rv[(size_t)r.range(0, (int64_t)rv.size() - 1)]; if (*v >= 2 || r.chance(1, 2)) *v += 1; break; }
    case 22: if (!ds.p.empty()) ds.p[(size_t)r.range(0, (int64_t)ds.p.size() - 1)].arr = ""; break;
    case 23: ds.w.clear(); break;
    case 24: if (T && !T->arr.empty()) T->arr = ghost(an, "gone"); break;
    default: if (!ds.p.empty()) { Pol &p = ds.p[(size_t)r.range(0, (int64_t)ds.p.size() - 1)]; if (r.chance(1, 2)) p.rec[(size_t)r.range(0, (int64_t)p.rec.size() - 1)].sta = absent_sta(p.arr); else p.arr = ghost(an, "gone"); } break;
  }
}
void tidy(DS &ds) {     // remove the breaches the plain generator makes
  bool v2 = ds.h[H_CONTENT] == "OIFITS2";
  for (int i = 0; i < H_REFERENC; i++) if (ds.h[i].empty() && v2) ds.h[i] = "x";
  for (auto &w : ds.w) std::sort(w.w.begin(), w.w.end());
  for (int k = 0; k < NKIND; k++) for (auto &T : ds.d[k]) {
    if (k == VIS) {
      bool dif = T.amptyp == "differential" || T.phityp == "differential";
      if (dif != T.userefmap) { T.userefmap = dif; for (auto &r : T.rec) { r.refmap.clear(); if (dif) r.refmap.resize((size_t)(T.nwave * T.nwave), 1); } }
    }
    if (k == FLUX) {
      if (T.arr.empty()) { T.calstat = 'C'; for (auto &r : T.rec) r.sta[0] = -1; } else { T.calstat = 'U'; T.fovtype = ""; T.fov = NAN; }
    }
    if (k == T3) for (auto &r : T.rec) for (int j = 0; j < T.nwave; j++) if (r.d[0][(size_t)j] - 1 > r.d[1][(size_t)j]) r.d[0][(size_t)j] = 0.5;
    if (k != FLUX) for (auto &r : T.rec) for (int j = 0; j < T.nwave; j++) for (int m : {1, 3}) if (m < NQ[k] && std::signbit(r.d[m][(size_t)j])) r.d[m][(size_t)j] = 0.25;
  }
}
void c12(Plan &P, RunResult &R) {
  GenOpt go = gen_opt(P, "g", true); go.always_arr = P.chance("arr", 2, 3) || go.v1; go.valid = P.chance("valid", 2, 3);
  DS ds = gen_ds(P, "d.", go);
  if (P.chance("tidy", 3, 4)) tidy(ds);
  if (P.chance("tall", 1, 10)) {     // a table with many rows
    Rng r = P.rng("tallr");
    auto &q = ds.d[r.range(0, 3)];
    if (!q.empty()) { Tab &T = q[(size_t)r.range(0, (int64_t)q.size() - 1)]; if (T.nwave <= 60) { size_t n = (size_t)r.range(60, 400), m = T.rec.size(); T.rec.reserve(n); while (T.rec.size() < n) T.rec.push_back(T.rec[T.rec.size() % m]);
      int nl = (int)r.range(0, 2);      // breaches far down the table
      for (int i = 0; i < nl; i++) { Rec &x = T.rec[(size_t)r.range((int64_t)n / 2, (int64_t)n - 1)]; size_t j = (size_t)r.range(0, T.nwave - 1);
        switch (r.range(0, 3)) { case 0: x.tid = 31999; break; case 1: if (T.kind != FLUX) x.time = 2; break; case 2: if (T.kind != FLUX) { x.d[1][j] = -1; x.flag[j] = 0; } break; default: if (!T.arr.empty()) x.sta[0] = 31999; } }
      R.cnt["files with a table of many rows"]++; } }
  }
  int nb = (int)P.pick("nb", 0, 4);
  for (int i = 0; i < nb; i++) breach(P, "b" + S(i), ds);
  if (go.lowprec) for (auto &q : ds.d) for (auto &T : q) for (auto &r : T.rec) for (auto &v : r.d) for (auto &x : v) x = (double)(float)x;
  if (P.chance("many", 1, 8)) for (int k = 0; k < 3; k++) for (auto &T : ds.d[k]) for (auto &r : T.rec) r.time = 1;
  disk_put("/sim/in.fits", fits_encode(ds, enc_opt(P, "e")));
  DS in = as_read(ds);
  std::vector<CheckRes> want = ref_check(in);
  auto body = [&]() -> int { return tool("check", {"/sim/in.fits"}); };
  ProcResult dry = runp(R, 0, body);
  if (abnormal(R, dry, "check")) return;
  R.cnt[want.empty() ? "files without breach" : "files with breaches"]++;
  for (auto &w : want) R.cnt["breach: " + w.desc]++;
  if (dry.code != 0) { R.viol("check-refused", "check failed on a readable file: " + slice(dry.err)); return; }
  std::string d = check_report_diff(want, dry.out);
  if (!d.empty()) { R.viol("check-report", d); return; }
  for (int i = 0; i < 3; i++) {
    std::string k = "r" + S(i);
    arm(choose_faults(P, k, 0, dry, P.chance(k + ".rd", 2, 3) ? FS_READ | FS_SHORT : FS_IO, 2));
    ProcResult p = runp(R, 0, body);
    disarm(R);
    if (p.hang || p.runaway || p.asan || (p.sig && !diagnosed_abort(p))) { R.viol("check-faulty-abnormal", "check under read faults " + p.describe()); return; }
    if (!p.exited || p.code != 0) { R.cnt["checks refused under faults"]++; continue; }
    std::string why;
    if (!clean_messages(p, &why)) { R.cnt["checks of incompletely read files, with a message"]++; continue; }
    d = check_report_diff(want, p.out);
    if (!d.empty()) { R.viol("check-report-under-faults", "after read faults, without a message: " + d); return; }
  }
}

// ---------------------------------------------------------------- C15
// all look-ups of a dataset against its lists; returns the first disagreement
std::string lookups_wrong(oi_fits *oi, const DS &ds) {
  auto cnt = [](GList *l) { return (int)g_list_length(l); };
  if (oi->numArray != cnt(oi->arrayList) || oi->numArray != (int)ds.a.size()) return "numArray " + S(oi->numArray) + " but " + S(cnt(oi->arrayList)) + " tables listed, " + S((int64_t)ds.a.size()) + " expected";
  if (oi->numWavelength != cnt(oi->wavelengthList) || oi->numWavelength != (int)ds.w.size()) return "numWavelength does not match the tables";
  if (oi->numCorr != cnt(oi->corrList) || oi->numCorr != (int)ds.c.size()) return "numCorr does not match the tables";
  if (oi->numInspol != cnt(oi->inspolList) || oi->numInspol != (int)ds.p.size()) return "numInspol does not match the tables";
  if (oi->numVis != cnt(oi->visList) || oi->numVis != (int)ds.d[VIS].size()) return "numVis does not match the tables";
  if (oi->numVis2 != cnt(oi->vis2List) || oi->numVis2 != (int)ds.d[VIS2].size()) return "numVis2 does not match the tables";
  if (oi->numT3 != cnt(oi->t3List) || oi->numT3 != (int)ds.d[T3].size()) return "numT3 does not match the tables";
  if (oi->numFlux != cnt(oi->fluxList) || oi->numFlux != (int)ds.d[FLUX].size()) return "numFlux does not match the tables";
  std::set<std::string> names = {"", "no such name", "*"};
  std::set<int> tids = {-1, 0, 1, 2, 32767}, stas = {-1, 0, 1, 31997};
  for (auto &x : ds.a) { names.insert(x.name); for (auto &e : x.el) stas.insert(e.idx); }
  for (auto &x : ds.w) names.insert(x.name);
  for (auto &x : ds.c) names.insert(x.name);
  for (auto &t : ds.t) { tids.insert(t.id); names.insert(t.name); }
  for (auto &p : ds.p) { names.insert(p.arr); for (auto &r : p.rec) { names.insert(r.ins); tids.insert(r.tid); stas.insert(r.sta); } }
  for (auto &d : ds.d) for (auto &T : d) { names.insert(T.arr); names.insert(T.ins); names.insert(T.corr); for (auto &r : T.rec) { tids.insert(r.tid); for (int s : r.sta) stas.insert(s); } }
  for (auto &n : names) {
    auto nth = [&](GList *l, auto *first, auto getname) { (void)first; std::vector<void *> v; for (; l; l = l->next) if (n == getname(l->data)) v.push_back(l->data); return v; };
    auto bad = [&](const char *what, void *got, const std::vector<void *> &ok) -> std::string {
      if (ok.empty()) return got ? std::string(what) + " look-up of absent name <" + n + "> found something" : "";
      return got == ok[0] || std::find(ok.begin(), ok.end(), got) != ok.end() ? "" : std::string(what) + " look-up of <" + n + "> " + (got ? "found another table" : "found nothing though the table is there");
    };
    std::vector<void *> va = nth(oi->arrayList, (oi_array *)0, [](void *p) { return std::string(((oi_array *)p)->arrname); });
    std::string e = bad("array", oi_fits_lookup_array(oi, n.c_str()), va); if (!e.empty()) return e;
    e = bad("wavelength", oi_fits_lookup_wavelength(oi, n.c_str()), nth(oi->wavelengthList, (oi_wavelength *)0, [](void *p) { return std::string(((oi_wavelength *)p)->insname); })); if (!e.empty()) return e;
    e = bad("correlation", oi_fits_lookup_corr(oi, n.c_str()), nth(oi->corrList, (oi_corr *)0, [](void *p) { return std::string(((oi_corr *)p)->corrname); })); if (!e.empty()) return e;
    target *t = oi_fits_lookup_target_by_name(oi, n.c_str()), *w = nullptr;
    for (int i = 0; i < oi->targets.ntarget && !w; i++) if (n == oi->targets.targ[i].target) w = &oi->targets.targ[i];
    if (t != w) return "target look-up by name <" + n + "> " + (t ? w ? "found another record" : "found an absent target" : "found nothing");
    for (int s : stas) {
      element *g = oi_fits_lookup_element(oi, n.c_str(), s), *x = nullptr;
      if (!va.empty()) { oi_array *A = oi_fits_lookup_array(oi, n.c_str()); for (int i = 0; i < A->nelement && !x; i++) if (A->elem[i].sta_index == s) x = &A->elem[i]; }
      if (g != x) return "station look-up of <" + n + "> index " + S(s) + (g ? x ? " found another element" : " found an absent element" : " found nothing");
    }
  }
  for (int id : tids) {
    target *t = oi_fits_lookup_target(oi, id), *w = nullptr;
    for (int i = 0; i < oi->targets.ntarget && !w; i++) if (oi->targets.targ[i].target_id == id) w = &oi->targets.targ[i];
    if (t != w) return "target look-up of id " + S(id) + (t ? w ? " found another record" : " found an absent target" : " found nothing");
  }
  // the content behind the pointers is that of the model, in order
  size_t i = 0;
  for (GList *l = oi->arrayList; l; l = l->next, i++) { std::string e = diff(dump_arr(ds.a[i]), dump_arr(from_arr((oi_array *)l->data))); if (!e.empty()) return "array table #" + S((int64_t)i + 1) + " is not the expected one: " + e; }
  i = 0;
  for (GList *l = oi->wavelengthList; l; l = l->next, i++) if (dump_wav(from_wav((oi_wavelength *)l->data)) != dump_wav(ds.w[i])) return "wavelength table #" + S((int64_t)i + 1) + " is not the expected one: " + diff(dump_wav(ds.w[i]), dump_wav(from_wav((oi_wavelength *)l->data)));
  i = 0;
  for (GList *l = oi->corrList; l; l = l->next, i++) if (dump_corr(from_corr((oi_corr *)l->data)) != dump_corr(ds.c[i])) return "correlation table #" + S((int64_t)i + 1) + " is not the expected one: " + diff(dump_corr(ds.c[i]), dump_corr(from_corr((oi_corr *)l->data)));
  return "";
}
// look-ups in several datasets, in a drawn order: none may depend on those before it
static std::string interleaved_lookups(const std::vector<oi_fits *> &L, Rng r) {
  struct Q { oi_fits *o; std::string name; int id; };
  std::vector<Q> q;
  for (auto *o : L) {
    std::vector<std::string> an;
    for (GList *l = o->arrayList; l; l = l->next) { oi_array *a = (oi_array *)l->data; for (int i = 0; i < a->nelement; i++) q.push_back({o, a->arrname, a->elem[i].sta_index}); q.push_back({o, a->arrname, -2}); }
    for (int i = 0; i < o->targets.ntarget; i++) { q.push_back({o, "", o->targets.targ[i].target_id}); q.push_back({o, std::string("\1") + o->targets.targ[i].target, 0}); q.push_back({o, "", o->targets.targ[i].target_id + 1}); }
    for (GList *l = o->wavelengthList; l; l = l->next) q.push_back({o, std::string("\2") + ((oi_wavelength *)l->data)->insname, 0});
    for (GList *l = o->corrList; l; l = l->next) q.push_back({o, std::string("\3") + ((oi_corr *)l->data)->corrname, 0});
    q.push_back({o, "\2no such", 0}); q.push_back({o, "\3no such", 0});
  }
  size_t n0 = q.size(); for (size_t i = 0; i < n0; i++) q.push_back(q[i]);
  for (size_t i = q.size(); i > 1; i--) std::swap(q[i - 1], q[(size_t)r.range(0, (int64_t)i - 1)]);
  for (auto &x : q) {
    if (x.name.empty()) {
      target *t = oi_fits_lookup_target(x.o, x.id), *w = nullptr;
      for (int i = 0; i < x.o->targets.ntarget && !w; i++) if (x.o->targets.targ[i].target_id == x.id) w = &x.o->targets.targ[i];
      if (t != w) return "target look-up of id " + S(x.id) + " in one of several datasets found another record";
    } else if (x.name[0] == 1) {
      std::string n = x.name.substr(1); target *t = oi_fits_lookup_target_by_name(x.o, n.c_str()), *w = nullptr;
      for (int i = 0; i < x.o->targets.ntarget && !w; i++) if (n == x.o->targets.targ[i].target) w = &x.o->targets.targ[i];
      if (t != w) return "target look-up of <" + n + "> in one of several datasets found another record";
    } else if (x.name[0] == 2) {
      std::string n = x.name.substr(1); oi_wavelength *t = oi_fits_lookup_wavelength(x.o, n.c_str()); bool any = false, hit = false;
      for (GList *l = x.o->wavelengthList; l; l = l->next) if (n == ((oi_wavelength *)l->data)->insname) { any = true; hit |= l->data == t; }
      if (any ? !hit : t != nullptr) return "wavelength look-up of <" + n + "> in one of several datasets found another table";
    } else if (x.name[0] == 3) {
      std::string n = x.name.substr(1); oi_corr *t = oi_fits_lookup_corr(x.o, n.c_str()); bool any = false, hit = false;
      for (GList *l = x.o->corrList; l; l = l->next) if (n == ((oi_corr *)l->data)->corrname) { any = true; hit |= l->data == t; }
      if (any ? !hit : t != nullptr) return "correlation look-up of <" + n + "> in one of several datasets found another table";
    } else {
      oi_array *A = oi_fits_lookup_array(x.o, x.name.c_str()); bool hit = false;
      for (GList *l = x.o->arrayList; l; l = l->next) hit |= l->data == A && x.name == ((oi_array *)l->data)->arrname;
      if (!hit) return "array look-up of <" + x.name + "> in one of several datasets found another table";
      element *g = oi_fits_lookup_element(x.o, x.name.c_str(), x.id), *w = nullptr;
      for (int i = 0; i < A->nelement && !w; i++) if (A->elem[i].sta_index == x.id) w = &A->elem[i];
      if (g != w) return "station look-up of <" + x.name + "> index " + S(x.id) + " in one of several datasets found another element";
    }
  }
  return "";
}
void c15(Plan &P, RunResult &R) {
  int n = (int)P.pick("nfiles", 1, 3);
  std::vector<DS> in;
  std::vector<int> clean; std::vector<bool> nofilt;
  for (int i = 0; i < n; i++) {
    std::string k = "f" + S(i);
    GenOpt go; go.shared = P.chance(k + ".sh", 2, 3); go.v1 = P.chance(k + ".v1", 1, 4); go.lowprec = go.v1;
    DS d = gen_ds(P, k + ".d.", go);
    int odd = (int)P.pick(k + ".odd", 0, 9);
    Rng r = P.rng(k + ".oddr");
    bool ok = true;
    if (odd == 1) { for (auto &q : d.d) for (auto &T : q) if (r.chance(1, 2) && !T.arr.empty()) { T.arr = "missing"; ok = false; } }
    if (odd == 2) { for (auto &q : d.d) for (auto &T : q) if (r.chance(1, 2) && !T.corr.empty()) { T.corr = "missing"; ok = false; } }
    if (odd == 3) { for (auto &q : d.d) for (auto &T : q) if (r.chance(1, 2)) { T.rec[0].tid = 31990; ok = false; } }
    if (odd == 4 && !d.a.empty()) { Arr x = d.a[0]; x.name = "spare"; d.a.insert(d.a.begin() + r.range(0, (int64_t)d.a.size()), x); Wav w = d.w[0]; w.name = "sparew"; d.w.insert(d.w.begin() + r.range(0, (int64_t)d.w.size()), w); }
    // duplicates: the first record is the one looked up
    if (odd == 6 && d.t.size() > 1) { d.t[(size_t)r.range(1, (int64_t)d.t.size() - 1)].id = d.t[0].id; ok = false; }
    if (odd == 7 && d.t.size() > 1) { d.t[(size_t)r.range(1, (int64_t)d.t.size() - 1)].name = d.t[0].name; ok = false; }
    if (odd == 8) for (auto &x : d.a) if (x.el.size() > 1 && r.chance(2, 3)) { x.el[(size_t)r.range(1, (int64_t)x.el.size() - 1)].idx = x.el[0].idx; ok = false; }
    bool nf = false;                     // a table referring to wavelengths that are not there cannot be filtered
    if (odd == 9) { for (auto &q : d.d) for (auto &T : q) if (r.chance(1, 2)) { T.ins = "nowhere"; if (r.chance(1, 2)) T.corr = d.w[(size_t)r.range(0, (int64_t)d.w.size() - 1)].name; if (r.chance(1, 4)) T.arr = d.w[0].name; ok = false; nf = true; } }
    in.push_back(d); clean.push_back(ok); nofilt.push_back(nf);
    disk_put("/sim/in" + S(i) + ".fits", fits_encode(d, enc_opt(P, "e" + S(i))));
  }
  int steps = (int)P.pick("steps", 0, 3);
  std::vector<int> act; std::vector<FilterSpec> fs; std::vector<std::vector<int>> which;
  // model of the datasets alive: inputs first, then results
  std::vector<DS> live; for (auto &d : in) live.push_back(as_read(d));
  std::vector<int> okl = clean;
  for (int s = 0; s < steps; s++) {
    std::string k = "s" + S(s);
    int a = (int)P.pick(k + ".act", 0, 1);
    FilterSpec f; std::vector<int> w;
    if (a == 1) {
      for (int q = 0; q < 2; q++) w.push_back((int)P.pick(k + ".in" + S(q), 0, (int64_t)live.size() - 1));
      if (w[0] == w[1] || !okl[(size_t)w[0]] || !okl[(size_t)w[1]]) a = 0;
      // inspol records whose wavelength table was filtered away cannot be merged
      for (int q : w) for (auto &p : live[(size_t)q].p) for (auto &r : p.rec) { bool f2 = false; for (auto &x : live[(size_t)q].w) if (x.name == r.ins) f2 = true; if (!f2) a = 0; }
      for (int q : w) if (live[(size_t)q].t.empty()) a = 0;
    }
    if (a == 0) {
      w = {(int)P.pick(k + ".in", 0, (int64_t)live.size() - 1)};
      const DS &L = live[(size_t)w[0]];
      if (L.t.empty() || L.w.empty() || nofilt[(size_t)w[0]]) { a = 2; }
      else { f = gen_spec(P, k, L, false); if (filter_ambiguous(L, f)) f = FilterSpec();
        // names chosen by a merge are not known here, so nothing can be said about patterns they match
        auto ren = [](auto &v) { for (auto &x : v) if (!x.name.empty() && x.name[0] == '\1') return true; return false; };
        std::set<int> ids; for (auto &t : L.t) ids.insert(t.id);
        if (ids.size() != L.t.size()) f.target = -1;      // which of several equal ids is meant is not defined
        if (ren(L.a)) f.arr = "*"; if (ren(L.w)) f.ins = "*"; if (ren(L.c)) f.corr = "*"; }
    }
    act.push_back(a); fs.push_back(f); which.push_back(w);
    std::string why;
    if (a == 0) { live.push_back(ref_filter(live[(size_t)w[0]], f)); okl.push_back(okl[(size_t)w[0]]); nofilt.push_back(false); }
    if (a == 1) { live.push_back(ref_merge({live[(size_t)w[0]], live[(size_t)w[1]]}, &why)); okl.push_back(1); nofilt.push_back(false); }
  }
  bool rr = P.chance("interleave", 1, 2);
  auto body = [&]() -> int {
    std::vector<oi_fits *> L;
    for (int i = 0; i < n; i++) { oi_fits *o = (oi_fits *)malloc(sizeof *o); memset(o, 0x3C, sizeof *o); int st = 0; if (read_oi_fits(("/sim/in" + S(i) + ".fits").c_str(), o, &st)) { report("ST:%d", st); return 0; } L.push_back(o); }
    for (size_t s = 0; s < act.size(); s++) {
      if (act[s] == 2) continue;
      oi_fits *o = (oi_fits *)malloc(sizeof *o); memset(o, 0x3C, sizeof *o);
      if (act[s] == 0) { oi_filter_spec sp; memset(&sp, 0, sizeof sp); apply_spec(fs[s], &sp); apply_oi_filter(L[(size_t)which[s][0]], &sp, o); }
      else merge_oi_fits(o, L[(size_t)which[s][0]], L[(size_t)which[s][1]], NULL);
      L.push_back(o);
    }
    // the model, with the names the library chose for renamed tables taken over
    // (if the content fits) before anything is derived from them
    std::vector<DS> M; for (auto &d : in) M.push_back(as_read(d));
    for (size_t s = 0; s < act.size(); s++) {
      if (act[s] == 2) continue;
      std::string why;
      DS w = act[s] == 0 ? ref_filter(M[(size_t)which[s][0]], fs[s]) : ref_merge({M[(size_t)which[s][0]], M[(size_t)which[s][1]]}, &why), g = from_oi(L[M.size()]);
      std::map<std::string, std::string> ma, mw, mc;
      auto take = [](auto &wv, auto &gv, auto &m) {
        std::set<std::string> taken;      // a name may also be changed because an earlier renamed table took it
        if (gv.size() == wv.size()) for (size_t q = 0; q < wv.size(); q++) { if (wv[q].name[0] == '\1' || taken.count(wv[q].name)) { m[wv[q].name] = gv[q].name; wv[q].name = gv[q].name; } taken.insert(wv[q].name); } };
      take(w.a, g.a, ma); take(w.w, g.w, mw); take(w.c, g.c, mc);
      auto tr = [](auto &m, std::string &x) { auto it = m.find(x); if (it != m.end()) x = it->second; };
      for (auto &d : w.d) for (auto &T : d) { tr(ma, T.arr); tr(mw, T.ins); tr(mc, T.corr); }
      for (auto &p : w.p) { tr(ma, p.arr); for (auto &q : p.rec) tr(mw, q.ins); }
      M.push_back(w);
    }
    for (size_t i = 0; i < L.size(); i++) {
      DS w = M[i];
      std::string e = lookups_wrong(L[i], w);
      if (!e.empty()) { report_text("WRONG", std::string(i < (size_t)n ? "dataset read from file " : "derived dataset ") + S((int64_t)i) + ": " + e); break; }
    }
    if (rr) { std::string e = interleaved_lookups(L, P.rng("order")); if (!e.empty()) report_text("WRONG", e); }
    report("ST:0");
    return 0;
  };
  ProcResult p = runp(R, 0, body);
  if (abnormal(R, p, "lookups")) return;
  if (rep_text(p, "ST") != "0") { R.viol("read-failed", "reading failed: " + slice(p.err)); return; }
  std::string w = rep_text(p, "WRONG");
  if (!w.empty()) { R.viol("lookup-wrong", w); return; }
  // under faults: if everything was still reported successful, the same must hold
  for (int i = 0; i < 2; i++) {
    std::string k = "r" + S(i);
    arm(choose_faults(P, k, 0, p, FS_READ | FS_SHORT, 2));
    ProcResult q = runp(R, 0, body);
    disarm(R);
    std::string why;
    if (q.hang || q.runaway || q.asan || (q.sig && !diagnosed_abort(q))) { R.viol("lookups-faulty-abnormal", "under read faults " + q.describe()); return; }
    if (rep_text(q, "ST") == "0" && clean_messages(q, &why) && !(w = rep_text(q, "WRONG")).empty()) { R.viol("lookup-wrong-under-faults", w); return; }
  }
}
