// C21: oitable-demo turns a text description into the file it describes, and lists what a file holds.
#include "scen.h"
#include <algorithm>
#include <sstream>
#include <sys/mman.h>
#include <unistd.h>

static std::string S(int64_t v) { return std::to_string((long long)v); }
// a word as the description may hold it: no white space, and safe as a FITS string
static std::string word(Rng &r, int n, const char *lead = "") {
  static const char c[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_+-.()#:,=*";
  std::string s = lead;
  int m = r.chance(1, 6) ? n : (int)r.range(1, n);
  while ((int)s.size() < m) s += c[r.range(0, (int64_t)sizeof c - 2)];
  return s.substr(0, (size_t)n);
}
struct Text {
  std::string s; Rng r; int style;
  Text(Rng q, int st) : r(q), style(st) {}
  void sep() {
    if (s.empty()) return;
    static const char *w[] = {" ", "\n", "\t", "\n\n", "  ", " \n", "\r\n"};
    s += style == 0 ? "\n" : style == 1 ? " " : w[r.range(0, 6)];
  }
  void w(const std::string &x) { sep(); s += x; }
  std::string num(double v, int prec) {
    if (std::isnan(v)) return r.chance(1, 2) ? "nan" : "NaN";
    char b[64]; int k = style < 2 ? 0 : (int)r.range(0, 3);
    snprintf(b, sizeof b, k == 0 ? "%.*g" : k == 1 ? "%+.*g" : k == 2 ? "%.*e" : "%.*E", prec, v);
    return b;
  }
  void i(long v) { w(style == 2 && v >= 0 && r.chance(1, 5) ? "+" + S(v) : S(v)); }
  void d(double v) { w(num(v, 17)); }
  void f(float v) { w(num(v, 9)); }
  void k(const char *key) { w(key); }
};
static double val(Rng &r) {
  int k = (int)r.range(0, 9);
  if (k == 0) return 0;
  if (k == 1) return NAN;
  if (k == 2) return (double)r.range(-5, 5);
  double v = (r.unit() - 0.5) * 2;
  if (k == 3) return v * 1e12;
  if (k == 4) return v * 1e-12;
  return v * 180;
}
static double fin(Rng &r) { double v = val(r); return std::isnan(v) ? 1.5 : v; }

// exactly one table of each kind, as the description has it
static DS gen_described(Plan &P, const std::string &k) {
  Rng r = P.rng(k);
  DS ds;
  auto kwn = [&]() { char b[40]; snprintf(b, sizeof b, "%.13G", fin(r) * 1e4); return strtod(b, nullptr); };
  std::string day = mjd_datestr(45000 + r.range(0, 25000));
  auto date = [&]() { return r.chance(1, 3) ? day + "T12:30:59" : r.chance(1, 3) ? mjd_datestr(45000 + r.range(0, 25000)) : day; };
  Arr A; A.rev = 2; A.name = word(r, 50); A.frame = r.chance(2, 3) ? "GEOCENTRIC" : "SKY";
  for (double &c : A.c) c = kwn();
  int nel = (int)P.pick(k + ".nel", 1, 6);
  for (int i = 0; i < nel; i++) { Elem e; e.tel = word(r, 16); e.sta = word(r, 16); e.idx = i + 1; e.diam = (float)r.unit() * 8; for (double &x : e.xyz) x = fin(r); e.fov = r.unit(); e.fovtype = r.chance(1, 2) ? "FWHM" : "RADIUS"; A.el.push_back(e); }
  ds.a.push_back(A);
  int nt = (int)P.pick(k + ".nt", 1, 5);
  for (int i = 0; i < nt; i++) {
    Targ t; t.id = i ? ds.t.back().id + (int)r.range(1, 900) : (int)r.range(1, 5);
    t.name = word(r, 16); t.ra = r.unit() * 360; t.dec = r.unit() * 180 - 90; t.equinox = (float)(1950 + 50 * r.range(0, 1));
    for (double *x : {&t.raerr, &t.decerr, &t.sysvel, &t.pmra, &t.pmdec, &t.pmraerr, &t.pmdecerr}) *x = fin(r);
    t.veltyp = word(r, 8); t.veldef = word(r, 8); t.par = (float)r.unit(); t.parerr = (float)(r.unit() / 99); t.spec = word(r, 16);
    if (P.chance(k + ".cat" + S(i), 1, 2)) { t.cat = r.chance(1, 2) ? "SCI" : "CAL"; ds.usecat = true; }
    ds.t.push_back(t);
  }
  Wav w; w.rev = 2; w.name = word(r, 50);
  int nw = (int)P.pick(k + ".nw", 1, 12);
  for (int i = 0; i < nw; i++) { w.w.push_back((float)(0.4e-6 + r.unit() * 12e-6)); w.b.push_back((float)(1e-9 + r.unit() * 1e-7)); }
  ds.w.push_back(w);
  Corr c; c.name = word(r, 50); c.ndata = (int)r.range(2, 2000000);
  int nc = (int)P.pick(k + ".nc", 1, 6);
  for (int i = 0; i < nc; i++) { c.i.push_back((int)r.range(1, c.ndata)); c.j.push_back((int)r.range(1, c.ndata)); c.c.push_back(r.unit() * 2 - 1); }
  ds.c.push_back(c);
  // names of tables referred to: sometimes of none
  bool dangle = P.chance(k + ".dangle", 1, 6);
  auto arr = [&]() { return dangle && r.chance(1, 4) ? "no" + word(r, 8) : A.name; };
  auto ins = [&]() { return dangle && r.chance(1, 5) ? "no" + word(r, 8) : w.name; };
  auto cor = [&]() { return dangle && r.chance(1, 4) ? "no" + word(r, 8) : c.name; };
  auto tid = [&]() { return ds.t[(size_t)r.range(0, nt - 1)].id; };
  Pol p; p.dateobs = date(); p.npol = (int)r.range(1, 2); p.arr = arr(); p.orient = word(r, 20); p.model = word(r, 20); p.nwave = nw;
  int np = (int)P.pick(k + ".np", 1, 4);
  for (int i = 0; i < np; i++) { PolRec q; q.tid = tid(); q.ins = r.chance(1, 3) ? word(r, 60) : w.name; q.mjd0 = 45000 + r.unit() * 20000; q.mjd1 = q.mjd0 + 1;
    for (auto &j : q.j) for (int n = 0; n < nw; n++) j.push_back(cf((float)(r.unit() - .5), (float)(r.unit() - .5)));
    q.sta = (int)r.range(1, nel); p.rec.push_back(q); }
  ds.p.push_back(p);
  for (int kd = 0; kd < NKIND; kd++) {
    Tab T; T.kind = kd; T.rev = kd == FLUX ? 1 : 2; T.dateobs = date(); T.arr = arr(); T.ins = ins(); T.corr = cor(); T.nwave = nw;
    std::string kk = k + ".k" + S(kd);
    if (kd == VIS) {
      if (!P.chance(kk + ".noamp", 1, 2)) T.amptyp = r.chance(1, 2) ? "absolute" : word(r, 30);
      if (!P.chance(kk + ".nophi", 1, 2)) T.phityp = r.chance(1, 2) ? "differential" : word(r, 30);
      if (!P.chance(kk + ".noao", 1, 2)) T.amporder = (int)r.range(0, 7);
      if (!P.chance(kk + ".nopo", 1, 2)) T.phiorder = (int)r.range(0, 7);
    }
    if (kd == FLUX) {
      if (P.chance(kk + ".noarr", 1, 4)) T.arr = "";
      T.fov = P.chance(kk + ".nofov", 1, 2) ? 0.0 : std::fabs(kwn());
      if (!P.chance(kk + ".noft", 1, 2)) T.fovtype = r.chance(1, 2) ? "FWHM" : "RADIUS";
      T.calstat = r.chance(1, 2) ? 'C' : 'U'; T.fluxunit = "Jy";
    }
    int n = (int)P.pick(kk + ".n", 1, 8);
    bool nosta = kd == FLUX && P.chance(kk + ".nosta", 1, 3);
    for (int i = 0; i < n; i++) {
      Rec q; q.tid = tid(); q.time = kd == FLUX ? 0 : fin(r); q.mjd = 45000 + r.unit() * 20000; q.itime = r.unit() * 100;
      for (int m = 0; m < NQB[kd]; m++) for (int x = 0; x < nw; x++) q.d[m].push_back(val(r));
      for (int m = 0; m < NQB[kd] / 2; m++) q.ci[m] = (int)r.range(1, 2000000);
      for (int m = 0; m < NU[kd]; m++) q.u[m] = fin(r);
      for (int m = 0; m < NSTA[kd]; m++) q.sta[m] = (int)r.range(1, nel);
      if (nosta && (i == 0 || r.chance(1, 2))) q.sta[0] = -1;
      q.flag.assign((size_t)nw, 0);
      T.rec.push_back(q);
    }
    ds.d[kd].push_back(T);
  }
  ds.h[H_ORIGIN] = "ESO"; ds.h[H_OBSERVER] = "Astronomer"; ds.h[H_INSMODE] = "Low_JHK"; ds.h[H_CONTENT] = "OIFITS2";
  ds.h[H_DATEOBS] = ds.d[VIS][0].dateobs; ds.h[H_TELESCOP] = A.name; ds.h[H_INSTRUME] = w.name; ds.h[H_OBJECT] = ds.t[0].name;
  return ds;
}
static std::string describe(const DS &ds, Rng q, int style) {
  Text t(q, style);
  const Arr &A = ds.a[0]; const Wav &W_ = ds.w[0]; const Corr &c = ds.c[0]; const Pol &p = ds.p[0];
  t.k("OI_ARRAY"); t.k("arrname"); t.w(A.name); t.k("frame"); t.w(A.frame);
  t.k("arrayx"); t.d(A.c[0]); t.k("arrayy"); t.d(A.c[1]); t.k("arrayz"); t.d(A.c[2]); t.k("nelement"); t.i((long)A.el.size());
  for (auto &e : A.el) { t.k("tel_name"); t.w(e.tel); t.k("sta_name"); t.w(e.sta); t.k("staxyz"); for (double x : e.xyz) t.d(x); t.k("diameter"); t.f(e.diam); t.k("fov"); t.d(e.fov); t.k("fovtype"); t.w(e.fovtype); }
  t.k("OI_TARGET"); t.k("ntarget"); t.i((long)ds.t.size());
  for (auto &x : ds.t) {
    t.k("target_id"); t.i(x.id); t.k("target"); t.w(x.name); t.k("raep0"); t.d(x.ra); t.k("decep0"); t.d(x.dec); t.k("equinox"); t.f(x.equinox);
    t.k("ra_err"); t.d(x.raerr); t.k("dec_err"); t.d(x.decerr); t.k("sysvel"); t.d(x.sysvel); t.k("veltyp"); t.w(x.veltyp); t.k("veldef"); t.w(x.veldef);
    t.k("pmra"); t.d(x.pmra); t.k("pmdec"); t.d(x.pmdec); t.k("pmra_err"); t.d(x.pmraerr); t.k("pmdec_err"); t.d(x.pmdecerr);
    t.k("parallax"); t.f(x.par); t.k("para_err"); t.f(x.parerr); t.k("spectyp"); t.w(x.spec);
    if (!x.cat.empty()) { t.k("category"); t.w(x.cat); }
  }
  t.k("OI_WAVELENGTH"); t.k("insname"); t.w(W_.name); t.k("nwave"); t.i((long)W_.w.size());
  t.k("eff_wave"); for (float x : W_.w) t.f(x); t.k("eff_band"); for (float x : W_.b) t.f(x);
  t.k("OI_CORR"); t.k("corrname"); t.w(c.name); t.k("ndata"); t.i(c.ndata); t.k("ncorr"); t.i((long)c.i.size());
  t.k("iindx"); for (int x : c.i) t.i(x); t.k("jindx"); for (int x : c.j) t.i(x); t.k("corr"); for (double x : c.c) t.d(x);
  t.k("OI_INSPOL"); t.k("date-obs"); t.w(p.dateobs); t.k("npol"); t.i(p.npol); t.k("arrname"); t.w(p.arr); t.k("orient"); t.w(p.orient); t.k("model"); t.w(p.model); t.k("numrec"); t.i((long)p.rec.size());
  for (auto &x : p.rec) {
    t.k("target_id"); t.i(x.tid); t.k("insname"); t.w(x.ins); t.k("mjd_obs"); t.d(x.mjd0); t.k("mjd_end"); t.d(x.mjd1);
    static const char *jn[] = {"jxx", "jyy", "jxy", "jyx"};
    for (int m = 0; m < 4; m++) { t.k(jn[m]); for (auto &z : x.j[m]) { t.f(z.real()); t.f(z.imag()); t.s += "i"; } }
    t.k("sta_index"); t.i(x.sta);
  }
  static const char *name[NKIND] = {"OI_VIS", "OI_VIS2", "OI_T3", "OI_FLUX"};
  static const char *qn[NKIND][4] = {{"visamp", "visamperr", "visphi", "visphierr"}, {"vis2data", "vis2err"}, {"t3amp", "t3amperr", "t3phi", "t3phierr"}, {"fluxdata", "fluxerr"}};
  static const char *un[NKIND][4] = {{"ucoord", "vcoord"}, {"ucoord", "vcoord"}, {"u1coord", "v1coord", "u2coord", "v2coord"}, {}};
  static const char *cn[NKIND][2] = {{"corrindx_visamp", "corrindx_visphi"}, {"corrindx_vis2data"}, {"corrindx_t3amp", "corrindx_t3phi"}, {"corrindx_fluxdata"}};
  for (int kd = 0; kd < NKIND; kd++) {
    const Tab &T = ds.d[kd][0];
    t.k(name[kd]); t.k("date-obs"); t.w(T.dateobs);
    if (kd != FLUX || !T.arr.empty()) { t.k("arrname"); t.w(T.arr); }
    t.k("insname"); t.w(T.ins); t.k("corrname"); t.w(T.corr);
    if (kd == VIS) {
      if (!T.amptyp.empty()) { t.k("amptyp"); t.w(T.amptyp); }
      if (!T.phityp.empty()) { t.k("phityp"); t.w(T.phityp); }
      if (T.amporder >= 0) { t.k("amporder"); t.i(T.amporder); }
      if (T.phiorder >= 0) { t.k("phiorder"); t.i(T.phiorder); }
    }
    if (kd == FLUX) {
      if (T.fov != 0) { t.k("fov"); t.d(T.fov); }
      if (!T.fovtype.empty()) { t.k("fovtype"); t.w(T.fovtype); }
      t.k("calstat"); t.w(std::string(1, T.calstat));
    }
    t.k("numrec"); t.i((long)T.rec.size());
    for (auto &R : T.rec) {
      t.k("target_id"); t.i(R.tid);
      if (kd != FLUX) { t.k("time"); t.d(R.time); }
      t.k("mjd"); t.d(R.mjd); t.k("int_time"); t.d(R.itime);
      for (int m = 0; m < NQB[kd]; m++) { t.k(qn[kd][m]); for (double x : R.d[m]) t.d(x); if (m & 1) { t.k(cn[kd][m / 2]); t.i(R.ci[m / 2]); } }
      for (int m = 0; m < NU[kd]; m++) { t.k(un[kd][m]); t.d(R.u[m]); }
      if (kd != FLUX || R.sta[0] != -1) { t.k("sta_index"); for (int m = 0; m < NSTA[kd]; m++) t.i(R.sta[m]); }
    }
  }
  if (style != 1) t.s += "\n";
  return t.s;
}
// what the program prints about a file, up to the first table that refers to one the file does not hold
static std::vector<std::string> listing(const DS &ds, bool *whole) {
  std::vector<std::string> out;
  *whole = false;
  auto has = [](auto &v, const std::string &n) { for (auto &x : v) if (x.name == n) return true; return false; };
  for (int k = 0; k < NKIND; k++) for (auto &T : ds.d[k]) {
    out.push_back(std::string(kind_ext[k]) + " ARRNAME=" + T.arr + " INSNAME=" + T.ins + " CORRNAME=" + T.corr);
    if (!T.arr.empty() && !has(ds.a, T.arr)) return out;
    if (!T.corr.empty() && !has(ds.c, T.corr)) return out;
    if (!has(ds.w, T.ins)) return out;
  }
  for (auto &p : ds.p) {
    out.push_back("OI_INSPOL ARRNAME=" + p.arr);
    if (!has(ds.a, p.arr)) return out;
  }
  *whole = true;
  return out;
}
static std::vector<std::string> listed(const std::string &text) {
  std::vector<std::string> out;
  std::istringstream in(text);
  std::string l;
  while (std::getline(in, l)) {
    size_t b = l.find("Read OI_"), w = l.find(" with "), a = l.find("ARRNAME=");
    if (b == std::string::npos || w == std::string::npos || a == std::string::npos) continue;
    std::string kd = l.substr(b + 5, w - b - 5);
    kd.erase(kd.find_last_not_of(' ') + 1);
    std::string rest = l.substr(a);
    rest.erase(rest.find_last_not_of(" \r") + 1);
    out.push_back(kd + " " + rest);
  }
  return out;
}
static std::string trail(std::string s) { s.erase(s.find_last_not_of(' ') + 1); return s; }
// the same lines, but for optional names that a read error made appear absent (see C02)
static bool only_lost(const std::vector<std::string> &want, const std::vector<std::string> &got) {
  if (want.size() != got.size()) return false;
  for (size_t i = 0; i < want.size(); i++) {
    if (trail(want[i]) == trail(got[i])) continue;
    std::string w = want[i];
    auto drop = [](std::string x, const char *k, const char *next) { size_t b = x.find(k); if (b == std::string::npos) return x; b += strlen(k); size_t e = next ? x.find(next, b) : x.size(); if (e == std::string::npos) e = x.size(); return x.erase(b, e - b); };
    bool ok = false;
    for (int m = 1; m < 4 && !ok; m++) { std::string x = w; if (m & 1) x = drop(x, " ARRNAME=", " INSNAME="); if (m & 2) x = drop(x, " CORRNAME=", nullptr); ok = trail(x) == trail(got[i]); }
    if (!ok) return false;
  }
  return true;
}
static std::string lines_diff(const std::vector<std::string> &want, const std::vector<std::string> &got, bool prefix) {
  for (size_t i = 0; i < want.size() || i < got.size(); i++) {
    if (i >= got.size()) return prefix ? "" : "nothing about [" + want[i] + "]";
    if (i >= want.size()) return "[" + got[i] + "] of which the file holds nothing";
    if (trail(want[i]) != trail(got[i])) return "[" + got[i] + "] instead of [" + want[i] + "]";
  }
  return "";
}

int run_demo(const std::string &text, const std::string &out, const std::string &list) {
  // the description is not on the simulated disk: the program trusts what it scans
  int m = memfd_create("text", 0);
  if (m < 0 || write(m, text.data(), text.size()) != (ssize_t)text.size()) return 99;
  static char b[1024];
  snprintf(b, sizeof b, "%s\n%s\n%s\n", text.empty() ? "/sim/no-such.txt" : ("/proc/self/fd/" + S(m)).c_str(), out.c_str(), list.c_str());
  stdin = fmemopen(b, strlen(b), "r");
  static char a0[] = "oitable-demo"; static char *av[] = {a0, nullptr};
  return oimain_demo(1, av);
}
std::string some_description(Plan &P, const std::string &k) { return describe(gen_described(P, k), P.rng(k + ".text"), (int)P.pick(k + ".style", 0, 2)); }
void c21(Plan &P, RunResult &R) {
  DS ds = gen_described(P, "d");
  int style = (int)P.pick("style", 0, 2);
  std::string text = describe(ds, P.rng("text"), style);
  std::string in2 = "/sim/out.fits"; DS rd = as_read(as_written(ds));
  bool other = P.chance("other", 1, 2);
  if (other) {                                  // list another file, with any number of tables
    GenOpt go = gen_opt(P, "o", true); go.wide = false;
    rd = gen_ds(P, "o.", go);
    Rng dr = P.rng("o.dangle");
    if (P.chance("o.dangling", 1, 4)) for (auto &d : rd.d) for (auto &T : d) {
      if (!T.arr.empty() && dr.chance(1, 8)) T.arr = "none such";
      if (!T.corr.empty() && dr.chance(1, 8)) T.corr = "none such";
      if (dr.chance(1, 8)) T.ins = "none such";
    }
    EncOpt e = enc_opt(P, "o.e");
    std::vector<uint8_t> b = fits_encode(rd, e);
    disk_put("/sim/other.fits", b);
    Decoded D = fits_decode(b);
    if (!D.ok) return;
    rd = as_read(D.ds);
    in2 = "/sim/other.fits";
  }
  int there = (int)P.pick("there", 0, 7);       // 1: the output exists, 2: and may be replaced
  std::string outname = "/sim/out.fits";
  if (there == 1 || there == 2) disk_put(outname, std::vector<uint8_t>(P.pick("oldlen", 1, 9000), 'x'));
  std::vector<uint8_t> old = disk_get(outname);
  bool notext = P.pick("notext", 0, 24) == 7;
  bool whole;
  std::vector<std::string> want = listing(rd, &whole);
  DiskImage img = disk_image();
  auto body = [&]() -> int { return run_demo(notext ? "" : text, (there == 2 ? "!" : "") + outname, in2); };
  ProcResult dry;
  int64_t need = 0;
  for (int round = 0; round < 5; round++) {
    disk_restore(img);
    std::string k = "r" + S(round);
    if (round) {
      int fm = (int)P.pick(k + ".fmode", 0, 3);
      if (fm == 3) W->disk_free = P.pick(k + ".free", 0, need + 3000);
      arm(choose_faults(P, k, 0, dry, fm == 0 ? FS_READ | FS_SHORT : fm == 1 ? FS_WRITE | FS_CLOSE | FS_SHORT : FS_IO, 2));
    }
    int64_t c0 = W->clock;
    ProcResult p = runp(R, 0, body);
    int64_t c1 = W->clock;
    W->disk_free = INT64_MAX;
    int64_t fired = round ? disarm(R) : 0;
    if (!round) dry = p, need = (int64_t)disk_get(outname).size();
    const char *when = round ? "-under-faults" : "";
    if (crashed_badly(p)) { R.viol(std::string("demo-abnormal") + when, "oitable-demo " + p.describe() + ": " + slice(p.err)); return; }
    if (!p.exited) continue;
    std::vector<std::string> got = listed(p.out);
    bool lost = fired && only_lost(want, got);
    if (p.code == 0) {
      R.cnt["runs reported successful"]++;
      if (notext) { R.viol("demo-without-text", "oitable-demo reported success without its description"); return; }
      if (there == 1) { R.viol("demo-replaced-a-file", "oitable-demo reported success though the file existed"); return; }
      std::string d = check_file(outname, as_written(ds), c0, c1);
      if (!d.empty()) { R.viol(std::string("demo-file-wrong") + when, "oitable-demo reported success but the file is not as described: " + d); return; }
      d = lines_diff(want, got, false);
      if (!d.empty() && !lost) { R.viol(std::string("demo-listing-wrong") + when, "oitable-demo reported success but listed " + d); return; }
      if (lost && !d.empty()) R.cnt["listings that lack an optional name after a read error"]++;
      if (!whole && !fired) { R.viol("demo-dangling-accepted", "oitable-demo did not notice that a table refers to one the file does not hold"); return; }
    } else {
      R.cnt[round ? "runs reported failed" : "runs reported failed, no fault"]++;
      std::string d = lines_diff(want, got, true);
      if (!d.empty() && !fired) { R.viol("demo-listing-wrong-failed", "oitable-demo listed " + d); return; }
      if (!fired && !notext && there != 1) {
        if (whole) { R.viol("demo-refused", "oitable-demo failed on a good description and a healthy disk: " + slice(p.err)); return; }
        if (got.size() != want.size()) { R.viol("demo-listing-short", "oitable-demo listed " + S((long)got.size()) + " tables instead of " + S((long)want.size()) + " up to the first one that refers to a missing table"); return; }
        d = check_file(outname, as_written(ds), c0, c1);
        if (!d.empty()) { R.viol("demo-file-wrong-listing-failed", "the file is not as described: " + d); return; }
      }
    }
    if (there == 1 && disk_get(outname) != old) { R.viol("demo-touched-a-file", "oitable-demo changed a file it was not told to replace"); return; }
  }
}
