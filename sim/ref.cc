// Reference behaviour (written from the documented meaning of each operation,
// on the reference data model): merge, filter, upgrade, check.
#include "model.h"
#include <algorithm>
#include <set>

// ---------------------------------------------------------------- merge
static std::string merge_key(const std::vector<DS> &in, int k, bool required) {
  std::set<std::string> vals;
  std::string first;
  for (auto &d : in) if (!d.h[k].empty()) { if (vals.empty()) first = d.h[k]; vals.insert(d.h[k]); }
  if (vals.empty()) return required ? "UNKNOWN" : "";
  return vals.size() > 1 ? "MULTIPLE" : first;
}
static bool same_array(const Arr &x, const Arr &y) {       // x contained in y
  const double tol = 1e-10;
  for (int k = 0; k < 3; k++) if (std::fabs(x.c[k] - y.c[k]) > tol) return false;
  for (auto &e : x.el) {
    const Elem *m = nullptr;
    for (auto &f : y.el) if (f.idx == e.idx) { m = &f; break; }
    if (!m) return false;
    for (int k = 0; k < 3; k++) if (std::fabs(e.xyz[k] - m->xyz[k]) > tol) return false;
    if (std::fabs(e.diam - m->diam) > (float)1e-3) return false;
    if (x.rev >= 2 && y.rev >= 2) {
      if (std::fabs(e.fov - m->fov) > tol) return false;
      if (e.fovtype != m->fovtype) return false;
    }
  }
  return true;
}
static bool same_wave(const Wav &x, const Wav &y) {
  if (x.w.size() != y.w.size()) return false;
  for (size_t i = 0; i < x.w.size(); i++)
    if (std::fabs(x.w[i] - y.w[i]) >= 1e-10 || std::fabs(x.b[i] - y.b[i]) >= 1e-10) return false;
  return true;
}
// Renamed tables carry a name starting with '\1' + ordinal: any unique name will do.
DS ref_merge(const std::vector<DS> &in, std::string *why) {
  DS o;
  for (int k : {H_ORIGIN, H_TELESCOP, H_INSTRUME, H_OBSERVER, H_INSMODE, H_OBJECT}) o.h[k] = merge_key(in, k, true);
  for (int k : {H_REFERENC, H_AUTHOR, H_PROGID, H_PROCSOFT, H_OBSTECH}) o.h[k] = merge_key(in, k, false);
  o.h[H_CONTENT] = "OIFITS2";
  int64_t mn = 100000;
  for (auto &d : in) {
    long y, m, dd;
    if (sscanf(d.h[H_DATEOBS].c_str(), "%4ld-%2ld-%2ld", &y, &m, &dd) == 3 && y >= 1901 && y <= 2099) mn = std::min<int64_t>(mn, civil_to_mjd(y, m, dd));
  }
  o.h[H_DATEOBS] = mjd_datestr(mn);
  std::map<std::string, int> tid;
  for (auto &d : in) {
    if (d.usecat) o.usecat = true;
    for (auto &t : d.t) if (!tid.count(t.name)) {
      Targ n = t; n.id = (int)o.t.size() + 1; if (!d.usecat) n.cat = "";
      tid[t.name] = n.id; o.t.push_back(n);
    }
  }
  auto uname = [](auto &list, const std::string &nm) {
    for (auto &x : list) if (x.name == nm) return "\1" + std::to_string(list.size());
    return nm;
  };
  std::vector<std::map<std::string, std::string>> am, wm, cm;
  for (auto &d : in) {
    am.emplace_back(); wm.emplace_back(); cm.emplace_back();
    for (auto &a : d.a) {
      const Arr *f = nullptr;
      for (auto &y : o.a) if (same_array(a, y)) { f = &y; break; }
      std::string nm;
      if (f) nm = f->name;
      else { Arr n = a; n.rev = 2; nm = n.name = uname(o.a, a.name); o.a.push_back(n); }
      am.back()[a.name] = nm;
    }
    for (auto &w : d.w) {
      const Wav *f = nullptr;
      for (auto &y : o.w) if (same_wave(w, y)) { f = &y; break; }
      std::string nm;
      if (f) nm = f->name;
      else { Wav n = w; n.rev = 2; nm = n.name = uname(o.w, w.name); o.w.push_back(n); }
      wm.back()[w.name] = nm;
    }
    for (auto &c : d.c) { Corr n = c; n.name = uname(o.c, c.name); cm.back()[c.name] = n.name; o.c.push_back(n); }
  }
  for (size_t i = 0; i < in.size(); i++) {
    const DS &d = in[i];
    auto mapt = [&](int id) { for (auto &t : d.t) if (t.id == id) return tid[t.name]; if (why) *why = "dangling target"; return -1; };
    for (auto &p : d.p) {
      Pol n = p; n.arr = am[i][p.arr];
      for (auto &r : n.rec) { r.tid = mapt(r.tid); r.ins = wm[i][r.ins]; }
      o.p.push_back(n);
    }
    for (int k = 0; k < NKIND; k++) for (auto &T : d.d[k]) {
      Tab n = T;
      if (k != FLUX && n.rev == 1) { n.rev = 2; for (auto &r : n.rec) r.time = 0; }     // TIME is not used in revision 2
      if (!n.arr.empty()) n.arr = am[i][n.arr];
      n.ins = wm[i][n.ins];
      if (!n.corr.empty()) n.corr = cm[i][n.corr];
      for (auto &r : n.rec) r.tid = mapt(r.tid);
      o.d[k].push_back(n);
    }
  }
  return o;
}
// Compare a dataset with a merge reference, allowing any unique name where the
// reference carries a placeholder. Returns "" or the difference.
std::string merge_diff(const DS &ref, const DS &got) {
  DS g = got, r = ref;
  bool blank = true;
  for (auto &t : r.t) if (!t.cat.empty()) blank = false;
  if (blank) r.usecat = g.usecat;      // an all-blank optional column may be left out
  if (g.a.size() != r.a.size()) return "number of array tables: want " + std::to_string(r.a.size()) + " got " + std::to_string(g.a.size());
  if (g.w.size() != r.w.size()) return "number of wavelength tables: want " + std::to_string(r.w.size()) + " got " + std::to_string(g.w.size());
  if (g.c.size() != r.c.size()) return "number of correlation tables: want " + std::to_string(r.c.size()) + " got " + std::to_string(g.c.size());
  std::map<std::string, std::string> ma, mw, mc;
  std::string err;
  auto one = [&](auto &gl, auto &rl, std::map<std::string, std::string> &m, const char *what) {
    for (size_t i = 0; i < gl.size(); i++) {
      if (m.count(gl[i].name)) { err = std::string("duplicate ") + what + " name <" + gl[i].name + ">"; return; }
      if (rl[i].name[0] != '\1' && rl[i].name != gl[i].name && !m.count(rl[i].name)) { err = std::string(what) + " #" + std::to_string(i + 1) + ": want name <" + rl[i].name + "> got <" + gl[i].name + ">"; return; }
      m[gl[i].name] = rl[i].name;
    }
    for (size_t i = 0; i < gl.size(); i++) gl[i].name = m[gl[i].name];
  };
  one(g.a, r.a, ma, "ARRNAME"); if (!err.empty()) return err;
  one(g.w, r.w, mw, "INSNAME"); if (!err.empty()) return err;
  one(g.c, r.c, mc, "CORRNAME"); if (!err.empty()) return err;
  auto tr = [](std::map<std::string, std::string> &m, std::string &s) { auto it = m.find(s); if (it != m.end()) s = it->second; };
  for (auto &p : g.p) { tr(ma, p.arr); for (auto &q : p.rec) tr(mw, q.ins); }
  for (auto &d : g.d) for (auto &T : d) { tr(ma, T.arr); tr(mw, T.ins); tr(mc, T.corr); }
  return diff(dump(r), dump(g));
}

// ---------------------------------------------------------------- filter
bool glob_match(const char *p, const char *s) {   // '*' and '?' only
  for (; *p; p++, s++) {
    if (*p == '*') { while (*p == '*') p++; if (!*p) return true; for (; *s; s++) if (glob_match(p, s)) return true; return false; }
    if (!*s || (*p != '?' && *p != *s)) return false;
  }
  return !*s;
}
static const double R2D = 180.0 / 3.14159;
static bool out(double v, double lo, double hi) { return v < lo || v > hi; }
static bool outf(float v, const float r[2]) { return v < r[0] || v > r[1]; }
DS ref_filter(const DS &in, const FilterSpec &f) {
  DS o;
  for (int i = 0; i < H_N; i++) o.h[i] = in.h[i];
  o.trev = in.trev; o.usecat = in.usecat;
  for (auto &t : in.t) {
    if (f.target < 0) o.t.push_back(t);
    else if (t.id == f.target) { Targ n = t; n.id = 1; o.t.push_back(n); }
  }
  for (auto &a : in.a) if (glob_match(f.arr.c_str(), a.name.c_str())) o.a.push_back(a);
  for (auto &c : in.c) if (glob_match(f.corr.c_str(), c.name.c_str())) o.c.push_back(c);
  std::map<std::string, std::vector<char>> use;
  for (auto &w : in.w) if (glob_match(f.ins.c_str(), w.name.c_str())) {
    Wav n; n.rev = w.rev; n.name = w.name;
    std::vector<char> u;
    for (size_t i = 0; i < w.w.size(); i++) {
      bool ok = !(w.w[i] < f.wave[0] || w.w[i] > f.wave[1]);
      u.push_back(ok);
      if (ok) { n.w.push_back(w.w[i]); n.b.push_back(w.b[i]); }
    }
    if (!n.w.empty()) { o.w.push_back(n); use[w.name] = u; }
  }
  for (auto &p : in.p) {
    if (!glob_match(f.arr.c_str(), p.arr.c_str())) continue;
    std::vector<int> ks;       // distinct channel counts, in order of appearance
    std::vector<Pol> outs;
    for (auto &r : p.rec) {
      auto it = use.find(r.ins);
      if (it == use.end()) continue;
      int k = 0;
      for (int x = 0; x < p.nwave; x++) k += it->second[(size_t)x];
      size_t at = (size_t)(std::find(ks.begin(), ks.end(), k) - ks.begin());
      if (at == ks.size()) { ks.push_back(k); Pol q = p; q.rec.clear(); q.nwave = k; outs.push_back(q); }
      if (f.target >= 0 && r.tid != f.target) continue;
      if (!glob_match(f.ins.c_str(), r.ins.c_str())) continue;
      if (r.mjd1 < f.mjd[0] || r.mjd0 > f.mjd[1]) continue;
      PolRec n = r; if (f.target >= 0) n.tid = 1;
      for (int m = 0; m < 4; m++) { n.j[m].clear(); for (int x = 0; x < p.nwave; x++) if (it->second[(size_t)x]) n.j[m].push_back(r.j[m][(size_t)x]); }
      outs[at].rec.push_back(n);
    }
    for (auto &q : outs) if (!q.rec.empty()) o.p.push_back(q);
  }
  for (int k = 0; k < NKIND; k++) {
    if (k == VIS && !f.vis) continue;
    if (k == VIS2 && !f.vis2) continue;
    if (k == T3 && !f.t3amp && !f.t3phi) continue;
    if (k == FLUX && !f.flux) continue;
    for (auto &T : in.d[k]) {
      if (!glob_match(f.ins.c_str(), T.ins.c_str()) || !glob_match(f.arr.c_str(), T.arr.c_str()) || !glob_match(f.corr.c_str(), T.corr.c_str())) continue;
      auto it = use.find(T.ins);
      if (it == use.end()) continue;
      const std::vector<char> &u = it->second;
      const Wav *w = nullptr;
      for (auto &x : in.w) if (x.name == T.ins) w = &x;
      Tab n = T; n.rec.clear(); n.nwave = 0;
      for (char c : u) n.nwave += c;
      for (auto &R : T.rec) {
        if (f.target >= 0 && R.tid != f.target) continue;
        if (out(R.mjd, f.mjd[0], f.mjd[1])) continue;
        std::vector<double> bas;
        if (k == VIS || k == VIS2) bas = {std::sqrt(R.u[0] * R.u[0] + R.u[1] * R.u[1])};
        if (k == T3) bas = {std::sqrt(R.u[0] * R.u[0] + R.u[1] * R.u[1]), std::sqrt(R.u[2] * R.u[2] + R.u[3] * R.u[3]),
                            std::sqrt((R.u[0] + R.u[2]) * (R.u[0] + R.u[2]) + (R.u[1] + R.u[3]) * (R.u[1] + R.u[3]))};
        bool rej = false;
        for (double b : bas) if (out(b, f.bas[0], f.bas[1])) rej = true;
        if (rej) continue;
        Rec N = R; if (f.target >= 0) N.tid = 1;
        for (auto &d : N.d) d.clear();
        N.flag.clear(); N.refmap.clear();
        bool any = false;
        int nq = k == VIS ? (T.usecomplex ? 8 : 4) : NQ[k];
        for (int j = 0; j < T.nwave; j++) {
          if (!u[(size_t)j]) continue;
          for (int m = 0; m < nq; m++) {
            double v = R.d[m][(size_t)j];
            if (k == T3 && ((m == 0 && !f.t3amp) || (m == 2 && !f.t3phi))) v = NAN;
            if (k == FLUX && m == 0 && outf((float)(R.d[0][(size_t)j] / R.d[1][(size_t)j]), f.snr)) v = NAN;
            N.d[m].push_back(v);
          }
          char fl = R.flag[(size_t)j];
          if (!fl && k != FLUX) {
            for (double b : bas) if (out(b / w->w[(size_t)j], f.uv[0], f.uv[1])) fl = 1;
            float amp = (float)(R.d[0][(size_t)j] / R.d[1][(size_t)j]);
            float phi = k == VIS2 ? 0 : (float)(R2D / R.d[3][(size_t)j]);
            if (k == VIS && (outf(amp, f.snr) || outf(phi, f.snr))) fl = 1;
            if (k == VIS2 && outf(amp, f.snr)) fl = 1;
            if (k == T3 && ((f.t3amp && outf(amp, f.snr)) || (f.t3phi && outf(phi, f.snr)))) fl = 1;
          }
          N.flag.push_back(fl);
          if (!fl) any = true;
          if (T.userefmap && k == VIS) for (int l = 0; l < T.nwave; l++) if (u[(size_t)l]) N.refmap.push_back(R.refmap[(size_t)(l + j * T.nwave)]);
        }
        if (!f.flagged && !any && k != FLUX) continue;
        n.rec.push_back(N);
      }
      if (n.nwave > 0 && !n.rec.empty()) o.d[k].push_back(n);
    }
  }
  std::set<std::string> ra, rw, rc;
  for (auto &d : o.d) for (auto &T : d) { ra.insert(T.arr); rw.insert(T.ins); rc.insert(T.corr); }
  auto prune = [](auto &v, const std::set<std::string> &s, auto key) { v.erase(std::remove_if(v.begin(), v.end(), [&](auto &x) { return !s.count(key(x)) || key(x).empty(); }), v.end()); };
  prune(o.a, ra, [](const Arr &x) { return x.name; });
  prune(o.p, ra, [](const Pol &x) { return x.arr; });
  prune(o.w, rw, [](const Wav &x) { return x.name; });
  prune(o.c, rc, [](const Corr &x) { return x.name; });
  return o;
}
// true if some comparison of the filter lies so close to a limit that a
// different but equally valid order of floating-point operations could decide
// it differently (phase S/N, spatial frequencies); exact hits are not ambiguous
bool filter_ambiguous(const DS &in, const FilterSpec &f) {
  auto near = [](double v, double lim, bool exact_ok) {
    if (std::isnan(v) || std::isinf(v) || lim == 0) return false;
    double rel = std::fabs(v - lim) / std::fabs(lim);
    return exact_ok ? rel != 0 && rel < 1e-6 : rel < 1e-4;
  };
  for (int k = 0; k < NKIND; k++) for (auto &T : in.d[k]) {
    const Wav *w = nullptr;
    for (auto &x : in.w) if (x.name == T.ins) w = &x;
    for (auto &R : T.rec) {
      std::vector<double> bas;
      if (k == VIS || k == VIS2) bas = {std::sqrt(R.u[0] * R.u[0] + R.u[1] * R.u[1])};
      if (k == T3) bas = {std::sqrt(R.u[0] * R.u[0] + R.u[1] * R.u[1]), std::sqrt(R.u[2] * R.u[2] + R.u[3] * R.u[3]),
                          std::sqrt((R.u[0] + R.u[2]) * (R.u[0] + R.u[2]) + (R.u[1] + R.u[3]) * (R.u[1] + R.u[3]))};
      for (double b : bas) {
        for (double l : f.bas) if (near(b, l, b == std::floor(b))) return true;
        if (w) for (float wl : w->w) { int ex; bool p2 = std::frexp(wl, &ex) == 0.5f && b == std::floor(b); for (double l : f.uv) if (near(b / wl, l, p2)) return true; }
      }
      for (int j = 0; j < T.nwave; j++) {
        for (float l : f.snr) {
          if (near((float)(R.d[0][(size_t)j] / R.d[1][(size_t)j]), l, true)) return true;
          if ((k == VIS || k == T3) && near(R2D / R.d[3][(size_t)j], l, false)) return true;
        }
      }
    }
  }
  return false;
}

// ---------------------------------------------------------------- check
static const int MAXREP = 10;
void CheckRes::add(int lv, const std::string &loc) { if (lv > level) level = lv; std::string l = loc.substr(0, 70); n++; locs.push_back(l); }
static void both(CheckRes &a, const CheckRes &b) {
  for (auto &l : a.locs) a.kind[l] = a.desc;
  for (auto &l : b.locs) { a.kind[l] = b.desc; a.locs.push_back(l); }
  a.n += b.n;
}
std::vector<CheckRes> ref_check(const DS &ds) {
  std::vector<CheckRes> R;
  bool v2 = ds.h[H_CONTENT] == "OIFITS2";
  char b[512];
  auto num = [](const char *what, size_t i) { return std::string(what) + " #" + std::to_string(i + 1); };
  static const char *lab[NKIND] = {"OI_VIS", "OI_VIS2", "OI_T3", "OI_FLUX"};
  {
    CheckRes miss{"Mandatory table missing"}, rev{"Invalid OI_REVN"};
    if (v2 && ds.a.empty()) miss.add(2, "No OI_ARRAY table - at least one required");
    if (ds.w.empty()) miss.add(2, "No OI_WAVELENGTH table - at least one required");
    if (v2 && ds.d[0].empty() && ds.d[1].empty() && ds.d[2].empty() && ds.d[3].empty()) miss.add(2, "No data table - at least one OI_VIS/VIS2/T3/FLUX required");
    if (!v2 && ds.d[0].empty() && ds.d[1].empty() && ds.d[2].empty()) miss.add(2, "No data table - at least one OI_VIS/VIS2/T3 required");
    int want = v2 ? 2 : 1;
    if (ds.trev != want) rev.add(2, "OI_TARGET");
    for (size_t i = 0; i < ds.a.size(); i++) if (ds.a[i].rev != want) rev.add(2, num("OI_ARRAY", i));
    for (size_t i = 0; i < ds.w.size(); i++) if (ds.w[i].rev != want) rev.add(2, num("OI_WAVELENGTH", i));
    for (int k = 0; k < 3; k++) for (size_t i = 0; i < ds.d[k].size(); i++) if (ds.d[k][i].rev != want) rev.add(2, num(lab[k], i));
    if (v2) {
      for (size_t i = 0; i < ds.d[FLUX].size(); i++) if (ds.d[FLUX][i].rev != 1) rev.add(2, num("OI_FLUX", i));
      for (size_t i = 0; i < ds.c.size(); i++) if (ds.c[i].rev != 1) rev.add(2, num("OI_CORR", i));
      for (size_t i = 0; i < ds.p.size(); i++) if (ds.p[i].rev != 1) rev.add(2, num("OI_INSPOL", i));
    }
    if (miss.n && rev.n) { both(miss, rev); R.push_back(miss); }
    else { R.push_back(miss); R.push_back(rev); }
  }
  {
    CheckRes c{"Invalid/missing primary header keyword value"};
    if (v2) for (int k : {H_ORIGIN, H_DATE, H_DATEOBS, H_CONTENT, H_TELESCOP, H_INSTRUME, H_OBSERVER, H_INSMODE, H_OBJECT})
      if (ds.h[k].empty()) c.add(2, std::string(hk_name[k]) + " value missing from primary header");
    R.push_back(c);
  }
  {
    CheckRes c{"Invalid keyword value"};
    for (size_t i = 0; i < ds.a.size(); i++) if (ds.a[i].frame != "GEOCENTRIC" && ds.a[i].frame != "SKY") {
      snprintf(b, sizeof b, "OI_ARRAY #%zu FRAME='%s' ('GEOCENTRIC'/'SKY')", i + 1, ds.a[i].frame.c_str()); c.add(2, b); }
    if (v2) for (size_t i = 0; i < ds.d[VIS].size(); i++) {
      const Tab &T = ds.d[VIS][i];
      if (!T.amptyp.empty() && T.amptyp != "absolute" && T.amptyp != "differential" && T.amptyp != "correlated flux") {
        snprintf(b, sizeof b, "OI_VIS #%zu AMPTYP='%s' ('absolute'/'differential'/'correlated flux')", i + 1, T.amptyp.c_str()); c.add(2, b); }
      if (!T.phityp.empty() && T.phityp != "absolute" && T.phityp != "differential") {
        snprintf(b, sizeof b, "OI_VIS #%zu PHITYP='%s' ('absolute'/'differential')", i + 1, T.phityp.c_str()); c.add(2, b); }
    }
    for (size_t i = 0; i < ds.d[FLUX].size(); i++) {
      const Tab &T = ds.d[FLUX][i];
      if (T.calstat != 'C' && T.calstat != 'U') { snprintf(b, sizeof b, "OI_FLUX #%zu CALSTAT='%c' ('C'/'U')", i + 1, T.calstat); c.add(2, b); }
      if (!T.fovtype.empty() && T.fovtype != "FWHM" && T.fovtype != "RADIUS") { snprintf(b, sizeof b, "OI_FLUX #%zu FOVTYPE='%s' ('FWHM', 'RADIUS')", i + 1, T.fovtype.c_str()); c.add(2, b); }
    }
    R.push_back(c);
  }
  {
    CheckRes c{"VISREFMAP present (missing) for absolute (differential) vis"};
    for (size_t i = 0; i < ds.d[VIS].size(); i++) {
      const Tab &T = ds.d[VIS][i];
      bool dif = T.amptyp == "differential" || T.phityp == "differential";
      if (dif != T.userefmap) {
        snprintf(b, sizeof b, "OI_VIS #%zu AMPTYP='%s' PHITYP='%s' has %sVISREFMAP", i + 1, T.amptyp.c_str(), T.phityp.c_str(), dif ? "no " : ""); c.add(dif ? 2 : 1, b); }
    }
    R.push_back(c);
  }
  {
    CheckRes c{"Duplicate value in TARGET column of OI_TARGET"};
    std::set<std::string> seen;
    for (auto &t : ds.t) if (!seen.insert(t.name).second) { snprintf(b, sizeof b, "TARGET_ID=%d  TARGET='%s'", t.id, t.name.c_str()); c.add(1, b); }
    R.push_back(c);
  }
  auto recloc = [&](int k, size_t i, size_t r) { return num(lab[k], i) + " record " + std::to_string(r + 1); };
  {
    CheckRes c{"Reference to missing target record"};
    for (int k = 0; k < NKIND; k++) for (size_t i = 0; i < ds.d[k].size(); i++) for (size_t r = 0; r < ds.d[k][i].rec.size(); r++) {
      bool f = false; for (auto &t : ds.t) if (t.id == ds.d[k][i].rec[r].tid) f = true;
      if (!f) c.add(2, recloc(k, i, r));
    }
    R.push_back(c);
  }
  {
    CheckRes c{"ARRNAME missing"};
    if (v2) {
      for (size_t i = 0; i < ds.p.size(); i++) if (ds.p[i].arr.empty()) c.add(2, num("OI_INSPOL", i));
      for (int k = 0; k < NKIND; k++) for (size_t i = 0; i < ds.d[k].size(); i++)
        if (ds.d[k][i].arr.empty() && (k != FLUX || ds.d[k][i].calstat == 'U')) c.add(2, num(lab[k], i));
    }
    R.push_back(c);
  }
  {
    CheckRes c{"Reference to missing array element"}, c2{"ARRNAME missing"};
    auto has = [&](const std::string &an, int idx) { for (auto &a : ds.a) if (a.name == an) { for (auto &e : a.el) if (e.idx == idx) return true; return false; } return false; };
    for (size_t i = 0; i < ds.p.size(); i++) {
      if (ds.p[i].arr.empty()) { c2.add(2, num("OI_INSPOL", i)); continue; }
      for (size_t r = 0; r < ds.p[i].rec.size(); r++) if (!has(ds.p[i].arr, ds.p[i].rec[r].sta)) c.add(2, num("OI_INSPOL", i) + " record " + std::to_string(r + 1));
    }
    for (int k = 0; k < NKIND; k++) for (size_t i = 0; i < ds.d[k].size(); i++) {
      const Tab &T = ds.d[k][i];
      if (T.arr.empty()) continue;
      for (size_t r = 0; r < T.rec.size(); r++) for (int m = 0; m < NSTA[k]; m++) {
        if (k == FLUX && T.rec[r].sta[m] == -1) continue;
        if (!has(T.arr, T.rec[r].sta[m])) c.add(2, recloc(k, i, r));
      }
    }
    if (c.n && c2.n) { both(c, c2); R.push_back(c); }
    else { R.push_back(c); R.push_back(c2); }
  }
  {
    CheckRes c{"Reference to missing OI_CORR table"};
    for (int k = 0; k < NKIND; k++) for (size_t i = 0; i < ds.d[k].size(); i++) {
      const Tab &T = ds.d[k][i];
      if (T.corr.empty()) continue;
      bool f = false; for (auto &x : ds.c) if (x.name == T.corr) f = true;
      if (!f) c.add(2, num(lab[k], i));
    }
    R.push_back(c);
  }
  auto chloc = [&](int k, size_t i, size_t r, int j) { return recloc(k, i, r) + " channel " + std::to_string(j + 1); };
  {
    CheckRes c{"Data table contains negative error bar"};
    for (int k = 0; k < 3; k++) for (size_t i = 0; i < ds.d[k].size(); i++) for (size_t r = 0; r < ds.d[k][i].rec.size(); r++) for (int j = 0; j < ds.d[k][i].nwave; j++) {
      const Rec &x = ds.d[k][i].rec[r];
      if (x.flag[(size_t)j]) continue;
      if (x.d[1][(size_t)j] < 0 || (k != VIS2 && x.d[3][(size_t)j] < 0)) c.add(2, chloc(k, i, r, j));
    }
    R.push_back(c);
  }
  {
    CheckRes c{"OI_T3 table may contain unnormalised triple product amplitude"};
    for (size_t i = 0; i < ds.d[T3].size(); i++) for (size_t r = 0; r < ds.d[T3][i].rec.size(); r++) for (int j = 0; j < ds.d[T3][i].nwave; j++) {
      const Rec &x = ds.d[T3][i].rec[r];
      if (!x.flag[(size_t)j] && x.d[0][(size_t)j] - 1.0 > x.d[1][(size_t)j]) c.add(2, chloc(T3, i, r, j));
    }
    R.push_back(c);
  }
  {
    CheckRes c{"OI_WAVELENGTH has wavelengths not in ascending order"};
    for (auto &w : ds.w) for (size_t i = 1; i < w.w.size(); i++)
      if (w.w[i] < w.w[i - 1] || (i + 1 < w.w.size() && w.w[i] > w.w[i + 1])) { snprintf(b, sizeof b, "OI_WAVELENGTH INSNAME=%s channel %zu", w.name.c_str(), i + 1); c.add(1, b); }
    R.push_back(c);
  }
  {
    CheckRes c{"Non-zero TIME values in OIFITS v2 data table"};
    if (v2) for (int k = 0; k < 3; k++) for (size_t i = 0; i < ds.d[k].size(); i++) for (size_t r = 0; r < ds.d[k][i].rec.size(); r++)
      if (std::fabs(ds.d[k][i].rec[r].time) > 1e-10) c.add(1, recloc(k, i, r));
    R.push_back(c);
  }
  {
    CheckRes c{"ARRNAME/STA_INDEX/FOVTYPE present (missing) in (un)calibrated fluxes"};
    for (size_t i = 0; i < ds.d[FLUX].size(); i++) {
      const Tab &T = ds.d[FLUX][i];
      if (T.calstat == 'C') {
        if (!T.arr.empty()) { snprintf(b, sizeof b, "OI_FLUX #%zu Calibrated but ARRNAME='%s'", i + 1, T.arr.c_str()); c.add(2, b); }
        if (!T.rec.empty() && T.rec[0].sta[0] != -1) c.add(2, num("OI_FLUX", i) + " Calibrated but STA_INDEX present");
      } else if (T.calstat == 'U') {
        if (T.arr.empty()) c.add(2, num("OI_FLUX", i) + " Uncalibrated but ARRNAME missing");
        if (T.rec.empty() || T.rec[0].sta[0] == -1) c.add(2, num("OI_FLUX", i) + " Uncalibrated but STA_INDEX missing");
        if (!T.fovtype.empty()) c.add(2, num("OI_FLUX", i) + " Uncalibrated but FOVTYPE present");
      }
    }
    R.push_back(c);
  }
  std::vector<CheckRes> o;
  for (auto &c : R) if (c.n) o.push_back(c);
  return o;
}
// Compare the report printed by the check tool with the reference verdicts.
std::string check_report_diff(const std::vector<CheckRes> &want, const std::string &outText) {
  static const char *lev[4] = {"No error", "Valid OIFITS, but may cause problems for some reading software", "Does not conform to the OIFITS standard", "Does not conform to the FITS standard"};
  struct Got { int level = -1; std::string desc; int n = 0; std::vector<std::string> locs; };
  std::vector<Got> got;
  size_t i = 0; bool passed = false, in = false;
  while (i < outText.size()) {
    size_t e = outText.find('\n', i); if (e == std::string::npos) e = outText.size();
    std::string l = outText.substr(i, e - i); i = e + 1;
    if (l == "All checks passed") { passed = true; in = false; continue; }
    if (l.compare(0, 4, "*** ") == 0) {
      Got g; std::string t = l.substr(4); if (!t.empty() && t.back() == ':') t.pop_back();
      for (int k = 0; k < 4; k++) if (t == lev[k]) g.level = k;
      size_t e2 = outText.find('\n', i); std::string d = outText.substr(i, e2 - i); i = e2 + 1;
      size_t c = d.rfind(", "); if (c == std::string::npos) return "unparsable report line `" + d + "'";
      g.desc = d.substr(0, c); g.n = atoi(d.c_str() + c + 2);
      got.push_back(g); in = true; continue;
    }
    if (in && l.compare(0, 4, "    ") == 0) { got.back().locs.push_back(l.substr(4)); continue; }
    in = false;
  }
  if (passed != want.empty()) return passed ? "says all checks passed although breach `" + want[0].desc + "' is present (" + want[0].locs[0] + ")" : "no \"All checks passed\" for a file without breaches" + (got.empty() ? std::string() : " (reports `" + got[0].desc + "')");
  std::vector<char> used(got.size(), 0);
  for (auto &w : want) {
    bool f = false;
    for (size_t g = 0; g < got.size(); g++) {
      if (used[g] || (got[g].desc != w.desc && (w.kind.empty() || std::none_of(w.kind.begin(), w.kind.end(), [&](auto &k) { return k.second == got[g].desc; })))) continue;
      used[g] = 1; f = true;
      if (got[g].level != w.level) return "`" + w.desc + "': level " + std::to_string(got[g].level) + " instead of " + std::to_string(w.level);
      if (got[g].n != w.n) return "`" + w.desc + "': " + std::to_string(got[g].n) + " occurrences instead of " + std::to_string(w.n);
      std::multiset<std::string> ws(w.locs.begin(), w.locs.end());
      bool trunc = w.n >= MAXREP;
      if (!trunc && (int)got[g].locs.size() != w.n) return "`" + w.desc + "': lists " + std::to_string(got[g].locs.size()) + " locations";
      if (trunc && (int)got[g].locs.size() < MAXREP - 1) return "`" + w.desc + "': lists only " + std::to_string(got[g].locs.size()) + " locations";
      if ((int)got[g].locs.size() < w.n || (trunc && !ws.count(got[g].locs.back()))) { bool said = false; for (auto &l : got[g].locs) said |= l.find("truncated") != std::string::npos; if (!said) return "`" + w.desc + "': lists " + std::to_string(got[g].locs.size()) + " of " + std::to_string(w.n) + " locations without a word that there are more"; }
      for (auto &l : got[g].locs) {
        if (trunc && l == "[List truncated]") continue;
        auto it = ws.find(l);
        if (it != ws.end() && !w.kind.empty() && w.kind.at(l) != got[g].desc) return "`" + got[g].desc + "': reported at `" + l + "', where it is `" + w.kind.at(l) + "'";
        if (it == ws.end()) for (auto &a : w.kind) if (a.second != got[g].desc && l == a.second + ": " + a.first) { it = ws.find(a.first); break; }
        if (it == ws.end()) return "`" + w.desc + "': reported at `" + l + "' where it does not occur";
        ws.erase(it);
      }
      break;
    }
    if (!f) return "breach `" + w.desc + "' at " + w.locs[0] + " not reported";
  }
  for (size_t g = 0; g < got.size(); g++) if (!used[g]) return "reports `" + got[g].desc + "', which is not present";
  return "";
}

// ---------------------------------------------------------------- iteration, facts
std::vector<IterPt> ref_iter(const DS &in, int k, const FilterSpec &f) {
  std::vector<IterPt> r;
  if ((k == VIS && !f.vis) || (k == VIS2 && !f.vis2) || (k == T3 && !f.t3amp && !f.t3phi)) return r;
  int ev = 0;
  for (auto &T : in.d[k]) {
    ev++;
    if (!glob_match(f.ins.c_str(), T.ins.c_str()) || !glob_match(f.arr.c_str(), T.arr.c_str()) || !glob_match(f.corr.c_str(), T.corr.c_str())) continue;
    const Wav *w = nullptr;
    for (auto &x : in.w) if (x.name == T.ins && !w) w = &x;
    if (!w) continue;
    for (size_t i = 0; i < T.rec.size(); i++) {
      const Rec &R = T.rec[i];
      if (f.target >= 0 && R.tid != f.target) continue;
      if (out(R.mjd, f.mjd[0], f.mjd[1])) continue;
      std::vector<double> bas = {std::sqrt(R.u[0] * R.u[0] + R.u[1] * R.u[1])};
      if (k == T3) { bas.push_back(std::sqrt(R.u[2] * R.u[2] + R.u[3] * R.u[3])); bas.push_back(std::sqrt((R.u[0] + R.u[2]) * (R.u[0] + R.u[2]) + (R.u[1] + R.u[3]) * (R.u[1] + R.u[3]))); }
      bool rej = false;
      for (double b : bas) if (out(b, f.bas[0], f.bas[1])) rej = true;
      if (rej) continue;
      for (int j = 0; j < T.nwave && j < (int)w->w.size(); j++) {
        float wl = w->w[(size_t)j];
        if (wl < f.wave[0] || wl > f.wave[1]) continue;
        if (R.flag[(size_t)j] && !f.flagged) continue;
        bool no = false;
        for (double b : bas) if (out(b / wl, f.uv[0], f.uv[1])) no = true;
        float amp = (float)(R.d[0][(size_t)j] / R.d[1][(size_t)j]), phi = k == VIS2 ? 0 : (float)(R2D / R.d[3][(size_t)j]);
        if (k == VIS && (outf(amp, f.snr) || outf(phi, f.snr))) no = true;
        if (k == VIS2 && outf(amp, f.snr)) no = true;
        if (k == T3 && ((f.t3amp && outf(amp, f.snr)) || (f.t3phi && outf(phi, f.snr)))) no = true;
        if (no) continue;
        IterPt p; p.ev = ev; p.irec = (long)i; p.iw = j; p.wl = wl; p.val = R.d[0][(size_t)j];
        for (int q = 0; q < 4; q++) p.uv[q] = R.u[q] / (double)wl;
        r.push_back(p);
      }
    }
  }
  return r;
}
long ref_count(const DS &d, int k) { long n = 0; for (auto &T : d.d[k]) for (auto &r : T.rec) for (char c : r.flag) n += !c; return n; }
bool ref_atomic(const DS &d, double days) {
  if (d.a.size() > 1 || d.w.size() != 1 || d.t.size() != 1) return false;
  double lo = 1e300, hi = -1e300;
  for (auto &q : d.d) for (auto &T : q) for (auto &r : T.rec) { lo = std::min(lo, r.mjd); hi = std::max(hi, r.mjd); }
  return hi - lo <= days;
}
bool ref_one(const DS &d) {
  if (d.h[H_CONTENT] == "OIFITS2" || d.trev != 1) return false;
  for (auto &x : d.a) if (x.rev != 1) return false;
  for (auto &x : d.w) if (x.rev != 1) return false;
  for (int k = 0; k < 3; k++) for (auto &x : d.d[k]) if (x.rev != 1) return false;
  return true;
}
std::string ref_summary(const DS &d) {
  std::string r; char b[1000];
#define A(...) (snprintf(b, sizeof b, __VA_ARGS__), r += b)
  A("OIFITS version %d data:\n", d.h[H_CONTENT] == "OIFITS2" ? 2 : 1);
  static const int order[] = {H_ORIGIN, H_DATE, H_DATEOBS, H_TELESCOP, H_INSTRUME, H_OBSERVER, H_OBJECT, H_INSMODE, H_OBSTECH};
  static const char *lab[] = {"ORIGIN  ", "DATE    ", "DATE-OBS", "TELESCOP", "INSTRUME", "OBSERVER", "OBJECT  ", "INSMODE ", "OBSTECH "};
  for (int i = 0; i < 9; i++) A("  %s= '%s'\n", lab[i], d.h[order[i]].c_str());
  r += "\n";
  int n;
  A("  %zu OI_ARRAY tables:\n", d.a.size()); n = 1;
  for (auto &x : d.a) A("    #%-2d ARRNAME='%s'  %zu elements\n", n++, x.name.c_str(), x.el.size());
  A("  %zu OI_WAVELENGTH tables:\n", d.w.size()); n = 1;
  for (auto &x : d.w) { float lo = 1e11f, hi = 0; for (float v : x.w) { if (v < lo) lo = v; if (v > hi) hi = v; } A("    #%-2d INSNAME='%s'  %zu channels  %7.1f-%7.1fnm\n", n++, x.name.c_str(), x.w.size(), 1e9 * lo, 1e9 * hi); }
  A("  %zu OI_CORR tables:\n", d.c.size()); n = 1;
  for (auto &x : d.c) A("    #%-2d CORRNAME='%s'  %zu/%d non-zero correlations\n", n++, x.name.c_str(), x.c.size(), x.ndata);
  A("  %zu OI_INSPOL tables:\n", d.p.size()); n = 1;
  for (auto &x : d.p) A("    #%-2d ARRNAME='%s'\n", n++, x.arr.c_str());
  for (int k = 0; k < NKIND; k++) {
    A("  %zu %s tables:\n", d.d[k].size(), kind_ext[k]); n = 1;
    for (auto &T : d.d[k]) { A("    #%-2d DATE-OBS=%s\n", n++, T.dateobs.c_str()); A("    INSNAME='%s'  ARRNAME='%s'  CORRNAME='%s'\n", T.ins.c_str(), T.arr.c_str(), T.corr.c_str()); A("     %5zu records x %3d wavebands\n", T.rec.size(), T.nwave); }
  }
  return r;
}
std::string ref_spec_text(const FilterSpec &f) {
  std::string r = "Filter accepts:\n"; char b[1000];
  A("  ARRNAME='%s'\n  INSNAME='%s'\n", f.arr.c_str(), f.ins.c_str()); A("  CORRNAME='%s'\n", f.corr.c_str());
  if (f.target >= 0) A("  TARGET_ID=%d\n", f.target); else r += "  [Any TARGET_ID]\n";
  A("  MJD: %.2f - %.2f\n", f.mjd[0], f.mjd[1]);
  A("  Wavelength: %.1f - %.1fnm\n", 1e9 * f.wave[0], 1e9 * f.wave[1]);
  A("  Baseline: %.1f - %.1fm\n", f.bas[0], f.bas[1]);
  A("  UV Radius: %.1g - %.1g waves\n", f.uv[0], f.uv[1]);
  A("  SNR: %.1f - %.1f\n", f.snr[0], f.snr[1]);
#undef A
  r += f.vis ? "  OI_VIS (complex visibilities)\n" : "  [OI_VIS not accepted]\n";
  r += f.vis2 ? "  OI_VIS2 (squared visibilities)\n" : "  [OI_VIS2 not accepted]\n";
  r += f.t3amp ? "  OI_T3 T3AMP (triple amplitudes)\n" : "  [OI_T3 T3AMP not accepted]\n";
  r += f.t3phi ? "  OI_T3 T3PHI (closure phases)\n" : "  [OI_T3 T3PHI not accepted]\n";
  r += f.flux ? "  OI_FLUX (incoherent spectra)\n" : "  [OI_FLUX not accepted]\n";
  r += f.flagged ? "  All-flagged records\n" : "  [All-flagged records not accepted]\n";
  return r;
}
