#include "model.h"
#include <algorithm>
#include <cstdarg>

const char *hk_name[H_N] = {"ORIGIN", "DATE", "DATE-OBS", "CONTENT", "TELESCOP", "INSTRUME", "OBSERVER", "INSMODE", "OBJECT",
                            "REFERENC", "AUTHOR", "PROG_ID", "PROCSOFT", "OBSTECH"};
const char *kind_ext[NKIND] = {"OI_VIS", "OI_VIS2", "OI_T3", "OI_FLUX"};

// ---------------------------------------------------------------- dates
int64_t civil_to_mjd(long y, long m, long d) {          // proleptic Gregorian
  y -= m <= 2;
  long era = (y >= 0 ? y : y - 399) / 400;
  unsigned yoe = (unsigned)(y - era * 400);
  unsigned doy = (unsigned)((153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1);
  unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  return era * 146097L + (long)doe - 719468 + 40587;
}
void mjd_to_civil(int64_t mjd, long &y, long &m, long &d) {
  int64_t z = mjd - 40587 + 719468;
  int64_t era = (z >= 0 ? z : z - 146096) / 146097;
  unsigned doe = (unsigned)(z - era * 146097);
  unsigned yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
  y = (long)yoe + era * 400;
  unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
  unsigned mp = (5 * doy + 2) / 153;
  d = doy - (153 * mp + 2) / 5 + 1;
  m = mp < 10 ? mp + 3 : mp - 9;
  y += m <= 2;
}
std::string mjd_datestr(int64_t mjd) {
  long y, m, d; mjd_to_civil(mjd, y, m, d);
  char b[64]; snprintf(b, sizeof b, "%4ld-%02ld-%02ld", y, m, d);
  return b;
}

// ---------------------------------------------------------------- generator
static std::string rstr(Rng &r, int maxlen, bool mayempty = false) {
  static const char al[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_-+.:/()[]";
  int n;
  int mode = (int)r.range(0, 9);
  if (mode == 0) n = maxlen; else if (mode == 1 && mayempty) n = 0; else n = (int)r.range(1, std::min(maxlen, 10));
  std::string s;
  for (int i = 0; i < n; i++) {
    int c = (int)r.range(0, 40);
    if (c == 0 && i < n - 1) s += ' ';
    else if (c == 1 && maxlen > 20 && n < maxlen / 2) s += '\'';
    else s += al[r.range(0, (int)sizeof al - 2)];
  }
  return s;
}
static double kwnum(Rng &r) {                 // survives %.15G
  switch (r.range(0, 5)) {
    case 0: return 0;
    case 1: return (double)r.range(-9999999, 9999999);
    default: return (double)r.range(-999999999, 999999999) / 1000.0;
  }
}
static double dval(Rng &r, bool low, bool nans) {
  double v;
  switch (r.range(0, 15)) {
    case 0: v = 0; break;
    case 1: v = nans ? NAN : 1.5; break;
    case 2: v = (double)r.range(-1000, 1000); break;
    case 3: v = (r.unit() - 0.5) * 1e30; break;
    case 4: v = (r.unit() - 0.5) * 1e-30; break;
    case 5: v = nans ? INFINITY : 2.5; break;
    case 6: v = -0.0; break;
    default: v = (r.unit() - 0.3) * 2; break;
  }
  return low ? (double)(float)v : v;
}
static std::string dateobs_of(Rng &r, int64_t mjd) {
  std::string s = mjd_datestr(mjd);
  if (r.chance(1, 3)) { char b[32]; snprintf(b, sizeof b, "T%02d:%02d:%02d", (int)r.range(0, 23), (int)r.range(0, 59), (int)r.range(0, 59)); s += b; }
  return s;
}
static int uniq_id(Rng &r, std::vector<int> &used, int lo, int hi) {
  for (;;) {
    if (!used.empty() && r.chance(1, 12)) { int v = used.back() ^ 256; if (v >= lo && v <= hi && std::find(used.begin(), used.end(), v) == used.end()) { used.push_back(v); return v; } }
    int v = r.chance(1, 12) ? (int)r.range(hi - 20, hi) : (int)r.range(lo, std::min(hi, lo + 60));
    if (std::find(used.begin(), used.end(), v) == used.end()) { used.push_back(v); return v; }
  }
}
static void gen_elems(Arr &A, Rng r, int n, bool v1, bool low) {
  std::vector<int> used;
  for (int i = 0; i < n; i++) {
    Elem e;
    e.tel = rstr(r, 16, true); e.sta = rstr(r, 16, true);
    e.idx = uniq_id(r, used, 0, 32767);
    e.diam = (float)r.range(0, 80000) / 1000.0f;
    for (int k = 0; k < 3; k++) e.xyz[k] = low ? (double)(float)(r.unit() * 1000 - 500) : r.unit() * 1000 - 500;
    if (v1) { e.fov = NAN; e.fovtype = "FWHM"; }
    else { e.fov = (double)r.range(0, 5000) / 100; e.fovtype = r.chance(1, 2) ? "FWHM" : "RADIUS"; }
    A.el.push_back(e);
  }
}

// names that are easily mistaken for each other: a new name made from one used
// before (its prefix, an extension of it, one differing in case or in the last
// character), never equal to any of them
static std::string kin(Rng &r, const std::string &fresh, const std::vector<std::string> &used, size_t maxlen) {
  if (r.chance(1, 10)) { std::string s(1, (char)('a' + r.range(0, 25))); if (std::find(used.begin(), used.end(), s) == used.end()) return s; }
  if (used.empty() || !r.chance(1, 3)) return fresh;
  for (int tries = 0; tries < 8; tries++) {
    std::string s = used[(size_t)r.range(0, (int64_t)used.size() - 1)];
    switch (r.range(0, 5)) {
      case 0: if (s.size() > 1) s.resize((size_t)r.range(1, (int64_t)s.size() - 1)); break;
      case 1: s += r.chance(1, 2) ? "x" : "_001"; break;
      case 2: for (size_t i = 0; i < s.size(); i++) if (isalpha((unsigned char)s[i])) { s[i] = (char)(s[i] ^ 32); if (r.chance(1, 2)) break; } break;
      case 3: s.back() = s.back() == 'z' ? 'y' : 'z'; break;
      case 4: s[0] = s[0] == 'q' ? 'r' : 'q'; break;
      default: while (s.size() < maxlen) s += 'k'; break;
    }
    size_t lim = maxlen - (size_t)std::count(s.begin(), s.end(), '\'');   // a quote takes two characters of a keyword
    if (s.size() > lim) s.resize(lim);
    while (!s.empty() && s.back() == ' ') s.pop_back();
    if (s.empty() || s[0] == ' ' || std::find(used.begin(), used.end(), s) != used.end()) continue;
    return s;
  }
  return fresh;
}
// what merging would call the second table of a name, as a name of its own
static std::string suffixed(uint64_t h, const std::string &stem, int slot) {
  if (slot == 0 || h % 4 != 0) return stem + std::to_string(slot);
  char b[40]; snprintf(b, sizeof b, "0_%03d", slot + (int)(h / 4 % 2));
  return stem + b;
}

DS gen_ds(Plan &P, const std::string &pfx, const GenOpt &o) {
  DS ds;
  auto K = [&](const std::string &s) { return pfx + s; };
  Rng hr = P.rng(K("hdr"));
  for (int i = 0; i < H_N; i++) ds.h[i] = rstr(hr, 60, i >= H_REFERENC);
  if (o.shared) {                       // headers that sometimes agree between datasets
    Rng pool(mix64(P.seed ^ 0x5151));
    for (int i = 0; i < H_N; i++) {
      std::string alt[3]; for (auto &a : alt) a = rstr(pool, 60, i >= H_REFERENC);
      ds.h[i] = alt[hr.range(0, 2) ? 0 : hr.range(0, 2)];
      if (i >= H_REFERENC && hr.chance(1, 3)) ds.h[i] = "";
    }
  }
  ds.h[H_CONTENT] = o.v1 ? "" : "OIFITS2";
  int64_t day = 45000 + (int64_t)hr.range(0, 25000);
  if (o.shared) day = 45000 + (int64_t)(mix64(P.seed ^ 0x77) % 25000) + hr.range(-40, 40);
  ds.h[H_DATEOBS] = dateobs_of(hr, day);
  ds.h[H_DATE] = "2001-01-01T00:00:00";

  // now and then much more of one thing: 1 targets, 2 auxiliary tables, 3 data tables, 4 channels, 5 records, 6 stations
  int bulk = (int)P.pick(K("bulk"), 0, 95); bulk = bulk > 9 ? 0 : bulk > 6 ? bulk - 6 : bulk;
  int nt = (int)P.pick(K("nt"), 1, bulk == 1 ? 50 : o.big ? 12 : 4);
  int na = (int)P.pick(K("na"), o.always_arr ? 1 : 0, bulk == 2 ? 12 : 3);
  int nw = (int)P.pick(K("nw"), 1, bulk == 2 ? 12 : 3);
  int nc = (o.v1 || !o.with_corr) ? 0 : (int)P.pick(K("nc"), 0, bulk == 2 ? 12 : 2);
  int np = (o.v1 || !o.with_inspol || na == 0) ? 0 : (int)P.pick(K("np"), 0, bulk == 2 || bulk == 3 ? 12 : 2);

  // targets
  ds.trev = o.v1 ? 1 : 2;
  ds.usecat = !o.v1 && P.chance(K("usecat"), 1, 2);
  std::vector<int> used;
  for (int i = 0; i < nt; i++) {
    Rng r = P.rng(K("targ" + std::to_string(i)));
    Targ t;
    t.id = uniq_id(r, used, 1, 32767);
    t.name = rstr(r, 32) ;
    if (o.shared) {
      // names from a pool shared by every dataset of the run, unique within one
      int slot = nt > 9 ? (i * 7 + (int)(mix64(P.seed ^ fnvs(pfx)) % 3)) % 61 : (i * 3 + (int)(mix64(P.seed ^ fnvs(pfx)) % 3)) % 9;
      auto base = [&](int sl) { Rng pr(mix64(P.seed ^ (0x9000 + (uint64_t)sl))); std::string lead = pr.chance(1, 8) ? " T" : "T"; return lead + std::to_string(sl) + "." + rstr(pr, 26); };
      uint64_t kin = mix64(P.seed ^ (0x9800 + (uint64_t)slot)) % 16;
      t.name = base(slot);
      // names that differ only by their end, or by the case of a letter, or by a leading space
      if (slot & 1 && kin < 4) { t.name = base(slot - 1); if (kin == 0) t.name += "b"; else if (kin == 1) t.name[t.name.find('T')] = 't'; else if (kin == 2) { if (t.name[0] == ' ') t.name.erase(0, 1); else t.name = " " + t.name; } else { if (t.name.size() < 31) t.name += std::string(31 - t.name.size(), 'y'); t.name += 'z'; } }
    } else t.name = (t.name + "#" + std::to_string(i)), t.name = t.name.size() > 32 ? t.name.substr(t.name.size() - 32) : t.name;
    if (!o.shared) { std::vector<std::string> u; for (auto &q : ds.t) u.push_back(q.name); Rng kr = P.rng(K("targkin" + std::to_string(i))); t.name = kin(kr, t.name, u, 32); }
    t.ra = r.unit() * 360; t.dec = r.unit() * 180 - 90; t.equinox = (float)(1950 + 50 * r.range(0, 1));
    t.raerr = dval(r, true, false); t.decerr = dval(r, false, false); t.sysvel = dval(r, false, false);
    t.veltyp = r.chance(1, 3) ? "UNKNOWN" : rstr(r, 8, true); t.veldef = r.chance(1, 3) ? "RADIO" : rstr(r, 8, true);
    t.pmra = dval(r, false, false); t.pmdec = dval(r, false, false); t.pmraerr = dval(r, false, false); t.pmdecerr = dval(r, false, false);
    t.par = (float)r.unit(); t.parerr = (float)r.unit() / 100;
    t.spec = rstr(r, 32, true);
    if (o.wide) {
      Rng wr = P.rng(K("targwide" + std::to_string(i)));
      auto widen = [&](std::string &x) { while (x.size() < 32) x += 'v'; if (x[31] == ' ') x[31] = 'v'; x.resize(32); int n = wr.chance(1, 2) ? 1 : (int)wr.range(2, 60); for (int q = 0; q < n; q++) x += (char)('a' + wr.range(0, 25)); };
      if (wr.chance(1, 2)) { std::string x = t.name; widen(x); bool ok = true; for (auto &q : ds.t) ok &= q.name.substr(0, 32) != x.substr(0, 32); if (ok) t.name = x; }
      if (wr.chance(1, 2)) widen(t.spec);
    }
    if (ds.usecat) t.cat = r.chance(1, 4) ? "" : r.chance(1, 2) ? "SCI" : "CAL";
    ds.t.push_back(t);
  }
  // arrays
  for (int i = 0; i < na; i++) {
    Rng r = P.rng(K("arr" + std::to_string(i)));
    Arr A; A.rev = o.v1 ? 1 : 2;
    int n = (int)P.pick(K("arr" + std::to_string(i) + ".n"), 1, bulk == 6 ? 60 : o.big ? 12 : 4);
    A.name = "A" + std::to_string(i) + rstr(r, 50);
    if (!o.shared) { std::vector<std::string> u; for (auto &q : ds.a) u.push_back(q.name); Rng kr = P.rng(K("arrkin" + std::to_string(i))); A.name = kin(kr, A.name, u, 68); }
    A.frame = r.chance(2, 3) ? "GEOCENTRIC" : "SKY";
    for (double &c : A.c) c = kwnum(r);
    Rng er = r;
    if (o.shared) {
      int slot = (i + (int)(mix64(P.seed ^ fnvs(pfx) ^ 5) % 3)) % (na > 4 ? 16 : 4);
      bool longname = mix64(P.seed ^ 0x31) % 4 == 0;
      A.name = suffixed(mix64(P.seed ^ 0x37), "Arr", slot) + (longname ? std::string(57 + mix64(P.seed ^ 0x32) % 4 , 'n') : "");
      if (A.name.size() > 68) A.name.resize(68);
      int var = (int)r.range(0, 2);
      Rng pr(mix64(P.seed ^ (0xA000 + (uint64_t)var)));
      for (double &c : A.c) c = kwnum(pr);
      A.frame = "GEOCENTRIC";
      er = pr; n = 2 + (int)(mix64(P.seed ^ (uint64_t)var) % (mix64(P.seed ^ 0x41) % 6 ? 3 : 24));
    }
    gen_elems(A, er, n, o.v1, o.lowprec);
    if (o.shared) {
      // small differences that must (or must not) make two arrays distinct
      int tweak = (int)r.range(0, 11);
      Elem &e = A.el[(size_t)r.range(0, (int)A.el.size() - 1)];
      switch (tweak) {
        case 0: e.xyz[r.range(0, 2)] += 1e-3; break;
        case 1: e.diam += 0.5f; break;
        case 2: { double &c = A.c[r.range(0, 2)]; char b[40]; snprintf(b, sizeof b, "%.13G", c + 0.001); c = strtod(b, nullptr); break; }
        case 3: if (!o.v1) e.fov += 0.25; break;
        case 4: if (!o.v1) e.fovtype = e.fovtype == "FWHM" ? "RADIUS" : "FWHM"; break;
        case 5: if (A.el.size() > 1) A.el.pop_back(); break;
        case 6: std::reverse(A.el.begin(), A.el.end()); break;
        case 7: e.idx += e.idx > 0 ? -100 : 100; break;
        default: break;
      }
    }
    ds.a.push_back(A);
  }
  // wavelengths
  for (int i = 0; i < nw; i++) {
    Rng r = P.rng(K("wav" + std::to_string(i)));
    Wav w; w.rev = o.v1 ? 1 : 2;
    int n = (int)P.pick(K("wav" + std::to_string(i) + ".n"), 1, bulk == 4 && i == 0 ? 1100 : o.big ? 300 : 6);
    w.name = "W" + std::to_string(i) + rstr(r, 50);
    if (!o.shared) { std::vector<std::string> u; for (auto &q : ds.w) u.push_back(q.name); Rng kr = P.rng(K("wavkin" + std::to_string(i))); w.name = kin(kr, w.name, u, 68); if (!ds.a.empty() && kr.chance(1, 6)) { auto &x = ds.a[(size_t)kr.range(0, (int)ds.a.size() - 1)].name; bool ok = true; for (auto &q : u) ok &= q != x; if (ok) w.name = x; } }
    Rng wr = r;
    if (o.shared) {
      int slot = (i + (int)(mix64(P.seed ^ fnvs(pfx) ^ 6) % 3)) % (nw > 4 ? 16 : 4);
      bool longname = mix64(P.seed ^ 0x33) % 4 == 0;
      w.name = suffixed(mix64(P.seed ^ 0x38), "Ins", slot) + (longname ? std::string(57 + mix64(P.seed ^ 0x34) % 4, 'w') : "");
      if (w.name.size() > 68) w.name.resize(68);
      int var = (int)r.range(0, 2);
      wr = Rng(mix64(P.seed ^ (0xB000 + (uint64_t)var)));
      n = 1 + (int)(mix64(P.seed ^ (0xC000 + (uint64_t)var)) % (mix64(P.seed ^ 0x42) % 6 ? 5 : 60));
    }
    for (int k = 0; k < n; k++) {
      w.w.push_back((float)(0.4e-6 + wr.unit() * 12e-6)); w.b.push_back((float)(1e-9 + wr.unit() * 1e-7));
    }
    if (o.valid || wr.chance(1, 2)) std::sort(w.w.begin(), w.w.end());
    if (o.shared) {
      int tweak = (int)r.range(0, 7);
      if (tweak == 0) w.w[(size_t)r.range(0, n - 1)] += 2e-9f;
      else if (tweak == 1) w.b[(size_t)r.range(0, n - 1)] += 2e-9f;
      else if (tweak == 2 && n > 1) { w.w.pop_back(); w.b.pop_back(); }
    }
    ds.w.push_back(w);
  }
  for (int i = 0; i < nc; i++) {
    Rng r = P.rng(K("corr" + std::to_string(i)));
    Corr c; c.name = "C" + std::to_string(i) + rstr(r, 50);
    if (!o.shared) { std::vector<std::string> u; for (auto &q : ds.c) u.push_back(q.name); Rng kr = P.rng(K("corrkin" + std::to_string(i))); c.name = kin(kr, c.name, u, 68); if (kr.chance(1, 4)) { auto &x = ds.a.empty() || kr.chance(2, 3) ? ds.w[(size_t)kr.range(0, (int)ds.w.size() - 1)].name : ds.a[(size_t)kr.range(0, (int)ds.a.size() - 1)].name; bool ok = true; for (auto &q : u) ok &= q != x; if (ok) c.name = x; } }
    if (o.shared) {
      int slot = (i + (int)r.range(0, 1)) % (nc > 3 ? 16 : 3);
      std::string st = suffixed(mix64(P.seed ^ 0x39), "Corr", slot);
      for (auto &q : ds.c) if (q.name.compare(0, st.size(), st) == 0) slot = 3 + i;
      bool longname = mix64(P.seed ^ 0x35) % 4 == 0;
      c.name = suffixed(mix64(P.seed ^ 0x39), "Corr", slot) + (longname ? std::string(57 + mix64(P.seed ^ 0x36) % 4, 'c') : "");
      if (c.name.size() > 68) c.name.resize(68);
    }
    int n = (int)P.pick(K("corr" + std::to_string(i) + ".n"), 1, o.big ? 60 : 5);
    c.ndata = (int)r.range(n + 1, 2000000);
    for (int k = 0; k < n; k++) { int a = (int)r.range(1, c.ndata), b = (int)r.range(1, c.ndata); c.i.push_back(std::min(a, b)); c.j.push_back(std::max(a, b)); c.c.push_back(r.unit() * 2 - 1); }
    ds.c.push_back(c);
  }
  for (int i = 0; i < np; i++) {
    Rng r = P.rng(K("pol" + std::to_string(i)));
    Pol p; p.dateobs = dateobs_of(r, day); p.npol = (int)r.range(1, 2);
    const Arr &A = ds.a[(size_t)r.range(0, na - 1)];
    p.arr = A.name; p.orient = r.chance(1, 2) ? "NORTH" : rstr(r, 20); p.model = rstr(r, 20);
    const Wav &w = ds.w[(size_t)r.range(0, nw - 1)];
    std::vector<std::string> names;
    for (auto &q : ds.w) if (q.w.size() == w.w.size()) names.push_back(q.name);
    p.nwave = (int)w.w.size();
    int n = (int)P.pick(K("pol" + std::to_string(i) + ".n"), 1, 3);
    for (int k = 0; k < n; k++) {
      PolRec q; q.tid = ds.t[(size_t)r.range(0, nt - 1)].id; q.ins = names[(size_t)r.range(0, (int)names.size() - 1)];
      q.mjd0 = (double)day + r.unit(); q.mjd1 = q.mjd0 + r.unit();
      for (int m = 0; m < 4; m++) for (int x = 0; x < p.nwave; x++) q.j[m].push_back(cf((float)r.unit(), (float)-r.unit()));
      q.sta = A.el[(size_t)r.range(0, (int)A.el.size() - 1)].idx;
      p.rec.push_back(q);
    }
    ds.p.push_back(p);
  }
  // data tables
  static const char *kn[NKIND] = {"vis", "vis2", "t3", "flux"};
  for (int k = 0; k < NKIND; k++) {
    if (k == FLUX && o.v1) continue;
    int nd = (int)P.pick(K(std::string("n.") + kn[k]), 0, bulk == 3 ? 12 : bulk == 4 ? 1 : 2);
    for (int i = 0; i < nd; i++) {
      std::string tk = K(std::string(kn[k]) + std::to_string(i));
      Rng r = P.rng(tk);
      Tab T; T.kind = k; T.rev = o.v1 ? 1 : k == FLUX ? 1 : 2;
      T.dateobs = dateobs_of(r, day);
      const Arr *A = nullptr;
      if (na > 0 && (o.always_arr || r.chance(4, 5))) A = &ds.a[(size_t)r.range(0, na - 1)];
      if (A) T.arr = A->name;
      const Wav &w = ds.w[(size_t)r.range(0, nw - 1)];
      T.ins = w.name; T.nwave = (int)w.w.size();
      if (nc > 0 && r.chance(1, 2)) T.corr = ds.c[(size_t)r.range(0, nc - 1)].name;
      bool cflux = false;
      if (k == VIS && !o.v1) {
        int at = (int)r.range(0, 3);
        T.amptyp = at == 0 ? "" : at == 1 ? "absolute" : at == 2 ? "differential" : "correlated flux";
        cflux = at == 3;
        int pt = (int)r.range(0, 2);
        T.phityp = pt == 0 ? "" : pt == 1 ? "absolute" : "differential";
        T.amporder = r.chance(1, 2) ? -1 : (int)r.range(0, 5);
        T.phiorder = r.chance(1, 2) ? -1 : (int)r.range(0, 5);
        T.userefmap = T.nwave <= 40 && r.chance(1, 3);
        if (o.valid && (T.amptyp == "differential" || T.phityp == "differential")) T.userefmap = T.nwave <= 40;
        T.usecomplex = r.chance(1, 3);
        if (T.usecomplex) T.complexunit = r.chance(1, 2) ? "Jy" : rstr(r, 8);
        if (cflux) T.ampunit = r.chance(1, 2) ? "Jy" : rstr(r, 8);
      }
      if (k == FLUX) {
        if (r.chance(1, 2)) { T.fov = (double)r.range(0, 99999) / 100; T.fovtype = r.chance(1, 2) ? "FWHM" : "RADIUS"; } else T.fov = NAN;
        T.calstat = r.chance(1, 2) ? 'C' : 'U';
        T.fluxunit = r.chance(1, 2) ? "Jy" : rstr(r, 8);
      }
      int n = (int)P.pick(tk + ".n", 1, bulk == 5 ? (o.big ? 30 : 150) : bulk == 3 ? 2 : bulk == 4 ? 4 : o.big ? 24 : 4);
      for (int q = 0; q < n; q++) {
        Rng rr = P.rng(tk + ".r" + std::to_string(q));
        Rec R; R.tid = ds.t[(size_t)rr.range(0, nt - 1)].id;
        R.time = o.v1 ? (double)rr.range(0, 86400) : 0; R.mjd = (double)day + rr.unit() * 3; R.itime = rr.unit() * 100;
        int nq = k == VIS ? (T.usecomplex ? 8 : 4) : NQ[k];
        for (int m = 0; m < nq; m++) for (int x = 0; x < T.nwave; x++) {
          double v = dval(rr, o.lowprec, o.nans);
          if (m & 1) v = std::fabs(v);
          R.d[m].push_back(v);
        }
        for (int m = 0; m < 4; m++) R.ci[m] = T.corr.empty() ? 0 : (int)rr.range(1, 1000000);
        if (T.userefmap) for (int x = 0; x < T.nwave * T.nwave; x++) R.refmap.push_back((char)rr.range(0, 1));
        for (int m = 0; m < NU[k]; m++) R.u[m] = rr.unit() * 400 - 200;
        for (int m = 0; m < NSTA[k]; m++) R.sta[m] = A ? A->el[(size_t)rr.range(0, (int)A->el.size() - 1)].idx : (k == FLUX ? -1 : (int)rr.range(1, 30));
        int fm = (int)rr.range(0, 3);
        for (int x = 0; x < T.nwave; x++) R.flag.push_back(fm == 0 ? 0 : fm == 1 ? 1 : (char)rr.range(0, 1));
        T.rec.push_back(R);
      }
      ds.d[k].push_back(T);
    }
  }
  return ds;
}

// ---------------------------------------------------------------- canonical form
static void add(std::string &s, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
static void add(std::string &s, const char *fmt, ...) {
  char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); s += b;
}
static std::string num(double v) { char b[64]; if (std::isnan(v)) return "nan"; snprintf(b, sizeof b, "%a", v); return b; }
static std::string numf(float v) { return num((double)v); }

std::string dump_arr(const Arr &A) {
  std::string s;
  add(s, "ARRAY rev=%d name=<%s> frame=<%s> c=%s,%s,%s n=%zu\n", A.rev, A.name.c_str(), A.frame.c_str(), num(A.c[0]).c_str(), num(A.c[1]).c_str(), num(A.c[2]).c_str(), A.el.size());
  for (auto &e : A.el)
    add(s, " el tel=<%s> sta=<%s> idx=%d diam=%s xyz=%s,%s,%s fov=%s/<%s>\n", e.tel.c_str(), e.sta.c_str(), e.idx, numf(e.diam).c_str(), num(e.xyz[0]).c_str(), num(e.xyz[1]).c_str(), num(e.xyz[2]).c_str(), num(e.fov).c_str(), e.fovtype.c_str());
  return s;
}
std::string dump_wav(const Wav &w) {
  std::string s;
  add(s, "WAVELENGTH rev=%d name=<%s> n=%zu\n", w.rev, w.name.c_str(), w.w.size());
  for (size_t i = 0; i < w.w.size(); i++) s += " ch " + numf(w.w[i]) + " " + numf(w.b[i]) + "\n";
  return s;
}
std::string dump_corr(const Corr &c) {
  std::string s;
  add(s, "CORR rev=%d name=<%s> ndata=%d n=%zu\n", c.rev, c.name.c_str(), c.ndata, c.c.size());
  for (size_t i = 0; i < c.c.size(); i++) add(s, " %d %d %s\n", c.i[i], c.j[i], num(c.c[i]).c_str());
  return s;
}
std::string dump_pol(const Pol &p) {
  std::string s;
  add(s, "INSPOL rev=%d date=<%s> npol=%d arr=<%s> orient=<%s> model=<%s> nwave=%d n=%zu\n", p.rev, p.dateobs.c_str(), p.npol, p.arr.c_str(), p.orient.c_str(), p.model.c_str(), p.nwave, p.rec.size());
  for (auto &q : p.rec) {
    add(s, " rec tid=%d ins=<%s> mjd=%s..%s sta=%d\n", q.tid, q.ins.c_str(), num(q.mjd0).c_str(), num(q.mjd1).c_str(), q.sta);
    static const char *jn[4] = {"jxx", "jyy", "jxy", "jyx"};
    for (int m = 0; m < 4; m++) { s += std::string("  ") + jn[m]; for (auto &z : q.j[m]) s += " " + numf(z.real()) + "," + numf(z.imag()); s += "\n"; }
  }
  return s;
}
std::string dump_tab(const Tab &T) {
  static const char *qn[NKIND][8] = {{"visamp", "visamperr", "visphi", "visphierr", "rvis", "rviserr", "ivis", "iviserr"}, {"vis2data", "vis2err"}, {"t3amp", "t3amperr", "t3phi", "t3phierr"}, {"fluxdata", "fluxerr"}};
  std::string s;
  add(s, "%s rev=%d date=<%s> arr=<%s> ins=<%s> corr=<%s> nwave=%d n=%zu", kind_ext[T.kind] + 3, T.rev, T.dateobs.c_str(), T.arr.c_str(), T.ins.c_str(), T.corr.c_str(), T.nwave, T.rec.size());
  if (T.kind == VIS) add(s, " amptyp=<%s> phityp=<%s> orders=%d,%d refmap=%d complex=%d cunit=<%s> aunit=<%s>", T.amptyp.c_str(), T.phityp.c_str(), T.amporder, T.phiorder, T.userefmap, T.usecomplex, T.usecomplex ? T.complexunit.c_str() : "", T.ampunit.c_str());
  if (T.kind == FLUX) add(s, " fov=%s fovtype=<%s> calstat=%c unit=<%s>", T.fovtype.empty() ? "-" : num(T.fov).c_str(), T.fovtype.c_str(), T.calstat, T.fluxunit.c_str());
  s += "\n";
  for (auto &R : T.rec) {
    add(s, " rec tid=%d", R.tid);
    if (T.kind != FLUX) s += " time=" + num(R.time);
    s += " mjd=" + num(R.mjd) + " it=" + num(R.itime);
    for (int m = 0; m < NU[T.kind]; m++) s += " u" + num(R.u[m]);
    for (int m = 0; m < NSTA[T.kind]; m++) add(s, " sta%d", R.sta[m]);
    s += "\n";
    int nq = T.kind == VIS ? (T.usecomplex ? 8 : 4) : NQ[T.kind];
    for (int m = 0; m < nq; m++) { add(s, "  %s", qn[T.kind][m]); for (double v : R.d[m]) s += " " + num(v); s += "\n"; }
    if (!T.corr.empty()) {
      s += "  ci";
      int n = T.kind == VIS ? (T.usecomplex ? 4 : 2) : T.kind == T3 ? 2 : 1;
      for (int m = 0; m < n; m++) add(s, " %d", R.ci[m]);
      s += "\n";
    }
    if (T.kind == VIS && T.userefmap) { s += "  refmap "; for (char c : R.refmap) s += c ? '1' : '0'; s += "\n"; }
    s += "  flag "; for (char c : R.flag) s += c ? '1' : '0'; s += "\n";
  }
  return s;
}
std::string dump_targets(const DS &ds) {
  std::string s;
  add(s, "TARGET rev=%d cat=%d n=%zu\n", ds.trev, ds.usecat, ds.t.size());
  for (auto &t : ds.t)
    s += " t id=" + std::to_string(t.id) + " <" + t.name + "> " + num(t.ra) + " " + num(t.dec) + " " + numf(t.equinox) + " " + num(t.raerr) + " " + num(t.decerr) + " " + num(t.sysvel) + " <" + t.veltyp + "> <" + t.veldef + "> " + num(t.pmra) + " " + num(t.pmdec) + " " + num(t.pmraerr) + " " + num(t.pmdecerr) + " " + numf(t.par) + " " + numf(t.parerr) + " <" + t.spec + "> cat=<" + (ds.usecat ? t.cat : "") + ">\n";
  return s;
}
std::string dump(const DS &ds, const DumpOpt &o) {
  std::string s;
  if (o.header) for (int i = 0; i < H_N; i++) { if (i == H_DATE && !o.date) continue; s += std::string("H ") + hk_name[i] + "=<" + ds.h[i] + ">\n"; }
  s += dump_targets(ds);
  for (auto &x : ds.a) s += dump_arr(x);
  for (auto &x : ds.w) s += dump_wav(x);
  for (auto &x : ds.c) s += dump_corr(x);
  for (auto &x : ds.p) s += dump_pol(x);
  for (int k = 0; k < NKIND; k++) for (auto &x : ds.d[k]) s += dump_tab(x);
  return s;
}
std::string diff(const std::string &want, const std::string &got) {
  if (want == got) return "";
  size_t i = 0, line = 1, ls = 0, table = 0;
  while (i < want.size() && i < got.size() && want[i] == got[i]) { if (want[i] == '\n') { line++; ls = i + 1; if (ls < want.size() && want[ls] != ' ') table = ls; } i++; }
  auto ln = [](const std::string &s, size_t at) { if (at >= s.size()) return std::string("<end>"); size_t e = s.find('\n', at); return s.substr(at, std::min<size_t>(e == std::string::npos ? std::string::npos : e - at, 300)); };
  std::string t = ln(want, table);
  return "line " + std::to_string(line) + " in [" + t.substr(0, 90) + "]: want `" + ln(want, ls) + "' got `" + ln(got, ls) + "'";
}

static std::string rtrim(std::string s) { while (!s.empty() && s.back() == ' ') s.pop_back(); return s; }
DS as_written(const DS &in) {
  DS ds = in;
  for (auto &s : ds.h) s = rtrim(s);
  ds.h[H_CONTENT] = "OIFITS2";
  ds.trev = 2;
  for (auto &a : ds.a) a.rev = 2;
  for (auto &w : ds.w) w.rev = 2;
  for (auto &c : ds.c) c.rev = 1;
  for (auto &p : ds.p) p.rev = 1;
  for (int k = 0; k < NKIND; k++) for (auto &T : ds.d[k]) {
    T.rev = k == FLUX ? 1 : 2;
    if (k == VIS && T.amptyp != "correlated flux") T.ampunit = "";
    if (k == FLUX && T.fovtype.empty()) T.fov = NAN;
    for (auto &R : T.rec) { R.time = 0; if (k == FLUX && T.arr.empty()) R.sta[0] = -1; }
  }
  return ds;
}
void derive_header(DS &ds) {
  ds.h[H_TELESCOP] = ds.a.empty() ? "UNKNOWN" : ds.a.size() == 1 ? ds.a[0].name : "MULTIPLE";
  ds.h[H_INSTRUME] = ds.w.size() == 1 ? ds.w[0].name : "MULTIPLE";
  ds.h[H_OBJECT] = ds.t.size() == 1 ? ds.t[0].name : "MULTIPLE";
  double m = 100000;
  for (auto &d : ds.d) for (auto &T : d) for (auto &R : T.rec) if (R.mjd < m) m = R.mjd;
  ds.h[H_DATEOBS] = mjd_datestr((int64_t)std::floor(m));
  ds.h[H_ORIGIN] = ds.h[H_OBSERVER] = ds.h[H_INSMODE] = "UNKNOWN";
}
DS as_read(const DS &in) {
  DS ds = in;
  for (auto &s : ds.h) s = rtrim(s);
  for (auto &t : ds.t) { if (t.name.size() > 32) t.name.resize(32); if (t.spec.size() > 32) t.spec.resize(32); }
  if (ds.h[H_CONTENT] != "OIFITS2") derive_header(ds);
  // what the first revisions of the tables do not have is not read
  if (ds.trev < 2) ds.usecat = false;
  for (int k : {VIS, VIS2, T3}) for (auto &T : ds.d[k]) if (T.rev < 2) {
    T.corr = "";
    if (k == VIS) { T.amptyp = T.phityp = T.ampunit = T.complexunit = ""; T.amporder = T.phiorder = -1; T.userefmap = T.usecomplex = false; for (auto &r : T.rec) { r.refmap.clear(); for (int m = 4; m < 8; m++) r.d[m].clear(); } }
  }
  return ds;
}

// ---------------------------------------------------------------- repository structs
template <class T> static T *mal(size_t n) { return (T *)calloc(n ? n : 1, sizeof(T)); }
template <size_t N> static void cpy(char (&d)[N], const std::string &s) { snprintf(d, N, "%s", s.c_str()); }
template <class T> static T *dupv(const std::vector<T> &v) { T *p = mal<T>(v.size()); for (size_t i = 0; i < v.size(); i++) p[i] = v[i]; return p; }

bool client_alloc = false;   // build tables with the library's alloc_oi_* functions, as a client would
template <class T> static T *fresh() { T *p = mal<T>(1); if (client_alloc) memset((void *)p, 0x2D, sizeof *p); return p; }
template <class T> static void put(T *&p, const std::vector<T> &v) { if (!client_alloc) p = dupv(v); else for (size_t i = 0; i < v.size(); i++) p[i] = v[i]; }
void to_oi(const DS &ds, oi_fits *oi) {
  memset(oi, 0, sizeof *oi);
  oi->arrayHash = g_hash_table_new(g_str_hash, g_str_equal);
  oi->wavelengthHash = g_hash_table_new(g_str_hash, g_str_equal);
  oi->corrHash = g_hash_table_new(g_str_hash, g_str_equal);
  oi_header &h = oi->header;
  cpy(h.origin, ds.h[H_ORIGIN]); cpy(h.date, ds.h[H_DATE]); cpy(h.date_obs, ds.h[H_DATEOBS]); cpy(h.content, ds.h[H_CONTENT]);
  cpy(h.telescop, ds.h[H_TELESCOP]); cpy(h.instrume, ds.h[H_INSTRUME]); cpy(h.observer, ds.h[H_OBSERVER]); cpy(h.insmode, ds.h[H_INSMODE]);
  cpy(h.object, ds.h[H_OBJECT]); cpy(h.referenc, ds.h[H_REFERENC]); cpy(h.author, ds.h[H_AUTHOR]); cpy(h.prog_id, ds.h[H_PROGID]);
  cpy(h.procsoft, ds.h[H_PROCSOFT]); cpy(h.obstech, ds.h[H_OBSTECH]);
  oi->targets.revision = ds.trev; oi->targets.ntarget = (int)ds.t.size(); oi->targets.usecategory = ds.usecat;
  if (client_alloc) { memset(&oi->targets, 0x2D, sizeof oi->targets); alloc_oi_target(&oi->targets, (int)ds.t.size()); oi->targets.revision = ds.trev; oi->targets.usecategory = ds.usecat; }
  else oi->targets.targ = mal<target>(ds.t.size());
  for (size_t i = 0; i < ds.t.size(); i++) {
    const Targ &t = ds.t[i]; target &x = oi->targets.targ[i];
    x.target_id = t.id; cpy(x.target, t.name); x.raep0 = t.ra; x.decep0 = t.dec; x.equinox = t.equinox; x.ra_err = t.raerr; x.dec_err = t.decerr; x.sysvel = t.sysvel;
    cpy(x.veltyp, t.veltyp); cpy(x.veldef, t.veldef); x.pmra = t.pmra; x.pmdec = t.pmdec; x.pmra_err = t.pmraerr; x.pmdec_err = t.pmdecerr;
    x.parallax = t.par; x.para_err = t.parerr; cpy(x.spectyp, t.spec); cpy(x.category, t.cat);
  }
  for (auto &A : ds.a) {
    oi_array *p = fresh<oi_array>();
    p->revision = A.rev; cpy(p->arrname, A.name); cpy(p->frame, A.frame); p->arrayx = A.c[0]; p->arrayy = A.c[1]; p->arrayz = A.c[2];
    if (client_alloc) alloc_oi_array(p, (int)A.el.size()); else { p->nelement = (int)A.el.size(); p->elem = mal<element>(A.el.size()); }
    for (size_t i = 0; i < A.el.size(); i++) {
      const Elem &e = A.el[i]; element &x = p->elem[i];
      cpy(x.tel_name, e.tel); cpy(x.sta_name, e.sta); x.sta_index = e.idx; x.diameter = e.diam; memcpy(x.staxyz, e.xyz, sizeof x.staxyz); x.fov = e.fov; cpy(x.fovtype, e.fovtype);
    }
    oi->arrayList = g_list_append(oi->arrayList, p); oi->numArray++;
    g_hash_table_insert(oi->arrayHash, p->arrname, p);
  }
  for (auto &w : ds.w) {
    oi_wavelength *p = fresh<oi_wavelength>();
    p->revision = w.rev; cpy(p->insname, w.name); if (client_alloc) alloc_oi_wavelength(p, (int)w.w.size()); else p->nwave = (int)w.w.size(); put(p->eff_wave, w.w); put(p->eff_band, w.b);
    oi->wavelengthList = g_list_append(oi->wavelengthList, p); oi->numWavelength++;
    g_hash_table_insert(oi->wavelengthHash, p->insname, p);
  }
  for (auto &c : ds.c) {
    oi_corr *p = fresh<oi_corr>();
    p->revision = c.rev; cpy(p->corrname, c.name); p->ndata = c.ndata; if (client_alloc) alloc_oi_corr(p, (int)c.c.size()); else p->ncorr = (int)c.c.size(); put(p->iindx, c.i); put(p->jindx, c.j); put(p->corr, c.c);
    oi->corrList = g_list_append(oi->corrList, p); oi->numCorr++;
    g_hash_table_insert(oi->corrHash, p->corrname, p);
  }
  for (auto &q : ds.p) {
    oi_inspol *p = fresh<oi_inspol>();
    p->revision = q.rev; cpy(p->date_obs, q.dateobs); p->npol = q.npol; cpy(p->arrname, q.arr); cpy(p->orient, q.orient); cpy(p->model, q.model);
    if (client_alloc) alloc_oi_inspol(p, (long)q.rec.size(), q.nwave); else { p->numrec = (long)q.rec.size(); p->nwave = q.nwave; p->record = mal<oi_inspol_record>(q.rec.size()); }
    for (size_t i = 0; i < q.rec.size(); i++) {
      const PolRec &r = q.rec[i]; oi_inspol_record &x = p->record[i];
      x.target_id = r.tid; cpy(x.insname, r.ins); x.mjd_obs = r.mjd0; x.mjd_end = r.mjd1; x.sta_index = r.sta;
      float _Complex **j[4] = {&x.jxx, &x.jyy, &x.jxy, &x.jyx};
      for (int m = 0; m < 4; m++) { if (!client_alloc) *j[m] = (float _Complex *)mal<cf>((size_t)q.nwave); memcpy((void *)*j[m], r.j[m].data(), r.j[m].size() * sizeof(cf)); }
    }
    oi->inspolList = g_list_append(oi->inspolList, p); oi->numInspol++;
  }
  for (auto &T : ds.d[VIS]) {
    oi_vis *p = fresh<oi_vis>();
    p->revision = T.rev; cpy(p->date_obs, T.dateobs); cpy(p->arrname, T.arr); cpy(p->insname, T.ins); cpy(p->corrname, T.corr);
    cpy(p->amptyp, T.amptyp); cpy(p->phityp, T.phityp); p->amporder = T.amporder; p->phiorder = T.phiorder; 
    cpy(p->complexunit, T.complexunit); cpy(p->ampunit, T.ampunit); if (client_alloc) alloc_oi_vis(p, (long)T.rec.size(), T.nwave); else { p->usevisrefmap = p->usecomplex = FALSE; p->numrec = (long)T.rec.size(); p->nwave = T.nwave; p->record = mal<oi_vis_record>(T.rec.size()); }
    if (T.userefmap) p->usevisrefmap = TRUE; if (T.usecomplex) p->usecomplex = TRUE;
    for (size_t i = 0; i < T.rec.size(); i++) {
      const Rec &r = T.rec[i]; oi_vis_record &x = p->record[i];
      x.target_id = r.tid; x.time = r.time; x.mjd = r.mjd; x.int_time = r.itime;
      put(x.visamp, r.d[0]); put(x.visamperr, r.d[1]); put(x.visphi, r.d[2]); put(x.visphierr, r.d[3]);
      if (T.usecomplex) { x.rvis = dupv(r.d[4]); x.rviserr = dupv(r.d[5]); x.ivis = dupv(r.d[6]); x.iviserr = dupv(r.d[7]); }
      x.corrindx_visamp = r.ci[0]; x.corrindx_visphi = r.ci[1]; x.corrindx_rvis = r.ci[2]; x.corrindx_ivis = r.ci[3];
      if (T.userefmap) x.visrefmap = dupv(r.refmap);
      x.ucoord = r.u[0]; x.vcoord = r.u[1]; x.sta_index[0] = r.sta[0]; x.sta_index[1] = r.sta[1]; put(x.flag, r.flag);
    }
    oi->visList = g_list_append(oi->visList, p); oi->numVis++;
  }
  for (auto &T : ds.d[VIS2]) {
    oi_vis2 *p = fresh<oi_vis2>();
    p->revision = T.rev; cpy(p->date_obs, T.dateobs); cpy(p->arrname, T.arr); cpy(p->insname, T.ins); cpy(p->corrname, T.corr);
    if (client_alloc) alloc_oi_vis2(p, (long)T.rec.size(), T.nwave); else { p->numrec = (long)T.rec.size(); p->nwave = T.nwave; p->record = mal<oi_vis2_record>(T.rec.size()); }
    for (size_t i = 0; i < T.rec.size(); i++) {
      const Rec &r = T.rec[i]; oi_vis2_record &x = p->record[i];
      x.target_id = r.tid; x.time = r.time; x.mjd = r.mjd; x.int_time = r.itime; put(x.vis2data, r.d[0]); put(x.vis2err, r.d[1]); x.corrindx_vis2data = r.ci[0];
      x.ucoord = r.u[0]; x.vcoord = r.u[1]; x.sta_index[0] = r.sta[0]; x.sta_index[1] = r.sta[1]; put(x.flag, r.flag);
    }
    oi->vis2List = g_list_append(oi->vis2List, p); oi->numVis2++;
  }
  for (auto &T : ds.d[T3]) {
    oi_t3 *p = fresh<oi_t3>();
    p->revision = T.rev; cpy(p->date_obs, T.dateobs); cpy(p->arrname, T.arr); cpy(p->insname, T.ins); cpy(p->corrname, T.corr);
    if (client_alloc) alloc_oi_t3(p, (long)T.rec.size(), T.nwave); else { p->numrec = (long)T.rec.size(); p->nwave = T.nwave; p->record = mal<oi_t3_record>(T.rec.size()); }
    for (size_t i = 0; i < T.rec.size(); i++) {
      const Rec &r = T.rec[i]; oi_t3_record &x = p->record[i];
      x.target_id = r.tid; x.time = r.time; x.mjd = r.mjd; x.int_time = r.itime;
      put(x.t3amp, r.d[0]); put(x.t3amperr, r.d[1]); put(x.t3phi, r.d[2]); put(x.t3phierr, r.d[3]); x.corrindx_t3amp = r.ci[0]; x.corrindx_t3phi = r.ci[1];
      x.u1coord = r.u[0]; x.v1coord = r.u[1]; x.u2coord = r.u[2]; x.v2coord = r.u[3];
      for (int m = 0; m < 3; m++) x.sta_index[m] = r.sta[m];
      put(x.flag, r.flag);
    }
    oi->t3List = g_list_append(oi->t3List, p); oi->numT3++;
  }
  for (auto &T : ds.d[FLUX]) {
    oi_flux *p = fresh<oi_flux>();
    p->revision = T.rev; cpy(p->date_obs, T.dateobs); cpy(p->arrname, T.arr); cpy(p->insname, T.ins); cpy(p->corrname, T.corr);
    p->fov = T.fov; cpy(p->fovtype, T.fovtype); p->calstat = T.calstat; cpy(p->fluxunit, T.fluxunit);
    if (client_alloc) alloc_oi_flux(p, (long)T.rec.size(), T.nwave); else { p->numrec = (long)T.rec.size(); p->nwave = T.nwave; p->record = mal<oi_flux_record>(T.rec.size()); }
    for (size_t i = 0; i < T.rec.size(); i++) {
      const Rec &r = T.rec[i]; oi_flux_record &x = p->record[i];
      x.target_id = r.tid; x.mjd = r.mjd; x.int_time = r.itime; put(x.fluxdata, r.d[0]); put(x.fluxerr, r.d[1]); x.corrindx_fluxdata = r.ci[0];
      x.sta_index = r.sta[0]; put(x.flag, r.flag);
    }
    oi->fluxList = g_list_append(oi->fluxList, p); oi->numFlux++;
  }
}

template <size_t N> static std::string S(const char (&c)[N]) { return rtrim(std::string(c, strnlen(c, N))); }
template <class T> static std::vector<T> V(const T *p, long n) { return p && n > 0 ? std::vector<T>(p, p + n) : std::vector<T>(); }
static std::vector<char> B(const BOOL *p, long n) { std::vector<char> v = V<char>(p, n); for (char &c : v) c = c ? 1 : 0; return v; }
Arr from_arr(const oi_array *p) {
  Arr A; A.rev = p->revision; A.name = S(p->arrname); A.frame = S(p->frame); A.c[0] = p->arrayx; A.c[1] = p->arrayy; A.c[2] = p->arrayz;
  for (int i = 0; i < p->nelement; i++) {
    const element &x = p->elem[i]; Elem e;
    e.tel = S(x.tel_name); e.sta = S(x.sta_name); e.idx = x.sta_index; e.diam = x.diameter; memcpy(e.xyz, x.staxyz, sizeof e.xyz); e.fov = x.fov; e.fovtype = S(x.fovtype);
    A.el.push_back(e);
  }
  return A;
}
Wav from_wav(const oi_wavelength *p) { Wav w; w.rev = p->revision; w.name = S(p->insname); w.w = V(p->eff_wave, p->nwave); w.b = V(p->eff_band, p->nwave); return w; }
Corr from_corr(const oi_corr *p) { Corr c; c.rev = p->revision; c.name = S(p->corrname); c.ndata = p->ndata; c.i = V(p->iindx, p->ncorr); c.j = V(p->jindx, p->ncorr); c.c = V(p->corr, p->ncorr); return c; }
Pol from_pol(const oi_inspol *p) {
  Pol q; q.rev = p->revision; q.dateobs = S(p->date_obs); q.npol = p->npol; q.arr = S(p->arrname); q.orient = S(p->orient); q.model = S(p->model); q.nwave = p->nwave;
  for (long i = 0; i < p->numrec; i++) {
    const oi_inspol_record &x = p->record[i]; PolRec r;
    r.tid = x.target_id; r.ins = S(x.insname); r.mjd0 = x.mjd_obs; r.mjd1 = x.mjd_end; r.sta = x.sta_index;
    const float _Complex *j[4] = {x.jxx, x.jyy, x.jxy, x.jyx};
    for (int m = 0; m < 4; m++) r.j[m] = V((const cf *)j[m], p->nwave);
    q.rec.push_back(r);
  }
  return q;
}
Tab from_vis(const oi_vis *p) {
  Tab T; T.kind = VIS; T.rev = p->revision; T.dateobs = S(p->date_obs); T.arr = S(p->arrname); T.ins = S(p->insname); T.corr = S(p->corrname);
  T.amptyp = S(p->amptyp); T.phityp = S(p->phityp); T.amporder = p->amporder; T.phiorder = p->phiorder; T.userefmap = p->usevisrefmap; T.usecomplex = p->usecomplex;
  if (T.usecomplex) T.complexunit = S(p->complexunit);
  T.ampunit = S(p->ampunit); T.nwave = p->nwave;
  for (long i = 0; i < p->numrec; i++) {
    const oi_vis_record &x = p->record[i]; Rec r; long n = p->nwave;
    r.tid = x.target_id; r.time = x.time; r.mjd = x.mjd; r.itime = x.int_time;
    r.d[0] = V(x.visamp, n); r.d[1] = V(x.visamperr, n); r.d[2] = V(x.visphi, n); r.d[3] = V(x.visphierr, n);
    if (T.usecomplex) { r.d[4] = V(x.rvis, n); r.d[5] = V(x.rviserr, n); r.d[6] = V(x.ivis, n); r.d[7] = V(x.iviserr, n); }
    if (!T.corr.empty()) { r.ci[0] = x.corrindx_visamp; r.ci[1] = x.corrindx_visphi; if (T.usecomplex) { r.ci[2] = x.corrindx_rvis; r.ci[3] = x.corrindx_ivis; } }
    if (T.userefmap) r.refmap = B(x.visrefmap, n * n);
    r.u[0] = x.ucoord; r.u[1] = x.vcoord; r.sta[0] = x.sta_index[0]; r.sta[1] = x.sta_index[1]; r.flag = B(x.flag, n);
    T.rec.push_back(r);
  }
  return T;
}
Tab from_vis2(const oi_vis2 *p) {
  Tab T; T.kind = VIS2; T.rev = p->revision; T.dateobs = S(p->date_obs); T.arr = S(p->arrname); T.ins = S(p->insname); T.corr = S(p->corrname); T.nwave = p->nwave;
  for (long i = 0; i < p->numrec; i++) {
    const oi_vis2_record &x = p->record[i]; Rec r; long n = p->nwave;
    r.tid = x.target_id; r.time = x.time; r.mjd = x.mjd; r.itime = x.int_time; r.d[0] = V(x.vis2data, n); r.d[1] = V(x.vis2err, n);
    if (!T.corr.empty()) r.ci[0] = x.corrindx_vis2data;
    r.u[0] = x.ucoord; r.u[1] = x.vcoord; r.sta[0] = x.sta_index[0]; r.sta[1] = x.sta_index[1]; r.flag = B(x.flag, n);
    T.rec.push_back(r);
  }
  return T;
}
Tab from_t3(const oi_t3 *p) {
  Tab T; T.kind = T3; T.rev = p->revision; T.dateobs = S(p->date_obs); T.arr = S(p->arrname); T.ins = S(p->insname); T.corr = S(p->corrname); T.nwave = p->nwave;
  for (long i = 0; i < p->numrec; i++) {
    const oi_t3_record &x = p->record[i]; Rec r; long n = p->nwave;
    r.tid = x.target_id; r.time = x.time; r.mjd = x.mjd; r.itime = x.int_time;
    r.d[0] = V(x.t3amp, n); r.d[1] = V(x.t3amperr, n); r.d[2] = V(x.t3phi, n); r.d[3] = V(x.t3phierr, n);
    if (!T.corr.empty()) { r.ci[0] = x.corrindx_t3amp; r.ci[1] = x.corrindx_t3phi; }
    r.u[0] = x.u1coord; r.u[1] = x.v1coord; r.u[2] = x.u2coord; r.u[3] = x.v2coord;
    for (int m = 0; m < 3; m++) r.sta[m] = x.sta_index[m];
    r.flag = B(x.flag, n);
    T.rec.push_back(r);
  }
  return T;
}
Tab from_flux(const oi_flux *p) {
  Tab T; T.kind = FLUX; T.rev = p->revision; T.dateobs = S(p->date_obs); T.arr = S(p->arrname); T.ins = S(p->insname); T.corr = S(p->corrname); T.nwave = p->nwave;
  T.fov = p->fov; T.fovtype = S(p->fovtype); T.calstat = p->calstat; T.fluxunit = S(p->fluxunit);
  for (long i = 0; i < p->numrec; i++) {
    const oi_flux_record &x = p->record[i]; Rec r; long n = p->nwave;
    r.tid = x.target_id; r.mjd = x.mjd; r.itime = x.int_time; r.d[0] = V(x.fluxdata, n); r.d[1] = V(x.fluxerr, n);
    if (!T.corr.empty()) r.ci[0] = x.corrindx_fluxdata;
    r.sta[0] = x.sta_index; r.flag = B(x.flag, n);
    T.rec.push_back(r);
  }
  return T;
}
DS from_oi(const oi_fits *oi) {
  DS ds; const oi_header &h = oi->header;
  ds.h[H_ORIGIN] = S(h.origin); ds.h[H_DATE] = S(h.date); ds.h[H_DATEOBS] = S(h.date_obs); ds.h[H_CONTENT] = S(h.content); ds.h[H_TELESCOP] = S(h.telescop);
  ds.h[H_INSTRUME] = S(h.instrume); ds.h[H_OBSERVER] = S(h.observer); ds.h[H_INSMODE] = S(h.insmode); ds.h[H_OBJECT] = S(h.object); ds.h[H_REFERENC] = S(h.referenc);
  ds.h[H_AUTHOR] = S(h.author); ds.h[H_PROGID] = S(h.prog_id); ds.h[H_PROCSOFT] = S(h.procsoft); ds.h[H_OBSTECH] = S(h.obstech);
  ds.trev = oi->targets.revision; ds.usecat = oi->targets.usecategory;
  for (int i = 0; i < oi->targets.ntarget; i++) {
    const target &x = oi->targets.targ[i]; Targ t;
    t.id = x.target_id; t.name = S(x.target); t.ra = x.raep0; t.dec = x.decep0; t.equinox = x.equinox; t.raerr = x.ra_err; t.decerr = x.dec_err; t.sysvel = x.sysvel;
    t.veltyp = S(x.veltyp); t.veldef = S(x.veldef); t.pmra = x.pmra; t.pmdec = x.pmdec; t.pmraerr = x.pmra_err; t.pmdecerr = x.pmdec_err; t.par = x.parallax; t.parerr = x.para_err;
    t.spec = S(x.spectyp); if (ds.usecat) t.cat = S(x.category);
    ds.t.push_back(t);
  }
  for (GList *l = oi->arrayList; l; l = l->next) ds.a.push_back(from_arr((oi_array *)l->data));
  for (GList *l = oi->wavelengthList; l; l = l->next) ds.w.push_back(from_wav((oi_wavelength *)l->data));
  for (GList *l = oi->corrList; l; l = l->next) ds.c.push_back(from_corr((oi_corr *)l->data));
  for (GList *l = oi->inspolList; l; l = l->next) ds.p.push_back(from_pol((oi_inspol *)l->data));
  for (GList *l = oi->visList; l; l = l->next) ds.d[VIS].push_back(from_vis((oi_vis *)l->data));
  for (GList *l = oi->vis2List; l; l = l->next) ds.d[VIS2].push_back(from_vis2((oi_vis2 *)l->data));
  for (GList *l = oi->t3List; l; l = l->next) ds.d[T3].push_back(from_t3((oi_t3 *)l->data));
  for (GList *l = oi->fluxList; l; l = l->next) ds.d[FLUX].push_back(from_flux((oi_flux *)l->data));
  return ds;
}
