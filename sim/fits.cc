// Independent FITS encoder / decoder (no cfitsio, no repository code).
#include "model.h"
#include <algorithm>
#include <cstring>

typedef std::vector<uint8_t> Bytes;

// ---------------------------------------------------------------- checksum convention
static uint32_t ones_sum(const uint8_t *p, size_t n, uint32_t start = 0) {
  uint64_t s = start;
  for (size_t i = 0; i + 3 < n; i += 4) s += ((uint32_t)p[i] << 24) | ((uint32_t)p[i + 1] << 16) | ((uint32_t)p[i + 2] << 8) | p[i + 3];
  while (s >> 32) s = (s & 0xffffffffu) + (s >> 32);
  return (uint32_t)s;
}
static std::string sum_encode(uint32_t value) {
  static const int exclude[13] = {0x3a, 0x3b, 0x3c, 0x3d, 0x3e, 0x3f, 0x40, 0x5b, 0x5c, 0x5d, 0x5e, 0x5f, 0x60};
  value = ~value;
  char asc[16];
  for (int i = 0; i < 4; i++) {
    int byte = (int)((value >> (24 - 8 * i)) & 0xff);
    int q = byte / 4 + 0x30, rem = byte % 4;
    int ch[4] = {q + rem, q, q, q};
    for (bool check = true; check;) {
      check = false;
      for (int e : exclude) for (int j = 0; j < 4; j += 2)
        if (ch[j] == e || ch[j + 1] == e) { ch[j]++; ch[j + 1]--; check = true; }
    }
    for (int j = 0; j < 4; j++) asc[4 * j + i] = (char)ch[j];
  }
  std::string s(16, ' ');
  for (int i = 0; i < 16; i++) s[(i + 1) % 16] = asc[i];
  return s;
}

// ---------------------------------------------------------------- encoder
static std::string pad80(std::string s) { s.resize(80, ' '); return s; }
static std::string card_raw(const std::string &key, const std::string &val, const std::string &com) {
  std::string k = key; k.resize(8, ' ');
  std::string s = k + "= " + val;
  if (!com.empty() && s.size() + 3 + com.size() <= 80) s += " / " + com;
  return pad80(s);
}
static std::string card_s(const std::string &key, const std::string &v, const std::string &com = "") {
  std::string q;
  for (char c : v) { q += c; if (c == '\'') q += '\''; }
  while (q.size() < 8) q += ' ';
  std::string val = "'" + q + "'";
  while (val.size() < 20) val += ' ';
  return card_raw(key, val, com);
}
static std::string card_i(const std::string &key, long v, const std::string &com = "") { char b[32]; snprintf(b, sizeof b, "%20ld", v); return card_raw(key, b, com); }
static std::string card_l(const std::string &key, bool v, const std::string &com = "") { return card_raw(key, v ? "                   T" : "                   F", com); }
static std::string card_d(const std::string &key, double v, const std::string &com = "") {
  char b[64]; snprintf(b, sizeof b, "%.15G", v);
  if (!strchr(b, '.') && !strchr(b, 'E')) strcat(b, ".");
  std::string s = b; while (s.size() < 20) s = " " + s;
  return card_raw(key, s, com);
}
static void put(Bytes &o, uint64_t v, int n) { for (int i = n - 1; i >= 0; i--) o.push_back((uint8_t)(v >> (8 * i))); }
static void putd(Bytes &o, double v) { uint64_t u; memcpy(&u, &v, 8); put(o, u, 8); }
static void putf(Bytes &o, float v) { uint32_t u; memcpy(&u, &v, 4); put(o, u, 4); }

static std::string rt(std::string s);
struct Hdu { Bytes head, data; bool primary = false; };
static Bytes finish_hdu(std::vector<std::string> cards, Bytes data, char fill, bool sums) {
  while (data.size() % 2880) data.push_back((uint8_t)fill);
  size_t ci = 0;
  if (sums) {
    char b[32]; snprintf(b, sizeof b, "%u", ones_sum(data.data(), data.size()));
    cards.push_back(card_s("DATASUM", b, "data unit checksum"));
    ci = cards.size();
    cards.push_back(card_s("CHECKSUM", "0000000000000000", "HDU checksum"));
  }
  cards.push_back(pad80("END"));
  auto build = [&]() { Bytes h; for (auto &c : cards) h.insert(h.end(), c.begin(), c.end()); while (h.size() % 2880) h.push_back(' '); return h; };
  Bytes h = build();
  if (sums) {
    uint32_t s = ones_sum(h.data(), h.size(), ones_sum(data.data(), data.size()));
    std::string e = sum_encode(s);
    memcpy(&h[ci * 80 + 11], e.data(), 16);
  }
  h.insert(h.end(), data.begin(), data.end());
  return h;
}
struct Col { std::string name; char type; int repeat; std::string unit; std::vector<Bytes> rows; std::string dim; };
struct TB {
  std::string extname; std::vector<std::string> kw; std::vector<Col> cols; size_t nrow = 0;
  Rng r{0}; bool types = false; int num = 0;
  Col &col(const std::string &n, char t, int rep, const std::string &unit = "") { cols.push_back({n, t, rep, unit, {}, ""}); return cols.back(); }
};
static void cell_int(Col &c, const int *v, int n) {
  Bytes b;
  for (int i = 0; i < n; i++) put(b, (uint64_t)(int64_t)v[i], c.type == 'I' ? 2 : c.type == 'J' ? 4 : 8);
  c.rows.push_back(b);
}
static void cell_real(Col &c, const double *v, int n) { Bytes b; for (int i = 0; i < n; i++) { if (c.type == 'E') putf(b, (float)v[i]); else putd(b, v[i]); } c.rows.push_back(b); }
static void cell_str(Col &c, const std::string &s) { Bytes b(s.begin(), s.end()); b.resize((size_t)c.repeat, ' '); c.rows.push_back(b); }
static void cell_log(Col &c, const std::vector<char> &v) { Bytes b; for (char x : v) b.push_back(x ? 'T' : 'F'); c.rows.push_back(b); }
static void cell_cplx(Col &c, const std::vector<cf> &v) { Bytes b; for (auto &z : v) { if (c.type == 'M') { putd(b, z.real()); putd(b, z.imag()); } else { putf(b, z.real()); putf(b, z.imag()); } } c.rows.push_back(b); }
static char ity(TB &t, char base) { if (!t.types || !t.r.chance(1, 3)) return base; return base == 'I' ? (t.r.chance(1, 2) ? 'J' : 'K') : 'K'; }
static bool fexact(const double *v, size_t n) { for (size_t i = 0; i < n; i++) if (!std::isnan(v[i]) && (double)(float)v[i] != v[i]) return false; return true; }
static int width(const std::vector<std::string> &v, int maxw, TB &t) {
  size_t m = 1; for (auto &s : v) m = std::max(m, s.size());
  if (t.types && t.r.chance(1, 2)) return (int)m;
  return std::max(maxw, (int)m);
}

// columns and keywords no reader can do without
static bool needed_col(const std::string &x, const std::string &c) {
  return c != "NS_EXTRA" && c != "CATEGORY" && c != "RVIS" && c != "VISREFMAP" && !(x == "OI_FLUX" && c == "STA_INDEX");
}
static bool make_bad(TB &t, int kind, Rng r) {
  std::vector<size_t> c;
  auto nwave_col = [&](const std::string &n) { return n == "VISAMP" || n == "VIS2DATA" || n == "T3AMP" || n == "FLUXDATA" || n == "JXX"; };
  auto size = [](char y) { return y == 'I' ? 2 : y == 'J' || y == 'E' ? 4 : y == 'A' || y == 'L' ? 1 : y == 'M' ? 16 : 8; };
  switch (kind) {
    case BAD_COLUMN_NAME:
      for (size_t i = 0; i < t.cols.size(); i++) if (needed_col(t.extname, t.cols[i].name)) c.push_back(i);
      if (c.empty()) return false;
      t.cols[c[(size_t)r.range(0, (int64_t)c.size() - 1)]].name[0] = 'Q';
      return true;
    case BAD_KEYWORD_GONE: {
      for (size_t i = 0; i < t.kw.size(); i++) for (const char *k : {"OI_REVN ", "INSNAME ", "DATE-OBS", "CORRNAME", "NDATA   ", "NPOL    ", "ORIENT  ", "MODEL   ", "CALSTAT "}) if (!t.kw[i].compare(0, 8, k) && (strcmp(k, "CORRNAME") || t.extname == "OI_CORR")) c.push_back(i);
      if (t.extname == "OI_INSPOL" || t.extname == "OI_ARRAY") for (size_t i = 0; i < t.kw.size(); i++) if (!t.kw[i].compare(0, 8, "ARRNAME ")) c.push_back(i);
      if (c.empty()) return false;
      t.kw.erase(t.kw.begin() + (long)c[(size_t)r.range(0, (int64_t)c.size() - 1)]);
      return true; }
    case BAD_WIDE_STRING: {
      for (size_t i = 0; i < t.cols.size(); i++) if (t.cols[i].type == 'A' && t.cols[i].name != "TARGET" && t.cols[i].name != "SPECTYP" && t.cols[i].name != "CATEGORY") c.push_back(i);
      if (c.empty()) return false;
      Col &q = t.cols[c[(size_t)r.range(0, (int64_t)c.size() - 1)]];
      int std_w = q.name == "INSNAME" ? 70 : q.name == "FOVTYPE" ? 6 : q.name == "VELTYP" || q.name == "VELDEF" ? 8 : 16;
      q.repeat = std_w + (r.chance(1, 2) ? 1 : (int)r.range(2, 200));
      for (auto &b : q.rows) b.assign((size_t)q.repeat, (uint8_t)('A' + r.range(0, 25)));
      return true; }
    case BAD_SHORT_VECTOR: case BAD_LONG_VECTOR: {
      for (size_t i = 0; i < t.cols.size(); i++) if (t.cols[i].type != 'A' && t.cols[i].name != "NS_EXTRA" && (kind == BAD_LONG_VECTOR || (t.cols[i].repeat > 1 && !nwave_col(t.cols[i].name)))) c.push_back(i);
      if (c.empty()) return false;
      Col &q = t.cols[c[(size_t)r.range(0, (int64_t)c.size() - 1)]];
      q.repeat = kind == BAD_SHORT_VECTOR ? (int)r.range(1, q.repeat - 1) : q.repeat + (int)(r.chance(1, 2) ? 1 : r.range(2, 40));
      q.dim = "";
      for (auto &b : q.rows) b.resize((size_t)(q.repeat * size(q.type)), q.type == 'L' ? 'T' : 1);
      return true; }
    case BAD_TEXT_FOR_NUMBER: {
      for (size_t i = 0; i < t.cols.size(); i++) if (strchr("IJKED", t.cols[i].type) && needed_col(t.extname, t.cols[i].name)) c.push_back(i);
      if (c.empty()) return false;
      Col &q = t.cols[c[(size_t)r.range(0, (int64_t)c.size() - 1)]];
      if (nwave_col(q.name)) return false;
      q.repeat *= size(q.type); q.type = 'A';
      for (auto &b : q.rows) b.assign((size_t)q.repeat, (uint8_t)('g' + r.range(0, 9)));
      return true; }
    case BAD_TYPE: {
      if (t.cols.empty()) return false;
      Col &q = t.cols[(size_t)r.range(0, (int64_t)t.cols.size() - 1)];
      int bytes = q.repeat * size(q.type);
      static const char ty[] = "ALIJKEDCM"; char y = ty[r.range(0, 8)];
      q.repeat = bytes / size(y); if (q.repeat == 0) q.repeat = 1;
      q.type = y; q.dim = "";
      for (auto &b : q.rows) b.resize((size_t)(q.repeat * size(y)), 0);
      return true; }
    case BAD_KEYWORD_TYPE: {
      if (t.kw.empty()) return false;
      std::string &k = t.kw[(size_t)r.range(0, (int64_t)t.kw.size() - 1)];
      std::string key = rt(k.substr(0, 8));
      switch (r.range(0, 4)) {
        case 0: k = card_l(key, true); break;
        case 1: k = card_d(key, 1.5e10); break;
        case 2: k = card_s(key, std::string(68, 'L')); break;
        case 3: k = card_i(key, -7); break;
        default: k = card_raw(key, "", ""); break;      // no value
      }
      return true; }
    default: return false;
  }
}

static Bytes build_table(TB &t, const EncOpt &o) {
  if (o.bad_table == t.num) o.bad_done = make_bad(t, o.bad_kind, Rng(mix64(o.bad_sel)));
  if (o.extra_cols && t.r.chance(1, 2)) {
    Col &c = t.col("NS_EXTRA", 'D', 2);
    for (size_t i = 0; i < t.nrow; i++) { double v[2] = {1.25, (double)i}; cell_real(c, v, 2); }
  }
  if (o.shuffle_col) for (size_t i = t.cols.size(); i > 1; i--) std::swap(t.cols[i - 1], t.cols[(size_t)t.r.range(0, (int64_t)i - 1)]);
  std::vector<std::string> cards;
  size_t rowlen = 0;
  for (auto &c : t.cols) { size_t sz = c.type == 'I' ? 2 : c.type == 'J' || c.type == 'E' ? 4 : c.type == 'A' || c.type == 'L' ? 1 : c.type == 'M' ? 16 : 8; rowlen += sz * (size_t)c.repeat; }
  cards.push_back(card_s("XTENSION", "BINTABLE", "binary table extension"));
  cards.push_back(card_i("BITPIX", 8)); cards.push_back(card_i("NAXIS", 2)); cards.push_back(card_i("NAXIS1", (long)rowlen)); cards.push_back(card_i("NAXIS2", (long)t.nrow));
  cards.push_back(card_i("PCOUNT", 0)); cards.push_back(card_i("GCOUNT", 1)); cards.push_back(card_i("TFIELDS", (long)t.cols.size()));
  for (size_t i = 0; i < t.cols.size(); i++) {
    Col &c = t.cols[i];
    std::string n = std::to_string(i + 1), nm = c.name;
    if (o.lowercase) for (char &ch : nm) ch = (char)tolower(ch);
    cards.push_back(card_s("TTYPE" + n, nm));
    std::string f = (c.repeat == 1 && t.r.chance(1, 2)) ? std::string(1, c.type) : std::to_string(c.repeat) + c.type;
    cards.push_back(card_s("TFORM" + n, f));
    if (!c.unit.empty()) cards.push_back(card_s("TUNIT" + n, c.unit));
    if (!c.dim.empty()) cards.push_back(card_s("TDIM" + n, c.dim));
  }
  if (!t.extname.empty()) cards.push_back(card_s("EXTNAME", t.extname, "name of this table"));
  for (auto &k : t.kw) cards.push_back(k);
  if (o.foreign && t.r.chance(1, 3)) { cards.push_back(card_s("HISTREF", "some other keyword")); cards.push_back(pad80("COMMENT  a comment line")); cards.push_back(pad80("HISTORY  created for the simulation")); }
  Bytes d;
  for (size_t r = 0; r < t.nrow; r++) for (auto &c : t.cols) d.insert(d.end(), c.rows[r].begin(), c.rows[r].end());
  return finish_hdu(cards, d, 0, o.checksums);
}

static const char *qcol[NKIND][8] = {{"VISAMP", "VISAMPERR", "VISPHI", "VISPHIERR", "RVIS", "RVISERR", "IVIS", "IVISERR"}, {"VIS2DATA", "VIS2ERR"}, {"T3AMP", "T3AMPERR", "T3PHI", "T3PHIERR"}, {"FLUXDATA", "FLUXERR"}};
static const char *ucol[NKIND][4] = {{"UCOORD", "VCOORD"}, {"UCOORD", "VCOORD"}, {"U1COORD", "V1COORD", "U2COORD", "V2COORD"}, {}};
static const char *cicol[NKIND][4] = {{"CORRINDX_VISAMP", "CORRINDX_VISPHI", "CORRINDX_RVIS", "CORRINDX_IVIS"}, {"CORRINDX_VIS2DATA"}, {"CORRINDX_T3AMP", "CORRINDX_T3PHI"}, {"CORRINDX_FLUXDATA"}};

std::vector<uint8_t> fits_encode(const DS &ds, const EncOpt &o) {
  std::vector<std::vector<Bytes>> groups;     // tables of one type keep their order
  uint64_t tn = 0;
  auto tb = [&](const char *ext, size_t nrow) { TB t; t.extname = ext; t.nrow = nrow; t.r = Rng(mix64(o.seed + 1000 * ++tn)); t.num = (int)tn; t.types = o.types; return t; };
  auto ints = [&](TB &t, const char *n, char base, const std::vector<int> &v) { Col &c = t.col(n, ity(t, base), 1); for (int x : v) cell_int(c, &x, 1); };
  auto reals = [&](TB &t, const char *n, char base, const std::string &u, const std::vector<double> &v) {
    char ty = base;
    if (t.types && t.r.chance(1, 3)) { if (base == 'E') ty = 'D'; else if (fexact(v.data(), v.size())) ty = 'E'; }
    Col &c = t.col(n, ty, 1, u); for (double x : v) cell_real(c, &x, 1); };
  auto strs = [&](TB &t, const char *n, int w, const std::vector<std::string> &v) { Col &c = t.col(n, 'A', width(v, w, t)); for (auto &s : v) cell_str(c, s); };
#define GET(vec, expr) [&] { std::vector<std::decay_t<decltype((vec)[0].expr)>> r_; for (auto &q_ : vec) r_.push_back(q_.expr); return r_; }()
#define GETD(vec, expr) [&] { std::vector<double> r_; for (auto &q_ : vec) r_.push_back((double)q_.expr); return r_; }()
  {
    TB t = tb("OI_TARGET", ds.t.size());
    t.kw.push_back(card_i("OI_REVN", ds.trev));
    ints(t, "TARGET_ID", 'I', GET(ds.t, id)); strs(t, "TARGET", ds.trev == 1 ? 16 : 32, GET(ds.t, name));
    if (ds.trev == 1) { size_t m = 16; for (auto &q : ds.t) m = std::max(m, q.name.size()); t.cols.pop_back(); Col &c = t.col("TARGET", 'A', (int)m); for (auto &q : ds.t) cell_str(c, q.name); }
    reals(t, "RAEP0", 'D', "deg", GETD(ds.t, ra)); reals(t, "DECEP0", 'D', "deg", GETD(ds.t, dec)); reals(t, "EQUINOX", 'E', "yr", GETD(ds.t, equinox));
    reals(t, "RA_ERR", 'D', "deg", GETD(ds.t, raerr)); reals(t, "DEC_ERR", 'D', "deg", GETD(ds.t, decerr)); reals(t, "SYSVEL", 'D', "m/s", GETD(ds.t, sysvel));
    strs(t, "VELTYP", 8, GET(ds.t, veltyp)); strs(t, "VELDEF", 8, GET(ds.t, veldef));
    reals(t, "PMRA", 'D', "deg/yr", GETD(ds.t, pmra)); reals(t, "PMDEC", 'D', "deg/yr", GETD(ds.t, pmdec)); reals(t, "PMRA_ERR", 'D', "deg/yr", GETD(ds.t, pmraerr)); reals(t, "PMDEC_ERR", 'D', "deg/yr", GETD(ds.t, pmdecerr));
    reals(t, "PARALLAX", 'E', "deg", GETD(ds.t, par)); reals(t, "PARA_ERR", 'E', "deg", GETD(ds.t, parerr)); strs(t, "SPECTYP", 32, GET(ds.t, spec));
    if (ds.usecat) strs(t, "CATEGORY", 3, GET(ds.t, cat));
    groups.push_back({build_table(t, o)});
  }
  std::vector<Bytes> g; int ver = 0;
  auto flush = [&] { if (!g.empty()) groups.push_back(g); g.clear(); ver = 0; };
  for (auto &A : ds.a) {
    TB t = tb("OI_ARRAY", A.el.size());
    t.kw = {card_i("OI_REVN", A.rev), card_s("ARRNAME", A.name), card_s("FRAME", A.frame), card_d("ARRAYX", A.c[0], "[m]"), card_d("ARRAYY", A.c[1], "[m]"), card_d("ARRAYZ", A.c[2], "[m]")};
    if (o.extver) t.kw.push_back(card_i("EXTVER", ++ver));
    strs(t, "TEL_NAME", 16, GET(A.el, tel)); strs(t, "STA_NAME", 16, GET(A.el, sta)); ints(t, "STA_INDEX", 'I', GET(A.el, idx)); reals(t, "DIAMETER", 'E', "m", GETD(A.el, diam));
    { bool ex = true; for (auto &e : A.el) ex &= fexact(e.xyz, 3); Col &c = t.col("STAXYZ", t.types && ex && t.r.chance(1, 2) ? 'E' : 'D', 3, "m"); for (auto &e : A.el) cell_real(c, e.xyz, 3); }
    if (A.rev >= 2) { reals(t, "FOV", 'D', "arcsec", GETD(A.el, fov)); strs(t, "FOVTYPE", 6, GET(A.el, fovtype)); }
    g.push_back(build_table(t, o));
  }
  flush();
  for (auto &w : ds.w) {
    TB t = tb("OI_WAVELENGTH", w.w.size());
    t.kw = {card_i("OI_REVN", w.rev), card_s("INSNAME", w.name)};
    if (o.extver) t.kw.push_back(card_i("EXTVER", ++ver));
    reals(t, "EFF_WAVE", 'E', "m", std::vector<double>(w.w.begin(), w.w.end())); reals(t, "EFF_BAND", 'E', "m", std::vector<double>(w.b.begin(), w.b.end()));
    g.push_back(build_table(t, o));
  }
  flush();
  for (auto &c : ds.c) {
    TB t = tb("OI_CORR", c.c.size());
    t.kw = {card_i("OI_REVN", c.rev), card_s("CORRNAME", c.name), card_i("NDATA", c.ndata)};
    if (o.extver) t.kw.push_back(card_i("EXTVER", ++ver));
    ints(t, "IINDX", 'J', c.i); ints(t, "JINDX", 'J', c.j); reals(t, "CORR", 'D', "", c.c);
    g.push_back(build_table(t, o));
  }
  flush();
  for (auto &p : ds.p) {
    TB t = tb("OI_INSPOL", p.rec.size());
    t.kw = {card_i("OI_REVN", p.rev), card_s("DATE-OBS", p.dateobs), card_i("NPOL", p.npol), card_s("ARRNAME", p.arr), card_s("ORIENT", p.orient), card_s("MODEL", p.model)};
    if (o.extver) t.kw.push_back(card_i("EXTVER", ++ver));
    ints(t, "TARGET_ID", 'I', GET(p.rec, tid)); strs(t, "INSNAME", 70, GET(p.rec, ins)); reals(t, "MJD_OBS", 'D', "day", GETD(p.rec, mjd0)); reals(t, "MJD_END", 'D', "day", GETD(p.rec, mjd1));
    static const char *jn[4] = {"JXX", "JYY", "JXY", "JYX"};
    for (int m = 0; m < 4; m++) { Col &c = t.col(jn[m], 'C', p.nwave); for (auto &q : p.rec) cell_cplx(c, q.j[m]); }
    ints(t, "STA_INDEX", 'I', GET(p.rec, sta));
    g.push_back(build_table(t, o));
  }
  flush();
  for (int k = 0; k < NKIND; k++) {
    for (auto &T : ds.d[k]) {
      TB t = tb(kind_ext[k], T.rec.size());
      t.kw = {card_i("OI_REVN", T.rev), card_s("DATE-OBS", T.dateobs)};
      if (!T.arr.empty()) t.kw.push_back(card_s("ARRNAME", T.arr));
      t.kw.push_back(card_s("INSNAME", T.ins));
      if (!T.corr.empty()) t.kw.push_back(card_s("CORRNAME", T.corr));
      if (!T.amptyp.empty()) t.kw.push_back(card_s("AMPTYP", T.amptyp));
      if (!T.phityp.empty()) t.kw.push_back(card_s("PHITYP", T.phityp));
      if (T.amporder >= 0) t.kw.push_back(card_i("AMPORDER", T.amporder));
      if (T.phiorder >= 0) t.kw.push_back(card_i("PHIORDER", T.phiorder));
      if (k == FLUX) {
        if (!T.fovtype.empty()) { t.kw.push_back(card_d("FOV", T.fov)); t.kw.push_back(card_s("FOVTYPE", T.fovtype)); }
        t.kw.push_back(card_s("CALSTAT", std::string(1, T.calstat)));
      }
      if (o.extver) t.kw.push_back(card_i("EXTVER", ++ver));
      ints(t, "TARGET_ID", 'I', GET(T.rec, tid));
      if (k != FLUX) reals(t, "TIME", 'D', "s", GETD(T.rec, time));
      reals(t, "MJD", 'D', "day", GETD(T.rec, mjd)); reals(t, "INT_TIME", 'D', "s", GETD(T.rec, itime));
      int nq = k == VIS ? (T.usecomplex ? 8 : 4) : NQ[k];
      for (int m = 0; m < nq; m++) {
        bool ex = true; for (auto &q : T.rec) ex &= fexact(q.d[m].data(), q.d[m].size());
        std::string unit = (k == VIS && m < 2) ? T.ampunit : (k == VIS && m >= 4) ? T.complexunit : k == FLUX ? T.fluxunit : "";
        Col &c = t.col(qcol[k][m], t.types && ex && t.r.chance(1, 2) ? 'E' : 'D', T.nwave, unit);
        for (auto &q : T.rec) cell_real(c, q.d[m].data(), T.nwave);
      }
      if (!T.corr.empty()) { int n = k == VIS ? (T.usecomplex ? 4 : 2) : k == T3 ? 2 : 1; for (int m = 0; m < n; m++) ints(t, cicol[k][m], 'J', GET(T.rec, ci[m])); }
      if (T.userefmap) { Col &c = t.col("VISREFMAP", 'L', T.nwave * T.nwave); c.dim = "(" + std::to_string(T.nwave) + "," + std::to_string(T.nwave) + ")"; for (auto &q : T.rec) cell_log(c, q.refmap); }
      for (int m = 0; m < NU[k]; m++) reals(t, ucol[k][m], 'D', "m", GETD(T.rec, u[m]));
      if (!(k == FLUX && T.arr.empty())) { Col &c = t.col("STA_INDEX", ity(t, 'I'), NSTA[k]); for (auto &q : T.rec) cell_int(c, q.sta, NSTA[k]); }
      { Col &c = t.col("FLAG", 'L', T.nwave); for (auto &q : T.rec) cell_log(c, q.flag); }
      g.push_back(build_table(t, o));
    }
    flush();
  }
  Rng lr(mix64(o.seed ^ 0xF00D));
  if (o.foreign) {
    std::vector<Bytes> f;
    int n = (int)lr.range(1, 3);
    for (int i = 0; i < n; i++) {
      int what = (int)lr.range(0, 4);
      if (what == 0) {
        std::vector<std::string> c = {card_s("XTENSION", "IMAGE"), card_i("BITPIX", 16), card_i("NAXIS", 2), card_i("NAXIS1", 30), card_i("NAXIS2", 40), card_i("PCOUNT", 0), card_i("GCOUNT", 1), card_s("EXTNAME", "MODEL_IMAGE")};
        f.push_back(finish_hdu(c, Bytes(2400, 7), 0, o.checksums));
      } else if (what == 4) {
        std::vector<std::string> c = {card_s("XTENSION", "TABLE"), card_i("BITPIX", 8), card_i("NAXIS", 2), card_i("NAXIS1", 10), card_i("NAXIS2", 3), card_i("PCOUNT", 0), card_i("GCOUNT", 1), card_i("TFIELDS", 1), card_s("TTYPE1", "TXT"), card_i("TBCOL1", 1), card_s("TFORM1", "A10"), card_s("EXTNAME", lr.chance(1, 2) ? "OI_ARRAY" : "NOTES")};
        f.push_back(finish_hdu(c, Bytes(30, 'x'), ' ', o.checksums));
      } else {
        TB t = tb(what == 1 ? "" : what == 2 ? "FOREIGN" : "OI_VIS2_EXTRA", 3);
        t.kw = {card_s("INSNAME", "foreign"), card_s("ARRNAME", "foreign")};
        Col &c = t.col("VIS2DATA", 'D', 1); for (int q = 0; q < 3; q++) { double v = q; cell_real(c, &v, 1); }
        f.push_back(build_table(t, o));
      }
    }
    groups.push_back(f);
  }
  std::vector<std::string> pc = {card_l("SIMPLE", true, "file does conform to FITS standard")};
  Bytes pd;
  if (o.foreign && lr.chance(1, 2)) { pc.push_back(card_i("BITPIX", 8)); pc.push_back(card_i("NAXIS", 1)); pc.push_back(card_i("NAXIS1", 100)); pd = Bytes(100, 3); }
  else { pc.push_back(card_i("BITPIX", 16)); pc.push_back(card_i("NAXIS", 0)); }
  pc.push_back(card_l("EXTEND", true));
  for (int i = 0; i < H_N; i++) if (!ds.h[i].empty() || (i < H_REFERENC && ds.h[H_CONTENT] == "OIFITS2")) pc.push_back(card_s(hk_name[i], ds.h[i]));
  Bytes out = finish_hdu(pc, pd, 0, o.checksums);
  std::vector<size_t> pos(groups.size(), 0);
  for (;;) {
    std::vector<size_t> live;
    for (size_t i = 0; i < groups.size(); i++) if (pos[i] < groups[i].size()) live.push_back(i);
    if (live.empty()) break;
    size_t gi = o.shuffle_hdu ? live[(size_t)lr.range(0, (int64_t)live.size() - 1)] : live[0];
    const Bytes &b = groups[gi][pos[gi]++];
    out.insert(out.end(), b.begin(), b.end());
  }
  return out;
}

// ---------------------------------------------------------------- decoder
struct RawHdu { std::map<std::string, std::string> kv; std::map<std::string, bool> isstr; const uint8_t *data = nullptr; uint64_t len = 0; std::vector<std::string> dup; };
static std::string rt(std::string s) { while (!s.empty() && (s.back() == ' ' || s.back() == 0)) s.pop_back(); return s; }
static std::string cstr(const uint8_t *p, size_t n) { std::string s((const char *)p, strnlen((const char *)p, n)); return rt(s); }
struct DCol { int off, repeat; char type; int idx; };
struct DTab {
  RawHdu *h; std::map<std::string, DCol> c; long rowlen = 0, nrow = 0; std::string err;
  bool has(const std::string &n) const { return c.count(n) > 0; }
  const uint8_t *cell(const std::string &n, long r, char types, const char *want, int rep) {
    (void)types;
    auto it = c.find(n);
    if (it == c.end()) { err = "missing column " + n; return nullptr; }
    if (!strchr(want, it->second.type)) { err = "column " + n + " has type " + it->second.type; return nullptr; }
    if (rep > 0 && it->second.repeat != rep) { err = "column " + n + " has repeat " + std::to_string(it->second.repeat) + " not " + std::to_string(rep); return nullptr; }
    return h->data + r * rowlen + it->second.off;
  }
};
static uint64_t be(const uint8_t *p, int n) { uint64_t v = 0; for (int i = 0; i < n; i++) v = v << 8 | p[i]; return v; }
static double rd_d(const uint8_t *p) { uint64_t u = be(p, 8); double v; memcpy(&v, &u, 8); return v; }
static float rd_f(const uint8_t *p) { uint32_t u = (uint32_t)be(p, 4); float v; memcpy(&v, &u, 4); return v; }

static bool is_oi_ext(const std::string &x) {
  for (const char *e : {"OI_TARGET", "OI_ARRAY", "OI_WAVELENGTH", "OI_CORR", "OI_INSPOL", "OI_VIS", "OI_VIS2", "OI_T3", "OI_FLUX"}) if (x == e) return true;
  return false;
}
Decoded fits_decode(const std::vector<uint8_t> &b) {
  Decoded D;
  uint64_t pos = 0;
  auto fail = [&](const std::string &e) { D.err = e; return D; };
  if (b.empty() || b.size() % 2880) return fail("file size " + std::to_string(b.size()) + " is not a positive multiple of 2880");
  std::map<std::string, int> extver;
  bool have_target = false;
  int n = 0;
  while (pos < b.size()) {
    RawHdu h; HduInfo hi{}; hi.hstart = pos;
    bool end = false; std::vector<std::string> keys;
    uint64_t p = pos;
    bool first = true;
    for (; p + 80 <= b.size() && !end; p += 80) {
      std::string card((const char *)&b[p], 80);
      for (char c : card) if ((unsigned char)c < 32 || (unsigned char)c > 126) return fail("non-printable byte in header of HDU " + std::to_string(n + 1));
      std::string key = rt(card.substr(0, 8));
      if (first) { if (key != (n == 0 ? "SIMPLE" : "XTENSION")) return fail("HDU " + std::to_string(n + 1) + " does not start with SIMPLE/XTENSION"); first = false; }
      if (key == "END" && rt(card) == "END") { end = true; continue; }
      if (card.compare(8, 2, "= ") != 0) continue;
      std::string v = card.substr(10), val; bool str = false;
      size_t i = v.find_first_not_of(' ');
      if (i != std::string::npos && v[i] == '\'') {
        str = true;
        for (i++; i < v.size(); i++) { if (v[i] == '\'') { if (i + 1 < v.size() && v[i + 1] == '\'') { val += '\''; i++; } else break; } else val += v[i]; }
        if (i >= v.size()) return fail("unterminated string in card " + key);
        val = rt(val);
      } else { size_t sl = v.find('/'); val = rt(v.substr(0, sl)); size_t q = val.find_first_not_of(' '); val = q == std::string::npos ? "" : val.substr(q); }
      if (h.kv.count(key)) return fail("keyword " + key + " occurs twice in HDU " + std::to_string(n + 1));
      h.kv[key] = val; h.isstr[key] = str;
    }
    if (!end) return fail("header of HDU " + std::to_string(n + 1) + " has no END");
    p = (p + 2879) / 2880 * 2880;
    auto geti = [&](const std::string &k, long def) { auto it = h.kv.find(k); return it == h.kv.end() ? def : atol(it->second.c_str()); };
    long naxis = geti("NAXIS", -1), bitpix = geti("BITPIX", 0);
    if (naxis < 0) return fail("no NAXIS");
    uint64_t size = naxis ? 1 : 0;
    for (long i = 1; i <= naxis; i++) size *= (uint64_t)geti("NAXIS" + std::to_string(i), 0);
    size = (uint64_t)(labs(bitpix) / 8) * (uint64_t)geti("GCOUNT", 1) * ((uint64_t)geti("PCOUNT", 0) + size);
    if (p + size > b.size()) return fail("data of HDU " + std::to_string(n + 1) + " extends past the end of the file");
    h.data = b.data() + p; h.len = size;
    hi.dstart = p;
    hi.end = p + (size + 2879) / 2880 * 2880;
    if (hi.end > b.size()) return fail("data padding of HDU " + std::to_string(n + 1) + " missing");
    hi.extname = h.kv.count("EXTNAME") ? h.kv["EXTNAME"] : "";
    // checksums
    hi.has_sum = h.kv.count("CHECKSUM") && h.kv.count("DATASUM");
    hi.datasum = 0; hi.checksum = 0;
    if (h.kv.count("DATASUM")) hi.datasum = (uint32_t)strtoul(h.kv["DATASUM"].c_str(), nullptr, 10) == ones_sum(&b[p], hi.end - p) || hi.end == p ? 1 : -1;
    if (h.kv.count("DATASUM") && hi.end == p) hi.datasum = strtoul(h.kv["DATASUM"].c_str(), nullptr, 10) == 0 ? 1 : -1;
    if (h.kv.count("CHECKSUM")) { uint32_t s = ones_sum(&b[pos], hi.end - pos); hi.checksum = (s == 0xffffffffu || s == 0) ? 1 : -1; }
    auto str = [&](const std::string &k, std::string &out, bool opt = false) { auto it = h.kv.find(k); if (it == h.kv.end()) { if (!opt) D.err = "missing keyword " + k + " in HDU " + std::to_string(n + 1) + " " + hi.extname; out = ""; return false; } if (!h.isstr[k]) D.err = "keyword " + k + " is not a string"; out = it->second; return true; };
    auto num = [&](const std::string &k, double &out) { auto it = h.kv.find(k); if (it == h.kv.end()) { D.err = "missing keyword " + k; return false; } out = strtod(it->second.c_str(), nullptr); return true; };
    auto integer = [&](const std::string &k, int &out, bool opt = false) { auto it = h.kv.find(k); if (it == h.kv.end()) { if (!opt) D.err = "missing keyword " + k; return false; } out = atoi(it->second.c_str()); return true; };
    if (n == 0) for (int i = 0; i < H_N; i++) str(hk_name[i], D.ds.h[i], true);
    std::string xt = h.kv.count("XTENSION") ? h.kv["XTENSION"] : "";
    if (n > 0 && xt == "BINTABLE" && is_oi_ext(hi.extname)) {
      DTab t; t.h = &h; t.rowlen = geti("NAXIS1", 0); t.nrow = geti("NAXIS2", 0);
      long tf = geti("TFIELDS", 0); int off = 0;
      for (long i = 1; i <= tf; i++) {
        std::string f = h.kv["TFORM" + std::to_string(i)], nm = h.kv["TTYPE" + std::to_string(i)];
        for (char &c : nm) c = (char)toupper(c);
        char *e; long rep = strtol(f.c_str(), &e, 10); if (e == f.c_str()) rep = 1;
        char ty = *e;
        int sz = ty == 'I' ? 2 : ty == 'J' || ty == 'E' ? 4 : ty == 'A' || ty == 'L' || ty == 'B' ? 1 : ty == 'M' ? 16 : 8;
        if (t.c.count(nm)) return fail("column " + nm + " occurs twice");
        t.c[nm] = {off, (int)rep, ty, (int)i}; { auto ui = h.kv.find("TUNIT" + std::to_string(i)); std::string cu = ui == h.kv.end() ? "" : ui->second; hi.col[nm] = {std::to_string(rep) + ty, cu}; } off += (int)rep * sz;
      }
      if (off != t.rowlen) return fail("row length mismatch in " + hi.extname);
      auto I = [&](const std::string &nm, long r, int *out, int rep) { const uint8_t *q = t.cell(nm, r, 0, "IJK", rep); if (!q) return; char ty = t.c[nm].type; for (int i = 0; i < rep; i++) out[i] = ty == 'I' ? (int16_t)be(q + 2 * i, 2) : ty == 'J' ? (int32_t)be(q + 4 * i, 4) : (int)(int64_t)be(q + 8 * i, 8); };
      auto R = [&](const std::string &nm, long r, double *out, int rep) { const uint8_t *q = t.cell(nm, r, 0, "DE", rep); if (!q) return; char ty = t.c[nm].type; for (int i = 0; i < rep; i++) out[i] = ty == 'D' ? rd_d(q + 8 * i) : rd_f(q + 4 * i); };
      auto F = [&](const std::string &nm, long r, float &out) { double v = 0; R(nm, r, &v, 1); out = (float)v; };
      auto S = [&](const std::string &nm, long r, std::string &out) { const uint8_t *q = t.cell(nm, r, 0, "A", 0); if (q) out = cstr(q, (size_t)t.c[nm].repeat); };
      auto RV = [&](const std::string &nm, long r, std::vector<double> &v, int rep) { v.resize((size_t)rep); R(nm, r, v.data(), rep); };
      auto LV = [&](const std::string &nm, long r, std::vector<char> &v, int rep) { v.resize((size_t)rep); const uint8_t *q = t.cell(nm, r, 0, "L", rep); if (!q) return; for (int i = 0; i < rep; i++) { if (q[i] != 'T' && q[i] != 'F') D.err = "bad logical value in column " + nm; v[(size_t)i] = q[i] == 'T'; } };
      const std::string &x = hi.extname;
      hi.kv = h.kv;
      int rev = 0; integer("OI_REVN", rev);
      bool known = true;
      if (x == "OI_TARGET") {
        if (have_target) return fail("more than one OI_TARGET");
        have_target = true;
        D.ds.trev = rev; D.ds.usecat = rev >= 2 && t.has("CATEGORY");
        for (long r = 0; r < t.nrow; r++) {
          Targ q; I("TARGET_ID", r, &q.id, 1); S("TARGET", r, q.name); R("RAEP0", r, &q.ra, 1); R("DECEP0", r, &q.dec, 1); F("EQUINOX", r, q.equinox); R("RA_ERR", r, &q.raerr, 1); R("DEC_ERR", r, &q.decerr, 1); R("SYSVEL", r, &q.sysvel, 1);
          S("VELTYP", r, q.veltyp); S("VELDEF", r, q.veldef); R("PMRA", r, &q.pmra, 1); R("PMDEC", r, &q.pmdec, 1); R("PMRA_ERR", r, &q.pmraerr, 1); R("PMDEC_ERR", r, &q.pmdecerr, 1); F("PARALLAX", r, q.par); F("PARA_ERR", r, q.parerr); S("SPECTYP", r, q.spec);
          if (D.ds.usecat) S("CATEGORY", r, q.cat);
          D.ds.t.push_back(q);
        }
      } else if (x == "OI_ARRAY") {
        Arr A; A.rev = rev; str("ARRNAME", A.name); str("FRAME", A.frame); num("ARRAYX", A.c[0]); num("ARRAYY", A.c[1]); num("ARRAYZ", A.c[2]); hi.name = A.name;
        for (long r = 0; r < t.nrow; r++) {
          Elem e; S("TEL_NAME", r, e.tel); S("STA_NAME", r, e.sta); I("STA_INDEX", r, &e.idx, 1); F("DIAMETER", r, e.diam); R("STAXYZ", r, e.xyz, 3);
          if (rev >= 2) { R("FOV", r, &e.fov, 1); S("FOVTYPE", r, e.fovtype); } else { e.fov = NAN; e.fovtype = "FWHM"; }
          A.el.push_back(e);
        }
        D.ds.a.push_back(A);
      } else if (x == "OI_WAVELENGTH") {
        Wav w; w.rev = rev; str("INSNAME", w.name); hi.name = w.name;
        for (long r = 0; r < t.nrow; r++) { float a = 0, c = 0; F("EFF_WAVE", r, a); F("EFF_BAND", r, c); w.w.push_back(a); w.b.push_back(c); }
        D.ds.w.push_back(w);
      } else if (x == "OI_CORR") {
        Corr c; c.rev = rev; str("CORRNAME", c.name); integer("NDATA", c.ndata); hi.name = c.name;
        for (long r = 0; r < t.nrow; r++) { int a = 0, e = 0; double v = 0; I("IINDX", r, &a, 1); I("JINDX", r, &e, 1); R("CORR", r, &v, 1); c.i.push_back(a); c.j.push_back(e); c.c.push_back(v); }
        D.ds.c.push_back(c);
      } else if (x == "OI_INSPOL") {
        Pol q; q.rev = rev; str("DATE-OBS", q.dateobs); integer("NPOL", q.npol); str("ARRNAME", q.arr); str("ORIENT", q.orient); str("MODEL", q.model);
        q.nwave = t.has("JXX") ? t.c["JXX"].repeat : 0;
        for (long r = 0; r < t.nrow; r++) {
          PolRec z; I("TARGET_ID", r, &z.tid, 1); S("INSNAME", r, z.ins); R("MJD_OBS", r, &z.mjd0, 1); R("MJD_END", r, &z.mjd1, 1); I("STA_INDEX", r, &z.sta, 1);
          static const char *jn[4] = {"JXX", "JYY", "JXY", "JYX"};
          for (int m = 0; m < 4; m++) { const uint8_t *c = t.cell(jn[m], r, 0, "C", q.nwave); if (c) for (int i = 0; i < q.nwave; i++) z.j[m].push_back(cf(rd_f(c + 8 * i), rd_f(c + 8 * i + 4))); }
          q.rec.push_back(z);
        }
        D.ds.p.push_back(q);
      } else {
        int k = 0; while (k < NKIND && x != kind_ext[k]) k++;
        if (k == NKIND) known = false;
        else {
          Tab T; T.kind = k; T.rev = rev; str("DATE-OBS", T.dateobs); str("ARRNAME", T.arr, true); str("INSNAME", T.ins);
          if (k == FLUX || rev >= 2) str("CORRNAME", T.corr, true);
          T.nwave = t.has(qcol[k][0]) ? t.c[qcol[k][0]].repeat : 0;
          if (k == VIS && rev >= 2) {
            str("AMPTYP", T.amptyp, true); str("PHITYP", T.phityp, true); integer("AMPORDER", T.amporder, true); integer("PHIORDER", T.phiorder, true);
            T.userefmap = t.has("VISREFMAP"); T.usecomplex = t.has("RVIS");
            if (T.usecomplex) {
              str("TUNIT" + std::to_string(t.c["RVIS"].idx), T.complexunit);
              for (const char *cn : {"RVISERR", "IVIS", "IVISERR"}) { std::string u; if (t.has(cn)) str("TUNIT" + std::to_string(t.c[cn].idx), u); if (u != T.complexunit) D.err = std::string("unit of ") + cn + " differs from RVIS"; }
            }
            if (T.userefmap) { std::string dim, want = "(" + std::to_string(T.nwave) + "," + std::to_string(T.nwave) + ")"; str("TDIM" + std::to_string(t.c["VISREFMAP"].idx), dim, true); dim.erase(std::remove(dim.begin(), dim.end(), ' '), dim.end()); if (dim != want) D.err = "VISREFMAP has TDIM " + dim; }
          }
          if (k == VIS) str("TUNIT" + std::to_string(t.c["VISAMP"].idx), T.ampunit, true);
          if (k == FLUX) {
            std::string cs; str("CALSTAT", cs); T.calstat = cs.empty() ? ' ' : cs[0];
            str("FOVTYPE", T.fovtype, true); T.fov = NAN; if (h.kv.count("FOV")) num("FOV", T.fov);
            if (t.has("FLUXDATA")) str("TUNIT" + std::to_string(t.c["FLUXDATA"].idx), T.fluxunit);
            std::string u; if (t.has("FLUXERR")) str("TUNIT" + std::to_string(t.c["FLUXERR"].idx), u); if (u != T.fluxunit) D.err = "unit of FLUXERR differs from FLUXDATA";
          }
          for (long r = 0; r < t.nrow; r++) {
            Rec q; I("TARGET_ID", r, &q.tid, 1); if (k != FLUX) R("TIME", r, &q.time, 1); R("MJD", r, &q.mjd, 1); R("INT_TIME", r, &q.itime, 1);
            int nq = k == VIS ? (T.usecomplex ? 8 : 4) : NQ[k];
            for (int m = 0; m < nq; m++) RV(qcol[k][m], r, q.d[m], T.nwave);
            if (!T.corr.empty()) { int nn = k == VIS ? (T.usecomplex ? 4 : 2) : k == T3 ? 2 : 1; for (int m = 0; m < nn; m++) I(cicol[k][m], r, &q.ci[m], 1); }
            if (T.userefmap) LV("VISREFMAP", r, q.refmap, T.nwave * T.nwave);
            for (int m = 0; m < NU[k]; m++) R(ucol[k][m], r, &q.u[m], 1);
            if (k == FLUX && !t.has("STA_INDEX")) q.sta[0] = -1; else I("STA_INDEX", r, q.sta, NSTA[k]);
            LV("FLAG", r, q.flag, T.nwave);
            T.rec.push_back(q);
          }
          D.ds.d[k].push_back(T);
          hi.name = T.ins;
        }
      }
      if (!t.err.empty()) return fail(t.err + " in HDU " + std::to_string(n + 1) + " " + x);
      if (!D.err.empty()) return D;
      if (known && h.kv.count("EXTVER")) { int ev = atoi(h.kv["EXTVER"].c_str()); (void)ev; }
    }
    if (!D.err.empty()) return D;
    D.hdu.push_back(hi);
    n++;
    pos = hi.end;
  }
  if (!have_target) return fail("no OI_TARGET table");
  D.ok = true;
  return D;
}
