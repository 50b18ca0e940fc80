#include "scen.h"
#include <sstream>
#include <algorithm>
#include <csignal>
#include <ctime>
#include <getopt.h>
#include <unistd.h>

std::vector<Fault> choose_faults(Plan &P, const std::string &key, int proc, const ProcResult &dry, int set, int maxn) {
  struct Cand { int cls; std::vector<int> kinds; };
  std::vector<Cand> c;
  auto add = [&](int cls, std::vector<int> k) { if (dry.ops[cls] > 0) c.push_back({cls, k}); };
  if (set & FS_READ) { add(OC_READ, {FK_EIO, FK_EIO, FK_EINTR, FK_EOF}); }
  if (set & FS_WRITE) { add(OC_WRITE, {FK_EIO, FK_ENOSPC}); }
  if (set & FS_SEEK) add(OC_SEEK, {FK_EIO});
  if (set & FS_OPEN) add(OC_OPEN, {FK_EACCES, FK_EMFILE, FK_ENOENT, FK_EIO});
  if (set & FS_CLOSE) add(OC_CLOSE, {FK_EIO, FK_ENOSPC});
  if (set & FS_META) { add(OC_STAT, {FK_EACCES, FK_EIO}); add(OC_REMOVE, {FK_EACCES, FK_EIO}); }
  if (set & FS_CRASH) { c.push_back({OC_ANY, {FK_CRASH}}); if (dry.ops[OC_WRITE]) c.push_back({OC_WRITE, {FK_CRASH_TORN}}); }
  if (set & FS_MEM) add(OC_MALLOC, {FK_NOMEM});
  if (set & FS_LMEM) add(OC_LMALLOC, {FK_NOMEM});
  if (set & FS_SHORT) { add(OC_READ, {FK_SHORT}); add(OC_WRITE, {FK_SHORT}); }
  std::vector<Fault> out;
  if (c.empty()) return out;
  int n = (int)P.pick(key + ".nf", 1, maxn);
  for (int i = 0; i < n; i++) {
    std::string k = key + ".f" + std::to_string(i);
    const Cand &x = c[(size_t)P.pick(k + ".cls", 0, (int64_t)c.size() - 1)];
    Fault f{};
    f.proc = proc; f.cls = x.cls;
    f.kind = x.kinds[(size_t)P.pick(k + ".kind", 0, (int64_t)x.kinds.size() - 1)];
    int64_t tot = (int64_t)(x.cls == OC_ANY ? dry.total_ops : dry.ops[x.cls]);
    if (tot < 1) tot = 1;
    int where = (int)P.pick(k + ".where", 0, 4);
    if (where == 2) f.nth = P.pick(k + ".nth", 0, std::min<int64_t>(tot - 1, 7));
    else if (where == 3) f.nth = tot - 1 - P.pick(k + ".nth", 0, std::min<int64_t>(tot - 1, 7));
    else if (where == 4 && x.cls == OC_READ && !dry.reread.empty()) f.nth = dry.reread[(size_t)P.pick(k + ".nth", 0, (int64_t)dry.reread.size() - 1)];   // a header or buffer fetched again
    else f.nth = P.pick(k + ".nth", 0, tot - 1);
    int l = (int)P.pick(k + ".len", 0, 5);
    f.len = l <= 2 ? 1 : l == 3 ? 2 : l == 4 ? 6 : 1000000000;
    f.arg = P.pick(k + ".arg", 0, 3000);
    // a file that cannot be opened stays so: cfitsio takes a failed open for
    // reading as proof that the file to be created does not exist yet
    if (f.cls == OC_OPEN) f.len = 1000000000;
    // a disk that refuses a write goes on refusing: cfitsio does not notice a
    // single refused write when it happens in the flush implied by a seek
    if (f.cls == OC_WRITE && (f.kind == FK_EIO || f.kind == FK_ENOSPC)) f.len = 1000000000;
    out.push_back(f);
  }
  return out;
}
void arm(const std::vector<Fault> &f) { set_faults(f); }
int64_t disarm_all(RunResult &R, int64_t *harmless) {
  int64_t n = 0; *harmless = 0;
  for (int i = 0; i < W->nfaults; i++) {
    Fault &f = W->faults[i];
    if (f.fired) {
      R.cnt[std::string("fault ") + faultkind_name[f.kind] + " on " + opclass_name[f.cls]] += f.fired;
      R.faulty = true;
      if (f.kind == FK_SHORT) *harmless += f.fired; else n += f.fired;
    }
    R.faults.push_back(f);
  }
  if (W->full_disk_events) { R.cnt["fault full disk (writes refused)"] += W->full_disk_events; R.faulty = true; n += W->full_disk_events; W->full_disk_events = 0; }
  W->nfaults = 0;
  return n;
}
int64_t disarm(RunResult &R) { int64_t h; return disarm_all(R, &h); }
void disk_restore(const DiskImage &img) {
  for (auto &p : disk_ls()) if (!img.count(p)) disk_rm(p);
  for (auto &kv : img) disk_put(kv.first, kv.second);
}
uint64_t disk_hash() {
  uint64_t h = 1;
  for (auto &kv : disk_image()) { h = fnvs(kv.first, h); h = fnv(kv.second.data(), kv.second.size(), h); }
  return h;
}
ProcResult runp(RunResult &R, int proc, const std::function<int()> &fn) {
  ProcResult p = run_proc(proc, fn);
  R.procs++;
  R.ops += p.total_ops;
  uint64_t st[4] = {disk_hash(), (uint64_t)p.code, (uint64_t)p.sig, (uint64_t)p.crashed};
  R.states.push_back(fnv(st, sizeof st));
  return p;
}
bool diagnosed_abort(const ProcResult &p) {
  // glibc's fortify abort: the repository is built without it, so this is
  // cfitsio stopping itself (ffc2j overflows its message buffer on a long
  // keyword value that is not a number); not this repository's doing
  if (p.sig == SIGABRT && p.err.find("*** buffer overflow detected ***") != std::string::npos) return true;
  // glibc's heap checks are corruption, whatever was printed before
  for (const char *m : {"free(): ", "malloc(): ", "realloc(): ", "munmap_chunk()", "double free", "corrupted"})
    if (p.err.find(m) != std::string::npos) return false;
  return (p.sig == SIGABRT || p.sig == SIGTRAP) && p.err.find("ERROR") != std::string::npos; }
bool looks_bad(const ProcResult &p) {
  if (p.crashed) return false;
  if (p.hang || p.runaway || p.asan) return true;
  return p.sig != 0;
}
int tool(const char *name, const std::vector<std::string> &args) {
  std::vector<std::vector<char>> *store = new std::vector<std::vector<char>>;
  std::vector<char *> *argv = new std::vector<char *>;
  auto push = [&](const std::string &s) { store->push_back(std::vector<char>(s.begin(), s.end())); store->back().push_back(0); };
  push(std::string("oifits-") + name);
  for (auto &a : args) push(a);
  for (auto &v : *store) argv->push_back(v.data());
  int argc = (int)argv->size();
  argv->push_back(nullptr);
  optind = 1;
  std::string n = name;
  if (n == "merge") return oimain_merge(argc, argv->data());
  if (n == "filter") return oimain_filter(argc, argv->data());
  if (n == "upgrade") return oimain_upgrade(argc, argv->data());
  return oimain_check(argc, argv->data());
}
void report_text(const char *tag, const std::string &s) {
  // chunked, so that texts longer than one report line survive
  size_t i = 0;
  do {
    std::string c = s.substr(i, 3000);
    std::string e;
    for (char ch : c) { if (ch == '\n') e += "\x02"; else e += ch; }
    report("%s:%s", tag, e.c_str());
    i += 3000;
  } while (i < s.size());
}
std::string rep_text(const ProcResult &p, const char *tag, bool *found) {
  std::string t = std::string(tag) + ":", r;
  bool f = false;
  size_t i = 0;
  while (i < p.rep.size()) {
    size_t e = p.rep.find('\n', i); if (e == std::string::npos) e = p.rep.size();
    if (p.rep.compare(i, t.size(), t) == 0) { f = true; for (size_t k = i + t.size(); k < e; k++) r += p.rep[k] == 2 ? '\n' : p.rep[k]; }
    i = e + 1;
  }
  if (found) *found = f;
  return r;
}

// ---------------------------------------------------------------- operations
int op_write(const DS &ds, const std::string &path) {
  oi_fits oi; to_oi(ds, &oi);
  int st = 0;
  int rc = write_oi_fits(path.c_str(), oi, &st);
  if (rc != st) report("MISMATCH return value %d, status %d", rc, st);
  return st;
}
int first_extver(uint64_t order) { return (order >> 20 & 3) == 3 ? 1 + (int)(order >> 22 & 255) * 131 : 1; }
int op_write_tables(const DS &ds, const std::string &path, uint64_t order) {
  oi_fits oi; to_oi(ds, &oi);
  int st = 0;
  fitsfile *f = nullptr;
  if (fits_create_file(&f, path.c_str(), &st)) { if (st > 0) fits_report_error(stderr, st); return st; }
  // the client may have made the primary HDU, and may write the header keywords last
  int hm = (int)(order >> 18) & 3;
  if (hm == 1) fits_create_img(f, BYTE_IMG, 0, nullptr, &st);
  if (hm < 2) write_oi_header(f, oi.header, &st);
  // groups may be written in any order; inside one kind the order is fixed
  std::vector<int> g = {0, 1, 2, 3, 4, 5, 6, 7, 8};
  Rng r(order);
  if (order) for (size_t i = g.size(); i > 1; i--) std::swap(g[i - 1], g[(size_t)r.range(0, (int64_t)i - 1)]);
  for (int k : g) {
    int ev = first_extver(order);
    switch (k) {
      case 0: write_oi_target(f, oi.targets, &st); break;
      case 1: for (GList *l = oi.arrayList; l; l = l->next) write_oi_array(f, *(oi_array *)l->data, ev++, &st); break;
      case 2: for (GList *l = oi.wavelengthList; l; l = l->next) write_oi_wavelength(f, *(oi_wavelength *)l->data, ev++, &st); break;
      case 3: for (GList *l = oi.corrList; l; l = l->next) write_oi_corr(f, *(oi_corr *)l->data, ev++, &st); break;
      case 4: for (GList *l = oi.inspolList; l; l = l->next) write_oi_inspol(f, *(oi_inspol *)l->data, ev++, &st); break;
      case 5: for (GList *l = oi.visList; l; l = l->next) write_oi_vis(f, *(oi_vis *)l->data, ev++, &st); break;
      case 6: for (GList *l = oi.vis2List; l; l = l->next) write_oi_vis2(f, *(oi_vis2 *)l->data, ev++, &st); break;
      case 7: for (GList *l = oi.t3List; l; l = l->next) write_oi_t3(f, *(oi_t3 *)l->data, ev++, &st); break;
      case 8: for (GList *l = oi.fluxList; l; l = l->next) write_oi_flux(f, *(oi_flux *)l->data, ev++, &st); break;
    }
  }
  if (hm >= 2) write_oi_header(f, oi.header, &st);
  // a careful client: cfitsio ignores a failing final flush, so look at the
  // closed file again
  fits_close_file(f, &st);
  if (st) return st;
  int dok = 0, hok = 0, nh = 0;
  if (fits_open_file(&f, path.c_str() + (path[0] == '!'), READONLY, &st)) return st;
  fits_get_num_hdus(f, &nh, &st);
  for (int i = 1; i <= nh && !st; i++) {
    fits_movabs_hdu(f, i, nullptr, &st);
    fits_verify_chksum(f, &dok, &hok, &st);
    if (!st && (dok != 1 || hok != 1)) st = WRITE_ERROR;
  }
  if (!st && nh != 1 + (int)ds.ntables()) st = WRITE_ERROR;
  int s2 = 0;
  fits_close_file(f, &s2);
  return st ? st : s2;
}
int op_read(const std::string &path, DS &ds) {
  oi_fits oi; memset(&oi, 0x3C, sizeof oi);
  int st = 0;
  int rc = read_oi_fits(path.c_str(), &oi, &st);
  if (rc != st) report("MISMATCH return value %d, status %d", rc, st);
  if (st) return st;
  ds = from_oi(&oi);
  free_oi_fits(&oi);
  return 0;
}
// mode bit 0: read arrays/wavelengths/corrs by name instead of sequentially;
// mode bit 1: read kinds in reverse order; bit 2: rewind between kinds through movabs
int op_read_tables(const std::string &path, DS &ds, int mode) {
  int st = 0, ht;
  fitsfile *f = nullptr;
  if (fits_open_file(&f, path.c_str(), READONLY, &st)) return st;
  oi_header h; memset(&h, 0x3C, sizeof h);
  oi_fits oi; memset(&oi, 0, sizeof oi);
  std::vector<int> kinds = {0, 1, 2, 3, 4, 5, 6, 7, 8};
  if (mode & 2) std::reverse(kinds.begin(), kinds.end());
  read_oi_header(f, &oi.header, &st);
  std::vector<std::string> an, wn, cn;
  for (int k : kinds) {
    if (st) break;
    fits_movabs_hdu(f, 1, &ht, &st);
    if (st) break;
    if (k == 0) { oi_target t; memset(&t, 0x3C, sizeof t); if (!read_oi_target(f, &t, &st)) oi.targets = t; continue; }
    for (;;) {
      fits_write_errmark();
      bool end = false;
#define SEQ(K, TYPE, FN, LIST) \
      if (k == K) { TYPE *p = (TYPE *)malloc(sizeof(TYPE)); memset(p, 0x3C, sizeof *p); if (FN(f, p, &st)) { end = true; free(p); } else oi.LIST = g_list_append(oi.LIST, p); }
      SEQ(1, oi_array, read_next_oi_array, arrayList)
      SEQ(2, oi_wavelength, read_next_oi_wavelength, wavelengthList)
      SEQ(3, oi_corr, read_next_oi_corr, corrList)
      SEQ(4, oi_inspol, read_next_oi_inspol, inspolList)
      SEQ(5, oi_vis, read_next_oi_vis, visList)
      SEQ(6, oi_vis2, read_next_oi_vis2, vis2List)
      SEQ(7, oi_t3, read_next_oi_t3, t3List)
      SEQ(8, oi_flux, read_next_oi_flux, fluxList)
#undef SEQ
      if (end) break;
    }
    if (st == END_OF_FILE) { st = 0; fits_clear_errmark(); }
    else if (st == 0) fits_clear_errmark();
  }
  if (!st && (mode & 1)) {
    // the same tables, fetched by name, in reverse order
    std::vector<GList *> L;
    auto rev = [](GList *l) { std::vector<void *> v; for (; l; l = l->next) v.push_back(l->data); std::reverse(v.begin(), v.end()); return v; };
    for (void *q : rev(oi.arrayList)) { oi_array a, *o = (oi_array *)q; memset(&a, 0x3C, sizeof a); if (read_oi_array(f, o->arrname, &a, &st)) break; if (dump_arr(from_arr(&a)) != dump_arr(from_arr(o))) report_text("BYNAME", "array <" + std::string(o->arrname) + "> read by name differs: " + diff(dump_arr(from_arr(o)), dump_arr(from_arr(&a)))); free_oi_array(&a); }
    for (void *q : rev(oi.wavelengthList)) { oi_wavelength a, *o = (oi_wavelength *)q; memset(&a, 0x3C, sizeof a); if (read_oi_wavelength(f, o->insname, &a, &st)) break; if (dump_wav(from_wav(&a)) != dump_wav(from_wav(o))) report_text("BYNAME", "wavelength <" + std::string(o->insname) + "> read by name differs"); free_oi_wavelength(&a); }
    for (void *q : rev(oi.corrList)) { oi_corr a, *o = (oi_corr *)q; memset(&a, 0x3C, sizeof a); if (read_oi_corr(f, o->corrname, &a, &st)) break; if (dump_corr(from_corr(&a)) != dump_corr(from_corr(o))) report_text("BYNAME", "corr <" + std::string(o->corrname) + "> read by name differs"); free_oi_corr(&a); }
    if (!st) {
      // a name that is not there must be refused
      fits_write_errmark();
      fflush(stdout); printf("PROBE\n"); fflush(stdout); fprintf(stderr, "PROBE\n");
      char none[] = "no such name"; oi_array a; memset(&a, 0x3C, sizeof a);
      int s2 = 0; if (read_oi_array(f, none, &a, &s2) == 0) report_text("BYNAME", "array with an absent name was found");
      s2 = 0; oi_wavelength w; if (read_oi_wavelength(f, none, &w, &s2) == 0) report_text("BYNAME", "wavelength table with an absent name was found");
      s2 = 0; oi_corr c; if (read_oi_corr(f, none, &c, &s2) == 0) report_text("BYNAME", "correlation table with an absent name was found");
      fits_clear_errmark();
    }
  }
  int st2 = st; fits_close_file(f, &st2);
  if (!st) st = st2;
  if (st) return st;
  ds = from_oi(&oi);
  free_oi_target(&oi.targets);
#define FREE(TYPE, LIST) for (GList *l = oi.LIST; l; l = l->next) { free_##TYPE((TYPE *)l->data); free(l->data); } g_list_free(oi.LIST);
  FREE(oi_array, arrayList) FREE(oi_wavelength, wavelengthList) FREE(oi_corr, corrList) FREE(oi_inspol, inspolList)
  FREE(oi_vis, visList) FREE(oi_vis2, vis2List) FREE(oi_t3, t3List) FREE(oi_flux, fluxList)
#undef FREE
  return 0;
}
int op_read_named(const std::string &path, const std::vector<std::pair<int, std::string>> &names, bool mixed) {
  int st = 0, ht;
  fitsfile *f = nullptr;
  if (fits_open_file(&f, path.c_str(), READONLY, &st)) return 1;
  int bad = 0, i = 0;
  for (auto &n : names) {
    st = 0;
    std::vector<char> nm(n.second.begin(), n.second.end()); nm.push_back(0);
    if (mixed && i++ % 3 == 2) {       // sequential reading from wherever the last look-up left off
      oi_vis2 v; memset(&v, 0x3C, sizeof v);
      if (!read_next_oi_vis2(f, &v, &st)) free_oi_vis2(&v);
      else { bad++; st = 0; fits_clear_errmsg(); fits_movabs_hdu(f, 1, &ht, &st); st = 0; }
    }
    if (n.first == 0) { oi_array a; memset(&a, 0x3C, sizeof a); if (!read_oi_array(f, nm.data(), &a, &st)) free_oi_array(&a); }
    else if (n.first == 1) { oi_wavelength a; memset(&a, 0x3C, sizeof a); if (!read_oi_wavelength(f, nm.data(), &a, &st)) free_oi_wavelength(&a); }
    else { oi_corr a; memset(&a, 0x3C, sizeof a); if (!read_oi_corr(f, nm.data(), &a, &st)) free_oi_corr(&a); }
    if (st) { bad++; fits_clear_errmsg(); }
  }
  st = 0;
  fits_close_file(f, &st);
  return bad || st;
}
std::string blob(const DS &ds) { char b[32]; snprintf(b, sizeof b, "%016llx", (unsigned long long)fnvs(dump(ds))); return b; }

std::string today(int64_t clock) {
  time_t t = (time_t)clock; struct tm tm; gmtime_r(&t, &tm);
  char b[64]; strftime(b, sizeof b, "%Y-%m-%dT%H:%M:%S", &tm);
  return b;
}
// the file must decode to exactly `want', with good checksums everywhere and a
// creation date inside [clock0, clock1]
// a table the library wrote has exactly the columns (of the standard's types
// and units) and keywords that its revision and its content call for
static std::string nonstandard(const HduInfo &h) {
  static const std::map<std::string, const char *> spec = {
    {"OI_ARRAY", "TEL_NAME 16A - STA_NAME 16A - STA_INDEX 1I - DIAMETER 1E m STAXYZ 3D m FOV 1D arcsec FOVTYPE 6A -"},
    {"OI_TARGET", "TARGET_ID 1I - TARGET 32A - RAEP0 1D deg DECEP0 1D deg EQUINOX 1E yr RA_ERR 1D deg DEC_ERR 1D deg SYSVEL 1D m/s VELTYP 8A - VELDEF 8A - PMRA 1D deg/yr PMDEC 1D deg/yr PMRA_ERR 1D deg/yr PMDEC_ERR 1D deg/yr PARALLAX 1E deg PARA_ERR 1E deg SPECTYP 32A - [CATEGORY 3A -"},
    {"OI_WAVELENGTH", "EFF_WAVE 1E m EFF_BAND 1E m"},
    {"OI_CORR", "IINDX 1J - JINDX 1J - CORR 1D -"},
    {"OI_INSPOL", "TARGET_ID 1I - INSNAME 70A - MJD_OBS 1D day MJD_END 1D day JXX *C - JYY *C - JXY *C - JYX *C - STA_INDEX 1I -"},
    {"OI_VIS", "TARGET_ID 1I - TIME 1D s MJD 1D day INT_TIME 1D s VISAMP *D ? VISAMPERR *D ? VISPHI *D deg VISPHIERR *D deg UCOORD 1D m VCOORD 1D m STA_INDEX 2I - FLAG *L - +CORRINDX_VISAMP 1J - +CORRINDX_VISPHI 1J - [VISREFMAP #L - [RVIS *D ? [RVISERR *D ? [IVIS *D ? [IVISERR *D ? +=RVIS=CORRINDX_RVIS 1J - +=RVIS=CORRINDX_IVIS 1J -"},
    {"OI_VIS2", "TARGET_ID 1I - TIME 1D s MJD 1D day INT_TIME 1D s VIS2DATA *D - VIS2ERR *D - UCOORD 1D m VCOORD 1D m STA_INDEX 2I - FLAG *L - +CORRINDX_VIS2DATA 1J -"},
    {"OI_T3", "TARGET_ID 1I - TIME 1D s MJD 1D day INT_TIME 1D s T3AMP *D - T3AMPERR *D - T3PHI *D deg T3PHIERR *D deg U1COORD 1D m V1COORD 1D m U2COORD 1D m V2COORD 1D m STA_INDEX 3I - FLAG *L - +CORRINDX_T3AMP 1J - +CORRINDX_T3PHI 1J -"},
    {"OI_FLUX", "TARGET_ID 1I - MJD 1D day INT_TIME 1D s FLUXDATA *D ? FLUXERR *D ? FLAG *L - +CORRINDX_FLUXDATA 1J - @STA_INDEX 1I -"}};
  auto it = spec.find(h.extname);
  if (it == spec.end()) return h.extname.empty() ? "" : "table " + h.extname + " was never given";
  auto kv = [&](const char *k) { auto i = h.kv.find(k); return i == h.kv.end() ? std::string() : i->second; };
  for (const char *k : {"CORRNAME", "ARRNAME", "AMPTYP", "PHITYP", "FOVTYPE"}) if (h.kv.count(k) && kv(k).empty() && (h.extname == "OI_VIS" || h.extname == "OI_VIS2" || h.extname == "OI_T3" || h.extname == "OI_FLUX")) return h.extname + " has an empty " + k;
  if (h.extname == "OI_FLUX" && h.kv.count("FOV") && !h.kv.count("FOVTYPE")) return "OI_FLUX has FOV without FOVTYPE";
  std::string nw; for (const char *c : {"VISAMP", "VIS2DATA", "T3AMP", "FLUXDATA", "JXX"}) { auto i = h.col.find(c); if (i != h.col.end()) nw = i->second.first.substr(0, i->second.first.size() - 1); }
  std::istringstream in(it->second);
  std::string c, t, u; size_t n = 0;
  while (in >> c >> t >> u) {
    bool must = true, may = true;
    if (c[0] == '[') { c.erase(0, 1); must = false; }
    else if (c.compare(0, 7, "+=RVIS=") == 0) { c.erase(0, 7); must = may = h.kv.count("CORRNAME") && h.col.count("RVIS"); }
    else if (c[0] == '+') { c.erase(0, 1); must = may = h.kv.count("CORRNAME"); }
    else if (c[0] == '@') { c.erase(0, 1); must = may = h.kv.count("ARRNAME"); }
    auto i = h.col.find(c);
    if (i == h.col.end()) { if (must) return h.extname + " lacks column " + c; continue; }
    if (!may) return h.extname + " has a column " + c + " that its content does not call for";
    n++;
    if (t[0] == '*') t = nw + t[1];
    if (t[0] == '#') t = std::to_string(atol(nw.c_str()) * atol(nw.c_str())) + t[1];
    if (i->second.first != t) return h.extname + ": column " + c + " is of type " + i->second.first + " instead of " + t;
    if (u != "?" && i->second.second != (u == "-" ? "" : u)) return h.extname + ": column " + c + " has unit <" + i->second.second + "> instead of <" + (u == "-" ? "" : u) + ">";
  }
  if (n != h.col.size()) for (auto &q : h.col) if ((std::string(" ") + it->second).find(q.first + " ") == std::string::npos) return h.extname + " has an unknown column " + q.first;
  return "";
}
std::string check_file(const std::string &path, const DS &want, int64_t clock0, int64_t clock1, bool exact, int ev0) {
  if (!disk_exists(path)) return "no file " + path;
  Decoded D = fits_decode(disk_get(path));
  if (!D.ok) return "file is not a well-formed OIFITS file: " + D.err;
  std::string d = exact ? diff(dump(want), dump(D.ds)) : merge_diff(want, D.ds);
  if (!d.empty()) return d;
  for (auto &h : D.hdu) if (h.datasum != 1 || h.checksum != 1) return "table " + h.extname + " has " + (h.datasum < 0 || h.checksum < 0 ? "a wrong" : "no") + " checksum";
  for (auto &h : D.hdu) { std::string e = nonstandard(h); if (!e.empty()) return e; }
  std::map<std::string, int> ev;
  for (auto &h : D.hdu) if (h.extname.compare(0, 3, "OI_") == 0 && h.extname != "OI_TARGET") {
    auto i = h.kv.find("EXTVER");
    int n = ev0 + ev[h.extname]++;
    if (i == h.kv.end() || atoi(i->second.c_str()) != n) return "table " + h.extname + " number " + std::to_string(n) + " has EXTVER <" + (i == h.kv.end() ? "none" : i->second) + ">";
  }
  if (clock0 > clock1) std::swap(clock0, clock1);
  std::string dt = D.ds.h[H_DATE];
  std::string lo = today(clock0), hi = today(clock1);
  size_t n = dt.size();
  if (n < 10 || dt < lo.substr(0, n) || dt > hi.substr(0, n)) return "creation date <" + dt + "> outside " + lo + " .. " + hi;
  return "";
}
bool clean_messages(const ProcResult &p, std::string *why) {
  // messages after the mark come from deliberate look-ups of absent names
  std::string o = p.out.substr(0, p.out.find("PROBE\n")), e = p.err.substr(0, p.err.find("PROBE\n"));
  for (const char *m : {"checksum verification failed", "Skipping bad", "CFITSIO error", "FITSIO status"}) {
    if (o.find(m) != std::string::npos || e.find(m) != std::string::npos) { *why = m; return false; }
  }
  return true;
}

// tables given up with a message "Skipping bad OI_X (datatype conversion
// overflow)" -- the way cfitsio reports some failed reads -- may be missing;
// everything else must be there
static int count_in(const std::string &s, const std::string &m) { int n = 0; for (size_t p = s.find(m); p != std::string::npos; p = s.find(m, p + 1)) n++; return n; }
template <class T, class F> static bool subseq(const std::vector<T> &want, const std::vector<T> &got, size_t skipped, F f) {
  if (got.size() + skipped != want.size()) return false;
  size_t i = 0;
  for (auto &w : want) if (i < got.size() && f(w) == f(got[i])) i++;
  return i == got.size();
}
std::string diff_skipped(const DS &want, const DS &got, const DumpOpt &o) {
  fflush(stderr);
  std::string e(1 << 16, 0);
  ssize_t n = pread(2, &e[0], e.size(), 0);
  e.resize(n > 0 ? (size_t)n : 0);
  std::string d = diff(dump(want, o), dump(got, o));
  if (d.empty() || count_in(e, "(datatype conversion overflow)") == 0) return d;
  auto sk = [&](const std::string &x) { return (size_t)count_in(e, "Skipping bad " + x + " (datatype conversion overflow)"); };
  DS g = got;
  if (!subseq(want.c, got.c, sk("OI_CORR"), dump_corr)) return d;
  if (!subseq(want.p, got.p, sk("OI_INSPOL"), dump_pol)) return d;
  for (int k = 0; k < NKIND; k++) { if (!subseq(want.d[k], got.d[k], sk(kind_ext[k]), dump_tab)) return d; g.d[k] = want.d[k]; }
  g.c = want.c; g.p = want.p;
  DumpOpt p = o; if (want.h[H_CONTENT] != "OIFITS2") p.header = false;
  return diff(dump(want, p), dump(g, p));
}

// got is want but for optional keywords read as absent: the keyword search of cfitsio turns a read error into "no such keyword"
bool only_lost_keywords(const DS &want, const DS &got, const DumpOpt &o) {
  DS w = want; DumpOpt p = o;
  for (int i = 0; i < H_N; i++) if (got.h[i].empty()) w.h[i].clear();
  if (want.h[H_CONTENT] != got.h[H_CONTENT]) p.header = false;
  for (int k = 0; k < NKIND; k++) {
    if (w.d[k].size() != got.d[k].size()) return false;
    for (size_t i = 0; i < w.d[k].size(); i++) {
      Tab &a = w.d[k][i]; const Tab &b = got.d[k][i];
      if (b.arr.empty()) { a.arr.clear(); if (k == FLUX) for (size_t r = 0; r < a.rec.size() && r < b.rec.size(); r++) a.rec[r].sta[0] = b.rec[r].sta[0]; }
      if (b.corr.empty()) a.corr.clear();
      if (b.amptyp.empty()) a.amptyp.clear();
      if (b.phityp.empty()) a.phityp.clear();
      if (b.ampunit.empty()) a.ampunit.clear();
      if (b.amporder == -1) a.amporder = -1;
      if (b.phiorder == -1) a.phiorder = -1;
      if (b.fovtype.empty()) { a.fovtype.clear(); a.fov = b.fov; }
      if (std::isnan(b.fov)) a.fov = b.fov;
    }
  }
  return dump(w, p) == dump(got, p);
}
