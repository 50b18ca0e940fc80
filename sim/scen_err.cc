// C20: errors are handed on, reported once where wanted, and stop everything.
#include "scen.h"
#include <unistd.h>
#include <memory>
#define S std::to_string
extern "C" { extern int oi_hush_errors; }

namespace {
std::string text_since(int fd, off_t from) {
  off_t n = lseek(fd, 0, SEEK_END);
  if (n < from) n = from;
  std::string s((size_t)(n - from), 0);
  if (!s.empty()) { ssize_t k = pread(fd, &s[0], s.size(), from); s.resize(k > 0 ? (size_t)k : 0); }
  return s;
}
off_t end_of(int fd) { fflush(stdout); fflush(stderr); return lseek(fd, 0, SEEK_END); }
int64_t fired() { int64_t n = 0; for (int i = 0; i < W->nfaults; i++) n += W->faults[i].fired; return n + W->full_disk_events; }
int count(const std::string &s, const char *w) { int n = 0; for (size_t q = s.find(w); q != std::string::npos; q = s.find(w, q + 1)) n++; return n; }

struct Session { fitsfile *f = nullptr; bool wr = false; std::string path; bool sound = true; };
struct Ctx {
  Rng r; std::string log, viol;
  explicit Ctx(uint64_t s) : r(s) {}
  // one call of a library function; mem: what it may fill in; seq: END_OF_FILE means "no more tables"
  int call(const char *fn, fitsfile *f, bool seq, bool whole, bool sound, void *mem, size_t n, const std::function<int(int *)> &go) {
    static const int IN[] = {104, 107, 108, 112, 202, 204, 207, 219, 301, 412, -11, 1};
    int in = r.chance(1, 4) ? IN[r.range(0, 11)] : 0, st = in, h0 = 0, h1 = 0;
    int hush = oi_hush_errors = r.chance(1, 3) ? 1 : 0;
    if (hush && r.chance(1, 2)) hush = oi_hush_errors = (int)r.range(2, 9);
    std::vector<char> was((char *)mem, (char *)mem + n);
    fits_clear_errmsg();
    if (f) fits_get_hdu_num(f, &h0);
    off_t o = end_of(1), e = end_of(2);
    uint64_t ops = W->total_ops; int64_t ff = fired();
    int rc = go(&st);
    end_of(1);
    std::string out = text_since(1, o), err = text_since(2, e);
    bool faulty = fired() != ff;
    if (f) fits_get_hdu_num(f, &h1);
    log += std::string(fn) + " " + S(in) + "->" + S(st) + (hush ? "h" : "") + (faulty ? "!" : "") + (err.empty() ? "" : "E") + ";";
    auto bad = [&](const char *cls, const std::string &t) { if (viol.empty()) viol = std::string(cls) + " " + fn + " (status on entry " + S(in) + ", on return " + S(st) + (hush ? ", hushed" : "") + "): " + t; };
    if (rc != st) bad("status-return-mismatch", "returned " + S(rc));
    if (oi_hush_errors != hush) bad("hush-changed", "oi_hush_errors is now " + S(oi_hush_errors));
    if (in) {
      if (st != in) bad("inherited-status-changed", "an error set before the call was changed");
      else if (W->total_ops != ops) bad("worked-despite-error", "it made " + S((int64_t)(W->total_ops - ops)) + " I/O operations though an error was set");
      else if (n && memcmp(mem, was.data(), n)) bad("worked-despite-error", "it changed what it was given though an error was set");
      else if (h0 != h1) bad("worked-despite-error", "it moved to HDU " + S(h1) + " though an error was set");
      else if (!out.empty() || !err.empty()) bad("worked-despite-error", "it printed: " + slice(out + err));
      return st;
    }
    bool said = err.find("FITSIO error") != std::string::npos || err.find("FITSIO status") != std::string::npos;
    if (hush && said) bad("hushed-error-printed", slice(err));
    if (st && !hush && !(seq && st == END_OF_FILE)) {
      if (err.find("FITSIO error in " + std::string(fn) + ":") == std::string::npos || err.find("FITSIO status = " + S(st)) == std::string::npos) bad("error-not-reported", "stderr holds: " + slice(err));
    }
    if (st == END_OF_FILE && seq && said) bad("end-reported-as-error", slice(err));
    if (!st && !whole && said) bad("spurious-error-report", slice(err));
    if (!st && whole && !hush && count(err, "FITSIO error in ") != count(err, "Skipping bad ")) bad("spurious-error-report", slice(err));
    if (sound && !faulty) {
      if (st && !(seq && st == END_OF_FILE)) bad("spurious-failure", "nothing was wrong: " + slice(err));
      if (!err.empty()) bad("spurious-error-report", "nothing was wrong, but stderr holds: " + slice(err));
      char m[FLEN_ERRMSG]; if (!st && fits_read_errmsg(m)) bad("error-left-behind", std::string("nothing was wrong, but CFITSIO's error stack holds: ") + m);
    }
    return st;
  }
};
template <class T, class F> int rd(Ctx &c, const char *fn, Session &s, bool seq, F go) {
  T *t = (T *)malloc(sizeof(T)); memset((void *)t, 0x3C, sizeof *t);
  return c.call(fn, s.f, seq, false, s.sound, t, sizeof *t, [&](int *st) { return go(t, st); });   // not freed: leaks are C11's business
}
}  // namespace

void c20(Plan &P, RunResult &R) {
  Inputs I = gen_inputs(P, R, 2, 1, 3);
  DS wds = gen_ds(P, "w.", gen_opt(P, "wg", false));
  int nst = (int)P.pick("steps", 2, 14);
  uint64_t sched = P.rng("sched").next();
  std::vector<std::set<std::string>> names(3);
  for (auto &d : I.ds) { for (auto &x : d.a) names[0].insert(x.name); for (auto &x : d.w) names[1].insert(x.name); for (auto &x : d.c) names[2].insert(x.name); }
  std::vector<std::vector<std::string>> nm; for (auto &q : names) { nm.emplace_back(q.begin(), q.end()); nm.back().push_back("no such"); }
  disk_put("/sim/there.fits", std::vector<uint8_t>(100, 'x'));
  DiskImage img = disk_image();
  W->step_budget = 4000000;
  auto body = [&]() -> int {
    Ctx c(sched);
    Session s, w;
    oi_fits oi; to_oi(wds, &oi);
    int nout = 0;
    auto shut = [&](Session &x) { if (x.f) { int st = 0; fits_close_file(x.f, &st); x.f = nullptr; } };
    for (int i = 0; i < nst && c.viol.empty(); i++) {
      int what = (int)c.r.range(0, 9);
      size_t fi = (size_t)c.r.range(0, (int64_t)I.path.size() - 1);
      if (what == 0) {                                   // whole file
        std::string p = c.r.chance(1, 6) ? "/sim/none.fits" : I.path[fi];
        oi_fits o; memset(&o, 0x3C, sizeof o);
        c.call("read_oi_fits", nullptr, false, true, !I.damaged && p != "/sim/none.fits", &o, sizeof o, [&](int *st) { return read_oi_fits(p.c_str(), &o, st); });
      } else if (what == 1) {
        std::string p = c.r.chance(1, 4) ? "/sim/there.fits" : "/sim/out" + S(nout++) + ".fits";
        oi_fits copy = oi;
        c.call("write_oi_fits", nullptr, false, false, p != "/sim/there.fits", &oi, sizeof oi, [&](int *st) { return write_oi_fits(p.c_str(), oi, st); });
        if (memcmp(&copy, &oi, sizeof oi) && c.viol.empty()) c.viol = "input-changed write_oi_fits changed the dataset it was given";
      } else if (what <= 6) {                            // single tables read
        if (!s.f || c.r.chance(1, 8)) { shut(s); int st = 0; s.path = I.path[fi]; s.sound = !I.damaged; if (fits_open_file(&s.f, s.path.c_str(), READONLY, &st)) { s.f = nullptr; continue; } }
        if (c.r.chance(1, 5)) { int st = 0; fits_movabs_hdu(s.f, 1, nullptr, &st); if (st) { shut(s); continue; } }
        int st = 0;
        const bool sound0 = s.sound;
        auto byname = [&](int q) { std::string n = nm[(size_t)q][(size_t)c.r.range(0, (int64_t)nm[(size_t)q].size() - 1)]; s.sound = false; return n; };   // the table may be in another file
        switch (c.r.range(0, 12)) {
          case 0: st = rd<oi_header>(c, "read_oi_header", s, false, [&](oi_header *t, int *x) { return read_oi_header(s.f, t, x); }); break;
          case 1: { int hd = 0, z = 0; fits_movabs_hdu(s.f, 1, &hd, &z); st = rd<oi_target>(c, "read_oi_target", s, false, [&](oi_target *t, int *x) { return read_oi_target(s.f, t, x); }); break; }
          case 2: { std::string n = byname(0); st = rd<oi_array>(c, "read_oi_array", s, false, [&](oi_array *t, int *x) { return read_oi_array(s.f, (char *)n.c_str(), t, x); }); break; }
          case 3: { std::string n = byname(1); st = rd<oi_wavelength>(c, "read_oi_wavelength", s, false, [&](oi_wavelength *t, int *x) { return read_oi_wavelength(s.f, (char *)n.c_str(), t, x); }); break; }
          case 4: { std::string n = byname(2); st = rd<oi_corr>(c, "read_oi_corr", s, false, [&](oi_corr *t, int *x) { return read_oi_corr(s.f, (char *)n.c_str(), t, x); }); break; }
          case 5: st = rd<oi_array>(c, "read_next_oi_array", s, true, [&](oi_array *t, int *x) { return read_next_oi_array(s.f, t, x); }); break;
          case 6: st = rd<oi_wavelength>(c, "read_next_oi_wavelength", s, true, [&](oi_wavelength *t, int *x) { return read_next_oi_wavelength(s.f, t, x); }); break;
          case 7: st = rd<oi_corr>(c, "read_next_oi_corr", s, true, [&](oi_corr *t, int *x) { return read_next_oi_corr(s.f, t, x); }); break;
          case 8: st = rd<oi_inspol>(c, "read_next_oi_inspol", s, true, [&](oi_inspol *t, int *x) { return read_next_oi_inspol(s.f, t, x); }); break;
          case 9: st = rd<oi_vis>(c, "read_next_oi_vis", s, true, [&](oi_vis *t, int *x) { return read_next_oi_vis(s.f, t, x); }); break;
          case 10: st = rd<oi_vis2>(c, "read_next_oi_vis2", s, true, [&](oi_vis2 *t, int *x) { return read_next_oi_vis2(s.f, t, x); }); break;
          case 11: st = rd<oi_t3>(c, "read_next_oi_t3", s, true, [&](oi_t3 *t, int *x) { return read_next_oi_t3(s.f, t, x); }); break;
          default: st = rd<oi_flux>(c, "read_next_oi_flux", s, true, [&](oi_flux *t, int *x) { return read_next_oi_flux(s.f, t, x); });
        }
        s.sound = sound0;
        if (st && st != END_OF_FILE) { if (c.r.chance(1, 2)) shut(s); else s.sound = false; }
        else if (fired()) s.sound = false;              // what was not fetched properly may show later
      } else {                                           // single tables written
        if (!w.f) { int st = 0; if (fits_create_file(&w.f, ("/sim/tab" + S(nout++) + ".fits").c_str(), &st)) { w.f = nullptr; continue; } w.sound = !fired(); st = c.call("write_oi_header", nullptr, false, false, w.sound, nullptr, 0, [&](int *x) { return write_oi_header(w.f, oi.header, x); }); if (st) { shut(w); continue; } }
        GList *L[] = {nullptr, nullptr, oi.arrayList, oi.wavelengthList, oi.corrList, oi.inspolList, oi.visList, oi.vis2List, oi.t3List, oi.fluxList};
        int k = (int)c.r.range(1, 9), st = 0;
        GList *l = L[k];
        if (k > 1 && !l) continue;
        int ev = i + 1;
        w.sound = w.sound && !fired();
        switch (k) {
#define WR(N, FN, ARG) case N: st = c.call(#FN, w.f, false, false, w.sound, nullptr, 0, [&](int *x) { return FN ARG; }); break;
          WR(1, write_oi_target, (w.f, oi.targets, x))
          WR(2, write_oi_array, (w.f, *(oi_array *)l->data, ev, x))
          WR(3, write_oi_wavelength, (w.f, *(oi_wavelength *)l->data, ev, x))
          WR(4, write_oi_corr, (w.f, *(oi_corr *)l->data, ev, x))
          WR(5, write_oi_inspol, (w.f, *(oi_inspol *)l->data, ev, x))
          WR(6, write_oi_vis, (w.f, *(oi_vis *)l->data, ev, x))
          WR(7, write_oi_vis2, (w.f, *(oi_vis2 *)l->data, ev, x))
          WR(8, write_oi_t3, (w.f, *(oi_t3 *)l->data, ev, x))
          WR(9, write_oi_flux, (w.f, *(oi_flux *)l->data, ev, x))
#undef WR
        }
        if (st) shut(w);
      }
    }
    shut(s); shut(w);
    report_text("LOG", c.log);
    if (!c.viol.empty()) report_text("VIOL", c.viol);
    return 0;
  };
  ProcResult dry;
  for (int round = 0; round < 4; round++) {
    disk_restore(img);
    if (round) arm(choose_faults(P, "r" + S(round), 0, dry, FS_IO | FS_SEEK, 3));
    ProcResult p = runp(R, 0, body);
    if (round) disarm(R); else dry = p;
    if (crashed_badly(p)) { R.viol("reporting-abnormal", "calls of the library " + p.describe() + ": " + slice(p.err)); return; }
    std::string v = rep_text(p, "VIOL"), lg = rep_text(p, "LOG");
    R.states.push_back(fnvs(lg));
    if (!v.empty()) { size_t b = v.find(' '); R.viol(v.substr(0, b), v.substr(b + 1)); return; }
    R.cnt["library calls judged"] += count(lg, ";");
    for (size_t q = 0, e; (e = lg.find(';', q)) != std::string::npos; q = e + 1) {
      std::string x = lg.substr(q, e - q);
      bool in = x.find(" 0->") == std::string::npos, ok = x.find("->0") != std::string::npos;
      R.cnt[in ? "calls with an error already set" : ok ? "calls that succeeded" : x.find("->107") != std::string::npos ? "calls that met the end of the file" : x.find('h', x.find("->")) != std::string::npos ? "calls that failed, hushed" : "calls that failed and said so"]++;
    }
  }
  // a tool that fails says so
  disk_restore(img);
  std::string name;
  std::vector<std::string> args = some_tool(P, "t", I.path, P.chance("t.there", 1, 6) ? "/sim/there.fits" : "/sim/out.fits", name);
  auto run = [&]() -> int { return tool(name.c_str(), args); };
  ProcResult td = runp(R, 0, run);
  for (int round = 0; round < 4; round++) {
    ProcResult t = td;
    if (round) { disk_restore(img); arm(choose_faults(P, "t" + S(round), 0, td, FS_IO | FS_SEEK, 2)); t = runp(R, 0, run); disarm(R); }
    if (crashed_badly(t)) { R.viol("reporting-abnormal", name + " " + t.describe() + ": " + slice(t.err)); return; }
    if (!t.exited) continue;
    if (t.code) {
      R.cnt["failed tool runs"]++;
      bool said = !t.err.empty() || (round && !td.code ? td.out.compare(0, t.out.size(), t.out) != 0 : !t.out.empty());
      if (!said) { R.viol("tool-failed-silently", name + " exited with " + S(t.code) + " without saying why; it printed: " + slice(t.out)); return; }
    } else R.cnt["successful tool runs"]++;
  }
}
