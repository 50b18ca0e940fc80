// Scenarios about files: exact writes, exact reads, truncation and crashes,
// altered bytes, bounded steps, no clobbering.
#include "scen.h"
#include <algorithm>

static std::string S(int64_t v) { return std::to_string((long long)v); }
GenOpt gen_opt(Plan &P, const std::string &k, bool allow_v1) {
  GenOpt o;
  o.big = P.chance(k + ".big", 1, 6);
  o.v1 = allow_v1 && P.chance(k + ".v1", 1, 3);
  o.lowprec = o.v1 && P.chance(k + ".low", 1, 2);
  return o;
}
EncOpt enc_opt(Plan &P, const std::string &k) {
  EncOpt e;
  e.seed = (uint64_t)P.pick(k + ".seed", 0, 1 << 20);
  e.shuffle_hdu = P.chance(k + ".shufhdu", 1, 2);
  e.shuffle_col = P.chance(k + ".shufcol", 1, 2);
  e.foreign = P.chance(k + ".foreign", 1, 3);
  e.checksums = !P.chance(k + ".nosum", 1, 4);
  e.types = P.chance(k + ".types", 1, 3);
  e.lowercase = P.chance(k + ".lower", 1, 6);
  e.extra_cols = P.chance(k + ".extra", 1, 4);
  e.extver = !P.chance(k + ".noextver", 1, 4);
  return e;
}
// an unexpected end of a process; "" if it ended in an acceptable way
std::string bad_end(const ProcResult &p) { return looks_bad(p) ? p.describe() : ""; }
std::string slice(const std::string &s, size_t n) { return s.size() > n ? s.substr(0, n) : s; }

// ---------------------------------------------------------------- C01
void c01(Plan &P, RunResult &R) {
  GenOpt go = gen_opt(P, "g", false);
  DS ds = gen_ds(P, "d.", go);
  int mode = (int)P.pick("mode", 0, 5);
  const std::string out = "/sim/out.fits";
  DS want = as_written(ds), ds2, want2;
  uint64_t order = 0;
  EncOpt eo;
  if (mode == 1) order = (uint64_t)P.pick("order", 0, (1 << 30) - 1);
  if (mode < 3 && P.chance("oldrevs", 1, 4)) {      // the latest revisions are written whatever the structs say
    Rng r = P.rng("oldrevr");
    auto f = [&](int &v) { if (r.chance(1, 2)) v = (int)r.range(0, 3); };
    f(ds.trev); for (auto &x : ds.a) f(x.rev); for (auto &x : ds.w) f(x.rev); for (auto &x : ds.c) f(x.rev); for (auto &x : ds.p) f(x.rev);
    for (auto &q : ds.d) for (auto &T : q) f(T.rev);
    want = as_written(ds);
  }
  // a value the format cannot hold: the write must be reported as failed
  bool unfit = false;
  if (mode != 3 && mode != 4 && P.chance("unfit", 1, 20)) {
    Rng r = P.rng("unfitr");
    std::vector<int *> ids; std::vector<double *> keys;
    for (auto &x : ds.t) ids.push_back(&x.id);
    for (auto &x : ds.a) { for (auto &e : x.el) ids.push_back(&e.idx); for (double &c : x.c) keys.push_back(&c); }
    for (auto &x : ds.p) for (auto &q : x.rec) { ids.push_back(&q.tid); ids.push_back(&q.sta); }
    for (int k = 0; k < NKIND; k++) for (auto &T : ds.d[k]) {
      for (auto &q : T.rec) { ids.push_back(&q.tid); if (k != FLUX || !T.arr.empty()) for (int m = 0; m < NSTA[k]; m++) ids.push_back(&q.sta[m]); }
      if (k == FLUX && !T.fovtype.empty()) keys.push_back(&T.fov);
    }
    static const int ID[] = {32768, -32769, 40000, 65537, 1 << 30, INT32_MIN};
    static const double KV[] = {NAN, INFINITY, -INFINITY};
    if (!keys.empty() && r.chance(1, 3)) *keys[(size_t)r.range(0, (int64_t)keys.size() - 1)] = KV[r.range(0, 2)];
    else *ids[(size_t)r.range(0, (int64_t)ids.size() - 1)] = ID[r.range(0, 5)];
    unfit = true;
    want = as_written(ds);
    R.cnt["datasets with a value the format cannot hold"]++;
  }
  if (mode == 2) disk_put(out, std::vector<uint8_t>((size_t)P.pick("oldsize", 0, 20000), 'x'));
  if (mode == 3) {
    GenOpt g1 = go; g1.v1 = P.chance("v1", 1, 2);
    if (g1.v1) g1.lowprec = true;
    ds = gen_ds(P, "d.", g1);
    eo = enc_opt(P, "e");
    disk_put("/sim/in.fits", fits_encode(ds, eo));
    want = as_written(as_read(ds));
  }
  if (mode == 4) { ds2 = gen_ds(P, "d2.", go); want2 = as_written(ds2); }
  W->clock_step = P.pick("tick", 0, 2) == 2 ? P.pick("ticks", 0, 100000) : 0;
  int64_t c0 = W->clock;
  bool ca = P.chance("calloc", 1, 3);
  auto body = [&]() -> int {
    int st = 0;
    client_alloc = ca;
    if (mode == 0) st = op_write(ds, out);
    else if (mode == 1) st = op_write_tables(ds, out, order);
    else if (mode == 2) st = op_write(ds, "!" + out);
    else if (mode == 3) {
      oi_fits oi; memset(&oi, 0x3C, sizeof oi);
      if (read_oi_fits("/sim/in.fits", &oi, &st)) { report("RD:%d", st); return 0; }
      write_oi_fits(out.c_str(), oi, &st);
    } else if (mode == 4) {
      st = op_write(ds2, "/sim/other.fits");
      report("ST2:%d", st);
      st = op_write(ds, out);
    } else {
      oi_fits oi; to_oi(ds, &oi);          // the same dataset to two files: the structs must stay intact
      write_oi_fits("/sim/other.fits", oi, &st);
      report("ST2:%d", st);
      st = 0;
      write_oi_fits(out.c_str(), oi, &st);
    }
    report("ST:%d", st);
    return 0;
  };
  DiskImage img = disk_image();
  auto judge = [&](const ProcResult &p, bool faulty, const char *ctx) {
    std::string b = bad_end(p);
    if (!b.empty()) { R.viol(std::string("write-") + ctx + "-abnormal", "writer " + b); return; }
    if (p.crashed) return;
    if (p.rep.find("MISMATCH") != std::string::npos) { R.viol("status-return-mismatch", p.rep.substr(0, 200)); return; }
    if (rep_text(p, "RD").size()) { if (!faulty) R.viol("read-failed", "reading the source file failed with no fault: " + slice(p.err)); return; }
    std::string st = rep_text(p, "ST"), st2 = rep_text(p, "ST2");
    if (st.empty()) { R.viol("no-status", "writer did not report"); return; }
    R.cnt[st == "0" ? "writes reported successful" : "writes reported failed"]++;
    if (st == "0") {
      std::string d = check_file(out, want, c0, W->clock, true, mode == 1 ? first_extver(order) : 1);
      if (!d.empty()) R.viol(std::string("success-but-file-wrong-") + ctx, "write reported success but the file differs: " + d);
    } else if (!faulty && !unfit) R.viol("spurious-failure", "write failed with status " + st + " though the disk worked: " + slice(p.err));
    if (!st2.empty()) {
      if (st2 == "0") {
        std::string d = check_file("/sim/other.fits", mode == 5 ? want : want2, c0, W->clock);
        if (!d.empty()) R.viol(std::string("success-but-file-wrong-") + ctx, "first of two writes reported success but the file differs: " + d);
      } else if (!faulty && !unfit) R.viol("spurious-failure", "first write failed with status " + st2 + " though the disk worked: " + slice(p.err));
    }
  };
  ProcResult dry = runp(R, 0, body);
  uint64_t written = disk_exists(out) ? disk_get(out).size() : 0;
  judge(dry, false, "clean");
  if (!R.v.empty()) return;
  int fm = (int)P.pick("fmode", 0, 4);
  for (int round = 0; round < 4; round++) {
    std::string k = "r" + S(round);
    disk_restore(img);
    int m = round == 0 ? fm : (int)P.pick(k + ".fmode", 1, 4);
    if (m == 0) continue;
    if (m == 4) W->disk_free = P.pick(k + ".free", 0, (int64_t)written);
    else arm(choose_faults(P, k, 0, dry, m == 1 ? (FS_WRITE | FS_CLOSE) : m == 2 ? FS_IO : (FS_WRITE | FS_SHORT), 3));
    c0 = std::min(c0, W->clock);
    ProcResult p = runp(R, 0, body);
    W->disk_free = INT64_MAX;
    int64_t n = disarm(R);
    judge(p, n > 0, "faulty");
    if (!R.v.empty()) return;
  }
}

// ---------------------------------------------------------------- C02
void c02(Plan &P, RunResult &R) {
  GenOpt go = gen_opt(P, "g", true);
  go.wide = P.chance("wide", 1, 5);
  DS ds = gen_ds(P, "d.", go);
  EncOpt eo = enc_opt(P, "e");
  const std::string in = "/sim/in.fits";
  // tables of a later revision than this library knows are read, with a warning
  std::map<std::string, int> later;
  if (!go.v1 && P.chance("later", 1, 6)) {
    Rng r = P.rng("laterr");
    auto f = [&](int &v, const char *x) { if (r.chance(1, 3)) { v += (int)r.range(1, 2); later[x]++; } };
    f(ds.trev, "OI_TARGET"); for (auto &x : ds.a) f(x.rev, "OI_ARRAY"); for (auto &x : ds.w) f(x.rev, "OI_WAVELENGTH"); for (auto &x : ds.c) f(x.rev, "OI_CORR"); for (auto &x : ds.p) f(x.rev, "OI_INSPOL");
    for (int q = 0; q < NKIND; q++) for (auto &T : ds.d[q]) f(T.rev, kind_ext[q]);
  }
  const std::vector<uint8_t> whole = fits_encode(ds, eo);
  disk_put(in, whole);
  // widths of the name columns of the target table
  std::map<std::string, bool> odd;
  { Decoded D = fits_decode(whole); for (auto &h : D.hdu) if (h.extname == "OI_TARGET") for (const char *c : {"TARGET", "SPECTYP"}) for (auto &q : h.col) { std::string n = q.first; for (char &ch : n) ch = (char)toupper(ch); if (n == c) odd[c] = ds.trev >= 2 && q.second.first != "32A"; } }
  int mode = (int)P.pick("mode", 0, 3);          // 0,1: whole file; 2,3: table level
  int tm = (int)P.pick("tmode", 0, 3);
  // one table may be malformed: it must be left out, and named, and nothing else may suffer
  std::string badext;
  DS left = ds;
  if (mode < 2 && P.chance("malformed", 1, 3)) {
    int first = 1 + (int)ds.a.size() + (int)ds.w.size() + 1, last = (int)ds.ntables();
    if (first <= last) {
      eo.bad_table = (int)P.pick("bad.table", first, last);
      eo.bad_kind = (int)P.pick("bad.kind", BAD_COLUMN_NAME, BAD_TEXT_FOR_NUMBER);
      eo.bad_sel = (uint64_t)P.pick("bad.sel", 0, 1 << 20);
      std::vector<uint8_t> b = fits_encode(ds, eo);
      if (eo.bad_done) {
        disk_put(in, b);
        size_t i = (size_t)(eo.bad_table - first);
        if (i < ds.c.size()) { left.c.erase(left.c.begin() + (long)i); badext = "OI_CORR"; }
        else if ((i -= ds.c.size()) < ds.p.size()) { left.p.erase(left.p.begin() + (long)i); badext = "OI_INSPOL"; }
        else {
          i -= ds.p.size();
          for (int q = 0; q < NKIND && badext.empty(); q++) { if (i < ds.d[q].size()) { left.d[q].erase(left.d[q].begin() + (long)i); badext = kind_ext[q]; } else i -= ds.d[q].size(); }
        }
        static const char *bn[] = {"", "column missing", "keyword missing", "string column too wide", "vector column too short", "text where numbers belong"};
        R.cnt[std::string("files with a malformed table: ") + bn[eo.bad_kind]]++;
      }
    }
  }
  DS want = as_read(left);
  DumpOpt dop; dop.header = true;
  if (mode >= 2 && go.v1) dop.header = false;
  auto body = [&]() -> int {
    DS got;
    int st = mode < 2 ? op_read(in, got) : op_read_tables(in, got, tm);
    report("ST:%d", st);
    if (!st) { std::string d = diff_skipped(want, got, dop); report_text("DIFF", d); if (!d.empty() && only_lost_keywords(want, got, dop)) report("LOST:1"); }
    return 0;
  };
  auto judge = [&](const ProcResult &p, bool faulty) {
    const char *ctx = faulty ? "faulty" : "clean";
    std::string b = bad_end(p);
    if (!b.empty()) { R.viol(std::string("read-") + ctx + "-abnormal", "reader " + b); return; }
    if (p.rep.find("MISMATCH") != std::string::npos) { R.viol("status-return-mismatch", p.rep.substr(0, 200)); return; }
    std::string by = rep_text(p, "BYNAME");
    if (!by.empty() && !faulty) { R.viol("by-name", by); return; }
    std::string st = rep_text(p, "ST");
    R.cnt[st == "0" ? "reads reported successful" : "reads reported failed"]++;
    if (st == "0") {
      std::string d = rep_text(p, "DIFF"), why;
      // a table of this intact file was found structurally wrong: cfitsio took what it had in
      // its buffer after a failed read for the content of the file
      size_t other = 0; for (size_t q = p.err.find("Skipping bad "); q != std::string::npos; q = p.err.find("Skipping bad ", q + 1)) if (p.err.compare(p.err.find('(', q), 30, "(datatype conversion overflow)")) other++;
      if (faulty && other > (badext.empty() ? 0u : 1u)) { R.cnt["reads that named a sound table as malformed after a fault"]++; return; }
      if (!badext.empty() && p.err.find("Skipping bad " + badext + " (") == std::string::npos) { R.viol("malformed-not-named", "a malformed " + badext + " was left out without a message"); return; }
      if (!badext.empty() && other > 1) { R.viol("sound-table-skipped", "more than the one malformed table was skipped: " + slice(p.err)); return; }
      if (!d.empty() && faulty && rep_text(p, "LOST") == "1") { R.viol("optional-keyword-lost-to-a-read-error", "read reported success, but a read error made an optional keyword appear absent: " + d); return; }
      if (!d.empty()) R.viol(std::string("success-but-content-wrong-") + ctx, "read reported success but the dataset differs from the file: " + d);
      else if (!faulty && badext.empty() && !clean_messages(p, &why)) R.viol("spurious-message", "reading a good file printed `" + why + "': " + slice(p.out + p.err));
      else if (!faulty && badext.empty()) {
        std::map<std::string, int> said; std::map<std::string, bool> wide; std::istringstream is(p.out + "\n" + p.err); std::string l;
        while (std::getline(is, l)) {
          if (l.find("OI_REVN") != std::string::npos) { for (size_t q = l.find("OI_"); q != std::string::npos; q = l.find("OI_", q + 1)) { size_t e = q; while (e < l.size() && (isalnum((unsigned char)l[e]) || l[e] == '_')) e++; if (l.compare(q, e - q, "OI_REVN")) { said[l.substr(q, e - q)]++; break; } } }
          else if (l.find("format") != std::string::npos) for (const char *c : {"TARGET", "SPECTYP"}) if (l.find("'" + std::string(c) + "'") != std::string::npos) wide[c] = true;
        }
        for (auto &q : later) if (q.second && !said[q.first]) { R.viol("later-revision-unnoticed", "a " + q.first + " table of a revision this library does not know was read without a word"); return; }
        for (auto &q : said) if (mode < 2 && q.second != later[q.first]) { R.viol("spurious-revision-warning", S(q.second) + " warnings about the revision of " + q.first + ", but " + S(later[q.first]) + " such tables have a later one"); return; }
        for (const char *c : {"TARGET", "SPECTYP"}) if (wide[c] != odd[c]) { R.viol(odd[c] ? "wrong-width-unnoticed" : "spurious-width-warning", "column " + std::string(c) + " of OI_TARGET (revision " + S(ds.trev) + ")"); return; }
        if (!later.empty()) R.cnt["reads of tables of a later revision"]++;
      }
    } else if (!faulty) R.viol("spurious-failure", "read failed with status " + st + ": " + slice(p.err));
  };
  ProcResult dry = runp(R, 0, body);
  judge(dry, false);
  if (!R.v.empty()) return;
  for (int round = 0; round < 5; round++) {
    std::string k = "r" + S(round);
    int m = (int)P.pick(k + ".fmode", 0, 2);
    arm(choose_faults(P, k, 0, dry, m == 0 ? FS_READ : m == 1 ? (FS_READ | FS_SHORT) : FS_IO, 2));
    ProcResult p = runp(R, 0, body);
    int64_t n = disarm(R);
    judge(p, n > 0);
    if (!R.v.empty()) return;
  }
}

// ---------------------------------------------------------------- C03
static DS head_of(const DS &full, const std::vector<HduInfo> &hdu, size_t complete) {
  // dataset made of the tables of the first `complete' HDUs (written order)
  DS o = full;
  std::map<std::string, size_t> n;
  for (size_t i = 1; i < complete && i < hdu.size(); i++) n[hdu[i].extname]++;
  if (!n["OI_TARGET"]) o.t.clear();
  o.a.resize(n["OI_ARRAY"]); o.w.resize(n["OI_WAVELENGTH"]); o.c.resize(n["OI_CORR"]); o.p.resize(n["OI_INSPOL"]);
  for (int k = 0; k < NKIND; k++) o.d[k].resize(n[kind_ext[k]]);
  return o;
}
void c03(Plan &P, RunResult &R) {
  GenOpt go = gen_opt(P, "g", false);
  DS ds = gen_ds(P, "d.", go);
  const std::string path = "/sim/out.fits";
  auto wr = [&]() -> int { int st = op_write(ds, path); report("ST:%d", st); return 0; };
  ProcResult dry = runp(R, 0, wr);
  if (!bad_end(dry).empty() || rep_text(dry, "ST") != "0") { R.cnt["setup failed"]++; return; }
  std::vector<uint8_t> full = disk_get(path);
  Decoded D = fits_decode(full);
  if (!D.ok) { R.cnt["setup failed"]++; return; }
  bool sums = true;
  for (auto &h : D.hdu) if (h.datasum != 1 || h.checksum != 1) sums = false;
  if (!sums) { R.cnt["setup failed"]++; return; }
  DS want = as_read(as_written(ds));
  int rounds = 6;
  for (int round = 0; round < rounds; round++) {
    std::string k = "r" + S(round);
    int how = (int)P.pick(k + ".how", 0, 5);
    bool crash = how >= 4;
    uint64_t at = full.size();
    if (crash) {
      disk_rm(path);
      if (P.chance(k + ".full", 1, 4)) W->disk_free = P.pick(k + ".free", 0, (int64_t)full.size());
      arm(choose_faults(P, k, 0, dry, FS_CRASH, 1));
      ProcResult p = runp(R, 0, wr);
      W->disk_free = INT64_MAX;
      disarm(R);
      if (!p.crashed && rep_text(p, "ST") == "0") continue;
      R.cnt["files left by a crashed or failed writer"]++;
    } else {
      const HduInfo &h = D.hdu[(size_t)P.pick(k + ".hdu", 0, (int64_t)D.hdu.size() - 1)];
      if (how == 0) at = (uint64_t)P.pick(k + ".at", 0, (int64_t)full.size() - 1);
      else if (how == 1) at = h.hstart + (uint64_t)P.pick(k + ".at", 0, (int64_t)(h.dstart - h.hstart));
      else if (how == 2) at = h.dstart + (uint64_t)P.pick(k + ".at", 0, (int64_t)(h.end - h.dstart));
      else at = h.hstart + 2880 * (uint64_t)P.pick(k + ".at", 0, (int64_t)((h.end - h.hstart) / 2880));
      if (at >= full.size()) at = full.size() - 1;
      disk_put(path, std::vector<uint8_t>(full.begin(), full.begin() + (long)at));
      R.cnt["files cut short"]++; R.faulty = true;
    }
    if (!disk_exists(path)) continue;
    std::vector<uint8_t> rest = disk_get(path);
    // how many HDUs are completely there, byte for byte?
    size_t complete = 0; bool partial = false;
    for (auto &h : D.hdu) { if (rest.size() >= h.end && !memcmp(rest.data() + h.hstart, full.data() + h.hstart, h.end - h.hstart)) complete++; else break; }
    uint64_t cend = complete ? D.hdu[complete - 1].end : 0;
    partial = rest.size() > cend;
    // bytes missing from the last table are only fill?
    DS ref = head_of(want, D.hdu, complete);
    std::string wtext = dump(ref), wfull = dump(head_of(want, D.hdu, std::min(complete + 1, D.hdu.size())));
    // the table a crashed writer was building may lie there without a checksum yet;
    // nothing in the file tells it from a table written by software without checksums
    bool building = false;
    if (crash && complete < D.hdu.size()) {
      building = true;
      for (uint64_t c = D.hdu[complete].hstart; c + 80 <= rest.size(); c += 80) {
        if (!memcmp(&rest[c], "END     ", 8)) break;
        if (!memcmp(&rest[c], "CHECKSUM= '", 11) && rest[c + 11] != ' ' && memcmp(&rest[c + 11], "0000000000000000", 16)) building = false;
      }
    }
    auto rd = [&]() -> int {
      DS got; int st = op_read(path, got);
      report("ST:%d", st);
      if (!st && building) {
        const std::string &x = D.hdu[complete].extname;
        if (x == "OI_ARRAY" && got.a.size() > ref.a.size()) got.a.pop_back();
        if (x == "OI_WAVELENGTH" && got.w.size() > ref.w.size()) got.w.pop_back();
        if (x == "OI_CORR" && got.c.size() > ref.c.size()) got.c.pop_back();
        if (x == "OI_INSPOL" && got.p.size() > ref.p.size()) got.p.pop_back();
        for (int q = 0; q < NKIND; q++) if (x == kind_ext[q] && got.d[q].size() > ref.d[q].size()) got.d[q].pop_back();
        if (x == "OI_TARGET") got = ref;
      }
      if (!st) { std::string t = dump(got); report_text("DIFF", t == wfull ? "" : t.size() > wtext.size() ? "a table is there but wrong: " + diff(wfull, t) : diff(wtext, t)); report("FULL:%d", t == wfull); }
      return 0;
    };
    ProcResult p = runp(R, 1, rd);
    std::string st = rep_text(p, "ST");
    std::string ctx = "file of " + S((int64_t)full.size()) + " bytes " + (crash ? "left by a crashed writer with " : "cut to ") + S((int64_t)rest.size()) + " (" + S((int64_t)complete) + " of " + S((int64_t)D.hdu.size()) + " tables complete)";
    if (p.hang || p.runaway || p.asan || (p.sig && !diagnosed_abort(p))) { R.viol("incomplete-abnormal", "reading a " + ctx + ": " + p.describe()); return; }
    std::string why;
    bool silent = st == "0" && clean_messages(p, &why);
    R.cnt[silent ? "incomplete files read as their complete tables" : st == "0" ? "incomplete files diagnosed" : "incomplete files refused"]++;
    if (st == "0" && !crash && complete < D.hdu.size() && D.hdu[complete].extname.size() && rest.size() > D.hdu[complete].dstart && rep_text(p, "FULL") != "1" && p.err.find("Skipping bad") == std::string::npos) {
      R.viol("cut-table-accepted", "success on a " + ctx + ", cut inside table " + D.hdu[complete].extname + ", which is not named as lost: " + slice(p.out + p.err)); return;
    }
    if (!silent) continue;
    bool fulltab = rep_text(p, "FULL") == "1";
    if (fulltab && complete < D.hdu.size()) continue;   // nothing but fill bytes or unread parts missing
    std::string d = rep_text(p, "DIFF");
    if (!d.empty()) { R.viol("incomplete-accepted", "silent success on a " + ctx + ": " + d); return; }
    if (partial && !building && complete < D.hdu.size()) { R.viol("incomplete-accepted", "silent success on a " + ctx + " though the next table is cut in the middle"); return; }
  }
}

// ---------------------------------------------------------------- C04
static std::string name_tag(const std::vector<uint8_t> &b, const HduInfo &h) {   // what a checksum warning calls a table
  std::string n; long v = 0;
  for (uint64_t c = h.hstart; c + 80 <= h.dstart; c += 80) {
    std::string card((const char *)&b[c], 80);
    if (!card.compare(0, 8, "EXTNAME ")) { size_t a = card.find('\''), e = card.find('\'', a + 1); n = card.substr(a + 1, e - a - 1); while (!n.empty() && n.back() == ' ') n.pop_back(); }
    if (!card.compare(0, 8, "EXTVER  ")) v = atol(card.c_str() + 10);
  }
  return "EXTNAME='" + n + "' EXTVER=" + S(v);
}
static bool plain_card(const uint8_t *c) {             // a value here cannot change where tables begin or what they are called
  static const char *const no[] = {"EXTVER  ", "BITPIX  ", "NAXIS", "PCOUNT  ", "GCOUNT  ", "TFIELDS ", "TFORM", "THEAP", "END     ", "        "};
  for (auto n : no) if (!memcmp(c, n, strlen(n))) return false;
  return c[8] == '=';
}
void c04(Plan &P, RunResult &R) {
  GenOpt go = gen_opt(P, "g", false);
  DS ds = gen_ds(P, "d.", go);
  const std::string path = "/sim/out.fits";
  auto wr = [&]() -> int { int st = op_write(ds, path); report("ST:%d", st); return 0; };
  ProcResult dry = runp(R, 0, wr);
  if (!bad_end(dry).empty() || rep_text(dry, "ST") != "0") { R.cnt["setup failed"]++; return; }
  std::vector<uint8_t> full = disk_get(path);
  Decoded D = fits_decode(full);
  if (!D.ok) { R.viol("no-checksum", "written file cannot be decoded: " + D.err); return; }
  for (auto &h : D.hdu) if (h.datasum != 1 || h.checksum != 1) { R.viol("no-checksum", "table " + h.extname + " was written without valid checksums, so later damage to it cannot be noticed"); return; }
  std::string wtext = dump(as_read(as_written(ds)));
  int useTables = (int)P.pick("tables", 0, 1), tm = (int)P.pick("tmode", 0, 3);
  auto rd = [&]() -> int {
    DS got; int st = useTables ? op_read_tables(path, got, tm) : op_read(path, got);
    report("ST:%d", st);
    if (!st) report_text("DIFF", diff(wtext, dump(got)));
    return 0;
  };
  {
    ProcResult p = runp(R, 1, rd); std::string why;
    if (!bad_end(p).empty()) { R.viol("clean-abnormal", "reading the intact file: " + p.describe()); return; }
    if (rep_text(p, "ST") != "0" || !clean_messages(p, &why)) { R.viol("spurious-warning", "reading the intact file: " + slice(p.out + p.err)); return; }
  }
  for (int round = 0; round < 6; round++) {
    std::string k = "r" + S(round);
    std::vector<uint8_t> b = full;
    // ranges that may be altered: everything except checksum cards
    const HduInfo &h = D.hdu[(size_t)P.pick(k + ".hdu", 0, (int64_t)D.hdu.size() - 1)];
    int what = (int)P.pick(k + ".what", 0, 6);
    uint64_t lo = h.hstart, hi = h.end;
    if (what <= 3 && h.end > h.dstart) lo = h.dstart;             // data damage is the likelier kind
    uint64_t at = lo + (uint64_t)P.pick(k + ".at", 0, (int64_t)(hi - lo) - 1);
    Rng r = P.rng(k + ".bytes");
    switch (what) {
      case 0: case 4: b[at] ^= (uint8_t)(1u << r.range(0, 7)); break;
      case 1: for (uint64_t i = at; i < std::min(hi, at + 8); i++) b[i] = (uint8_t)r.next(); break;
      case 2: { uint64_t s = at / 512 * 512; for (uint64_t i = std::max(lo, s); i < std::min(hi, s + 512); i++) b[i] = 0; break; }
      case 3: { uint64_t s = at / 512 * 512, t = (uint64_t)r.range(0, (int64_t)(full.size() / 512) - 1) * 512;   // misdirected sector
                for (uint64_t i = 0; i < 512; i++) if (s + i >= lo && s + i < hi) b[s + i] = full[t + i]; break; }
      case 5: b[at] = (uint8_t)(' ' + r.range(0, 94)); break;
      default: { uint64_t c = h.hstart + (at - h.hstart) / 80 * 80;      // a digit of a header value
                 for (uint64_t i = c + 9; i < c + 80; i++) if (b[i] >= '0' && b[i] <= '9') { b[i] = (uint8_t)('0' + (b[i] - '0' + r.range(1, 9)) % 10); break; } }
    }
    // keep the checksum cards themselves and those that say what the table is
    for (auto &q : D.hdu) for (uint64_t c = q.hstart; c + 80 <= q.dstart; c += 80) if (!memcmp(&full[c], "CHECKSUM", 8) || !memcmp(&full[c], "DATASUM ", 8) || !memcmp(&full[c], "EXTNAME ", 8) || !memcmp(&full[c], "XTENSION", 8) || !memcmp(&full[c], "SIMPLE  ", 8)) memcpy(&b[c], &full[c], 80);
    if (b == full) continue;
    // the checksum must really be wrong (a 32-bit ones' complement sum misses some alterations)
    auto sum = [&](const std::vector<uint8_t> &v, uint64_t s, uint64_t e) { uint64_t t = 0; for (uint64_t i = s; i + 3 < e; i += 4) t += ((uint64_t)v[i] << 24) | (v[i + 1] << 16) | (v[i + 2] << 8) | v[i + 3]; while (t >> 32) t = (t & 0xffffffffu) + (t >> 32); return (uint32_t)t; };
    bool detect = false;
    for (auto &q : D.hdu) { uint32_t s = sum(b, q.hstart, q.end); if (s != 0xffffffffu && s != 0) detect = true; }
    if (!detect) continue;
    // an END card written over the header before the checksum cards takes them
    // out of the header, as does a copy of another table's: not distinguishable
    // from a table that never had any
    auto cards = [](const std::vector<uint8_t> &v, uint64_t s, uint64_t e) {
      std::string f;
      for (uint64_t c = s; c + 80 <= e; c += 80) {
        if (!memcmp(&v[c], "END     ", 8)) break;
        if (!memcmp(&v[c], "CHECKSUM", 8) || !memcmp(&v[c], "DATASUM ", 8)) f += std::string((const char *)&v[c], 80);
      }
      return f; };
    bool hidden = false;
    for (auto &q : D.hdu) hidden |= cards(b, q.hstart, q.dstart) != cards(full, q.hstart, q.dstart);
    if (hidden) { R.cnt["alterations that hide the checksum cards (void)"]++; continue; }
    disk_put(path, b);
    R.cnt["alterations"]++; R.faulty = true;
    ProcResult p = runp(R, 1, rd);
    std::string where = "byte " + S((int64_t)at) + " of table " + h.extname + (at < h.dstart ? " (header)" : " (data)") + ", kind " + S(what);
    if (p.hang || p.runaway || p.asan || (p.sig && !diagnosed_abort(p))) { R.viol("altered-abnormal", "reading a file altered at " + where + ": " + p.describe()); return; }
    std::string why;
    if (rep_text(p, "ST") == "0" && clean_messages(p, &why)) {
      std::string d = rep_text(p, "DIFF");
      R.viol("alteration-unnoticed", "silent success on a file altered at " + where + (d.empty() ? " (content not affected)" : ": " + d));
      return;
    }
    // a warning says which table it is about
    if (rep_text(p, "ST") == "0" && at < h.dstart && what >= 4 && plain_card(&full[h.hstart + (at - h.hstart) / 80 * 80]) && (what == 6 || (at - h.hstart) % 80 >= 10)) {
      int no = 1; for (auto &q : D.hdu) { if (q.hstart == h.hstart) break; no++; }
      const std::string about = "#" + S(no) + " (", tag = name_tag(full, h);
      std::istringstream is(p.out); std::string l;
      while (std::getline(is, l)) if (l.find("checksum verification failed") != std::string::npos && l.find(about) != std::string::npos && l.find(tag) == std::string::npos) { R.viol("warning-names-wrong-table", "the header of table " + S(no) + " (" + tag + ") was altered, the warning is: " + l); return; }
    }
    if (rep_text(p, "ST") == "0" && at >= h.dstart) {
      int no = 1; for (auto &q : D.hdu) { if (q.hstart == h.hstart) break; no++; }
      std::istringstream is(p.out + "\n" + p.err); std::string l; bool data = false;
      while (std::getline(is, l)) {
        if (l.find("checksum verification failed") == std::string::npos) continue;
        auto num = l.find('#'); data |= l.find("Data") != std::string::npos;
        if (num == std::string::npos || atoi(l.c_str() + num + 1) != no || l.find(name_tag(full, h)) == std::string::npos) { R.viol("warning-names-wrong-table", "data of table " + S(no) + " (" + h.extname + ") were altered, the warning is: " + l); return; }
      }
      if (!data && p.err.find("Skipping bad") == std::string::npos) { R.viol("data-alteration-warned-as-header", "data of table " + S(no) + " (" + h.extname + ") were altered: " + slice(p.out + p.err)); return; }
    }
    R.cnt[rep_text(p, "ST") == "0" ? "alterations warned about" : "alterations refused"]++;
  }
}

// ---------------------------------------------------------------- damage
std::vector<uint8_t> damage(Plan &P, const std::string &k, std::vector<uint8_t> b, const std::vector<HduInfo> &hdu) {
  Rng r = P.rng(k + ".bytes");
  int n = (int)P.pick(k + ".n", 1, 3);
  for (int i = 0; i < n && !b.empty(); i++) {
    std::string q = k + "." + S(i);
    int what = (int)P.pick(q + ".what", 0, 12);
    const HduInfo &h = hdu[(size_t)P.pick(q + ".hdu", 0, (int64_t)hdu.size() - 1)];
    uint64_t at = std::min<uint64_t>(b.size() - 1, h.hstart + (uint64_t)P.pick(q + ".at", 0, (int64_t)(h.end - h.hstart) - 1));
    // a card of the header
    std::vector<uint64_t> cards;
    for (uint64_t c = h.hstart; c + 80 <= h.dstart && c + 80 <= b.size(); c += 80) { if (!memcmp(&b[c], "END     ", 8)) break; cards.push_back(c); }
    uint64_t card = cards.empty() ? 0 : cards[(size_t)P.pick(q + ".card", 0, (int64_t)cards.size() - 1)];
    auto find = [&](const char *kw) -> uint64_t { for (uint64_t c : cards) if (!memcmp(&b[c], kw, strlen(kw))) return c; return 0; };
    auto setnum = [&](uint64_t c, int64_t v) { if (!c) return; char t[32]; snprintf(t, sizeof t, "%20lld", (long long)v); memcpy(&b[c + 10], t, 20); };
    switch (what) {
      case 0: b[at] ^= (uint8_t)(1u << r.range(0, 7)); break;
      case 1: b[at] = (uint8_t)r.next(); break;
      case 2: b.resize(at); break;
      case 3: for (uint64_t x = at; x < std::min<uint64_t>(b.size(), at + 2880); x++) b[x] = 0; break;
      case 4: if (card) { static const int64_t vals[] = {0, -1, 1, 2, 3, 127, 128, 255, 256, 999, 10000, 32768, 65536, 2147483647LL, -2147483648LL, 4294967296LL}; setnum(card, vals[r.range(0, 15)]); } break;
      case 5: if (card) { for (uint64_t x = card + 10; x < card + 80; x++) b[x] = (uint8_t)('A' + r.range(0, 25)); b[card + 10] = '\''; b[card + 79] = '\''; } break;   // longest string value
      case 6: if (card) memcpy(&b[card], "JUNKKEYW", 8); break;                               // keyword gone
      case 7: { uint64_t c = find("NAXIS2"); int64_t v[] = {0, 1, 2, 5, 1000, -1}; setnum(c, v[r.range(0, 5)]); break; }
      case 8: { uint64_t c = find("TFORM"); std::vector<uint64_t> f; for (uint64_t x : cards) if (!memcmp(&b[x], "TFORM", 5)) f.push_back(x); if (f.empty()) break; c = f[(size_t)r.range(0, (int64_t)f.size() - 1)];
                static const char *tf[] = {"'1D      '", "'0D      '", "'3E      '", "'9999D   '", "'70A     '", "'1J      '", "'1L      '", "'2C      '", "'1PD(10) '", "'16I     '", "'        '", "'1X      '", "'5B      '", "'0A      '", "'0E      '", "'1A      '"};
                memcpy(&b[c + 10], tf[r.range(0, 15)], 10); break; }
      case 9: { std::vector<uint64_t> f; for (uint64_t x : cards) if (!memcmp(&b[x], "TTYPE", 5)) f.push_back(x); if (f.empty()) break; uint64_t c = f[(size_t)r.range(0, (int64_t)f.size() - 1)]; b[c + 11] = 'Q'; break; }
      case 10: { uint64_t c = find("INSNAME"); if (!c) c = find("ARRNAME"); if (!c) c = find("CORRNAME"); if (c) { b[c + 11 + (uint64_t)r.range(0, 3)] = (uint8_t)('a' + r.range(0, 25)); } break; }
      case 11: { uint64_t c = find("OI_REVN"); static const int64_t v[] = {0, 1, 2, 3, -1, 99}; setnum(c, v[r.range(0, 5)]); break; }
      default: {       // swap the extension's name
        uint64_t c = find("EXTNAME"); static const char *en[] = {"'OI_VIS  '", "'OI_T3   '", "'OI_VIS2 '", "'OI_FLUX '", "'OI_CORR '", "'OI_ARRAY'"}; if (c) { memset(&b[c + 10], ' ', 20); memcpy(&b[c + 10], en[r.range(0, 5)], 10); } break; }
    }
  }
  // cfitsio sums a table block by block up to its declared size, however far
  // beyond the end of the file: seconds per gigabyte, so keep declared sizes
  // of tables with checksums moderate
  for (auto &h : hdu) {
    bool sum = false;
    uint64_t c[4] = {0, 0, 0, 0}; double v[4] = {0, 0, 0, 0};
    static const char *kw[] = {"NAXIS1  ", "NAXIS2  ", "PCOUNT  ", "GCOUNT  "};
    for (uint64_t x = h.hstart; x + 80 <= h.dstart && x + 80 <= b.size(); x += 80) {
      if (!memcmp(&b[x], "CHECKSUM", 8) || !memcmp(&b[x], "DATASUM ", 8)) sum = true;
      for (int i = 0; i < 4; i++) if (!memcmp(&b[x], kw[i], 8)) { c[i] = x; v[i] = fabs(strtod(std::string(b.begin() + (long)x + 10, b.begin() + (long)x + 30).c_str(), nullptr)); }
    }
    if (sum && (v[0] * v[1] > 2e8 || v[2] > 2e8 || v[3] > 2e8))
      for (int i = 0; i < 4; i++) if (c[i] && v[i] > 10000) { char t[32]; snprintf(t, sizeof t, "%20d", 10000); memcpy(&b[c[i] + 10], t, 20); }
  }
  return b;
}
// a file damaged at random, or with one table that is consistently not what the standard has
std::vector<uint8_t> damaged_file(Plan &P, const std::string &k, const DS &ds, EncOpt e, RunResult &R) {
  if (P.chance(k + ".struct", 1, 3)) {
    e.bad_table = (int)P.pick(k + ".bt", 1, (int64_t)ds.ntables());
    e.bad_kind = (int)P.pick(k + ".bk", BAD_COLUMN_NAME, BAD_NKIND - 1);
    e.bad_sel = (uint64_t)P.pick(k + ".bs", 0, 1 << 20);
    std::vector<uint8_t> b = fits_encode(ds, e);
    if (e.bad_done) { R.cnt["files with one nonstandard table"]++; R.faulty = true; return b; }
  }
  e.bad_table = 0;
  std::vector<uint8_t> b = fits_encode(ds, e);
  Decoded D = fits_decode(b);
  if (!D.ok) return b;
  R.cnt["damaged files"]++; R.faulty = true;
  return damage(P, k, b, D.hdu);
}
std::vector<std::string> some_tool(Plan &P, const std::string &k, const std::vector<std::string> &in, const std::string &out, std::string &name) {
  switch (P.pick(k + ".tool", 0, 3)) {
    case 0: { name = "check"; return {in[0]}; }
    case 1: { name = "filter"; std::vector<std::string> a; if (P.chance(k + ".opt", 1, 2)) { static const std::vector<std::vector<std::string>> O = {{"--target-id=1"}, {"--mjd-min=50000"}, {"--wave-min=1000", "--wave-max=5000"}, {"--arrname=A*"}, {"--accept-flagged=0"}, {"--bas-min=10", "--snr-min=1"}, {"--accept-vis=0"}, {"--uvrad-max=1e8"}}; for (auto &o : O[(size_t)P.pick(k + ".which", 0, 7)]) a.push_back(o); } a.push_back(in[0]); a.push_back(out); return a; }
    case 2: { name = "merge"; std::vector<std::string> a = {out}; for (auto &i : in) a.push_back(i); return a; }
    default: { name = "upgrade"; return {in[0], out, "Org", "Obs", "mode"}; }
  }
}

// ---------------------------------------------------------------- C05
void c05(Plan &P, RunResult &R) {
  std::vector<std::string> in;
  int nf = (int)P.pick("nfiles", 1, 3);
  std::vector<std::pair<int, std::string>> names;
  for (int i = 0; i < nf; i++) {
    std::string k = "f" + S(i);
    GenOpt go = gen_opt(P, k + ".g", true); go.shared = nf > 1; go.wide = P.chance(k + ".wide", 1, 6);
    DS ds = gen_ds(P, k + ".d.", go);
    for (auto &x : ds.a) names.push_back({0, x.name});
    for (auto &x : ds.w) names.push_back({1, x.name});
    for (auto &x : ds.c) names.push_back({2, x.name});
    EncOpt eo = enc_opt(P, k + ".e");
    std::vector<uint8_t> b = P.chance(k + ".dmg", 1, 2) ? damaged_file(P, k + ".dm", ds, eo, R) : fits_encode(ds, eo);
    disk_put("/sim/in" + S(i) + ".fits", b);
    in.push_back("/sim/in" + S(i) + ".fits");
  }
  DiskImage img = disk_image();
  int op = (int)P.pick("op", 0, 3);
  std::string name = "read";
  std::vector<std::string> args;
  if (op >= 1) args = some_tool(P, "t", in, "/sim/out.fits", name);
  std::string text;
  if (P.chance("demo", 1, 12)) { name = "demo"; text = some_description(P, "d"); }
  int tm = (int)P.pick("tmode", 0, 6);
  for (int q = 0; q < 3; q++) names.push_back({q, "no such"});
  { Rng nr = P.rng("names"); for (size_t i = names.size(); i > 1; i--) std::swap(names[i - 1], names[(size_t)nr.range(0, (int64_t)i - 1)]); }
  DS wds; if (op == 0 && tm == 4) wds = gen_ds(P, "w.", gen_opt(P, "wg", false));
  auto body = [&]() -> int {
    if (!text.empty()) return run_demo(text, "/sim/out.fits", in[0]);
    if (op >= 1) return tool(name.c_str(), args);
    DS got;
    if (tm == 4) return op_write(wds, "/sim/out.fits") ? 1 : 0;
    if (tm >= 5) return op_read_named(in[0], names, tm == 6);
    return (tm ? op_read_tables(in[0], got, tm) : op_read(in[0], got)) ? 1 : 0;
  };
  uint64_t bytes = 0;
  for (auto &kv : img) bytes += kv.second.size();
  // steps allowed: generous multiple of what a healthy run of this size takes
  W->step_budget = 60000 + bytes / 2880 * 3000;
  ProcResult dry = runp(R, 0, body);
  if (dry.hang || dry.runaway) { R.viol("no-termination-" + name, name + " on a damaged file " + dry.describe() + " (budget " + S((int64_t)W->step_budget) + " I/O operations)"); return; }
  R.cnt["operation " + name]++;
  for (int round = 0; round < 3; round++) {
    std::string k = "r" + S(round);
    disk_restore(img);
    std::vector<Fault> f = choose_faults(P, k, 0, dry, FS_IO | FS_SEEK, 2);
    if (P.chance(k + ".forever", 1, 2)) for (auto &x : f) x.len = 1000000000;
    arm(f);
    ProcResult p = runp(R, 0, body);
    disarm(R);
    if (p.hang || p.runaway) { R.viol("no-termination-" + name, name + " under I/O faults " + p.describe() + " (healthy run: " + S((int64_t)dry.total_ops) + " operations, budget " + S((int64_t)W->step_budget) + ")"); return; }
    // faults over: the same operation must get through again
    disk_restore(img);
  }
}

// ---------------------------------------------------------------- C06
void c06(Plan &P, RunResult &R) {
  std::vector<std::string> in;
  int nf = (int)P.pick("nfiles", 1, 3);
  for (int i = 0; i < nf; i++) {
    std::string k = "f" + S(i);
    GenOpt go = gen_opt(P, k + ".g", true); go.big = false; go.shared = nf > 1; go.with_inspol = !go.v1;
    DS ds = gen_ds(P, k + ".d.", go);
    disk_put("/sim/in" + S(i) + ".fits", fits_encode(ds, enc_opt(P, k + ".e")));
    in.push_back("/sim/in" + S(i) + ".fits");
  }
  int st = (int)P.pick("state", 0, 3);         // 0 no output yet, 1 unrelated file, 2 a good OIFITS file, 3 output names an input
  std::string out = "/sim/out.fits";
  if (st == 1) disk_put(out, std::vector<uint8_t>((size_t)P.pick("oldsize", 0, 9000), 'k'));
  if (st == 2) { GenOpt g2; DS old = gen_ds(P, "old.", g2); disk_put(out, fits_encode(old, EncOpt())); }
  if (st == 3) out = in[(size_t)P.pick("which", 0, nf - 1)];
  disk_put("/sim/bystander", std::vector<uint8_t>(100, 'b'));
  std::string plain = out;
  // the same file under another name
  if (int sp = (int)P.pick("spelling", 0, 5)) if (sp < 4) out = "/sim/" + std::string(sp == 1 ? "./" : sp == 2 ? "/" : "x/../") + out.substr(5);
  bool badin = P.chance("badin", 1, 8);
  if (badin) { Rng r = P.rng("badinr"); std::string f = in[(size_t)r.range(0, nf - 1)]; std::vector<uint8_t> b = disk_get(f); if (r.chance(1, 3)) disk_rm(f); else { b.resize((size_t)r.range(0, 3000)); disk_put(f, b); } }
  int op = (int)P.pick("op", 0, 4);
  bool clobber = false;
  std::string name; std::vector<std::string> args;
  DS wds;
  int wm = 0;
  if (op < 4) {
    args = some_tool(P, "t", in, out, name);
    if (name == "filter" && P.chance("clobber", 1, 2)) { clobber = true; args.insert(args.begin(), P.chance("short", 1, 2) ? "-o" : "--clobber"); }
    if (name == "filter" && clobber && P.chance("viaopt", 1, 5)) { }
  } else { name = "write"; wds = gen_ds(P, "w.", gen_opt(P, "wg", false)); wm = (int)P.pick("wmode", 0, 2); clobber = wm == 2; }
  // a command line the tool cannot make sense of
  bool misuse = op < 4 && P.chance("misuse", 1, 12);
  if (misuse) {
    Rng r = P.rng("misuser");
    if (name == "check") { if (r.chance(1, 2)) args.clear(); else args.push_back(in[0]); }
    else if (name == "filter") switch (r.range(0, 4)) {
      case 0: args.pop_back(); break;
      case 1: args.push_back(in[0]); break;
      case 2: args.insert(args.begin(), r.chance(1, 2) ? "--no-such-criterion=3" : "-q"); break;
      case 3: { static const char *BAD[] = {"--target-id=x", "--mjd-min=today", "--wave-max=red", "--bas-min=1m", "--mjd-max=", "--uvrad-min=,"}; args.insert(args.begin(), BAD[r.range(0, 5)]); break; }
      default: args.clear();
    }
    else if (name == "merge") args.resize((size_t)r.range(0, 2));
    else args.resize((size_t)r.range(0, 4));
  }
  auto body = [&]() -> int {
    if (op < 4) return tool(name.c_str(), args);
    int s = wm == 1 ? op_write_tables(wds, out, 0) : op_write(wds, (wm == 2 ? "!" : "") + out);
    return s ? 1 : 0;
  };
  DiskImage img = disk_image();
  bool existed = img.count(plain) > 0;
  auto judge = [&](const ProcResult &p, const char *ctx) {
    DiskImage a = disk_image();
    for (auto &kv : img) {
      bool isout = kv.first == plain;
      if (isout && clobber) continue;
      if (!a.count(kv.first)) { R.viol(std::string("file-removed-") + ctx, name + ": " + (isout ? "existing output " : "file ") + kv.first + " was removed (" + p.describe() + ")"); return; }
      if (a[kv.first] != kv.second) { R.viol(std::string("file-changed-") + ctx, name + ": " + (isout ? "existing output " : "file ") + kv.first + " was changed (" + p.describe() + ")"); return; }
    }
    for (auto &kv : a) if (!img.count(kv.first) && (kv.first != plain || name == "check")) { R.viol(std::string("stray-file-") + ctx, name + " created " + kv.first); return; }
    if (existed && !clobber && name != "check" && p.exited && p.code == 0 && !p.asan) { R.viol(std::string("refusal-not-reported-") + ctx, name + " reported success though the output already existed and overwriting was not requested"); return; }
    if (p.hang || p.runaway || p.asan || (p.sig && !diagnosed_abort(p))) { R.viol(std::string("abnormal-") + ctx, name + " " + p.describe()); return; }
  };
  ProcResult dry = runp(R, 0, body);
  if (misuse) {
    R.cnt["command lines that make no sense"]++;
    clobber = false;
    judge(dry, "misuse");
    if (R.v.empty() && disk_image() != img) R.viol("misuse-changed-disk", name + " changed the disk though its command line makes no sense");
    if (R.v.empty() && !(dry.exited && dry.code != 0)) R.viol("misuse-accepted", name + " did not refuse a command line that makes no sense (" + dry.describe() + ")");
    return;
  }
  R.cnt["operation " + name + (existed ? (clobber ? ", output exists, overwrite asked" : ", output exists") : "")]++;
  judge(dry, "clean");
  if (!R.v.empty()) return;
  if (dry.sig) return;
  // on a healthy disk a filter run that cannot read its input has nothing to put in place of the old output
  if (name == "filter" && clobber && existed && dry.exited) {
    std::vector<uint8_t> got = disk_get(plain); bool there = disk_exists(plain);
    disk_restore(img);
    std::vector<std::string> a2 = args; a2.back() = "/sim/elsewhere.fits";
    ProcResult p2 = runp(R, 0, [&]() -> int { return tool(name.c_str(), a2); });
    if (p2.exited && p2.code == 0 && dry.code != 0) { R.viol("overwrite-fails", "filter --clobber fails though the same run to a new file succeeds: " + slice(dry.out)); return; }
    if (p2.exited && p2.code == 0 && norm_file(got) != norm_file(disk_get("/sim/elsewhere.fits"))) { R.viol("overwrite-differs", "filter --clobber stores something else than the same run to a new file"); return; }
    if (p2.exited && p2.code != 0 && dry.code != 0 && (!there || got != img[plain])) { R.viol("output-lost", "filter --clobber could not read its input but " + std::string(there ? "changed" : "removed") + " the existing output"); return; }
    R.cnt["overwriting compared with writing a new file"]++;
  }
  // an operation that may write must have succeeded on a healthy disk
  if (dry.exited && dry.code != 0 && (!existed || clobber) && !(st == 3 && name == "merge")) R.cnt["healthy runs that failed"]++;
  for (int round = 0; round < 4; round++) {
    std::string k = "r" + S(round);
    disk_restore(img);
    int m = (int)P.pick(k + ".fmode", 0, 3);
    if (m == 3) W->disk_free = P.pick(k + ".free", 0, 30000);
    arm(choose_faults(P, k, 0, dry, m == 0 ? FS_META | FS_OPEN : m == 1 ? FS_CRASH : FS_IO | FS_CRASH, 2));
    ProcResult p = runp(R, 0, body);
    W->disk_free = INT64_MAX;
    disarm(R);
    judge(p, "faulty");
    if (!R.v.empty()) return;
  }
}
