// Reference data model: what an OIFITS dataset *is*, independent of the
// repository's structs; generator, canonical dump, FITS encoder/decoder and
// reference implementations of merge / filter / upgrade / check.
#pragma once
#include "sim.h"
#include "oi.h"
#include <cmath>
#include <set>
#include <string>
#include <vector>

typedef std::complex<float> cf;
enum HK { H_ORIGIN, H_DATE, H_DATEOBS, H_CONTENT, H_TELESCOP, H_INSTRUME, H_OBSERVER, H_INSMODE, H_OBJECT,
          H_REFERENC, H_AUTHOR, H_PROGID, H_PROCSOFT, H_OBSTECH, H_N };
extern const char *hk_name[H_N];

struct Elem { std::string tel, sta; int idx = 0; float diam = 0; double xyz[3] = {0, 0, 0}; double fov = 0; std::string fovtype; };
struct Arr { int rev = 2; std::string name, frame; double c[3] = {0, 0, 0}; std::vector<Elem> el; };
struct Targ { int id = 0; std::string name; double ra = 0, dec = 0; float equinox = 0; double raerr = 0, decerr = 0, sysvel = 0;
  std::string veltyp, veldef; double pmra = 0, pmdec = 0, pmraerr = 0, pmdecerr = 0; float par = 0, parerr = 0; std::string spec, cat; };
struct Wav { int rev = 2; std::string name; std::vector<float> w, b; };
struct Corr { int rev = 1; std::string name; int ndata = 0; std::vector<int> i, j; std::vector<double> c; };
struct PolRec { int tid = 0; std::string ins; double mjd0 = 0, mjd1 = 0; std::vector<cf> j[4]; int sta = 0; };
struct Pol { int rev = 1; std::string dateobs; int npol = 1; std::string arr, orient, model; int nwave = 0; std::vector<PolRec> rec; };
enum Kind { VIS, VIS2, T3, FLUX, NKIND };
extern const char *kind_ext[NKIND];
static const int NQ[NKIND] = {8, 2, 4, 2};     // per-channel data quantities
static const int NQB[NKIND] = {4, 2, 4, 2};    // mandatory ones
static const int NU[NKIND] = {2, 2, 4, 0};
static const int NSTA[NKIND] = {2, 2, 3, 1};
struct Rec { int tid = 0; double time = 0, mjd = 0, itime = 0; std::vector<double> d[8]; int ci[4] = {0, 0, 0, 0};
  std::vector<char> refmap; double u[4] = {0, 0, 0, 0}; int sta[3] = {0, 0, 0}; std::vector<char> flag; };
struct Tab { int kind = VIS; int rev = 2; std::string dateobs, arr, ins, corr, amptyp, phityp; int amporder = -1, phiorder = -1;
  bool userefmap = false, usecomplex = false; std::string complexunit, ampunit; double fov = 0; std::string fovtype; char calstat = 'C';
  std::string fluxunit; int nwave = 0; std::vector<Rec> rec; };
struct DS {
  std::string h[H_N];
  int trev = 2; bool usecat = false; std::vector<Targ> t;
  std::vector<Arr> a; std::vector<Wav> w; std::vector<Corr> c; std::vector<Pol> p;
  std::vector<Tab> d[NKIND];
  size_t ntables() const { return 1 + a.size() + w.size() + c.size() + p.size() + d[0].size() + d[1].size() + d[2].size() + d[3].size(); }
};

// ---- generator
struct GenOpt {
  bool v1 = false;          // OIFITS v1 content (no v2 tables/columns)
  bool lowprec = false;     // data values representable as float
  bool big = false;         // tables spanning many I/O blocks
  bool shared = false;      // names/stations drawn from a small pool shared between datasets (merge)
  bool always_arr = false;  // every data table has an ARRNAME
  bool with_inspol = true;
  bool with_corr = true;
  bool nans = true;
  bool wide = false;        // target names and spectral types longer than the standard's 32 characters (input files only)
  bool valid = false;       // intended to be free of any breach
};
DS gen_ds(Plan &P, const std::string &pfx, const GenOpt &o);
int64_t civil_to_mjd(long y, long m, long d);
void mjd_to_civil(int64_t mjd, long &y, long &m, long &d);
std::string mjd_datestr(int64_t mjd);

// ---- canonical form
struct DumpOpt { bool date = false; bool rev = true; bool header = true; };
std::string dump(const DS &ds, const DumpOpt &o = DumpOpt());
std::string diff(const std::string &want, const std::string &got); // "" if equal
DS as_written(const DS &ds);      // what a file written from ds must hold
DS as_read(const DS &stored);     // what reading a stored file must deliver (rules for v1 tables)
void derive_header(DS &ds);       // header the reader derives for non-OIFITS2 files

// ---- repository structs
void to_oi(const DS &ds, oi_fits *oi);
extern bool client_alloc;
DS from_oi(const oi_fits *oi);
Arr from_arr(const oi_array *p); Wav from_wav(const oi_wavelength *p); Corr from_corr(const oi_corr *p);
Pol from_pol(const oi_inspol *p); Tab from_vis(const oi_vis *p); Tab from_vis2(const oi_vis2 *p);
Tab from_t3(const oi_t3 *p); Tab from_flux(const oi_flux *p);
std::string dump_arr(const Arr &); std::string dump_wav(const Wav &); std::string dump_corr(const Corr &);
std::string dump_pol(const Pol &); std::string dump_tab(const Tab &); std::string dump_targets(const DS &);

// ---- independent FITS codec
struct EncOpt {
  uint64_t seed = 0;        // layout choices
  bool shuffle_hdu = false, shuffle_col = false, foreign = false, checksums = true, types = false, lowercase = false, extra_cols = false;
  bool extver = true;
  // one table (1 = OI_TARGET, then arrays, wavelengths, ...) deliberately not as the standard has it
  int bad_table = 0, bad_kind = 0; uint64_t bad_sel = 0; mutable bool bad_done = false;
};
enum { BAD_NONE, BAD_COLUMN_NAME, BAD_KEYWORD_GONE, BAD_WIDE_STRING, BAD_SHORT_VECTOR, BAD_TEXT_FOR_NUMBER, BAD_LONG_VECTOR, BAD_TYPE, BAD_KEYWORD_TYPE, BAD_NKIND };
std::vector<uint8_t> fits_encode(const DS &ds, const EncOpt &o);
struct HduInfo { std::string extname, name; uint64_t hstart, dstart, end; int datasum, checksum; bool has_sum = false; std::map<std::string, std::pair<std::string, std::string>> col; std::map<std::string, std::string> kv; }; // 1 ok, 0 absent, -1 bad
struct Decoded { bool ok = false; std::string err; DS ds; std::vector<HduInfo> hdu; };
Decoded fits_decode(const std::vector<uint8_t> &b);

// ---- reference behaviour
DS ref_merge(const std::vector<DS> &in, std::string *why);
struct FilterSpec { std::string arr = "*", ins = "*", corr = "*"; int target = -1; double mjd[2] = {0, 1e7}; float wave[2] = {0, (float)1e-4};
  double bas[2] = {0, 1e4}; double uv[2] = {0, 1e11}; float snr[2] = {-5, (float)1e10}; bool vis = true, vis2 = true, t3amp = true, t3phi = true, flux = true, flagged = true; };
DS ref_filter(const DS &in, const FilterSpec &f);
std::string merge_diff(const DS &ref, const DS &got);
bool filter_ambiguous(const DS &in, const FilterSpec &f);
bool glob_match(const char *p, const char *s);
struct CheckRes { std::string desc; int level = 0, n = 0; std::vector<std::string> locs; std::map<std::string, std::string> kind;   // kind: where one check looks for several kinds of breach
  explicit CheckRes(const char *d) : desc(d) {}
  void add(int lv, const std::string &loc); };
std::vector<CheckRes> ref_check(const DS &ds);
std::string check_report_diff(const std::vector<CheckRes> &want, const std::string &outText);

struct IterPt { int ev = 0; long irec = 0; int iw = 0; double wl = 0, val = 0, uv[4] = {0, 0, 0, 0}; };
std::vector<IterPt> ref_iter(const DS &in, int kind, const FilterSpec &f);
long ref_count(const DS &d, int kind);
bool ref_atomic(const DS &d, double days);
bool ref_one(const DS &d);
std::string ref_summary(const DS &d);
std::string ref_spec_text(const FilterSpec &f);
