// Scenario toolkit shared by all properties.
#pragma once
#include "model.h"

struct Scen { const char *id; void (*fn)(Plan &, RunResult &); const char *rule; };
extern const Scen SCENS[];
extern const int NSCENS;
const Scen *scen_find(const std::string &id);

// ---- fault choice
enum { FS_READ = 1, FS_WRITE = 2, FS_OPEN = 4, FS_CLOSE = 8, FS_META = 16, FS_CRASH = 32, FS_MEM = 64, FS_SHORT = 128, FS_SEEK = 256, FS_LMEM = 512 };
static const int FS_IO = FS_READ | FS_WRITE | FS_OPEN | FS_CLOSE | FS_META | FS_SHORT;   // lseek on an open regular file does not fail
std::vector<Fault> choose_faults(Plan &P, const std::string &key, int proc, const ProcResult &dry, int set, int maxn = 3);
void arm(const std::vector<Fault> &f);
int64_t disarm(RunResult &R);                 // returns the number of faults that fired (other than harmless short transfers)
int64_t disarm_all(RunResult &R, int64_t *harmless);
void disk_restore(const DiskImage &img);
uint64_t disk_hash();

// ---- processes
struct Out { ProcResult p; bool ok = false; };    // ok: reported success
ProcResult runp(RunResult &R, int proc, const std::function<int()> &fn);
bool diagnosed_abort(const ProcResult &p);
bool looks_bad(const ProcResult &p);              // hang, runaway, sanitizer report, signal other than a diagnosed abort
int tool(const char *name, const std::vector<std::string> &args);   // calls the tool's main in this process

// ---- operations (run inside a simulated process)
int op_write(const DS &ds, const std::string &path);           // whole-file writer; returns status
int op_write_tables(const DS &ds, const std::string &path, uint64_t order); // table-level writer
int op_read(const std::string &path, DS &ds);
int op_read_tables(const std::string &path, DS &ds, int mode);  // table-level reader
int op_read_named(const std::string &path, const std::vector<std::pair<int, std::string>> &names, bool mixed); // tables fetched by name, whatever became of those before
std::string blob(const DS &ds);                                 // short fingerprint of a dataset
void report_text(const char *tag, const std::string &s);        // long text through the report channel
std::string rep_text(const ProcResult &p, const char *tag, bool *found = nullptr);

// ---- oracles
std::string check_file(const std::string &path, const DS &want, int64_t clock0, int64_t clock1, bool exactNames = true, int ev0 = 1);
int first_extver(uint64_t order);   // number a table-by-table client gives to its first table of a kind
bool only_lost_keywords(const DS &want, const DS &got, const DumpOpt &o);
std::string diff_skipped(const DS &want, const DS &got, const DumpOpt &o);
std::string today(int64_t clock);
bool clean_messages(const ProcResult &p, std::string *why);

// ---- shared by the scenarios
GenOpt gen_opt(Plan &P, const std::string &k, bool allow_v1);
EncOpt enc_opt(Plan &P, const std::string &k);
std::string bad_end(const ProcResult &p);
std::string norm_file(std::vector<uint8_t> b);
std::string slice(const std::string &s, size_t n = 400);
std::vector<uint8_t> damage(Plan &P, const std::string &k, std::vector<uint8_t> b, const std::vector<HduInfo> &hdu);
std::vector<uint8_t> damaged_file(Plan &P, const std::string &k, const DS &ds, EncOpt e, RunResult &R);
std::vector<std::string> some_tool(Plan &P, const std::string &k, const std::vector<std::string> &in, const std::string &out, std::string &name);
void apply_spec(const FilterSpec &f, oi_filter_spec *o);
FilterSpec gen_spec(Plan &P, const std::string &k, const DS &ds, bool cli);
void exact_values(DS &ds, Rng r);
void extreme_values(DS &ds, Rng r, bool dates);
void tidy(DS &ds);
std::string lookups_wrong(oi_fits *oi, const DS &ds);

// ---- jobs: what one process does with files on the simulated disk
std::string some_description(Plan &P, const std::string &k);      // for oitable-demo
int run_demo(const std::string &text, const std::string &out, const std::string &list);
struct Job { std::string name, text; std::vector<std::string> args; std::vector<std::string> in; FilterSpec f; int lib = 0; DS wds; std::string out; bool writes = false; };
struct Inputs { std::vector<std::string> path; std::vector<DS> ds; bool damaged = false; };
std::string iter_text(const oi_fits *o, const oi_filter_spec *sp);
std::string checks_text(const oi_fits *o);
std::string dups_text(const oi_fits *o);
std::string lookups_text(const oi_fits *o);
std::string facts_text(const oi_fits *o);
std::string lib_text(const Job &J, int &bad);
std::string norm_text(const std::string &s);
int run_job(const Job &J);
Job gen_job(Plan &P, const std::string &k, const std::vector<std::string> &in, const std::vector<DS> &ds, const std::string &out, int kinds = 7);
Inputs gen_inputs(Plan &P, RunResult &R, int maxn, int dmg_num, int dmg_den, bool big = false, bool dangle = false);
bool crashed_badly(const ProcResult &p);
