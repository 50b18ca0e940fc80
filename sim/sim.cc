#include <execinfo.h>
#include <csignal>
#include <ucontext.h>
#include <dlfcn.h>
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.h"
#include <cerrno>
#include <climits>
#include <ctime>
#include <cstdarg>
#include <cstdlib>
#include <dlfcn.h>
#include <fcntl.h>
#include <link.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>

const char *opclass_name[OC_N] = {"open", "read", "write", "seek", "close", "remove", "stat", "malloc", "cfitsio-malloc", "any"};
const char *faultkind_name[FK_N] = {"EIO", "ENOSPC", "short", "early-EOF", "EACCES", "EMFILE", "ENOENT", "crash", "torn-crash", "ENOMEM", "EINTR"};
World *W = nullptr;
unsigned char *DISK = nullptr;
static int out_fd = -1, err_fd = -1;
static const char SIMROOT[] = "/sim/";
static bool in_sim = false;          // true only inside a simulated process

static uintptr_t cf_lo = 0, cf_hi = 0;   // where libcfitsio lies in memory
static int find_cfitsio(struct dl_phdr_info *i, size_t, void *) {
  if (!strstr(i->dlpi_name, "cfitsio")) return 0;
  for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_LOAD) {
    uintptr_t a = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, b = a + i->dlpi_phdr[k].p_memsz;
    if (!cf_lo || a < cf_lo) cf_lo = a;
    if (b > cf_hi) cf_hi = b;
  }
  return 1;
}
static bool is_sim(const char *p) { return p && strncmp(p, SIMROOT, sizeof SIMROOT - 1) == 0; }

// ---------------------------------------------------------------- disk
void world_init() {
  W = (World *)mmap(nullptr, sizeof(World), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  DISK = (unsigned char *)mmap(nullptr, FILECAP * MAXFILES, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (W == MAP_FAILED || DISK == MAP_FAILED) { perror("mmap"); exit(3); }
  dl_iterate_phdr(find_cfitsio, nullptr);
  out_fd = memfd_create("simout", 0);
  err_fd = memfd_create("simerr", 0);
  if (out_fd < 0 || err_fd < 0) { perror("memfd"); exit(3); }
  world_reset();
}
void world_reset() {
  for (int i = 0; i < MAXFILES; i++) { W->ino[i] = SimInode(); }
  W->disk_free = INT64_MAX;
  W->clock = 1000000000; W->clock_step = 0;
  memset(W->ops, 0, sizeof W->ops);
  W->total_ops = 0; W->all_ops = 0; W->step_budget = 400000;
  W->nfaults = 0; W->cur_proc = 0; W->hash = 0xcbf29ce484222325ULL;
  W->open_handles = 0; W->hang = 0; W->crashed = 0;
  W->mem_limit = 512ll << 20; W->mem_live = 0; W->mem_peak = 0; W->mallocs_live = 0;
  W->alloc_fill = 0xA5; W->seam_bypass = 0; W->sim_seconds = 0; W->full_disk_events = 0;
  W->rep_len = 0; W->trace_len = 0;
}
// several spellings of a path name the same file
static std::string canon(const std::string &p) {
  std::vector<std::string> parts; size_t i = 0;
  while (i < p.size()) {
    size_t j = p.find('/', i); if (j == std::string::npos) j = p.size();
    std::string w = p.substr(i, j - i); i = j + 1;
    if (w == "..") { if (!parts.empty()) parts.pop_back(); } else if (!w.empty() && w != ".") parts.push_back(w);
  }
  std::string r; for (auto &w : parts) r += "/" + w; return r;
}
int disk_find(const std::string &path0) {
  std::string path = canon(path0);
  for (int i = 0; i < MAXFILES; i++)
    if (W->ino[i].used && W->ino[i].linked && path == W->ino[i].name) return i;
  return -1;
}
bool disk_exists(const std::string &p) { return disk_find(p) >= 0; }
static int ino_new(const std::string &path) {
  for (int i = 0; i < MAXFILES; i++) {
    SimInode &n = W->ino[i];
    if (!n.used || (!n.linked && n.refs == 0)) {
      n = SimInode();
      n.used = n.linked = 1;
      snprintf(n.name, sizeof n.name, "%s", canon(path).c_str());
      return i;
    }
  }
  return -1;
}
std::vector<uint8_t> disk_get(const std::string &path) {
  int i = disk_find(path);
  if (i < 0) return {};
  return std::vector<uint8_t>(ino_data(i), ino_data(i) + W->ino[i].size);
}
void disk_put(const std::string &path, const std::vector<uint8_t> &b) {
  int i = disk_find(path);
  if (i < 0) i = ino_new(path);
  if (i < 0 || b.size() > FILECAP) { fprintf(stderr, "sim: disk_put overflow\n"); exit(3); }
  memcpy(ino_data(i), b.data(), b.size());
  W->ino[i].size = b.size();
}
void disk_rm(const std::string &path) {
  int i = disk_find(path);
  if (i >= 0) { W->ino[i].linked = 0; }
}
std::vector<std::string> disk_ls() {
  std::vector<std::string> r;
  for (int i = 0; i < MAXFILES; i++) if (W->ino[i].used && W->ino[i].linked) r.push_back(W->ino[i].name);
  return r;
}
DiskImage disk_image() {
  DiskImage d;
  for (auto &p : disk_ls()) d[p] = disk_get(p);
  return d;
}
void report(const char *fmt, ...) {
  va_list ap; va_start(ap, fmt);
  char buf[4096];
  int n = vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (n < 0) return;
  if ((size_t)n >= sizeof buf) n = sizeof buf - 1;
  if (W->rep_len + n + 2 < REPCAP) {
    memcpy(W->report + W->rep_len, buf, n); W->rep_len += n;
    W->report[W->rep_len++] = '\n';
  }
}
void tracef(const char *fmt, ...) {
  if (!W->trace_on) return;
  va_list ap; va_start(ap, fmt);
  char buf[512];
  int n = vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (n < 0) return;
  if ((size_t)n >= sizeof buf) n = sizeof buf - 1;
  if (W->trace_len + n + 2 < TRACECAP) {
    memcpy(W->trace + W->trace_len, buf, n); W->trace_len += n;
    W->trace[W->trace_len++] = '\n';
  }
}

// ---------------------------------------------------------------- fault engine
static void hash_op(int cls, int64_t a, int64_t b, int64_t c) {
  int64_t v[4] = {cls, a, b, c};
  W->hash = fnv(v, sizeof v, W->hash);
}
[[noreturn]] static void sim_crash() {
  W->crashed = 1;
  _exit(77);
}
// called once per seam operation; returns the fault that fires for it, or null
static Fault *op_enter(int cls) {
  uint64_t n = W->ops[cls]++;
  uint64_t any = W->total_ops;
  if (cls != OC_MALLOC && cls != OC_LMALLOC) {
    any = W->total_ops++;
    W->all_ops++;
    if (W->total_ops > W->step_budget) { W->hang = 1; _exit(78); }
  }
  for (int i = 0; i < W->nfaults; i++) {
    Fault &f = W->faults[i];
    if (f.proc != W->cur_proc) continue;
    int64_t k;
    if (f.cls == cls) k = (int64_t)n;
    else if (f.cls == OC_ANY && cls != OC_MALLOC && cls != OC_LMALLOC) k = (int64_t)any;
    else continue;
    if (k < f.nth || k - f.nth >= f.len) continue;
    f.fired++;
    tracef("  ! fault %s on %s #%lld", faultkind_name[f.kind], opclass_name[cls], (long long)n);
    if (f.kind == FK_CRASH) sim_crash();
    if (f.kind == FK_CRASH_TORN && cls != OC_WRITE) sim_crash();
    return &f;
  }
  return nullptr;
}
static int fault_errno(const Fault *f) {
  switch (f->kind) {
    case FK_ENOSPC: return ENOSPC;
    case FK_EACCES: return EACCES;
    case FK_EMFILE: return EMFILE;
    case FK_ENOENT: return ENOENT;
    case FK_NOMEM: return ENOMEM;
    case FK_EINTR: return EINTR;
    default: return EIO;
  }
}
void set_faults(const std::vector<Fault> &f) {
  W->nfaults = 0;
  for (auto &x : f) if (W->nfaults < MAXFAULTS) { W->faults[W->nfaults] = x; W->faults[W->nfaults++].fired = 0; }
}
uint64_t faults_fired(int kind) {
  uint64_t n = 0;
  for (int i = 0; i < W->nfaults; i++) if (W->faults[i].kind == kind) n += W->faults[i].fired;
  return n;
}

// ---------------------------------------------------------------- stdio seam
struct Handle { int ino; uint64_t pos; bool rd, wr, app; FILE *f; int fakefd; int buf; };
// stream buffers are reused, so that the harness itself never leaks
static char stream_buf[64][4096];
static bool stream_buf_used[64];
static int buf_get() { for (int i = 0; i < 64; i++) if (!stream_buf_used[i]) { stream_buf_used[i] = true; return i; } return -1; }
static std::vector<Handle *> &handles() { static std::vector<Handle *> *h = new std::vector<Handle *>; return *h; }
static int next_fakefd = 70000;

static uint8_t seen_block[MAXFILES][FILECAP / 2880 + 2];   // of this process only
static ssize_t ck_read(void *c, char *buf, size_t n) {
  Handle *h = (Handle *)c;
  SimInode &ino = W->ino[h->ino];
  Fault *f = op_enter(OC_READ);
  size_t avail = h->pos < ino.size ? (size_t)(ino.size - h->pos) : 0;
  size_t k = n < avail ? n : avail;
  if (!h->rd) { errno = EBADF; return -1; }
  if (f) {
    if (f->kind == FK_EOF) { hash_op(OC_READ, h->ino, h->pos, -2); return 0; }
    if (f->kind == FK_SHORT) { size_t lim = (f->len > 1000 ? 64 : 1) + (size_t)(f->arg % 1000); if (k > lim) k = lim; }
    else { hash_op(OC_READ, h->ino, h->pos, -1); errno = fault_errno(f); return -1; }
  }
  memcpy(buf, ino_data(h->ino) + h->pos, k);
  tracef("  read  %s @%llu +%zu -> %zu", ino.name, (unsigned long long)h->pos, n, k);
  hash_op(OC_READ, h->ino, h->pos, (int64_t)k);
  if (k && h->pos < FILECAP) {
    uint8_t &b = seen_block[h->ino][h->pos / 2880];
    if (b) { uint32_t m = W->nreread++; W->reread[m < 64 ? m : 32 + m % 32] = (uint32_t)W->ops[OC_READ] - 1; }
    b = 1;
  }
  h->pos += k;
  return (ssize_t)k;
}
static ssize_t ck_write1(void *c, const char *buf, size_t n);
static bool short_write;
static ssize_t ck_write(void *c, const char *buf, size_t n) {
  // stdio repeats a short write(2) for the rest; custom streams would not
  size_t done = 0;
  for (;;) {
    short_write = false;
    ssize_t k = ck_write1(c, buf + done, n - done);
    if (k <= 0) return done ? (ssize_t)done : k;
    done += (size_t)k;
    if (done >= n || !short_write) return (ssize_t)done;
  }
}
static ssize_t ck_write1(void *c, const char *buf, size_t n) {
  Handle *h = (Handle *)c;
  SimInode &ino = W->ino[h->ino];
  Fault *f = op_enter(OC_WRITE);
  if (!h->wr) { errno = EBADF; return 0; }
  if (h->app) h->pos = ino.size;
  size_t k = n;
  bool torn = false; int err = 0;
  if (f) {
    if (f->kind == FK_CRASH_TORN) { torn = true; k = n ? (size_t)(f->arg % (int64_t)(n + 1)) : 0; }
    else if (f->kind == FK_SHORT) { size_t lim = (f->len > 1000 ? 64 : 1) + (size_t)(f->arg % 1000); if (k > lim) { k = lim; short_write = true; } }
    else { k = 0; err = fault_errno(f); }
  }
  if (h->pos + k > FILECAP) { k = 0; err = EFBIG; }
  uint64_t end = h->pos + k;
  if (k && end > ino.size && W->disk_free != INT64_MAX) {
    int64_t grow = (int64_t)(end - ino.size);
    if (grow > W->disk_free) {
      // full disk: only what fits is written (partial write, then ENOSPC)
      int64_t fit = (int64_t)k - (grow - W->disk_free);
      if (fit <= 0) { k = 0; err = ENOSPC; } else k = (size_t)fit;
      end = h->pos + k;
      W->full_disk_events++;
    }
    if (k && end > ino.size) W->disk_free -= (int64_t)(end - ino.size);
  }
  if (k) {
    if (h->pos > ino.size) memset(ino_data(h->ino) + ino.size, 0, h->pos - ino.size);
    memcpy(ino_data(h->ino) + h->pos, buf, k);
    if (end > ino.size) ino.size = end;
    ino.nwrites++;
  }
  tracef("  write %s @%llu +%zu -> %zu%s", ino.name, (unsigned long long)h->pos, n, k, err ? " (error)" : "");
  if (k) tracef("    data %016llx", (unsigned long long)fnv(buf, k, 7));
  hash_op(OC_WRITE, h->ino, h->pos, (int64_t)k);
  if (k) W->hash = fnv(buf, k, W->hash);
  h->pos += k;
  if (torn) sim_crash();
  if (err) { errno = err; return 0; }      // fopencookie write: 0 signals error
  return (ssize_t)k;
}
static int ck_seek(void *c, off64_t *off, int whence) {
  Handle *h = (Handle *)c;
  Fault *f = op_enter(OC_SEEK);
  if (f) { hash_op(OC_SEEK, h->ino, *off, -1); errno = fault_errno(f); return -1; }
  int64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (int64_t)h->pos : (int64_t)W->ino[h->ino].size;
  int64_t np = base + *off;
  if (np < 0) { errno = EINVAL; return -1; }
  h->pos = (uint64_t)np;
  *off = np;
  hash_op(OC_SEEK, h->ino, np, 0);
  tracef("  seek  %s -> %lld", W->ino[h->ino].name, (long long)np);
  return 0;
}
static int ck_close(void *c) {
  Handle *h = (Handle *)c;
  Fault *f = op_enter(OC_CLOSE);
  W->ino[h->ino].refs--;
  W->open_handles--;
  hash_op(OC_CLOSE, h->ino, f ? 1 : 0, 0);
  tracef("  close %s%s", W->ino[h->ino].name, f ? " (error)" : "");
  auto &v = handles();
  for (size_t i = 0; i < v.size(); i++) if (v[i] == h) { v.erase(v.begin() + i); break; }
  if (h->buf >= 0) stream_buf_used[h->buf] = false;
  delete h;
  if (f) { errno = fault_errno(f); return -1; }
  return 0;
}
static FILE *sim_fopen(const char *path, const char *mode) {
  Fault *f = op_enter(OC_OPEN);
  bool rd = mode[0] == 'r' || strchr(mode, '+'), wr = mode[0] != 'r' || strchr(mode, '+');
  int i = disk_find(path);
  if (f) { hash_op(OC_OPEN, -1, -1, f->kind); tracef("  open  %s %s (error)", path, mode); errno = fault_errno(f); return nullptr; }
  if (i < 0) {
    if (mode[0] == 'r') { hash_op(OC_OPEN, -2, 0, 0); tracef("  open  %s %s -> ENOENT", path, mode); errno = ENOENT; return nullptr; }
    i = ino_new(path);
    if (i < 0) { errno = ENFILE; return nullptr; }
  } else if (mode[0] == 'w') {
    if (strchr(mode, 'x')) { errno = EEXIST; return nullptr; }
    if (W->disk_free != INT64_MAX) W->disk_free += (int64_t)W->ino[i].size;
    W->ino[i].size = 0; W->ino[i].nwrites++;
  }
  hash_op(OC_OPEN, i, mode[0], 0);
  tracef("  open  %s %s", path, mode);
  Handle *h = new Handle{i, 0, rd, wr, mode[0] == 'a', nullptr, next_fakefd++, buf_get()};
  W->ino[i].refs++;
  W->open_handles++;
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  FILE *fp = fopencookie(h, mode, io);
  if (!fp) { delete h; return nullptr; }
  if (h->buf >= 0) setvbuf(fp, stream_buf[h->buf], _IOFBF, 4096);      // what a regular file gets (st_blksize)
  h->f = fp;
  handles().push_back(h);
  return fp;
}
static Handle *by_file(FILE *f) { for (auto *h : handles()) if (h->f == f) return h; return nullptr; }
static Handle *by_fd(int fd) { for (auto *h : handles()) if (h->fakefd == fd) return h; return nullptr; }

template <class T> static T real(const char *name) { return (T)dlsym(RTLD_NEXT, name); }

extern "C" {
FILE *fopen64(const char *path, const char *mode) {
  if (is_sim(path)) return sim_fopen(path, mode);
  static auto r = real<FILE *(*)(const char *, const char *)>("fopen64");
  return r(path, mode);
}
FILE *fopen(const char *path, const char *mode) {
  if (is_sim(path)) return sim_fopen(path, mode);
  static auto r = real<FILE *(*)(const char *, const char *)>("fopen");
  return r(path, mode);
}
int fileno(FILE *f) {
  if (in_sim) if (Handle *h = by_file(f)) return h->fakefd;
  static auto r = real<int (*)(FILE *)>("fileno");
  return r(f);
}
static int sim_truncate(Handle *h, int64_t len) {
  Fault *f = op_enter(OC_WRITE);
  if (f && f->kind != FK_SHORT) { if (f->kind == FK_CRASH_TORN) sim_crash(); errno = fault_errno(f); return -1; }
  SimInode &n = W->ino[h->ino];
  if ((uint64_t)len > n.size) memset(ino_data(h->ino) + n.size, 0, (uint64_t)len - n.size);
  if (W->disk_free != INT64_MAX) W->disk_free += (int64_t)n.size - len;
  n.size = (uint64_t)len; n.nwrites++;
  hash_op(OC_WRITE, h->ino, -7, len);
  return 0;
}
int ftruncate64(int fd, off64_t len) {
  if (in_sim) if (Handle *h = by_fd(fd)) return sim_truncate(h, len);
  static auto r = real<int (*)(int, off64_t)>("ftruncate64");
  return r(fd, len);
}
int ftruncate(int fd, off_t len) { return ftruncate64(fd, len); }
int fsync(int fd) {
  if (in_sim) if (by_fd(fd)) { Fault *f = op_enter(OC_WRITE); if (f && f->kind != FK_SHORT) { errno = fault_errno(f); return -1; } return 0; }
  static auto r = real<int (*)(int)>("fsync");
  return r(fd);
}
static int sim_remove(const char *path) {
  Fault *f = op_enter(OC_REMOVE);
  int i = disk_find(path);
  tracef("  remove %s%s", path, f ? " (error)" : "");
  if (f) { hash_op(OC_REMOVE, i, -1, 0); errno = fault_errno(f); return -1; }
  hash_op(OC_REMOVE, i, 0, 0);
  if (i < 0) { errno = ENOENT; return -1; }
  W->ino[i].linked = 0;
  if (W->disk_free != INT64_MAX && W->ino[i].refs == 0) W->disk_free += (int64_t)W->ino[i].size;
  return 0;
}
int remove(const char *path) {
  if (is_sim(path)) return sim_remove(path);
  static auto r = real<int (*)(const char *)>("remove");
  return r(path);
}
int unlink(const char *path) {
  if (is_sim(path)) return sim_remove(path);
  static auto r = real<int (*)(const char *)>("unlink");
  return r(path);
}
int rename(const char *a, const char *b) {
  if (is_sim(a) || is_sim(b)) {
    Fault *f = op_enter(OC_REMOVE);
    if (f) { errno = fault_errno(f); return -1; }
    int i = disk_find(a), j = disk_find(b);
    hash_op(OC_REMOVE, i, j, 5);
    tracef("  rename %s %s", a, b);
    if (i < 0) { errno = ENOENT; return -1; }
    if (j >= 0 && j != i) W->ino[j].linked = 0;
    snprintf(W->ino[i].name, sizeof W->ino[i].name, "%s", canon(b).c_str());
    return 0;
  }
  static auto r = real<int (*)(const char *, const char *)>("rename");
  return r(a, b);
}
int access(const char *path, int mode) {
  if (is_sim(path)) {
    Fault *f = op_enter(OC_STAT);
    int i = disk_find(path);
    hash_op(OC_STAT, i, f ? -1 : 0, 0);
    tracef("  access %s%s", path, f ? " (error)" : "");
    if (f) { errno = fault_errno(f); return -1; }
    if (i < 0) { errno = ENOENT; return -1; }
    return 0;
  }
  static auto r = real<int (*)(const char *, int)>("access");
  return r(path, mode);
}
static int sim_stat(const char *path, struct stat *st) {
  Fault *f = op_enter(OC_STAT);
  int i = disk_find(path);
  hash_op(OC_STAT, i, f ? -1 : 0, 1);
  tracef("  stat %s%s", path, f ? " (error)" : "");
  if (f) { errno = fault_errno(f); return -1; }
  if (i < 0) { errno = ENOENT; return -1; }
  memset(st, 0, sizeof *st);
  st->st_mode = S_IFREG | 0644; st->st_size = (off_t)W->ino[i].size; st->st_nlink = 1; st->st_ino = (ino_t)i + 1; st->st_dev = 77;
  return 0;
}
#define STATFN(name, T) \
  int name(const char *path, T *st) { \
    if (is_sim(path)) return sim_stat(path, (struct stat *)st); \
    static auto r = real<int (*)(const char *, T *)>(#name); \
    return r(path, st); }
STATFN(stat, struct stat)
STATFN(lstat, struct stat)
STATFN(stat64, struct stat64)
STATFN(lstat64, struct stat64)

// clock seam
time_t time(time_t *t) {
  if (in_sim) {
    time_t v = (time_t)W->clock;
    W->clock += W->clock_step;
    W->sim_seconds += W->clock_step < 0 ? -W->clock_step : W->clock_step;
    hash_op(50, v, 0, 0);
    if (t) *t = v;
    return v;
  }
  struct timespec ts;
  static auto r = real<int (*)(clockid_t, struct timespec *)>("clock_gettime");
  r(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}

// allocator seam: the repository's objects are compiled with malloc & co
// renamed to these (objcopy); cfitsio, glib and the harness are not.
struct AllocTab { std::unordered_map<void *, size_t> m; std::map<void *, std::vector<void *>> bt; };
static AllocTab &atab() { static AllocTab *t = new AllocTab; return *t; }
static bool alloc_refused(size_t n) {
  Fault *f = in_sim ? op_enter(OC_MALLOC) : nullptr;
  if (f) { hash_op(OC_MALLOC, (int64_t)n, -1, 0); return true; }
  if (in_sim && (n > (size_t)W->mem_limit || W->mem_live + (int64_t)n > W->mem_limit)) { hash_op(OC_MALLOC, (int64_t)n, -2, 0); return true; }
  return false;
}
static const bool leak_debug = getenv("SIM_LEAKS") != nullptr;
void leaks_show(int64_t from) {
  if (!leak_debug) return;
  (void)from;
  for (auto &kv : atab().bt) if (atab().m.count(kv.first)) { char **t = backtrace_symbols(kv.second.data(), (int)kv.second.size()); std::string r; for (size_t i = 2; i < kv.second.size(); i++) r += std::string(" ") + t[i]; report("LEAK:%s", r.c_str()); }
}
static void note_alloc(void *p, size_t n) {
  if (!in_sim || !p) return;
  atab().m[p] = n;
  if (leak_debug) { std::vector<void *> b(8); b.resize((size_t)backtrace(b.data(), 8)); atab().bt[p] = b; }
  W->mem_live += (int64_t)n; W->mallocs_live++;
  if (W->mem_live > W->mem_peak) W->mem_peak = W->mem_live;
}
// every block of the repository is followed by a few bytes nobody may write.
// cfitsio is not instrumented, so with the sanitizers too this is what tells
// that a buffer handed to it was too small.
static const size_t TAIL = 16;
#ifdef SIM_ASAN
extern "C" void __asan_poison_memory_region(const volatile void *, size_t);
extern "C" void __asan_unpoison_memory_region(const volatile void *, size_t);
extern "C" int __sanitizer_get_ownership(const volatile void *);
extern "C" size_t __sanitizer_get_allocated_size(const volatile void *);
#define TAIL_HIDE(p) __asan_poison_memory_region(p, TAIL)
#define TAIL_SHOW(p) __asan_unpoison_memory_region(p, TAIL)
#else
#define TAIL_HIDE(p)
#define TAIL_SHOW(p)
#endif
static void tail_set(void *p, size_t n) {
  volatile unsigned char *c = (volatile unsigned char *)p + n;
  for (size_t i = 0; i < TAIL; i++) c[i] = 0xE7;
  TAIL_HIDE((char *)p + n);
}
static void tail_check(void *p, size_t n) {
  volatile unsigned char *c = (volatile unsigned char *)p + n;
  for (size_t i = 0; i < TAIL; i++) if (c[i] != 0xE7) {
    in_sim = false;
    fprintf(stderr, "malloc(): block of %zu bytes was written past its end (byte +%zu)\n", n, i);
    fflush(stderr);
    abort();
  }
}
static void tails_check() {
#ifdef SIM_ASAN
  for (auto &kv : atab().m) if (__sanitizer_get_ownership(kv.first) && __sanitizer_get_allocated_size(kv.first) == kv.second + TAIL) tail_check(kv.first, kv.second);
#endif
}
static size_t note_free(void *p) {
  if (!in_sim || !p) return 0;
  auto it = atab().m.find(p);
  if (it == atab().m.end()) return 0;
  size_t n = it->second;
  tail_check(p, n);
  TAIL_SHOW((char *)p + n);
  W->mem_live -= (int64_t)n; W->mallocs_live--;
  if (leak_debug) atab().bt.erase(p);
  atab().m.erase(it);
  return n;
}
void *sim_malloc(size_t n) {
  if (alloc_refused(n)) { errno = ENOMEM; return nullptr; }
  void *p = malloc(in_sim ? n + TAIL : n);
  if (p && in_sim) { memset(p, W->alloc_fill, n); tail_set(p, n); }
  note_alloc(p, n);
  return p;
}
void *sim_calloc(size_t a, size_t b) {
  if (alloc_refused(a * b)) { errno = ENOMEM; return nullptr; }
  void *p = in_sim ? calloc(1, a * b + TAIL) : calloc(a, b);
  if (p && in_sim) tail_set(p, a * b);
  note_alloc(p, a * b);
  return p;
}
void *sim_realloc(void *o, size_t n) {
  if (alloc_refused(n)) { errno = ENOMEM; return nullptr; }
  size_t old = note_free(o);
  void *p = realloc(o, in_sim ? n + TAIL : n);
  if (p && in_sim) { if (n > old && (old || !o)) memset((char *)p + old, W->alloc_fill, n - old); tail_set(p, n); }
  note_alloc(p, n);
  return p;
}
void sim_free(void *p) { size_t n = note_free(p); if (n) memset(p, W->alloc_fill ^ 0xA5, n); free(p); }   // nothing readable is left
char *sim_strndup(const char *s, size_t n) {
  n = strnlen(s, n);
  char *p = (char *)sim_malloc(n + 1);
  if (p) { memcpy(p, s, n); p[n] = 0; }
  return p;
}
char *sim_strdup(const char *s) { return sim_strndup(s, strlen(s)); }
int sim_vasprintf(char **r, const char *f, va_list a) {
  va_list b; va_copy(b, a);
  int n = vsnprintf(nullptr, 0, f, b); va_end(b);
  *r = n < 0 ? nullptr : (char *)sim_malloc((size_t)n + 1);
  return *r ? vsnprintf(*r, (size_t)n + 1, f, a) : -1;
}
int sim_asprintf(char **r, const char *f, ...) { va_list a; va_start(a, f); int n = sim_vasprintf(r, f, a); va_end(a); return n; }
#ifndef SIM_ASAN
// allocations made by cfitsio can fail too: told by the caller's address
void *__libc_malloc(size_t); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void __libc_free(void *);
static int64_t heap_live;
static bool lib_refused(void *ra, size_t n) {
  if (!in_sim || (uintptr_t)ra < cf_lo || (uintptr_t)ra >= cf_hi) return false;
  Fault *f = op_enter(OC_LMALLOC);
  if (f) { hash_op(OC_LMALLOC, (int64_t)n, -1, 0); return true; }
  return false;
}
void *malloc(size_t n) { if (lib_refused(__builtin_return_address(0), n)) { errno = ENOMEM; return nullptr; } void *p = __libc_malloc(n); if (p) { heap_live++; if (in_sim && (uintptr_t)__builtin_return_address(0) >= cf_lo && (uintptr_t)__builtin_return_address(0) < cf_hi) memset(p, 0xA5, n); } return p; }
void *calloc(size_t a, size_t b) { if (lib_refused(__builtin_return_address(0), a * b)) { errno = ENOMEM; return nullptr; } void *p = __libc_calloc(a, b); if (p) heap_live++; return p; }
void *realloc(void *p, size_t n) { if (lib_refused(__builtin_return_address(0), n)) { errno = ENOMEM; return nullptr; } void *q = __libc_realloc(p, n); if (!p && q) heap_live++; if (p && !q && !n) heap_live--; return q; }
void free(void *p) { if (p) heap_live--; __libc_free(p); }
#endif
}
#ifdef SIM_ASAN
int64_t heap_blocks() { return 0; }
#else
int64_t heap_blocks() { return heap_live; }
#endif

// ---------------------------------------------------------------- processes
static std::string slurp(int fd) {
  off_t n = lseek(fd, 0, SEEK_END);
  if (n > (8 << 20)) n = 8 << 20;
  std::string s((size_t)(n < 0 ? 0 : n), 0);
  if (n > 0) { ssize_t k = pread(fd, &s[0], (size_t)n, 0); if (k < 0) k = 0; s.resize((size_t)k); }
  return s;
}
std::string ProcResult::describe() const {
  char b[256];
  if (hang) snprintf(b, sizeof b, "did not terminate within its step budget");
  else if (runaway) snprintf(b, sizeof b, "ran away (CPU or output limit)");
  else if (crashed) snprintf(b, sizeof b, "injected crash");
  else if (sig) snprintf(b, sizeof b, "killed by signal %d (%s)", sig, strsignal(sig));
  else if (asan) snprintf(b, sizeof b, "sanitizer report");
  else snprintf(b, sizeof b, "exit status %d", code);
  std::string r = b;
  if ((sig || asan) && !err.empty()) {
    size_t p = err.find("ERROR: AddressSanitizer"); if (p == std::string::npos) p = err.find("runtime error");
    if (p == std::string::npos) { p = err.size() > 300 ? err.size() - 300 : 0; }
    r += ": " + err.substr(p, 600);
  }
  return r;
}
#ifndef SIM_ASAN
// notes whether a fatal access happened inside cfitsio (or in a C library
// function it called), then lets the process die of it
static void on_fatal(int sig, siginfo_t *, void *uc) {
  void *pc = (void *)((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP], *bt[40];
  int n = backtrace(bt, 40), i = 0;
  while (i < n && bt[i] != pc) i++;
  Dl_info d;
  W->crash_lib = 0;
  for (; i < n; i++) {
    if (!dladdr(bt[i], &d) || !d.dli_fname) break;
    if (strstr(d.dli_fname, "libcfitsio")) { W->crash_lib = 1; break; }
    if (!strstr(d.dli_fname, "libc.so")) break;
  }
  signal(sig, SIG_DFL);
}
static void watch_fatal() {
  static char stk[1 << 16];
  stack_t ss{}; ss.ss_sp = stk; ss.ss_size = sizeof stk;
  sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_fatal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE}) sigaction(s, &sa, nullptr);
}
#endif
#ifndef SIM_ASAN
// what cfitsio reads from its stack before writing to it must not depend on
// what this process ran before
__attribute__((noinline)) static void paint_stack() { char b[192 << 10]; memset(b, 0xA5, sizeof b); asm volatile("" : : "r"(b) : "memory"); }
#endif
ProcResult run_proc(int proc, const std::function<int()> &fn) {
  ProcResult r;
  W->cur_proc = proc;
  memset(W->ops, 0, sizeof W->ops);
  W->total_ops = 0; W->hang = 0; W->crashed = 0; W->open_handles = 0;
  W->mem_live = 0; W->mem_peak = 0; W->mallocs_live = 0; W->nreread = 0;
  W->rep_len = 0; W->mark = 0; W->crash_lib = 0;
  for (int i = 0; i < MAXFILES; i++) W->ino[i].refs = 0;
  (void)!real<int (*)(int, off64_t)>("ftruncate64")(out_fd, 0);
  (void)!real<int (*)(int, off64_t)>("ftruncate64")(err_fd, 0);
  lseek(out_fd, 0, SEEK_SET); lseek(err_fd, 0, SEEK_SET);
  fflush(stdout); fflush(stderr);
  tracef("process %d starts", proc);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(3); }
  if (pid == 0) {
    dup2(out_fd, 1); dup2(err_fd, 2);
    struct rlimit rl = {4 << 20, 4 << 20};
    setrlimit(RLIMIT_FSIZE, &rl);
    rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    rl = {20, 25};
    setrlimit(RLIMIT_CPU, &rl);
#ifndef SIM_ASAN
    watch_fatal();
    paint_stack();
#endif
    in_sim = true;
    atexit(tails_check);
    int code = fn();
    fflush(stdout);
    exit(code);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (WIFEXITED(st)) { r.exited = true; r.code = WEXITSTATUS(st); }
  else { r.sig = WTERMSIG(st); }
  r.crashed = W->crashed; r.hang = W->hang; r.in_cfitsio = W->crash_lib && r.sig;
  if (r.crashed || r.hang) r.exited = false;
  if (r.sig == SIGXFSZ || r.sig == SIGXCPU || r.sig == SIGKILL) r.runaway = true;
  r.out = slurp(out_fd); r.err = slurp(err_fd);
  if (r.exited && r.code == 86) { r.asan = true; }   // sanitizer exitcode
  if (r.err.find("runtime error:") != std::string::npos && r.err.find("-fsanitize") == std::string::npos && r.exited && r.code == 86) r.asan = true;
  r.rep.assign(W->report, W->rep_len);
  memcpy(r.ops, W->ops, sizeof r.ops);
  r.total_ops = W->total_ops;
  r.open_handles = W->open_handles;
  r.reread.assign(W->reread, W->reread + std::min<uint32_t>(W->nreread, 64));
  r.mem_peak = W->mem_peak; r.mallocs_live = W->mallocs_live;
  int64_t e[3] = {r.exited ? r.code : 1000 + r.sig, r.hang, r.crashed};
  W->hash = fnv(e, sizeof e, W->hash);
  W->hash = fnvs(r.rep, W->hash);
  if (!r.out.empty()) tracef("  stdout: %s", r.out.substr(0, 400).c_str());
  if (!r.err.empty()) tracef("  stderr: %s", r.err.substr(0, 400).c_str());
  if (!r.rep.empty()) tracef("  report: %s", r.rep.substr(0, 4000).c_str());
  tracef("process %d ends: %s", proc, r.exited ? ("exit " + std::to_string(r.code)).c_str() : r.describe().substr(0, 80).c_str());
  return r;
}

int64_t Plan::note(const std::string &key, int64_t v, int64_t lo, int64_t hi) {
  auto it = ov.find(key);
  if (it != ov.end()) { v = it->second; if (v < lo) v = lo; if (v > hi) v = hi; }
  if (!rec.count(key)) order.push_back(key);
  rec[key] = {v, lo, hi};
  return v;
}
int64_t Plan::pick(const std::string &key, int64_t lo, int64_t hi) {
  if (hi < lo) hi = lo;
  uint64_t h = mix64(seed ^ mix64(fnvs(key)));
  int64_t v = lo + (int64_t)(h % (uint64_t)(hi - lo + 1));
  return note(key, v, lo, hi);
}
