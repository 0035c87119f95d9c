// Simulated disk: every file the code under test opens for writing lives in memory here; errors are injected by plan.
// Works below stdio and below libstdc++'s filebuf (which uses fopen/fileno/write/writev/lseek/fclose).
#include "internal.h"
#include <stdio.h>
#include <stdlib.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/uio.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <dlfcn.h>

namespace sim {
static const int FD0 = 5000, MAXFD = 64;
struct FFile { char name[256]; char* data; size_t n, cap; bool exists; };
struct FFd { bool open; int file; size_t pos; bool append, rd, wr; FILE* fp; bool failed; };
static FFile files[64]; static int nfiles;
static FFd fds[MAXFD];
static i64 opn; static i64 disk_left; static bool disk_limited;
static std::vector<IoPlan>* plans;

void io_child_init() { IntScope s; plans = new std::vector<IoPlan>; opn = 0; disk_limited = false; }
void io_reset() { nfiles = 0; for (auto& f : fds) f.open = false; opn = 0; disk_limited = false; IntScope s; plans->clear(); }
void io_arm(i64 at, int kind, i64 param) { IntScope s; IoPlan p = {at, kind, param}; plans->push_back(p); }
void io_disarm() { plans->clear(); disk_limited = false; }
void io_disk_space(i64 bytes) { disk_limited = bytes >= 0; disk_left = bytes; }
i64 io_ops() { return opn; }
static FFile* find_file(const char* n) { for (int i = 0; i < nfiles; ++i) if (files[i].exists && !strcmp(files[i].name, n)) return &files[i]; return 0; }
bool io_file(const char* name, const char** data, size_t* n) { FFile* f = find_file(name); if (!f) return false; *data = f->data; *n = f->n; return true; }
int io_nfiles() { int k = 0; for (int i = 0; i < nfiles; ++i) if (files[i].exists) ++k; return k; }
const char* io_file_name(int k) { for (int i = 0; i < nfiles; ++i) if (files[i].exists && !k--) return files[i].name; return 0; }
int io_open_fds() { int k = 0; for (auto& f : fds) if (f.open) ++k; return k; }
static bool on() { return in_sim() && g_internal == 0; }

// kinds: 1 open fails (param errno)  2 write fails once (param errno)  3 write fails from here on (param errno)
//        4 short write (param bytes)  5 EINTR  6 close fails (param errno; data of the last `1` write lost)
static const IoPlan* hit(int a, int b, int c, int d) {
  for (auto& p : *plans) {
    if (p.kind != a && p.kind != b && p.kind != c && p.kind != d) continue;
    if (p.fail_at == opn || (p.kind == 3 && p.fail_at <= opn)) return &p;
  }
  return 0;
}
static int open_file(const char* name, bool rd, bool wr, bool creat, bool trunc, bool append) {
  sync_step(200, 0); ++opn;
  if (const IoPlan* p = hit(1, -1, -1, -1)) { count_fault("open_error"); errno = (int)p->param; return -1; }
  FFile* f = find_file(name);
  if (!f) {
    if (!creat) { errno = ENOENT; return -1; }
    if (nfiles >= 64) { errno = ENFILE; return -1; }
    f = &files[nfiles++]; memset(f, 0, sizeof *f); snprintf(f->name, sizeof f->name, "%s", name); f->exists = true;
  } else if (trunc) f->n = 0;
  for (int i = 0; i < MAXFD; ++i) if (!fds[i].open) { FFd& d = fds[i]; memset(&d, 0, sizeof d); d.open = true; d.file = (int)(f - files); d.append = append; d.rd = rd; d.wr = wr; return FD0 + i; }
  errno = EMFILE; return -1;
}
static bool ours(int fd) { return fd >= FD0 && fd < FD0 + MAXFD && fds[fd - FD0].open; }
static ssize_t do_write(int fd, const char* b, size_t n) {
  sync_step(201, 0); ++opn;
  FFd& d = fds[fd - FD0]; FFile& f = files[d.file];
  if (!d.wr) { errno = EBADF; return -1; }
  if (const IoPlan* p = hit(2, 3, 4, 5)) {
    if (p->kind == 2) { count_fault("write_error_once"); d.failed = true; errno = (int)p->param; return -1; }
    if (p->kind == 3) { count_fault("write_error_persistent"); d.failed = true; errno = (int)p->param; return -1; }
    if (p->kind == 5) { count_fault("interrupted_write"); errno = EINTR; return -1; }
    if (p->kind == 4 && (size_t)p->param < n) { count_fault("short_write"); n = p->param > 0 ? p->param : 1; }
  }
  if (disk_limited) {
    if (disk_left <= 0) { count_fault("disk_full"); errno = ENOSPC; return -1; }
    if ((i64)n > disk_left) n = disk_left;
    disk_left -= n;
  }
  if (d.append) d.pos = f.n;
  IntScope s;
  if (d.pos + n > f.cap) { f.cap = (d.pos + n) * 2 + 4096; f.data = (char*)realloc(f.data, f.cap); }
  if (d.pos > f.n) memset(f.data + f.n, 0, d.pos - f.n);
  memcpy(f.data + d.pos, b, n); d.pos += n; if (d.pos > f.n) f.n = d.pos;
  return n;
}
static int do_close(int fd) {
  sync_step(202, 0); ++opn;
  FFd& d = fds[fd - FD0]; d.open = false;
  if (const IoPlan* p = hit(6, -1, -1, -1)) { count_fault("close_error"); FFile& f = files[d.file]; f.n = f.n > 7 ? f.n - 7 : 0; errno = (int)p->param; return -1; }
  return 0;
}
static off_t do_seek(int fd, off_t o, int w) {
  FFd& d = fds[fd - FD0]; off_t b = w == SEEK_SET ? 0 : w == SEEK_CUR ? (off_t)d.pos : (off_t)files[d.file].n;
  if (b + o < 0) { errno = EINVAL; return -1; } d.pos = b + o; return d.pos;
}
static ssize_t do_read(int fd, char* b, size_t n) { FFd& d = fds[fd - FD0]; FFile& f = files[d.file]; size_t l = d.pos < f.n ? f.n - d.pos : 0; if (n > l) n = l; memcpy(b, f.data + d.pos, n); d.pos += n; return n; }
static ssize_t ck_write(void* c, const char* b, size_t n) {       // stdio: retry short writes like the kernel-backed FILE does
  size_t done = 0; int fd = (int)(intptr_t)c;
  while (done < n) { ssize_t r = do_write(fd, b + done, n - done); if (r < 0) { return done ? (ssize_t)done : 0; } done += r; }
  return done; }
static ssize_t ck_read(void* c, char* b, size_t n) { return do_read((int)(intptr_t)c, b, n); }
static int ck_seek(void* c, off64_t* o, int w) { off_t r = do_seek((int)(intptr_t)c, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void* c) { return do_close((int)(intptr_t)c); }
// looked up in plain pointers, eagerly: a guarded function-local static would be a synchronisation step whose presence
// depends on what the parent process did before the run
static FILE* (*real_fopen)(const char*, const char*); static int (*real_fileno)(FILE*); static int (*real_fclose)(FILE*);
template <class T> static T& real(T& f, const char* n) { if (!f) { IntScope s; f = (T)dlsym(RTLD_NEXT, n); } return f; }
void io_process_init() { real(real_fopen, "fopen"); real(real_fileno, "fileno"); real(real_fclose, "fclose"); }
static FILE* fake_fopen(const char* name, const char* mode) {
  bool rd = false, wr = false, cr = false, tr = false, ap = false;
  if (mode[0] == 'r') rd = true; else if (mode[0] == 'w') { wr = cr = tr = true; } else { wr = cr = ap = true; }
  if (strchr(mode, '+')) rd = wr = true;
  int fd = open_file(name, rd, wr, cr, tr, ap); if (fd < 0) return 0;
  IntScope s;
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  FILE* fp = fopencookie((void*)(intptr_t)fd, mode, io); fds[fd - FD0].fp = fp; return fp;
}
}
using namespace sim;
extern "C" {
FILE* fopen(const char* n, const char* m) { if (!on()) { return real(real_fopen, "fopen")(n, m); } return fake_fopen(n, m); }
FILE* fopen64(const char* n, const char* m) { return fopen(n, m); }
int fileno(FILE* fp) noexcept { for (int i = 0; i < MAXFD; ++i) if (fds[i].open && fds[i].fp == fp) return FD0 + i; return real(real_fileno, "fileno")(fp); }
int fclose(FILE* fp) { return real(real_fclose, "fclose")(fp); }
ssize_t write(int fd, const void* b, size_t n) { if (on() && ours(fd)) return do_write(fd, (const char*)b, n); return syscall(SYS_write, fd, b, n); }
ssize_t writev(int fd, const struct iovec* v, int c) {
  if (!(on() && ours(fd))) return syscall(SYS_writev, fd, v, c);
  size_t t = 0; for (int i = 0; i < c; ++i) t += v[i].iov_len;
  char* b; { IntScope s; b = (char*)malloc(t + 1); } size_t o = 0; for (int i = 0; i < c; ++i) { memcpy(b + o, v[i].iov_base, v[i].iov_len); o += v[i].iov_len; }
  ssize_t r = do_write(fd, b, t); { IntScope s; int e = errno; free(b); errno = e; } return r; }
ssize_t read(int fd, void* b, size_t n) { if (on() && ours(fd)) return do_read(fd, (char*)b, n); return syscall(SYS_read, fd, b, n); }
off_t lseek(int fd, off_t o, int w) noexcept { if (on() && ours(fd)) return do_seek(fd, o, w); return syscall(SYS_lseek, fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) noexcept { return lseek(fd, o, w); }
int open(const char* n, int fl, ...) { mode_t m = 0; if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
  if (!on()) return (int)syscall(SYS_openat, AT_FDCWD, n, fl, m);
  int a = fl & O_ACCMODE; return open_file(n, a != O_WRONLY, a != O_RDONLY, fl & O_CREAT, fl & O_TRUNC, fl & O_APPEND); }
int open64(const char* n, int fl, ...) { mode_t m = 0; if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); } return open(n, fl, m); }
int close(int fd) { if (on() && ours(fd)) return do_close(fd); return (int)syscall(SYS_close, fd); }
int fsync(int fd) { if (on() && ours(fd)) { sync_step(203, 0); return 0; } return (int)syscall(SYS_fsync, fd); }
int rename(const char* a, const char* b) noexcept { if (!on()) return (int)syscall(SYS_rename, a, b);
  sync_step(204, 0); FFile* f = find_file(a); if (!f) { errno = ENOENT; return -1; } if (FFile* o = find_file(b)) o->exists = false; snprintf(f->name, sizeof f->name, "%s", b); return 0; }
int unlink(const char* a) noexcept { if (!on()) return (int)syscall(SYS_unlink, a); FFile* f = find_file(a); if (!f) { errno = ENOENT; return -1; } f->exists = false; return 0; }
int remove(const char* a) noexcept { return unlink(a); }
}
