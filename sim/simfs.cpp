// In-memory disk below libstdc++'s filebuf and C stdio: paths under /simfs/ are
// served from here, everything else goes to the real system.  A crash of the
// simulated process freezes the disk: later operations of the dying process have
// no effect (its remaining code runs as a zombie whose results are ignored).
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rt.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <memory>

namespace sim {

struct File {
    std::string data;
    uint64_t psize = 0, pseed = 0;          // a read-only file of computed bytes after `data` (sparse stand-in for huge files)
    uint64_t size() const { return psize ? psize : data.size(); }
};
unsigned char fs_pattern(uint64_t seed, uint64_t off) { return (unsigned char)((seed + off + 1) * 0x9E3779B97F4A7C15ull >> 53); }
typedef std::shared_ptr<File> FileP;
struct Handle { bool used = false; FileP f; size_t pos = 0; bool rd = false, wr = false, app = false; std::string path; size_t last_write = 0; FILE* cookie = nullptr; };

struct FS {
    std::map<std::string, FileP> files;
    std::vector<Handle> h;
    bool crashed = false, eio = false, full = false;
    long ops = 0;
};
static FS* fs;
static const int FD0 = 1 << 20;

void fs_init() { RtGuard r; fs = new FS(); }
void fs_run_reset() { if (!fs) return; RtGuard r; fs->files.clear(); fs->h.clear(); fs->crashed = fs->eio = fs->full = false; fs->ops = 0; }
void fs_reset() { fs_run_reset(); }
void fs_heal() {
    RtGuard r;
    fs->eio = fs->full = false;
    if (fs->crashed) { fs->crashed = false; for (auto& h : fs->h) if (!h.cookie) h.used = false; }
}
bool fs_sick() { return fs->eio || fs->full; }
bool fs_crashed() { return fs->crashed; }
void fs_put(const std::string& p, const std::string& b) { RtGuard r; auto f = std::make_shared<File>(); f->data = b; fs->files[p] = f; }
void fs_put_pattern(const std::string& p, const std::string& head, uint64_t size, uint64_t seed) { RtGuard r; auto f = std::make_shared<File>(); f->data = head; f->psize = size; f->pseed = seed; fs->files[p] = f; }
bool fs_get(const std::string& p, std::string& o) { RtGuard r; auto it = fs->files.find(p); if (it == fs->files.end()) return false; o = it->second->data; return true; }
bool fs_exists(const std::string& p) { RtGuard r; return fs->files.count(p); }
void fs_remove(const std::string& p) { RtGuard r; fs->files.erase(p); }
std::vector<std::string> fs_list() { RtGuard r; std::vector<std::string> v; for (auto& x : fs->files) v.push_back(x.first); return v; }
long fs_disk_ops() { return fs->ops; }
int fs_open_handles() { RtGuard r; int n = 0; for (auto& h : fs->h) n += h.used; return n; }

const char* disk_fault_name(int k) {
    static const char* n[] = {"short", "eintr", "eio", "eio_sticky", "enospc", "openfail", "crash_before", "crash_torn", "crash_after", "closefail", "renamefail"};
    return k >= 0 && k < D_NKINDS ? n[k] : "?";
}
#define B(x) (1u << (x))
static const uint32_t CRASH = B(D_CRASH_BEFORE) | B(D_CRASH_AFTER);

static bool is_sim(const char* p) { return p && fs && !strncmp(p, SIMFS_ROOT, sizeof(SIMFS_ROOT) - 1); }
static bool is_simdir(const char* p) {   // the root and any directory prefix of it exist
    if (!p || !fs) return false;
    std::string s = p; if (s.empty() || s.back() != '/') s += '/';
    if (s == SIMFS_ROOT) return true;
    if (s.size() == sizeof(SIMFS_ROOT) + 2 && s.compare(0, sizeof(SIMFS_ROOT), SIMFS_ROOT "d") == 0 && s[sizeof(SIMFS_ROOT)] >= '0' && s[sizeof(SIMFS_ROOT)] <= '9') return true;   // /simfs/d0/ ... /simfs/d9/
    return s == SIMFS_ROOT "data/";
}
static bool parent_ok(const std::string& p) { return is_simdir(p.substr(0, p.rfind('/')).c_str()); }
static bool is_simfd(int fd) { return fs && fd >= FD0 && fd < FD0 + (int)fs->h.size() && fs->h[fd - FD0].used; }

// one disk operation: a scheduling point and a fault opportunity
static Fault disk_op(uint32_t legal, long range) {
    bool a = act();
    if (a) { RtGuard r; sync_point(); }
    fs->ops++;
    if (!a || fs->crashed) return Fault();
    return fault_poll(S_DISK, legal, range);
}
static void do_crash() { fs->crashed = true; log_event("CRASH of the simulated process"); }

static int sim_open(const char* path, int flags) {
    std::string p = path;
    Fault f = disk_op(B(D_OPENFAIL) | ((flags & O_ACCMODE) != O_RDONLY ? CRASH : 0), 0);
    RtGuard r;
    log_event("open %s flags=%x", path, flags);
    if (f.fire && f.kind == D_CRASH_BEFORE) do_crash();
    if (fs->crashed) { errno = EIO; return -1; }
    if (f.fire && f.kind == D_OPENFAIL) { errno = EACCES; return -1; }
    if (fs->eio) { errno = EIO; return -1; }
    auto it = fs->files.find(p);
    bool creat = flags & O_CREAT;
    if (is_simdir(path)) { errno = EISDIR; return -1; }
    if (it == fs->files.end() && (!creat || !parent_ok(p))) { errno = ENOENT; return -1; }
    if (it != fs->files.end() && creat && (flags & O_EXCL)) { errno = EEXIST; return -1; }
    if (it == fs->files.end() && fs->full) { errno = ENOSPC; return -1; }
    if (it == fs->files.end()) it = fs->files.emplace(p, std::make_shared<File>()).first;
    int acc = flags & O_ACCMODE;
    if ((flags & O_TRUNC) && acc != O_RDONLY) it->second->data.clear();
    Handle h; h.used = true; h.f = it->second; h.rd = acc != O_WRONLY; h.wr = acc != O_RDONLY; h.app = flags & O_APPEND; h.path = p;
    size_t i = 0; while (i < fs->h.size() && fs->h[i].used) i++;
    if (i == fs->h.size()) fs->h.push_back(h); else fs->h[i] = h;
    if (f.fire && f.kind == D_CRASH_AFTER) { do_crash(); errno = EIO; return -1; }
    return FD0 + (int)i;
}
static ssize_t sim_read(int fd, void* buf, size_t n) {
    Fault f = disk_op(B(D_EIO) | B(D_EIO_STICKY) | B(D_EINTR) | (n > 1 ? B(D_SHORT) : 0), (long)(n > 1 ? n - 1 : 1));
    RtGuard r;
    Handle& h = fs->h[fd - FD0];
    if (fs->crashed) { errno = EIO; return -1; }
    if (!h.rd) { errno = EBADF; return -1; }
    size_t k = h.pos < h.f->size() ? std::min(n, (size_t)h.f->size() - h.pos) : 0;
    if (f.fire && f.kind == D_EIO_STICKY) fs->eio = true;
    if ((f.fire && f.kind == D_EIO) || fs->eio) { log_event("read EIO"); errno = EIO; return -1; }
    if (f.fire && f.kind == D_EINTR) { errno = EINTR; return -1; }
    if (f.fire && f.kind == D_SHORT && k > 1) k = 1 + (size_t)f.arg % (k - 1);
    if (h.f->psize) { for (size_t i = 0; i < k; i++) { uint64_t o = h.pos + i; ((unsigned char*)buf)[i] = o < h.f->data.size() ? (unsigned char)h.f->data[o] : fs_pattern(h.f->pseed, o); } }
    else memcpy(buf, h.f->data.data() + h.pos, k);
    h.pos += k;
    log_event("read %s %zu -> %zu", h.path.c_str(), n, k);
    return (ssize_t)k;
}
static ssize_t sim_write(int fd, const void* buf, size_t n) {
    Fault f = disk_op(B(D_EIO) | B(D_EIO_STICKY) | B(D_ENOSPC) | B(D_EINTR) | CRASH | (n > 1 ? B(D_SHORT) | B(D_CRASH_TORN) : 0), (long)(n > 1 ? n - 1 : 1));
    RtGuard r;
    Handle& h = fs->h[fd - FD0];
    if (f.fire && f.kind == D_CRASH_BEFORE) do_crash();
    if (fs->crashed) { errno = EIO; return -1; }
    if (!h.wr || h.f->psize) { errno = EBADF; return -1; }
    if (f.fire && f.kind == D_EIO_STICKY) fs->eio = true;
    if (fs->full) { log_event("write ENOSPC"); errno = ENOSPC; return -1; }
    if ((f.fire && f.kind == D_EIO) || fs->eio) { log_event("write EIO"); errno = EIO; return -1; }
    if (f.fire && f.kind == D_EINTR) { errno = EINTR; return -1; }
    size_t k = n;
    if (f.fire && (f.kind == D_SHORT || f.kind == D_CRASH_TORN)) k = 1 + (size_t)f.arg % (n - 1);
    if (f.fire && f.kind == D_ENOSPC) { fs->full = true; k = n > 1 ? (size_t)f.arg % n : 0; }
    if (k) {
        std::string& d = h.f->data;
        if (h.app) h.pos = d.size();
        if (d.size() < h.pos + k) d.resize(h.pos + k);
        memcpy(&d[h.pos], buf, k);
        h.last_write = h.pos;
        h.pos += k;
    }
    log_event("write %s %zu -> %zu", h.path.c_str(), n, k);
    if (f.fire && (f.kind == D_CRASH_AFTER || f.kind == D_CRASH_TORN)) { do_crash(); errno = EIO; return -1; }
    if (!k) { errno = ENOSPC; return -1; }
    return (ssize_t)k;
}
static off_t sim_lseek(int fd, off_t off, int wh) {
    RtGuard r;
    Handle& h = fs->h[fd - FD0];
    off_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (off_t)h.pos : (off_t)h.f->size();
    if (b + off < 0) { errno = EINVAL; return -1; }
    h.pos = (size_t)(b + off);
    return (off_t)h.pos;
}
static int sim_close(int fd) {
    Handle* hp = &fs->h[fd - FD0];
    Fault f = disk_op(hp->wr ? (uint32_t)B(D_CLOSEFAIL) | CRASH : 0, 0);
    RtGuard r;
    hp = &fs->h[fd - FD0];
    log_event("close %s", hp->path.c_str());
    int e = 0;
    if (f.fire && f.kind == D_CRASH_BEFORE) do_crash();
    if (f.fire && f.kind == D_CLOSEFAIL && !fs->crashed) { hp->f->data.resize(std::min(hp->f->data.size(), hp->last_write)); e = EIO; }
    hp->used = false; hp->f.reset();
    if (f.fire && f.kind == D_CRASH_AFTER) do_crash();
    if (e || fs->crashed) { errno = EIO; return -1; }
    return 0;
}
static void fill_stat(struct stat* st, const FileP& f) {
    memset(st, 0, sizeof *st);
    st->st_nlink = 1; st->st_blksize = 4096;
    if (f) { st->st_mode = S_IFREG | 0644; st->st_size = (off_t)f->size(); st->st_ino = (ino_t)((uintptr_t)f.get() >> 4 & 0xffffff); }
    else { st->st_mode = S_IFDIR | 0755; st->st_ino = 2; }
}
static int sim_stat(const char* p, struct stat* st) {
    disk_op(0, 0);
    RtGuard r;
    if (fs->crashed) { errno = EIO; return -1; }
    auto it = fs->files.find(p);
    if (it != fs->files.end()) { fill_stat(st, it->second); return 0; }
    if (is_simdir(p)) { fill_stat(st, nullptr); return 0; }
    errno = ENOENT; return -1;
}
static int sim_rename(const char* a, const char* b) {
    Fault f = disk_op(B(D_RENAMEFAIL) | CRASH, 0);
    RtGuard r;
    log_event("rename %s %s", a, b);
    if (f.fire && f.kind == D_CRASH_BEFORE) do_crash();
    if (fs->crashed || fs->eio) { errno = EIO; return -1; }
    if (f.fire && f.kind == D_RENAMEFAIL) { errno = EACCES; return -1; }
    auto it = fs->files.find(a);
    if (it == fs->files.end()) { errno = ENOENT; return -1; }
    if (!parent_ok(b)) { errno = ENOENT; return -1; }
    FileP x = it->second;
    fs->files.erase(it);
    fs->files[b] = x;
    if (f.fire && f.kind == D_CRASH_AFTER) { do_crash(); errno = EIO; return -1; }
    return 0;
}
static int sim_unlink(const char* a) {
    Fault f = disk_op(CRASH, 0);
    RtGuard r;
    log_event("unlink %s", a);
    if (f.fire && f.kind == D_CRASH_BEFORE) do_crash();
    if (fs->crashed) { errno = EIO; return -1; }
    if (!fs->files.erase(a)) { errno = ENOENT; return -1; }
    if (f.fire && f.kind == D_CRASH_AFTER) do_crash();
    return 0;
}

// FILE* on the simulated disk
// (the C library reports EINTR to its caller; Linux never interrupts a transfer of a regular file, so it is not a fair fault here)
static ssize_t ck_read(void* c, char* b, size_t n) { ssize_t r; do r = sim_read((int)(intptr_t)c, b, n); while (r < 0 && errno == EINTR); return r; }
static ssize_t ck_write(void* c, const char* b, size_t n) { ssize_t r; do r = sim_write((int)(intptr_t)c, b, n); while (r < 0 && errno == EINTR); return r < 0 ? 0 : r; }
static int ck_seek(void* c, off64_t* o, int wh) { off_t r = sim_lseek((int)(intptr_t)c, *o, wh); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void* c) { return sim_close((int)(intptr_t)c); }

static FILE* sim_fopen(const char* path, const char* mode) {
    int fl = 0;
    bool plus = strchr(mode, '+');
    switch (mode[0]) {
    case 'r': fl = plus ? O_RDWR : O_RDONLY; break;
    case 'w': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break;
    case 'a': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break;
    default: errno = EINVAL; return nullptr;
    }
    if (strchr(mode, 'x')) fl |= O_EXCL;
    int fd = sim_open(path, fl);
    if (fd < 0) return nullptr;
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    FILE* f;
    { RtGuard r; f = fopencookie((void*)(intptr_t)fd, mode, io); fs->h[fd - FD0].cookie = f; }
    return f;
}
static int cookie_fd(FILE* f) {
    if (!fs) return -1;
    for (size_t i = 0; i < fs->h.size(); i++) if (fs->h[i].used && fs->h[i].cookie == f) return FD0 + (int)i;
    return -1;
}

template <class F> static F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
} // namespace sim

using namespace sim;
static long rsys(long n, long a = 0, long b = 0, long c = 0, long d = 0) {
    long ret;
    register long r10 __asm__("r10") = d;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10) : "rcx", "r11", "memory");
    if (ret < 0 && ret > -4096) { errno = (int)-ret; return -1; }
    return ret;
}

extern "C" {
FILE* fopen(const char* p, const char* m) { if (is_sim(p)) return sim_fopen(p, m); static auto f = real<FILE* (*)(const char*, const char*)>("fopen"); return f(p, m); }
FILE* fopen64(const char* p, const char* m) { return fopen(p, m); }
int fileno(FILE* f) { int fd = cookie_fd(f); if (fd >= 0) return fd; static auto r = real<int (*)(FILE*)>("fileno"); return r(f); }
int open(const char* p, int fl, ...) {
    va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap);
    if (is_sim(p)) return sim_open(p, fl);
    return (int)rsys(SYS_open, (long)p, fl, m);
}
int open64(const char* p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return open(p, fl, m); }
int openat(int d, const char* p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); if (is_sim(p)) return sim_open(p, fl); return (int)rsys(SYS_openat, d, (long)p, fl, m); }
int creat(const char* p, mode_t m) { return open(p, O_CREAT | O_TRUNC | O_WRONLY, m); }
int close(int fd) { if (is_simfd(fd)) return sim_close(fd); return (int)rsys(SYS_close, fd); }
ssize_t read(int fd, void* b, size_t n) { if (is_simfd(fd)) return sim_read(fd, b, n); return rsys(SYS_read, fd, (long)b, (long)n); }
ssize_t write(int fd, const void* b, size_t n) { if (is_simfd(fd)) return sim_write(fd, b, n); return rsys(SYS_write, fd, (long)b, (long)n); }
ssize_t writev(int fd, const struct iovec* v, int c) {
    if (!is_simfd(fd)) return rsys(SYS_writev, fd, (long)v, c);
    std::string s;
    { RtGuard r; for (int i = 0; i < c; i++) s.append((const char*)v[i].iov_base, v[i].iov_len); }
    ssize_t k = sim_write(fd, s.data(), s.size());
    { RtGuard r; std::string().swap(s); }
    return k;
}
off_t lseek(int fd, off_t o, int w) { if (is_simfd(fd)) return sim_lseek(fd, o, w); return rsys(SYS_lseek, fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }
int fsync(int fd) { if (is_simfd(fd)) { disk_op(0, 0); return fs->crashed || fs->eio ? (errno = EIO, -1) : 0; } return (int)rsys(SYS_fsync, fd); }
int fdatasync(int fd) { return fsync(fd); }
int ftruncate(int fd, off_t n) { if (is_simfd(fd)) { disk_op(0, 0); RtGuard r; if (fs->crashed) { errno = EIO; return -1; } fs->h[fd - FD0].f->data.resize((size_t)n); return 0; } return (int)rsys(SYS_ftruncate, fd, n); }
int truncate(const char* p, off_t n) { if (is_sim(p)) { disk_op(0, 0); RtGuard r; auto it = fs->files.find(p); if (fs->crashed || it == fs->files.end()) { errno = ENOENT; return -1; } it->second->data.resize((size_t)n); return 0; } return (int)rsys(SYS_truncate, (long)p, n); }
int fstat(int fd, struct stat* st) { if (is_simfd(fd)) { fill_stat(st, fs->h[fd - FD0].f); return 0; } return (int)rsys(SYS_fstat, fd, (long)st); }
int fstat64(int fd, struct stat64* st) { return fstat(fd, (struct stat*)st); }
int stat(const char* p, struct stat* st) { if (is_sim(p) || is_simdir(p)) return sim_stat(p, st); return (int)rsys(SYS_stat, (long)p, (long)st); }
int stat64(const char* p, struct stat64* st) { return stat(p, (struct stat*)st); }
int lstat(const char* p, struct stat* st) { if (is_sim(p) || is_simdir(p)) return sim_stat(p, st); return (int)rsys(SYS_lstat, (long)p, (long)st); }
int access(const char* p, int m) { if (is_sim(p)) { struct stat st; return sim_stat(p, &st); } return (int)rsys(SYS_access, (long)p, m); }
int ioctl(int fd, unsigned long rq, ...) {
    va_list ap; va_start(ap, rq); void* a = va_arg(ap, void*); va_end(ap);
    if (is_simfd(fd)) { if (rq == FIONREAD) { Handle& h = fs->h[fd - FD0]; *(int*)a = h.pos < h.f->size() ? (int)std::min<uint64_t>(0x7fffffff, h.f->size() - h.pos) : 0; return 0; } errno = ENOTTY; return -1; }
    return (int)rsys(SYS_ioctl, fd, (long)rq, (long)a);
}
#pragma GCC diagnostic ignored "-Wmaybe-uninitialized"
int poll(struct pollfd* p, nfds_t n, int t) { if (n == 1 && is_simfd(p[0].fd)) { p[0].revents = p[0].events; return 1; } return (int)rsys(SYS_poll, (long)p, (long)n, t); }
int rename(const char* a, const char* b) { if (is_sim(a) && is_sim(b)) return sim_rename(a, b); return (int)rsys(SYS_rename, (long)a, (long)b); }
int unlink(const char* a) { if (is_sim(a)) return sim_unlink(a); return (int)rsys(SYS_unlink, (long)a); }
int unlinkat(int d, const char* a, int f) { if (is_sim(a)) return sim_unlink(a); return (int)rsys(SYS_unlinkat, d, (long)a, f); }
int remove(const char* a) { return unlink(a); }
int mkdir(const char* a, mode_t m) { if (is_sim(a)) { errno = EEXIST; return -1; } return (int)rsys(SYS_mkdir, (long)a, m); }
int link(const char* a, const char* b) { if (is_sim(a)) { disk_op(0, 0); RtGuard r; auto it = fs->files.find(a); if (fs->crashed || it == fs->files.end()) { errno = ENOENT; return -1; } if (fs->files.count(b)) { errno = EEXIST; return -1; } fs->files[b] = it->second; return 0; } return (int)rsys(SYS_link, (long)a, (long)b); }
}
