// Simulated file system (survives simulated crashes, lives in shared memory) and the libc I/O seam.
#include "internal.h"
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/ioctl.h>
#include <fcntl.h>
#include <unistd.h>
#include <cerrno>
#include <dlfcn.h>
#include <unordered_map>
#include <cstdlib>

extern "C" { void *__libc_malloc(size_t); void __libc_free(void *); }

namespace sim {

struct OFD { int used, ino, refs, flags; int64_t pos; char *iobuf; int zip; };
static OFD g_ofd[64];
static int g_fd[96];                    // virtual descriptor -> ofd + 1
static std::unordered_map<FILE *, int> *g_files;
constexpr int FD0 = 1000;
struct Map { uintptr_t a; size_t pages, left; };
static std::vector<Map> *g_maps;
static uintptr_t g_maptop = 0x230000000000ull;
static Rng g_iorng(1);
static int64_t g_shortmax;              // reads return at most this much (0: whole)
static int g_iobuf;

static DirEnt *look(const char *n) { for (auto &d : S->disk.de) if (d.used && !strcmp(d.name, n)) return &d; return nullptr; }
static void ino_release(int i) { Inode &x = S->disk.ino[i]; if (x.links == 0 && x.opens == 0) { S->disk.total -= x.size; x.used = 0; x.size = 0; } }
static int ino_new() { for (int i = 0; i < MAXFILES; i++) if (!S->disk.ino[i].used) { S->disk.ino[i] = Inode{1, 0, 0, 0, 0644}; return i; } return -1; }
static DirEnt *de_new(const char *n, int ino) {
    if (strlen(n) >= sizeof(DirEnt::name)) return nullptr;
    for (auto &d : S->disk.de) if (!d.used) { d.used = 1; d.ino = ino; d.isdir = 0; strcpy(d.name, n); if (ino >= 0) S->disk.ino[ino].links++; return &d; } return nullptr; }
static bool parent_ok(const char *n) { const char *s = strrchr(n, '/'); if (!s) return true; if (s == n) return true;
    std::string d(n, s - n); DirEnt *e = look(d.c_str()); return e && e->isdir; }
static void resize(int i, size_t n) { Inode &x = S->disk.ino[i]; if (n > x.size) memset(S->filedata[i] + x.size, 0, n - x.size); S->disk.total += n - x.size; x.size = n; }

void disk_put(const char *name, const void *data, size_t n) {
    DirEnt *d = look(name); int i;
    if (d) i = d->ino; else { i = ino_new(); if (i < 0) harness_error("simulated disk: no inode"); if (!de_new(name, i)) harness_error("simulated disk: no directory entry"); }
    if (n > FILECAP) harness_error("simulated disk: file too large");
    resize(i, n); memcpy(S->filedata[i], data, n);
}
bool disk_get(const char *name, std::vector<uint8_t> &out) { DirEnt *d = look(name); if (!d || d->isdir) return false; Inode &x = S->disk.ino[d->ino]; out.assign(S->filedata[d->ino], S->filedata[d->ino] + x.size); return true; }
bool disk_exists(const char *n) { return look(n) != nullptr; }
void disk_del(const char *n) { DirEnt *d = look(n); if (d) { d->used = 0; if (d->ino >= 0 && !d->isdir) { S->disk.ino[d->ino].links--; ino_release(d->ino); } } }
void disk_mkdir(const char *n) { if (look(n)) return; DirEnt *d = de_new(n, -1); if (d) d->isdir = 1; }
std::vector<std::string> disk_list() { std::vector<std::string> v; for (auto &d : S->disk.de) if (d.used && !d.isdir) v.push_back(d.name); return v; }
int open_handles() { int n = zip_handles(); for (int f : g_fd) if (f && !g_ofd[f - 1].zip) n++; if (g_maps) for (auto &m : *g_maps) if (m.left) n++; return n; }
std::string open_handles_desc() { std::string s = zip_handles_desc(); for (int i = 0; i < 96; i++) if (g_fd[i] && !g_ofd[g_fd[i] - 1].zip) { OFD &o = g_ofd[g_fd[i] - 1]; const char *nm = "(deleted)"; for (auto &d : S->disk.de) if (d.used && !d.isdir && d.ino == o.ino) nm = d.name; s += std::string("descriptor of ") + nm + "; "; }
    if (g_maps) for (auto &m : *g_maps) if (m.left) s += "memory mapping of " + std::to_string(m.pages * 4096) + " bytes; "; return s; }
void disk_crash_cleanup() { for (int i = 0; i < MAXFILES; i++) { Inode &x = S->disk.ino[i]; if (x.used) { x.opens = 0; ino_release(i); } } }
void disk_init() {
    if (!g_files) g_files = new std::unordered_map<FILE *, int>; if (!g_maps) g_maps = new std::vector<Map>;
    g_iorng = Rng(mix(P->get("ioseed", 7), S->res.incarnation));
    g_shortmax = P->get("shortread", 0); g_iobuf = (int)P->get("iobuf", 0);
}

// ---------------------------------------------------------------- "system calls"
static int fail(int e) { errno = e; return -1; }
// pre-step of a disk operation: counts it, may crash or fail
struct DiskOp {
    int act; int64_t arg; bool after;
    DiskOp(Seam s, const char *tag, uint64_t a = 0) : act(0), arg(0), after(false) {
        yield_point(tag);
        int64_t ga = 0; int g = fault(SE_DISK, &ga);         // global position: crashes only
        act = fault(s, &arg);
        if (!act && g) { act = g; arg = ga; }
        ev(tag, a, (uint64_t)act);
        if (act == FA_CRASH) { PROBE("process killed before a disk operation"); die_crash(); }
        if (act == FA_CRASH_AFTER) { after = true; act = 0; }
        if (act == FA_TORN_CRASH && s != SE_WRITE) { after = true; act = 0; }
        if (act == FA_TORN_ERR && s != SE_WRITE) act = ENOSPC;
        if (act == FA_SHORT && s != SE_WRITE && s != SE_READ) act = 0;
    }
    ~DiskOp() { if (after) { PROBE("process killed right after a disk operation"); die_crash(); } }
};
static OFD *ofd(int fd) { if (fd < FD0 || fd >= FD0 + 96 || !g_fd[fd - FD0]) return nullptr; return &g_ofd[g_fd[fd - FD0] - 1]; }
static int newfd(int o) { for (int i = 0; i < 96; i++) if (!g_fd[i]) { g_fd[i] = o + 1; return FD0 + i; } return -1; }

static int k_open(const char *path, int flags, int mode) {
    DiskOp op(SE_OPEN, "open", flags); evs("path", path);
    if (op.act > 0) return fail(op.act);
    if (!*path) return fail(ENOENT);
    if (strlen(path) >= 190) return fail(ENAMETOOLONG);
    DirEnt *d = look(path);
    bool wr = (flags & O_ACCMODE) != O_RDONLY;
    if (d && d->isdir) return fail(wr ? EISDIR : EISDIR);
    if (d && (flags & O_CREAT) && (flags & O_EXCL)) return fail(EEXIST);
    if (!d && !(flags & O_CREAT)) return fail(ENOENT);
    if (!parent_ok(path)) return fail(ENOENT);
    int o = -1; for (int i = 0; i < 64; i++) if (!g_ofd[i].used) { o = i; break; }
    if (o < 0) return fail(EMFILE);
    if (!d) {
        int i = ino_new(); if (i < 0) return fail(ENOSPC);
        S->disk.ino[i].mode = mode & 07777;
        d = de_new(path, i); if (!d) { S->disk.ino[i].used = 0; return fail(ENOSPC); }
    } else if (flags & O_TRUNC) resize(d->ino, 0);
    g_ofd[o] = OFD{1, d->ino, 1, flags, 0, nullptr, cur && cur->zip};
    S->disk.ino[d->ino].opens++;
    int fd = newfd(o); if (fd < 0) { g_ofd[o].used = 0; S->disk.ino[d->ino].opens--; return fail(EMFILE); }
    return fd;
}
static int k_close(int fd) {
    OFD *o = ofd(fd); if (!o) return fail(EBADF);
    DiskOp op(SE_CLOSE, "close", fd);
    g_fd[fd - FD0] = 0;
    if (--o->refs == 0) { S->disk.ino[o->ino].opens--; ino_release(o->ino); o->used = 0; }
    return op.act > 0 ? fail(op.act) : 0;               // like Linux: the descriptor is gone either way
}
static ssize_t k_write(int fd, const void *b, size_t n) {
    OFD *o = ofd(fd); if (!o) return fail(EBADF);
    if ((o->flags & O_ACCMODE) == O_RDONLY) return fail(EBADF);
    DiskOp op(SE_WRITE, "write", n);
    size_t k = n; int err = 0;
    if (op.act > 0) return fail(op.act);
    if (op.act == FA_SHORT) { k = n > 1 ? 1 + (size_t)(op.arg % (int64_t)n) : n; PROBE("short write"); }
    if (op.act == FA_TORN_CRASH || op.act == FA_TORN_ERR) { k = (size_t)((double)n * (double)(op.arg % 1000) / 1000.0); if (op.act == FA_TORN_ERR) err = ENOSPC; }
    if (o->flags & O_APPEND) o->pos = S->disk.ino[o->ino].size;
    Inode &x = S->disk.ino[o->ino];
    size_t end = o->pos + k;
    if (end > FILECAP) { if ((size_t)o->pos >= FILECAP) return fail(EFBIG); end = FILECAP; k = end - o->pos; }
    if (S->disk.cap >= 0 && S->disk.cap != 0) {
        size_t grow = end > x.size ? end - x.size : 0; int64_t room = S->disk.cap - 1 - (int64_t)S->disk.total;
        if ((int64_t)grow > room) { size_t allowed = room > 0 ? room : 0; if (allowed >= k) allowed = k; if (x.size + allowed <= (size_t)o->pos) k = 0; else k = std::min(k, x.size + allowed - o->pos);
            PROBE("disk full"); if (k == 0) return fail(ENOSPC); end = o->pos + k; }
    }
    if (end > x.size) resize(o->ino, end);
    memcpy(S->filedata[o->ino] + o->pos, b, k); o->pos += k;
    if (op.act == FA_TORN_CRASH) { PROBE("process killed inside a write"); op.after = false; die_crash(); }
    if (err && k == 0) return fail(err);
    if (err) { /* the rest fails on the next call */ static int pend; (void)pend; errno = err; return -2 - (ssize_t)k; }
    return (ssize_t)k;
}
static ssize_t k_read(int fd, void *b, size_t n) {
    OFD *o = ofd(fd); if (!o) return fail(EBADF);
    if ((o->flags & O_ACCMODE) == O_WRONLY) return fail(EBADF);
    DiskOp op(SE_READ, "read", n);
    if (op.act > 0) return fail(op.act);
    Inode &x = S->disk.ino[o->ino];
    size_t left = o->pos < (int64_t)x.size ? x.size - o->pos : 0; size_t k = n < left ? n : left;
    if (op.act == FA_SHORT && k > 1) { k = 1 + (size_t)(op.arg % (int64_t)(k)); S->res.shortreads++; }
    else if (g_shortmax && k > 1) { size_t m = 1 + g_iorng.below(g_shortmax); if (m < k) { k = m; S->res.shortreads++; } }
    memcpy(b, S->filedata[o->ino] + o->pos, k); o->pos += k;
    return (ssize_t)k;
}
static int64_t k_seek(int fd, int64_t off, int wh) {
    OFD *o = ofd(fd); if (!o) return fail(EBADF);
    DiskOp op(SE_SEEK, "seek", (uint64_t)off * 4 + wh);
    if (op.act > 0) return fail(op.act);
    int64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? o->pos : (int64_t)S->disk.ino[o->ino].size;
    if (base + off < 0) return fail(EINVAL);
    return o->pos = base + off;
}
static int k_rename(const char *a, const char *b) {
    DiskOp op(SE_RENAME, "rename"); evs("from", a); evs("to", b);
    if (op.act > 0) return fail(op.act);
    DirEnt *x = look(a); if (!x) return fail(ENOENT);
    if (!parent_ok(b)) return fail(ENOENT);
    if (strlen(b) >= 190) return fail(ENAMETOOLONG);
    DirEnt *y = look(b);
    if (y && y->isdir) return fail(EISDIR);
    if (x == y) return 0;
    if (y) { int i = y->ino; y->used = 0; S->disk.ino[i].links--; ino_release(i); }
    strcpy(x->name, b);
    return 0;
}
static int k_unlink(const char *a) {
    DiskOp op(SE_REMOVE, "unlink"); evs("path", a);
    if (op.act > 0) return fail(op.act);
    DirEnt *x = look(a); if (!x) return fail(ENOENT); if (x->isdir) return fail(EISDIR);
    int i = x->ino; x->used = 0; S->disk.ino[i].links--; ino_release(i); return 0;
}
static int k_link(const char *a, const char *b) {
    DiskOp op(SE_RENAME, "link"); evs("from", a); evs("to", b);
    if (op.act > 0) return fail(op.act);
    DirEnt *x = look(a); if (!x) return fail(ENOENT); if (x->isdir) return fail(EPERM);
    if (look(b)) return fail(EEXIST);
    if (!parent_ok(b)) return fail(ENOENT);
    return de_new(b, x->ino) ? 0 : fail(ENOSPC);
}
static void fillstat(struct stat *st, int ino) { memset(st, 0, sizeof *st); Inode &x = S->disk.ino[ino]; st->st_dev = 1; st->st_ino = ino + 1; st->st_mode = S_IFREG | x.mode; st->st_nlink = x.links; st->st_size = x.size; st->st_blksize = 4096; st->st_blocks = (x.size + 511) / 512; st->st_mtime = st->st_atime = st->st_ctime = now_seconds(); }
static int k_stat(const char *p, struct stat *st) {
    DiskOp op(SE_STAT, "stat"); evs("path", p);
    if (op.act > 0) return fail(op.act);
    DirEnt *d = look(p); if (!d) return fail(ENOENT);
    if (d->isdir) { memset(st, 0, sizeof *st); st->st_mode = S_IFDIR | 0755; return 0; }
    fillstat(st, d->ino); return 0;
}
static int k_fstat(int fd, struct stat *st) { OFD *o = ofd(fd); if (!o) return fail(EBADF); DiskOp op(SE_STAT, "fstat"); if (op.act > 0) return fail(op.act); fillstat(st, o->ino); return 0; }
static int k_ftruncate(int fd, int64_t n) { OFD *o = ofd(fd); if (!o) return fail(EBADF); DiskOp op(SE_TRUNC, "ftruncate", n); if (op.act > 0) return fail(op.act); if (n < 0 || (size_t)n > FILECAP) return fail(EFBIG); resize(o->ino, n); return 0; }
static bool vfd(int fd) { return fd >= FD0 && fd < FD0 + 96; }

// ---------------------------------------------------------------- stdio on top (glibc's own buffering, via fopencookie)
static ssize_t ck_read(void *c, char *b, size_t n) { return k_read((int)(intptr_t)c, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) {      // like glibc's _IO_new_file_write: continue after short writes, stop on error
    size_t done = 0;
    while (done < n) {
        ssize_t k = k_write((int)(intptr_t)c, b + done, n - done);
        if (k <= -2) { done += (size_t)(-2 - k); break; }
        if (k < 0) break;
        done += k;
    }
    return (ssize_t)done;
}
static int ck_seek(void *c, off64_t *off, int wh) { int64_t r = k_seek((int)(intptr_t)c, *off, wh); if (r < 0) return -1; *off = r; return 0; }
static int ck_close(void *c) {
    int fd = (int)(intptr_t)c;
    OFD *o = ofd(fd); char *ib = o ? o->iobuf : nullptr; if (o) o->iobuf = nullptr;
    { HarnessScope h; for (auto it = g_files->begin(); it != g_files->end(); ++it) if (it->second == fd) { g_files->erase(it); break; } }
    int r = k_close(fd); int e = errno;
    if (ib) __libc_free(ib);
    errno = e; return r;
}
static FILE *mkfile(int fd, const char *mode) {
    cookie_io_functions_t f = { ck_read, ck_write, ck_seek, ck_close };
    char m[4] = { mode[0], 0, 0, 0 }; if (strchr(mode, '+')) m[1] = '+';
    FILE *fp = fopencookie((void *)(intptr_t)fd, m, f);
    if (!fp) return nullptr;
    HarnessScope h; (*g_files)[fp] = fd;
    if (g_iobuf) { OFD *o = ofd(fd); o->iobuf = (char *)__libc_malloc(g_iobuf); setvbuf(fp, o->iobuf, _IOFBF, g_iobuf); }
    return fp;
}
static FILE *s_fopen(const char *path, const char *mode) {
    int fl = mode[0] == 'r' ? O_RDONLY : O_WRONLY | O_CREAT | (mode[0] == 'w' ? O_TRUNC : O_APPEND);
    if (strchr(mode, '+')) fl = (fl & ~O_ACCMODE) | O_RDWR;
    if (strchr(mode, 'x')) fl |= O_EXCL;
    int fd = k_open(path, fl, 0666); if (fd < 0) return nullptr;
    FILE *f = mkfile(fd, mode);
    if (!f) { int e = errno; OFD *o = ofd(fd); g_fd[fd - FD0] = 0; S->disk.ino[o->ino].opens--; o->used = 0; errno = e; }
    return f;
}
static void *s_mmap(size_t len, int prot, int flags, int fd, int64_t off) {
    OFD *o = ofd(fd); if (!o) { errno = EBADF; return MAP_FAILED; }
    DiskOp op(SE_MMAP, "mmap", len);
    if (op.act > 0) { errno = op.act; return MAP_FAILED; }
    if (len == 0 || (off & 4095)) { errno = EINVAL; return MAP_FAILED; }
    if (len > (1ull << 40)) { errno = ENOMEM; return MAP_FAILED; }
    (void)flags; HarnessScope h;
    Inode &x = S->disk.ino[o->ino];
    size_t pages = (len + 4095) / 4096; size_t avail = off < (int64_t)x.size ? x.size - off : 0; size_t fpages = (avail + 4095) / 4096;
    uintptr_t a = g_maptop; g_maptop += (pages + 16) * 4096;
    if (fpages > pages) fpages = pages;
    void *r = (void *)syscall(SYS_mmap, a, (fpages ? fpages : 1) * 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
    if (r != (void *)a) harness_error("mmap placement");
    size_t cp = avail < fpages * 4096 ? avail : fpages * 4096;
    memcpy(r, S->filedata[o->ino] + off, cp);
    syscall(SYS_mprotect, a, fpages ? fpages * 4096 : 4096, fpages ? prot : PROT_NONE);   // beyond the file: SIGBUS in reality, SIGSEGV here
    g_maps->push_back({a, pages, pages});
    return r;
}
static void *s_mmap_anon(size_t len, int prot) {
    DiskOp op(SE_MMAP, "mmap", len);
    if (op.act > 0 || len > (1ull << 32)) { errno = op.act > 0 ? op.act : ENOMEM; return MAP_FAILED; }
    if (len == 0) { errno = EINVAL; return MAP_FAILED; }
    HarnessScope h;
    size_t pages = (len + 4095) / 4096; uintptr_t a = g_maptop; g_maptop += (pages + 16) * 4096;
    void *r = (void *)syscall(SYS_mmap, a, pages * 4096, prot, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
    if (r != (void *)a) harness_error("mmap placement");
    g_maps->push_back({a, pages, pages});
    return r;
}
static int s_munmap(uintptr_t a, size_t len) {
    HarnessScope h;
    if (len == 0 || (a & 4095)) return fail(EINVAL);
    size_t pages = (len + 4095) / 4096; ev("munmap", len);
    for (auto &m : *g_maps) if (a >= m.a && a < m.a + m.pages * 4096) {
        if (a + pages * 4096 > m.a + m.pages * 4096) violation("bad-munmap", "munmap of %zu bytes reaches beyond the %zu-page mapping", len, m.pages);
        m.left -= pages; syscall(SYS_mprotect, a, pages * 4096, PROT_NONE); return 0; }
    violation("bad-munmap", "munmap of an address that is not mapped");
}
template<class F> static F real(const char *n) { F f = (F)dlsym(RTLD_NEXT, n); if (!f) abort(); return f; }
} // namespace sim

using namespace sim;
#define VOPEN int mode = 0; if (flags & O_CREAT) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
extern "C" {
int open(const char *p, int flags, ...) { VOPEN if (cur_sut()) return k_open(p, flags, mode); return (int)syscall(SYS_openat, AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { VOPEN if (cur_sut()) return k_open(p, flags, mode); return (int)syscall(SYS_openat, AT_FDCWD, p, flags, mode); }
int creat(const char *p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int close(int fd) { if (vfd(fd)) return k_close(fd); return (int)syscall(SYS_close, fd); }
ssize_t read(int fd, void *b, size_t n) { if (vfd(fd)) return k_read(fd, b, n); return syscall(SYS_read, fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) {
    if (vfd(fd)) { ssize_t k = k_write(fd, b, n); return k <= -2 ? -2 - k : k; }
    if (cur_sut() && (fd == 1 || fd == 2)) { fwrite(b, 1, n, fd == 1 ? stdout : stderr); return n; }
    return syscall(SYS_write, fd, b, n); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { if (vfd(fd)) { OFD *f = ofd(fd); if (!f) return fail(EBADF); int64_t s = f->pos; f->pos = o; ssize_t r = k_read(fd, b, n); f->pos = s; return r; } return syscall(SYS_pread64, fd, b, n, o); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { if (vfd(fd)) { OFD *f = ofd(fd); if (!f) return fail(EBADF); int64_t s = f->pos; f->pos = o; ssize_t r = k_write(fd, b, n); f->pos = s; return r <= -2 ? -2 - r : r; } return syscall(SYS_pwrite64, fd, b, n, o); }
off_t lseek(int fd, off_t o, int w) { if (vfd(fd)) return k_seek(fd, o, w); return syscall(SYS_lseek, fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }
FILE *fopen(const char *p, const char *m) { if (cur_sut()) return s_fopen(p, m); static auto f = real<FILE *(*)(const char *, const char *)>("fopen"); return f(p, m); }
FILE *fopen64(const char *p, const char *m) { return fopen(p, m); }
FILE *fdopen(int fd, const char *m) { if (vfd(fd)) return mkfile(fd, m); static auto f = real<FILE *(*)(int, const char *)>("fdopen"); return f(fd, m); }
int fileno(FILE *fp) { if (cur_sut()) { HarnessScope h; auto it = g_files->find(fp); if (it != g_files->end()) return it->second; if (fp == stdout) return 1; if (fp == stderr) return 2; }
    static auto f = real<int (*)(FILE *)>("fileno"); return f(fp); }
int stat(const char *__restrict p, struct stat *__restrict st) noexcept { if (cur_sut()) return k_stat(p, st); return (int)syscall(SYS_stat, p, st); }
int lstat(const char *__restrict p, struct stat *__restrict st) noexcept { if (cur_sut()) return k_stat(p, st); return (int)syscall(SYS_lstat, p, st); }
int fstat(int fd, struct stat *st) noexcept { if (vfd(fd)) return k_fstat(fd, st); return (int)syscall(SYS_fstat, fd, st); }
int stat64(const char *__restrict p, struct stat64 *__restrict st) noexcept { return stat(p, (struct stat *)st); }
int fstat64(int fd, struct stat64 *st) noexcept { return fstat(fd, (struct stat *)st); }
int access(const char *p, int m) noexcept { if (cur_sut()) { struct stat st; return k_stat(p, &st); } return (int)syscall(SYS_access, p, m); }
int rename(const char *a, const char *b) noexcept { if (cur_sut()) return k_rename(a, b); return (int)syscall(SYS_rename, a, b); }
int unlink(const char *a) noexcept { if (cur_sut()) return k_unlink(a); return (int)syscall(SYS_unlink, a); }
int remove(const char *a) noexcept { if (cur_sut()) return k_unlink(a); return (int)syscall(SYS_unlink, a); }
int link(const char *a, const char *b) noexcept { if (cur_sut()) return k_link(a, b); return (int)syscall(SYS_link, a, b); }
int openat(int dir, const char *p, int flags, ...) { VOPEN if (cur_sut() && dir == AT_FDCWD) return k_open(p, flags, mode); return (int)syscall(SYS_openat, dir, p, flags, mode); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return pread(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return pwrite(fd, b, n, o); }
ssize_t readv(int fd, const struct iovec *v, int n) { if (!vfd(fd)) return syscall(SYS_readv, fd, v, n); ssize_t t = 0; for (int i = 0; i < n; i++) { if (!v[i].iov_len) continue; ssize_t k = read(fd, v[i].iov_base, v[i].iov_len); if (k < 0) return t ? t : -1; t += k; if ((size_t)k < v[i].iov_len) break; } return t; }
ssize_t writev(int fd, const struct iovec *v, int n) { if (!vfd(fd) && !(cur_sut() && (fd == 1 || fd == 2))) return syscall(SYS_writev, fd, v, n); ssize_t t = 0; for (int i = 0; i < n; i++) { if (!v[i].iov_len) continue; ssize_t k = write(fd, v[i].iov_base, v[i].iov_len); if (k < 0) return t ? t : -1; t += k; if ((size_t)k < v[i].iov_len) break; } return t; }
int ftruncate64(int fd, off64_t n) noexcept { return ftruncate(fd, n); }
int mkdir(const char *p, mode_t m) noexcept { if (cur_sut()) { if (look(p)) return fail(EEXIST); DirEnt *d = de_new(p, -1); if (!d) return fail(ENOSPC); d->isdir = 1; return 0; } return (int)syscall(SYS_mkdir, p, m); }
int rmdir(const char *p) noexcept { if (cur_sut()) { DirEnt *d = look(p); if (!d) return fail(ENOENT); if (!d->isdir) return fail(ENOTDIR); d->used = 0; return 0; } return (int)syscall(SYS_rmdir, p); }
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); if (vfd(fd)) { OFD *o = ofd(fd); if (!o) return fail(EBADF); switch (cmd) { case F_DUPFD: case F_DUPFD_CLOEXEC: return dup(fd); case F_GETFL: return o->flags; default: return 0; } } return (int)syscall(SYS_fcntl, fd, cmd, a); }
int flock(int fd, int) noexcept { return vfd(fd) ? 0 : fail(EBADF); }
int posix_fallocate(int fd, off_t o, off_t n) { if (!vfd(fd)) return EBADF; OFD *f = ofd(fd); if (!f) return EBADF; if ((size_t)(o + n) <= S->disk.ino[f->ino].size) return 0; return k_ftruncate(fd, o + n) ? errno : 0; }
int ftruncate(int fd, off_t n) noexcept { if (vfd(fd)) return k_ftruncate(fd, n); return (int)syscall(SYS_ftruncate, fd, n); }
int truncate(const char *p, off_t n) noexcept { if (cur_sut()) { int fd = k_open(p, O_WRONLY, 0); if (fd < 0) return -1; int r = k_ftruncate(fd, n); k_close(fd); return r; } return (int)syscall(SYS_truncate, p, n); }
int chmod(const char *p, mode_t m) noexcept { if (cur_sut()) { DirEnt *d = look(p); if (!d) return fail(ENOENT); if (!d->isdir) S->disk.ino[d->ino].mode = m & 07777; return 0; } return (int)syscall(SYS_chmod, p, m); }
int fchmod(int fd, mode_t m) noexcept { if (vfd(fd)) return 0; return (int)syscall(SYS_fchmod, fd, m); }
int dup(int fd) noexcept { if (vfd(fd)) { OFD *o = ofd(fd); if (!o) return fail(EBADF); int n = newfd((int)(o - g_ofd)); if (n < 0) return fail(EMFILE); o->refs++; return n; } return (int)syscall(SYS_dup, fd); }
int fsync(int fd) { if (vfd(fd)) { DiskOp op(SE_WRITE, "fsync"); return op.act > 0 ? fail(op.act) : 0; } return (int)syscall(SYS_fsync, fd); }
int fdatasync(int fd) { if (vfd(fd)) { DiskOp op(SE_WRITE, "fsync"); return op.act > 0 ? fail(op.act) : 0; } return (int)syscall(SYS_fdatasync, fd); }
int mkstemp(char *t) {
    if (!cur_sut()) { static auto f = real<int (*)(char *)>("mkstemp"); return f(t); }
    size_t n = strlen(t); if (n < 6) return fail(EINVAL);
    for (int k = 0; k < 100; k++) { snprintf(t + n - 6, 7, "%06llu", (unsigned long long)(++S->disk.ntmp % 1000000)); int fd = k_open(t, O_RDWR | O_CREAT | O_EXCL, 0600); if (fd >= 0 || errno != EEXIST) return fd; }
    return fail(EEXIST); }
int mkstemp64(char *t) { return mkstemp(t); }
FILE *tmpfile() { if (!cur_sut()) { static auto f = real<FILE *(*)()>("tmpfile"); return f(); } char n[] = "tmpfile.XXXXXX"; int fd = mkstemp(n); if (fd < 0) return nullptr; k_unlink(n); return mkfile(fd, "w+"); }
void *mmap(void *a, size_t n, int prot, int fl, int fd, off_t o) noexcept { if (cur_sut() && vfd(fd)) return s_mmap(n, prot, fl, fd, o); if (cur_sut() && fd != -1) { errno = EBADF; return MAP_FAILED; } if (cur_sut() && !(fl & MAP_FIXED)) return s_mmap_anon(n, prot); return (void *)syscall(SYS_mmap, a, n, prot, fl, fd, o); }
void *mmap64(void *a, size_t n, int prot, int fl, int fd, off64_t o) noexcept { return mmap(a, n, prot, fl, fd, o); }
int munmap(void *a, size_t n) noexcept { uintptr_t p = (uintptr_t)a; if (p >= 0x230000000000ull && p < 0x240000000000ull) return s_munmap(p, n); if (cur_sut()) violation("bad-munmap", "munmap of an address that was never mapped"); return (int)syscall(SYS_munmap, a, n); }
}
