// Deterministic simulator for the marc program.
//
// The real program (every MaRC source, real libcfitsio, real libstdc++ and
// glibc stdio) runs inside this process image.  Every system call it makes
// is trapped by a seccomp filter and handed to on_sigsys() below, which is
// the only code allowed to enter the kernel.  That handler is the simulated
// disk, console, scheduler and fault injector; clock and allocator are
// behind symbol seams (clock_gettime, time, malloc, operator new ...).
//
// The process is a fork server: it reads one job (a scenario plus a fault
// plan, both plain data) from stdin, forks a child that executes it, and
// writes the recorded history to stdout.  A job is a pure function of its
// text: no real clock, pid, random number or address reaches the program.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <cerrno>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <fcntl.h>
#include <link.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <poll.h>
#include <signal.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

int marc_main(int, char **);  // The program under test (marc.cpp's main).

// ---------------------------------------------------------------- kernel gate
extern "C" long sim_sys(long nr, long a, long b, long c, long d, long e, long f);
extern "C" char sim_sys_end[];
__asm__(".text\n.balign 64\n.globl sim_sys\nsim_sys:\n"
        "mov %rdi,%rax\nmov %rsi,%rdi\nmov %rdx,%rsi\nmov %rcx,%rdx\n"
        "mov %r8,%r10\nmov %r9,%r8\nmov 8(%rsp),%r9\nsyscall\nret\n"
        ".globl sim_sys_end\nsim_sys_end:\nnop\n");
static inline long K(long nr, long a = 0, long b = 0, long c = 0, long d = 0,
                     long e = 0, long f = 0)
{ return sim_sys(nr, a, b, c, d, e, f); }

// ------------------------------------------------------------------- job data
enum Cls { C_OPEN, C_READ, C_WRITE, C_CLOSE, C_UNLINK, C_SEEK, C_TRUNC,
           C_STAT, C_CON, C_RENAME, C_SYNC, C_ALLOC, C_CLOCK, C_MALLOC, C_N };
static char const * const cls_name[C_N] =
    { "open", "read", "write", "close", "unlink", "seek", "trunc", "stat",
      "con", "rename", "sync", "alloc", "clock", "malloc" };

struct Fault {
    int cls; long nth; int err; long arg; int count; char kind; int fired;
};
// kind: 'e' errno, 's' short transfer of arg bytes, 'k' kill before the op,
//       'K' kill after the op, 'j' clock jump by arg ms,
//       't' torn: arg bytes transferred, then errno on the rest
struct Ext { long op; char kind; char a[200], b[200]; bool done; };

struct Job {
    char dir[256];
    char * argv[32]; int argc;
    char * envp[64]; int envc;
    Fault f[64]; int nf;
    Ext x[16]; int nx;
    long seed; int heapfill; int tty; int wlog; int rdchunk; int wrchunk;
    long quota; long maxalloc; long oplimit; int cpu; long clk_base, clk_step;
    long opstep; int stackfill; int gate_in, gate_out; int trace;
    long killop; // kill before the op with this global index
    char text[65536]; size_t tlen;
};

struct Shared {           // one per child, MAP_SHARED
    size_t log_n, blob_n;
    long ops, cls[C_N], fired[C_N], faults, allocs, big, canary, escapes, clock_calls;
    long done_exit;       // marc_main returned / exit() ran
    long simkill, overlog, oplim;
    int64_t mono, real;
    uint64_t hash;
    char log[3 << 20];
    char blob[24 << 20];
};

static Job J;
static Shared * S;        // current child's region
static bool live = false; // simulation active in this process
static int in_sim = 0;

static uint64_t rng_s;
static uint64_t rnd()
{ uint64_t z = (rng_s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }

static void logf_(char const * fmt, ...) __attribute__((format(printf, 1, 2)));
static void logf_(char const * fmt, ...)
{
    if (S->log_n + 1024 > sizeof S->log) { S->overlog = 1; return; }
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(S->log + S->log_n, 1000, fmt, ap);
    va_end(ap);
    if (n > 999) n = 999;
    for (int i = 0; i < n; ++i)
        S->hash = (S->hash ^ (unsigned char) S->log[S->log_n + i]) * 1099511628211ull;
    S->log_n += n;
}
static long blob(void const * p, size_t n)
{
    if (S->blob_n + n > sizeof S->blob) { S->overlog = 1; return -1; }
    long o = (long) S->blob_n;
    memcpy(S->blob + o, p, n); S->blob_n += n; return o;
}

// ----------------------------------------------------------------- fault plan
static void sim_kill(char const * why)
{
    S->simkill = 1; logf_("kill %s\n", why);
    K(SYS_kill, K(SYS_getpid), SIGKILL);
    for (;;) K(SYS_pause);
}
static Fault * fault_for(int cls)
{
    long n = S->cls[cls]++;
    for (int i = 0; i < J.nf; ++i) {
        Fault & f = J.f[i];
        if (f.cls == cls && n >= f.nth && (f.count < 0 || n < f.nth + f.count)) {
            if (f.kind == 'k') sim_kill("planned");
            f.fired++; S->fired[cls]++; S->faults++;
            return &f;
        }
    }
    return nullptr;
}
static void gate()
{
    if (J.gate_out < 0) return;
    char c = 'w';
    K(SYS_write, J.gate_out, (long) &c, 1);
    while (K(SYS_read, J.gate_in, (long) &c, 1) != 1) ;
}
static void tick(int64_t us) { S->mono += us; S->real += us; }
static void op_begin()
{
    gate();
    long n = S->ops++;
    tick(20 + (long) (rnd() % 200));
    if (J.opstep) tick((int64_t) (rnd() % (uint64_t) J.opstep));
    for (int i = 0; i < J.nx; ++i)
        if (!J.x[i].done && J.x[i].op <= n) {
            J.x[i].done = true;
            long r = 0;
            if (J.x[i].kind == 'r') r = K(SYS_rename, (long) J.x[i].a, (long) J.x[i].b);
            if (J.x[i].kind == 'u') r = K(SYS_unlink, (long) J.x[i].a);
            if (J.x[i].kind == 't') r = K(SYS_truncate, (long) J.x[i].a, atol(J.x[i].b));
            logf_("ext %ld %c %s %s %ld\n", n, J.x[i].kind, J.x[i].a, J.x[i].b, r);
        }
    if (J.killop >= 0 && n == J.killop) sim_kill("op");
    if (n > J.oplimit) { S->oplim = 1; sim_kill("oplimit"); }
}

// ------------------------------------------------------------------- fd table
static char fdpath[256][200];
static char fdin[256];      // 1: inside the scratch directory
static char fdwr[256];      // 1: written to since it was opened
static int64_t written;     // bytes charged to the quota
static bool inside(char const * p)
{
    if (p[0] != '/') return strstr(p, "..") == nullptr;
    size_t n = strlen(J.dir);
    return strncmp(p, J.dir, n) == 0 && (p[n] == '/' || p[n] == 0);
}
static char const * rel(char const * p)
{
    size_t n = strlen(J.dir);
    if (strncmp(p, J.dir, n) == 0 && p[n] == '/') p += n + 1;
    while (p[0] == '.' && p[1] == '/') p += 2;
    return p;
}
static bool devnull(char const * p) { return strncmp(p, "/dev/", 5) == 0; }

static long do_open(int dfd, char const * path, long flags, long mode)
{
    bool in = inside(path);
    bool mut = (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) != 0;
    if (!in) {
        if (mut && !devnull(path)) {
            S->escapes++; logf_("escape open %s %lx\n", path, flags); return -EACCES;
        }
        return K(SYS_openat, dfd, (long) path, flags, mode);
    }
    op_begin();
    Fault * f = fault_for(C_OPEN);
    long r;
    if (f && f->kind == 'e') r = -f->err;
    else r = K(SYS_openat, dfd, (long) path, flags & ~O_CLOEXEC, mode);
    if (f && f->kind == 'K') { logf_("op open %s %lx %ld F\n", rel(path), flags, r); sim_kill("after"); }
    if (r >= 0 && r < 256) {
        snprintf(fdpath[r], sizeof fdpath[r], "%s", rel(path)); fdin[r] = 1; fdwr[r] = 0;
    }
    logf_("op open %s %lx %ld%s\n", rel(path), flags, r, f ? " F" : "");
    return r;
}
static bool tracked(long fd) { return fd >= 0 && fd < 256 && fdin[fd]; }

static long do_read(long fd, char * buf, size_t n, long off, bool p)
{
    if (!tracked(fd))
        return p ? K(SYS_pread64, fd, (long) buf, n, off) : K(SYS_read, fd, (long) buf, n);
    op_begin();
    Fault * f = fault_for(C_READ);
    long r; size_t want = n;
    if (J.rdchunk && n > 1 && rnd() % 100 < (unsigned) J.rdchunk)
        want = 1 + rnd() % n;
    if (f && f->kind == 's' && f->arg >= 0 && (size_t) f->arg < want) want = f->arg;
    if (f && f->kind == 'e') r = -f->err;
    else r = p ? K(SYS_pread64, fd, (long) buf, want, off) : K(SYS_read, fd, (long) buf, want);
    logf_("op read %s %zu %ld%s\n", fdpath[fd], n, r, f ? " F" : "");
    if (f && f->kind == 'K') sim_kill("after");
    return r;
}
static long do_write(long fd, char const * buf, size_t n, long off, bool p)
{
    if (fd == 1 || fd == 2) {
        op_begin();
        Fault * f = fault_for(C_CON);
        if (f && f->kind == 'e') { logf_("con %ld -1 0 %d F\n", fd, f->err); return -f->err; }
        size_t w = n;
        if (f && f->kind == 's' && f->arg > 0 && (size_t) f->arg < w) w = f->arg;
        long b = blob(buf, w);
        size_t dn = strlen(J.dir);
        for (size_t i = 0; i < w; ++i) {
            // the scratch directory's name is the only thing that may differ
            if (w - i >= dn && memcmp(buf + i, J.dir, dn) == 0) { i += dn - 1; continue; }
            S->hash = (S->hash ^ (unsigned char) buf[i]) * 1099511628211ull;
        }
        logf_("con %ld %ld %zu %ld\n", fd, b, w, S->ops);
        if (f && f->kind == 'K') sim_kill("after");
        return (long) w;
    }
    if (!tracked(fd)) {
        S->escapes++; logf_("escape write %ld\n", fd);
        return -EBADF;
    }
    op_begin();
    Fault * f = fault_for(C_WRITE);
    size_t want = n; long r;
    fdwr[fd] = 1;
    if (J.wrchunk && n > 1 && rnd() % 100 < (unsigned) J.wrchunk)
        want = 1 + rnd() % n;
    if (!p) off = K(SYS_lseek, fd, 0, SEEK_CUR);
    if (f && f->kind == 's' && f->arg > 0 && (size_t) f->arg < want) want = f->arg;
    if (f && f->kind == 't') want = (size_t) f->arg < want ? f->arg : want;
    if (f && f->kind == 'e') r = -f->err;
    else {
        if (J.quota >= 0) {
            // The device has room for quota more bytes beyond what is there.
            struct stat st;
            K(SYS_fstat, fd, (long) &st);
            int64_t grow = off + (int64_t) want - st.st_size;
            if (grow > 0 && written + grow > J.quota) {
                int64_t room = J.quota - written;
                int64_t fit = (st.st_size - off) + room;
                S->fired[C_WRITE]++; S->faults++;
                if (fit <= 0) { r = -ENOSPC; goto out; }
                want = (size_t) fit; grow = room;
            }
            if (grow > 0) written += grow;
        }
        r = want ? (p ? K(SYS_pwrite64, fd, (long) buf, want, off)
                      : K(SYS_write, fd, (long) buf, want)) : -(f ? f->err : EIO);
    }
out:
    {
        long b = (J.wlog && r > 0) ? blob(buf, r) : -1;
        logf_("op write %s %ld %zu %ld %ld%s\n", fdpath[fd], off, n, r, b, f ? " F" : "");
    }
    if (f && f->kind == 'K') sim_kill("after");
    if (f && f->kind == 't' && r > 0 && (size_t) r == want && want < n) {
        // torn: the bytes reached the disk, the call failed
        return -f->err;
    }
    return r;
}
static long path_op(long nr, Cls c, char const * what, char const * p1,
                    char const * p2, long a, long b, long cc, long d, long e)
{
    if (!inside(p1) || (p2 && !inside(p2))) {
        S->escapes++; logf_("escape %s %s %s\n", what, p1, p2 ? p2 : ""); return -EACCES;
    }
    op_begin();
    Fault * f = fault_for(c);
    long r = (f && f->kind == 'e') ? -f->err : K(nr, a, b, cc, d, e);
    logf_("op %s %s %s %ld%s\n", what, rel(p1), p2 ? rel(p2) : "-", r, f ? " F" : "");
    if (f && f->kind == 'K') sim_kill("after");
    return r;
}

static int64_t now_us(int clk)
{
    S->clock_calls++;
    tick(J.clk_step ? 1 + (int64_t) (rnd() % J.clk_step) : 1);
    Fault * f = fault_for(C_CLOCK);
    if (f && f->kind == 'j') { S->real += f->arg * 1000; logf_("jump %ld\n", f->arg); }
    int64_t v = (clk == CLOCK_REALTIME || clk == CLOCK_REALTIME_COARSE) ? S->real : S->mono;
    logf_("clk %d %lld\n", clk, (long long) v);
    return v;
}
static void fill_ts(struct timespec * t, int64_t us)
{
    t->tv_sec = us / 1000000; t->tv_nsec = (us % 1000000) * 1000;
    if (t->tv_nsec < 0) { t->tv_nsec += 1000000000; t->tv_sec -= 1; }
}

static long dispatch(long nr, long a, long b, long c, long d, long e, long f)
{
    switch (nr) {
    case SYS_openat: return do_open((int) a, (char const *) b, c, d);
    case SYS_open:   return do_open(AT_FDCWD, (char const *) a, b, c);
    case SYS_creat:  return do_open(AT_FDCWD, (char const *) a, O_CREAT | O_WRONLY | O_TRUNC, b);
    case SYS_read:   return do_read(a, (char *) b, c, 0, false);
    case SYS_pread64:return do_read(a, (char *) b, c, d, true);
    case SYS_readv: {
        auto v = (struct iovec const *) b; long t = 0;
        for (long i = 0; i < c; ++i) {
            if (!v[i].iov_len) continue;
            long r = do_read(a, (char *) v[i].iov_base, v[i].iov_len, 0, false);
            if (r < 0) return t ? t : r;
            t += r; if ((size_t) r < v[i].iov_len) break;
        }
        return t; }
    case SYS_write:  return do_write(a, (char const *) b, c, 0, false);
    case SYS_pwrite64:return do_write(a, (char const *) b, c, d, true);
    case SYS_writev: {
        auto v = (struct iovec const *) b; long t = 0;
        for (long i = 0; i < c; ++i) {
            if (!v[i].iov_len) continue;
            long r = do_write(a, (char const *) v[i].iov_base, v[i].iov_len, 0, false);
            if (r < 0) return t ? t : r;
            t += r; if ((size_t) r < v[i].iov_len) break;
        }
        return t; }
    case SYS_lseek: {
        if (!tracked(a)) return (a >= 0 && a <= 2) ? -ESPIPE : K(nr, a, b, c);
        op_begin();
        Fault * q = fault_for(C_SEEK);
        long r = (q && q->kind == 'e') ? -q->err : K(nr, a, b, c);
        logf_("op seek %s %ld %ld %ld%s\n", fdpath[a], b, c, r, q ? " F" : "");
        return r; }
    case SYS_close: {
        if (!tracked(a)) return a <= 2 ? 0 : K(nr, a);
        op_begin();
        Fault * q = fault_for(C_CLOSE);
        if (q && q->kind == 'e' && q->arg > 0 && fdwr[a]) {
            // delayed write-back failed: the last bytes never reach the disk
            struct stat st; K(SYS_fstat, a, (long) &st);
            K(SYS_ftruncate, a, st.st_size > q->arg ? st.st_size - q->arg : 0);
        }
        long r = K(nr, a);   // the descriptor is gone either way, as on Linux
        if (q && q->kind == 'e') r = -q->err;
        logf_("op close %s %ld%s\n", fdpath[a], r, q ? " F" : "");
        fdin[a] = 0;
        if (q && q->kind == 'K') sim_kill("after");
        return r; }
    case SYS_fstat:
    case SYS_newfstatat: {
        long fd = a; auto st = (struct stat *) (nr == SYS_fstat ? b : c);
        bool byfd = nr == SYS_fstat || (((char const *) b)[0] == 0 && (d & AT_EMPTY_PATH));
        if (byfd && fd >= 0 && fd <= 2) {
            memset(st, 0, sizeof *st);
            st->st_mode = J.tty ? (S_IFCHR | 0620) : (S_IFIFO | 0600);
            st->st_rdev = J.tty ? 0x8800 : 0; st->st_blksize = J.tty ? 1024 : 4096;
            st->st_nlink = 1;
            return 0;
        }
        if (byfd ? !tracked(fd) : !inside((char const *) b)) return K(nr, a, b, c, d);
        op_begin();
        Fault * q = fault_for(C_STAT);
        long r = (q && q->kind == 'e') ? -q->err : K(nr, a, b, c, d);
        logf_("op stat %s %ld%s\n", byfd ? fdpath[fd] : rel((char const *) b), r, q ? " F" : "");
        return r; }
    case SYS_stat: case SYS_lstat: case SYS_access: {
        if (!inside((char const *) a)) return K(nr, a, b, c, d);
        op_begin();
        Fault * q = fault_for(C_STAT);
        long r = (q && q->kind == 'e') ? -q->err : K(nr, a, b, c, d);
        logf_("op stat %s %ld%s\n", rel((char const *) a), r, q ? " F" : "");
        return r; }
    case SYS_faccessat: case SYS_faccessat2: case SYS_statx: case SYS_readlinkat: {
        if (!inside((char const *) b)) return K(nr, a, b, c, d, e);
        op_begin();
        Fault * q = fault_for(C_STAT);
        long r = (q && q->kind == 'e') ? -q->err : K(nr, a, b, c, d, e);
        logf_("op stat %s %ld%s\n", rel((char const *) b), r, q ? " F" : "");
        return r; }
    case SYS_unlink: return path_op(nr, C_UNLINK, "unlink", (char const *) a, nullptr, a, b, c, d, e);
    case SYS_rmdir:  return path_op(nr, C_UNLINK, "rmdir", (char const *) a, nullptr, a, b, c, d, e);
    case SYS_unlinkat: return path_op(nr, C_UNLINK, (c & AT_REMOVEDIR) ? "rmdir" : "unlink", (char const *) b, nullptr, a, b, c, d, e);
    case SYS_rename: return path_op(nr, C_RENAME, "rename", (char const *) a, (char const *) b, a, b, c, d, e);
    case SYS_renameat: case SYS_renameat2:
        return path_op(nr, C_RENAME, "rename", (char const *) b, (char const *) d, a, b, c, d, e);
    case SYS_link: return path_op(nr, C_RENAME, "link", (char const *) a, (char const *) b, a, b, c, d, e);
    case SYS_linkat: return path_op(nr, C_RENAME, "link", (char const *) b, (char const *) d, a, b, c, d, e);
    case SYS_symlink: return path_op(nr, C_RENAME, "symlink", (char const *) b, nullptr, a, b, c, d, e);
    case SYS_mkdir: return path_op(nr, C_RENAME, "mkdir", (char const *) a, nullptr, a, b, c, d, e);
    case SYS_mkdirat: return path_op(nr, C_RENAME, "mkdir", (char const *) b, nullptr, a, b, c, d, e);
    case SYS_truncate: return path_op(nr, C_TRUNC, "truncate", (char const *) a, nullptr, a, b, c, d, e);
    case SYS_chmod: return path_op(nr, C_RENAME, "chmod", (char const *) a, nullptr, a, b, c, d, e);
    case SYS_fchmodat: return path_op(nr, C_RENAME, "chmod", (char const *) b, nullptr, a, b, c, d, e);
    case SYS_ftruncate: case SYS_fallocate: {
        if (!tracked(a)) { S->escapes++; return -EBADF; }
        op_begin();
        Fault * q = fault_for(C_TRUNC);
        long r = (q && q->kind == 'e') ? -q->err : K(nr, a, b, c, d);
        logf_("op %s %s %ld %ld%s\n", nr == SYS_ftruncate ? "ftruncate" : "fallocate",
              fdpath[a], nr == SYS_ftruncate ? b : c + d, r, q ? " F" : "");
        return r; }
    case SYS_fsync: case SYS_fdatasync: {
        if (!tracked(a)) return a <= 2 ? -EINVAL : K(nr, a);
        op_begin();
        Fault * q = fault_for(C_SYNC);
        long r = (q && q->kind == 'e') ? -q->err : 0;
        logf_("op sync %s %ld%s\n", fdpath[a], r, q ? " F" : "");
        return r; }
    case SYS_ioctl:
        if (a >= 0 && a <= 2) {
            if (b == TCGETS && J.tty) {
                // struct termios of the kernel: 36 bytes
                memset((void *) c, 0, 36); return 0;
            }
            return -ENOTTY;
        }
        return K(nr, a, b, c);
    case SYS_dup: case SYS_dup2: case SYS_dup3: {
        long r = K(nr, a, b, c);
        if (r >= 0 && r < 256 && tracked(a)) { memcpy(fdpath[r], fdpath[a], 200); fdin[r] = 1; }
        return r; }
    case SYS_fcntl: {
        long r = K(nr, a, b, c);
        if ((b == F_DUPFD || b == F_DUPFD_CLOEXEC) && r >= 0 && r < 256 && tracked(a)) {
            memcpy(fdpath[r], fdpath[a], 200); fdin[r] = 1; }
        return r; }
    case SYS_clock_gettime: fill_ts((struct timespec *) b, now_us((int) a)); return 0;
    case SYS_gettimeofday: {
        int64_t v = now_us(CLOCK_REALTIME); auto t = (struct timeval *) a;
        if (t) { t->tv_sec = v / 1000000; t->tv_usec = v % 1000000; } return 0; }
    case SYS_time: { time_t t = now_us(CLOCK_REALTIME) / 1000000; if (a) *(time_t *) a = t; return t; }
    case SYS_nanosleep: { auto t = (struct timespec const *) a; tick(t->tv_sec * 1000000 + t->tv_nsec / 1000); return 0; }
    case SYS_clock_nanosleep: { auto t = (struct timespec const *) c; if (!b) tick(t->tv_sec * 1000000 + t->tv_nsec / 1000); return 0; }
    case SYS_getrandom: { auto p = (unsigned char *) a; for (long i = 0; i < b; ++i) p[i] = (unsigned char) rnd(); return b; }
    case SYS_mmap: {
        long r = K(nr, a, b, c, d, e, f);
        if (e >= 0 && tracked(e)) logf_("op mmap %s %lx\n", fdpath[e], c);
        return r; }
    case SYS_fork: case SYS_vfork: case SYS_clone: case SYS_clone3: case SYS_execve:
    case SYS_execveat: case SYS_kill: case SYS_socket: case SYS_connect: case SYS_ptrace:
    case SYS_mount: case SYS_umount2: case SYS_chroot: case SYS_reboot: case SYS_chown:
    case SYS_fchown: case SYS_lchown: case SYS_setxattr:
        S->escapes++; logf_("escape syscall %ld\n", nr); return -EPERM;
    default:
        return K(nr, a, b, c, d, e, f);
    }
}

static void on_sigsys(int, siginfo_t * si, void * uc)
{
    int saved = errno;
    greg_t * g = ((ucontext_t *) uc)->uc_mcontext.gregs;
    ++in_sim;
    g[REG_RAX] = dispatch(si->si_syscall, g[REG_RDI], g[REG_RSI], g[REG_RDX],
                          g[REG_R10], g[REG_R8], g[REG_R9]);
    --in_sim;
    errno = saved;
}
static bool install_filter()
{
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_sigsys; sa.sa_flags = SA_SIGINFO;
    sigaction(SIGSYS, &sa, nullptr);
    if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) != 0) return false;
    static int const allow[] = { SYS_rt_sigreturn, SYS_rt_sigprocmask, SYS_futex, SYS_brk,
        SYS_munmap, SYS_mprotect, SYS_madvise, SYS_mremap, SYS_tgkill, SYS_gettid,
        SYS_getpid, SYS_exit, SYS_exit_group, SYS_rt_sigaction, SYS_sched_yield };
    constexpr int NA = sizeof allow / sizeof *allow;
    struct sock_filter f[16 + NA]; int n = 0;
    uintptr_t lo = (uintptr_t) sim_sys, hi = (uintptr_t) sim_sys_end;
    f[n++] = BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr));
    for (int i = 0; i < NA; ++i)
        f[n++] = BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (unsigned) allow[i],
                          (unsigned char) (NA - 1 - i + 6), 0);
    f[n++] = BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer) + 4);
    f[n++] = BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (unsigned) (lo >> 32), 0, 3);
    f[n++] = BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer));
    f[n++] = BPF_JUMP(BPF_JMP | BPF_JGE | BPF_K, (unsigned) lo, 0, 1);
    f[n++] = BPF_JUMP(BPF_JMP | BPF_JGT | BPF_K, (unsigned) hi, 0, 1);
    f[n++] = BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP);
    f[n++] = BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
    struct sock_fprog p = { (unsigned short) n, f };
    return syscall(SYS_seccomp, SECCOMP_SET_MODE_FILTER, 0, &p) == 0;
}

// -------------------------------------------------------------- symbol seams
// Clock (the vDSO never traps, so these symbols are the seam).
extern "C" {
int clock_gettime(clockid_t c, struct timespec * t) noexcept
{ if (!live) return (int) syscall(SYS_clock_gettime, c, t);
  ++in_sim; fill_ts(t, now_us(c)); --in_sim; return 0; }
int gettimeofday(struct timeval * __restrict t, void * __restrict) noexcept
{ if (!live) return (int) syscall(SYS_gettimeofday, t, nullptr);
  ++in_sim; int64_t v = now_us(CLOCK_REALTIME); --in_sim;
  t->tv_sec = v / 1000000; t->tv_usec = v % 1000000; return 0; }
time_t time(time_t * t) noexcept
{ time_t v; if (!live) v = syscall(SYS_time, nullptr);
  else { ++in_sim; v = now_us(CLOCK_REALTIME) / 1000000; --in_sim; }
  if (t) *t = v; return v; }
clock_t clock() noexcept
{ if (!live) return 0;
  ++in_sim; clock_t v = now_us(CLOCK_MONOTONIC); --in_sim; return v; }
pid_t getpid() noexcept { return live ? 4242 : (pid_t) syscall(SYS_getpid); }
}

// Allocator: canaries around every block, seeded fill, planned failures.
extern "C" { void * __libc_malloc(size_t); void __libc_free(void *); void * __libc_memalign(size_t, size_t); }
namespace {
struct Hdr { uint64_t magic; uint64_t size; void * base; uint64_t pad; };  // 32 bytes
constexpr uint64_t MAGIC = 0xA110CA7EDB10C5EDull, DEAD = 0xDEADB10CDEADB10Cull;
constexpr size_t TAIL = 16;
uintptr_t exe_lo, exe_hi;
bool from_exe(void * ra) { auto p = (uintptr_t) ra; return p >= exe_lo && p < exe_hi; }

[[noreturn]] void canary(char const * w)
{ if (live) { ++in_sim; S->canary = 1; logf_("canary %s\n", w); }
  K(SYS_kill, K(SYS_getpid), SIGABRT); K(SYS_exit_group, 134); for (;;) ; }

void * finish(void * base, char * user, size_t n, bool zero)
{
    auto h = (Hdr *) (user - sizeof(Hdr));
    h->magic = MAGIC; h->size = n; h->base = base; h->pad = 0;
    memset(user + n, 0xA5, TAIL);
    if (zero) memset(user, 0, n);
    else if (live && J.heapfill) {
        uint64_t z = (uint64_t) J.heapfill * 0x9E3779B97F4A7C15ull;
        unsigned char b = (unsigned char) (z >> 56);
        if (J.heapfill == 1) b = 0x00; else if (J.heapfill == 2) b = 0xFF;
        else if (J.heapfill == 3) b = 0x7F;
        memset(user, b, n);
    }
    return user;
}
void * raw_alloc(size_t n, bool zero, size_t align)
{
    if (n > ((size_t) 1 << 40)) { errno = ENOMEM; return nullptr; }
    if (align <= 16) {
        char * b = (char *) __libc_malloc(n + sizeof(Hdr) + TAIL);
        if (!b) return nullptr;
        return finish(b, b + sizeof(Hdr), n, zero);
    }
    char * b = (char *) __libc_malloc(n + sizeof(Hdr) + TAIL + align);
    if (!b) return nullptr;
    auto u = ((uintptr_t) b + sizeof(Hdr) + align - 1) & ~(align - 1);
    return finish(b, (char *) u, n, zero);
}
void check_block(Hdr * h, char const * w)
{
    if (h->magic != MAGIC) canary(w);
    auto t = (unsigned char *) (h + 1) + h->size;
    for (size_t i = 0; i < TAIL; ++i) if (t[i] != 0xA5) canary("overrun");
}
void raw_free(void * p)
{
    if (!p) return;
    auto h = (Hdr *) p - 1;
    check_block(h, h->magic == DEAD ? "doublefree" : "badfree");
    h->magic = DEAD;
    if (live && J.heapfill) memset(p, J.heapfill == 1 ? 0xFF : 0xDB, h->size);
    __libc_free(h->base);
}
// true: this allocation is planned to fail
bool deny(size_t n, Cls c)
{
    if (!live || in_sim) return false;
    ++in_sim; S->allocs++;
    bool no = false;
    Fault * f = fault_for(c);
    if (f && f->kind == 'e') { no = true; logf_("alloc %s %zu F\n", cls_name[c], n); }
    if (J.maxalloc > 0 && c == C_ALLOC && n > (size_t) J.maxalloc) {
        no = true; S->fired[c]++; S->faults++; logf_("alloc big %zu F\n", n); }
    --in_sim;
    if (no) errno = ENOMEM;
    return no;
}
}
extern "C" {
void * malloc(size_t n) noexcept
{ if (from_exe(__builtin_return_address(0)) ? deny(n, C_ALLOC) : deny(n, C_MALLOC)) return nullptr;
  return raw_alloc(n, false, 16); }
void * calloc(size_t a, size_t b) noexcept
{ size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
  if (from_exe(__builtin_return_address(0)) ? deny(n, C_ALLOC) : deny(n, C_MALLOC)) return nullptr;
  return raw_alloc(n, true, 16); }
void free(void * p) noexcept { raw_free(p); }
void * realloc(void * p, size_t n) noexcept
{ if (from_exe(__builtin_return_address(0)) ? deny(n, C_ALLOC) : deny(n, C_MALLOC)) return nullptr;
  if (!p) return raw_alloc(n, false, 16);
  auto h = (Hdr *) p - 1; check_block(h, "badrealloc");
  void * q = raw_alloc(n, false, 16); if (!q) return nullptr;
  memcpy(q, p, h->size < n ? h->size : n); raw_free(p); return q; }
void * reallocarray(void * p, size_t a, size_t b) noexcept
{ size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } return realloc(p, n); }
void * memalign(size_t al, size_t n) noexcept { return raw_alloc(n, false, al); }
void * aligned_alloc(size_t al, size_t n) noexcept { return raw_alloc(n, false, al); }
int posix_memalign(void ** o, size_t al, size_t n) noexcept
{ *o = raw_alloc(n, false, al); return *o ? 0 : ENOMEM; }
void * valloc(size_t n) noexcept { return raw_alloc(n, false, 4096); }
size_t malloc_usable_size(void * p) noexcept { return p ? ((Hdr *) p - 1)->size : 0; }
char * strdup(char const * s) noexcept
{ size_t n = strlen(s) + 1;
  if (from_exe(__builtin_return_address(0)) ? deny(n, C_ALLOC) : deny(n, C_MALLOC)) return nullptr;
  char * q = (char *) raw_alloc(n, false, 16); if (q) memcpy(q, s, n); return q; }
}
void * operator new(size_t n)
{ void * p = deny(n, C_ALLOC) ? nullptr : raw_alloc(n ? n : 1, false, 16);
  if (!p) throw std::bad_alloc(); return p; }
void * operator new[](size_t n) { return operator new(n); }
void * operator new(size_t n, std::nothrow_t const &) noexcept
{ return deny(n, C_ALLOC) ? nullptr : raw_alloc(n ? n : 1, false, 16); }
void * operator new[](size_t n, std::nothrow_t const & t) noexcept { return operator new(n, t); }
void operator delete(void * p) noexcept { raw_free(p); }
void operator delete[](void * p) noexcept { raw_free(p); }
void operator delete(void * p, size_t) noexcept { raw_free(p); }
void operator delete[](void * p, size_t) noexcept { raw_free(p); }

static int phdr_cb(struct dl_phdr_info * i, size_t, void *)
{
    // First entry is the executable.
    exe_lo = UINTPTR_MAX; exe_hi = 0;
    for (int k = 0; k < i->dlpi_phnum; ++k)
        if (i->dlpi_phdr[k].p_type == PT_LOAD) {
            uintptr_t a = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
            if (a < exe_lo) exe_lo = a;
            if (a + i->dlpi_phdr[k].p_memsz > exe_hi) exe_hi = a + i->dlpi_phdr[k].p_memsz;
        }
    return 1;
}

// ------------------------------------------------------------------ job runner
__attribute__((noinline)) static void dirty_stack(int pat)
{
    volatile unsigned char a[512 * 1024];
    for (size_t i = 0; i < sizeof a; i += 1) a[i] = (unsigned char) (pat == 1 ? 0 : pat == 2 ? 0xFF : 0x7F - (i & 7));
}

[[noreturn]] static void run_child()
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    struct rlimit rl = { (rlim_t) J.cpu, (rlim_t) J.cpu + 1 };
    setrlimit(RLIMIT_CPU, &rl);
    rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
    rl = { (rlim_t) 8 << 30, (rlim_t) 8 << 30 }; setrlimit(RLIMIT_AS, &rl);
    int nul = open("/dev/null", O_RDWR);
    dup2(nul, 0); dup2(nul, 1); dup2(nul, 2); if (nul > 2) close(nul);
    if (chdir(J.dir) != 0) _exit(97);
    clearenv();
    for (int i = 0; i < J.envc; ++i) putenv(J.envp[i]);
    rng_s = (uint64_t) J.seed * 0x2545F4914F6CDD1Dull + 1;
    S->real = J.clk_base * 1000000; S->mono = 5000000;
    J.argv[J.argc] = nullptr;
    if (J.stackfill) dirty_stack(J.stackfill);
    if (!install_filter()) _exit(98);
    live = true;
    gate();
    int r = marc_main(J.argc, J.argv);
    ++in_sim; S->done_exit = 1; logf_("ret %d\n", r); --in_sim;
    exit(r);
}

static char * take(char const * s)
{
    size_t n = strlen(s) + 1;
    if (J.tlen + n > sizeof J.text) { fprintf(stderr, "job too large\n"); exit(3); }
    char * p = J.text + J.tlen; memcpy(p, s, n); J.tlen += n; return p;
}
static void job_reset()
{
    memset(&J, 0, offsetof(Job, text));
    J.tlen = 0; J.quota = -1; J.oplimit = 50000; J.cpu = 20; J.killop = -1;
    J.clk_base = 1700000000; J.clk_step = 50; J.gate_in = J.gate_out = -1;
    J.argv[J.argc++] = take("marc");
}
static int cls_of(char const * s)
{ for (int i = 0; i < C_N; ++i) if (!strcmp(s, cls_name[i])) return i;
  fprintf(stderr, "bad class %s\n", s); exit(3); }

static bool job_line(char * l)
{
    char k[32], a[256], b[256]; long v;
    if (sscanf(l, "dir %255s", J.dir) == 1) return true;
    if (!strncmp(l, "arg ", 4)) { J.argv[J.argc++] = take(l + 4); return true; }
    if (!strncmp(l, "env ", 4)) { J.envp[J.envc++] = take(l + 4); return true; }
    if (sscanf(l, "set %31s %ld", k, &v) == 2) {
#define S_(n, f) if (!strcmp(k, #n)) { J.f = v; return true; }
        S_(seed, seed) S_(heapfill, heapfill) S_(stackfill, stackfill) S_(tty, tty)
        S_(wlog, wlog) S_(rdchunk, rdchunk) S_(wrchunk, wrchunk) S_(quota, quota)
        S_(maxalloc, maxalloc) S_(oplimit, oplimit) S_(cpu, cpu) S_(clkbase, clk_base)
        S_(clkstep, clk_step) S_(killop, killop) S_(opstep, opstep)
#undef S_
        fprintf(stderr, "bad set %s\n", k); exit(3);
    }
    Fault f; memset(&f, 0, sizeof f);
    if (sscanf(l, "fault %31s %ld %c %d %ld %d", k, &f.nth, &f.kind, &f.err, &f.arg, &f.count) == 6) {
        f.cls = cls_of(k); if (J.nf < 64) J.f[J.nf++] = f; return true; }
    char kd;
    if (sscanf(l, "ext %ld %c %199s %199s", &v, &kd, a, b) == 4) {
        Ext & x = J.x[J.nx++]; x.op = v; x.kind = kd; x.done = false;
        snprintf(x.a, sizeof x.a, "%s", a); snprintf(x.b, sizeof x.b, "%s", b); return true; }
    fprintf(stderr, "bad job line: %s\n", l); exit(3);
}

static void put(void const * p, size_t n)
{ while (n) { ssize_t w = write(1, p, n); if (w <= 0) exit(0); p = (char const *) p + w; n -= w; } }

static void report(Shared * s, int st)
{
    char h[1024];
    int n = snprintf(h, sizeof h,
        "R %d %d %zu %zu %ld %ld %ld %ld %ld %ld %ld %ld %lld %016llx",
        WIFEXITED(st) ? WEXITSTATUS(st) : -1, WIFSIGNALED(st) ? WTERMSIG(st) : 0,
        s->log_n, s->blob_n, s->ops, s->faults, s->canary, s->escapes, s->simkill,
        s->oplim, s->overlog, s->allocs, (long long) (s->mono - 5000000),
        (unsigned long long) s->hash);
    for (int i = 0; i < C_N; ++i) n += snprintf(h + n, sizeof h - n, " %ld:%ld", s->cls[i], s->fired[i]);
    n += snprintf(h + n, sizeof h - n, "\n");
    put(h, n); put(s->log, s->log_n); put(s->blob, s->blob_n);
}
static void clear_shared(Shared * s) { memset(s, 0, offsetof(Shared, log)); s->hash = 1469598103934665603ull; }

constexpr int MAXP = 4;
static Job jobs[MAXP];

int main(int argc, char ** argv)
{
    // Fixed address layout: re-exec once with randomisation off.
    if (!getenv("SIM_NOASLR")) {
        setenv("SIM_NOASLR", "1", 1);
        if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    dl_iterate_phdr(phdr_cb, nullptr);
    static Shared * sh[MAXP];
    for (auto & s : sh)
        s = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                            MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    signal(SIGPIPE, SIG_IGN);
    char line[8192];
    int nj = 0; long sseed = 0; char sched[16384] = ""; 
    job_reset();
    while (fgets(line, sizeof line, stdin)) {
        size_t n = strlen(line); if (n && line[n - 1] == '\n') line[--n] = 0;
        if (!strcmp(line, "next")) { jobs[nj++] = J; 
            // argv/env pointers refer to J.text; rebase into the copy
            for (int i = 0; i < J.argc; ++i) jobs[nj-1].argv[i] = jobs[nj-1].text + (J.argv[i] - J.text);
            for (int i = 0; i < J.envc; ++i) jobs[nj-1].envp[i] = jobs[nj-1].text + (J.envp[i] - J.text);
            job_reset(); continue; }
        if (!strncmp(line, "sched ", 6)) { snprintf(sched, sizeof sched, "%s", line + 6); continue; }
        if (sscanf(line, "schedseed %ld", &sseed) == 1) continue;
        if (strcmp(line, "run") != 0 && strcmp(line, "multi") != 0) { job_line(line); continue; }
        fflush(stdout);
        if (!strcmp(line, "run")) {
            clear_shared(sh[0]);
            pid_t p = fork();
            if (p == 0) { S = sh[0]; run_child(); }
            int st = 0; waitpid(p, &st, 0);
            report(sh[0], st);
        } else {
            // Several processes, one running at a time; the order of their
            // operations is drawn from schedseed or read from the schedule.
            int in[MAXP][2], out[MAXP][2]; pid_t pid[MAXP]; int st[MAXP]; bool alive[MAXP];
            for (int i = 0; i < nj; ++i) { if (pipe2(in[i], O_CLOEXEC) || pipe2(out[i], O_CLOEXEC)) exit(3); }
            for (int i = 0; i < nj; ++i) {
                clear_shared(sh[i]);
                pid[i] = fork();
                if (pid[i] == 0) {
                    J = jobs[i];
                    for (int k = 0; k < J.argc; ++k) J.argv[k] = J.text + (jobs[i].argv[k] - jobs[i].text);
                    for (int k = 0; k < J.envc; ++k) J.envp[k] = J.text + (jobs[i].envp[k] - jobs[i].text);
                    S = sh[i];
                    // keep only our own gate, on high descriptors
                    int gi = fcntl(in[i][0], F_DUPFD, 300), go = fcntl(out[i][1], F_DUPFD, 300);
                    for (int k = 0; k < nj; ++k) { close(in[k][0]); close(in[k][1]); close(out[k][0]); close(out[k][1]); }
                    J.gate_in = gi; J.gate_out = go;
                    run_child();
                }
                close(in[i][0]); close(out[i][1]); alive[i] = true;
                char c; if (read(out[i][0], &c, 1) != 1) { alive[i] = false; waitpid(pid[i], &st[i], 0); }
            }
            rng_s = (uint64_t) sseed * 0x2545F4914F6CDD1Dull + 7;
            char trace[65536]; size_t tn = 0; size_t si = 0; size_t sl = strlen(sched);
            int cur = -1; 
            for (;;) {
                int n_alive = 0; for (int i = 0; i < nj; ++i) n_alive += alive[i];
                if (!n_alive) break;
                int pick = -1;
                if (sl) { if (si < sl) { pick = sched[si++] - '0'; } }
                else if (cur >= 0 && alive[cur] && rnd() % 100 < (unsigned) (sseed % 7) * 14) pick = cur;
                else { int k = (int) (rnd() % n_alive); for (int i = 0; i < nj; ++i) if (alive[i] && k-- == 0) pick = i; }
                if (pick < 0 || pick >= nj || !alive[pick]) for (int i = 0; i < nj; ++i) if (alive[i]) { pick = i; break; }
                cur = pick;
                if (tn < sizeof trace - 1) trace[tn++] = (char) ('0' + pick);
                char c = 'g';
                if (write(in[pick][1], &c, 1) != 1 || read(out[pick][0], &c, 1) != 1) {
                    alive[pick] = false; waitpid(pid[pick], &st[pick], 0); }
            }
            for (int i = 0; i < nj; ++i) { close(in[i][1]); close(out[i][0]); }
            char h[64]; int hn = snprintf(h, sizeof h, "M %d %zu\n", nj, tn);
            put(h, hn); put(trace, tn);
            for (int i = 0; i < nj; ++i) report(sh[i], st[i]);
            nj = 0; sched[0] = 0;
        }
        job_reset();
    }
    return 0;
}
