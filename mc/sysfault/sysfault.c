// In-process system call fault injector: a seccomp filter traps the file system calls of this process, the SIGSYS
// handler carries them out itself (through a gate the filter lets pass) or answers with the fault the plan asks for.
// It sees every call, whether made by the interpreter, the C library or an extension module.
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <signal.h>
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <ucontext.h>

long sf_gate(long nr, long a, long b, long c, long d, long e, long f);
extern char sf_gate_ret[];
__asm__(".text\n.globl sf_gate\n.type sf_gate,@function\nsf_gate:\n"
        " mov %rdi,%rax\n mov %rsi,%rdi\n mov %rdx,%rsi\n mov %rcx,%rdx\n mov %r8,%r10\n mov %r9,%r8\n mov 8(%rsp),%r9\n"
        " syscall\n.globl sf_gate_ret\nsf_gate_ret:\n ret\n");

enum { OPEN = 'o', READ = 'r', WRITE = 'w', CLOSE = 'c', LIST = 'l', OTHER = 'x' };
enum { ERRNO = 1, SHORT = 2, END = 3, KILL = 4, HALFKILL = 5, HALFERR = 6 };

struct op { uint8_t kind, writable; uint16_t fd; int32_t want; int64_t ret; };
struct shared { uint32_t count, fired; struct op ops[65536]; };

static struct shared *S;
static char prefix[4096];
static size_t plen;
static int on, rel;
static uint8_t tracked[4096];     // 1: reading, 2: writing
static uint32_t target;
static int action, err, persistent, expected;

static int kind_of(long nr) {
    switch (nr) {
    case SYS_open: case SYS_openat: case SYS_creat: return OPEN;
    case SYS_read: case SYS_pread64: case SYS_readv: case SYS_preadv: return READ;
    case SYS_write: case SYS_pwrite64: case SYS_writev: case SYS_pwritev: return WRITE;
    case SYS_close: return CLOSE;
    case SYS_getdents64: return LIST;
    default: return OTHER;
    }
}

static int ours(const char *p) {
    return p && (p[0] == '/' ? !strncmp(p, prefix, plen) : rel);
}

static long clipped(long nr, greg_t *r, long n) {      // the same call for at most n bytes
    switch (nr) {
    case SYS_read: case SYS_write: case SYS_pread64: case SYS_pwrite64:
        return sf_gate(nr, r[REG_RDI], r[REG_RSI], n, r[REG_R10], 0, 0);
    default: {                                         // vectors: first part only
        struct iovec v = *(struct iovec *)r[REG_RSI];
        if ((long)v.iov_len > n) v.iov_len = n;
        return sf_gate(nr, r[REG_RDI], (long)&v, 1, r[REG_R10], r[REG_R8], 0);
    } }
}

static long handle(long nr, greg_t *r) {
    long a = r[REG_RDI], b = r[REG_RSI], c = r[REG_RDX], d = r[REG_R10], e = r[REG_R8], f = r[REG_R9];
    int kind = kind_of(nr), mine = 0, writable = 0;
    if (on) {
        if (kind == OPEN) {
            long flags = nr == SYS_open ? b : nr == SYS_openat ? c : O_WRONLY;
            mine = ours((const char *)(nr == SYS_openat ? b : a));
            writable = (flags & O_ACCMODE) != O_RDONLY;
        } else if (kind == OTHER) {
            switch (nr) {
            case SYS_dup: case SYS_dup2: case SYS_dup3: case SYS_fcntl: break;      // never fail
            case SYS_rename: case SYS_unlink: mine = ours((char *)a); writable = 1; break;
            case SYS_renameat: case SYS_renameat2: case SYS_unlinkat: mine = ours((char *)b); writable = 1; break;
            default: mine = a >= 0 && a < 4096 && tracked[a]; writable = mine && tracked[a] & 2;
            }
        } else {
            mine = a >= 0 && a < 4096 && tracked[a];
            writable = mine && tracked[a] & 2;
        }
    }
    long ret;
    int fault = 0;
    struct op *o = 0;
    if (mine) {
        uint32_t i = S->count++;
        if (i < 65536) {
            o = &S->ops[i];
            o->kind = kind; o->writable = writable; o->fd = kind == OPEN ? 0 : a;
            o->want = kind == READ || kind == WRITE ? c : 0;
        }
        fault = (i == target && kind == expected) || (persistent && i > target && i < 65536 && target < 65536 && S->fired && kind == expected && (persistent == 1 || a == S->ops[target].fd));
    }
    if (fault) {
        S->fired++;
        long n = action != HALFERR && err ? err : c > 1 ? c / 2 : 1;
        if (n > c && kind != LIST) n = c;
        if (nr == SYS_readv || nr == SYS_writev || nr == SYS_preadv || nr == SYS_pwritev) n = 1;
        switch (action) {
        case ERRNO:
            if (kind == CLOSE) { sf_gate(nr, a, b, c, d, e, f); if (a >= 0 && a < 4096) tracked[a] = 0; }
            ret = -err; break;
        case SHORT: ret = clipped(nr, r, n); break;
        case END: ret = 0; break;
        case HALFKILL: clipped(nr, r, n);                  // fall through
        case KILL: sf_gate(SYS_kill, sf_gate(SYS_getpid, 0, 0, 0, 0, 0, 0), SIGKILL, 0, 0, 0, 0); ret = -EIO; break;
        case HALFERR: if (S->fired == 1) ret = clipped(nr, r, n); else ret = -err; break;
        default: ret = -EIO;
        }
    } else
        ret = sf_gate(nr, a, b, c, d, e, f);
    if (o) o->ret = ret;
    // keep track of descriptors
    if (ret >= 0 && ret < 4096) {
        if (kind == OPEN) tracked[ret] = mine ? 1 + 2 * writable : 0;
        if (nr == SYS_dup || (nr == SYS_fcntl && (b == F_DUPFD || b == F_DUPFD_CLOEXEC))) tracked[ret] = a >= 0 && a < 4096 ? tracked[a] : 0;
        if (nr == SYS_dup2 || nr == SYS_dup3) tracked[ret] = a >= 0 && a < 4096 ? tracked[a] : 0;
    }
    if (kind == CLOSE && !fault && ret == 0 && a >= 0 && a < 4096) tracked[a] = 0;
    return ret;
}

static void handler(int s, siginfo_t *i, void *u) {
    (void)s; (void)i;
    greg_t *r = ((ucontext_t *)u)->uc_mcontext.gregs;
    r[REG_RAX] = handle(r[REG_RAX], r);
}

void *sf_shared(void) {
    S = mmap(0, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    return S == MAP_FAILED ? 0 : S;
}
void sf_reset(void) { S->count = S->fired = 0; }
uint32_t sf_count(void) { return S->count; }
uint32_t sf_fired(void) { return S->fired; }
struct op *sf_op(uint32_t i) { return &S->ops[i]; }
void sf_mark(int fd, int writable) { tracked[fd] = 1 + 2 * writable; }
void sf_on(int v) { on = v; }
int sf_left(int from) { for (int i = from; i < 4096; i++) if (tracked[i] & 2) return 1; return 0; }   // files still open for writing

int sf_install(const char *p, int relative, uint32_t k, int act, int e, int persist, int kind) {
    struct sigaction sa;
    strncpy(prefix, p, sizeof prefix - 1);
    plen = strlen(prefix); rel = relative; target = k; action = act; err = e; persistent = persist; expected = kind; on = 1;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = handler;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    if (sigaction(SIGSYS, &sa, 0)) return -1;
    static const int nrs[] = { SYS_open, SYS_openat, SYS_creat, SYS_read, SYS_pread64, SYS_readv, SYS_preadv, SYS_write, SYS_pwrite64,
        SYS_writev, SYS_pwritev, SYS_close, SYS_getdents64, SYS_dup, SYS_dup2, SYS_dup3, SYS_fcntl, SYS_ftruncate, SYS_fsync,
        SYS_fdatasync, SYS_rename, SYS_renameat, SYS_renameat2, SYS_unlink, SYS_unlinkat };
    enum { N = sizeof nrs / sizeof *nrs };
    unsigned long g = (unsigned long)sf_gate_ret;
    struct sock_filter f[N + 8];
    int n = 0;
    f[n++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr));
    for (int i = 0; i < N; i++)
        f[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (unsigned)nrs[i], N - i, 0);
    f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
    f[n++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer));
    f[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (unsigned)g, 0, 3);
    f[n++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer) + 4);
    f[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (unsigned)(g >> 32), 0, 1);
    f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
    f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP);
    struct sock_fprog prog = { n, f };
    if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0)) return -2;
    if (prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &prog)) return -3;
    return 0;
}
