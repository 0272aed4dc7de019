// Environment explorer for freqcd.
//
// Linked with the object files of /repo's freqcd.c and getopt.c, in which 'main' and all environment calls were
// renamed (objcopy --redefine-sym) to freqcd_main and mc_*.  Every mc_* call asks the explorer for its answer;
// the tree of answers is explored depth first, forking at each choice point (see choose()).  At the end of each
// execution an oracle compares what was written with a reference model in exact integer arithmetic.
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <poll.h>
#include <string>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
#include <malloc.h>
#include <functional>
#include <map>

extern "C" int freqcd_main(int argc, char **argv);
typedef unsigned long long u64;
typedef __int128 i128;
typedef std::vector<unsigned char> bytes;

static const int FD_IN = 100, FD_OUT = 101, FD_FREQ = 102;
static const u64 M54 = (1ULL << 54) - 1;

// ---------------------------------------------------------------- scenario
struct Scenario {
    std::string name;
    std::vector<std::string> args;      // besides -i/-o/-F which follow from the flags
    bool legacy = false;
    bool named = true;                  // named in/out files, else stdin/stdout
    bool freq = false;                  // has frequency stream
    bool freqclose = false;             // frequency stream reports EOF when drained
    int rate = 0;                       // rate given by args
    bytes in, fr;
    std::vector<int> inchunks;          // alternatives for input reads (bytes), default first; 0 = as many as fit
    std::vector<int> frchunks;          // ditto; -1 = every length
    bool timeouts = false;              // select may time out with data pending
    bool order = false;                 // select may report only one of two ready descriptors
    int bound = 0;                      // deviations allowed
    bool unitcost = true;               // false: chunk and order alternatives are free (complete enumeration)
    bool faults = false;                // one fault per execution
    bool exact = false;                 // all executions must give the default execution's bytes
    bool identity = false;              // output must equal complete input events
    bool timestamps = false;            // check timestamps against the reference model
    bool prompt = false;                // check instead that nothing is held back while waiting (C38)
};
static std::vector<Scenario> scenarios;

// ---------------------------------------------------------------- shared statistics
struct Shared {
    volatile long next, leaves, choices, transitions, states, faults, outcomes, updates, events;
    volatile long nviol;
    char viol[8][6000];
    char sample[6][1200];
    u64 table[1 << 22];
    u64 outtable[1 << 20];
};
struct WorkerArea { int n; int trace[20000]; int nevents; char log[4000]; long reflen; unsigned char ref[1 << 20]; };
static Shared *S; static WorkerArea *W;
static std::string prop, tier, outdir; static int scidx = -1;

static u64 mix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; h ^= h >> 32; return h; }
static bool insert(u64 *t, size_t mask, u64 h) {
    if (!h) h = 1;
    for (size_t i = h & mask, n = 0; n < 4096; i = (i + 1) & mask, n++) {
        u64 cur = t[i];
        if (cur == h) return false;
        if (!cur) { if (__sync_bool_compare_and_swap(&t[i], 0, h)) return true; if (t[i] == h) return false; }
    }
    return false;
}

// ---------------------------------------------------------------- one execution
static const Scenario *sc;
static std::vector<int> trace;          // choices taken
static std::vector<int> replay; static size_t replaypos; static bool replaying, verbose, defaultonly;
static size_t inpos, frpos, stopin, stopfr; static bool freof, done, faulted, hardfault, openfault, shortwrite;
static int devs, ncalls, idle;
static bool rin, rfr, slept, waited; static long held;   // reported ready and not read since; slept since the last wait; allocations not freed
static bytes out;
struct Ev { char kind; size_t a, b; };  // 'I' input bytes [a,b), 'F' freq bytes [a,b)
static std::vector<Ev> evs;
static std::string elog;

static void note(const char *fmt, ...) {
    char b[300]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (elog.size() < 3500) { elog += b; elog += "; "; }
    if (verbose) { std::string s = std::string(b) + "\n"; syscall(SYS_write, 1, s.data(), s.size()); }
    snprintf(W->log, sizeof W->log, "%s", elog.c_str());
}
static void arm() { struct itimerval t = {}; t.it_value.tv_sec = 20; setitimer(ITIMER_VIRTUAL, &t, 0); }
static std::string tracestr(const int *t, int n) { std::string s; char b[16]; for (int i = 0; i < n; i++) { snprintf(b, sizeof b, "%s%d", i ? "," : "", t[i]); s += b; } return s; }
static std::string describe(const Scenario &x) {
    std::string s = x.name + " args:"; for (auto &a : x.args) s += " " + a;
    char b[200]; snprintf(b, sizeof b, " in=%zuB freq=%zuB%s%s bound=%d", x.in.size(), x.fr.size(), x.legacy ? " legacy" : "", x.named ? "" : " stdio", x.bound); s += b;
    if (x.freq) { s += " freqtext='"; for (size_t i = 0; i < x.fr.size() && i < 80; i++) { unsigned char c = x.fr[i]; if (c == '\n') s += "\\\\n"; else if (c >= 32 && c < 127 && c != '"' && c != '\\') s += (char)c; else s += '?'; } s += "'"; }
    return s;
}
static void record_violation(const std::string &what, const int *t, int n, const std::string &log) {
    long k = __sync_fetch_and_add(&S->nviol, 1);
    if (k < 8) {
        std::string tr = tracestr(t, n); if (tr.size() > 2500) tr = tr.substr(0, 2500);
        snprintf(S->viol[k], sizeof S->viol[k], "{\"prop\":\"%s\",\"tier\":\"%s\",\"scenario\":%d,\"desc\":\"%s\",\"what\":\"%s\",\"choices\":\"%s\",\"log\":\"%s\"}",
                 prop.c_str(), tier.c_str(), scidx, describe(*sc).c_str(), what.c_str(), tr.c_str(), log.substr(0, 1800).c_str());
    }
}
[[noreturn]] static void finish_process() { fflush(stdout); _exit(0); }
static void check_child(int st, const char *where) {
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return;
    char b[200];
    if (WIFSIGNALED(st)) snprintf(b, sizeof b, "execution ended by signal %d%s", WTERMSIG(st), WTERMSIG(st) == SIGVTALRM ? " (endless loop)" : " (memory error)");
    else snprintf(b, sizeof b, "execution ended abnormally, status %d", st);
    record_violation(b, W->trace, W->n, W->log);
}
static int choose(int k) {          // returns alternative 0..k-1, exploring all of them
    if (k <= 1) return 0;
    if (replaying) {
        int c = replaypos < replay.size() ? replay[replaypos] : 0; replaypos++;
        if (c >= k) { fprintf(stderr, "replay diverged\n"); _exit(3); }
        trace.push_back(c); return c;
    }
    if (defaultonly) return 0;
    __sync_fetch_and_add(&S->choices, 1);
    int mine = k - 1;
    for (int alt = 0; alt < k - 1; alt++) {
        if (S->nviol > 40) { mine = alt; break; }
        pid_t pid = fork();
        if (pid == 0) { mine = alt; arm(); break; }
        if (pid < 0) { usleep(1000); alt--; continue; }
        int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        check_child(st, "");
    }
    arm();
    trace.push_back(mine);
    if ((int)trace.size() < 20000) { W->n = trace.size(); memcpy(W->trace, trace.data(), trace.size() * sizeof(int)); }
    snprintf(W->log, sizeof W->log, "%s", elog.c_str());
    return mine;
}
static int deviate(int k, bool unit) {  // default plus k-1 alternatives costing one deviation each (if unit)
    if (!unit) return choose(k);
    if (devs >= sc->bound) return 0;
    int c = choose(k); if (c) devs++; return c;
}
static void finish(int code);
static void call(int kind) {
    __sync_fetch_and_add(&S->transitions, 1);
    u64 h = mix(mix(mix(mix(mix(7, scidx), kind), inpos), frpos), out.size());
    for (size_t i = out.size() >= 8 ? out.size() - 8 : 0; i < out.size(); i++) h = mix(h, out[i]);
    h = mix(h, (faulted ? 1 : 0) + (freof ? 2 : 0));
    if (insert(S->table, (1 << 22) - 1, h)) __sync_fetch_and_add(&S->states, 1);
    if (++ncalls > 2000 + 8 * (int)(sc->in.size() + sc->fr.size())) {
        record_violation("no progress: more environment calls than any terminating run needs", trace.data(), trace.size(), elog);
        finish_process();
    }
}
static bool fault(std::initializer_list<int> kinds) {   // one injected fault per execution, of any of these kinds
    if (!sc->faults || faulted) return false;
    int c = choose(kinds.size() + 1);
    if (c) { faulted = true; __sync_fetch_and_add(&S->faults, 1); errno = kinds.begin()[c - 1]; note("fault: errno %d", errno); errno = kinds.begin()[c - 1]; return true; }
    return false;
}
// a wait or read that failed for good: nothing may be read afterwards
static int hard() { if (errno != EINTR && errno != EAGAIN) { hardfault = true; stopin = inpos; stopfr = frpos; } return -1; }
static bool isin(int fd) { return fd == (sc->named ? FD_IN : 0); }
static bool isfreq(int fd) { return sc->freq && fd == FD_FREQ; }
static bool isout(int fd) { return fd == (sc->named ? FD_OUT : 1); }

static void late(const char *fmt, ...) {    // a violation of C38 in the middle of an execution
    char b[300]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    note("%s", b); record_violation(b, trace.data(), trace.size(), elog); if (verbose) printf("VERDICT %s\n", b);
    finish_process();
}
static void waiting(bool wi, bool wf, long long usec) {     // state of affairs when the program waits; usec < 0: for as long as it takes
    if (!sc->prompt) return;
    if (out.size() != inpos / 8 * 8) late("waits with %zu bytes written for %zu complete events read", out.size(), inpos / 8);
    if (rin) late("waits again without having read the input that was ready");
    if (rfr) late("waits again without having read the frequency stream that was ready");
    if (!wi) late("waits without watching the input");
    if (sc->freq && !freof && !wf) late("waits without watching the frequency stream");
    if (wf && freof) late("goes on waiting for the closed frequency stream");
    if (usec >= 0 && usec < 1000 && !slept) late("polls without pause (wait of %lld us)", usec);
    if (held > 64) late("%ld allocations are held while waiting", held);
    slept = false; waited = true;
}
static void ready(bool wantin, bool wantfr, bool &in, bool &fr) {
    bool ai = wantin, af = wantfr && (frpos < sc->fr.size() || (sc->freqclose && !freof));
    in = ai; fr = af;
    struct Opt { bool i, f; }; Opt o[4]; int n = 0;
    o[n++] = {ai, af};
    if (sc->order && ai && af) { o[n++] = {true, false}; o[n++] = {false, true}; }
    if (sc->timeouts && idle < 1 && (ai || af)) o[n++] = {false, false};
    bool unit = sc->unitcost;
    int c;
    if (unit) c = deviate(n, true);
    else { // free order choices; timeouts still cost
        int nf = n; bool to = sc->timeouts && idle < 1 && (ai || af); if (to && devs >= sc->bound) nf--;
        c = choose(nf); if (to && c == n - 1) devs++;
    }
    in = o[c].i; fr = o[c].f; idle = (!in && !fr) ? idle + 1 : 0;
}

extern "C" {
int mc_select(int nfds, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv) {
    call(1);
    bool wi = false, wf = false; int infd = sc->named ? FD_IN : 0;
    if (r) { wi = infd < nfds && FD_ISSET(infd, r); wf = sc->freq && FD_FREQ < nfds && FD_ISSET(FD_FREQ, r); }
    waiting(wi, wf, tv ? tv->tv_sec * 1000000LL + tv->tv_usec : -1);
    if (fault({EINTR, EBADF, ENOMEM})) return hard();
    bool i, f; ready(wi, wf, i, f); rin = i; rfr = f;
    int outs = 0, outfd = sc->named ? FD_OUT : 1; bool wo = w && outfd < nfds && FD_ISSET(outfd, w);
    if (r) FD_ZERO(r); if (w) FD_ZERO(w); if (e) FD_ZERO(e);
    if (i) FD_SET(infd, r); if (f) FD_SET(FD_FREQ, r); if (wo) { FD_SET(outfd, w); outs = 1; }
    if (tv && !i && !f) { tv->tv_sec = 0; tv->tv_usec = 0; }
    note("select -> %s%s%s", i ? "in " : "", f ? "freq" : "", !i && !f ? "timeout" : "");
    return i + f + outs;
}
int mc_pselect(int nfds, fd_set *r, fd_set *w, fd_set *e, const struct timespec *t, const sigset_t *) { struct timeval tv; if (t) { tv.tv_sec = t->tv_sec; tv.tv_usec = t->tv_nsec / 1000; } return mc_select(nfds, r, w, e, t ? &tv : 0); }
int mc_poll(struct pollfd *p, nfds_t n, int ms) {
    call(1);
    bool wi = false, wf = false;
    for (nfds_t k = 0; k < n; k++) if (p[k].events & POLLIN) { if (isin(p[k].fd)) wi = true; if (isfreq(p[k].fd)) wf = true; }
    waiting(wi, wf, ms * 1000LL);
    if (fault({EINTR, EINVAL, ENOMEM})) return hard();
    bool i, f; ready(wi, wf, i, f); rin = i; rfr = f; int c = 0;
    for (nfds_t k = 0; k < n; k++) {
        p[k].revents = 0;
        if ((isin(p[k].fd) && i) || (isfreq(p[k].fd) && f)) p[k].revents |= POLLIN;
        if (isout(p[k].fd) && (p[k].events & POLLOUT)) p[k].revents |= POLLOUT;
        if (p[k].revents) c++;
    }
    note("poll -> %s%s", i ? "in " : "", f ? "freq" : "");
    return c;
}
int mc_ppoll(struct pollfd *p, nfds_t n, const struct timespec *t, const sigset_t *) { return mc_poll(p, n, t ? t->tv_sec * 1000 + t->tv_nsec / 1000000 : -1); }
static ssize_t chunked(const bytes &src, size_t &pos, const std::vector<int> &alts, size_t n, char kind, void *buf) {
    size_t avail = std::min(n, src.size() - pos); std::vector<size_t> o;
    auto add = [&](size_t v) { if (v < 1 || v > avail) return; for (size_t q : o) if (q == v) return; o.push_back(v); };
    for (int a : alts) { if (a == 0) add(avail); else if (a == -1) { for (size_t v = 1; v <= avail; v++) add(v); } else add(a); }
    if (o.empty()) add(avail);
    size_t c = o[deviate(o.size(), sc->unitcost)];
    memcpy(buf, &src[pos], c); evs.push_back({kind, pos, pos + c}); pos += c;
    note("read %s %zu", kind == 'I' ? "in" : "freq", c);
    return c;
}
ssize_t mc_read(int fd, void *buf, size_t n) {
    call(2);
    if (isin(fd)) {
        if (sc->prompt && n && !rin) late("reads the input without having been told that it is ready"); if (n) rin = false;
        if (fault({EIO, EINTR, EAGAIN})) return hard();
        if (n == 0) return 0;
        if (inpos >= sc->in.size()) { note("input EOF"); return 0; }
        return chunked(sc->in, inpos, sc->inchunks, n, 'I', buf);
    }
    if (isfreq(fd)) {
        if (sc->prompt && n && !rfr) late("reads the frequency stream without having been told that it is ready"); if (n) rfr = false;
        if (fault({EIO, EINTR, EAGAIN})) return hard();
        if (n == 0) return 0;
        if (frpos >= sc->fr.size()) { if (sc->freqclose) { freof = true; note("freq EOF"); return 0; } errno = EAGAIN; return -1; }
        return chunked(sc->fr, frpos, sc->frchunks, n, 'F', buf);
    }
    errno = EBADF; return -1;
}
ssize_t mc_readv(int fd, const struct iovec *v, int n) { return n ? mc_read(fd, v[0].iov_base, v[0].iov_len) : 0; }
ssize_t mc_write(int fd, const void *buf, size_t n) {
    if (fd == 2 && !isout(2)) return n;
    call(3);
    if (!isout(fd)) { errno = EBADF; return -1; }
    if (n && sc->faults && !faulted) {
        std::vector<long> o = {-2, -1, -3, -4}; for (long v : {0L, 1L, 7L, 8L, 9L, (long)n - 1}) if (v < (long)n) { bool d = false; for (long q : o) d |= q == v; if (!d) o.push_back(v); }
        long c = o[choose(o.size())];
        if (c != -2) {
            faulted = true; __sync_fetch_and_add(&S->faults, 1); note("write %zu -> %ld", n, c);
            if (c < 0) { errno = c == -1 ? EPIPE : c == -3 ? EINTR : EAGAIN; return -1; }
            shortwrite = c % 8 != 0; out.insert(out.end(), (const unsigned char *)buf, (const unsigned char *)buf + c); errno = ENOSPC; return c;
        }
    }
    out.insert(out.end(), (const unsigned char *)buf, (const unsigned char *)buf + n);
    if (n) note("write %zu", n);
    return n;
}
ssize_t mc_writev(int fd, const struct iovec *v, int n) { ssize_t t = 0; for (int i = 0; i < n; i++) { ssize_t r = mc_write(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if (r != (ssize_t)v[i].iov_len) break; } return t; }
int mc_open(const char *name, int flags, ...) {
    call(4); int fd = -1;
    if (!strcmp(name, "in.bin")) fd = FD_IN; else if (!strcmp(name, "out.bin")) fd = FD_OUT; else if (!strcmp(name, "freq.txt")) fd = FD_FREQ;
    if (fd < 0) { errno = ENOENT; return -1; }
    if (fault({EACCES})) { note("open %s fails", name); openfault = true; errno = EACCES; return -1; }
    return fd;
}
int mc_open64(const char *name, int flags, ...) { return mc_open(name, flags); }
int mc_openat(int, const char *name, int flags, ...) { return mc_open(name, flags); }
int mc_close(int) { return 0; }
int mc_fcntl(int, int, ...) { return 0; }
int mc_usleep(unsigned) { slept = true; return 0; }
unsigned mc_sleep(unsigned) { slept = true; return 0; }
int mc_nanosleep(const struct timespec *, struct timespec *) { slept = true; return 0; }
static std::map<void *, size_t> sizes;
void *mc_malloc(size_t n) {     // poisoned, right-aligned against a guard page
    call(5);
    if (fault({ENOMEM})) { note("malloc fails"); openfault = true; errno = ENOMEM; return 0; }
    held++;
    size_t pg = 4096, body = (n + pg - 1) / pg * pg; if (!body) body = pg;
    char *p = (char *)mmap(0, body + 2 * pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    memset(p, 0xA7, body + 2 * pg); mprotect(p, pg, PROT_NONE); mprotect(p + pg + body, pg, PROT_NONE);
    sizes[p + pg + (body - n)] = n; return p + pg + (body - n);
}
void *mc_calloc(size_t a, size_t b) { void *p = mc_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
void mc_free(void *p) {         // freed memory becomes inaccessible
    auto i = sizes.find(p); if (!p) return; if (i == sizes.end()) { raise(SIGABRT); return; }
    size_t b = (size_t)p / 4096 * 4096; mprotect((void *)b, ((size_t)p + i->second + 4095) / 4096 * 4096 - b, PROT_NONE); sizes.erase(i); held--;
}
void *mc_realloc(void *q, size_t n) { void *p = mc_malloc(n); if (p && q) { auto i = sizes.find(q); memcpy(p, q, i == sizes.end() ? 1 : std::min(n, i->second)); mc_free(q); } return p; }
void mc_exit(int code) { finish(code); }
void mc__exit(int code) { finish(code); }
}

// ---------------------------------------------------------------- reference model
static void rdev(const unsigned char *p, bool legacy, u64 &t, unsigned &low) {
    uint32_t a, b; memcpy(&a, p, 4); memcpy(&b, p + 4, 4); if (legacy) std::swap(a, b);
    t = ((u64)b << 22) | (a >> 10); low = a & 0x3ff;
}
static bool validline(const std::string &s, int &v) {
    size_t i = 0; bool neg = false; if (i < s.size() && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-';
    if (i >= s.size()) return false; i128 x = 0;
    for (; i < s.size(); i++) { if (s[i] < '0' || s[i] > '9') return false; if (x < ((i128)1 << 90)) x = x * 10 + (s[i] - '0'); }
    if (x > 2097151) return false; v = neg ? -(int)x : (int)x; return true;
}
// rate in force when each event was completed, and number of updates until then
static void rates(std::vector<int> &rate, std::vector<int> &upd) {
    size_t inb = 0; std::string part; int cur = sc->rate, n = 0;
    for (auto &e : evs) {
        if (e.kind == 'I') { inb += e.b - e.a; while (rate.size() < inb / 8) { rate.push_back(cur); upd.push_back(n); } }
        else for (size_t i = e.a; i < e.b; i++) { char c = sc->fr[i]; if (c == '\n') { int v; if (validline(part, v)) { if (v != cur) n++; cur = v; __sync_fetch_and_add(&S->updates, 1); } part.clear(); } else part += c; }
    }
}
static void finish(int code) {
    if (done) finish_process();
    done = true;
    note("exit %d", code);
    char msg[400]; msg[0] = 0;
    auto bad = [&](const char *fmt, auto... a) { if (!msg[0]) snprintf(msg, sizeof msg, fmt, a...); };
    size_t nread = inpos / 8, nout = out.size() / 8;
    if (sc->prompt) { if (!waited) bad("ended without waiting for any input"); }
    else if (openfault) { if (!out.empty()) bad("output written although a stream or memory was unavailable"); if (code == 0) bad("exit status 0 although a stream or memory was unavailable"); }
    else {
        if (!faulted) {
            if (inpos != sc->in.size()) bad("ended before end of input (%zu of %zu bytes read)", inpos, sc->in.size());
            if (out.size() != nread * 8) bad("%zu bytes written for %zu complete events", out.size(), nread);
        } else { if (nout > nread) bad("more events written than read"); if (out.size() % 8 && !shortwrite) bad("event cut without a short write"); if (hardfault && (inpos != stopin || frpos != stopfr)) bad("went on reading after a failed wait or read"); }
        std::vector<int> rate, upd; rates(rate, upd);
        i128 acc = 0; u64 pt = 0;
        for (size_t i = 0; i < nout && i < nread && !msg[0]; i++) {
            u64 t, o; unsigned lt, lo; rdev(&sc->in[i * 8], sc->legacy, t, lt); rdev(&out[i * 8], sc->legacy, o, lo);
            if (lt != lo) bad("event %zu: low bits %03x became %03x", i, lt, lo);
            if (sc->identity && memcmp(&sc->in[i * 8], &out[i * 8], 8)) bad("event %zu changed without correction", i);
            if (i) acc += (i128)((t - pt) & M54) * rate[i]; pt = t;
            if (sc->timestamps) {
                i128 err = ((i128)((o - t) & M54) << 34) - acc, mod = (i128)1 << 88;
                err %= mod; if (err < 0) err += mod; if (err >= mod / 2) err -= mod;
                i128 tol = (i128)(2 + 2 * upd[i]) << 34;
                if (err > tol || err < -tol) bad("event %zu: input %llu output %llu off by %lld units (rate %d, %d updates)", i, t, o, (long long)(err >> 34), rate[i], upd[i]);
            }
        }
        if (sc->exact && !msg[0]) {
            if (defaultonly) { W->reflen = out.size(); if (out.size() <= sizeof W->ref) memcpy(W->ref, out.data(), out.size()); }
            else { size_t n = out.size(); if (n > (size_t)W->reflen || (!faulted && n != (size_t)W->reflen) || memcmp(out.data(), W->ref, n)) bad("output depends on how the stream is read"); }
        }
    }
    if (msg[0]) { record_violation(msg, trace.data(), trace.size(), elog); if (verbose) { printf("VERDICT %s\n", msg); } }
    else if (verbose) printf("VERDICT ok\n");
    __sync_fetch_and_add(&S->leaves, 1); __sync_fetch_and_add(&S->events, nread);
    u64 h = mix(11, scidx); for (unsigned char c : out) h = mix(h, c);
    if (insert(S->outtable, (1 << 20) - 1, h)) __sync_fetch_and_add(&S->outcomes, 1);
    long slot = scidx / (scenarios.size() / 6 + 1);
    if (!defaultonly && scidx % (scenarios.size() / 6 + 1) == 3 && slot < 6 && !S->sample[slot][0]) snprintf(S->sample[slot], 1200, "{\"scenario\":\"%s\",\"choices\":\"%s\",\"log\":\"%s\"}", describe(*sc).substr(0, 350).c_str(), tracestr(trace.data(), trace.size()).substr(0, 200).c_str(), elog.substr(0, 500).c_str());
    finish_process();
}
static void execute() {
    std::vector<std::string> a = {"freqcd"};
    for (auto &x : sc->args) a.push_back(x);
    if (sc->named) { a.push_back("-i"); a.push_back("in.bin"); a.push_back("-o"); a.push_back("out.bin"); }
    if (sc->freq) { a.push_back("-F"); a.push_back("freq.txt"); }
    if (sc->legacy) a.push_back("-x");
    std::vector<char *> av; for (auto &x : a) av.push_back(strdup(x.c_str())); av.push_back(0);
    arm();
    int rc = freqcd_main(a.size(), av.data());
    finish(rc & 0xff);
}

// ---------------------------------------------------------------- scenarios
static u64 lcg = 88172645463325252ULL; static u64 rnd() { lcg ^= lcg << 13; lcg ^= lcg >> 7; lcg ^= lcg << 17; return lcg; }
static void put(bytes &b, u64 t, unsigned low, bool legacy) {
    uint32_t lo = (uint32_t)(((t & M54) << 10) | (low & 0x3ff)), hi = (uint32_t)((t & M54) >> 22);
    if (legacy) std::swap(lo, hi); size_t n = b.size(); b.resize(n + 8); memcpy(&b[n], &lo, 4); memcpy(&b[n + 4], &hi, 4);
}
static std::string num(long long v) { return std::to_string(v); }
static Scenario base(const std::string &name, int rate, bool legacy, bool named) {
    Scenario s; s.name = name; s.rate = rate; s.legacy = legacy; s.named = named; if (rate) s.args = {"-f", num(rate)}; s.inchunks = {0}; s.frchunks = {0}; return s;
}
static bytes arbitrary(size_t nbytes) { bytes b; for (size_t i = 0; i < nbytes; i++) { u64 r = rnd(); b.push_back((r >> 9) % 11 == 0 ? 0xff : (r >> 9) % 11 == 1 ? 0 : (unsigned char)(r >> 20)); } return b; }
static bytes monotone(size_t n, bool legacy, u64 t0, u64 step) { bytes b; u64 t = t0; for (size_t i = 0; i < n; i++) { put(b, t, (unsigned)rnd(), legacy); t += step + rnd() % (step / 2 + 1); } return b; }

static void gen_c01(bool th) {
    // 1. complete enumeration of all cuts of tiny streams
    for (int legacy = 0; legacy < 2; legacy++) for (int n : th ? std::vector<int>{0, 1, 7, 8, 9, 15, 16, 17} : std::vector<int>{0, 1, 7, 8, 9, 12}) {
        Scenario s = base("all cuts", 0, legacy, n % 2); s.in = arbitrary(n); s.inchunks = {-1}; s.unitcost = false; s.identity = true; scenarios.push_back(s);
        Scenario r = base("all cuts, rate", 2097151, legacy, n % 2 == 0); r.in = monotone((n + 7) / 8, legacy, M54 - (1ULL << 40), 1ULL << 41); r.in.resize(n); r.inchunks = {-1}; r.unitcost = false; scenarios.push_back(r);
    }
    // 2. small streams: deviations with waits and updates interleaved
    for (int legacy = 0; legacy < 2; legacy++) for (int named = 0; named < 2; named++) for (int n : {16, 20, 24, 31, 40}) for (int rate : {0, -77777}) for (int fq = 0; fq < 3; fq++) {
        Scenario s = base("cuts, waits, updates", rate, legacy, named);
        s.in = rate || fq ? monotone((n + 7) / 8, legacy, 123456789ULL << 10, 1ULL << 36) : arbitrary(n); s.in.resize(n);
        s.inchunks = {0, 1, 3, 4, 7, 8, 9, 12, 16, 23}; s.identity = !rate && !fq; s.timeouts = true; s.order = true; s.bound = th ? 4 : 3;
        if (fq) { s.freq = true; s.freqclose = fq == 2; std::string t = fq == 1 ? "5\n-7\n" : "2097151\nx\n12"; s.fr.assign(t.begin(), t.end()); s.frchunks = {0, 1, 2, 3}; if (!th) s.bound = 2; }
        scenarios.push_back(s);
    }
    // 3. streams around and above the buffer size
    std::vector<int> big = {8184, 8185, 8191, 8192, 8193, 8199, 8200, 8201, 16383, 16384, 16385, 16392, 24576, 24583, 24584};
    for (int n : big) for (int legacy = 0; legacy < 2; legacy++) for (int fq = 0; fq < 2; fq++) for (int rate : {0, 1234567}) {
        if (!th && fq && rate) continue;
        Scenario s = base("buffer boundary", rate, legacy, n % 3);
        s.in = rate || fq ? monotone((n + 7) / 8, legacy, M54 - 99999, 1ULL << 33) : arbitrary(n); s.in.resize(n);
        s.inchunks = {0, 1, 7, 8, 9, 15, 4096, 4100, 8176, 8184, 8185, 8188, 8191}; s.timeouts = true; s.order = fq; s.identity = !rate && !fq; s.bound = 2;
        if (th && n < 16400) s.bound = 3;
        if (fq) { s.freq = true; std::string t = "1000\n"; s.fr.assign(t.begin(), t.end()); s.frchunks = {0, 2}; s.bound = th ? 2 : 1; }
        scenarios.push_back(s);
    }
    // 4. every event value pattern in the low word: all 1024 low values, several high words
    for (int legacy = 0; legacy < 2; legacy++) for (int rate : {0, 1, -2097151}) { Scenario s = base("all low words", rate, legacy, true); for (int i = 0; i < 1024 * 3; i++) put(s.in, ((u64)i << 32) + i * 4097ULL, i, legacy); s.identity = !rate; s.inchunks = {0, 8, 4095}; s.bound = 1; scenarios.push_back(s); }
    // 5. repeated events, repeated and decreasing timestamps, all-zero and all-one events: every sequence over them
    for (int rate : {0, 1000, -2097151}) for (int len = 2; len <= (th ? 5 : 4); len++) {
        struct { u64 t; unsigned low; } al[] = {{1ULL << 40, 5}, {1ULL << 40, 5}, {1ULL << 40, 6}, {(1ULL << 40) + 1, 5}, {(1ULL << 40) - 1, 5}, {0, 0}, {M54, 0x3ff}, {1ULL << 41, 5}};
        int k = th ? 8 : 7, total = 1; for (int i = 0; i < len; i++) total *= k - 1;
        for (int q = 0; q < total; q++) {
            Scenario s = base("repeated events", rate, (q + len) & 1, q & 2); int x = q; for (int i = 0; i < len; i++, x /= k - 1) put(s.in, al[1 + x % (k - 1)].t, al[1 + x % (k - 1)].low, s.legacy);
            s.identity = !rate; s.inchunks = {0, 8, 12}; s.bound = 1; scenarios.push_back(s);
        }
    }
    // 6. many reads of constant size
    for (int c : {0, 24, 4095}) for (int rate : {0, 5}) { Scenario s = base("long stream", rate, c == 24, c); s.in = monotone(270001, s.legacy, 77, 1ULL << 33); s.in.resize(s.in.size() - 3); s.inchunks = {c}; s.identity = !rate; scenarios.push_back(s); }
    for (int c : {1, 2, 3, 5, 6, 7, 8, 9, 11, 13, 16, 24, 1000, 1001, 8190}) for (int legacy = 0; legacy < 2; legacy++) { Scenario s = base("constant cut", 0, legacy, true); s.in = arbitrary(c < 50 ? 4003 : 60011); s.inchunks = {c}; s.identity = true; scenarios.push_back(s); }
}
static void gen_c02(bool th) {
    std::vector<int> rates = {1, -1, 2, 1000, -4097, 1 << 20, -(1 << 20), 2097151, -2097151, 0};
    std::vector<u64> starts = {0, 5, (1ULL << 22) - 1, (1ULL << 32) - 1, (1ULL << 53) + 12345, M54 - (1ULL << 34), M54};
    std::vector<u64> gaps = {0, 1, 4095, 4096, (1ULL << 22) + 77, (1ULL << 34) - 1, 1ULL << 34, (1ULL << 34) + 1, (1ULL << 43) + 999, (1ULL << 52) - 3, 1ULL << 53, (1ULL << 54) - (1ULL << 35)};
    if (!th) { rates = {1, -1, -4097, 1 << 20, 2097151, -2097151}; starts = {0, (1ULL << 32) - 1, M54 - (1ULL << 34), M54}; }
    // 1. all gap triples; per stream a default run and a few cuts, all bit-identical
    for (int r : rates) for (u64 t0 : starts) {
        if (!th) { // concatenate: one stream per first gap holding all continuations, plus short streams
            for (size_t a = 0; a < gaps.size(); a++) {
                Scenario s = base("gap pairs", r, (a + (r & 1)) % 2, a % 2); u64 t = t0; put(s.in, t, 1, s.legacy); t += gaps[a]; put(s.in, t, 2, s.legacy);
                for (size_t b = 0; b < gaps.size(); b++) { t += gaps[b]; put(s.in, t, b, s.legacy); t += gaps[a]; put(s.in, t, b, s.legacy); }
                s.timestamps = s.exact = true; s.inchunks = {0, 8, 16, 1, 12, 100}; s.bound = 2; scenarios.push_back(s);
            }
        } else for (u64 a : gaps) for (u64 b : gaps) {
            Scenario s = base("gap triples", r, (a ^ b) & 1, b % 3); u64 t = t0; put(s.in, t, 1, s.legacy); t += a; put(s.in, t, 2, s.legacy); t += b; put(s.in, t, 3, s.legacy);
            for (u64 c : gaps) { t += c; put(s.in, t, c, s.legacy); t += b; put(s.in, t, 9, s.legacy); }
            s.timestamps = s.exact = true; s.inchunks = {0, 8, 16, 1, 12}; s.bound = 2; scenarios.push_back(s);
        }
    }
    // 2. complete cuts into reads of events, and of bytes
    for (int r : {1, -1, 2097151, -2097151, 12345}) for (u64 g : {1000ULL, 1ULL << 30, 1ULL << 52}) {
        Scenario s = base("all event cuts", r, g & 1, true); u64 t = M54 - 3 * g; int n = th ? 11 : 8; for (int i = 0; i < n; i++) { put(s.in, t, i, false); t += g; }
        s.legacy = false; s.inchunks = {0}; for (int k = 1; k < n; k++) s.inchunks.push_back(8 * k); s.unitcost = false; s.timestamps = s.exact = true; scenarios.push_back(s);
        Scenario q = base("all byte cuts", r, true, false); put(q.in, 3 * g, 7, true); if (th) put(q.in, 4 * g + 5, 9, true); q.in.resize(q.in.size() + 3); q.inchunks = {-1}; q.unitcost = false; q.timestamps = q.exact = true; scenarios.push_back(q);
    }
    // 3. long streams with many reads: no error may build up; many rollovers
    for (int r : rates) for (int legacy = 0; legacy < 2; legacy++) for (int c : {0, 8, 7, 24, 4096, 1}) {
        Scenario s = base("long stream", r, legacy, true); u64 t = 12345; int n = c == 0 || c > 100 ? 20000 : c == 1 ? 600 : 4000; if (th) n *= 4;
        u64 step = 2500000 + (u64)(r & 0xff); for (int i = 0; i < n; i++) { put(s.in, t, i, legacy); t += step + (i % 7) * 1000; }
        s.inchunks = {c}; s.timestamps = true; scenarios.push_back(s);
        Scenario w = base("many rollovers", r, legacy, false); t = 999; n = c == 1 ? 300 : 3000; for (int i = 0; i < n; i++) { put(w.in, t, i, legacy); t += (i % 3) ? (1ULL << 53) + i * 12347 : (1ULL << 45); }
        w.inchunks = {c}; w.timestamps = true; scenarios.push_back(w);
    }
    // 4. buffer boundaries with cuts
    for (int r : {3, 2097151, -2097151}) for (int n : {1023, 1024, 1025, 2048, 2049}) { Scenario s = base("buffer boundary", r, n & 1, true); u64 t = 1ULL << 50; for (int i = 0; i < n; i++) { put(s.in, t, i, s.legacy); t += (1ULL << 34) + i; } s.timestamps = s.exact = true; s.inchunks = {0, 8, 1, 8191, 8184, 4096}; s.bound = th ? 3 : 2; if (n > 2000) s.bound--; scenarios.push_back(s); }
}
static Scenario freqsc(const std::string &name, const std::string &text, int rate, bool legacy, int nev, u64 gap, u64 t0) {
    Scenario s = base(name, rate, legacy, true); s.freq = true; s.fr.assign(text.begin(), text.end()); s.timestamps = true; s.order = true;
    u64 t = t0; for (int i = 0; i < nev; i++) { put(s.in, t, i * 37, legacy); t += gap; } return s;
}
static void gen_c03(bool th) {
    u64 G = (1ULL << 37) + 4097;
    std::string nines(150, '9'), letters(120, 'q'), l99(99, '9'), l98(98, '9'), l100(100, '9'), l200(205, '7');
    std::vector<std::string> lines = {"5", "-5", "0", "+8", "340000", "2097151", "-2097151", "2097152", "-2097152", "99999999", "2147483647", "-2147483648", "4294967301", "18446744073709551621", "abc", "", "12x", "x12", "-", "1e3", "0x10", "3.5", "--1", "1 2", "5-"};
    std::vector<std::string> longs = {nines, letters, l98, l99, l100, l200, nines + "x", std::string(99, 'a') + "5", std::string(100, 'a') + "-7", std::string(198, 'b') + "12", "9" + std::string(97, '8')};
    // 1. complete enumeration: every cut of the text, every order of readiness, single-event reads
    int idx = 0;
    for (auto &l : lines) { for (int close = 0; close < 2; close++) {
        if (l.size() > 8 && !th) { if (close) continue; }
        std::string text = l + "\n"; Scenario s = freqsc("one line, all cuts", text, (idx % 2) ? 777777 : 0, idx % 2, text.size() > 8 ? 2 : 3, G, idx % 3 ? M54 - 2 * G : 77); idx++;
        s.inchunks = {8}; s.frchunks = {-1}; s.unitcost = false; s.freqclose = close; if (text.size() > (th ? 9 : 4)) { s.unitcost = true; s.bound = th ? 5 : 3; if (text.size() > 9) s.frchunks = {0, 1, 2, 5, 9}; } scenarios.push_back(s); } }
    // 2. pairs of lines in one stream, every single cut and order with bounded deviations, whole and cut event reads
    for (size_t a = 0; a < lines.size(); a++) for (size_t b = 0; b < lines.size(); b++) {
        if (!th && (a * 7 + b) % 3 && !(a < 3 && b < 3)) continue;
        Scenario s = freqsc("two lines", lines[a] + "\n" + lines[b] + "\n", a % 3 ? -1234567 : 0, (a + b) % 2, 4, G, b % 2 ? M54 - G : 0); s.inchunks = {8, 0, 12, 3}; s.frchunks = {0, 1, 2, 3, 4, 6}; s.bound = th ? 4 : 3; s.freqclose = a % 2; scenarios.push_back(s);
    }
    // every byte that makes a line something other than an integer, before and after the digits
    for (int c = 0; c < 256; c++) { if ((c >= '0' && c <= '9') || c == '+' || c == '-' || c == '\n') continue;
        std::string g(1, (char)c), pre = c && c <= 32 ? "" : g + "5\n" + "6" + g + "6\n";     // leading blanks are left open
        Scenario s = freqsc("line with a stray byte", pre + "-77\n5" + g + "\n", 1000, c & 1, 4, G, M54 - G); s.inchunks = {8}; s.frchunks = {0, 3, 7}; s.bound = 2; s.freqclose = c & 2; scenarios.push_back(s);
    }
    // 3. unterminated tails
    for (auto &l : {std::string("5"), std::string("-2097151"), std::string("2"), std::string("x")}) for (int close = 0; close < 2; close++) {
        Scenario s = freqsc("unterminated", "1000\n" + l, 0, close, 4, G, 1); s.inchunks = {8}; s.frchunks = {0, 1, 4, 5, 6}; s.bound = 4; s.freqclose = close; scenarios.push_back(s);
        Scenario u = freqsc("unterminated only", l, 99, close, 3, G, 1); u.inchunks = {8}; u.frchunks = {-1}; u.unitcost = false; u.freqclose = close; if (l.size() > 5) { u.unitcost = true; u.bound = 4; } scenarios.push_back(u);
    }
    // 4. overlong lines, alone and followed by a valid one
    for (auto &l : longs) for (int v = 0; v < 3; v++) {
        Scenario s = freqsc("overlong", (v == 2 ? "31\n" : "") + l + "\n" + (v ? "-424242\n" : ""), 5000, v % 2, 5, G, 42); s.inchunks = {8}; s.frchunks = {0, 1, 50, 97, 98, 99}; s.bound = th ? 4 : 3; if (l.size() > 160) s.bound--; scenarios.push_back(s);
    }
    // 5. long sequences of updates, constant cuts: partial line carried at every offset, several lines per read
    for (int c : {1, 2, 3, 5, 7, 11, 50, 98, 99, 0}) for (int e : {8, 16, 13, 0}) {
        std::string text; for (int i = 0; i < 60; i++) { int v = (int)((i * 7919LL * 2621) % 4194303) - 2097151; text += num(i % 5 == 4 ? v % 10 : v) + "\n"; if (i % 9 == 3) text += "bad\n"; }
        Scenario s = freqsc("many updates", text, 0, c & 1, 200, G / 3, M54 - 20 * G); s.inchunks = {e}; s.frchunks = {c}; s.order = false; s.unitcost = true; s.bound = 1; s.timeouts = true; if (th) s.order = true; scenarios.push_back(s);
    }
    // 6. updates before the first event, with partial events pending, repeated values, sign changes, alternating
    for (auto &t : {std::string("7\n7\n7\n"), std::string("2097151\n-2097151\n"), std::string("1\n0\n1\n"), std::string("-3\n2\n-1\n"), std::string("0\n")}) for (int r : {0, 7, -2097151}) for (int legacy = 0; legacy < 2; legacy++) {
        Scenario s = freqsc("order and partial events", t, r, legacy, 3, G, M54 - G); s.inchunks = {8, 5, 0, 1}; s.frchunks = {2, 0, 1, 8}; s.timeouts = true; s.bound = th ? 4 : 3; s.freqclose = legacy; scenarios.push_back(s);
    }
    // 7. gaps of all magnitudes with an update in between
    for (u64 g : {1ULL, 4096ULL, 1ULL << 22, (1ULL << 34) - 1, 1ULL << 34, (1ULL << 34) + 1, 1ULL << 50, 1ULL << 53, (1ULL << 54) - (1ULL << 35)}) for (auto &t : {std::string("2097151\n"), std::string("-2097151\n"), std::string("1\n")}) for (int r : {0, 2097151, -99999}) {
        Scenario s = freqsc("gaps with update", t, r, r & 1, 6, g, M54 - 2 * g); s.inchunks = {8, 16}; s.bound = th ? 4 : 3; s.freqclose = r == 0; scenarios.push_back(s);
    }
}
static void gen_c38(bool th) {
    gen_c01(th); size_t n = 0;      // its streams up to the buffer size, all with their cuts, waits and updates
    for (auto &s : scenarios) if (s.name != "repeated events" && s.name != "all low words") scenarios[n++] = s;
    scenarios.resize(n); gen_c03(false);
    size_t m = n; for (size_t i = n; i < scenarios.size(); i++) if (scenarios[i].name == "one line, all cuts" || scenarios[i].name == "overlong" || scenarios[i].name == "many updates" || scenarios[i].name == "unterminated" || scenarios[i].name == "order and partial events") scenarios[m++] = scenarios[i];
    scenarios.resize(m);
    for (auto &s : scenarios) { s.prompt = true; s.exact = s.identity = s.timestamps = false; s.timeouts = true; s.order = true; if (!s.unitcost) s.bound = th ? 2 : 1; else if (!th) s.bound = std::min(s.bound, s.in.size() > 1000 || s.fr.size() > 100 ? 1 : 2); }
}
static void gen_c05(bool th) {
    for (int legacy = 0; legacy < 2; legacy++) for (int named = 0; named < 2; named++) for (int n : {0, 5, 8, 16, 24, 28, 8192, 8200, 16400}) for (int rate : {0, 654321}) {
        Scenario s = base("fault", rate, legacy, named); s.in = monotone((n + 7) / 8, legacy, M54 - (1ULL << 36), 1ULL << 35); s.in.resize(n); s.faults = true; s.exact = s.timestamps = true; s.timeouts = true;
        s.inchunks = n > 100 ? std::vector<int>{0, 8, 4095} : std::vector<int>{0, 8, 5, 1}; s.bound = th ? 3 : 2; if (n > 100) s.bound--; scenarios.push_back(s);
    }
    // many rounds of one event, the fault in any of them
    for (int legacy = 0; legacy < 2; legacy++) for (int n : {24, 40, 45, 64}) for (int c : {8, 12, 5}) {
        Scenario s = base("fault in one of many rounds", 654321, legacy, c == 8); s.in = monotone((n + 7) / 8, legacy, M54 - (1ULL << 36), 1ULL << 35); s.in.resize(n); s.faults = true; s.exact = s.timestamps = true; s.timeouts = true;
        s.inchunks = {c, 8, 0}; s.bound = th ? 2 : 1; scenarios.push_back(s);
    }
    for (int legacy = 0; legacy < 2; legacy++) for (int n : {8, 16, 24, 27, 40}) for (auto &t : {std::string("5\n"), std::string("2097151\n-9\n"), std::string("1\nxx\n77"), std::string("")}) for (int close = 0; close < 2; close++) {
        Scenario s = freqsc("fault with updates", t, 1000, legacy, (n + 7) / 8, (1ULL << 36) + 99, M54 - (1ULL << 37)); s.in.resize(n); s.faults = true; s.freqclose = close; s.inchunks = {8, 0, 5}; s.frchunks = {0, 1, 3}; s.timeouts = true; s.bound = th ? 3 : 2; scenarios.push_back(s);
    }
}

int main(int argc, char **argv) {
    int only = -1, workers = 8; std::string ch; bool isreplay = false;
    for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
        if (a == "--prop") prop = nx(); else if (a == "--tier") tier = nx(); else if (a == "--scenario") only = atoi(nx().c_str()); else if (a == "--choices") { ch = nx(); isreplay = true; } else if (a == "--workers") workers = atoi(nx().c_str()); }
    bool th = tier == "thorough";
    if (prop == "C01") gen_c01(th); else if (prop == "C02") gen_c02(th); else if (prop == "C03") gen_c03(th); else if (prop == "C05") gen_c05(th); else if (prop == "C38") gen_c38(th); else return 2;
    S = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    int nul = open("/dev/null", O_WRONLY); dup2(nul, 2);
    auto newarea = [] { return (WorkerArea *)mmap(0, sizeof(WorkerArea), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); };
    auto runone = [&](int i, bool def) {
        scidx = i; sc = &scenarios[i]; W->n = 0; W->log[0] = 0; fflush(stdout);
        pid_t p = fork();
        if (p == 0) { defaultonly = def; execute(); _exit(0); }
        int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
        check_child(st, "");
    };
    if (isreplay) {
        W = newarea(); sc = &scenarios[only]; scidx = only; verbose = true;
        if (sc->exact) { verbose = false; runone(only, true); verbose = true; }
        replaying = true; size_t p = 0; while (p < ch.size()) { replay.push_back(atoi(ch.c_str() + p)); p = ch.find(',', p); if (p == std::string::npos) break; p++; }
        printf("%s\n", describe(*sc).c_str()); fflush(stdout);
        pid_t c = fork(); if (c == 0) { execute(); _exit(0); } int st; waitpid(c, &st, 0); check_child(st, "");
        printf("violations: %ld\n", S->nviol); for (long k = 0; k < S->nviol && k < 8; k++) printf("%s\n", S->viol[k]);
        return S->nviol ? 1 : 0;
    }
    std::vector<pid_t> ps;
    for (int w = 0; w < workers; w++) {
        WorkerArea *area = newarea(); pid_t p = fork();
        if (p == 0) {
            W = area;
            while (S->nviol < 20) { long i = __sync_fetch_and_add(&S->next, 1); if (only >= 0) { if (i > 0) break; i = only; } if (i >= (long)scenarios.size()) break;
                long l0 = S->leaves; if (scenarios[i].exact) runone(i, true); runone(i, false); if (getenv("MC_PROFILE")) fprintf(stdout, "#%ld %s %ld\n", i, scenarios[i].name.c_str(), S->leaves - l0), fflush(stdout); }
            _exit(0);
        }
        ps.push_back(p);
    }
    for (pid_t p : ps) { int st; waitpid(p, &st, 0); }
    printf("{\"scenarios\":%zu,\"leaves\":%ld,\"choices\":%ld,\"transitions\":%ld,\"states\":%ld,\"faults\":%ld,\"outcomes\":%ld,\"updates\":%ld,\"events\":%ld,\"nviol\":%ld,\"violations\":[", scenarios.size(), S->leaves, S->choices, S->transitions, S->states, S->faults, S->outcomes, S->updates, S->events, S->nviol);
    for (long k = 0; k < S->nviol && k < 8; k++) printf("%s%s", k ? "," : "", S->viol[k]);
    printf("],\"samples\":["); for (long k = 0, n = 0; k < 6; k++) if (S->sample[k][0]) printf("%s%s", n++ ? "," : "", S->sample[k]);
    printf("]}\n");
    return 0;
}
