/* vpshim: LD_PRELOAD observation/fault layer for the pizauth server.
 *
 * A control block (a file mapped MAP_SHARED, path in $VPSHIM_CTL) is shared with the monitor.
 * Depending on `mode` the shim either passes everything through (0) or presents virtual, frozen
 * clocks that only the monitor moves (1). It never changes what a call means: it only decides
 * what time it is, when a timed wait ends, which connects fail, and it counts what it saw.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <netdb.h>
#include <netinet/in.h>
#include <time.h>
#include <unistd.h>

#define NSLOT 512
#define NPORT 64
#define NTICK 64
#define NDNS 16
struct slot {
    _Atomic int32_t tid;      /* 0: free */
    int32_t kind;             /* 1 futex 2 sleep 3 poll 4 recv */
    _Atomic int64_t deadline; /* virtual monotonic ns */
    _Atomic uint64_t acked;   /* last epoch for which we know the deadline is not reached */
};
struct portent {
    _Atomic int32_t port;
    _Atomic int32_t err;
    _Atomic int32_t hits;
    _Atomic int32_t pad;
};
struct dnsent {
    char name[64];
    _Atomic int32_t err;
    _Atomic int32_t hits;
};
struct ctl {
    uint64_t magic;
    _Atomic int32_t mode;
    _Atomic int32_t chaos_prob; /* out of 1000 */
    _Atomic int32_t chaos_max_us;
    _Atomic int32_t chaos_seed;
    _Atomic int64_t base;
    _Atomic int64_t mono_off, boot_off, real_off;
    _Atomic uint64_t epoch;
    _Atomic uint64_t tick;
    _Atomic uint64_t activity;
    _Atomic uint64_t n_clock, n_wait, n_timeout, n_connect_ok, n_connect_fail, n_chaos, n_yield,
        n_utimens, n_openw, n_recv_to;
    _Atomic uint64_t n_thread;
    _Atomic int64_t last_utimens_mono;
    char last_utimens_path[256];
    struct portent ports[NPORT];
    struct slot slots[NSLOT];
    _Atomic int64_t chaos_until; /* real monotonic ns at which the last injected delay ends */
    _Atomic int32_t chaos_share; /* out of 1000: how many of the threads are delayed; 0: all of them */
    _Atomic int32_t chaos_above; /* only threads whose tid is greater than this are delayed; < 0: only the thread -tid */
    struct dnsent dns[NDNS];
    _Atomic uint64_t n_dns;
    _Atomic int32_t chaos_atomic; /* out of 1000: how often, compared to elsewhere, to delay just before a Mutex is locked or just after it's unlocked */
    _Atomic int32_t gate_tid; /* the thread to be stopped (0: none; < 0: the first one whose tid is greater than -gate_tid) ... */
    _Atomic uint64_t n_atomic;
    _Atomic int32_t gate_at; /* ... at this point of those it passes (1 is the first one) ... */
    _Atomic int32_t gate_n;  /* ... of which it has passed so many ... */
    _Atomic int32_t gate_in; /* ... and is it stopped now? (it goes on when gate_tid changes) */
    _Atomic int32_t gate_kind; /* 1: just before a Mutex is acquired, 2: just after it's been released, 0: elsewhere */
    _Atomic uint64_t n_gate;
    _Atomic int32_t gate_fine; /* 1: stop only at what's to do with a Mutex */
    _Atomic int32_t pad2;
};
static struct ctl *C;
static char syslog_path[108];
static int openlog_fd = -1;
static int64_t fdto[4096]; /* virtual SO_RCVTIMEO per fd, ns; 0 none */

static long raw6(long n, long a, long b, long c, long d, long e, long f) {
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    long ret;
    __asm__ volatile("syscall"
                     : "=a"(ret)
                     : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return ret;
}
static long ret_errno(long r) {
    if (r < 0 && r > -4096) {
        errno = -r;
        return -1;
    }
    return r;
}
static void real_sleep_ns(long ns) {
    struct timespec ts = {ns / 1000000000L, ns % 1000000000L};
    raw6(SYS_nanosleep, (long)&ts, 0, 0, 0, 0, 0);
}
static int frozen(void) { return C && atomic_load_explicit(&C->mode, memory_order_relaxed) == 1; }
static void act(void) {
    if (C) atomic_fetch_add_explicit(&C->activity, 1, memory_order_relaxed);
}
static int64_t vmono_peek(void) {
    return atomic_load(&C->base) + atomic_load(&C->mono_off) + (int64_t)atomic_load(&C->tick);
}
static __thread uint64_t rng_s;
static __thread int spared; /* 1: may be delayed, 2: never */
static uint64_t rnd(void) {
    if (!rng_s)
        rng_s = (uint64_t)atomic_load(&C->chaos_seed) * 0x9E3779B97F4A7C15ull +
                (uint64_t)(raw6(SYS_gettid, 0, 0, 0, 0, 0, 0) - getpid() + 1) * 0xBF58476D1CE4E5B9ull + 1;
    rng_s ^= rng_s << 13;
    rng_s ^= rng_s >> 7;
    rng_s ^= rng_s << 17;
    return rng_s;
}
static void chaos_p(int p) {
    int ab = atomic_load_explicit(&C->chaos_above, memory_order_relaxed);
    if (ab > 0 && raw6(SYS_gettid, 0, 0, 0, 0, 0, 0) <= ab) return;
    if (ab < 0 && raw6(SYS_gettid, 0, 0, 0, 0, 0, 0) != -ab) return;
    int sh = atomic_load_explicit(&C->chaos_share, memory_order_relaxed);
    if (sh) {
        if (!spared) {
            rnd(), rnd();
            spared = (int)((rnd() >> 20) % 1000) < sh ? 1 : 2;
        }
        if (spared == 2) return;
    }
    if ((int)(rnd() % 1000) < p) {
        int m = atomic_load_explicit(&C->chaos_max_us, memory_order_relaxed);
        atomic_fetch_add(&C->n_chaos, 1);
        long d = (long)(rnd() % (uint64_t)(m > 0 ? m : 1)) * 1000L;
        struct timespec ts;
        raw6(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&ts, 0, 0, 0, 0);
        int64_t e = (int64_t)ts.tv_sec * 1000000000 + ts.tv_nsec + d, o = atomic_load(&C->chaos_until);
        while (o < e && !atomic_compare_exchange_weak(&C->chaos_until, &o, e)) {}
        real_sleep_ns(d);
    }
}
static void gate(int kind) {
    int g = atomic_load_explicit(&C->gate_tid, memory_order_relaxed);
    if (!g || kind == 0 && atomic_load(&C->gate_fine)) return;
    int tid = raw6(SYS_gettid, 0, 0, 0, 0, 0, 0);
    if (g < 0 && tid > -g && atomic_compare_exchange_strong(&C->gate_tid, &g, tid)) g = tid;
    if (g != tid) return;
    if (atomic_fetch_add(&C->gate_n, 1) + 1 != atomic_load(&C->gate_at)) return;
    atomic_store(&C->gate_kind, kind);
    atomic_fetch_add(&C->n_gate, 1);
    atomic_store(&C->gate_in, 1);
    for (int i = 0; i < 20000 && atomic_load(&C->gate_tid) == tid; i++) real_sleep_ns(500000);
    atomic_store(&C->gate_in, 0);
    act();
}
static void chaos(int weight) {
    if (C && atomic_load_explicit(&C->gate_tid, memory_order_relaxed)) gate(0);
    int p = C ? atomic_load_explicit(&C->chaos_prob, memory_order_relaxed) : 0;
    if (p) chaos_p(p * weight);
}
void vp_atomic_point(int kind) {
    if (C && atomic_load_explicit(&C->gate_tid, memory_order_relaxed)) gate(kind);
    int p = C ? atomic_load_explicit(&C->chaos_prob, memory_order_relaxed) : 0;
    if (!p || !(p = p * atomic_load_explicit(&C->chaos_atomic, memory_order_relaxed) / 1000)) return;
    atomic_fetch_add(&C->n_atomic, 1);
    chaos_p(p);
}

__attribute__((constructor)) static void init(void) {
    const char *p = getenv("VPSHIM_CTL");
    const char *s = getenv("VPSHIM_SYSLOG");
    const char *o = getenv("VPSHIM_OPENLOG");
    if (s) snprintf(syslog_path, sizeof syslog_path, "%s", s);
    if (o) {
        int fd = raw6(SYS_openat, AT_FDCWD, (long)o, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600, 0, 0);
        if (fd >= 0) {
            int hi = fcntl(fd, F_DUPFD_CLOEXEC, 900);
            if (hi >= 0) {
                raw6(SYS_close, fd, 0, 0, 0, 0, 0);
                fd = hi;
            }
            openlog_fd = fd;
        }
    }
    if (p) {
        int fd = raw6(SYS_openat, AT_FDCWD, (long)p, O_RDWR | O_CLOEXEC, 0, 0, 0);
        if (fd >= 0) {
            void *m = mmap(0, sizeof(struct ctl), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            raw6(SYS_close, fd, 0, 0, 0, 0, 0);
            if (m != MAP_FAILED) C = m;
        }
    }
    unsetenv("LD_PRELOAD");
    unsetenv("VPSHIM_CTL");
    unsetenv("VPSHIM_SYSLOG");
    unsetenv("VPSHIM_OPENLOG");
}

/* ---- clocks ---- */
int clock_gettime(clockid_t id, struct timespec *ts) {
    if (C) {
        atomic_fetch_add_explicit(&C->n_clock, 1, memory_order_relaxed);
        chaos(1);
    }
    if (frozen()) {
        _Atomic int64_t *off = 0;
        switch (id) {
        case CLOCK_MONOTONIC:
        case CLOCK_MONOTONIC_RAW:
        case CLOCK_MONOTONIC_COARSE: off = &C->mono_off; break;
        case CLOCK_BOOTTIME: off = &C->boot_off; break;
        case CLOCK_REALTIME:
        case CLOCK_REALTIME_COARSE: off = &C->real_off; break;
        default: break;
        }
        if (off) {
            act();
            int64_t t = atomic_load(&C->base) + atomic_load(off) + (int64_t)atomic_fetch_add(&C->tick, 1);
            ts->tv_sec = t / 1000000000LL;
            ts->tv_nsec = t % 1000000000LL;
            return 0;
        }
    }
    return ret_errno(raw6(SYS_clock_gettime, id, (long)ts, 0, 0, 0, 0));
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
    struct timespec ts;
    (void)tz;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t *t) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}

/* ---- timed waits ---- */
static struct slot *slot_get(int kind, int64_t deadline) {
    int tid = raw6(SYS_gettid, 0, 0, 0, 0, 0, 0);
    for (;;) {
        for (int i = 0; i < NSLOT; i++) {
            int32_t z = 0;
            if (atomic_load_explicit(&C->slots[i].tid, memory_order_relaxed) == 0 &&
                atomic_compare_exchange_strong(&C->slots[i].tid, &z, tid)) {
                atomic_store(&C->slots[i].acked, 0);
                C->slots[i].kind = kind;
                atomic_store(&C->slots[i].deadline, deadline);
                return &C->slots[i];
            }
        }
        real_sleep_ns(1000000);
    }
}
static void slot_put(struct slot *s) { atomic_store(&s->tid, 0); }
/* returns 1 if the virtual deadline has passed; otherwise acknowledges the current epoch */
static int slot_check(struct slot *s, int64_t deadline) {
    uint64_t e = atomic_load(&C->epoch);
    if (vmono_peek() >= deadline) return 1;
    atomic_store(&s->acked, e);
    return 0;
}
#define SLICE 2000000L

static int64_t ts_ns(const struct timespec *t) {
    if (t->tv_sec > 4000000000LL) return 4000000000LL * 1000000000LL;
    return (int64_t)t->tv_sec * 1000000000LL + t->tv_nsec;
}

long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long),
         e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && C) {
        int op = (int)b & FUTEX_CMD_MASK;
        act();
        chaos(1);
        if (op == FUTEX_WAIT_BITSET || op == FUTEX_WAIT) atomic_fetch_add(&C->n_wait, 1);
        if (frozen() && d && (op == FUTEX_WAIT_BITSET || op == FUTEX_WAIT)) {
            int64_t dl = ts_ns((struct timespec *)d);
            if (op == FUTEX_WAIT) dl += vmono_peek();
            else if ((int)b & FUTEX_CLOCK_REALTIME)
                dl -= atomic_load(&C->real_off) - atomic_load(&C->mono_off);
            struct slot *s = slot_get(1, dl);
            long r;
            for (;;) {
                if (slot_check(s, dl)) {
                    r = -ETIMEDOUT;
                    break;
                }
                struct timespec rel = {0, SLICE};
                r = raw6(SYS_futex, a, FUTEX_WAIT | ((int)b & FUTEX_PRIVATE_FLAG), c, (long)&rel, 0, 0);
                if (r != -ETIMEDOUT) break;
                if (!frozen()) {
                    r = 0;
                    break;
                }
            }
            if (r == -ETIMEDOUT) atomic_fetch_add(&C->n_timeout, 1);
            act();
            slot_put(s);
            return ret_errno(r);
        }
        long r = raw6(n, a, b, c, d, e, f);
        act();
        return ret_errno(r);
    }
    return ret_errno(raw6(n, a, b, c, d, e, f));
}

static int vsleep_until(int64_t dl) {
    struct slot *s = slot_get(2, dl);
    while (!slot_check(s, dl) && frozen()) real_sleep_ns(SLICE);
    atomic_fetch_add(&C->n_timeout, 1);
    act();
    slot_put(s);
    return 0;
}
int clock_nanosleep(clockid_t id, int flags, const struct timespec *req, struct timespec *rem) {
    if (frozen()) {
        int64_t t = ts_ns(req);
        if (flags & TIMER_ABSTIME) {
            if (id == CLOCK_REALTIME) t -= atomic_load(&C->real_off) - atomic_load(&C->mono_off);
            else if (id == CLOCK_BOOTTIME) t -= atomic_load(&C->boot_off) - atomic_load(&C->mono_off);
        } else
            t += vmono_peek();
        act();
        return vsleep_until(t);
    }
    long r = raw6(SYS_clock_nanosleep, id, flags, (long)req, (long)rem, 0, 0);
    return r < 0 ? -r : 0;
}
int nanosleep(const struct timespec *req, struct timespec *rem) {
    if (frozen()) {
        act();
        return vsleep_until(vmono_peek() + ts_ns(req));
    }
    return ret_errno(raw6(SYS_nanosleep, (long)req, (long)rem, 0, 0, 0, 0));
}
static int real_poll(struct pollfd *p, nfds_t n, int ms) {
    struct timespec ts = {ms / 1000, (ms % 1000) * 1000000L};
    return ret_errno(raw6(SYS_ppoll, (long)p, n, ms < 0 ? 0 : (long)&ts, 0, 8, 0));
}
int poll(struct pollfd *p, nfds_t n, int ms) {
    act();
    if (frozen() && ms > 0) {
        int64_t dl = vmono_peek() + (int64_t)ms * 1000000LL;
        struct slot *s = slot_get(3, dl);
        int r;
        for (;;) {
            if (slot_check(s, dl)) {
                r = real_poll(p, n, 0);
                if (r == 0) atomic_fetch_add(&C->n_timeout, 1);
                break;
            }
            r = real_poll(p, n, 2);
            if (r != 0) break;
            if (!frozen()) break;
        }
        int e = errno;
        act();
        slot_put(s);
        errno = e;
        return r;
    }
    int r = real_poll(p, n, ms);
    act();
    return r;
}

/* ---- sockets ---- */
static void fd_reset(int fd) {
    if (fd >= 0 && fd < 4096) fdto[fd] = 0;
}
int socket(int d, int t, int p) {
    int fd = ret_errno(raw6(SYS_socket, d, t, p, 0, 0, 0));
    fd_reset(fd);
    return fd;
}
int socketpair(int d, int t, int p, int sv[2]) {
    int r = ret_errno(raw6(SYS_socketpair, d, t, p, (long)sv, 0, 0));
    if (r == 0) {
        fd_reset(sv[0]);
        fd_reset(sv[1]);
    }
    return r;
}
int close(int fd) {
    fd_reset(fd);
    return ret_errno(raw6(SYS_close, fd, 0, 0, 0, 0, 0));
}
int accept4(int s, struct sockaddr *a, socklen_t *l, int fl) {
    int fd = ret_errno(raw6(SYS_accept4, s, (long)a, (long)l, fl, 0, 0));
    fd_reset(fd);
    act();
    chaos(1);
    return fd;
}
int setsockopt(int fd, int lvl, int opt, const void *v, socklen_t l) {
    if (frozen() && lvl == SOL_SOCKET && opt == SO_RCVTIMEO && fd >= 0 && fd < 4096 &&
        l >= sizeof(struct timeval)) {
        const struct timeval *tv = v;
        fdto[fd] = (int64_t)tv->tv_sec * 1000000000LL + tv->tv_usec * 1000LL;
        return 0;
    }
    if (frozen() && lvl == SOL_SOCKET && opt == SO_SNDTIMEO) return 0;
    return ret_errno(raw6(SYS_setsockopt, fd, lvl, opt, (long)v, l, 0));
}
/* 0: readable (or no virtual timeout); -1: timed out */
static int vwait_in(int fd) {
    if (!(frozen() && fd >= 0 && fd < 4096 && fdto[fd])) return 0;
    if (raw6(SYS_fcntl, fd, F_GETFL, 0, 0, 0, 0) & O_NONBLOCK) return 0;
    int64_t dl = vmono_peek() + fdto[fd];
    struct slot *s = slot_get(4, dl);
    int rc = 0;
    for (;;) {
        struct pollfd p = {fd, POLLIN, 0};
        int r = real_poll(&p, 1, 2);
        if (r != 0) break;
        if (slot_check(s, dl)) {
            rc = -1;
            atomic_fetch_add(&C->n_recv_to, 1);
            break;
        }
        if (!frozen()) break;
    }
    act();
    slot_put(s);
    return rc;
}
ssize_t recv(int fd, void *b, size_t n, int fl) {
    act();
    if (!(fl & MSG_DONTWAIT) && vwait_in(fd)) {
        errno = EAGAIN;
        return -1;
    }
    ssize_t r = ret_errno(raw6(SYS_recvfrom, fd, (long)b, n, fl, 0, 0));
    int e = errno;
    act();
    chaos(1);
    errno = e;
    return r;
}
ssize_t read(int fd, void *b, size_t n) {
    act();
    if (vwait_in(fd)) {
        errno = EAGAIN;
        return -1;
    }
    return ret_errno(raw6(SYS_read, fd, (long)b, n, 0, 0, 0));
}
ssize_t readv(int fd, const struct iovec *v, int n) {
    act();
    if (vwait_in(fd)) {
        errno = EAGAIN;
        return -1;
    }
    return ret_errno(raw6(SYS_readv, fd, (long)v, n, 0, 0, 0));
}
/* Detached servers have no stderr left: keep a record of panics elsewhere. */
ssize_t write(int fd, const void *b, size_t n) {
    if (fd == 2 && openlog_fd >= 0 && n >= 11 && memmem(b, n, "panicked at", 11)) {
        raw6(SYS_write, openlog_fd, (long)"PANIC ", 6, 0, 0, 0);
        raw6(SYS_write, openlog_fd, (long)b, n > 400 ? 400 : n, 0, 0, 0);
        raw6(SYS_write, openlog_fd, (long)"\n", 1, 0, 0, 0);
    }
    return ret_errno(raw6(SYS_write, fd, (long)b, n, 0, 0, 0));
}
ssize_t send(int fd, const void *b, size_t n, int fl) {
    act();
    chaos(1);
    return ret_errno(raw6(SYS_sendto, fd, (long)b, n, fl, 0, 0));
}
int connect(int fd, const struct sockaddr *sa, socklen_t l) {
    act();
    if (sa->sa_family == AF_UNIX && syslog_path[0]) {
        const struct sockaddr_un *u = (const void *)sa;
        if (!strcmp(u->sun_path, "/dev/log") || !strcmp(u->sun_path, "/var/run/syslog")) {
            struct sockaddr_un n;
            memset(&n, 0, sizeof n);
            n.sun_family = AF_UNIX;
            snprintf(n.sun_path, sizeof n.sun_path, "%s", syslog_path);
            return ret_errno(raw6(SYS_connect, fd, (long)&n, sizeof n, 0, 0, 0));
        }
    }
    if (C && (sa->sa_family == AF_INET || sa->sa_family == AF_INET6)) {
        int port = ntohs(sa->sa_family == AF_INET ? ((const struct sockaddr_in *)sa)->sin_port
                                                  : ((const struct sockaddr_in6 *)sa)->sin6_port);
        chaos(2);
        for (int i = 0; i < NPORT; i++)
            if (atomic_load(&C->ports[i].port) == port) {
                int er = atomic_load(&C->ports[i].err);
                if (er) {
                    atomic_fetch_add(&C->ports[i].hits, 1);
                    atomic_fetch_add(&C->n_connect_fail, 1);
                    errno = er;
                    return -1;
                }
            }
        int r = ret_errno(raw6(SYS_connect, fd, (long)sa, l, 0, 0, 0));
        int e = errno;
        if (r == 0 || e == EINPROGRESS) atomic_fetch_add(&C->n_connect_ok, 1);
        errno = e;
        return r;
    }
    return ret_errno(raw6(SYS_connect, fd, (long)sa, l, 0, 0, 0));
}

/* Host names below .vp are names of this machine: they resolve unless the monitor says otherwise. */
int getaddrinfo(const char *node, const char *svc, const struct addrinfo *h, struct addrinfo **res) {
    static int (*real)(const char *, const char *, const struct addrinfo *, struct addrinfo **);
    if (!real) real = dlsym(RTLD_NEXT, "getaddrinfo");
    act();
    size_t l = node ? strlen(node) : 0;
    if (C && l > 3 && !strcmp(node + l - 3, ".vp")) {
        atomic_fetch_add(&C->n_dns, 1);
        chaos(2);
        for (int i = 0; i < NDNS; i++)
            if (!strcmp(C->dns[i].name, node)) {
                int er = atomic_load(&C->dns[i].err);
                if (er) {
                    atomic_fetch_add(&C->dns[i].hits, 1);
                    return er;
                }
            }
        node = "127.0.0.1";
    }
    return real(node, svc, h, res);
}

/* How private is the place a socket is about to appear in? */
int bind(int fd, const struct sockaddr *sa, socklen_t l) {
    if (sa->sa_family == AF_UNIX && openlog_fd >= 0) {
        char p[128], b[512];
        struct stat st;
        int m[2] = {-1, -1};
        snprintf(p, sizeof p, "%s", ((const struct sockaddr_un *)sa)->sun_path);
        for (int i = 0; i < 2; i++) {
            char *q = strrchr(p, '/');
            if (!q || q == p) break;
            *q = 0;
            if (!stat(p, &st)) m[i] = st.st_mode & 07777;
        }
        int n = snprintf(b, sizeof b, "BIND %o %o %s\n", m[0], m[1], ((const struct sockaddr_un *)sa)->sun_path);
        raw6(SYS_write, openlog_fd, (long)b, n > 511 ? 511 : n, 0, 0, 0);
    }
    long rc = raw6(SYS_bind, fd, (long)sa, l, 0, 0, 0);
    if (C && sa->sa_family == AF_UNIX) chaos(8); /* a socket file that doesn't accept connections yet */
    return ret_errno(rc);
}

/* ---- threads, yields, file effects ---- */
int sched_yield(void) {
    if (C) {
        atomic_fetch_add(&C->n_yield, 1);
        chaos(4);
        return 0;
    }
    return ret_errno(raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0));
}
static void note_utimens(const char *path) {
    if (!C) return;
    snprintf(C->last_utimens_path, sizeof C->last_utimens_path, "%s", path ? path : "");
    atomic_store(&C->last_utimens_mono, vmono_peek());
    atomic_fetch_add(&C->n_utimens, 1);
    act();
}
int utimensat(int dfd, const char *path, const struct timespec *ts, int fl) {
    long r = raw6(SYS_utimensat, dfd, (long)path, (long)ts, fl, 0, 0);
    if (r == 0) note_utimens(path);
    return ret_errno(r);
}
static void note_open(const char *path, int fl) {
    if (openlog_fd < 0) return;
    if ((fl & O_ACCMODE) == O_RDONLY && !(fl & O_CREAT)) return;
    char b[512];
    int n = snprintf(b, sizeof b, "%d %x %s\n", (int)raw6(SYS_getpid, 0, 0, 0, 0, 0, 0), fl, path);
    raw6(SYS_write, openlog_fd, (long)b, n > 511 ? 511 : n, 0, 0, 0);
    if (C) atomic_fetch_add(&C->n_openw, 1);
}
static int do_open(int dfd, const char *path, int fl, mode_t m) {
    note_open(path, fl);
    return ret_errno(raw6(SYS_openat, dfd, (long)path, fl, m, 0, 0));
}
#define OPEN_MODE                                                                                  \
    mode_t m = 0;                                                                                  \
    if (fl & (O_CREAT | O_TMPFILE)) {                                                              \
        va_list ap;                                                                                \
        va_start(ap, fl);                                                                          \
        m = va_arg(ap, int);                                                                       \
        va_end(ap);                                                                                \
    }
int open(const char *p, int fl, ...) { OPEN_MODE return do_open(AT_FDCWD, p, fl, m); }
int open64(const char *p, int fl, ...) { OPEN_MODE return do_open(AT_FDCWD, p, fl, m); }
int openat(int d, const char *p, int fl, ...) { OPEN_MODE return do_open(d, p, fl, m); }
int openat64(int d, const char *p, int fl, ...) { OPEN_MODE return do_open(d, p, fl, m); }
