/* vnet: LD_PRELOAD library + CPython extension module.
 *
 * Virtualises, for the process it is loaded into:
 *   - UDP sockets (socket/connect/send.. recv.. poll/select/set-get sockopt/fcntl/ioctl/close)
 *   - the clock   (clock_gettime/gettimeofday/time, *nanosleep/usleep/sleep)
 *   - entropy     (getrandom)
 * Nothing is virtual until vnet.enable(1) is called from Python.
 */
#define _GNU_SOURCE
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/random.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <netinet/in.h>
#include <time.h>
#include <unistd.h>

/* the library may also be preloaded into non-Python programs */
#pragma weak PyExc_KeyError
#pragma weak _Py_NoneStruct

#define MAXFD 4096
#define INF INT64_MAX
#define NS 1000000000LL

typedef struct {
    int64_t at;
    uint64_t seq;
    int err;            /* errno to raise instead of data */
    uint32_t len, tail; /* tail: bytes of plausible continuation after the datagram */
    uint8_t *data;
} dgram;

typedef struct {
    int refs;
    int nonblock;
    int64_t rcvtimeo; /* ns, 0 = none */
    dgram *q;
    uint32_t n, cap;
    uint64_t n_recv, n_sent, n_eagain;
} vsock;

static vsock *vs[MAXFD];
static int g_on, g_poison = -1, g_hang, g_err;
static int64_t g_now = 1000 * NS;
static uint64_t g_seq, g_recv_calls, g_spin;
static PyObject *g_on_send, *g_on_recv;
static uint64_t g_prng;
static uint8_t *g_script;
static size_t g_script_len, g_script_pos;
static uint64_t g_rand_bytes;
static int g_writable = 1;

#define REAL(ret, name, args) \
    static ret(*real_##name) args; \
    static inline void res_##name(void) { \
        if (!real_##name) *(void **)&real_##name = dlsym(RTLD_NEXT, #name); \
    }

REAL(int, socket, (int, int, int))
REAL(int, connect, (int, const struct sockaddr *, socklen_t))
REAL(ssize_t, send, (int, const void *, size_t, int))
REAL(ssize_t, sendto, (int, const void *, size_t, int, const struct sockaddr *, socklen_t))
REAL(ssize_t, sendmsg, (int, const struct msghdr *, int))
REAL(ssize_t, write, (int, const void *, size_t))
REAL(ssize_t, recv, (int, void *, size_t, int))
REAL(ssize_t, recvfrom, (int, void *, size_t, int, struct sockaddr *, socklen_t *))
REAL(ssize_t, recvmsg, (int, struct msghdr *, int))
REAL(ssize_t, read, (int, void *, size_t))
REAL(int, setsockopt, (int, int, int, const void *, socklen_t))
REAL(int, getsockopt, (int, int, int, void *, socklen_t *))
REAL(int, fcntl, (int, int, ...))
REAL(int, fcntl64, (int, int, ...))
REAL(int, ioctl, (int, unsigned long, ...))
REAL(int, poll, (struct pollfd *, nfds_t, int))
REAL(int, ppoll, (struct pollfd *, nfds_t, const struct timespec *, const sigset_t *))
REAL(int, select, (int, fd_set *, fd_set *, fd_set *, struct timeval *))
REAL(int, close, (int))
REAL(int, clock_gettime, (clockid_t, struct timespec *))
REAL(int, gettimeofday, (struct timeval *, void *))
REAL(time_t, time, (time_t *))
REAL(int, nanosleep, (const struct timespec *, struct timespec *))
REAL(int, clock_nanosleep, (clockid_t, int, const struct timespec *, struct timespec *))
REAL(int, pthread_cond_timedwait, (pthread_cond_t *, pthread_mutex_t *, const struct timespec *))
REAL(int, pthread_cond_clockwait, (pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *))
REAL(int, usleep, (useconds_t))
REAL(unsigned, sleep, (unsigned))
REAL(ssize_t, getrandom, (void *, size_t, unsigned))

static int g_last_fd = -1; /* the virtual socket created last */

static inline vsock *V(int fd) {
    return (g_on && fd >= 0 && fd < MAXFD) ? vs[fd] : NULL;
}

static void vfree(vsock *v) {
    if (--v->refs > 0) return;
    for (uint32_t i = 0; i < v->n; i++) free(v->q[i].data);
    free(v->q);
    free(v);
}

static void vflush(vsock *v) {
    for (uint32_t i = 0; i < v->n; i++) free(v->q[i].data);
    v->n = 0;
}

/* keep the queue sorted by (at, seq) */
static void vpush(vsock *v, int64_t at, int err, const uint8_t *d, size_t len, const uint8_t *t, size_t tl) {
    if (v->n == v->cap) {
        v->cap = v->cap ? v->cap * 2 : 8;
        v->q = realloc(v->q, v->cap * sizeof(dgram));
    }
    uint32_t i = v->n;
    while (i > 0 && v->q[i - 1].at > at) { v->q[i] = v->q[i - 1]; i--; }
    v->q[i].at = at;
    v->q[i].seq = ++g_seq;
    v->q[i].err = err;
    v->q[i].len = len;
    v->q[i].tail = tl;
    v->q[i].data = malloc(len + tl + 1);
    if (len) memcpy(v->q[i].data, d, len);
    if (tl) memcpy(v->q[i].data + len, t, tl);
    v->n++;
}

/* ---- sockets ---------------------------------------------------------- */
int socket(int d, int t, int p) {
    res_socket();
    int fd = real_socket(d, t, p);
    if (g_on && fd >= 0 && fd < MAXFD && (d == AF_INET || d == AF_INET6) && (t & 0xf) == SOCK_DGRAM) {
        if (vs[fd]) vfree(vs[fd]);
        vs[fd] = calloc(1, sizeof(vsock));
        vs[fd]->refs = 1;
        vs[fd]->nonblock = (t & SOCK_NONBLOCK) ? 1 : 0;
        g_last_fd = fd;
    }
    return fd;
}

int connect(int fd, const struct sockaddr *a, socklen_t l) {
    if (V(fd)) return 0;
    res_connect();
    return real_connect(fd, a, l);
}

static ssize_t vsend(int fd, vsock *v, const void *b, size_t n) {
    if (!g_writable) { errno = EAGAIN; return -1; }
    if (n > 65507) { errno = EMSGSIZE; return -1; }
    v->n_sent++;
    if (g_on_send) {
        int e = 0;
        PyGILState_STATE st = PyGILState_Ensure();
        PyObject *r = PyObject_CallFunction(g_on_send, "iy#", fd, b, (Py_ssize_t)n);
        if (!r) {
            PyErr_Print();
            g_err = 1;
            e = EIO;
        } else {
            if (PyLong_Check(r)) e = (int)PyLong_AsLong(r);
            Py_DECREF(r);
        }
        PyGILState_Release(st);
        if (e) { errno = e; return -1; }
    }
    return (ssize_t)n;
}

/* returns index 0 ready or -1 with errno */
static int vwait(int fd, vsock *v, int flags) {
    g_recv_calls++;
    v->n_recv++;
    if (g_on_recv) {
        PyGILState_STATE st = PyGILState_Ensure();
        PyObject *r = PyObject_CallFunction(g_on_recv, "i", fd);
        if (!r) { PyErr_Print(); g_err = 1; } else Py_DECREF(r);
        PyGILState_Release(st);
    }
    if (v->n && v->q[0].at <= g_now) { g_spin = 0; return 0; }
    if (v->nonblock || (flags & MSG_DONTWAIT)) {
        v->n_eagain++;
        if (++g_spin > 64) g_now += 1000000; /* a spinning client must see time pass */
        errno = EAGAIN;
        return -1;
    }
    g_spin = 0;
    int64_t dl = v->rcvtimeo > 0 ? g_now + v->rcvtimeo : INF;
    if (v->n && v->q[0].at <= dl) { g_now = v->q[0].at; return 0; }
    if (dl == INF) { /* would block for ever */
        g_hang = 1;
        errno = EDEADLK;
        return -1;
    }
    g_now = dl;
    errno = EAGAIN;
    return -1;
}

static ssize_t vrecv(int fd, vsock *v, struct iovec *io, size_t nio, int flags, int *mflags) {
    if (vwait(fd, v, flags) < 0) return -1;
    dgram *d = &v->q[0];
    if (d->err) {
        int e = d->err;
        free(d->data);
        memmove(v->q, v->q + 1, (--v->n) * sizeof(dgram));
        errno = e;
        return -1;
    }
    size_t off = 0, tot = d->len + d->tail;
    size_t copied = 0;
    for (size_t k = 0; k < nio; k++) {
        uint8_t *p = io[k].iov_base;
        size_t l = io[k].iov_len;
        for (size_t j = 0; j < l;) {
            if (off < d->len) {
                size_t c = d->len - off < l - j ? d->len - off : l - j;
                memcpy(p + j, d->data + off, c);
                off += c; j += c; copied += c;
            } else if (g_poison < 0) {
                break;
            } else if (off < tot) {
                size_t c = tot - off < l - j ? tot - off : l - j;
                memcpy(p + j, d->data + off, c);
                off += c; j += c;
            } else {
                memset(p + j, g_poison, l - j);
                j = l;
            }
        }
    }
    ssize_t r = (ssize_t)copied;
    if (d->len > copied) {
        if (mflags) *mflags |= MSG_TRUNC;
        if (flags & MSG_TRUNC) r = d->len;
    }
    if (!(flags & MSG_PEEK)) {
        free(d->data);
        memmove(v->q, v->q + 1, (--v->n) * sizeof(dgram));
    }
    return r;
}

ssize_t send(int fd, const void *b, size_t n, int f) {
    vsock *v = V(fd);
    if (v) return vsend(fd, v, b, n);
    res_send();
    return real_send(fd, b, n, f);
}
ssize_t sendto(int fd, const void *b, size_t n, int f, const struct sockaddr *a, socklen_t l) {
    vsock *v = V(fd);
    if (v) return vsend(fd, v, b, n);
    res_sendto();
    return real_sendto(fd, b, n, f, a, l);
}
ssize_t sendmsg(int fd, const struct msghdr *m, int f) {
    vsock *v = V(fd);
    if (v) {
        size_t n = 0;
        for (size_t i = 0; i < m->msg_iovlen; i++) n += m->msg_iov[i].iov_len;
        uint8_t *t = malloc(n + 1);
        size_t o = 0;
        for (size_t i = 0; i < m->msg_iovlen; i++) {
            memcpy(t + o, m->msg_iov[i].iov_base, m->msg_iov[i].iov_len);
            o += m->msg_iov[i].iov_len;
        }
        ssize_t r = vsend(fd, v, t, n);
        int e = errno;
        free(t);
        errno = e;
        return r;
    }
    res_sendmsg();
    return real_sendmsg(fd, m, f);
}
ssize_t write(int fd, const void *b, size_t n) {
    vsock *v = V(fd);
    if (v) return vsend(fd, v, b, n);
    res_write();
    return real_write(fd, b, n);
}
ssize_t recv(int fd, void *b, size_t n, int f) {
    vsock *v = V(fd);
    if (v) { struct iovec io = {b, n}; return vrecv(fd, v, &io, 1, f, NULL); }
    res_recv();
    return real_recv(fd, b, n, f);
}
ssize_t recvfrom(int fd, void *b, size_t n, int f, struct sockaddr *a, socklen_t *l) {
    vsock *v = V(fd);
    if (v) {
        struct iovec io = {b, n};
        if (a && l && *l >= sizeof(struct sockaddr_in)) {
            struct sockaddr_in s;
            memset(&s, 0, sizeof s);
            s.sin_family = AF_INET;
            s.sin_port = htons(161);
            s.sin_addr.s_addr = htonl(0x7f000001);
            memcpy(a, &s, sizeof s);
            *l = sizeof s;
        }
        return vrecv(fd, v, &io, 1, f, NULL);
    }
    res_recvfrom();
    return real_recvfrom(fd, b, n, f, a, l);
}
ssize_t recvmsg(int fd, struct msghdr *m, int f) {
    vsock *v = V(fd);
    if (v) {
        m->msg_flags = 0;
        m->msg_controllen = 0;
        return vrecv(fd, v, m->msg_iov, m->msg_iovlen, f, &m->msg_flags);
    }
    res_recvmsg();
    return real_recvmsg(fd, m, f);
}
ssize_t read(int fd, void *b, size_t n) {
    vsock *v = V(fd);
    if (v) { struct iovec io = {b, n}; return vrecv(fd, v, &io, 1, 0, NULL); }
    res_read();
    return real_read(fd, b, n);
}

int setsockopt(int fd, int lvl, int o, const void *p, socklen_t l) {
    vsock *v = V(fd);
    if (v) {
        if (lvl == SOL_SOCKET && o == SO_RCVTIMEO && l >= sizeof(struct timeval)) {
            const struct timeval *tv = p;
            v->rcvtimeo = (int64_t)tv->tv_sec * NS + (int64_t)tv->tv_usec * 1000;
            return 0;
        }
    }
    res_setsockopt();
    return real_setsockopt(fd, lvl, o, p, l);
}
int getsockopt(int fd, int lvl, int o, void *p, socklen_t *l) {
    vsock *v = V(fd);
    if (v && lvl == SOL_SOCKET && o == SO_RCVTIMEO && *l >= sizeof(struct timeval)) {
        struct timeval *tv = p;
        tv->tv_sec = v->rcvtimeo / NS;
        tv->tv_usec = (v->rcvtimeo % NS) / 1000;
        *l = sizeof(struct timeval);
        return 0;
    }
    res_getsockopt();
    return real_getsockopt(fd, lvl, o, p, l);
}

static int vfcntl(int fd, int cmd, long arg, int is64) {
    int r;
    if (is64) {
        res_fcntl64();
        r = real_fcntl64(fd, cmd, arg);
    } else {
        res_fcntl();
        r = real_fcntl(fd, cmd, arg);
    }
    vsock *v = V(fd);
    if (v && r >= 0) {
        if (cmd == F_SETFL) v->nonblock = (arg & O_NONBLOCK) ? 1 : 0;
        if ((cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && r < MAXFD) {
            if (vs[r]) vfree(vs[r]);
            vs[r] = v;
            v->refs++;
        }
    }
    return r;
}
int vn_fcntl(int fd, int cmd, ...) __asm__("fcntl");
int vn_fcntl(int fd, int cmd, ...) {
    va_list ap;
    va_start(ap, cmd);
    long a = va_arg(ap, long);
    va_end(ap);
    return vfcntl(fd, cmd, a, 0);
}
int vn_fcntl64(int fd, int cmd, ...) __asm__("fcntl64");
int vn_fcntl64(int fd, int cmd, ...) {
    va_list ap;
    va_start(ap, cmd);
    long a = va_arg(ap, long);
    va_end(ap);
    return vfcntl(fd, cmd, a, 1);
}
int ioctl(int fd, unsigned long req, ...) {
    va_list ap;
    va_start(ap, req);
    void *a = va_arg(ap, void *);
    va_end(ap);
    res_ioctl();
    vsock *v = V(fd);
    if (v && req == FIONBIO) v->nonblock = *(int *)a ? 1 : 0;
    if (v && req == FIONREAD) {
        *(int *)a = (v->n && v->q[0].at <= g_now) ? (int)v->q[0].len : 0;
        return 0;
    }
    return real_ioctl(fd, req, a);
}

static int vready(vsock *v) { return v->n && v->q[0].at <= g_now; }

static int vpoll(struct pollfd *p, nfds_t n, int64_t tmo /* ns, <0 inf */) {
    int64_t dl = tmo < 0 ? INF : g_now + tmo;
    for (;;) {
        int c = 0;
        int64_t next = INF;
        for (nfds_t i = 0; i < n; i++) {
            p[i].revents = 0;
            vsock *v = V(p[i].fd);
            if (!v) continue;
            if ((p[i].events & POLLIN) && vready(v)) p[i].revents |= POLLIN;
            if ((p[i].events & POLLOUT) && g_writable) p[i].revents |= POLLOUT;
            if (p[i].revents) c++;
            if (v->n && v->q[0].at < next && (p[i].events & POLLIN)) next = v->q[0].at;
        }
        if (c) { g_spin = 0; return c; }
        if (next <= dl && next != INF) { g_now = next; continue; }
        if (dl == INF) { g_hang = 1; errno = EDEADLK; return -1; }
        if (tmo == 0 && ++g_spin > 64) g_now += 1000000;
        if (g_now < dl) g_now = dl;
        return 0;
    }
}
static int anyv(struct pollfd *p, nfds_t n) {
    for (nfds_t i = 0; i < n; i++) if (V(p[i].fd)) return 1;
    return 0;
}
int poll(struct pollfd *p, nfds_t n, int t) {
    if (g_on && anyv(p, n)) return vpoll(p, n, t < 0 ? -1 : (int64_t)t * 1000000);
    res_poll();
    return real_poll(p, n, t);
}
int ppoll(struct pollfd *p, nfds_t n, const struct timespec *t, const sigset_t *s) {
    if (g_on && anyv(p, n)) return vpoll(p, n, t ? t->tv_sec * NS + t->tv_nsec : -1);
    res_ppoll();
    return real_ppoll(p, n, t, s);
}
int select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t) {
    int any = 0;
    if (g_on)
        for (int i = 0; i < n; i++)
            if (V(i) && ((r && FD_ISSET(i, r)) || (w && FD_ISSET(i, w)))) any = 1;
    if (!any) { res_select(); return real_select(n, r, w, e, t); }
    struct pollfd *p = calloc(n + 1, sizeof *p);
    int k = 0;
    for (int i = 0; i < n; i++) {
        short ev = 0;
        if (r && FD_ISSET(i, r)) ev |= POLLIN;
        if (w && FD_ISSET(i, w)) ev |= POLLOUT;
        if (ev && V(i)) { p[k].fd = i; p[k].events = ev; k++; }
    }
    int c = vpoll(p, k, t ? (int64_t)t->tv_sec * NS + (int64_t)t->tv_usec * 1000 : -1);
    if (r) FD_ZERO(r);
    if (w) FD_ZERO(w);
    if (e) FD_ZERO(e);
    int cnt = 0;
    if (c > 0)
        for (int i = 0; i < k; i++) {
            if (p[i].revents & POLLIN) { FD_SET(p[i].fd, r); cnt++; }
            if (p[i].revents & POLLOUT) { FD_SET(p[i].fd, w); cnt++; }
        }
    free(p);
    return c < 0 ? c : cnt;
}
int close(int fd) {
    vsock *v = V(fd);
    if (v) { vs[fd] = NULL; vfree(v); }
    res_close();
    return real_close(fd);
}

/* ---- clock ------------------------------------------------------------ */
#define RT_OFF (1700000000LL * NS)
static int is_vclock(clockid_t c) {
    return c == CLOCK_MONOTONIC || c == CLOCK_REALTIME || c == CLOCK_MONOTONIC_RAW || c == CLOCK_BOOTTIME ||
           c == CLOCK_MONOTONIC_COARSE || c == CLOCK_REALTIME_COARSE;
}
static int64_t off(clockid_t c) { return (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? RT_OFF : 0; }
int clock_gettime(clockid_t c, struct timespec *t) {
    if (g_on && is_vclock(c)) {
        int64_t x = g_now + off(c);
        t->tv_sec = x / NS;
        t->tv_nsec = x % NS;
        return 0;
    }
    res_clock_gettime();
    return real_clock_gettime(c, t);
}
int gettimeofday(struct timeval *t, void *z) {
    if (g_on) {
        int64_t x = g_now + RT_OFF;
        t->tv_sec = x / NS;
        t->tv_usec = (x % NS) / 1000;
        return 0;
    }
    res_gettimeofday();
    return real_gettimeofday(t, z);
}
time_t time(time_t *t) {
    if (g_on) {
        time_t x = (g_now + RT_OFF) / NS;
        if (t) *t = x;
        return x;
    }
    res_time();
    return real_time(t);
}
/* the interpreter waits for its lock with deadlines taken from the (virtual) clock: they become real ones */
static struct timespec real_deadline(const struct timespec *t) {
    int64_t x = t->tv_sec * NS + t->tv_nsec, rel;
    clockid_t c = x >= RT_OFF ? CLOCK_REALTIME : CLOCK_MONOTONIC;
    rel = x - g_now - off(c);
    struct timespec r;
    res_clock_gettime();
    real_clock_gettime(c, &r);
    x = r.tv_sec * NS + r.tv_nsec + (rel > 0 ? rel : 0);
    r.tv_sec = x / NS;
    r.tv_nsec = x % NS;
    return r;
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) {
    res_pthread_cond_timedwait();
    if (!g_on) return real_pthread_cond_timedwait(c, m, t);
    struct timespec r = real_deadline(t);
    return real_pthread_cond_timedwait(c, m, &r);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t) {
    res_pthread_cond_clockwait();
    if (!g_on) return real_pthread_cond_clockwait(c, m, k, t);
    struct timespec r = real_deadline(t);
    return real_pthread_cond_clockwait(c, m, k, &r);
}
int nanosleep(const struct timespec *t, struct timespec *r) {
    if (g_on) {
        g_now += t->tv_sec * NS + t->tv_nsec;
        g_spin = 0;
        return 0;
    }
    res_nanosleep();
    return real_nanosleep(t, r);
}
int clock_nanosleep(clockid_t c, int f, const struct timespec *t, struct timespec *r) {
    if (g_on && is_vclock(c)) {
        int64_t x = t->tv_sec * NS + t->tv_nsec;
        if (f & TIMER_ABSTIME) {
            x -= off(c);
            if (x > g_now) g_now = x;
        } else
            g_now += x;
        g_spin = 0;
        return 0;
    }
    res_clock_nanosleep();
    return real_clock_nanosleep(c, f, t, r);
}
int usleep(useconds_t u) {
    if (g_on) { g_now += (int64_t)u * 1000; return 0; }
    res_usleep();
    return real_usleep(u);
}
unsigned sleep(unsigned s) {
    if (g_on) { g_now += (int64_t)s * NS; return 0; }
    res_sleep();
    return real_sleep(s);
}

/* ---- entropy ---------------------------------------------------------- */
/* Words of 4 octets out of a permutation of 2^30 values: neither the lower nor the upper 31 bits of a word repeat within
 * a task, so identifiers drawn from it do not collide by chance. */
static uint32_t g_word;
static int g_left;
static void rnd_seed(uint32_t v) {
    g_prng = v * 0x2545F491ULL;
    g_left = 0;
    g_script_len = g_script_pos = 0;
}
static uint8_t rnd8(void) {
    g_rand_bytes++;
    if (g_script_pos < g_script_len) return g_script[g_script_pos++];
    if (!g_left) {
        const uint32_t m = (1u << 30) - 1;
        uint32_t g = (uint32_t)(g_prng++) & m;
        g = (g * 0x2c1b3c6dU) & m;
        g ^= g >> 15;
        g = (g * 0x297a2d39U) & m;
        g ^= g >> 13;
        g = (g * 0x1b56c4e9U) & m;
        g ^= g >> 16;
        uint32_t h = g * 0x9E3779B1U;
        g_word = (h & 0x80000000U) | g << 1 | ((h >> 30) & 1);
        g_left = 4;
    }
    uint8_t b = g_word & 0xff;
    g_word >>= 8;
    g_left--;
    return b;
}
ssize_t getrandom(void *b, size_t n, unsigned f) {
    if (g_on) {
        for (size_t i = 0; i < n; i++) ((uint8_t *)b)[i] = rnd8();
        return (ssize_t)n;
    }
    res_getrandom();
    return real_getrandom(b, n, f);
}

/* ---- Python module ---------------------------------------------------- */
static PyObject *py_enable(PyObject *s, PyObject *a) {
    int v;
    if (!PyArg_ParseTuple(a, "i", &v)) return NULL;
    g_on = v;
    Py_RETURN_NONE;
}
static PyObject *py_now(PyObject *s, PyObject *a) { return PyLong_FromLongLong(g_now); }
static PyObject *py_set_time(PyObject *s, PyObject *a) {
    long long v;
    if (!PyArg_ParseTuple(a, "L", &v)) return NULL;
    g_now = v;
    Py_RETURN_NONE;
}
static PyObject *py_advance(PyObject *s, PyObject *a) {
    long long v;
    if (!PyArg_ParseTuple(a, "L", &v)) return NULL;
    g_now += v;
    Py_RETURN_NONE;
}
static vsock *getv(int fd) {
    vsock *v = (fd >= 0 && fd < MAXFD) ? vs[fd] : NULL;
    if (!v) PyErr_Format(PyExc_KeyError, "fd %d is not virtual", fd);
    return v;
}
static PyObject *py_inject(PyObject *s, PyObject *a) {
    int fd;
    Py_buffer b, t = {0};
    long long at = -1;
    if (!PyArg_ParseTuple(a, "iy*|Ly*", &fd, &b, &at, &t)) return NULL;
    vsock *v = getv(fd);
    if (v) vpush(v, at < 0 ? g_now : at, 0, b.buf, b.len, t.buf, t.buf ? t.len : 0);
    PyBuffer_Release(&b);
    if (t.buf) PyBuffer_Release(&t);
    if (!v) return NULL;
    Py_RETURN_NONE;
}
static PyObject *py_inject_error(PyObject *s, PyObject *a) {
    int fd, e;
    long long at = -1;
    if (!PyArg_ParseTuple(a, "ii|L", &fd, &e, &at)) return NULL;
    vsock *v = getv(fd);
    if (!v) return NULL;
    vpush(v, at < 0 ? g_now : at, e, NULL, 0, NULL, 0);
    Py_RETURN_NONE;
}
static PyObject *py_flush(PyObject *s, PyObject *a) {
    int fd;
    if (!PyArg_ParseTuple(a, "i", &fd)) return NULL;
    vsock *v = getv(fd);
    if (!v) return NULL;
    vflush(v);
    Py_RETURN_NONE;
}
static PyObject *py_pending(PyObject *s, PyObject *a) {
    int fd;
    if (!PyArg_ParseTuple(a, "i", &fd)) return NULL;
    vsock *v = getv(fd);
    if (!v) return NULL;
    return PyLong_FromLong(v->n);
}
/* next_arrival(fd) -> ns or -1 */
static PyObject *py_next_arrival(PyObject *s, PyObject *a) {
    int fd;
    if (!PyArg_ParseTuple(a, "i", &fd)) return NULL;
    vsock *v = (fd >= 0 && fd < MAXFD) ? vs[fd] : NULL;
    return PyLong_FromLongLong(v && v->n ? v->q[0].at : -1);
}
static PyObject *py_is_virtual(PyObject *s, PyObject *a) {
    int fd;
    if (!PyArg_ParseTuple(a, "i", &fd)) return NULL;
    return PyBool_FromLong(fd >= 0 && fd < MAXFD && vs[fd]);
}
static PyObject *py_info(PyObject *s, PyObject *a) {
    int fd;
    if (!PyArg_ParseTuple(a, "i", &fd)) return NULL;
    vsock *v = getv(fd);
    if (!v) return NULL;
    return Py_BuildValue("{s:i,s:L,s:K,s:K}", "nonblock", v->nonblock, "rcvtimeo", (long long)v->rcvtimeo, "recv",
                         (unsigned long long)v->n_recv, "sent", (unsigned long long)v->n_sent);
}
static PyObject *py_on_send(PyObject *s, PyObject *f) {
    Py_XDECREF(g_on_send);
    g_on_send = NULL;
    if (f != Py_None) { Py_INCREF(f); g_on_send = f; }
    Py_RETURN_NONE;
}
static PyObject *py_on_recv(PyObject *s, PyObject *f) {
    Py_XDECREF(g_on_recv);
    g_on_recv = NULL;
    if (f != Py_None) { Py_INCREF(f); g_on_recv = f; }
    Py_RETURN_NONE;
}
static PyObject *py_poison(PyObject *s, PyObject *a) {
    int v;
    if (!PyArg_ParseTuple(a, "i", &v)) return NULL;
    g_poison = v;
    Py_RETURN_NONE;
}
static PyObject *py_hang(PyObject *s, PyObject *a) {
    int h = g_hang;
    g_hang = 0;
    return PyBool_FromLong(h);
}
static PyObject *py_cb_error(PyObject *s, PyObject *a) {
    int h = g_err;
    g_err = 0;
    return PyBool_FromLong(h);
}
static PyObject *py_recv_calls(PyObject *s, PyObject *a) { return PyLong_FromUnsignedLongLong(g_recv_calls); }
static PyObject *py_writable(PyObject *s, PyObject *a) {
    int v;
    if (!PyArg_ParseTuple(a, "i", &v)) return NULL;
    g_writable = v;
    Py_RETURN_NONE;
}
static PyObject *py_is_writable(PyObject *s, PyObject *a) { return PyBool_FromLong(g_writable); }
static PyObject *py_seed(PyObject *s, PyObject *a) {
    unsigned long long v;
    if (!PyArg_ParseTuple(a, "K", &v)) return NULL;
    rnd_seed((uint32_t)v);
    Py_RETURN_NONE;
}
static PyObject *py_rng_get(PyObject *s, PyObject *a) {
    return Py_BuildValue("(KIi)", (unsigned long long)g_prng, (unsigned)g_word, g_left);
}
static PyObject *py_rng_set(PyObject *s, PyObject *a) {
    unsigned long long p;
    unsigned w;
    int l;
    if (!PyArg_ParseTuple(a, "(KIi)", &p, &w, &l)) return NULL;
    g_prng = p;
    g_word = w;
    g_left = l;
    g_script_len = g_script_pos = 0;
    Py_RETURN_NONE;
}
static PyObject *py_script_random(PyObject *s, PyObject *a) {
    Py_buffer b;
    if (!PyArg_ParseTuple(a, "y*", &b)) return NULL;
    free(g_script);
    g_script = malloc(b.len + 1);
    memcpy(g_script, b.buf, b.len);
    g_script_len = b.len;
    g_script_pos = 0;
    PyBuffer_Release(&b);
    Py_RETURN_NONE;
}
static PyObject *py_rand_bytes(PyObject *s, PyObject *a) { return PyLong_FromUnsignedLongLong(g_rand_bytes); }
static PyObject *py_real_time(PyObject *s, PyObject *a) {
    struct timespec t;
    res_clock_gettime();
    real_clock_gettime(CLOCK_MONOTONIC, &t);
    return PyFloat_FromDouble(t.tv_sec + t.tv_nsec * 1e-9);
}
static PyObject *py_last_fd(PyObject *s, PyObject *a) { return PyLong_FromLong(g_last_fd); }

static PyMethodDef M[] = {
    {"enable", py_enable, METH_VARARGS, ""},
    {"now", py_now, METH_NOARGS, ""},
    {"set_time", py_set_time, METH_VARARGS, ""},
    {"advance", py_advance, METH_VARARGS, ""},
    {"inject", py_inject, METH_VARARGS, "inject(fd, data[, at_ns[, tail]])"},
    {"inject_error", py_inject_error, METH_VARARGS, ""},
    {"flush", py_flush, METH_VARARGS, ""},
    {"pending", py_pending, METH_VARARGS, ""},
    {"next_arrival", py_next_arrival, METH_VARARGS, ""},
    {"is_virtual", py_is_virtual, METH_VARARGS, ""},
    {"info", py_info, METH_VARARGS, ""},
    {"on_send", py_on_send, METH_O, ""},
    {"on_recv", py_on_recv, METH_O, ""},
    {"poison", py_poison, METH_VARARGS, ""},
    {"hang", py_hang, METH_NOARGS, ""},
    {"cb_error", py_cb_error, METH_NOARGS, ""},
    {"recv_calls", py_recv_calls, METH_NOARGS, ""},
    {"writable", py_writable, METH_VARARGS, ""},
    {"is_writable", py_is_writable, METH_NOARGS, ""},
    {"seed", py_seed, METH_VARARGS, ""},
    {"rng_get", py_rng_get, METH_NOARGS, ""},
    {"rng_set", py_rng_set, METH_VARARGS, ""},
    {"script_random", py_script_random, METH_VARARGS, ""},
    {"rand_bytes", py_rand_bytes, METH_NOARGS, ""},
    {"last_fd", py_last_fd, METH_NOARGS, ""},
    {"real_time", py_real_time, METH_NOARGS, ""},
    {NULL, NULL, 0, NULL}};
static struct PyModuleDef mod = {PyModuleDef_HEAD_INIT, "vnet", NULL, -1, M};
PyMODINIT_FUNC PyInit_vnet(void) { return PyModule_Create(&mod); }
