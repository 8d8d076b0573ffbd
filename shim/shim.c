/* LD_PRELOAD stand-in for the network and disk around basjoofan.
 *
 * SHIM_CONF names a file of lines
 *   host NAME DELAY_MS ADDR...            the name resolves to these addresses, in this order
 *   nohost NAME DELAY_MS                  the name does not resolve
 *   addr ADDR PORT DELAY_MS refuse        connecting there fails after the delay (PORT 0: any port)
 *   addr ADDR PORT DELAY_MS to PORT2      connecting there ends up at 127.0.0.1:PORT2
 *   short file PREFIX MODE                writes to files whose path starts with PREFIX are cut short
 *   short socket - MODE                   writes to sockets are cut short
 *   stall socket MS ...                   the first write to the 1st, 2nd, ... socket written to takes this long
 *   crash PREFIX N                        the process is killed once N bytes have been written to files whose path starts with PREFIX
 *     MODE: one (a single byte), half, intr (every other write is interrupted), some (1..7 bytes in turn)
 * SHIM_LOG names a file that receives a line per call:
 *   resolve TID T NAME RESULT N
 *   start TID T ADDR PORT FD       connect called
 *   done TID T ADDR PORT FD RESULT connect returns
 *   write FD ASKED GIVEN           (cut writes only)
 * T is CLOCK_MONOTONIC in nanoseconds.
 */
#define _GNU_SOURCE
#include <arpa/inet.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>

#define MAX 256
struct host { char name[128]; int delay, n, fail; char addr[32][64]; } hosts[MAX];
struct addr { char addr[64]; int port, delay, refuse, to; } addrs[MAX];
static int nhosts, naddrs;
static char crash_prefix[512]; static long crash_at = -1; static long crash_done; static char file_prefix[512]; static int file_mode, socket_mode;
static int nstalls, stalls[256], nstalled; static char stalled[4096];
static pthread_once_t once = PTHREAD_ONCE_INIT;
static int logfd = -1;
enum { NONE, ONE, HALF, INTR, SOME };

static int mode(const char *m) {
    return !strcmp(m, "one") ? ONE : !strcmp(m, "half") ? HALF : !strcmp(m, "intr") ? INTR : !strcmp(m, "some") ? SOME : NONE;
}
static void canon(char *out, const char *in) {
    unsigned char b[16];
    if (inet_pton(AF_INET, in, b) == 1) inet_ntop(AF_INET, b, out, 64);
    else if (inet_pton(AF_INET6, in, b) == 1) inet_ntop(AF_INET6, b, out, 64);
    else snprintf(out, 64, "%s", in);
}
static void init(void) {
    const char *l = getenv("SHIM_LOG"), *c = getenv("SHIM_CONF");
    if (l) logfd = open(l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
    FILE *f = c ? fopen(c, "re") : NULL;
    char line[4096];
    while (f && fgets(line, sizeof line, f)) {
        char *save, *w[64]; int n = 0;
        for (char *t = strtok_r(line, " \n", &save); t && n < 64; t = strtok_r(NULL, " \n", &save)) w[n++] = t;
        if (n >= 3 && (!strcmp(w[0], "host") || !strcmp(w[0], "nohost")) && nhosts < MAX) {
            struct host *h = &hosts[nhosts++];
            snprintf(h->name, sizeof h->name, "%s", w[1]);
            h->delay = atoi(w[2]); h->fail = w[0][0] == 'n';
            for (int i = 3; i < n && h->n < 32; i++) canon(h->addr[h->n++], w[i]);
        } else if (n >= 5 && !strcmp(w[0], "addr") && naddrs < MAX) {
            struct addr *a = &addrs[naddrs++];
            canon(a->addr, w[1]); a->port = atoi(w[2]); a->delay = atoi(w[3]);
            a->refuse = !strcmp(w[4], "refuse"); a->to = n > 5 ? atoi(w[5]) : 0;
        } else if (n >= 4 && !strcmp(w[0], "short")) {
            if (!strcmp(w[1], "file")) { snprintf(file_prefix, sizeof file_prefix, "%s", w[2]); file_mode = mode(w[3]); }
            else socket_mode = mode(w[3]);
        } else if (n >= 3 && !strcmp(w[0], "stall")) {
            for (int i = 2; i < n && nstalls < 256; i++) stalls[nstalls++] = atoi(w[i]);
        } else if (n >= 3 && !strcmp(w[0], "crash")) {
            snprintf(crash_prefix, sizeof crash_prefix, "%s", w[1]); crash_at = atol(w[2]);
        }
    }
    if (f) fclose(f);
}
static long long now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000LL + t.tv_nsec; }
static void nap(int ms) {
    struct timespec t = { ms / 1000, (ms % 1000) * 1000000L };
    while (ms > 0 && nanosleep(&t, &t) < 0 && errno == EINTR);
}
static void logf_(const char *fmt, ...) {
    if (logfd < 0) return;
    char b[512]; va_list v; va_start(v, fmt); int n = vsnprintf(b, sizeof b, fmt, v); va_end(v);
    if (n > 0) syscall(SYS_write, logfd, b, (size_t)(n < (int)sizeof b ? n : (int)sizeof b));
}
static long tid(void) { return syscall(SYS_gettid); }

typedef int (*gai_t)(const char *, const char *, const struct addrinfo *, struct addrinfo **);
int getaddrinfo(const char *node, const char *service, const struct addrinfo *hints, struct addrinfo **res) {
    pthread_once(&once, init);
    for (int i = 0; node && i < nhosts; i++) {
        struct host *h = &hosts[i];
        if (strcmp(h->name, node)) continue;
        nap(h->delay);
        if (h->fail || !h->n) { logf_("resolve %ld %lld %s fail 0\n", tid(), now(), node); return EAI_NONAME; }
        struct addrinfo *first = NULL, **last = &first;
        int socktype = hints && hints->ai_socktype ? hints->ai_socktype : SOCK_STREAM;
        for (int k = 0; k < h->n; k++) {
            /* one block per node, the address within it: the layout freeaddrinfo expects */
            struct addrinfo *a = calloc(1, sizeof *a + sizeof(struct sockaddr_in6));
            struct sockaddr_in *v4 = (struct sockaddr_in *)(a + 1);
            struct sockaddr_in6 *v6 = (struct sockaddr_in6 *)(a + 1);
            a->ai_addr = (struct sockaddr *)(a + 1);
            a->ai_socktype = socktype; a->ai_protocol = IPPROTO_TCP;
            if (strchr(h->addr[k], ':')) {
                v6->sin6_family = a->ai_family = AF_INET6; a->ai_addrlen = sizeof *v6;
                inet_pton(AF_INET6, h->addr[k], &v6->sin6_addr);
                if (service) v6->sin6_port = htons(atoi(service));
            } else {
                v4->sin_family = a->ai_family = AF_INET; a->ai_addrlen = sizeof *v4;
                inet_pton(AF_INET, h->addr[k], &v4->sin_addr);
                if (service) v4->sin_port = htons(atoi(service));
            }
            *last = a; last = &a->ai_next;
        }
        *res = first;
        logf_("resolve %ld %lld %s ok %d\n", tid(), now(), node, h->n);
        return 0;
    }
    static gai_t real; if (!real) real = (gai_t)dlsym(RTLD_NEXT, "getaddrinfo");
    int r = real(node, service, hints, res);
    logf_("resolve %ld %lld %s %s -1\n", tid(), now(), node ? node : "-", r ? "fail" : "ok");
    return r;
}

/* where there are no IPv6 sockets an IPv4 one takes their place: only the address asked for matters */
typedef int (*socket_t)(int, int, int);
int socket(int domain, int type, int protocol) {
    static socket_t real; if (!real) real = (socket_t)dlsym(RTLD_NEXT, "socket");
    int fd = real(domain, type, protocol);
    return fd < 0 && domain == AF_INET6 ? real(AF_INET, type, protocol) : fd;
}
static int family(int fd) { int d = 0; socklen_t n = sizeof d; getsockopt(fd, SOL_SOCKET, SO_DOMAIN, &d, &n); return d; }
typedef int (*connect_t)(int, const struct sockaddr *, socklen_t);
static connect_t real_connect(void) { static connect_t real; if (!real) real = (connect_t)dlsym(RTLD_NEXT, "connect"); return real; }
/* connects a socket, waiting for the outcome also where the socket is one that does not wait */
static int waiting_connect(int fd, const struct sockaddr *sa, socklen_t len) {
    int flags = fcntl(fd, F_GETFL);
    if (flags & O_NONBLOCK) fcntl(fd, F_SETFL, flags & ~O_NONBLOCK);
    int r = real_connect()(fd, sa, len), e = errno;
    if (flags & O_NONBLOCK) fcntl(fd, F_SETFL, flags);
    errno = e;
    return r;
}
/* the outcome that addrs[i] has in store for a socket of that family */
static int outcome(int i, int fd, int v6sock) {
    if (addrs[i].refuse) { errno = ECONNREFUSED; return -1; }
    if (!v6sock) {
        struct sockaddr_in v4 = { .sin_family = AF_INET, .sin_port = htons(addrs[i].to), .sin_addr.s_addr = htonl(INADDR_LOOPBACK) };
        return waiting_connect(fd, (struct sockaddr *)&v4, sizeof v4);
    }
    struct sockaddr_in6 v6 = { .sin6_family = AF_INET6, .sin6_port = htons(addrs[i].to) };
    inet_pton(AF_INET6, "::ffff:127.0.0.1", &v6.sin6_addr);
    return waiting_connect(fd, (struct sockaddr *)&v6, sizeof v6);
}
/* attempts of sockets that do not wait: poll brings the outcome when its time has come */
static struct { int active, addr, v6, port; long long at; char text[64]; } pending[4096];
int connect(int fd, const struct sockaddr *sa, socklen_t len) {
    pthread_once(&once, init);
    char text[64] = "?"; int port = 0;
    if (sa->sa_family == AF_INET) {
        inet_ntop(AF_INET, &((struct sockaddr_in *)sa)->sin_addr, text, sizeof text); port = ntohs(((struct sockaddr_in *)sa)->sin_port);
    } else if (sa->sa_family == AF_INET6) {
        inet_ntop(AF_INET6, &((struct sockaddr_in6 *)sa)->sin6_addr, text, sizeof text); port = ntohs(((struct sockaddr_in6 *)sa)->sin6_port);
    } else return real_connect()(fd, sa, len);
    if (fd >= 0 && fd < (int)sizeof stalled) stalled[fd] = 0;
    logf_("start %ld %lld %s %d %d\n", tid(), now(), text, port, fd);
    int r, e, i;
    for (i = 0; i < naddrs; i++) if (!strcmp(addrs[i].addr, text) && (!addrs[i].port || addrs[i].port == port)) break;
    if (i == naddrs) { r = waiting_connect(fd, sa, len); e = errno; }
    else {
        int v6 = !(sa->sa_family == AF_INET || family(fd) == AF_INET);
        if (fd >= 0 && fd < 4096) pending[fd].active = 0;
        if (fd >= 0 && fd < 4096 && fcntl(fd, F_GETFL) & O_NONBLOCK) {
            pending[fd].addr = i; pending[fd].v6 = v6; pending[fd].port = port; pending[fd].at = now() + addrs[i].delay * 1000000LL;
            strcpy(pending[fd].text, text); pending[fd].active = 1;
            errno = EINPROGRESS;
            return -1;
        }
        nap(addrs[i].delay);
        r = outcome(i, fd, v6); e = errno;
    }
    logf_("done %ld %lld %s %d %d %s\n", tid(), now(), text, port, fd, r == 0 ? "ok" : "fail");
    errno = e;
    return r;
}
typedef int (*poll_t)(struct pollfd *, nfds_t, int);
int poll(struct pollfd *fds, nfds_t n, int timeout) {
    static poll_t real; if (!real) real = (poll_t)dlsym(RTLD_NEXT, "poll");
    int fd = n == 1 ? fds[0].fd : -1;
    if (fd < 0 || fd >= 4096 || !pending[fd].active) return real(fds, n, timeout);
    long long left = (pending[fd].at - now() + 999999) / 1000000;
    fds[0].revents = 0;
    if (timeout >= 0 && left > timeout) {
        nap(timeout);
        logf_("done %ld %lld %s %d %d fail\n", tid(), now(), pending[fd].text, pending[fd].port, fd);
        pending[fd].active = 0;
        return 0;
    }
    if (left > 0) nap((int)left);
    pending[fd].active = 0;
    int r = outcome(pending[fd].addr, fd, pending[fd].v6);
    logf_("done %ld %lld %s %d %d %s\n", tid(), now(), pending[fd].text, pending[fd].port, fd, r == 0 ? "ok" : "fail");
    fds[0].revents = r == 0 ? POLLOUT : POLLERR | POLLHUP;
    return 1;
}

static __thread unsigned turn;
/* how many of n bytes may be written now; -1: interrupted */
static ssize_t allowed(int m, size_t n) {
    if (n == 0) return 0;
    turn++;
    switch (m) {
    case ONE: return 1;
    case HALF: return (n + 1) / 2;
    case SOME: { size_t k = 1 + turn % 7; return k < n ? (ssize_t)k : (ssize_t)n; }
    case INTR: return turn % 2 ? -1 : (ssize_t)n;
    }
    return n;
}
static int under(int fd, const char *prefix) {
    struct stat s;
    if (fstat(fd, &s) < 0 || !S_ISREG(s.st_mode)) return 0;
    char link[64], path[600]; snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t k = readlink(link, path, sizeof path - 1);
    if (k <= 0) return 0;
    path[k] = 0;
    return !strncmp(path, prefix, strlen(prefix));
}
static int kind(int fd) {
    if (fd <= 2 || fd == logfd || (!file_mode && !socket_mode)) return NONE;
    struct stat s;
    if (fstat(fd, &s) < 0) return NONE;
    if (S_ISSOCK(s.st_mode)) return socket_mode;
    if (file_mode && under(fd, file_prefix)) return file_mode;
    return NONE;
}
static void stall(int fd) {
    static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
    struct stat s;
    if (!nstalls || fd <= 2 || fd >= (int)sizeof stalled || fstat(fd, &s) < 0 || !S_ISSOCK(s.st_mode)) return;
    pthread_mutex_lock(&lock);
    int ms = stalled[fd] || nstalled >= nstalls ? 0 : stalls[nstalled++];
    stalled[fd] = 1;
    pthread_mutex_unlock(&lock);
    nap(ms);
}
typedef ssize_t (*write_t)(int, const void *, size_t);
ssize_t write(int fd, const void *b, size_t n) {
    pthread_once(&once, init);
    static write_t real; if (!real) real = (write_t)dlsym(RTLD_NEXT, "write");
    stall(fd);
    int m = kind(fd);
    if (m) {
        ssize_t k = allowed(m, n);
        logf_("write %d %zu %zd\n", fd, n, k);
        if (k < 0) { errno = EINTR; return -1; }
        n = k;
    }
    if (crash_at >= 0 && fd > 2 && under(fd, crash_prefix)) {
        static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
        pthread_mutex_lock(&lock);
        if (crash_done + (long)n >= crash_at) {
            if (crash_at > crash_done) real(fd, b, crash_at - crash_done);
            kill(getpid(), SIGKILL);
            pause();
        }
        crash_done += n;
        ssize_t r = real(fd, b, n);
        pthread_mutex_unlock(&lock);
        return r;
    }
    return real(fd, b, n);
}
typedef ssize_t (*send_t)(int, const void *, size_t, int);
ssize_t send(int fd, const void *b, size_t n, int flags) {
    pthread_once(&once, init);
    static send_t real; if (!real) real = (send_t)dlsym(RTLD_NEXT, "send");
    stall(fd);
    int m = kind(fd);
    if (m) {
        ssize_t k = allowed(m, n);
        logf_("write %d %zu %zd\n", fd, n, k);
        if (k < 0) { errno = EINTR; return -1; }
        n = k;
    }
    return real(fd, b, n, flags);
}
typedef ssize_t (*writev_t)(int, const struct iovec *, int);
ssize_t writev(int fd, const struct iovec *v, int n) {
    pthread_once(&once, init);
    static writev_t real; if (!real) real = (writev_t)dlsym(RTLD_NEXT, "writev");
    stall(fd);
    int m = kind(fd);
    if (crash_at >= 0 && fd > 2 && n > 0 && under(fd, crash_prefix)) return write(fd, v[0].iov_base, v[0].iov_len);
    if (m) {
        for (int i = 0; i < n; i++) if (v[i].iov_len) {
            ssize_t k = allowed(m, v[i].iov_len);
            logf_("write %d %zu %zd\n", fd, v[i].iov_len, k);
            if (k < 0) { errno = EINTR; return -1; }
            struct iovec one = { v[i].iov_base, k };
            return real(fd, &one, 1);
        }
    }
    return real(fd, v, n);
}
