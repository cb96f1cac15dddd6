/* Deterministic simulator for xmq: simulated kernel, stdio, terminal, processes, clock, allocator. */
#define _GNU_SOURCE
#include "sim.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <poll.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <termios.h>
#include <time.h>
#include <unistd.h>

Shared *S;
World W;
FILE *sim_stdin, *sim_stdout, *sim_stderr;
char **sim_environ;
static uint8_t sim_pid; /* 0 = the process under test, n = n-th forked copy */
static int err_dup_fd = -1;

/* ------------------------------------------------------------------ log */
uint64_t sim_now(void) { return S->now_us + S->steps / 200; }

void sim_log(int type, int a, int b, const void *data, size_t len)
{
    if (S->log_used + sizeof(LogRec) + len + 64 > LOGMAX) {
        if (!S->overflow) { S->overflow = 1; }
        if (type != EV_STOP && type != EV_EXIT) sim_stop("LIMIT:log");
        len = 0;
        if (S->log_used + sizeof(LogRec) > LOGMAX) return;
    }
    LogRec r = { (uint8_t)type, sim_pid, 0, a, b, (uint32_t)len, sim_now() };
    /* simulated time includes executed steps, which depend on the build flavour: keep it coarse */
    memcpy(S->log + S->log_used, &r, sizeof r);
    if (len) memcpy(S->log + S->log_used + sizeof r, data, len);
    S->log_used += sizeof r + len;
}
static void logs(int type, int a, int b, const char *s) { sim_log(type, a, b, s, s ? strlen(s) : 0); }
void sim_die(void) { _exit(0); }
void sim_stop(const char *why) { logs(EV_STOP, 0, 0, why); sim_die(); }

/* ------------------------------------------------------------------ faults, crash, time */
static Fault *fault_check(int cls, const char *path, int64_t pos, int64_t len, int64_t *limit)
{
    Fault *hit = NULL;
    S->counts[cls]++;
    for (uint32_t i = 0; i < S->nfaults; ++i) {
        Fault *f = &S->faults[i];
        if (f->cls != cls) continue;
        if (f->path[0] && (!path || strcmp(f->path, path))) continue;
        int seen = f->seen++;
        if (S->fired[i] && !f->sticky) continue;
        bool fire = false;
        if (S->fired[i] && f->sticky) fire = true;
        else if (f->off >= 0 && (cls == C_MALLOC || cls == C_XMALLOC)) {
            /* memory: the arg-th request of at least off bytes */
            if (pos >= f->off && f->arg-- <= 0) fire = true;
        } else if (f->off >= 0) {
            if (pos >= f->off) fire = true;
            else if (limit && pos + len > f->off) { if (*limit > f->off - pos) *limit = f->off - pos; }
        } else if (f->nth >= 0 && seen == f->nth) fire = true;
        if (fire && !hit) hit = f;
    }
    if (hit) {
        uint32_t i = hit - S->faults;
        S->fired[i]++;
        if (S->fired[i] <= 3) sim_log(EV_FAULT, i, hit->err, NULL, 0);
    }
    return hit;
}

static struct sigaction sigs[65];
static bool sig_set[65];
static uint64_t alarm_at; /* 0 = none */

static int deliver(int signo)
{
    logs(EV_SIGNAL, signo, 0, NULL);
    struct sigaction *sa = &sigs[signo];
    if (!sig_set[signo] || sa->sa_handler == SIG_DFL) {
        if (signo == SIGCHLD || signo == SIGWINCH || signo == SIGCONT || signo == SIGURG) return 0;
        logs(EV_KILLED, signo, 1, NULL);
        sim_die();
    }
    if (sa->sa_handler == SIG_IGN) return 0;
    int keep = errno;
    if (sa->sa_flags & SA_SIGINFO) { siginfo_t si; memset(&si, 0, sizeof si); si.si_signo = signo; sa->sa_sigaction(signo, &si, NULL); }
    else sa->sa_handler(signo);
    errno = keep;
    return (sa->sa_flags & SA_RESTART) ? 1 : 2; /* 2: interrupt the call */
}

/* every kernel visible operation is one event */
static uint32_t event(void)
{
    S->now_us += 3;
    if (alarm_at && sim_now() >= alarm_at) { alarm_at = 0; deliver(SIGALRM); }
    uint32_t e = S->events++;
    if (S->events > W.max_events) sim_stop("HANG:events");
    if (W.crash_event >= 0 && e == (uint32_t)W.crash_event) return 1; /* caller decides on a torn effect */
    return 0;
}
static void crash_now(void) { logs(EV_KILLED, 9, 0, NULL); sim_die(); }

void __sanitizer_cov_trace_pc(void);
extern char __executable_start;
void __sanitizer_cov_trace_pc(void)
{
    if (!S) return;
    uintptr_t pc = (uintptr_t)__builtin_return_address(0) - (uintptr_t)&__executable_start;
    uint32_t h = (uint32_t)(pc * 2654435761u) >> 16;
    S->cov[h >> 3] |= 1u << (h & 7);
    if (++S->steps > W.max_steps) sim_stop("HANG:steps");
    if (sim_threads_on) sim_preempt_point();
}

/* flavour "work": the string functions of the C library cost a step for every 16 bytes */
static void sim_work(size_t n) { if (S && (S->steps += n / 16 + 1) > W.max_steps) sim_stop("HANG:steps"); }
size_t sim_strlen(const char *s) { size_t n = strlen(s); sim_work(n); return n; }
size_t sim_strnlen(const char *s, size_t m) { size_t n = strnlen(s, m); sim_work(n); return n; }
void *sim_memcpy(void *d, const void *s, size_t n) { sim_work(n); return memcpy(d, s, n); }
void *sim_memmove(void *d, const void *s, size_t n) { sim_work(n); return memmove(d, s, n); }
void *sim_memset(void *d, int c, size_t n) { sim_work(n); return memset(d, c, n); }
static size_t same(const unsigned char *a, const unsigned char *b, size_t m, int str) { size_t n = 0; while (n < m && a[n] == b[n] && (!str || a[n])) n++; return n; }
int sim_strcmp(const char *a, const char *b) { sim_work(same((void *)a, (void *)b, SIZE_MAX, 1)); return strcmp(a, b); }
int sim_strncmp(const char *a, const char *b, size_t n) { sim_work(same((void *)a, (void *)b, n, 1)); return strncmp(a, b, n); }
int sim_memcmp(const void *a, const void *b, size_t n) { sim_work(same(a, b, n, 0)); return memcmp(a, b, n); }
char *sim_strcpy(char *d, const char *s) { sim_work(strlen(s)); return strcpy(d, s); }
char *sim_strncpy(char *d, const char *s, size_t n) { sim_work(n); return strncpy(d, s, n); }
char *sim_stpcpy(char *d, const char *s) { sim_work(strlen(s)); return stpcpy(d, s); }
char *sim_strcat(char *d, const char *s) { sim_work(strlen(d) + strlen(s)); return strcat(d, s); }
char *sim_strncat(char *d, const char *s, size_t n) { sim_work(strlen(d) + strnlen(s, n)); return strncat(d, s, n); }
char *sim_strchr(const char *s, int c) { char *r = strchr(s, c); sim_work(r ? r - s : strlen(s)); return r; }
char *sim_strrchr(const char *s, int c) { sim_work(strlen(s)); return strrchr(s, c); }
char *sim_strstr(const char *s, const char *t) { char *r = strstr(s, t); sim_work(r ? r - s : strlen(s)); return r; }
void *sim_memchr(const void *s, int c, size_t n) { char *r = memchr(s, c, n); sim_work(r ? r - (char *)s : n); return r; }

/* ------------------------------------------------------------------ nodes */
static const char *norm(const char *p)
{
    while (p[0] == '.' && p[1] == '/') { p += 2; while (*p == '/') p++; }
    return p;
}
static Node *find_node(const char *path)
{
    path = norm(path);
    for (int i = 0; i < W.nnodes; ++i) if (W.nodes[i].exists && !strcmp(W.nodes[i].path, path)) return &W.nodes[i];
    return NULL;
}
static Node *add_node(const char *path)
{
    path = norm(path);
    for (int i = 0; i < W.nnodes; ++i) if (!W.nodes[i].exists && !strcmp(W.nodes[i].path, path)) { W.nodes[i].exists = true; W.nodes[i].size = 0; return &W.nodes[i]; }
    if (W.nnodes == W.capnodes) sim_stop("LIMIT:nodes");
    Node *n = &W.nodes[W.nnodes++];
    memset(n, 0, sizeof *n);
    n->path = strdup(path); n->exists = true; n->id = W.nnodes;
    return n;
}
static bool parent_exists(const char *path)
{
    path = norm(path);
    const char *s = strrchr(path, '/');
    if (!s || s == path) return true;
    size_t n = s - path;
    for (int i = 0; i < W.nnodes; ++i) {
        Node *d = &W.nodes[i];
        if (!d->exists) continue;
        if (d->kind == K_DIR && strlen(d->path) == n && !strncmp(d->path, path, n)) return true;
        if (!strncmp(d->path, path, n + 1)) return true;
    }
    return false;
}
static void node_reserve(Node *n, size_t sz)
{
    if (sz <= n->cap && n->data) return;
    size_t c = n->cap ? n->cap : 256;
    while (c < sz) c *= 2;
    char *d = malloc(c);
    memset(d, 0, c);
    if (n->size) memcpy(d, n->data, n->size);
    n->data = d; n->cap = c;
}

/* ------------------------------------------------------------------ descriptors */
enum { F_FREE = 0, F_NODE, F_STDIN, F_OUT, F_TTY };
typedef struct { int type; Node *n; uint64_t pos; bool rd, wr, app; int which; } Fd;
#define NFD 256
static Fd fds[NFD];
static uint32_t rc_i, wc_i;

static const char *fd_name(int fd)
{
    Fd *f = &fds[fd];
    switch (f->type) {
    case F_NODE: return f->n->path;
    case F_STDIN: return "<stdin>";
    case F_OUT: return f->which == 2 ? "<stderr>" : "<stdout>";
    case F_TTY: return "<tty>";
    }
    return "";
}
static int new_fd(void) { for (int i = 0; i < NFD; ++i) if (fds[i].type == F_FREE) return i; return -1; }
int sim_open_fds(void) { int n = 0; for (int i = 3; i < NFD; ++i) n += fds[i].type != F_FREE; return n; }
static int is_tty(int fd)
{
    if (fd < 0 || fd >= NFD || fds[fd].type == F_FREE) return 0;
    return fds[fd].type == F_TTY;
}

static int k_open(const char *path, int flags)
{
    if (event()) crash_now();
    bool w = (flags & O_ACCMODE) != O_RDONLY;
    int64_t lim = 0;
    const char *np = norm(path);
    Fault *f = fault_check(w ? C_OPEN_W : C_OPEN_R, np, 0, 0, NULL);
    (void)lim;
    int e = 0;
    Node *n = find_node(np);
    if (f) e = f->err;
    else if (!*np) e = ENOENT;
    else if (n && n->kind == K_DIR && w) e = EISDIR;
    else if (n && w && n->werr) e = n->werr;
    else if (n && !w && n->rerr) e = n->rerr;
    else if (!n && !(flags & O_CREAT)) e = ENOENT;
    else if (!n && !parent_exists(np)) e = ENOENT;
    else if (n && (flags & O_CREAT) && (flags & O_EXCL)) e = EEXIST;
    int fd = e ? -1 : new_fd();
    if (!e && fd < 0) e = EMFILE;
    logs(EV_OPEN, e ? -e : fd, flags, np);
    if (e) { errno = e; return -1; }
    if (!n) n = add_node(np);
    if ((flags & O_TRUNC) && w) { n->size = 0; }
    fds[fd] = (Fd){ .type = F_NODE, .n = n, .pos = n->kind == K_FIFO ? n->taken : 0, .rd = (flags & O_ACCMODE) != O_WRONLY, .wr = w, .app = !!(flags & O_APPEND) };
    return fd;
}

/* ---- terminal ---- */
static char ttybuf[65536]; static uint32_t ttyn; static int tty_hup; static int tty_eintr;
static struct termios tio;
static void tty_arrive(void)
{
    while ((int)S->tty_pos < W.ntty && W.tty[S->tty_pos].at <= sim_now()) {
        TtyEvent *e = &W.tty[S->tty_pos++];
        if (e->kind == 0) { for (uint32_t i = 0; i < e->len && ttyn < sizeof ttybuf; ++i) ttybuf[ttyn++] = e->data[i]; }
        else if (e->kind == 3) tty_eintr++;
        else tty_hup = e->kind;
    }
}
static ssize_t tty_read(char *buf, size_t n)
{
    uint64_t start = sim_now(), vt = 0;
    bool canon = tio.c_lflag & ICANON;
    if (!canon && tio.c_cc[VMIN] == 0) vt = start + tio.c_cc[VTIME] * 100000ull;
    for (;;) {
        tty_arrive();
        if (tty_eintr) { tty_eintr--; int d = deliver(SIGWINCH); (void)d; logs(EV_TTYREAD, -EINTR, 0, NULL); errno = EINTR; return -1; }
        uint32_t avail = ttyn;
        if (canon) { avail = 0; for (uint32_t i = 0; i < ttyn; ++i) if (ttybuf[i] == '\n' || ttybuf[i] == '\r') avail = i + 1; }
        if (avail) {
            size_t k = avail < n ? avail : n;
            memcpy(buf, ttybuf, k);
            memmove(ttybuf, ttybuf + k, ttyn - k); ttyn -= k;
            sim_log(EV_TTYREAD, (int)k, 0, buf, k);
            return k;
        }
        if (tty_hup == 1) { logs(EV_TTYREAD, 0, 0, NULL); return 0; }
        if (tty_hup == 2) { logs(EV_TTYREAD, -EIO, 0, NULL); errno = EIO; return -1; }
        uint64_t next = UINT64_MAX; int what = 0;
        if ((int)S->tty_pos < W.ntty) { next = W.tty[S->tty_pos].at; what = 1; }
        if (alarm_at && alarm_at < next) { next = alarm_at; what = 2; }
        if (!canon && tio.c_cc[VMIN] == 0 && vt < next) { next = vt; what = 3; }
        if (!what) sim_stop("BLOCKED:tty");
        if (next > sim_now()) S->now_us += next - sim_now();
        if (what == 2) { alarm_at = 0; if (deliver(SIGALRM) == 2) { logs(EV_TTYREAD, -EINTR, 0, NULL); errno = EINTR; return -1; } }
        if (what == 3) { logs(EV_TTYREAD, 0, 0, NULL); return 0; }
    }
}

static ssize_t k_read(int fd, void *buf, size_t n)
{
    if (event()) crash_now();
    if (fd < 0 || fd >= NFD || fds[fd].type == F_FREE || fds[fd].type == F_OUT) { errno = EBADF; logs(EV_READ, fd, -EBADF, NULL); return -1; }
    Fd *f = &fds[fd];
    const char *nm = fd_name(fd);
    int64_t lim = n;
    Fault *ft = fault_check(C_READ, nm, f->pos, n, &lim);
    if (ft) { logs(EV_READ, fd, -ft->err, NULL); errno = ft->err; return -1; }
    if (f->type == F_TTY) return tty_read(buf, lim);
    Fault *sh = fault_check(C_SHRINK, nm, f->pos, n, NULL);
    if (sh && f->type == F_NODE && (size_t)sh->arg < f->n->size) f->n->size = sh->arg;
    const char *data; size_t size; int kind = K_FILE;
    if (f->type == F_STDIN) { data = W.stdin_data; size = W.stdin_len; kind = W.stdin_kind == 3 ? K_FILE : K_FIFO; }
    else { data = f->n->data; size = f->n->size; kind = f->n->kind; }
    if (kind == K_DIR) { logs(EV_READ, fd, -EISDIR, NULL); errno = EISDIR; return -1; }
    if (W.nrchunk) { uint32_t c = W.rchunk[rc_i++ % W.nrchunk]; if (c && (int64_t)c < lim) lim = c; }
    size_t r = 0;
    if (f->pos < size) { r = size - f->pos; if ((int64_t)r > lim) r = lim; memcpy(buf, data + f->pos, r); }
    f->pos += r;
    if (f->type == F_NODE && kind == K_FIFO) f->n->taken = f->pos; /* what was read from a pipe is gone */
    logs(EV_READ, fd, (int)r, NULL);
    return r;
}

static ssize_t k_write(int fd, const void *buf, size_t n)
{
    uint32_t cr = event();
    if (fd < 0 || fd >= NFD || fds[fd].type == F_FREE || fds[fd].type == F_STDIN || (fds[fd].type == F_NODE && !fds[fd].wr)) {
        if (cr) crash_now();
        errno = EBADF; logs(EV_WRITE, fd, -EBADF, NULL); return -1;
    }
    Fd *f = &fds[fd];
    if (f->app && f->type == F_NODE) f->pos = f->n->size;
    int64_t lim = n;
    Fault *ft = fault_check(C_WRITE, fd_name(fd), f->pos, n, &lim);
    if (ft) {
        if (cr) crash_now();
        logs(EV_WRITE, fd, -ft->err, fd_name(fd));
        if (ft->sig) deliver(SIGPIPE);
        errno = ft->err; return -1;
    }
    if (W.nwchunk && f->which != 2) { uint32_t c = W.wchunk[wc_i++ % W.nwchunk]; if (c && (int64_t)c < lim) lim = c; }
    size_t w = lim;
    if (cr && W.crash_part >= 0) w = w * (size_t)W.crash_part / 1000;
    if (w || !cr) {
        if (f->type == F_NODE) {
            node_reserve(f->n, f->pos + w);
            if (f->pos > f->n->size) memset(f->n->data + f->n->size, 0, f->pos - f->n->size);
            memcpy(f->n->data + f->pos, buf, w);
            if (f->pos + w > f->n->size) f->n->size = f->pos + w;
        }
        const char *nm = fd_name(fd);
        size_t nl = strlen(nm) + 1;
        uint64_t pos = f->pos;
        char *tmp = malloc(nl + 8 + w);
        memcpy(tmp, nm, nl); memcpy(tmp + nl, &pos, 8); memcpy(tmp + nl + 8, buf, w);
        sim_log(EV_WRITE, fd, (int)w, tmp, nl + 8 + w);
        free(tmp);
        f->pos += w;
    }
    if (cr) crash_now();
    if (W.max_bytes && f->pos > W.max_bytes) sim_stop("HANG:output");
    return w;
}

static int64_t k_lseek(int fd, int64_t off, int whence)
{
    if (event()) crash_now();
    int64_t r = -1; int e = 0;
    if (fd < 0 || fd >= NFD || fds[fd].type == F_FREE) e = EBADF;
    else {
        Fd *f = &fds[fd];
        Fault *ft = fault_check(C_SEEK, fd_name(fd), 0, 0, NULL);
        if (ft) e = ft->err;
        else if (f->type == F_STDIN && W.stdin_kind == 3) {
            r = whence == SEEK_SET ? off : whence == SEEK_CUR ? (int64_t)f->pos + off : (int64_t)W.stdin_len + off;
        }
        else if (f->type != F_NODE || f->n->kind == K_FIFO) e = ESPIPE;
        else if (f->n->kind == K_DIR) r = whence == SEEK_END ? INT64_MAX : off;
        else r = whence == SEEK_SET ? off : whence == SEEK_CUR ? (int64_t)f->pos + off : (int64_t)f->n->size + off;
        if (!e && r < 0) e = EINVAL;
        if (!e) f->pos = r;
    }
    logs(EV_SEEK, fd, e ? -e : 0, NULL);
    if (e) { errno = e; return -1; }
    return r;
}

static int k_close(int fd)
{
    if (event()) crash_now();
    int e = 0;
    if (fd < 0 || fd >= NFD || fds[fd].type == F_FREE) e = EBADF;
    else {
        Fault *ft = fault_check(C_CLOSE, fd_name(fd), 0, 0, NULL);
        if (ft) {
            e = ft->err;
            /* as on a network file system: the last bytes, taken earlier, could not be stored */
            if (fds[fd].type == F_NODE && fds[fd].wr && ft->arg > 0) {
                Node *n = fds[fd].n;
                n->size -= (size_t)ft->arg < n->size ? (size_t)ft->arg : n->size;
                char t[300]; snprintf(t, sizeof t, "truncate %s", n->path); logs(EV_FSOP, (int64_t)n->size, 0, t);
            }
        }
        fds[fd].type = F_FREE;
    }
    logs(EV_CLOSE, fd, -e, NULL);
    if (e) { errno = e; return -1; }
    return 0;
}

/* ------------------------------------------------------------------ stdio over the simulated descriptors */
typedef struct Cook { int fd; FILE *f; struct Cook *next; } Cook;
static Cook *cooks;
static ssize_t ck_read(void *c, char *b, size_t n) { return k_read(((Cook *)c)->fd, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n)
{
    /* the kernel may take less than asked for; stdio continues as glibc's own file backend does */
    size_t done = 0;
    while (done < n) {
        ssize_t w = k_write(((Cook *)c)->fd, b + done, n - done);
        if (w < 0) return done;
        done += w;
    }
    return done;
}
static int ck_seek(void *c, off64_t *o, int wh) { int64_t r = k_lseek(((Cook *)c)->fd, *o, wh); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void *c) { return k_close(((Cook *)c)->fd); }

static FILE *mkstream(int fd, const char *mode)
{
    Cook *c = calloc(1, sizeof *c);
    c->fd = fd;
    cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
    c->f = fopencookie(c, mode, io);
    c->next = cooks; cooks = c;
    return c->f;
}
void sim_streams_init(void)
{
    fds[0] = (Fd){ .type = W.stdin_kind == 2 ? F_FREE : W.stdin_kind == 1 ? F_TTY : F_STDIN, .rd = true };
    fds[1] = (Fd){ .type = W.stdout_kind == 1 ? F_TTY : F_OUT, .wr = true, .which = 1 };
    fds[2] = (Fd){ .type = F_OUT, .wr = true, .which = 2 };
    sim_stdin = mkstream(0, "r");
    sim_stdout = mkstream(1, "w");
    sim_stderr = mkstream(2, "w");
    if (W.stdout_kind == 1) setvbuf(sim_stdout, NULL, _IOLBF, 1024);
    else setvbuf(sim_stdout, NULL, _IOFBF, W.stdout_buf ? W.stdout_buf : 4096);
    setvbuf(sim_stderr, NULL, _IONBF, 0);
    memset(&tio, 0, sizeof tio);
    tio.c_lflag = W.lflag ? W.lflag : (ISIG | ICANON | ECHO | ECHOE | ECHOK | IEXTEN);
    tio.c_iflag = ICRNL | IXON; tio.c_oflag = OPOST | ONLCR; tio.c_cflag = CS8 | CREAD;
    tio.c_cc[VMIN] = 1; tio.c_cc[VTIME] = 0;
}

FILE *sim_fopen(const char *path, const char *mode)
{
    int fl = 0; bool plus = strchr(mode, '+');
    if (mode[0] == 'r') fl = plus ? O_RDWR : O_RDONLY;
    else if (mode[0] == 'w') fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
    else if (mode[0] == 'a') fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
    else { errno = EINVAL; return NULL; }
    if (!path) { errno = EFAULT; return NULL; }
    int fd = k_open(path, fl);
    if (fd < 0) return NULL;
    return mkstream(fd, mode);
}
FILE *sim_fdopen(int fd, const char *mode) { return mkstream(fd, mode); }
FILE *sim_freopen(const char *p, const char *m, FILE *f) { fclose(f); return sim_fopen(p, m); }
int sim_fclose(FILE *f)
{
    Cook **pp = &cooks;
    while (*pp && (*pp)->f != f) pp = &(*pp)->next;
    Cook *c = *pp;
    if (c) *pp = c->next;
    int r = fclose(f);
    return r;
}
int sim_fileno(FILE *f) { for (Cook *c = cooks; c; c = c->next) if (c->f == f) return c->fd; errno = EBADF; return -1; }
int sim_fflush(FILE *f) { if (!f) { int r = 0; for (Cook *c = cooks; c; c = c->next) if (fflush(c->f)) r = EOF; return r; } return fflush(f); }
int sim_printf(const char *fmt, ...) { va_list a; va_start(a, fmt); int r = vfprintf(sim_stdout, fmt, a); va_end(a); return r; }
int sim_vprintf(const char *fmt, va_list a) { return vfprintf(sim_stdout, fmt, a); }
int sim_puts(const char *s) { if (fputs(s, sim_stdout) < 0) return EOF; return fputc('\n', sim_stdout) == EOF ? EOF : 1; }
int sim_putchar(int c) { return fputc(c, sim_stdout); }
int sim_getchar(void) { return fgetc(sim_stdin); }
void sim_perror(const char *s) { fprintf(sim_stderr, "%s%s%s\n", s ? s : "", s && *s ? ": " : "", strerror(errno)); }

ssize_t sim_read(int fd, void *b, size_t n) { return k_read(fd, b, n); }
ssize_t sim_write(int fd, const void *b, size_t n) { return k_write(fd, b, n); }
int sim_close(int fd) { return k_close(fd); }
int sim_open(const char *p, int fl, ...) { return k_open(p, fl); }
int sim_openat(int d, const char *p, int fl, ...) { return k_open(p, fl); }
int sim_creat(const char *p, mode_t m) { return k_open(p, O_WRONLY | O_CREAT | O_TRUNC); }
off_t sim_lseek(int fd, off_t o, int w) { return k_lseek(fd, o, w); }
ssize_t sim_pread(int fd, void *b, size_t n, off_t o) { uint64_t p = fds[fd].pos; fds[fd].pos = o; ssize_t r = k_read(fd, b, n); fds[fd].pos = p; return r; }
ssize_t sim_pwrite(int fd, const void *b, size_t n, off_t o) { uint64_t p = fds[fd].pos; fds[fd].pos = o; ssize_t r = k_write(fd, b, n); fds[fd].pos = p; return r; }
ssize_t sim_writev(int fd, const struct iovec *v, int c) { ssize_t t = 0; for (int i = 0; i < c; ++i) { ssize_t r = k_write(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : -1; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
ssize_t sim_readv(int fd, const struct iovec *v, int c) { ssize_t t = 0; for (int i = 0; i < c; ++i) { ssize_t r = k_read(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : -1; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
int sim_fsync(int fd) { if (event()) crash_now(); logs(EV_FSOP, fd, 0, "fsync"); return 0; }
int sim_ftruncate(int fd, off_t n)
{
    if (event()) crash_now();
    if (fd < 0 || fd >= NFD || fds[fd].type != F_NODE) { errno = EBADF; return -1; }
    Node *k = fds[fd].n; node_reserve(k, n); if ((size_t)n > k->size) memset(k->data + k->size, 0, n - k->size); k->size = n;
    char t[200]; snprintf(t, sizeof t, "truncate %s", k->path); logs(EV_FSOP, (int)n, 0, t);
    return 0;
}
int sim_truncate(const char *p, off_t n) { int fd = k_open(p, O_WRONLY); if (fd < 0) return -1; int r = sim_ftruncate(fd, n); k_close(fd); return r; }
int sim_unlink(const char *p)
{
    if (event()) crash_now();
    char t[300]; snprintf(t, sizeof t, "unlink %s", norm(p)); logs(EV_FSOP, 0, 0, t);
    Node *n = find_node(p); if (!n) { errno = ENOENT; return -1; } n->exists = false; return 0;
}
int sim_remove(const char *p) { return sim_unlink(p); }
int sim_rename(const char *a, const char *b)
{
    if (event()) crash_now();
    char t[600]; snprintf(t, sizeof t, "rename %s %s", norm(a), norm(b));
    Fault *ft = fault_check(C_OPEN_W, norm(b), 0, 0, NULL);
    if (ft) { errno = ft->err; logs(EV_FSOP, -ft->err, 0, t); return -1; }
    Node *n = find_node(a); if (!n) { errno = ENOENT; logs(EV_FSOP, -ENOENT, 0, t); return -1; }
    Node *o = find_node(b); if (o && o != n) o->exists = false;
    n->path = strdup(norm(b));
    logs(EV_FSOP, 0, 0, t);
    return 0;
}
int sim_mkdir(const char *p, mode_t m) { char t[300]; snprintf(t, sizeof t, "mkdir %s", norm(p)); logs(EV_FSOP, 0, 0, t); Node *n = add_node(p); n->kind = K_DIR; return 0; }
int sim_rmdir(const char *p) { return sim_unlink(p); }
int sim_mkstemp(char *t) { size_t n = strlen(t); if (n < 6) { errno = EINVAL; return -1; } static int k; snprintf(t + n - 6, 7, "%06d", k++); return k_open(t, O_RDWR | O_CREAT | O_EXCL); }
FILE *sim_tmpfile(void) { char t[] = "tmpXXXXXX"; int fd = sim_mkstemp(t); return fd < 0 ? NULL : mkstream(fd, "w+"); }
static void fill_stat(struct stat *st, int kind, size_t size)
{
    memset(st, 0, sizeof *st);
    st->st_mode = (kind == K_DIR ? S_IFDIR | 0755 : kind == K_FIFO ? S_IFIFO | 0644 : kind == K_TTY ? S_IFCHR | 0620 : S_IFREG | 0644);
    st->st_size = kind == K_FILE ? size : 0; st->st_blksize = 4096; st->st_nlink = 1;
}
int sim_stat(const char *p, struct stat *st)
{
    if (event()) crash_now();
    Fault *ft = fault_check(C_STAT, norm(p), 0, 0, NULL);
    if (ft) { errno = ft->err; return -1; }
    Node *n = find_node(p); if (!n) { errno = ENOENT; return -1; }
    fill_stat(st, n->kind, n->size); return 0;
}
int sim_lstat(const char *p, struct stat *st) { return sim_stat(p, st); }
int sim_fstat(int fd, struct stat *st)
{
    if (event()) crash_now();
    if (fd < 0 || fd >= NFD || fds[fd].type == F_FREE) { errno = EBADF; return -1; }
    Fd *f = &fds[fd];
    if (f->type == F_NODE) fill_stat(st, f->n->kind, f->n->size);
    else if (f->type == F_STDIN) fill_stat(st, W.stdin_kind == 3 ? K_FILE : K_FIFO, W.stdin_len);
    else fill_stat(st, f->type == F_TTY ? K_TTY : W.stdout_kind == 2 ? K_FILE : K_FIFO, 0);
    return 0;
}
int sim_access(const char *p, int m) { struct stat st; return sim_stat(p, &st); }
int sim_dup(int fd) { int n = new_fd(); if (n < 0 || fd < 0 || fd >= NFD || fds[fd].type == F_FREE) { errno = EBADF; return -1; } fds[n] = fds[fd]; return n; }
int sim_dup2(int a, int b) { if (a < 0 || b < 0 || a >= NFD || b >= NFD || fds[a].type == F_FREE) { errno = EBADF; return -1; } fds[b] = fds[a]; return b; }
int sim_pipe(int p[2]) { logs(EV_OTHER, 0, 0, "pipe"); errno = ENOSYS; return -1; }
int sim_fcntl(int fd, int c, ...) { return 0; }
int sim_poll(struct pollfd *p, nfds_t n, int to)
{
    if (event()) crash_now();
    int r = 0;
    uint64_t dl = to < 0 ? UINT64_MAX : sim_now() + to * 1000ull;
    for (;;) {
        r = 0;
        for (nfds_t i = 0; i < n; ++i) {
            p[i].revents = 0;
            if (p[i].fd < 0 || p[i].fd >= NFD || fds[p[i].fd].type == F_FREE) { if (p[i].fd >= 0) { p[i].revents = POLLNVAL; r++; } continue; }
            if (fds[p[i].fd].type == F_TTY && (p[i].events & POLLIN)) { tty_arrive(); if (ttyn) p[i].revents |= POLLIN; if (tty_hup) p[i].revents |= POLLHUP; }
            else if (p[i].events & POLLIN) p[i].revents |= POLLIN;
            if (p[i].events & POLLOUT) p[i].revents |= POLLOUT;
            if (p[i].revents) r++;
        }
        if (r) return r;
        if (tty_eintr) { tty_eintr--; errno = EINTR; return -1; }
        uint64_t next = dl; int what = dl == UINT64_MAX ? 0 : 1;
        if ((int)S->tty_pos < W.ntty && W.tty[S->tty_pos].at < next) { next = W.tty[S->tty_pos].at; what = 2; }
        if (alarm_at && alarm_at < next) { next = alarm_at; what = 3; }
        if (!what) sim_stop("BLOCKED:poll");
        if (next > sim_now()) S->now_us += next - sim_now();
        if (what == 3) { alarm_at = 0; if (deliver(SIGALRM)) { errno = EINTR; return -1; } }
        if (what == 1) return 0;
    }
}
int sim_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
    struct pollfd p[64]; int k = 0;
    for (int i = 0; i < n && k < 64; ++i) { short ev = 0; if (r && FD_ISSET(i, r)) ev |= POLLIN; if (w && FD_ISSET(i, w)) ev |= POLLOUT; if (ev) p[k++] = (struct pollfd){ i, ev, 0 }; }
    int rc = sim_poll(p, k, tv ? (int)(tv->tv_sec * 1000 + tv->tv_usec / 1000) : -1);
    if (r) FD_ZERO(r);
    if (w) FD_ZERO(w);
    for (int i = 0; i < k; ++i) { if (r && (p[i].revents & (POLLIN | POLLHUP))) FD_SET(p[i].fd, r); if (w && (p[i].revents & POLLOUT)) FD_SET(p[i].fd, w); }
    return rc;
}

/* ------------------------------------------------------------------ terminal control */
int sim_isatty(int fd) { int r = is_tty(fd); if (!r) errno = ENOTTY; return r; }
int sim_ioctl(int fd, unsigned long req, ...)
{
    va_list ap; va_start(ap, req); void *arg = va_arg(ap, void *); va_end(ap);
    if (event()) crash_now();
    Fault *ft = fault_check(C_IOCTL, NULL, 0, 0, NULL);
    int e = ft ? ft->err : !is_tty(fd) ? ENOTTY : 0;
    logs(EV_IOCTL, fd, -e, NULL);
    if (e) { errno = e; return -1; }
    if (req == TIOCGWINSZ) { struct winsize *w = arg; memset(w, 0, sizeof *w); w->ws_row = W.ws_rows; w->ws_col = W.ws_cols; return 0; }
    errno = EINVAL; return -1;
}
int sim_tcgetattr(int fd, struct termios *t)
{
    if (event()) crash_now();
    Fault *ft = fault_check(C_TCGET, NULL, 0, 0, NULL);
    if (ft || !is_tty(fd)) { errno = ft ? ft->err : ENOTTY; return -1; }
    *t = tio; return 0;
}
int sim_tcsetattr(int fd, int act, const struct termios *t)
{
    if (event()) crash_now();
    Fault *ft = fault_check(C_TCSET, NULL, 0, 0, NULL);
    if (ft || !is_tty(fd)) { errno = ft ? ft->err : ENOTTY; return -1; }
    tio = *t;
    if (act == TCSAFLUSH) { tty_arrive(); ttyn = 0; }
    struct { uint32_t i, o, c, l; uint8_t vmin, vtime; } m = { t->c_iflag, t->c_oflag, t->c_cflag, t->c_lflag, t->c_cc[VMIN], t->c_cc[VTIME] };
    sim_log(EV_TCSET, t->c_lflag, act, &m, 18);
    return 0;
}
int sim_tcflush(int fd, int q) { tty_arrive(); ttyn = 0; return 0; }

/* ------------------------------------------------------------------ signals, clock */
int sim_sigaction(int s, const struct sigaction *n, struct sigaction *o)
{
    if (s < 1 || s > 64) { errno = EINVAL; return -1; }
    if (o) { if (sig_set[s]) *o = sigs[s]; else { memset(o, 0, sizeof *o); o->sa_handler = SIG_DFL; } }
    if (n) { sigs[s] = *n; sig_set[s] = true; logs(EV_SIGACTION, s, n->sa_handler == SIG_DFL ? 0 : n->sa_handler == SIG_IGN ? 1 : 2, NULL); }
    return 0;
}
typedef void (*sigh)(int);
sigh sim_signal(int s, sigh h) { struct sigaction n, o; memset(&n, 0, sizeof n); n.sa_handler = h; n.sa_flags = SA_RESTART; if (sim_sigaction(s, &n, &o)) return SIG_ERR; return o.sa_handler; }
int sim_raise(int s) { deliver(s); return 0; }
int sim_kill(pid_t p, int s) { logs(EV_OTHER, p, s, "kill"); return 0; }
void cpu_limit(void)
{
    /* backstop for loops inside uninstrumented libraries; loops in the code under test hit the step budget long before */
    struct itimerval v; memset(&v, 0, sizeof v);
#ifdef __SANITIZE_ADDRESS__
    v.it_value.tv_sec = 25;
#else
    v.it_value.tv_sec = 8;
#endif
    setitimer(ITIMER_PROF, &v, NULL);
    alarm(240);
}
unsigned sim_alarm(unsigned s)
{
    if (event()) crash_now();
    unsigned left = 0; uint64_t now = sim_now();
    if (alarm_at > now) left = (alarm_at - now + 999999) / 1000000;
    alarm_at = s ? now + s * 1000000ull : 0;
    sim_log(EV_ALARM, s, 0, NULL, 0);
    return left;
}
int sim_setitimer(int w, const struct itimerval *n, struct itimerval *o) { if (o) memset(o, 0, sizeof *o); alarm_at = (n->it_value.tv_sec || n->it_value.tv_usec) ? sim_now() + n->it_value.tv_sec * 1000000ull + n->it_value.tv_usec : 0; sim_log(EV_ALARM, n->it_value.tv_sec, 1, NULL, 0); return 0; }
static void do_sleep(uint64_t us) { if (event()) crash_now(); sim_log(EV_SLEEP, us / 1000, 0, NULL, 0); S->now_us += us; if (alarm_at && sim_now() >= alarm_at) { alarm_at = 0; deliver(SIGALRM); } }
unsigned sim_sleep(unsigned s) { do_sleep(s * 1000000ull); return 0; }
int sim_usleep(useconds_t u) { do_sleep(u); return 0; }
int sim_nanosleep(const struct timespec *a, struct timespec *b) { do_sleep(a->tv_sec * 1000000ull + a->tv_nsec / 1000); return 0; }
time_t sim_time(time_t *t) { time_t v = 1700000000 + W.epoch + sim_now() / 1000000; if (t) *t = v; return v; }
int sim_gettimeofday(struct timeval *tv, void *z) { uint64_t n = sim_now(); tv->tv_sec = 1700000000 + W.epoch + n / 1000000; tv->tv_usec = n % 1000000; return 0; }
int sim_clock_gettime(clockid_t c, struct timespec *t) { uint64_t n = sim_now(); t->tv_sec = 1700000000 + W.epoch + n / 1000000; t->tv_nsec = n % 1000000 * 1000; return 0; }
clock_t sim_clock(void) { return sim_now(); }
int sim_rand(void) { static uint32_t x = 12345; x = (x ^ W.salt) * 1103515245 + 12345; return (x >> 1) & 0x7fffffff; }
void sim_srand(unsigned s) { (void)s; }
int sim_rand_r(unsigned *s) { *s = (*s ^ W.salt) * 1103515245 + 12345; return (*s >> 1) & 0x7fffffff; }
pid_t sim_getpid(void) { return 1000 + W.salt % 30000 + sim_pid; }
/* libxml2 seeds its hash tables from the clock: pin that down too (interposed for the shared libraries) */
time_t time(time_t *t) { time_t v = 1700000000; if (t) *t = v; return v; }
int rand_r(unsigned *s) { return sim_rand_r(s); }
int rand(void) { return sim_rand(); }
void srand(unsigned s) { }

char *sim_getenv(const char *n)
{
    size_t l = strlen(n);
    for (char **e = sim_environ; e && *e; ++e) if (!strncmp(*e, n, l) && (*e)[l] == '=') return *e + l + 1;
    return NULL;
}
int sim_setenv(const char *n, const char *v, int o)
{
    int c = 0; while (sim_environ && sim_environ[c]) c++;
    char *s = malloc(strlen(n) + strlen(v) + 2); sprintf(s, "%s=%s", n, v);
    size_t l = strlen(n);
    for (int i = 0; i < c; ++i) if (!strncmp(sim_environ[i], n, l) && sim_environ[i][l] == '=') { if (o) sim_environ[i] = s; return 0; }
    char **ne = malloc((c + 2) * sizeof *ne); memcpy(ne, sim_environ, c * sizeof *ne); ne[c] = s; ne[c + 1] = NULL; sim_environ = ne;
    return 0;
}
int sim_unsetenv(const char *n) { size_t l = strlen(n); char **o = sim_environ; for (char **e = sim_environ; *e; ++e) if (!(!strncmp(*e, n, l) && (*e)[l] == '=')) *o++ = *e; *o = NULL; return 0; }
int sim_putenv(char *s) { char *eq = strchr(s, '='); if (!eq) return -1; char n[256]; snprintf(n, sizeof n, "%.*s", (int)(eq - s), s); return sim_setenv(n, eq + 1, 1); }

/* ------------------------------------------------------------------ processes */
pid_t sim_fork(void)
{
    if (event()) crash_now();
    Fault *ft = fault_check(C_FORK, NULL, 0, 0, NULL);
    if (ft || S->nkids >= 4096) { int e = ft ? ft->err : EAGAIN; logs(EV_FORK, -e, 0, NULL); errno = e; return -1; }
    int k = S->nkids++;
    int pid = S->next_pid++;
    S->kids[k].pid = pid; S->kids[k].status = 0; S->kids[k].end = sim_now();
    logs(EV_FORK, pid, 0, NULL);
    if (S->nkids > 4000) sim_stop("LIMIT:forks");
    pid_t p = fork();
    if (p < 0) sim_stop("LIMIT:realfork");
    if (p == 0) { sim_pid = (uint8_t)(k % 250 + 1); cpu_limit(); return 0; }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
    if (WIFSIGNALED(st)) { S->kids[k].status = WTERMSIG(st); }
    else if (WEXITSTATUS(st)) { S->kids[k].status = SIGSEGV; }
    logs(EV_CHILDEND, pid, WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st) ? -WEXITSTATUS(st) : 0, NULL);
    /* a copy that gave up the whole run ends the run */
    return pid;
}
pid_t sim_vfork(void) { return sim_fork(); }
static int kid_index(int pid) { for (uint32_t i = 0; i < S->nkids; ++i) if (S->kids[i].pid == pid) return i; return -1; }
int sim_execve(const char *path, char *const argv[], char *const envp[])
{
    if (event()) crash_now();
    int e = 0; size_t tot = 0, n = 0;
    for (char *const *a = argv; a && *a; ++a) { size_t l = strlen(*a) + 1; if (l > 131072) e = E2BIG; tot += l; n++; }
    for (char *const *a = envp; a && *a; ++a) { size_t l = strlen(*a) + 1; if (l > 131072) e = E2BIG; tot += l; n++; }
    if (tot + n * 8 > 2u << 20) e = E2BIG;
    Fault *ft = fault_check(C_EXEC, NULL, 0, 0, NULL);
    if (ft) e = ft->err;
    size_t len = strlen(path) + 1 + tot + 2, k = 0;
    char *b = malloc(len + 8);
    k += sprintf(b + k, "%s", path) + 1;
    for (char *const *a = argv; a && *a; ++a) { b[k++] = 'A'; size_t l = strlen(*a) + 1; if (k + l + 8 > len + 8) b = realloc(b, len = k + l + tot + n * 2 + 8); memcpy(b + k, *a, l); k += l; }
    for (char *const *a = envp; a && *a; ++a) { b[k++] = 'E'; size_t l = strlen(*a) + 1; if (k + l + 8 > len + 8) b = realloc(b, len = k + l + tot + n * 2 + 8); memcpy(b + k, *a, l); k += l; }
    sim_log(EV_EXEC, -e, S->execs, b, k);
    free(b);
    if (e) { errno = e; return -1; }
    int code = 0; uint32_t ms = 1;
    if (W.nshells) { code = W.shells[S->execs % W.nshells].code; ms = W.shells[S->execs % W.nshells].ms; }
    S->execs++;
    if (sim_pid) {
        /* find my entry: the last one forked without being execed */
        for (int i = (int)S->nkids - 1; i >= 0; --i) if (!S->kids[i].execed && !S->kids[i].reaped) {
            S->kids[i].execed = 1; S->kids[i].status = code >= 256 ? code - 256 : code << 8; S->kids[i].end = sim_now() + ms * 1000ull; break;
        }
    }
    sim_die();
}
int sim_execv(const char *p, char *const a[]) { return sim_execve(p, a, sim_environ); }
int sim_execvp(const char *p, char *const a[]) { return sim_execve(p, a, sim_environ); }
pid_t sim_waitpid(pid_t pid, int *st, int opt)
{
    if (event()) crash_now();
    Fault *ft = fault_check(C_WAIT, NULL, 0, 0, NULL);
    if (ft) { logs(EV_WAIT, -ft->err, pid, NULL); S->now_us += 500; errno = ft->err; return -1; }
    int k = -1;
    if (pid == -1 || pid == 0) { for (uint32_t i = 0; i < S->nkids; ++i) if (!S->kids[i].reaped && (k < 0 || S->kids[i].end < S->kids[k].end)) k = i; }
    else { k = kid_index(pid); if (k >= 0 && S->kids[k].reaped) k = -1; }
    if (k < 0) { logs(EV_WAIT, -ECHILD, pid, NULL); errno = ECHILD; return -1; }
    if (S->kids[k].end > sim_now()) {
        if (opt & WNOHANG) return 0;
        if (alarm_at && alarm_at < S->kids[k].end) { S->now_us += alarm_at > sim_now() ? alarm_at - sim_now() : 0; alarm_at = 0; if (deliver(SIGALRM) == 2) { errno = EINTR; return -1; } }
        if (S->kids[k].end > sim_now()) S->now_us += S->kids[k].end - sim_now();
    }
    S->kids[k].reaped = 1;
    if (st) *st = S->kids[k].status;
    logs(EV_WAIT, S->kids[k].pid, S->kids[k].status, NULL);
    return S->kids[k].pid;
}
pid_t sim_wait(int *st) { return sim_waitpid(-1, st, 0); }
int sim_system(const char *cmd)
{
    if (event()) crash_now();
    Fault *ft = fault_check(C_SYSTEM, NULL, 0, 0, NULL);
    int rc = ft ? (int)ft->arg : 0;
    logs(EV_SYSTEM, rc, 0, cmd);
    return rc;
}
/* posix_spawn is fork and exec in one call; a failing exec is reported by the call itself */
int sim_posix_spawn(pid_t *pid, const char *path, const void *fa, const void *at, char *const argv[], char *const envp[])
{
    pid_t p = sim_fork();
    if (p < 0) return errno;
    if (p == 0) { if (sim_execve(path, argv, envp) < 0) { int e = errno; logs(EV_EXIT, 127, 1, NULL); for (int i = (int)S->nkids - 1; i >= 0; --i) if (!S->kids[i].execed && !S->kids[i].reaped) { S->kids[i].reaped = 1; S->kids[i].status = -e; break; } sim_die(); } }
    int k = kid_index(p);
    if (S->kids[k].reaped && S->kids[k].status < 0) return -S->kids[k].status;
    if (pid) *pid = p;
    return 0;
}
int sim_posix_spawnp(pid_t *pid, const char *path, const void *fa, const void *at, char *const argv[], char *const envp[]) { return sim_posix_spawn(pid, path, fa, at, argv, envp); }
FILE *sim_popen(const char *c, const char *m) { logs(EV_OTHER, 0, 0, "popen"); errno = ENOSYS; return NULL; }
int sim_pclose(FILE *f) { return -1; }

/* ------------------------------------------------------------------ exit */
static void (*ae[64])(void); static int nae;
int sim_atexit(void (*f)(void)) { if (nae == 64) return -1; ae[nae++] = f; return 0; }
void sim__exit(int code)
{
    logs(EV_EXIT, code, sim_pid ? 1 : 0, NULL);
    if (sim_pid) for (int i = (int)S->nkids - 1; i >= 0; --i) if (!S->kids[i].execed && !S->kids[i].reaped) { S->kids[i].status = (code & 255) << 8; S->kids[i].end = sim_now(); break; }
    sim_die();
}
void sim_exit(int code)
{
    sim_threads_on = 0;
    while (nae > 0) ae[--nae]();
    for (Cook *c = cooks; c; c = c->next) fflush(c->f);
    /* terminal state the user is left with */
    sim_log(EV_TCSET, tio.c_lflag, 100, NULL, 0);
    sim_log(EV_SIGACTION, SIGALRM, sig_set[SIGALRM] && sigs[SIGALRM].sa_handler != SIG_DFL ? 102 : 100, NULL, 0);
    if (alarm_at) sim_log(EV_ALARM, 1, 100, NULL, 0);
    sim__exit(code);
}
void sim_abort(void) { logs(EV_KILLED, SIGABRT, 2, "abort"); sim_die(); }
void sim___assert_fail(const char *e, const char *f, unsigned l, const char *fn)
{
    char t[400]; snprintf(t, sizeof t, "assert %s in %s", e, fn);
    logs(EV_KILLED, SIGABRT, 2, t); sim_die();
}
void sim___stack_chk_fail(void) { logs(EV_KILLED, SIGABRT, 2, "stack smashing"); sim_die(); }

/* ------------------------------------------------------------------ allocator */
static uint64_t arena_lo, arena_hi, arena_cur; /* descending bump arena (placement mode 1) */
static uint32_t fillx;
static void fill(void *p, size_t n)
{
    switch (W.memfill) {
    case 0: memset(p, 0, n); break;
    case 1: memset(p, 0xff, n); break;
    case 2: { uint8_t *b = p; for (size_t i = 0; i < n; ++i) { fillx = fillx * 1664525u + 1013904223u; b[i] = fillx >> 24; } break; }
    case 3: memset(p, 'A', n); break;
    case 4: memset(p, 0x01, n); break;
    case 5: memset(p, 0xaa, n); break;
    default: break; /* leave as is */
    }
}
static size_t usable(void *p)
{
    if ((uint64_t)p >= arena_lo && (uint64_t)p < arena_hi) return ((size_t *)p)[-1];
    return malloc_usable_size(p);
}
static void *raw_alloc(size_t n)
{
    if (W.memmode == 1) {
        if (!arena_lo) {
            size_t sz = 1ull << 31;
            void *a = mmap(NULL, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (a == MAP_FAILED) sim_stop("LIMIT:arena");
            arena_lo = (uint64_t)a; arena_hi = arena_lo + sz; arena_cur = arena_hi;
        }
        size_t need = (n + 16 + 15) & ~15ull;
        if (arena_cur - need < arena_lo) sim_stop("LIMIT:memory");
        arena_cur -= need;
        void *p = (void *)(arena_cur + 16);
        ((size_t *)p)[-1] = n;
        return p;
    }
    return malloc(n);
}
static void raw_free(void *p)
{
    if ((uint64_t)p >= arena_lo && (uint64_t)p < arena_hi) { memset(p, 0xdd, usable(p)); return; }
    free(p);
}
/* live set, only when asked for (memmode bit 8): finds what is not given back */
typedef struct { void *p; uint32_t seq; uint32_t n; void *ra; } Live;
static Live *live; static uint32_t livecap, liven, aseq;
static void live_add(void *p, size_t n, void *ra)
{
    if (!(W.memmode & 8)) return;
    if (!live) { livecap = 1 << 20; live = calloc(livecap, sizeof *live); }
    if (liven * 2 > livecap) return;
    uint32_t h = ((uintptr_t)p >> 4) * 2654435761u & (livecap - 1);
    while (live[h].p && live[h].p != (void *)1) h = (h + 1) & (livecap - 1);
    live[h] = (Live){ p, aseq++, (uint32_t)n, ra }; liven++;
}
static void live_del(void *p)
{
    if (!live) return;
    uint32_t h = ((uintptr_t)p >> 4) * 2654435761u & (livecap - 1);
    while (live[h].p) { if (live[h].p == p) { live[h].p = (void *)1; return; } h = (h + 1) & (livecap - 1); }
}
static void *do_alloc(int cls, size_t n, bool zero, void *ra)
{
    S->mallocs++;
#ifdef SIM_WORK
    sim_work(n);
#endif
    if (S->nfaults) {
        Fault *ft = fault_check(cls, NULL, (int64_t)n, 0, NULL);
        if (ft) { errno = ENOMEM; return NULL; }
    } else S->counts[cls]++;
    if (n > (1ull << 31)) { errno = ENOMEM; return NULL; }
    if (S->live_bytes + n > (3ull << 30)) sim_stop("LIMIT:memory");
    void *p = raw_alloc(n);
    if (!p) { errno = ENOMEM; return NULL; }
    size_t u = usable(p);
    if (zero) memset(p, 0, u); else fill(p, u);
    S->live_blocks++; S->live_bytes += u;
    if (S->live_bytes > S->peak_bytes) S->peak_bytes = S->live_bytes;
    if (W.memmode & 8) live_add(p, u, ra);
    return p;
}
void sim_free(void *p)
{
    if (!p) return;
    size_t u = usable(p);
    S->live_blocks--; S->live_bytes -= u;
    if (W.memmode & 8) live_del(p);
    if (W.memfill <= 5) fill(p, u);
    raw_free(p);
}
#define RA __builtin_return_address(0)
void *sim_malloc(size_t n) { return do_alloc(C_MALLOC, n, false, RA); }
void *sim_calloc(size_t a, size_t b) { if (b && a > SIZE_MAX / b) { errno = ENOMEM; return NULL; } return do_alloc(C_MALLOC, a * b, true, RA); }
static void *do_realloc(int cls, void *p, size_t n, void *ra)
{
    if (!p) return do_alloc(cls, n, false, ra);
    if (n == 0 && cls == C_MALLOC) { sim_free(p); return NULL; }
    void *q = do_alloc(cls, n, false, ra);
    if (!q) return NULL;
    size_t u = usable(p);
    memcpy(q, p, u < n ? u : n);
#ifdef SIM_WORK
    sim_work(u < n ? u : n);
#endif
    sim_free(p);
    return q;
}
void *sim_realloc(void *p, size_t n) { return do_realloc(C_MALLOC, p, n, RA); }
void *sim_reallocarray(void *p, size_t a, size_t b) { if (b && a > SIZE_MAX / b) { errno = ENOMEM; return NULL; } return do_realloc(C_MALLOC, p, a * b, RA); }
char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = do_alloc(C_MALLOC, n, false, RA); if (p) memcpy(p, s, n); return p; }
char *sim_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = do_alloc(C_MALLOC, n + 1, false, RA); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
int sim_vasprintf(char **o, const char *f, va_list a) { va_list b; va_copy(b, a); int n = vsnprintf(NULL, 0, f, b); va_end(b); *o = do_alloc(C_MALLOC, n + 1, false, RA); if (!*o) return -1; return vsnprintf(*o, n + 1, f, a); }
int sim_asprintf(char **o, const char *f, ...) { va_list a; va_start(a, f); int r = sim_vasprintf(o, f, a); va_end(a); return r; }
ssize_t sim_getdelim(char **l, size_t *n, int d, FILE *f)
{
    size_t k = 0; if (!*l) { *n = 128; *l = sim_malloc(*n); }
    int c; while ((c = fgetc(f)) != EOF) { if (k + 2 > *n) { *n *= 2; *l = sim_realloc(*l, *n); } (*l)[k++] = c; if (c == d) break; }
    if (!k) return -1;
    (*l)[k] = 0; return k;
}
ssize_t sim_getline(char **l, size_t *n, FILE *f) { return sim_getdelim(l, n, '\n', f); }
void *sim_memalign(size_t a, size_t n) { return sim_malloc(n); }

void *sim_xmalloc(size_t n) { return do_alloc(C_XMALLOC, n, false, RA); }
void *sim_xrealloc(void *p, size_t n) { return do_realloc(C_XMALLOC, p, n, RA); }
char *sim_xstrdup(const char *s) { size_t n = strlen(s) + 1; char *p = do_alloc(C_XMALLOC, n, false, RA); if (p) memcpy(p, s, n); return p; }

/* report blocks still alive (used by api.c after everything was freed): grouped by allocation site offset */
void sim_report_live(uint32_t since)
{
    if (!live) return;
    struct { void *ra; uint32_t n, bytes; } g[64]; int ng = 0;
    for (uint32_t i = 0; i < livecap; ++i) if (live[i].p && live[i].p != (void *)1 && live[i].seq >= since) {
        int k; for (k = 0; k < ng; ++k) if (g[k].ra == live[i].ra) break;
        if (k == ng) { if (ng == 64) continue; g[ng].ra = live[i].ra; g[ng].n = g[ng].bytes = 0; ng++; }
        g[k].n++; g[k].bytes += live[i].n;
    }
    for (int k = 0; k < ng; ++k) {
        Dl_info di; char t[200]; memset(&di, 0, sizeof di);
        uintptr_t off = (uintptr_t)g[k].ra - (uintptr_t)&__executable_start;
        if (dladdr(g[k].ra, &di) && di.dli_fname && strstr(di.dli_fname, ".so")) { const char *s = strrchr(di.dli_fname, '/'); snprintf(t, sizeof t, "%s:%s", s ? s + 1 : di.dli_fname, di.dli_sname ? di.dli_sname : "?"); }
        else snprintf(t, sizeof t, "exe:%s+0x%lx", di.dli_sname ? di.dli_sname : "?", (unsigned long)off);
        logs(EV_LEAK, g[k].n, g[k].bytes, t);
    }
}
uint32_t sim_alloc_seq(void) { return aseq; }
