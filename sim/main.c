/* simserver: reads scenario requests on stdin, executes each in a forked simulated process, answers on stdout. */
#define _GNU_SOURCE
#include "sim.h"
#include <errno.h>
#include <fcntl.h>
#include <libxml/parser.h>
#include <libxml/xmlIO.h>
#include <libxml/xmlmemory.h>
#include <libxslt/xslt.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

int xmq_cli_main(int argc, const char **argv);
void *sim_xmalloc(size_t); void *sim_xrealloc(void *, size_t); char *sim_xstrdup(const char *);
FILE *sim_fopen(const char *, const char *); int sim_fclose(FILE *);
int sim_open(const char *, int, ...); ssize_t sim_read(int, void *, size_t); int sim_close(int);

/* libxml2's own file access goes to the simulated world as well */
static int xio_match(const char *n) { return 1; }
static void *xio_open(const char *n) { if (!strncmp(n, "file://", 7)) n += 7; int fd = sim_open(n, O_RDONLY); return fd < 0 ? NULL : (void *)(intptr_t)(fd + 1); }
static int xio_read(void *c, char *b, int n) { return (int)sim_read((int)(intptr_t)c - 1, b, n); }
static int xio_close(void *c) { return sim_close((int)(intptr_t)c - 1); }

static bool rd(void *b, size_t n) { char *p = b; while (n) { ssize_t r = read(0, p, n); if (r <= 0) return false; p += r; n -= r; } return true; }
static void wr(const void *b, size_t n) { const char *p = b; while (n) { ssize_t r = write(1, p, n); if (r <= 0) _exit(3); p += r; n -= r; } }

static void __attribute__((noinline)) scribble_stack(uint32_t mode)
{
    volatile unsigned char buf[400000];
    unsigned char v = mode == 0 ? 0 : mode == 1 ? 0xff : mode == 3 ? 'A' : mode == 4 ? 1 : 0xaa;
    uint32_t x = 99;
    for (size_t i = 0; i < sizeof buf; ++i) { if (mode == 2) { x = x * 1664525u + 1013904223u; v = x >> 24; } buf[i] = v; }
}

static uint32_t u32(const uint8_t **p) { uint32_t v; memcpy(&v, *p, 4); *p += 4; return v; }
static int64_t i64(const uint8_t **p) { int64_t v; memcpy(&v, *p, 8); *p += 8; return v; }

static void decode(uint8_t *req, size_t len)
{
    memset(&W, 0, sizeof W);
    W.crash_event = -1; W.crash_part = -1; W.max_steps = 50000000; W.max_events = 200000; W.max_bytes = 64u << 20;
    W.ws_rows = 24; W.ws_cols = 80; W.memfill = 99;
    W.argv = calloc(4096, sizeof(char *)); W.envp = calloc(4096, sizeof(char *));
    W.capnodes = 4096; W.nodes = calloc(W.capnodes, sizeof(Node));
    W.tty = calloc(65536, sizeof(TtyEvent));
    W.shells = calloc(4096, sizeof *W.shells);
    const uint8_t *p = req, *end = req + len;
    while (p < end) {
        uint8_t t = *p++;
        uint32_t n = u32(&p);
        const uint8_t *d = p; p += n;
        switch (t) {
        case 'A': W.argv[W.argc++] = strndup((char *)d, n); break;
        case 'E': W.envp[W.envc++] = strndup((char *)d, n); break;
        case 'F': {
            Node *f = &W.nodes[W.nnodes++];
            const uint8_t *q = d;
            f->kind = (int)u32(&q); f->rerr = (int)u32(&q); f->werr = (int)u32(&q);
            uint32_t pl = u32(&q);
            f->path = strndup((char *)q, pl); q += pl;
            f->size = f->cap = n - (q - d); f->data = malloc(f->size + 1); memcpy(f->data, q, f->size);
            f->exists = true; f->id = W.nnodes;
            break; }
        case 'I': W.stdin_kind = d[0]; W.stdin_data = (char *)malloc(n); memcpy((char *)W.stdin_data, d + 1, n - 1); W.stdin_len = n - 1; break;
        case 'O': { const uint8_t *q = d; W.stdout_kind = u32(&q); W.stdout_buf = u32(&q); W.lflag = u32(&q); break; }
        case 'X': {
            const uint8_t *q = d; if (S->nfaults >= MAXFAULT) break;
            Fault *f = &S->faults[S->nfaults++];
            memset(f, 0, sizeof *f);
            f->cls = u32(&q); f->sticky = u32(&q); f->sig = u32(&q); f->nth = (int32_t)u32(&q); f->err = u32(&q);
            f->off = i64(&q); f->arg = i64(&q);
            uint32_t k = n - (q - d); if (k > 119) k = 119; memcpy(f->path, q, k);
            break; }
        case 'R': W.nrchunk = n / 4; W.rchunk = malloc(n + 4); memcpy(W.rchunk, d, n); break;
        case 'w': W.nwchunk = n / 4; W.wchunk = malloc(n + 4); memcpy(W.wchunk, d, n); break;
        case 'T': { const uint8_t *q = d; TtyEvent *e = &W.tty[W.ntty++]; e->at = i64(&q); e->kind = u32(&q); e->len = n - 12; char *x = malloc(e->len + 1); memcpy(x, q, e->len); e->data = x; break; }
        case 'N': { const uint8_t *q = d; W.epoch = i64(&q); W.salt = u32(&q); break; }
        case 'S': { const uint8_t *q = d; W.ws_rows = u32(&q); W.ws_cols = u32(&q); break; }
        case 'M': { const uint8_t *q = d; W.memfill = u32(&q); W.memmode = u32(&q); break; }
        case 'K': { const uint8_t *q = d; W.crash_event = i64(&q); W.crash_part = i64(&q); break; }
        case 'L': { const uint8_t *q = d; W.max_steps = i64(&q); W.max_events = i64(&q); W.max_bytes = i64(&q); break; }
        case 'H': { const uint8_t *q = d; W.shells[W.nshells].code = u32(&q); W.shells[W.nshells].ms = u32(&q); W.nshells++; break; }
        case 'P': { const uint8_t *q = d; W.api_threads = u32(&q); W.sched_mode = u32(&q); W.sched_slice = u32(&q); W.api_repeat = u32(&q); W.sched_seed = i64(&q); break; }
        case 'p': W.npreempt = n / 12; W.preempt = malloc(n + 4); memcpy(W.preempt, d, n); break;
        case 'Q': { uint8_t *x = malloc(n + 1); memcpy(x, d, n); W.api = x; W.api_len = n; break; }
        }
    }
}

static void run_child(uint8_t *req, size_t len)
{
    decode(req, len);
    sim_environ = W.envp;
    sim_streams_init();
    stderr = sim_stderr; /* libxml2's default error output */
    stdout = sim_stdout;
    scribble_stack(W.memfill);
    if (W.api_threads) { sim_api_main(); sim_exit(0); }
    sim_exit(xmq_cli_main(W.argc, (const char **)W.argv));
}

int main(int argc, char **argv)
{
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_NO_REEXEC")) {
        personality(ADDR_NO_RANDOMIZE); setenv("SIM_NO_REEXEC", "1", 1); execv("/proc/self/exe", argv);
    }
    struct rlimit rl = { 0, 0 };
    setrlimit(RLIMIT_CORE, &rl);
    signal(SIGPIPE, SIG_IGN);
    xmlMemSetup(sim_free, sim_xmalloc, sim_xrealloc, sim_xstrdup);
    S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    S->next_pid = 1001;
    W.max_steps = UINT64_MAX; W.memfill = 99;
    xmlInitParser();
    xsltInit();
    xmlRegisterInputCallbacks(xio_match, xio_open, xio_read, xio_close);
    int errfd = memfd_create("err", 0);
    int null = open("/dev/null", O_WRONLY);
    (void)null;
    for (;;) {
        uint32_t len;
        if (!rd(&len, 4)) return 0;
        uint8_t *req = malloc(len + 1);
        if (!rd(req, len)) return 0;
        /* reset the shared part */
        memset(S, 0, offsetof(Shared, log));
        S->next_pid = 1001;
        if (ftruncate(errfd, 0)) {}
        lseek(errfd, 0, SEEK_SET);
        int pid = fork();
        if (pid == 0) {
            dup2(errfd, 2); dup2(null, 1);
            close(0);
            cpu_limit();
            run_child(req, len);
            _exit(0);
        }
        int st = 0;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
        free(req);
        char err[8192]; ssize_t en = 0;
        off_t esz = lseek(errfd, 0, SEEK_END);
        if (esz > 0) { en = pread(errfd, err, sizeof err, 0); if (en < 0) en = 0; }
        struct { int32_t status; uint32_t events; uint64_t now, steps; uint32_t counts[NCLS]; uint32_t fired[MAXFAULT]; uint32_t nkids, preempts; uint64_t mallocs, live_blocks, live_bytes, peak; uint32_t errlen, loglen; } h;
        memset(&h, 0, sizeof h);
        h.status = st; h.events = S->events; h.now = sim_now(); h.steps = S->steps;
        memcpy(h.counts, S->counts, sizeof h.counts); memcpy(h.fired, S->fired, sizeof h.fired);
        h.nkids = S->nkids; h.preempts = S->preempts; h.mallocs = S->mallocs; h.live_blocks = S->live_blocks; h.live_bytes = S->live_bytes; h.peak = S->peak_bytes;
        h.errlen = en; h.loglen = S->log_used;
        uint32_t total = sizeof h + sizeof S->cov + en + S->log_used;
        wr(&total, 4); wr(&h, sizeof h); wr(S->cov, sizeof S->cov); wr(err, en); wr(S->log, S->log_used);
        if (S->log_used > (4u << 20)) madvise(S->log, LOGMAX, MADV_REMOVE);
    }
}
