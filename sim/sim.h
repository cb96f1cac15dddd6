/* Deterministic simulator for xmq: shared declarations. */
#ifndef SIM_H
#define SIM_H
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdbool.h>

/* ---- history log ---- */
enum {
    EV_OPEN = 1, EV_READ, EV_WRITE, EV_CLOSE, EV_SEEK, EV_FORK, EV_EXEC, EV_WAIT, EV_SYSTEM, EV_EXIT,
    EV_FAULT, EV_KILLED, EV_STOP, EV_TCSET, EV_ALARM, EV_SIGNAL, EV_TTYREAD, EV_RESULT, EV_FSOP, EV_OTHER,
    EV_ALLOCFAIL, EV_SIGACTION, EV_IOCTL, EV_CHILDEND, EV_SWITCH, EV_LEAK, EV_SLEEP
};
typedef struct { uint8_t type, pid; uint16_t x; int32_t a, b; uint32_t len; uint64_t t; } LogRec;

/* ---- fault classes ---- */
enum {
    C_OPEN_R = 0, C_OPEN_W, C_READ, C_WRITE, C_CLOSE, C_SEEK, C_FORK, C_EXEC, C_WAIT, C_MALLOC, C_XMALLOC,
    C_IOCTL, C_TCSET, C_TCGET, C_SYSTEM, C_SHRINK, C_STAT, NCLS
};
typedef struct {
    uint8_t cls;       /* which seam */
    uint8_t sticky;    /* keeps failing afterwards */
    uint8_t sig;       /* 1: also deliver the default fatal signal (SIGPIPE) */
    char path[120];    /* restrict to this path ("" = any) */
    int32_t nth;       /* fire at the nth matching call (0 based), -1 = by offset */
    int64_t off;       /* fire at this byte offset, -1 = by nth */
    int32_t err;       /* errno */
    int64_t arg;
    int32_t seen;
} Fault;

#define LOGMAX (48u << 20)
#define COVBITS 65536
#define MAXFAULT 64
typedef struct {
    uint32_t log_used, overflow;
    uint64_t now_us, steps;
    uint32_t events;
    uint32_t counts[NCLS];
    uint32_t fired[MAXFAULT];
    Fault faults[MAXFAULT];
    uint32_t nfaults;
    int32_t next_pid;
    struct { int32_t pid; uint8_t execed, reaped; int32_t status; uint64_t end; } kids[4096];
    uint32_t nkids;
    uint32_t execs;
    uint32_t tty_pos;        /* next terminal event */
    uint32_t tty_off;
    uint32_t preempts;
    uint64_t mallocs, live_blocks, live_bytes, peak_bytes;
    uint8_t cov[COVBITS / 8];
    uint8_t log[LOGMAX];
} Shared;
extern Shared *S;

void sim_log(int type, int a, int b, const void *data, size_t len);
void sim_stop(const char *why) __attribute__((noreturn)); /* give up this run: HANG:..., LIMIT:... */
void sim_die(void) __attribute__((noreturn));

/* ---- the world described by a request ---- */
typedef struct { char *path; int kind; int rerr, werr; char *data; size_t size, cap; uint32_t id; bool exists; size_t taken; } Node;
enum { K_FILE = 0, K_DIR = 1, K_FIFO = 2, K_TTY = 3 };
typedef struct { uint64_t at; int kind; const char *data; uint32_t len; } TtyEvent; /* kind 0 bytes 1 hangup(eof) 2 hangup(EIO) 3 EINTR */

typedef struct {
    int argc; char **argv;
    int envc; char **envp;
    Node *nodes; int nnodes, capnodes;
    int stdin_kind; const char *stdin_data; size_t stdin_len;   /* 0 pipe 1 tty 2 closed 3 regular file */
    int stdout_kind;                                               /* 0 pipe 1 tty 2 file */
    uint32_t stdout_buf;
    uint32_t *rchunk; int nrchunk; uint32_t *wchunk; int nwchunk;
    TtyEvent *tty; int ntty;
    int ws_rows, ws_cols;
    int64_t epoch; uint32_t salt;   /* what the clock shows, what chance gives */
    uint32_t memfill; uint32_t memmode;
    int64_t crash_event; int64_t crash_part;
    uint64_t max_steps; uint32_t max_events; uint64_t max_bytes;
    struct { int code; uint32_t ms; } *shells; int nshells;
    int api_threads; const uint8_t *api; size_t api_len;
    uint64_t sched_seed; uint32_t sched_mode, sched_slice; uint32_t *preempt; int npreempt;
    uint32_t lflag;
    uint32_t api_repeat;
} World;
extern World W;

/* threads (api.c) */
extern volatile int sim_threads_on;
void sim_preempt_point(void);
void sim_api_main(void);

void sim_streams_init(void);
extern FILE *sim_stdin, *sim_stdout, *sim_stderr;
extern char **sim_environ;
void sim_exit(int code) __attribute__((noreturn));
void *sim_malloc(size_t n);
void sim_free(void *p);
uint64_t sim_now(void);
int sim_open_fds(void);
void cpu_limit(void);
#endif
