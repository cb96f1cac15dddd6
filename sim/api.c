/* Caller programs against the public library API, one or several caller threads under a seeded scheduler. */
#define _GNU_SOURCE
#include "sim.h"
#include "xmq.h"
#include <libxml/parser.h>
#include <libxml/xmlerror.h>
#include <libxslt/xslt.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

void xmqSetStateSourceName(XMQParseState *state, const char *source_name);
const char *xmqParseErrorToString(XMQParseError e);
char *xmqLinePrintf(XMQLineConfig *lc, const char *, ...);
uint32_t sim_alloc_seq(void);
void sim_report_live(uint32_t since);

#define MAXT 8
#define MAXOPS 4096
typedef struct { const char *s; uint32_t n; } Arg;
typedef struct { int code; int argc; Arg a[12]; int idx; } Op;
static Op *ops[MAXT]; static int nops[MAXT];
static XMQDoc *slots[MAXT][16];
static XMQDoc *gslots[MAXT][16];

/* result text */
typedef struct { char *d; size_t n, cap; } Buf;
static void bput(Buf *b, const void *p, size_t n) { if (b->n + n + 1 > b->cap) { b->cap = (b->n + n + 1) * 2; b->d = realloc(b->d, b->cap); } memcpy(b->d + b->n, p, n); b->n += n; b->d[b->n] = 0; }
static void bs(Buf *b, const char *s) { if (!s) s = "(null)"; bput(b, s, strlen(s)); }
static void bi(Buf *b, long long v) { char t[40]; snprintf(t, sizeof t, "%lld", v); bs(b, t); }

static long num(Op *o, int i) { return i < o->argc ? strtol(o->a[i].s, NULL, 10) : 0; }
static const char *str(Op *o, int i) { return i < o->argc && o->a[i].n ? o->a[i].s : NULL; }

/* ---- scheduler ---- */
volatile int sim_threads_on;
static pthread_t th[MAXT]; static sem_t sem[MAXT], done_sem; static int alive[MAXT]; static int nthreads;
static __thread int me = -1;
static uint64_t next_switch; static uint32_t rng; static uint32_t pre_i;
static int holding; /* threads_on only counts code run by the current baton holder */
static uint32_t rnd(void) { rng ^= rng << 13; rng ^= rng >> 17; rng ^= rng << 5; return rng; }
static void pick_next(void)
{
    if (W.sched_mode == 1) { next_switch = pre_i < (uint32_t)W.npreempt ? ((uint64_t)W.preempt[pre_i * 3]) | ((uint64_t)W.preempt[pre_i * 3 + 1] << 32) : UINT64_MAX; return; }
    uint32_t m = W.sched_slice ? W.sched_slice : 100;
    /* mixture of short and long slices around the mean */
    uint32_t r = rnd(), k;
    if ((r & 7) == 0) k = 1 + rnd() % 8; else if ((r & 7) == 1) k = 1 + rnd() % (m * 10); else k = 1 + rnd() % (m * 2);
    next_switch = S->steps + k;
}
static void switch_to(int t)
{
    if (t == me) return;
    int self = me;
    sem_post(&sem[t]);
    sem_wait(&sem[self]);
}
void sim_preempt_point(void)
{
    if (me < 0 || S->steps < next_switch) return;
    int to = me;
    if (W.sched_mode == 1) { to = (int)W.preempt[pre_i * 3 + 2]; pre_i++; if (to < 0 || to >= nthreads || !alive[to]) to = me; }
    else { int c = 0; for (int i = 0; i < nthreads; ++i) c += alive[i]; if (c > 1) { int k = rnd() % (c - 1); for (int i = 0; i < nthreads; ++i) if (alive[i] && i != me) { if (k-- == 0) { to = i; break; } } } }
    pick_next();
    if (to != me) { S->preempts++; uint64_t st = S->steps; sim_log(EV_SWITCH, to, me, &st, 8); switch_to(to); }
}

/* ---- callbacks ---- */
typedef struct { Buf *b; int stop_after; int seen; XMQDoc *doc; const char *rel; } Fe;
static XMQProceed fe_cb(XMQDoc *doc, XMQNode *node, void *u)
{
    Fe *f = u;
    bs(f->b, "<"); bs(f->b, xmqGetName(node)); bs(f->b, "="); bs(f->b, xmqGetContent(node));
    if (f->rel) { bs(f->b, "|"); bs(f->b, xmqGetStringRel(doc, f->rel, node)); bs(f->b, "|"); bi(f->b, xmqForeachRel(doc, f->rel, NULL, NULL, node)); }
    bs(f->b, ">");
    f->seen++;
    return f->stop_after && f->seen >= f->stop_after ? XMQ_STOP : XMQ_CONTINUE;
}
typedef struct { Buf *b; long fail_at; long n; Buf out; long bad; } Wr;
static bool w_cb(void *st, const char *start, const char *stop)
{
    Wr *w = st;
    w->n++;
    if (!start) return true; /* the library's own writers accept an absent piece */
    if (stop && stop < start) { w->bad++; return false; }
    if (w->fail_at && w->n >= w->fail_at) return false;
    bput(&w->out, start, stop ? (size_t)(stop - start) : strlen(start));
    return true;
}

static char *exact(const char *s, size_t n)
{
    /* an exact sized copy so that reads beyond the end are seen by the memory checker */
    char *p = malloc(n ? n : 1);
    memcpy(p, s, n);
    return p;
}

static void err_of(Buf *b, XMQDoc *d) { bs(b, " errno="); bi(b, xmqDocErrno(d)); bs(b, " err="); bs(b, xmqDocError(d)); }

static void run_op(int t, Op *o, Buf *b)
{
    XMQDoc **sl = slots[t];
    long k = num(o, 0) & 15;
    switch (o->code) {
    case 1: if (sl[k]) xmqFreeDoc(sl[k]); sl[k] = xmqNewDoc(); bs(b, "new"); break;
    case 2: { /* slot data type root flags [setname] */
        if (!sl[k]) break;
        char *c = exact(o->a[1].s, o->a[1].n);
        if (str(o, 5)) xmqSetDocSourceName(sl[k], str(o, 5));
        bool ok = xmqParseBufferWithType(sl[k], c, c + o->a[1].n, str(o, 3), (XMQContentType)num(o, 2), (int)num(o, 4));
        bs(b, ok ? "ok" : "fail"); err_of(b, sl[k]);
        if (ok) { bs(b, " type="); bi(b, xmqGetOriginalContentType(sl[k])); bs(b, " root="); bs(b, xmqGetRootNode(sl[k]) ? "y" : "n"); }
        free(c); break; }
    case 3: { /* slot path type root flags */
        if (!sl[k]) break;
        bool ok = xmqParseFileWithType(sl[k], str(o, 1), str(o, 3), (XMQContentType)num(o, 2), (int)num(o, 4));
        bs(b, ok ? "ok" : "fail"); err_of(b, sl[k]);
        if (ok) { bs(b, " type="); bi(b, xmqGetOriginalContentType(sl[k])); bs(b, " size="); bi(b, xmqGetOriginalSize(sl[k])); }
        break; }
    case 4: { if (!sl[k]) break;
        char *c = exact(o->a[1].s, o->a[1].n);
        bool ok = xmqParseBuffer(sl[k], c, c + o->a[1].n, str(o, 2), (int)num(o, 3));
        bs(b, ok ? "ok" : "fail"); err_of(b, sl[k]); free(c); break; }
    case 18: { if (!sl[k]) break;
        bool ok = xmqParseFile(sl[k], str(o, 1), str(o, 2), (int)num(o, 3));
        bs(b, ok ? "ok" : "fail"); err_of(b, sl[k]); break; }
    case 5: { /* slot data grammar flags gslot */
        if (!sl[k]) break;
        long g = num(o, 4) & 15;
        if (!gslots[t][g]) {
            XMQDoc *gd = xmqNewDoc();
            xmqSetDocSourceName(gd, "g.ixml");
            char *c = exact(o->a[2].s, o->a[2].n);
            bool gok = xmqParseBufferWithType(gd, c, c + o->a[2].n, NULL, XMQ_CONTENT_IXML, 0);
            bs(b, gok ? "g:ok " : "g:fail "); if (!gok) err_of(b, gd);
            if (!gok) { xmqFreeDoc(gd); free(c); break; }
            /* the grammar may refer to its text until it is used */
            char *d = exact(o->a[1].s, o->a[1].n);
            bool ok = xmqParseBufferWithIXML(sl[k], d, d + o->a[1].n, gd, (int)num(o, 3));
            bs(b, ok ? "ok" : "fail"); err_of(b, sl[k]);
            free(d); free(c); xmqFreeDoc(gd);
        }
        break; }
    case 19: { /* file with ixml: slot path grammar flags */
        if (!sl[k]) break;
        XMQDoc *gd = xmqNewDoc();
        xmqSetDocSourceName(gd, "g.ixml");
        char *c = exact(o->a[2].s, o->a[2].n);
        bool gok = xmqParseBufferWithType(gd, c, c + o->a[2].n, NULL, XMQ_CONTENT_IXML, 0);
        bs(b, gok ? "g:ok " : "g:fail "); if (!gok) err_of(b, gd);
        if (gok) { bool ok = xmqParseFileWithIXML(sl[k], str(o, 1), gd, (int)num(o, 3)); bs(b, ok ? "ok" : "fail"); err_of(b, sl[k]); }
        free(c); xmqFreeDoc(gd);
        break; }
    case 6: { /* slot format render bits indent theme writer fail_at id class */
        if (!sl[k]) break;
        long bits = num(o, 3), wk = num(o, 6);
        XMQOutputSettings *s = xmqNewOutputSettings();
        xmqSetCompact(s, bits & 1); xmqSetEscapeNewlines(s, bits & 2); xmqSetEscapeNon7bit(s, bits & 4); xmqSetEscapeTabs(s, bits & 8);
        xmqSetUseColor(s, bits & 16); xmqSetBackgroundMode(s, bits & 32); xmqSetOmitDecl(s, bits & 64); xmqSetRenderRaw(s, bits & 128); xmqSetRenderOnlyStyle(s, bits & 256);
        xmqSetAddIndent(s, (int)num(o, 4));
        xmqSetOutputFormat(s, (XMQContentType)num(o, 1)); xmqSetRenderFormat(s, (XMQRenderFormat)num(o, 2));
        if (str(o, 8) || str(o, 9)) xmqRenderHtmlSettings(s, str(o, 8), str(o, 9));
        xmqSetRenderTheme(s, str(o, 5));
        xmqSetupDefaultColors(s);
        if (wk == 0) {
            char *st = NULL, *en = NULL; size_t skip = 0;
            xmqSetupPrintMemory(s, &st, &en); xmqSetupPrintSkip(s, &skip);
            xmqPrint(sl[k], s);
            if (st) bput(b, st + skip, en - st - skip); else bs(b, "(none)");
            sim_free(st);
        } else if (wk == 1) {
            Wr w; memset(&w, 0, sizeof w); w.fail_at = num(o, 7);
            XMQWriter x = { &w, w_cb };
            xmqSetWriterContent(s, x); xmqSetWriterError(s, x);
            xmqPrint(sl[k], s);
            bput(b, w.out.d ? w.out.d : "", w.out.n);
            if (w.bad) bs(b, "(BADRANGE)");
            free(w.out.d);
        } else {
            xmqSetupPrintStdOutStdErr(s);
            xmqPrint(sl[k], s);
            fflush(sim_stdout);
            bs(b, "(stdout)");
        }
        xmqFreeOutputSettings(s);
        break; }
    case 7: if (sl[k]) xmqFreeDoc(sl[k]); sl[k] = NULL; bs(b, "free"); break;
    case 8: { if (!sl[k]) break;
        Fe f = { b, (int)num(o, 2), 0, sl[k], str(o, 3) };
        int n = xmqForeach(sl[k], o->argc > 1 ? o->a[1].s : "", fe_cb, &f); bs(b, " n="); bi(b, n); break; }
    case 9: { if (!sl[k]) break;
        const char *xp = o->argc > 2 ? o->a[2].s : "";
        switch (num(o, 1)) {
        case 0: bi(b, xmqGetInt(sl[k], xp)); break;
        case 1: bi(b, xmqGetLong(sl[k], xp)); break;
        case 2: { double d = xmqGetDouble(sl[k], xp); char z[64]; snprintf(z, sizeof z, "%.17g", d); bs(b, z); break; }
        case 3: bs(b, xmqGetString(sl[k], xp)); break;
        }
        break; }
    case 10: case 11: { /* tokenize data/path kind render bits */
        long kind = num(o, 1);
        XMQOutputSettings *s = xmqNewOutputSettings();
        char *st = NULL, *en = NULL; size_t skip = 0;
        xmqSetupPrintMemory(s, &st, &en); xmqSetupPrintSkip(s, &skip);
        XMQParseCallbacks *cb = xmqNewParseCallbacks();
        if (kind == 0) { xmqSetRenderFormat(s, (XMQRenderFormat)num(o, 2)); xmqSetUseColor(s, num(o, 3) & 16); xmqSetBackgroundMode(s, num(o, 3) & 32); xmqSetupDefaultColors(s); xmqSetupParseCallbacksColorizeTokens(cb, (XMQRenderFormat)num(o, 2)); }
        else if (kind == 1) xmqSetupParseCallbacksDebugTokens(cb);
        else xmqSetupParseCallbacksDebugContent(cb);
        XMQParseState *ps = xmqNewParseState(cb, s);
        bool ok;
        if (o->code == 10) { char *c = exact(o->a[0].s, o->a[0].n); ok = xmqTokenizeBuffer(ps, c, c + o->a[0].n);
            bs(b, ok ? "ok" : "fail"); if (!ok) { bs(b, " errno="); bi(b, xmqStateErrno(ps)); bs(b, " msg="); bs(b, xmqStateErrorMsg(ps)); } free(c); }
        else { ok = xmqTokenizeFile(ps, str(o, 0)); bs(b, ok ? "ok" : "fail"); if (!ok) { bs(b, " errno="); bi(b, xmqStateErrno(ps)); if (xmqStateErrno(ps)) { bs(b, " msg="); bs(b, xmqStateErrorMsg(ps)); } } }
        xmqFreeParseState(ps); xmqFreeParseCallbacks(cb);
        bs(b, " out="); if (st) bput(b, st, en - st);
        sim_free(st);
        xmqFreeOutputSettings(s);
        break; }
    case 12: { char *q = xmqCompactQuote(o->a[0].s); bs(b, q); sim_free(q); break; }
    case 13: if (!sl[k]) break; xmqTrimWhitespace(sl[k], (int)num(o, 1)); bs(b, "trim"); break;
    case 14: if (!sl[k]) break; err_of(b, sl[k]); break;
    case 15: { /* key text number style text2: style 1 object, 2 human readable, 4 three texts, 8 neither { nor = */
        XMQLineConfig *lc = xmqNewLineConfig();
        long st = num(o, 3); int n = (int)num(o, 2); const char *t = o->a[1].s, *t2 = o->argc > 4 ? o->a[4].s : "";
        if (st & 2) xmqSetLineHumanReadable(lc, true);
        char key[200]; snprintf(key, sizeof key, "%s%s", o->a[0].s, st & 8 ? " %d %s %s." : st & 1 ? "{" : "=");
        char *l = st & 8 ? xmqLinePrintf(lc, key, n, t, t2)
            : st & 1 ? st & 4 ? xmqLinePrintf(lc, key, "a=", "%s", t, "b=", "%s", t2, "c=", "%s%s", t, t2, NULL)
                : xmqLinePrintf(lc, key, "text=", "%s", t, "num=", "%d", n, "both=", "%d%s%d", n, t, n + 1, "}")
            : xmqLinePrintf(lc, key, "%d%s%d", n, t, n + 1);
        bs(b, l); sim_free(l); xmqFreeLineConfig(lc); break; }
    case 16: { char *c = exact(o->a[0].s, o->a[0].n); bi(b, xmqDetectContentType(c, c + o->a[0].n)); free(c); break; }
    case 17: bs(b, xmqParseErrorToString((XMQParseError)num(o, 0))); break;
    }
}

static void run_thread(int t)
{
    for (int i = 0; i < nops[t]; ++i) {
        Buf b = { 0 };
        run_op(t, &ops[t][i], &b);
        sim_log(EV_RESULT, t, ops[t][i].idx, b.d ? b.d : "", b.n);
        free(b.d);
    }
    for (int k = 0; k < 16; ++k) if (slots[t][k]) { xmqFreeDoc(slots[t][k]); slots[t][k] = NULL; }
    xmlResetLastError();
}
static void *th_main(void *a)
{
    int t = (int)(intptr_t)a;
    sem_wait(&sem[t]);
    me = t;
    run_thread(t);
    alive[t] = 0;
    me = -1;
    int to = -1;
    for (int i = 0; i < nthreads; ++i) if (alive[i]) { to = i; break; }
    if (to < 0) sem_post(&done_sem); else sem_post(&sem[to]);
    return NULL;
}

static uint32_t g32(const uint8_t **p) { uint32_t v; memcpy(&v, *p, 4); *p += 4; return v; }
void sim_api_main(void)
{
    const uint8_t *p = W.api, *end = p + W.api_len;
    for (int t = 0; t < MAXT; ++t) ops[t] = calloc(MAXOPS, sizeof(Op));
    while (p < end) {
        int t = *p++ % MAXT, code = *p++, argc = *p++;
        Op tmp; memset(&tmp, 0, sizeof tmp); tmp.code = code;
        for (int i = 0; i < argc; ++i) { uint32_t n = g32(&p); char *s = malloc(n + 1); memcpy(s, p, n); s[n] = 0; p += n; if (i < 12) { tmp.a[i].s = s; tmp.a[i].n = n; tmp.argc = i + 1; } }
        if (nops[t] < MAXOPS) { tmp.idx = nops[t]; ops[t][nops[t]++] = tmp; }
    }
    nthreads = W.api_threads;
    uint32_t rep = W.api_repeat ? W.api_repeat : 1;
    if (nthreads == 1) {
        for (uint32_t r = 0; r < rep; ++r) {
            uint64_t b0 = S->live_blocks, y0 = S->live_bytes; uint32_t sq = sim_alloc_seq(); int f0 = sim_open_fds();
            run_thread(0);
            char t[120]; snprintf(t, sizeof t, "%u blocks=%lld bytes=%lld fds=%d", r, (long long)(S->live_blocks - b0), (long long)(S->live_bytes - y0), sim_open_fds() - f0);
            sim_log(EV_LEAK, 0, r, t, strlen(t));
            if (r + 1 == rep && rep > 1) sim_report_live(sq);
        }
        return;
    }
    rng = (uint32_t)W.sched_seed * 2654435761u ^ 0x9e3779b9u; if (!rng) rng = 1;
    sem_init(&done_sem, 0, 0);
    for (int t = 0; t < nthreads; ++t) { sem_init(&sem[t], 0, 0); alive[t] = 1; }
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 8 << 20);
    for (int t = 0; t < nthreads; ++t) if (pthread_create(&th[t], &at, th_main, (void *)(intptr_t)t)) sim_stop("LIMIT:pthread");
    pick_next();
    sim_threads_on = 1;
    int first = W.sched_mode == 1 ? 0 : rnd() % nthreads;
    if (W.sched_mode == 1 && W.npreempt > 0 && W.preempt[0] == 0 && W.preempt[1] == 0) { first = W.preempt[2]; pre_i = 1; pick_next(); }
    else { uint64_t z = 0; sim_log(EV_SWITCH, first, -1, &z, 8); }
    sem_post(&sem[first]);
    sem_wait(&done_sem);
    sim_threads_on = 0;
    for (int t = 0; t < nthreads; ++t) pthread_join(th[t], NULL);
}
