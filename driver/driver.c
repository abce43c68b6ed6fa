/* Conformance driver: executes operation scripts against the real EmbedDB
 * sources on an in-memory storage device that can crash or fail at any storage
 * call, and records one JSON event per operation (a forest: crash and fault
 * branches are explored in forked children).  It contains no expected results:
 * every recorded event is judged by TLC against the TLA+ specification. */
#define _GNU_SOURCE
#undef malloc
#undef calloc
#undef realloc
#undef free
#include <errno.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include "mem.h"
#ifdef DISTB
#include "embedDB.h"
#else
#include "embedDB/embedDB.h"
#include "embedDBUtility.h"
#endif
#ifdef REALFILES
#include "desktopFileInterface.h"
#endif

#define MAXI 4
#define MAXRANK 6000
#define BAD (-2000000001)
#define SHORT (-7)
#define NSLOT 8

/* ---------- shared memory ---------- */
typedef struct {
    volatile int nextNode;
    volatile int lastNode[64]; /* per fork depth: last node emitted */
    volatile int hung; /* children that used up their processor time */
    char doing[64][200];
} shared_t;
static shared_t *sh;
static int depth = 0;
static int outfd;
static int traceId;
static int parentNode = 0;

/* ---------- device ---------- */
typedef struct {
    uint8_t *data;      /* npages*ps bytes */
    uint8_t *flushed;   /* image at last flush */
    uint8_t *wr, *fwr;  /* which pages hold what was written (not erased since) */
    int32_t ext, fext;  /* pages [0,ext) readable */
    int exists, fexists;
    uint32_t npages;
} dfile_t;
typedef struct { int f, kind, a, b, c; } mut_t;

typedef struct {
    int id;
    /* configuration */
    int ks, ds, ps, N, E, NI, NV, buf, flags, spl, err, bm, cmp, erase, nofile, cache;
    uint64_t keys[MAXRANK];
    int noopen;
    int nkeys;
    int keymax;
    int open;
    embedDBState *st;
    dfile_t f[3]; uint32_t hb[3];
    uint32_t rd[3], wrt[3], n0; /* transfers that succeeded since the statistics were reset */
    int last;
} inst_t;
static inst_t I[MAXI];

static mut_t muts[4096];
static int nmuts;
static int crashAt = -1;
static jmp_buf crashJmp;
static int crashArmed = 0, ncr = 0;
static int lossMask = 0;    /* the files that lose what was not flushed in the crash */
static long failAt = -1, failLen = 1, failMask = 7, failCnt = 0;
static int failHit = 0, syncFailed = 0;
static int snapMax = 100000;

typedef struct { inst_t *in; int f, opened; } fh_t;
static fh_t FH[MAXI][3];

static int fault(int kind) {
    if (failAt < 0 || !(failMask & kind)) return 0;
    long c = failCnt++;
    if (c >= failAt && c < failAt + failLen) { failHit = 1; return 1; }
    return 0;
}
/* a storage call the store may crash before; flushes matter only if unflushed pages may be lost */
static void crashPoint(int isFlush) {
    if (isFlush && !lossMask) return;
    if (crashArmed && ncr >= crashAt) longjmp(crashJmp, 1);
    ncr++;
}
/* kind 0: page written, 1: pages erased, 2: file created, 3: file flushed */
static void mutate(int f, int kind, long a, long b, long c) {
    crashPoint(kind == 3);
    if (nmuts < 4096) {
        mut_t *m = &muts[nmuts];
        m->f = f; m->kind = kind;
        m->a = a > 2147483647L ? -1 : (int)a; m->b = b > 2147483647L ? -1 : (int)b; m->c = (int)c;
    }
    nmuts++;
    if (nmuts > snapMax) { fprintf(stderr, "too many mutations\n"); abort(); }
}
static int8_t d_open(void *file, uint8_t mode) {
    fh_t *h = file; dfile_t *d = &h->in->f[h->f];
    if (h->opened) abort(); /* opened twice without being closed */
    if (h->in->noopen >> h->f & 1) return 0;
    if (mode == EMBEDDB_FILE_MODE_W_PLUS_B) {
        mutate(h->f, 2, 0, 0, 0);
        d->exists = d->fexists = 1; d->ext = d->fext = 0; h->in->hb[h->f] = 0; /* creating a file is durable at once */ memset(d->data, 0x77, (size_t)d->npages * h->in->ps); memset(d->wr, 0, d->npages); memset(d->fwr, 0, d->npages);
        return h->opened = 1;
    }
    if (!d->exists) return 0;
    return h->opened = 1;
}
static int8_t d_close(void *file) { fh_t *h = file; if (!h->opened) abort(); h->opened = 0; return 1; }
static int filesOpen(inst_t *in) { int m = 0; for (int f = 0; f < 3; f++) m |= FH[in->id][f].opened << f; return m; }
/* the process using the instance is gone: its memory and open files with it */
static void gone(inst_t *in) { in->open = 0; for (int f = 0; f < 3; f++) FH[in->id][f].opened = 0; memForget(in->id); }
static int8_t d_flush(void *file) {
    fh_t *h = file; dfile_t *d = &h->in->f[h->f];
    if (!h->opened) abort();
    if (fault(8)) { syncFailed++; return 0; }
    mutate(h->f, 3, 0, 0, 0);
    memcpy(d->flushed, d->data, (size_t)d->npages * h->in->ps); memcpy(d->fwr, d->wr, d->npages);
    d->fext = d->ext; d->fexists = d->exists;
    return 1;
}
static int8_t d_read(void *buffer, uint32_t pageNum, uint32_t pageSize, void *file) {
    fh_t *h = file; dfile_t *d = &h->in->f[h->f];
    if (!h->opened) abort();
    if (fault(1)) return 0;
    if ((int)pageSize != h->in->ps) abort();
    if ((int64_t)pageNum >= d->ext) return 0;
    memcpy(buffer, d->data + (size_t)pageNum * pageSize, pageSize);
    h->in->rd[h->f]++;
    return 1;
}
static int8_t d_write(void *buffer, uint32_t pageNum, uint32_t pageSize, void *file) {
    fh_t *h = file; dfile_t *d = &h->in->f[h->f];
    if (!h->opened) abort();
    if (fault(2)) return 0;
    if ((int)pageSize != h->in->ps) abort();
    uint32_t id; memcpy(&id, buffer, 4);
    int cnt = h->f == 0 ? EMBEDDB_GET_COUNT(buffer) : 0;
    mutate(h->f, 0, pageNum, id - h->in->hb[h->f], cnt);
    if (pageNum >= d->npages) return h->in->erase != 2; /* outside the allocation: recorded, specification rejects; some devices refuse */
    memcpy(d->data + (size_t)pageNum * pageSize, buffer, pageSize);
    d->wr[pageNum] = 1;
    h->in->wrt[h->f]++;
    if ((int64_t)pageNum >= d->ext) d->ext = pageNum + 1;
    return 1;
}
static int8_t d_erase(id_t s, id_t e, uint32_t pageSize, void *file) {
    fh_t *h = file; dfile_t *d = &h->in->f[h->f];
    if (!h->opened) abort();
    if (fault(4)) return 0;
    if ((int)pageSize != h->in->ps) abort();
    mutate(h->f, 1, s, e, 0);
    if (h->in->erase == 0) return 1; /* desktop: no-op */
    if (h->in->erase == 2 && (s >= e || e > d->npages)) return 0;
    for (uint32_t p = s; p < e && p < d->npages; p++) {
        d->wr[p] = 0;
        memset(d->data + (size_t)p * pageSize, h->in->erase == 1 ? 0xFF : h->in->erase == 2 ? 0x01 : 0x00, pageSize);
    }
    if ((int64_t)e > d->ext) d->ext = e > d->npages ? (int)d->npages : (int)e;
    return 1;
}
static embedDBFileInterface FI = {d_read, d_write, d_erase, d_close, d_open, d_flush};

/* ---------- keys and data ---------- */
static uint64_t rng_s;
static uint32_t rnd(void) { rng_s ^= rng_s << 13; rng_s ^= rng_s >> 7; rng_s ^= rng_s << 17; return (uint32_t)(rng_s >> 16); }

static void mkkeys(inst_t *in, const char *kind, uint64_t base, uint64_t step) {
    int bits = in->ks * 8;
    uint64_t maxv = bits >= 64 ? UINT64_MAX : (((uint64_t)1 << bits) - 1);
    if (in->cmp == 1) maxv = in->ks >= 4 ? 0x7fffffffULL : maxv;
    if (in->cmp == 2) maxv = 0x7fffffffffffffffULL;
    rng_s = 88172645463325252ULL ^ (base * 7919 + step * 104729 + 12345);
    uint64_t v = base;
    int n = 0;
    while (n < MAXRANK) {
        in->keys[n++] = v;
        uint64_t g = step ? step : 1;
        if (!strcmp(kind, "rand")) g = 1 + rnd() % (step ? step : 1);
        else if (!strcmp(kind, "clus")) g = (n % 13 == 0) ? step * (1 + rnd() % 50) : 1 + rnd() % 2;
        else if (!strcmp(kind, "exp")) g = 1 + ((uint64_t)n * n * n / 64) * step;
        else if (!strcmp(kind, "step")) g = (n / 40) % 2 ? step * 17 : 1;
        else if (!strcmp(kind, "huge")) g = (n % 97 == 31) ? (maxv / 64) : 1 + rnd() % (step ? step : 1);
        if (g == 0) g = 1;
        if (maxv - v < g) break;
        v += g;
    }
    in->nkeys = n;
}
static int rankOf(inst_t *in, const void *kb) {
    uint64_t v = 0; memcpy(&v, kb, in->ks);
    int lo = 0, hi = in->nkeys - 1;
    while (lo <= hi) { int m = (lo + hi) / 2; if (in->keys[m] == v) return m; if (in->keys[m] < v) lo = m + 1; else hi = m - 1; }
    return BAD;
}
static uint8_t *keyBytes(inst_t *in, int rank) {
    /* exactly keySize bytes on the heap, so over-reads are caught */
    uint8_t *b = malloc(in->ks);
    uint64_t v = rank < 0 ? in->keys[0] - 1 : in->keys[rank < in->nkeys ? rank : in->nkeys - 1];
    memcpy(b, &v, in->ks);
    return b;
}
static uint32_t h32(uint32_t a, uint32_t b, uint32_t c) {
    uint32_t x = a * 2654435761u ^ (b * 40503u + 0x9e3779b9u) ^ (c * 2246822519u);
    x ^= x >> 15; x *= 2246822519u; x ^= x >> 13; return x;
}
static int dInt(int ds) { return ds >= 4 ? 4 : ds >= 2 ? 2 : 1; }
static void dataBytesTo(inst_t *in, int rank, int d, uint8_t *b) {
    int n = dInt(in->ds);
    int32_t v32 = d; int16_t v16 = (int16_t)d; int8_t v8 = (int8_t)d;
    if (n == 4) memcpy(b, &v32, 4); else if (n == 2) memcpy(b, &v16, 2); else memcpy(b, &v8, 1);
    for (int i = n; i < in->ds; i++) b[i] = (uint8_t)h32(rank, d, i);
}
static uint8_t *dataBytes(inst_t *in, int rank, int d) { uint8_t *b = malloc(in->ds ? in->ds : 1); dataBytesTo(in, rank, d, b); return b; }
static int dataVal(inst_t *in, int rank, const uint8_t *b) {
    int n = dInt(in->ds); int d;
    if (n == 4) { int32_t v; memcpy(&v, b, 4); d = v; } else if (n == 2) { int16_t v; memcpy(&v, b, 2); d = v; } else { int8_t v; memcpy(&v, b, 1); d = v; }
    uint8_t tmp[300];
    dataBytesTo(in, rank, d, tmp);
    return memcmp(tmp, b, in->ds) ? BAD : d;
}
#define DEFCMP(n) static int8_t cmpu##n(void *a, void *b) { uint64_t x = 0, y = 0; memcpy(&x, a, n); memcpy(&y, b, n); return x < y ? -1 : x > y ? 1 : 0; }
DEFCMP(1) DEFCMP(2) DEFCMP(3) DEFCMP(4) DEFCMP(5) DEFCMP(6) DEFCMP(7) DEFCMP(8)
static int8_t (*CMPU[9])(void *, void *) = {0, cmpu1, cmpu2, cmpu3, cmpu4, cmpu5, cmpu6, cmpu7, cmpu8};
static int8_t cmpd4(void *a, void *b) { int32_t x, y; memcpy(&x, a, 4); memcpy(&y, b, 4); return x < y ? -1 : x > y; }
static int8_t cmpd2(void *a, void *b) { int16_t x, y; memcpy(&x, a, 2); memcpy(&y, b, 2); return x < y ? -1 : x > y; }
static int8_t cmpd1(void *a, void *b) { int8_t x, y; memcpy(&x, a, 1); memcpy(&y, b, 1); return x < y ? -1 : x > y; }
static uint8_t varByte(int rank, int d, uint32_t i) { return (uint8_t)h32(rank * 3 + 1, d, i); }

/* ---------- output ---------- */
static char *ob; static size_t obn, obc;
static void oput(const char *fmt, ...) {
    va_list ap;
    for (;;) {
        va_start(ap, fmt);
        int n = vsnprintf(ob ? ob + obn : NULL, ob ? obc - obn : 0, fmt, ap);
        va_end(ap);
        if (ob && obn + n < obc) { obn += n; return; }
        obc = (obc + n + 1024) * 2; ob = realloc(ob, obc);
    }
}
static void evBegin(const char *op, int inst) {
    obn = 0;
    int n = ++sh->nextNode;
    oput("{\"n\":%d,\"p\":%d,\"t\":%d,\"op\":\"%s\",\"i\":%d", n, parentNode, traceId, op, inst);
    parentNode = n;
}
static void evMuts(void) {
    oput(",\"mu\":[");
    for (int i = 0; i < nmuts && i < 4096; i++)
        oput("%s[%d,%d,%d,%d,%d]", i ? "," : "", muts[i].f, muts[i].kind, muts[i].a, muts[i].b, muts[i].c);
    oput("]");
}
static int clampi(uint64_t v) { return v > 2147483647ULL ? -1 : (int)v; }
static void evState(inst_t *in) {
    if (in->open) oput(",\"nx\":%d,\"mn\":%d", clampi(in->st->nextDataPageId - in->hb[0]), clampi(in->st->minDataPageId - in->hb[0]));
    else oput(",\"nx\":0,\"mn\":0");
}
static void evEnd(void) {
    oput("}\n");
    size_t o = 0;
    while (o < obn) { ssize_t w = write(outfd, ob + o, obn - o); if (w <= 0) _exit(99); o += w; }
    sh->lastNode[depth] = parentNode;
}

/* ---------- limits ---------- */
static void limit(int sec) { /* processor time for endless loops; wall time only as a last resort */
    struct itimerval t = {{0, 0}, {sec, 0}};
    setitimer(ITIMER_PROF, &t, NULL);
    alarm(240);
}

/* ---------- forking ---------- */
/* returns child's exit status or -signal */
static int runChild(void (*fn)(void *), void *arg) {
    fflush(NULL);
    sh->lastNode[depth + 1] = parentNode;
    sh->doing[depth + 1][0] = 0;
    pid_t p = fork();
    if (p == 0) {
        depth++;
        fn(arg);
        _exit(0);
    }
    int stt = 0;
    waitpid(p, &stt, 0);
    if (WIFSIGNALED(stt)) {
        if (WTERMSIG(stt) == SIGPROF || WTERMSIG(stt) == SIGALRM) sh->hung++;
        return -WTERMSIG(stt);
    }
    return WEXITSTATUS(stt);
}
static void reportDeath(int rc) {
    /* a child died: attach a "died" node under its last event */
    int save = parentNode;
    char buf[200]; snprintf(buf, sizeof buf, "%s", sh->doing[depth + 1]);
    for (char *c = buf; *c; c++) if (*c == '"' || *c == '\\' || *c < 32) *c = ' ';
    parentNode = sh->lastNode[depth + 1];
    evBegin("died", 0);
    oput(",\"sig\":%d,\"what\":\"%s\"", rc < 0 ? -rc : rc + 1000, buf);
    evEnd();
    parentNode = save;
}

/* ---------- reading helpers ---------- */
static long streamLen(inst_t *in, embedDBVarDataStream *s, int rank, int d, int chunk) {
    /* returns length when content and length agree with a full read, SHORT when it ends early with the right bytes, BAD otherwise */
    if (s == NULL) return -1;
    uint32_t total = s->totalBytes;
    if (total > 1u << 22) { lib_free(s); return BAD; }
    uint32_t got = 0; int ok = 1, cut = 0; int guard = 0;
    uint32_t ch = chunk <= 0 ? total + 7 : (uint32_t)chunk;
    for (;;) {
        uint32_t want = ch;
        if (chunk < 0) want = 1 + h32(rank, got, -chunk) % 23;
        uint8_t *b = malloc(want ? want : 1);
        uint32_t n = embedDBVarDataStreamRead(in->st, s, b, want);
        if (n > want) { free(b); ok = 0; break; }
        for (uint32_t i = 0; i < n; i++) if (b[i] != varByte(rank, d, got + i)) ok = 0;
        free(b);
        if (n == 0) break;
        got += n;
        if (n < want && got < total) { cut = 1; break; }
        if (++guard > 1 << 23) { ok = 0; break; }
    }
    if (got < total) cut = 1;
    if (got > total) ok = 0;
    lib_free(s);
    return !ok ? BAD : cut ? SHORT : (long)total;
}
static const char *LN = "L"; /* the name results go by: with a failing storage call, L is the content afterwards */
static void doListing(inst_t *in, int kmin, int kmax, int hasd, int dmin, int dmax, int var, int chunk) {
    embedDBIterator it; memset(&it, 0xA5, sizeof it);
    uint8_t *a = kmin >= -1 ? keyBytes(in, kmin) : NULL, *b = kmax >= -1 ? keyBytes(in, kmax) : NULL;
    uint8_t *c = (hasd & 1) ? dataBytes(in, 0, dmin) : NULL, *d = (hasd & 2) ? dataBytes(in, 0, dmax) : NULL;
    it.minKey = a; it.maxKey = b; it.minData = c; it.maxData = d;
    embedDBInitIterator(in->st, &it);
    oput(",\"%s\":[", LN);
    int n = 0;
    uint8_t *k = malloc(in->ks), *dd = malloc(in->ds ? in->ds : 1);
    for (;;) {
        embedDBVarDataStream *s = NULL;
        int8_t r = var ? embedDBNextVar(in->st, &it, k, dd, &s) : embedDBNext(in->st, &it, k, dd);
        if (r != 1) break;
        int rank = rankOf(in, k); int dv = dataVal(in, rank, dd);
        if (var) oput("%s[%d,%d,%ld]", n ? "," : "", rank, dv, streamLen(in, s, rank, dv, chunk));
        else oput("%s[%d,%d]", n ? "," : "", rank, dv);
        if (++n > 20000) break;
    }
    /* end of iteration must be stable */
    int8_t r2 = embedDBNext(in->st, &it, k, dd);
    oput("],\"%s2\":%d", *LN == 'L' ? "e" : "i", r2);
    embedDBCloseIterator(&it);
    free(a); free(b); free(c); free(d); free(k); free(dd);
}
/* listing in a forked clone, result returned through a pipe into the event */
static void forkListing(inst_t *in, int var) {
    int pp[2]; if (pipe(pp)) abort();
    fflush(NULL);
    pid_t p = fork();
    if (p == 0) {
        close(pp[0]);
        limit(8);
        crashArmed = 0; failAt = -1;
        obn = 0; LN = "L";
        doListing(in, -9, -9, 0, 0, 0, var, 0);
        size_t o = 0; while (o < obn) { ssize_t w = write(pp[1], ob + o, obn - o); if (w <= 0) _exit(9); o += w; }
        _exit(0);
    }
    close(pp[1]);
    size_t cap = 65536, n = 0; char *buf = malloc(cap);
    for (;;) { if (n == cap) { cap *= 2; buf = realloc(buf, cap); } ssize_t r = read(pp[0], buf + n, cap - n); if (r <= 0) break; n += r; }
    close(pp[0]);
    int stt; waitpid(p, &stt, 0);
    if (WIFSIGNALED(stt) && (WTERMSIG(stt) == SIGPROF || WTERMSIG(stt) == SIGALRM)) sh->hung++;
    if (WIFEXITED(stt) && WEXITSTATUS(stt) == 0) {
        oput("%.*s", (int)n, buf);
        /* last rank */
        int last = -1; char *q = buf; buf[n - 1] = 0;
        for (q = strchr(buf, '['); q && (q = strchr(q + 1, '['));) { int r = atoi(q + 1); if (r > last) last = r; }
        in->last = last;
    } else {
        oput(",\"L\":[[%d,%d%s]],\"e2\":0", BAD, BAD, var ? ",0" : "");
    }
    free(buf);
}

/* ---------- iterators ---------- */
typedef struct { int used, inst, var; embedDBIterator it; uint8_t *a, *b, *c, *d; } slot_t;
static slot_t SL[NSLOT];

/* ---------- operations ---------- */
#define FL(x) (((x) & in->flags) != 0)

static int parseInt(const char *s, int dflt) { return s && *s ? atoi(s) : dflt; }
static int rankTok(inst_t *in, const char *s) {
    if (!s) return 0;
    if (*s == '+') return in->last + atoi(s + 1);
    if (*s == '@') return in->last - atoi(s + 1);
    return atoi(s);
}
static int dTok(inst_t *in, const char *s, int rank) {
    if (!s) return 0;
    if (*s == '~') return (int)(h32(rank, parseInt(s + 1, 0), 77) % 100);
    return atoi(s);
}
static void evCfg(inst_t *in, const char *op) {
    evBegin(op, in->id);
    int vh = in->ks + 4;
    oput(",\"N\":%d,\"E\":%d,\"NI\":%d,\"NV\":%d,\"ps\":%d,\"vh\":%d,\"ks\":%d,\"ds\":%d,\"buf\":%d,\"spl\":%d,\"err\":%d,\"idx\":%d,\"maxmin\":%d,\"bmap\":%d,\"vdata\":%d,\"rlc\":%d,\"bin\":%d,\"noclean\":%d,\"er\":%d,\"bm\":%d,\"nofile\":%d,\"noopen\":%d,\"nk\":%d",
         in->N, in->E, in->NI, in->NV, in->ps, vh, in->ks, in->ds, in->buf, in->spl, in->err, FL(1), FL(2), FL(8), FL(16), FL(64), FL(128), FL(256), in->erase, in->bm, in->nofile, in->noopen, in->nkeys);
    evEnd();
}


/* the same files, opened with another configuration from now on */
static void modCfg(inst_t *in, char *line) {
    if (in->open) _exit(97);
    for (char *tk = strtok(line, " \n"); tk; tk = strtok(NULL, " \n")) {
        char *v = strchr(tk, '='); if (!v) continue; *v++ = 0;
        int x = atoi(v);
        if (!strcmp(tk, "N")) in->N = x; else if (!strcmp(tk, "E")) in->E = x; else if (!strcmp(tk, "NI")) in->NI = x;
        else if (!strcmp(tk, "NV")) in->NV = x; else if (!strcmp(tk, "buf")) in->buf = x;
        else if (!strcmp(tk, "spl")) in->spl = x; else if (!strcmp(tk, "err")) in->err = x; else if (!strcmp(tk, "ks")) in->ks = x;
        else if (!strcmp(tk, "nofile")) in->nofile = x; else if (!strcmp(tk, "noopen")) in->noopen = x;
        else _exit(97);
    }
    evCfg(in, "mod");
}

static void setCfg(inst_t *in, char *line) {
    int id = in->id;
    char kind[16] = "lin"; long long base = 0; long long step = 1;
    for (int f = 0; f < 3; f++) { free(in->f[f].data); free(in->f[f].flushed); free(in->f[f].wr); free(in->f[f].fwr); }
    memset(in, 0, sizeof *in);
    in->id = id; in->ks = 4; in->ds = 4; in->ps = 512; in->N = 8; in->E = 2; in->NI = 4; in->NV = 8; in->buf = 6; in->spl = 8; in->err = 1; in->last = -1;
    for (char *tk = strtok(line, " \n"); tk; tk = strtok(NULL, " \n")) {
        char *v = strchr(tk, '='); if (!v) continue; *v++ = 0;
        int x = atoi(v);
        if (!strcmp(tk, "ks")) in->ks = x; else if (!strcmp(tk, "ds")) in->ds = x; else if (!strcmp(tk, "ps")) in->ps = x;
        else if (!strcmp(tk, "N")) in->N = x; else if (!strcmp(tk, "E")) in->E = x; else if (!strcmp(tk, "NI")) in->NI = x;
        else if (!strcmp(tk, "NV")) in->NV = x; else if (!strcmp(tk, "buf")) in->buf = x; else if (!strcmp(tk, "fl")) in->flags = x;
        else if (!strcmp(tk, "spl")) in->spl = x; else if (!strcmp(tk, "err")) in->err = x; else if (!strcmp(tk, "bm")) in->bm = x;
        else if (!strcmp(tk, "cmp")) in->cmp = x; else if (!strcmp(tk, "er")) in->erase = x; else if (!strcmp(tk, "nofile")) in->nofile = x; else if (!strcmp(tk, "noopen")) in->noopen = x;
        else if (!strcmp(tk, "km")) snprintf(kind, sizeof kind, "%s", v);
        else if (!strcmp(tk, "kb")) base = strtoll(v, NULL, 0); else if (!strcmp(tk, "kst")) step = strtoll(v, NULL, 0);
    }
    mkkeys(in, kind, (uint64_t)base, (uint64_t)step);
    int np[3] = {in->N, in->NI, in->NV};
    for (int f = 0; f < 3; f++) {
        in->f[f].npages = np[f] > 0 ? np[f] : 1;
        in->f[f].data = calloc(in->f[f].npages, in->ps > 0 ? in->ps : 1);
        in->f[f].flushed = calloc(in->f[f].npages, in->ps > 0 ? in->ps : 1);
        in->f[f].wr = calloc(in->f[f].npages, 1); in->f[f].fwr = calloc(in->f[f].npages, 1);
    }
    evCfg(in, "cfg");
}

static void mkState(inst_t *in, int reset) {
    embedDBState *s = malloc(sizeof(embedDBState));
    memset(s, 0xA5, sizeof *s);
    s->keySize = in->ks; s->dataSize = in->ds; s->pageSize = in->ps; s->bufferSizeInBlocks = in->buf;
    s->buffer = malloc((size_t)in->ps * (in->buf > 0 ? in->buf : 1));
    memset(s->buffer, 0x5A, (size_t)in->ps * (in->buf > 0 ? in->buf : 1));
    s->numDataPages = in->N; s->numIndexPages = in->NI; s->numVarPages = in->NV; s->eraseSizeInPages = in->E;
    s->numSplinePoints = in->spl;
    s->parameters = in->flags | (reset ? EMBEDDB_RESET_DATA : 0);
    s->fileInterface = &FI;
    gone(in);
    for (int f = 0; f < 3; f++) { FH[in->id][f].in = in; FH[in->id][f].f = f; }
    s->dataFile = (in->nofile & 1) ? NULL : &FH[in->id][0];
    s->indexFile = (in->nofile & 2) ? NULL : &FH[in->id][1];
    s->varFile = (in->nofile & 4) ? NULL : &FH[in->id][2];
    s->bitmapSize = in->bm / 8;
    if (in->bm == 8) { s->inBitmap = inBitmapInt8; s->updateBitmap = updateBitmapInt8; s->buildBitmapFromRange = buildBitmapInt8FromRange; }
    if (in->bm == 16) { s->inBitmap = inBitmapInt16; s->updateBitmap = updateBitmapInt16; s->buildBitmapFromRange = buildBitmapInt16FromRange; }
    if (in->bm == 64) { s->inBitmap = inBitmapInt64; s->updateBitmap = updateBitmapInt64; s->buildBitmapFromRange = buildBitmapInt64FromRange; }
    s->compareKey = in->cmp == 1 ? int32Comparator : in->cmp == 2 ? int64Comparator : CMPU[in->ks <= 8 && in->ks > 0 ? in->ks : 8];
    s->compareData = dInt(in->ds) == 4 ? (in->cmp ? int32Comparator : cmpd4) : dInt(in->ds) == 2 ? cmpd2 : cmpd1;
    in->st = s;
}

static char *tok[64]; static int ntok;
static inst_t *opInst(void) { int i = parseInt(tok[1], 0); return &I[i < 0 || i >= MAXI ? 0 : i]; }
#define T(n) (ntok > (n) ? tok[n] : "")

static int pendingFlt = 0; static int fltIdx = 0;
static void evTail(inst_t *in) {
    evMuts();
    evState(in);
    if (pendingFlt) {
        oput(",\"flt\":%d,\"fh\":%d,\"sf\":%d", fltIdx, failHit, syncFailed);
        failAt = -1;
        if (in->open) forkListing(in, FL(16)); else oput(",\"L\":[],\"e2\":0");
    }
    evEnd();
}

static void syncAll(inst_t *in) {
    for (int f = 0; f < 3; f++) {
        dfile_t *d = &in->f[f];
        memcpy(d->flushed, d->data, (size_t)d->npages * in->ps); memcpy(d->fwr, d->wr, d->npages); d->fext = d->ext; d->fexists = d->exists;
    }
}
static void loseUnflushed(inst_t *in, int mask) {
    for (int f = 0; f < 3; f++) {
        dfile_t *d = &in->f[f];
        if (!(mask >> f & 1)) continue;
        memcpy(d->data, d->flushed, (size_t)d->npages * in->ps); memcpy(d->wr, d->fwr, d->npages); d->ext = d->fext; d->exists = d->fexists;
    }
}
/* the logical ids a store that has been in use for a long time would have: all ids of a file move up by whole laps, close to target */
static uint32_t ageFile(inst_t *in, int f, uint32_t target, uint32_t pages) {
    dfile_t *d = &in->f[f]; uint32_t id, top = 0; int any = 0;
    for (uint32_t p = 0; p < d->npages; p++) if (d->wr[p]) { memcpy(&id, d->data + (size_t)p * in->ps, 4); if (id > top) top = id; any = 1; }
    if (!any || !d->exists || pages == 0 || top < pages || top >= target) return 0;
    return (target - top) / pages * pages;
}
static void shiftIds(inst_t *in, int f, uint32_t off, uint32_t delta) {
    dfile_t *d = &in->f[f]; uint32_t id;
    for (int k = 0; k < 2; k++) for (uint32_t p = 0; p < d->npages; p++) {
        uint8_t *b = (k ? d->flushed : d->data) + (size_t)p * in->ps + off;
        if (!(k ? d->fwr : d->wr)[p]) continue;
        memcpy(&id, b, 4); id += delta; memcpy(b, &id, 4);
    }
}
static void statZero(inst_t *in) { memset(in->rd, 0, sizeof in->rd); memset(in->wrt, 0, sizeof in->wrt); in->n0 = in->st->nextDataPageId; }
/* executes one simple operation; when crashArmed it may longjmp */
static void simpleOp(void) {
    const char *op = tok[0];
    inst_t *in = opInst();
    nmuts = ncr = 0; failCnt = 0; failHit = syncFailed = 0;
    memOwner = in->id;
    snprintf(sh->doing[depth], 200, "%s %s %s %s %s", op, T(1), T(2), T(3), T(4));
    if (!strcmp(op, "OPEN")) {
        int reset = !strcmp(T(2), "reset");
        mkState(in, reset);
        int8_t r = embedDBInit(in->st, in->err);
        in->open = r == 0;
        statZero(in);
        evBegin("open", in->id);
        oput(",\"reset\":%d,\"r\":%d,\"R\":%d,\"fo\":%d,\"lm\":%d", reset, r, in->open ? in->st->maxRecordsPerPage : 0, filesOpen(in), memLive(in->id));
        if (in->open && !pendingFlt) forkListing(in, FL(16)); else if (!pendingFlt) oput(",\"L\":[],\"e2\":0");
        evTail(in);
        return;
    }
    if (!strcmp(op, "LOSS")) { /* power loss that also loses everything not flushed, in the files of a mask */
        int m = parseInt(T(2), 7);
        loseUnflushed(in, m); syncAll(in);
        gone(in);
        evBegin("loss", in->id); oput(",\"f\":%d", m); evTail(in); return;
    }
    if (!strcmp(op, "DROP")) { /* crash between operations; the medium keeps everything written */
        syncAll(in);
        gone(in); evBegin("drop", in->id); evTail(in); return;
    }
    if (!strcmp(op, "SAVE") || !strcmp(op, "LOAD")) { /* the medium of a closed instance is handed to another process */
        int sv = op[0] == 'S'; char path[600]; snprintf(path, sizeof path, "%s/%d-%d.img", getenv("IMGDIR"), traceId, in->id);
        FILE *f = fopen(path, sv ? "w" : "r"); if (!f) return;
        #define MOVE(p, n) (sv ? fwrite(p, 1, n, f) : fread(p, 1, n, f))
        MOVE(&in->last, sizeof in->last); MOVE(in->hb, sizeof in->hb);
        for (int k = 0; k < 3; k++) {
            dfile_t *d = &in->f[k]; size_t n = (size_t)d->npages * in->ps;
            MOVE(&d->ext, sizeof d->ext); MOVE(&d->fext, sizeof d->fext); MOVE(&d->exists, sizeof d->exists); MOVE(&d->fexists, sizeof d->fexists);
            MOVE(d->data, n); MOVE(d->flushed, n); MOVE(d->wr, d->npages); MOVE(d->fwr, d->npages);
        }
        fclose(f);
        return;
    }
    if (!strcmp(op, "RM")) { /* a file of a closed database disappears */
        int f = parseInt(T(2), 0);
        if (in->open || f < 0 || f > 2) return;
        dfile_t *d = &in->f[f];
        d->exists = d->fexists = 0; d->ext = d->fext = 0; memset(d->wr, 0, d->npages); memset(d->fwr, 0, d->npages);
        evBegin("rm", in->id); oput(",\"f\":%d", f); evTail(in); return;
    }
    if (!strcmp(op, "AGE")) { /* a closed store grows old: AGE i target */
        if (in->open) return;
        uint32_t dl[3], np[3] = {in->N, in->NI, in->NV};
        uint32_t target = (uint32_t)strtoll(T(2), NULL, 0);
        for (int f = 0; f < 3; f++) dl[f] = ageFile(in, f, target, np[f]);
        for (int f = 0; f < 3; f++) shiftIds(in, f, 0, dl[f]);
        if (FL(1)) shiftIds(in, 1, EMBEDDB_IDX_MIN_OFFSET, dl[0]);
        /* numbers the specification language has no room for: what is reported from here on is relative to this age */
        if (target >= 2000000000u) for (int f = 0; f < 3; f++) { in->hb[f] += dl[f]; dl[f] = 0; }
        evBegin("age", in->id); oput(",\"dd\":%u,\"dv\":%u,\"dx\":%u", dl[0], dl[2], dl[1]); evTail(in); return;
    }
    if (!in->open) return;
    if (!strcmp(op, "P") || !strcmp(op, "PV")) {
        int rank = rankTok(in, T(2)), d = dTok(in, T(3), rank);
        if (rank < 0 || rank >= in->nkeys) return;
        uint8_t *kb = keyBytes(in, rank), *db = dataBytes(in, rank, d);
        int8_t r; int len = -1;
        if (!strcmp(op, "PV")) {
            len = parseInt(T(4), -1);
            uint8_t *vb = NULL;
            if (len >= 0) { vb = malloc(len ? len : 1); for (int i = 0; i < len; i++) vb[i] = varByte(rank, d, i); }
            r = embedDBPutVar(in->st, kb, db, vb, len >= 0 ? len : 0);
            free(vb);
            evBegin("putv", in->id);
        } else {
            r = embedDBPut(in->st, kb, db);
            evBegin("put", in->id);
        }
        free(kb); free(db);
        oput(",\"k\":%d,\"d\":%d,\"v\":%d,\"r\":%d", rank, d, len, r);
        if (r == 0 && rank > in->last) in->last = rank;
        evTail(in);
        return;
    }
    if (!strcmp(op, "G")) {
        int rank = rankTok(in, T(2));
        if (rank < 0 || rank >= in->nkeys) return;
        uint8_t *kb = keyBytes(in, rank), *db = malloc(in->ds ? in->ds : 1);
        memset(db, 0xEE, in->ds);
        int8_t r = embedDBGet(in->st, kb, db);
        evBegin("get", in->id);
        oput(",\"k\":%d,\"r\":%d,\"d\":%d", rank, r, r == 0 ? dataVal(in, rank, db) : 0);
        free(kb); free(db);
        evTail(in);
        return;
    }
    if (!strcmp(op, "GV")) {
        int rank = rankTok(in, T(2)), chunk = parseInt(T(3), 0);
        if (rank < 0 || rank >= in->nkeys) return;
        uint8_t *kb = keyBytes(in, rank), *db = malloc(in->ds ? in->ds : 1);
        embedDBVarDataStream *s = NULL;
        memset(db, 0xEE, in->ds);
        int8_t r = embedDBGetVar(in->st, kb, db, &s);
        int dv = (r == 0 || r == 1) ? dataVal(in, rank, db) : 0;
        long v = -4;
        if (r == 0) v = streamLen(in, s, rank, dv, chunk); else if (r == 1) v = -2;
        evBegin("getv", in->id);
        oput(",\"k\":%d,\"r\":%d,\"d\":%d,\"v\":%ld", rank, r, dv, v);
        free(kb); free(db);
        evTail(in);
        return;
    }
    if (!strcmp(op, "GALL")) { /* look every key up: from last-a to last+b, in an order given by mode */
        int lo = rankTok(in, T(2)), hi = rankTok(in, T(3)), mode = parseInt(T(4), 0);
        if (lo < 0) lo = 0;
        if (hi >= in->nkeys) hi = in->nkeys - 1;
        int n = hi - lo + 1; if (n < 0) n = 0;
        int *res = malloc(sizeof(int) * (n + 1));
        uint8_t *db = malloc(in->ds ? in->ds : 1);
        for (int j = 0; j < n; j++) {
            int idx = mode == 0 ? j : mode == 1 ? n - 1 - j : (int)(((uint64_t)j * 7919 + 13) % n);
            if (mode == 2 && n % 7919 == 0) idx = j;
            int rank = lo + idx;
            uint8_t *kb = keyBytes(in, rank);
            memset(db, 0xEE, in->ds);
            int8_t r = embedDBGet(in->st, kb, db);
            int dv = r == 0 ? dataVal(in, rank, db) : 0;
            res[idx] = r == 0 ? (dv == BAD ? BAD : dv) : -1000000 ;
            free(kb);
        }
        evBegin("gall", in->id);
        oput(",\"lo\":%d,\"hi\":%d,\"%s\":[", lo, lo + n - 1, LN);
        for (int j = 0; j < n; j++) oput("%s%d", j ? "," : "", res[j]);
        oput("]");
        free(res); free(db);
        evTail(in);
        return;
    }
    if (!strcmp(op, "GVALL")) {
        int lo = rankTok(in, T(2)), hi = rankTok(in, T(3)), chunk = parseInt(T(4), 0);
        if (lo < 0) lo = 0;
        if (hi >= in->nkeys) hi = in->nkeys - 1;
        int n = hi - lo + 1; if (n < 0) n = 0;
        long *res = malloc(sizeof(long) * 3 * (n + 1));
        uint8_t *db = malloc(in->ds ? in->ds : 1);
        for (int j = 0; j < n; j++) {
            int rank = lo + j;
            uint8_t *kb = keyBytes(in, rank);
            embedDBVarDataStream *s = NULL;
            memset(db, 0xEE, in->ds);
            int8_t r = embedDBGetVar(in->st, kb, db, &s);
            int dv = (r == 0 || r == 1) ? dataVal(in, rank, db) : 0;
            res[3 * j] = r; res[3 * j + 1] = dv;
            res[3 * j + 2] = r == 0 ? streamLen(in, s, rank, dv, chunk) : r == 1 ? -2 : -4;
            free(kb);
        }
        evBegin("gvall", in->id);
        oput(",\"lo\":%d,\"hi\":%d,\"%s\":[", lo, lo + n - 1, LN);
        for (int j = 0; j < n; j++) oput("%s[%ld,%ld,%ld]", j ? "," : "", res[3 * j], res[3 * j + 1], res[3 * j + 2]);
        oput("]");
        free(res); free(db);
        evTail(in);
        return;
    }
    if (!strcmp(op, "F")) {
        int8_t r = embedDBFlush(in->st);
        evBegin("flush", in->id); oput(",\"r\":%d", r); evTail(in); return;
    }
    if (!strcmp(op, "IT")) { /* IT i kmin kmax hasd dmin dmax var chunk ; kmin/kmax "-" = none */
        int kmin = *T(2) == '-' && !T(2)[1] ? -9 : rankTok(in, T(2)), kmax = *T(3) == '-' && !T(3)[1] ? -9 : rankTok(in, T(3));
        int hasd = parseInt(T(4), 0), dmin = parseInt(T(5), 0), dmax = parseInt(T(6), 0), var = parseInt(T(7), 0), chunk = parseInt(T(8), 0);
        if ((kmin != -9 && (kmin < 0 || kmin >= in->nkeys)) || (kmax != -9 && (kmax < 0 || kmax >= in->nkeys))) return;
        evBegin("iter", in->id);
        oput(",\"kmin\":%d,\"kmax\":%d,\"hasd\":%d,\"dmin\":%d,\"dmax\":%d,\"var\":%d", kmin, kmax, hasd, dmin, dmax, var);
        /* note: events are written only at the end, so a crash inside is attributed to the previous node */
        doListing(in, kmin, kmax, hasd, dmin, dmax, var, chunk);
        evTail(in);
        return;
    }
    if (!strcmp(op, "ST")) { /* ST i [reset]: what the statistics say and what the storage has seen since they were reset */
        embedDBState *st = in->st;
        if (!strcmp(T(2), "reset")) { embedDBResetStats(st); statZero(in); }
        evBegin("stat", in->id);
        oput(",\"sr\":%u,\"sw\":%u,\"ir\":%u,\"iw\":%u,\"dr\":[%u,%u,%u],\"dw\":[%u,%u,%u],\"app\":%u", st->numReads, st->numWrites, st->numIdxReads, st->numIdxWrites,
             in->rd[0], in->rd[1], in->rd[2], in->wrt[0], in->wrt[1], in->wrt[2], st->nextDataPageId - in->n0);
        evTail(in);
        return;
    }
    if (!strcmp(op, "AUD")) { /* listing in a forked clone: does not disturb the instance */
        evBegin("aud", in->id);
        oput(",\"var\":%d", FL(16));
        forkListing(in, FL(16));
        evTail(in);
        return;
    }
    if (!strcmp(op, "II")) { /* II inst slot kmin kmax hasd dmin dmax var */
        int s = parseInt(T(2), 0) % NSLOT; slot_t *S = &SL[s];
        if (S->used) return;
        int kmin = *T(3) == '-' && !T(3)[1] ? -9 : rankTok(in, T(3)), kmax = *T(4) == '-' && !T(4)[1] ? -9 : rankTok(in, T(4));
        int hasd = parseInt(T(5), 0), dmin = parseInt(T(6), 0), dmax = parseInt(T(7), 0);
        if ((kmin != -9 && (kmin < 0 || kmin >= in->nkeys)) || (kmax != -9 && (kmax < 0 || kmax >= in->nkeys))) return;
        memset(S, 0, sizeof *S);
        S->used = 1; S->inst = in->id; S->var = parseInt(T(8), 0);
        memset(&S->it, 0xA5, sizeof S->it);
        S->a = kmin != -9 ? keyBytes(in, kmin) : NULL; S->b = kmax != -9 ? keyBytes(in, kmax) : NULL;
        S->c = (hasd & 1) ? dataBytes(in, 0, dmin) : NULL; S->d = (hasd & 2) ? dataBytes(in, 0, dmax) : NULL;
        S->it.minKey = S->a; S->it.maxKey = S->b; S->it.minData = S->c; S->it.maxData = S->d;
        embedDBInitIterator(in->st, &S->it);
        evBegin("ii", in->id);
        oput(",\"s\":%d,\"kmin\":%d,\"kmax\":%d,\"hasd\":%d,\"dmin\":%d,\"dmax\":%d,\"var\":%d", s, kmin, kmax, hasd, dmin, dmax, S->var);
        evTail(in);
        return;
    }
    if (!strcmp(op, "IN")) { /* IN inst slot count */
        int s = parseInt(T(2), 0) % NSLOT; slot_t *S = &SL[s]; int cnt = parseInt(T(3), 1);
        if (!S->used || S->inst != in->id) return;
        evBegin("in", in->id);
        oput(",\"s\":%d,\"var\":%d,\"%s\":[", s, S->var, LN);
        uint8_t *k = malloc(in->ks), *dd = malloc(in->ds ? in->ds : 1);
        int end = 0;
        for (int j = 0; j < cnt; j++) {
            embedDBVarDataStream *vs = NULL;
            int8_t r = S->var ? embedDBNextVar(in->st, &S->it, k, dd, &vs) : embedDBNext(in->st, &S->it, k, dd);
            if (r != 1) { end = 1; break; }
            int rank = rankOf(in, k); int dv = dataVal(in, rank, dd);
            if (S->var) oput("%s[%d,%d,%ld]", j ? "," : "", rank, dv, streamLen(in, vs, rank, dv, 0));
            else oput("%s[%d,%d]", j ? "," : "", rank, dv);
        }
        oput("],\"end\":%d", end);
        free(k); free(dd);
        evTail(in);
        if (end) { embedDBCloseIterator(&S->it); free(S->a); free(S->b); free(S->c); free(S->d); S->used = 0; }
        return;
    }
    if (!strcmp(op, "CL")) {
        for (int s = 0; s < NSLOT; s++) if (SL[s].inst == in->id && SL[s].used) { embedDBCloseIterator(&SL[s].it); SL[s].used = 0; }
        embedDBClose(in->st);
        syncAll(in);
        int fo = filesOpen(in), lm = memLive(in->id);
        free(in->st->buffer); free(in->st);
        gone(in); in->st = NULL;
        evBegin("close", in->id); oput(",\"fo\":%d,\"lm\":%d", fo, lm); evTail(in); return;
    }
    fprintf(stderr, "unknown op %s\n", op);
    _exit(98);
}

/* ---------- script ---------- */
typedef struct { char name[32]; int from, to; } prog_t;
static char **lines; static int nlines;
static prog_t progs[64]; static int nprogs;
static prog_t *findProg(const char *n) { for (int i = nprogs - 1; i >= 0; i--) if (!strcmp(progs[i].name, n)) return &progs[i]; return NULL; }
static void runRange(int from, int to);

typedef struct { char line[512]; int j; prog_t *pr; int mode; long len; int mask; } br_t;
static char lineBuf[8][512];
static void tokenize(const char *line, int lvl) {
    snprintf(lineBuf[lvl], 512, "%s", line);
    ntok = 0;
    for (char *t = strtok(lineBuf[lvl], " \n"); t && ntok < 64; t = strtok(NULL, " \n")) tok[ntok++] = t;
}
static int xlvl = 0;
/* runs the operation in line and lets the store crash in it after j storage mutations; 0: the operation ended before */
static int crashIn(const char *line, int j, int out, int keep) {
    tokenize(line, 7);
    inst_t *in = opInst();
    crashAt = j; crashArmed = 1;
    int saveParent = parentNode;
    if (setjmp(crashJmp) == 0) {
        int devnull = -1, save = outfd;
        if (!keep) { devnull = open("/dev/null", O_WRONLY); outfd = devnull; }
        int nn = sh->nextNode;
        simpleOp();
        crashArmed = 0;
        if (!keep) { outfd = save; sh->nextNode = nn; }
        return 0;
    }
    /* crashed */
    crashArmed = 0;
    tokenize(line, 7);
    outfd = out;
    parentNode = saveParent;
    loseUnflushed(in, lossMask);
    syncAll(in);
    gone(in);
    for (int s = 0; s < NSLOT; s++) if (SL[s].inst == in->id) SL[s].used = 0;
    int rank = -1, d = 0, len = -1;
    const char *ev = !strcmp(tok[0], "P") ? "put" : !strcmp(tok[0], "PV") ? "putv" : !strcmp(tok[0], "F") ? "flush" : !strcmp(tok[0], "OPEN") ? "open" : "other";
    if (tok[0][0] == 'P') { rank = rankTok(in, T(2)); d = dTok(in, T(3), rank); if (tok[0][1] == 'V') len = parseInt(T(4), -1); }
    evBegin("crash", in->id);
    oput(",\"w\":\"%s\",\"k\":%d,\"d\":%d,\"v\":%d,\"j\":%d,\"f\":%d,\"reset\":%d", ev, rank, d, len, j, lossMask, !strcmp(tok[0], "OPEN") && !strcmp(T(2), "reset"));
    evMuts();
    evState(in);
    evEnd();
    nmuts = 0;
    return 1;
}
static void childCrash(void *a) {
    br_t *b = a;
    limit(8);
    lossMask = b->len;
    if (!crashIn(b->line, b->j, b->mask, 0)) _exit(42); /* operation finished before the crash point: enumeration complete */
    lossMask = 0;
    if (b->pr) runRange(b->pr->from, b->pr->to);
    _exit(0);
}
static void childFault(void *a) {
    br_t *b = a;
    limit(8);
    tokenize(b->line, 7);
    failAt = b->j; failLen = b->len; failMask = b->mask; pendingFlt = 1; LN = "I"; fltIdx = b->j;
    int nn = sh->nextNode; (void)nn;
    /* first find out, in a clone, whether this fault point is reached */
    fflush(NULL);
    pid_t p = fork();
    if (p == 0) {
        int devnull = open("/dev/null", O_WRONLY); outfd = devnull;
        pendingFlt = 0;
        limit(8);
        simpleOp();
        _exit(failHit ? 0 : 42);
    }
    int stt; waitpid(p, &stt, 0);
    sh->nextNode = nn;
    if (WIFEXITED(stt) && WEXITSTATUS(stt) == 42) _exit(42);
    simpleOp();
    pendingFlt = 0; failAt = -1; LN = "L";
    if (b->pr) runRange(b->pr->from, b->pr->to);
    _exit(0);
}
static void childBranch(void *a) { br_t *b = a; limit(8); if (b->pr) runRange(b->pr->from, b->pr->to); _exit(0); }

static void runLine(const char *line) {
    if (line[0] == '#' || line[0] == '\n' || !line[0]) return;
    if (!strncmp(line, "CFG ", 4)) {
        char b[512]; snprintf(b, sizeof b, "%s", line + 4);
        int id = atoi(b);
        I[id].id = id;
        setCfg(&I[id], b);
        return;
    }
    if (!strncmp(line, "MOD ", 4)) {
        char b[512]; snprintf(b, sizeof b, "%s", line + 4);
        modCfg(&I[atoi(b)], b);
        return;
    }
    /* X prog maxj op... : crash after each number of storage mutations; XL mask prog maxj op... : and lose what the files in the mask have not flushed */
    if (!strncmp(line, "X ", 2) || !strncmp(line, "XL ", 3)) {
        char pn[32]; int maxj, off, lm = 0;
        if (line[1] == 'L' ? sscanf(line, "XL %d %31s %d %n", &lm, pn, &maxj, &off) < 3 : sscanf(line, "X %31s %d %n", pn, &maxj, &off) < 2) _exit(97);
        br_t b; memset(&b, 0, sizeof b); snprintf(b.line, sizeof b.line, "%s", line + off); b.pr = findProg(pn); b.mask = outfd; b.len = lm;
        for (int j = 0; j < maxj && sh->hung < 3; j++) {
            b.j = j;
            int nn = sh->nextNode;
            int rc = runChild(childCrash, &b);
            if (rc == 42) { sh->nextNode = nn; break; }
            if (rc != 0) { reportDeath(rc); break; }
        }
        runLine(b.line);
        return;
    }
    if (!strncmp(line, "Y ", 2)) { /* Y prog len mask maxj op... : fail the j-th storage call */
        char pn[32]; int len, mask, maxj, off; if (sscanf(line, "Y %31s %d %d %d %n", pn, &len, &mask, &maxj, &off) < 4) _exit(97);
        br_t b; memset(&b, 0, sizeof b); snprintf(b.line, sizeof b.line, "%s", line + off); b.pr = findProg(pn); b.len = len; b.mask = mask;
        for (int j = 0; j < maxj && sh->hung < 3; j++) {
            b.j = j;
            int nn = sh->nextNode;
            int rc = runChild(childFault, &b);
            if (rc == 42) { sh->nextNode = nn; break; }
            if (rc != 0) { reportDeath(rc); break; }
        }
        runLine(b.line);
        return;
    }
    /* XJ j op... : crash after j storage mutations, or between operations if there are not as many; XJL mask j op... : as XL */
    if (!strncmp(line, "XJ ", 3) || !strncmp(line, "XJL ", 4)) {
        int j, off, lm = 0; if (line[2] == 'L' ? sscanf(line, "XJL %d %d %n", &lm, &j, &off) < 2 : sscanf(line, "XJ %d %n", &j, &off) < 1) _exit(97);
        char l[512]; snprintf(l, sizeof l, "%s", line + off);
        lossMask = lm;
        int crashed = crashIn(l, j, outfd, 1);
        lossMask = 0;
        if (!crashed) { tokenize(l, 7); snprintf(l, sizeof l, "DROP %d", opInst()->id); runLine(l); }
        return;
    }
    if (!strncmp(line, "B ", 2)) { /* B prog : explore prog in a branch, then continue from here */
        char pn[32]; sscanf(line, "B %31s", pn);
        br_t b; memset(&b, 0, sizeof b); b.pr = findProg(pn);
        int rc = runChild(childBranch, &b);
        if (rc != 0) reportDeath(rc);
        return;
    }
    tokenize(line, 0);
    if (ntok) simpleOp();
}
static void runRange(int from, int to) {
    for (int i = from; i < to; i++) {
        if (!strncmp(lines[i], "DEF ", 4)) {
            prog_t *p = &progs[nprogs++]; sscanf(lines[i], "DEF %31s", p->name); p->from = ++i;
            while (i < to && strncmp(lines[i], "END", 3)) i++;
            p->to = i; continue;
        }
        runLine(lines[i]);
    }
}
typedef struct { int from, to; } rg_t;
static void childTrace(void *a) { rg_t *r = a; limit(8); runRange(r->from, r->to); _exit(0); }

int main(int argc, char **argv) {
    if (argc < 3) { fprintf(stderr, "usage: driver script out\n"); return 2; }
    FILE *f = fopen(argv[1], "r"); if (!f) { perror("script"); return 2; }
    outfd = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    if (outfd < 0) { perror("out"); return 2; }
    sh = mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    char buf[4096]; int cap = 0;
    while (fgets(buf, sizeof buf, f)) { if (nlines == cap) { cap = cap ? cap * 2 : 1024; lines = realloc(lines, cap * sizeof *lines); } lines[nlines++] = strdup(buf); }
    fclose(f);
    int devnull = open("/dev/null", O_WRONLY); dup2(devnull, 1); /* library chatter */
    for (int i = 0; i < nlines;) {
        if (strncmp(lines[i], "T ", 2)) { i++; continue; }
        traceId = atoi(lines[i] + 2);
        int j = i + 1; while (j < nlines && strncmp(lines[j], "T ", 2)) j++;
        parentNode = 0; nprogs = 0;
        rg_t r = {i + 1, j};
        int rc = runChild(childTrace, &r);
        if (rc != 0) { reportDeath(rc); }
        if (sh->hung >= 3) { fprintf(stderr, "stopped after 3 endless operations\n"); break; }
        i = j;
    }
    return 0;
}
