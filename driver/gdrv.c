/* Conformance driver for stores of realistic and extreme sizes: many pages, big pages, big erase blocks, big
 * variable data, ids beyond 16 bits.  Records are numbered; the key of record r is an ascending function of r, its
 * data is r modulo M.  Whole runs of operations are one event, judged by spec/EmbedDBBulkTrace.tla.
 *   I key=val..            configuration (see config())
 *   O reset|keep           open
 *   P n len                n inserts (len -1: embedDBPut, otherwise embedDBPutVar with len bytes)
 *   X j n len              as P, but the store crashes after j storage mutations
 *   U                      flush
 *   G r..                  lookups
 *   V chunk r..            lookups with variable data
 *   S kmin kmax dmin dmax  iteration ("-" = no bound)
 *   C / D                  close / crash between operations */
#undef malloc
#undef calloc
#undef realloc
#undef free
#include "fork.h"
#include <setjmp.h>
#include "mem.h"
#ifdef DISTB
#include "embedDB.h"
#else
#include "embedDB/embedDB.h"
#include "embedDBUtility.h"
#endif
static int ks, ds, ps, N, E, NI, NV, buf, fl, spl, err, bm, er, cmpk, M, kind;
static uint64_t kb, kst;
typedef struct { uint8_t *d; uint32_t ext, n; int exists, opened; } file_t;
static file_t F[3];
static embedDBState *st;
static uint32_t made;                                    /* records accepted so far */
static long muts, crashAt = -1;
static jmp_buf jb;
static uint32_t dirty, outside;                          /* storage discipline: pages written twice without an erase, out of range */
static uint8_t *wr[3];

static void mut(void) { if (crashAt >= 0 && muts >= crashAt) longjmp(jb, 1); muts++; }
static int8_t d_open(void *f, uint8_t mode) {
    file_t *x = f; if (x->opened) abort();
    if (mode == EMBEDDB_FILE_MODE_W_PLUS_B) { x->exists = 1; x->ext = 0; memset(wr[x - F], 0, x->n); return x->opened = 1; }
    return x->exists ? (x->opened = 1) : 0;
}
static int8_t d_close(void *f) { ((file_t *)f)->opened = 0; return 1; }
static int8_t d_flush(void *f) { return 1; }
static int8_t d_read(void *b, uint32_t p, uint32_t s, void *f) { file_t *x = f; if (p >= x->ext || s != (uint32_t)ps) return 0; memcpy(b, x->d + (size_t)p * ps, ps); return 1; }
static int8_t d_write(void *b, uint32_t p, uint32_t s, void *f) {
    file_t *x = f; if (s != (uint32_t)ps) abort();
    mut();
    if (p >= x->n) { outside++; return 1; }
    if (wr[x - F][p]) dirty++;
    wr[x - F][p] = 1;
    memcpy(x->d + (size_t)p * ps, b, ps);
    if (p >= x->ext) x->ext = p + 1;
    return 1;
}
static int8_t d_erase(uint32_t a, uint32_t e, uint32_t s, void *f) {
    file_t *x = f; mut();
    if (a >= e || e > x->n || a % E || e % E) { outside++; return 1; }
    memset(wr[x - F] + a, 0, e - a);
    if (er) { memset(x->d + (size_t)a * ps, er == 1 ? 0xFF : 1, (size_t)(e - a) * ps); if (e > x->ext) x->ext = e; }
    return 1;
}
static embedDBFileInterface FI = {d_read, d_write, d_erase, d_close, d_open, d_flush};

static uint32_t h32(uint32_t a, uint32_t b) { uint32_t x = a * 2654435761u ^ (b * 40503u + 0x9e3779b9u); x ^= x >> 15; x *= 2246822519u; return x ^ x >> 13; }
static uint64_t keyOf(uint32_t r) {
    switch (kind) {
        case 0: return kb + kst * r;
        case 1: return kb + r + kst * (r / 50);                      /* steps */
        case 2: return kb + r + kst * ((uint64_t)(r / 100) * (r / 100)); /* faster and faster */
        case 3: return kb + 2ULL * r * kst + h32(r, 1) % (2 * kst);  /* irregular */
        default: return kb + r * kst + (r >= 40000 ? kst * 1000000 : 0); /* a gap */
    }
}
static long rankOf(uint64_t k, uint32_t n) { uint32_t a = 0, b = n; while (a < b) { uint32_t m = (a + b) / 2; if (keyOf(m) < k) a = m + 1; else b = m; } return a < n && keyOf(a) == k ? (long)a : -1; }
static int8_t ck(void *a, void *b) { uint64_t x = 0, y = 0; memcpy(&x, a, ks); memcpy(&y, b, ks); return x < y ? -1 : x > y; }
static int8_t cd(void *a, void *b) { int32_t x = 0, y = 0; int w = ds < 4 ? ds : 4; memcpy(&x, a, w); memcpy(&y, b, w); return x < y ? -1 : x > y; }
static void dat(uint32_t r, uint8_t *b) { int32_t v = r % M; memcpy(b, &v, ds < 4 ? ds : 4); for (int i = 4; i < ds; i++) b[i] = h32(r, i); }
static int datOk(uint32_t r, const uint8_t *b) { uint8_t t[512]; dat(r, t); return !memcmp(t, b, ds); }
static uint8_t vb(uint32_t r, uint32_t i) { return h32(r, i >> 2) >> (8 * (i & 3)); }
static long streamLen(embedDBVarDataStream *s, uint32_t r, long chunk) {
    if (!s) return -1;
    uint32_t tot = s->totalBytes, got = 0, n; int ok = tot <= 1u << 26;
    uint32_t ch = chunk > 0 ? chunk : tot + 5;
    uint8_t *b = malloc(ok ? ch + 1 : 1);
    while (ok && (n = embedDBVarDataStreamRead(st, s, b, ch)) > 0) { if (n > ch) { ok = 0; break; } for (uint32_t i = 0; i < n; i++) if (b[i] != vb(r, got + i)) ok = 0; got += n; if (got > tot) ok = 0; }
    free(b); lib_free(s);
    return ok && got == tot ? (long)tot : -2000000001L;
}
static void pos(void) { evInt("nx", st ? (int)st->nextDataPageId : 0); evInt("mn", st ? (int)st->minDataPageId : 0); evInt("dirty", dirty); evInt("out", outside); dirty = outside = 0; }
static void gone(void) { for (int i = 0; i < 3; i++) F[i].opened = 0; memForget(0); st = NULL; }
static void config(char *sv) {
    ks = 4; ds = 4; ps = 512; N = 8; E = 2; NI = 4; NV = 8; buf = 6; fl = 0; spl = 30; err = 1; bm = 8; er = 1; M = 100; kind = 0; kb = 0; kst = 1;
    for (char *t = strtok_r(NULL, " \n", &sv); t; t = strtok_r(NULL, " \n", &sv)) {
        char *v = strchr(t, '='); *v++ = 0; int x = atoi(v);
        if (!strcmp(t, "ks")) ks = x; else if (!strcmp(t, "ds")) ds = x; else if (!strcmp(t, "ps")) ps = x; else if (!strcmp(t, "N")) N = x; else if (!strcmp(t, "E")) E = x;
        else if (!strcmp(t, "NI")) NI = x; else if (!strcmp(t, "NV")) NV = x; else if (!strcmp(t, "buf")) buf = x; else if (!strcmp(t, "fl")) fl = x; else if (!strcmp(t, "spl")) spl = x;
        else if (!strcmp(t, "err")) err = x; else if (!strcmp(t, "bm")) bm = x; else if (!strcmp(t, "er")) er = x; else if (!strcmp(t, "M")) M = x; else if (!strcmp(t, "kind")) kind = x;
        else if (!strcmp(t, "kb")) kb = strtoull(v, 0, 0); else if (!strcmp(t, "kst")) kst = strtoull(v, 0, 0);
    }
    int np[3] = {N, NI, NV};
    for (int i = 0; i < 3; i++) { F[i].n = np[i]; F[i].d = calloc(np[i], ps); wr[i] = calloc(np[i], 1); }
    evStart("init"); evInt("N", N); evInt("E", E); evInt("rlc", fl >> 6 & 1); evInt("vdata", fl >> 4 & 1); evInt("NV", NV); evInt("ps", ps); evInt("vh", ks + 4); evInt("M", M); evInt("er", er); evEnd();
}
static void puts_(long n, long len, const char *what, long j) {
    volatile long acc = 0; volatile int r = 0;
    uint8_t *k = malloc(8), *d = malloc(ds), *v = malloc(len > 0 ? len : 1);
    crashAt = -1; muts = 0;
    if (j >= 0) crashAt = j;
    if (setjmp(jb) == 0) {
        for (; acc < n; acc++) {
            uint64_t x = keyOf(made); memcpy(k, &x, 8); dat(made, d);
            if (len < 0) r = embedDBPut(st, k, d);
            else { for (long i = 0; i < len; i++) v[i] = vb(made, i); r = embedDBPutVar(st, k, d, v, len); }
            if (r != 0) break;
            made++;
        }
        crashAt = -1;
        evStart("fill"); evInt("k", n); evInt("acc", acc); evInt("len", len); pos(); evEnd();
        if (j >= 0) { gone(); evStart("drop"); pos(); evEnd(); }
    } else {
        crashAt = -1;
        evStart("crash"); evInt("acc", acc); evInt("len", len); pos(); evEnd(); gone();
    }
    free(k); free(d); free(v);
}
static void runLine(char *line) {
    char *sv = NULL, *o = strtok_r(line, " \n", &sv), *a;
    if (!o || *o == '#') return;
    memOwner = 0;
    if (*o == 'I') { config(sv); return; }
    if (*o == 'O') {
        int reset = !strcmp(strtok_r(NULL, " \n", &sv), "reset");
        gone();
        embedDBState *s = malloc(sizeof *s); memset(s, 0xA5, sizeof *s);
        s->keySize = ks; s->dataSize = ds; s->pageSize = ps; s->bufferSizeInBlocks = buf; s->buffer = malloc((size_t)ps * buf); memset(s->buffer, 0x5A, (size_t)ps * buf);
        s->numDataPages = N; s->numIndexPages = NI; s->numVarPages = NV; s->eraseSizeInPages = E; s->numSplinePoints = spl;
        s->parameters = fl | (reset ? EMBEDDB_RESET_DATA : 0); s->fileInterface = &FI; s->dataFile = &F[0]; s->indexFile = &F[1]; s->varFile = &F[2]; s->bitmapSize = bm / 8;
        if (bm == 8) { s->inBitmap = inBitmapInt8; s->updateBitmap = updateBitmapInt8; s->buildBitmapFromRange = buildBitmapInt8FromRange; }
        if (bm == 16) { s->inBitmap = inBitmapInt16; s->updateBitmap = updateBitmapInt16; s->buildBitmapFromRange = buildBitmapInt16FromRange; }
        if (bm == 64) { s->inBitmap = inBitmapInt64; s->updateBitmap = updateBitmapInt64; s->buildBitmapFromRange = buildBitmapInt64FromRange; }
        s->compareKey = ck; s->compareData = cd;
        int r = embedDBInit(s, err);
        if (r == 0) st = s;
        if (reset) made = 0;
        evStart("open"); evInt("reset", reset); evInt("r", r); evInt("R", r == 0 ? s->maxRecordsPerPage : 0); pos();
        /* how many records the store holds now: the newest key */
        if (r == 0 && !reset) {
            embedDBIterator it; memset(&it, 0, sizeof it); uint8_t *k = malloc(8), *d = malloc(ds); long last = -1; uint64_t x = 0;
            embedDBInitIterator(st, &it);
            while (embedDBNext(st, &it, k, d) == 1) { memcpy(&x, k, ks); last = 0; }
            embedDBCloseIterator(&it);
            if (last == 0) last = rankOf(x, made + 2);
            made = last + 1;
            evInt("last", last);
            free(k); free(d);
        } else evInt("last", -1);
        evEnd();
        return;
    }
    if (!st) return;
    if (*o == 'P') { long n = atol(strtok_r(NULL, " \n", &sv)), len = atol(strtok_r(NULL, " \n", &sv)); puts_(n, len, "fill", -1); return; }
    if (*o == 'X') { long j = atol(strtok_r(NULL, " \n", &sv)), n = atol(strtok_r(NULL, " \n", &sv)), len = atol(strtok_r(NULL, " \n", &sv)); puts_(n, len, "fill", j); return; }
    if (*o == 'U') { int r = embedDBFlush(st); evStart("flush"); evInt("r", r); pos(); evEnd(); return; }
    if (*o == 'C') { embedDBClose(st); gone(); evStart("drop"); pos(); evEnd(); return; }
    if (*o == 'D') { gone(); evStart("drop"); pos(); evEnd(); return; }
    if (*o == 'G') {
        evStart("get"); evAdd(",\"q\":[");
        for (int i = 0; (a = strtok_r(NULL, " \n", &sv)); i++) {
            long r = a[0] == '@' ? (long)made - 1 - atol(a + 1) : atol(a); if (r < 0) r = 0;
            uint64_t x = keyOf(r); uint8_t *k = malloc(ks), *d = malloc(ds); memcpy(k, &x, ks); memset(d, 0xEE, ds);
            int q = embedDBGet(st, k, d);
            evAdd("%s[%ld,%d,%d]", i ? "," : "", r, q, q == 0 ? datOk(r, d) : 0);
            free(k); free(d);
        }
        evAdd("]"); pos(); evEnd(); return;
    }
    if (*o == 'V') {
        long chunk = atol(strtok_r(NULL, " \n", &sv));
        evStart("getv"); evAdd(",\"q\":[");
        for (int i = 0; (a = strtok_r(NULL, " \n", &sv)); i++) {
            long r = a[0] == '@' ? (long)made - 1 - atol(a + 1) : atol(a); if (r < 0) r = 0;
            uint64_t x = keyOf(r); uint8_t *k = malloc(ks), *d = malloc(ds); memcpy(k, &x, ks); memset(d, 0xEE, ds);
            embedDBVarDataStream *s = NULL;
            int q = embedDBGetVar(st, k, d, &s);
            evAdd("%s[%ld,%d,%d,%ld]", i ? "," : "", r, q, q == 0 || q == 1 ? datOk(r, d) : 0, q == 0 ? streamLen(s, r, chunk) : q == 1 ? -2L : -4L);
            free(k); free(d);
        }
        evAdd("]"); pos(); evEnd(); return;
    }
    if (*o == 'S') {
        long b[4]; uint8_t *kk[4]; embedDBIterator it; memset(&it, 0xA5, sizeof it);
        for (int i = 0; i < 4; i++) {
            a = strtok_r(NULL, " \n", &sv); kk[i] = NULL; b[i] = -9;
            if (*a == '-') continue;
            b[i] = a[0] == '@' ? (long)made - 1 - atol(a + 1) : atol(a); if (b[i] < 0) b[i] = 0;
            kk[i] = malloc(512);
            if (i < 2) { uint64_t x = keyOf(b[i]); memcpy(kk[i], &x, 8); } else { int32_t v = b[i]; memset(kk[i], 0, ds); memcpy(kk[i], &v, ds < 4 ? ds : 4); }
        }
        it.minKey = kk[0]; it.maxKey = kk[1]; it.minData = kk[2]; it.maxData = kk[3];
        embedDBInitIterator(st, &it);
        uint8_t *k = malloc(ks), *d = malloc(ds); long cnt = 0, wrong = 0, first = -1, last = -1;
        while (embedDBNext(st, &it, k, d) == 1) {
            uint64_t x = 0; memcpy(&x, k, ks); long r = rankOf(x, made + 2);
            if (r < 0 || r <= last || !datOk(r, d)) wrong++;
            if (first < 0) first = r;
            last = r;
            if (++cnt > 10000000) break;
        }
        embedDBCloseIterator(&it);
        evStart("scan"); evInt("kmin", b[0]); evInt("kmax", b[1]); evInt("dmin", b[2]); evInt("dmax", b[3]); evInt("cnt", cnt); evInt("first", first); evInt("last", last); evInt("wrong", wrong); pos(); evEnd();
        for (int i = 0; i < 4; i++) free(kk[i]);
        free(k); free(d); return;
    }
}
int main(int argc, char **argv) { setvbuf(stdout, NULL, _IOFBF, 1 << 16); return forkMain(argc, argv, 60); }
