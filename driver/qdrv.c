/* Conformance driver for the query operators: builds operator trees from a
 * prefix notation, executes them row by row and records schema and rows.
 *   Q slot <tree>     create and initialise a query in a slot
 *   X slot count      execute it so many times
 *   C slot how        close it and free the operators: one by one (0) or as a chain (1)
 *   I slot            initialise it once more before it is executed
 *   N n (size sign)*  create a schema (0 signed, 1 unsigned) and free it again
 * tree: src ncols c.. nrows row..            (custom operator, rows as hex)
 *       scan ncols c.. ks ds lo hi ps flush nrows row..   (table scan of a store with keys of ks and data of ds bytes)
 *       cyc ncols c.. n L m row..           (n rows: column 0 is i/L, the rest row i%m of a table)
 *       proj n c.. <tree> | sel col op hex <tree> | join <tree> <tree>
 *       agg gkind garg nf (kind arg)* <tree>
 * No expected result is known here: TLC judges the events. */
#undef malloc
#undef calloc
#undef realloc
#undef free
#include "fork.h"
#include "mem.h"
#ifdef DISTB
#include "embedDB.h"
#else
#include "embedDB/embedDB.h"
#include "query-interface/advancedQueries.h"
#include "embedDBUtility.h"
#endif

/* in-memory storage */
typedef struct { uint8_t *d; uint32_t n, ps; } mf_t;
static int8_t mOpen(void *f, uint8_t m) { (void)f; (void)m; return 1; }
static int8_t mClose(void *f) { (void)f; return 1; }
static int8_t mFlush(void *f) { (void)f; return 1; }
static int8_t mRead(void *b, uint32_t p, uint32_t ps, void *f) { mf_t *m = f; if (p >= m->n) return 0; memcpy(b, m->d + (size_t)p * ps, ps); return 1; }
static int8_t mWrite(void *b, uint32_t p, uint32_t ps, void *f) { mf_t *m = f; if (p >= m->n) return 0; memcpy(m->d + (size_t)p * ps, b, ps); return 1; }
static int8_t mErase(uint32_t s, uint32_t e, uint32_t ps, void *f) { (void)s; (void)e; (void)ps; (void)f; return 1; }
static embedDBFileInterface FI = {.close = mClose, .read = mRead, .write = mWrite, .erase = mErase, .open = mOpen, .flush = mFlush};

static char *P;
static char *tok(void) {
    while (*P == ' ' || *P == '\n') P++;
    char *s = P;
    while (*P && *P != ' ' && *P != '\n') P++;
    if (*P) *P++ = 0;
    return s;
}
static int num(void) { return atoi(tok()); }

/* keys are unsigned numbers of any width */
static int8_t ucmp(const uint8_t *a, const uint8_t *b, int n) { while (n--) if (a[n] != b[n]) return a[n] < b[n] ? -1 : 1; return 0; }
#define UC(n) static int8_t uc##n(void *a, void *b) { return ucmp(a, b, n); }
UC(1) UC(2) UC(3) UC(4) UC(5) UC(6) UC(7) UC(8)
static int8_t (*UCN[9])(void *, void *) = {0, uc1, uc2, uc3, uc4, uc5, uc6, uc7, uc8};

typedef struct { uint8_t *rows; int n, len, pos, w0, L, m; } src_t;
static void srcInit(embedDBOperator *op) { if (!op->recordBuffer) op->recordBuffer = createBufferFromSchema(op->schema); }
static int8_t srcNext(embedDBOperator *op) {
    src_t *s = op->state;
    if (s->pos >= s->n) return 0;
    memcpy(op->recordBuffer, s->rows + (size_t)s->pos++ * s->len, s->len);
    return 1;
}
static int8_t cycNext(embedDBOperator *op) {
    src_t *s = op->state;
    if (s->pos >= s->n) return 0;
    uint32_t g = s->pos / s->L; uint8_t *b = op->recordBuffer;
    for (int i = 0; i < s->w0; i++) b[i] = i < 4 ? g >> (8 * i) : 0;
    memcpy(b + s->w0, s->rows + (size_t)(s->pos % s->m) * s->len, s->len);
    s->pos++;
    return 1;
}
static void srcClose(embedDBOperator *op) { embedDBFreeSchema(&op->schema); lib_free(op->recordBuffer); op->recordBuffer = NULL; lib_free(op->state); op->state = NULL; }

/* what the user of a query has to free after closing it */
typedef struct { embedDBOperator *ops[64]; int nops, joins; embedDBSchema *sch[64]; int nsch; embedDBState *st[64]; embedDBIterator *it[64]; int nst; } held_t;
static held_t HS[4], *H;
static embedDBOperator *op_(embedDBOperator *o) { if (H->nops < 64) H->ops[H->nops++] = o; return o; }

/* group functions have no context: a fixed pool */
static struct { int kind, arg, off, len; } G[8];
static int nG;
static int8_t same(int g, const void *a, const void *b) {
    const uint8_t *x = a, *y = b;
    x += G[g].off; y += G[g].off;
    if (G[g].kind == 0) return 1;
    if (G[g].kind == 1) return 0;
    if (G[g].kind == 2) return memcmp(x, y, G[g].len) == 0;
    return (x[0] >> G[g].arg) == (y[0] >> G[g].arg) && memcmp(x + 1, y + 1, G[g].len - 1) == 0;
}
#define GF(i) static int8_t g##i(const void *a, const void *b) { return same(i, a, b); }
GF(0) GF(1) GF(2) GF(3) GF(4) GF(5) GF(6) GF(7)
static int8_t (*GFN[8])(const void *, const void *) = {g0, g1, g2, g3, g4, g5, g6, g7};

typedef struct { int off, len, seen; uint8_t v[128]; } pick_t;
static void lastCompute(embedDBAggregateFunc *f, embedDBSchema *sch, void *rec, const void *last) {
    pick_t *p = f->state;
    memcpy((uint8_t *)rec + getColOffsetFromSchema(sch, f->colNum), (const uint8_t *)last + p->off, p->len);
}
static void firstReset(embedDBAggregateFunc *f, embedDBSchema *in) { (void)in; ((pick_t *)f->state)->seen = 0; }
static void firstAdd(embedDBAggregateFunc *f, embedDBSchema *in, const void *rec) {
    (void)in; pick_t *p = f->state;
    if (!p->seen) { memcpy(p->v, (const uint8_t *)rec + p->off, p->len); p->seen = 1; }
}
static void firstCompute(embedDBAggregateFunc *f, embedDBSchema *sch, void *rec, const void *last) {
    (void)last; pick_t *p = f->state;
    memcpy((uint8_t *)rec + getColOffsetFromSchema(sch, f->colNum), p->v, p->len);
}

static embedDBSchema *readSchema(int *len) {
    int n = num();
    int8_t sz[256], sg[256]; *len = 0;
    for (int i = 0; i < n; i++) { int c = num(); sz[i] = abs(c); sg[i] = c < 0 ? embedDB_COLUMN_SIGNED : embedDB_COLUMN_UNSIGNED; *len += abs(c); }
    return embedDBCreateSchema(n, sz, sg);
}
static uint8_t *readRows(int n, int len) {
    uint8_t *r = calloc(n + 1, len + 1);
    for (int i = 0; i < n; i++) if (unhex(tok(), r + (size_t)i * len) != len) { fprintf(stderr, "bad row\n"); _exit(92); }
    return r;
}
/* widths of the output columns, tracked to place the group and pick functions */
typedef struct { int n, w[256]; } wid_t;
static int off(wid_t *w, int c) { int o = 0; for (int i = 0; i < c; i++) o += abs(w->w[i]); return o; }

static embedDBOperator *tree(wid_t *w) {
    char *k = tok();
    if (!strcmp(k, "src")) {
        int len; embedDBSchema *s = readSchema(&len);
        w->n = s->numCols; for (int i = 0; i < w->n; i++) w->w[i] = s->columnSizes[i];
        src_t *st = lib_calloc(1, sizeof *st); st->n = num(); st->len = len; st->rows = readRows(st->n, len);
        embedDBOperator *op = op_(lib_calloc(1, sizeof *op));
        op->state = st; op->schema = s; op->init = srcInit; op->next = srcNext; op->close = srcClose;
        return op;
    }
    if (!strcmp(k, "cyc")) {
        int len; embedDBSchema *s = readSchema(&len);
        w->n = s->numCols; for (int i = 0; i < w->n; i++) w->w[i] = s->columnSizes[i];
        src_t *st = lib_calloc(1, sizeof *st); st->n = num(); st->L = num(); st->m = num();
        st->w0 = abs(w->w[0]); st->len = len - st->w0; st->rows = readRows(st->m, st->len);
        embedDBOperator *op = op_(lib_calloc(1, sizeof *op));
        op->state = st; op->schema = s; op->init = srcInit; op->next = cycNext; op->close = srcClose;
        return op;
    }
    if (!strcmp(k, "scan")) {
        int len; embedDBSchema *s = readSchema(&len);
        w->n = s->numCols; for (int i = 0; i < w->n; i++) w->w[i] = s->columnSizes[i];
        uint8_t *lo = calloc(1, 16), *hi = calloc(1, 16);
        int ks = num(), ds = num(), fits = ks == s->columnSizes[0] && ks + ds == len;
        int nl = unhex(tok(), lo), nh = unhex(tok(), hi);
        int ps = num(), fl = num(), n = num();
        uint8_t *rows = readRows(n, len);
        embedDBState *st = calloc(1, sizeof *st);
        st->keySize = ks; st->dataSize = ds;
        st->pageSize = ps; st->bufferSizeInBlocks = 2; st->buffer = calloc(2, ps);
        st->numSplinePoints = 20;
        mf_t *m = calloc(1, sizeof *m); m->n = 2048; m->d = malloc((size_t)2048 * ps); memset(m->d, 0xFF, (size_t)2048 * ps);
        st->fileInterface = &FI; st->dataFile = m; st->numDataPages = 2048; st->eraseSizeInPages = 4;
        st->parameters = EMBEDDB_RESET_DATA; st->bitmapSize = 0;
        st->compareKey = UCN[st->keySize]; st->compareData = UCN[st->dataSize < 8 ? st->dataSize : 8];
        if (embedDBInit(st, 1) != 0) { fprintf(stderr, "init failed\n"); _exit(92); }
        for (int i = 0; i < n; i++) {
            uint8_t other[8192] = {i}; /* the rows do not describe the records of a store that does not fit the schema */
            uint8_t *rec = fits ? rows + (size_t)i * len : other;
            if (embedDBPut(st, rec, rec + st->keySize) != 0) { fprintf(stderr, "put failed\n"); _exit(92); }
            if (i + 1 == fl) embedDBFlush(st);
        }
        embedDBIterator *it = calloc(1, sizeof *it);
        it->minKey = nl < 0 ? NULL : lo; it->maxKey = nh < 0 ? NULL : hi;
        embedDBInitIterator(st, it);
        H->sch[H->nsch++] = s; H->st[H->nst] = st; H->it[H->nst++] = it;
        return op_(createTableScanOperator(st, it, s));
    }
    if (!strcmp(k, "proj")) {
        int n = num(); uint8_t *c = calloc(n + 1, 1); wid_t in;
        for (int i = 0; i < n; i++) c[i] = num();
        embedDBOperator *op = tree(&in);
        w->n = n; for (int i = 0; i < n; i++) w->w[i] = in.w[c[i]];
        return op_(createProjectionOperator(op, n, c));
    }
    if (!strcmp(k, "sel")) {
        int c = num(), o = num(); uint8_t *v = calloc(1, 256); unhex(tok(), v);
        embedDBOperator *op = tree(w);
        return op_(createSelectionOperator(op, c, o, v));
    }
    if (!strcmp(k, "join")) {
        wid_t a, b; embedDBOperator *x = tree(&a), *y = tree(&b);
        w->n = 0; for (int i = 0; i < a.n; i++) w->w[w->n++] = a.w[i];
        for (int i = 0; i < b.n; i++) w->w[w->n++] = b.w[i];
        H->joins++;
        return op_(createKeyJoinOperator(x, y));
    }
    if (!strcmp(k, "agg")) {
        int gk = num(), ga = num(), nf = num(), kind[256], arg[256];
        for (int i = 0; i < nf; i++) { kind[i] = num(); arg[i] = num(); }
        wid_t in; embedDBOperator *op = tree(&in);
        int g = nG++;
        G[g].kind = gk; G[g].arg = gk == 3 ? ga : 0;
        int gc = gk == 2 ? ga : 0;
        G[g].off = off(&in, gc); G[g].len = abs(in.w[gc]);
        embedDBAggregateFunc *fs = calloc(nf + 1, sizeof *fs);
        w->n = nf;
        for (int i = 0; i < nf; i++) {
            embedDBAggregateFunc *f = NULL, own; memset(&own, 0, sizeof own);
            pick_t *p = calloc(1, sizeof *p);
            int c = arg[i];
            int mo = memOwner; memOwner = 99; /* belongs to the user */
            switch (kind[i]) {
                case 0: f = createCountAggregate(); break;
                case 1: f = createSumAggregate(c); break;
                case 2: f = createMinAggregate(c, in.w[c]); break;
                case 3: f = createMaxAggregate(c, in.w[c]); break;
                case 4: f = createAvgAggregate(c % 100, c / 100); break;
                default: f = &own; own.state = p; p->off = off(&in, c); p->len = abs(in.w[c]); own.colSize = in.w[c];
                    if (kind[i] == 5) own.compute = lastCompute; else { own.reset = firstReset; own.add = firstAdd; own.compute = firstCompute; }
            }
            memOwner = mo;
            fs[i] = *f; w->w[i] = f->colSize;
        }
        return op_(createAggregateOperator(op, GFN[g], fs, nf));
    }
    fprintf(stderr, "bad tree %s\n", k); _exit(92);
}

static struct { embedDBOperator *op; int len; } S[4];
static void runLine(char *line) {
    P = line;
    char *k = tok();
    if (!k[0]) return;
    if (!strcmp(k, "Q")) {
        int s = num(); wid_t w;
        H = &HS[s]; memset(H, 0, sizeof *H); memOwner = s + 1;
        embedDBOperator *op = tree(&w);
        op->init(op);
        S[s].op = op;
        evStart("q"); evInt("s", s);
        evAdd(",\"sch\":[");
        S[s].len = 0;
        if (op->schema && op->recordBuffer) {
            for (int i = 0; i < op->schema->numCols; i++) { evAdd(i ? ",%d" : "%d", op->schema->columnSizes[i]); S[s].len += abs(op->schema->columnSizes[i]); }
        }
        evAdd("]"); evEnd();
    } else if (!strcmp(k, "I")) {
        int s = num();
        if (!S[s].op) return;
        memOwner = s + 1;
        S[s].op->init(S[s].op);
    } else if (!strcmp(k, "N")) {
        int n = num(); int8_t sz[256], sg[256];
        memOwner = 9;
        evStart("n"); evAdd(",\"cols\":[");
        for (int i = 0; i < n; i++) { sz[i] = num(); sg[i] = num(); evAdd(i ? ",[%d,%d]" : "[%d,%d]", sz[i], sg[i]); }
        embedDBSchema *sc = embedDBCreateSchema(n, sz, sg);
        evAdd("]"); evInt("r", sc != NULL); evAdd(",\"sch\":[");
        for (int i = 0; sc && i < sc->numCols; i++) evAdd(i ? ",%d" : "%d", sc->columnSizes[i]);
        evAdd("]"); evInt("len", sc ? getRecordSizeFromSchema(sc) : 0);
        embedDBFreeSchema(&sc);
        evInt("lm", memLive(9)); evEnd();
    } else if (!strcmp(k, "X")) {
        int s = num(), n = num();
        if (!S[s].op) return;
        memOwner = s + 1;
        for (int i = 0; i < n; i++) {
            int r = exec(S[s].op);
            evStart("x"); evInt("s", s); evInt("r", r); evBytes("b", S[s].op->recordBuffer, r ? S[s].len : 0); evEnd();
            if (!r) { static int ends[4]; if (ends[s]++ > 6) return; }
        }
    } else if (!strcmp(k, "C")) {
        int s = num();
        int how = num(); H = &HS[s];
        if (!S[s].op) return;
        memOwner = s + 1;
        S[s].op->close(S[s].op);
        if (how && !H->joins) embedDBFreeOperatorRecursive(&S[s].op);
        else for (int i = 0; i < H->nops; i++) lib_free(H->ops[i]);
        S[s].op = NULL;
        for (int i = 0; i < H->nst; i++) { embedDBCloseIterator(H->it[i]); embedDBClose(H->st[i]); }
        for (int i = 0; i < H->nsch; i++) embedDBFreeSchema(&H->sch[i]);
        S[s].len = 0;
        evStart("c"); evInt("s", s); evInt("lm", memLive(s + 1)); evEnd();
    }
}
int main(int argc, char **argv) { return forkMain(argc, argv, 8); }
