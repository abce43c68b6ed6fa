/* Conformance driver for the data bitmaps and comparators of the utility library:
 *   U fam value hexbitmap            update a bitmap that has some bits set already
 *   R fam min|- max|- value..        build the bitmap of a range, then test values
 *   C width hexa hexb                comparators
 * Bitmaps appear in the events as lists of the positions of the bits that are set. */
#include "fork.h"
#ifdef DISTB
#include "embedDB.h"
#else
#include "embedDBUtility.h"
#endif
typedef void (*upd_t)(void *, void *);
typedef void (*rng_t)(void *, void *, void *);
typedef int8_t (*in_t)(void *, void *);
static upd_t UP(int f) { return f == 8 ? updateBitmapInt8 : f == 16 ? updateBitmapInt16 : updateBitmapInt64; }
static rng_t RG(int f) { return f == 8 ? buildBitmapInt8FromRange : f == 16 ? buildBitmapInt16FromRange : buildBitmapInt64FromRange; }
static in_t IB(int f) { return f == 8 ? inBitmapInt8 : f == 16 ? inBitmapInt16 : inBitmapInt64; }
static void bits(const char *sep, const uint8_t *b, int n) {
    evAdd("%s[", sep);
    int k = 0;
    for (int i = 0; i < 8 * n; i++) if (b[i / 8] >> (i % 8) & 1) evAdd("%s%d", k++ ? "," : "", i);
    evAdd("]");
}
/* exactly as many bytes as the family reads: an overrun shows under the address sanitizer */
static void *val(int f, long v) { void *p = malloc(f == 8 ? 2 : 4); int16_t a = v; int32_t b = v; memcpy(p, f == 8 ? (void *)&a : (void *)&b, f == 8 ? 2 : 4); return p; }
static uint8_t *bm(int f, int fill) { uint8_t *p = malloc(f / 8); memset(p, fill, f / 8); return p; }
static void runLine(char *line) {
    char *sv = NULL, *k = strtok_r(line, " \n", &sv), *a;
    if (!k) return;
    if (k[0] == 'U') {
        int f = atoi(strtok_r(NULL, " \n", &sv)); long v = atol(strtok_r(NULL, " \n", &sv));
        uint8_t *b = bm(f, 0), *z = bm(f, 0); uint8_t tmp[64];
        unhex(strtok_r(NULL, " \n", &sv), tmp); memcpy(b, tmp, f / 8);
        void *d = val(f, v), *d2 = val(f, v);
        evStart("upd"); evInt("f", f); evInt("v", v);
        bits(",\"b0\":", b, f / 8);
        evInt("in0", IB(f)(d, b));
        UP(f)(d, b); UP(f)(d, z);
        bits(",\"b1\":", b, f / 8); bits(",\"z\":", z, f / 8);
        evInt("in1", IB(f)(d, b));
        evInt("same", memcmp(d, d2, f == 8 ? 2 : 4) == 0);
        evEnd();
        free(b); free(z); free(d); free(d2);
    } else if (k[0] == 'R') {
        int f = atoi(strtok_r(NULL, " \n", &sv));
        char *lo = strtok_r(NULL, " \n", &sv), *hi = strtok_r(NULL, " \n", &sv);
        int hl = strcmp(lo, "-") != 0, hh = strcmp(hi, "-") != 0;
        void *l = hl ? val(f, atol(lo)) : NULL, *h = hh ? val(f, atol(hi)) : NULL;
        uint8_t *b = bm(f, 0x35);
        RG(f)(l, h, b);
        evStart("rng"); evInt("f", f); evInt("hl", hl); evInt("lo", hl ? atol(lo) : 0); evInt("hh", hh); evInt("hi", hh ? atol(hi) : 0);
        bits(",\"b\":", b, f / 8);
        evAdd(",\"q\":[");
        for (int i = 0; (a = strtok_r(NULL, " \n", &sv)); i++) {
            void *d = val(f, atol(a)); uint8_t *z = bm(f, 0);
            UP(f)(d, z);
            evAdd("%s[%ld,%d,", i ? "," : "", atol(a), IB(f)(d, b));
            bits("", z, f / 8); evAdd("]");
            free(d); free(z);
        }
        evAdd("]"); evEnd();
        free(l); free(h); free(b);
    } else if (k[0] == 'C') {
        int w = atoi(strtok_r(NULL, " \n", &sv)); uint8_t x[64], y[64];
        unhex(strtok_r(NULL, " \n", &sv), x); unhex(strtok_r(NULL, " \n", &sv), y);
        void *p = malloc(w), *q = malloc(w); memcpy(p, x, w); memcpy(q, y, w);
        evStart("cmp"); evBytes("a", p, w); evBytes("b", q, w);
        evInt("r", w == 4 ? int32Comparator(p, q) : int64Comparator(p, q));
        evInt("rr", w == 4 ? int32Comparator(q, p) : int64Comparator(q, p));
        evEnd();
        free(p); free(q);
    }
}
int main(int argc, char **argv) { return forkMain(argc, argv, 8); }
