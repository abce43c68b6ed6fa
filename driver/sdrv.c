/* Conformance driver for the learned index (spline): 
 *   I size maxError keySize offset (added to page numbers, which are reported without it) | A key page | E n | F key.. | Z (close)
 * keys are decimal numbers and appear in the events as decimal strings. */
#include "fork.h"
#ifdef DISTB
#include "embedDB.h"
#else
#include "spline/spline.h"
#endif
static int8_t ucmp(const uint8_t *a, const uint8_t *b, int n) { while (n--) if (a[n] != b[n]) return a[n] < b[n] ? -1 : 1; return 0; }
#define UC(n) static int8_t uc##n(void *a, void *b) { return ucmp(a, b, n); }
UC(1) UC(2) UC(3) UC(4) UC(5) UC(6) UC(7) UC(8)
static int8_t (*UCN[9])(void *, void *) = {0, uc1, uc2, uc3, uc4, uc5, uc6, uc7, uc8};
static spline S;
static int ks;
static uint32_t off;
static int rel(id_t p) { int64_t x = (int64_t)p - off; return x > 0x7fffffff ? 0x7fffffff : x < -0x7ffffff0 ? -0x7ffffff0 : (int)x; }
static void runLine(char *line) {
    char *sv = NULL, *k = strtok_r(line, " \n", &sv), *a;
    if (!k) return;
    if (k[0] == 'I') {
        int size = atoi(strtok_r(NULL, " \n", &sv)), err = atoi(strtok_r(NULL, " \n", &sv));
        ks = atoi(strtok_r(NULL, " \n", &sv));
        char *o = strtok_r(NULL, " \n", &sv); off = o ? strtoul(o, NULL, 10) : 0;
        memset(&S, 0x5a, sizeof S);
        splineInit(&S, size, err, ks);
        evStart("si"); evInt("size", size); evInt("err", err); evEnd();
    } else if (k[0] == 'A') {
        char *ke = strtok_r(NULL, " \n", &sv);
        uint64_t v = strtoull(ke, NULL, 10);
        uint32_t page = strtoul(strtok_r(NULL, " \n", &sv), NULL, 10);
        uint8_t *b = malloc(ks);  /* exactly the key: an overrun shows under the address sanitizer */
        memcpy(b, &v, ks);
        splineAdd(&S, b, page + off);
        free(b);
        evStart("sa"); evAdd(",\"k\":\"%s\"", ke); evInt("pg", page); evInt("cnt", S.count); evEnd();
    } else if (k[0] == 'E') {
        int n = atoi(strtok_r(NULL, " \n", &sv)), c0 = S.count;
        int r = splineErase(&S, n);
        evStart("se"); evInt("e", n); evInt("r", r); evInt("c0", c0); evInt("cnt", S.count); evEnd();
    } else if (k[0] == 'F' && S.count) {   /* the engine does not search an empty index */
        evStart("sf");
        uint64_t p0 = 0;
        memcpy(&p0, splinePointLocation(&S, 0), ks);
        evAdd(",\"k0\":\"%llu\",\"q\":[", (unsigned long long)p0);
        for (int i = 0; (a = strtok_r(NULL, " \n", &sv)); i++) {
            uint64_t v = strtoull(a, NULL, 10);
            uint8_t *b = malloc(ks); memcpy(b, &v, ks);
            id_t loc = 0x7ffffff1, lo = 0x7ffffff2, hi = 0x7ffffff3;
            splineFind(&S, b, UCN[ks], &loc, &lo, &hi);
            free(b);
            evAdd("%s[\"%s\",%d,%d,%d]", i ? "," : "", a, rel(loc), rel(lo), rel(hi));
        }
        evAdd("]"); evEnd();
    } else if (k[0] == 'Z') splineClose(&S);
}
int main(int argc, char **argv) { return forkMain(argc, argv, 8); }
