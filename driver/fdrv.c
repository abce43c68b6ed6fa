/* Conformance driver for the storage interfaces: desktop files (all in the
 * directory named by SCRATCH), and, with -DSDIF or -DDFIF, the SD card and the
 * dataflash adapters on the simulated devices of stubs/.
 *   Q mock ps seed | N f | O f mode | W f page id | R f page | E f a b | S f | C f | D f | K (kill -9) | L bytes (file size limit)
 *   H n mask: in the next operation the n-th transfer of a kind in mask goes wrong (1 read, 2 write, 4 flush, 8 seek) */
#define EVPIPE
#include "fork.h"
#if defined(SDIF) || defined(DFIF)
#include "embedDB/embedDB.h"
embedDBFileInterface *getSDInterface();
void *setupSDFile(char *filename);
void tearDownSDFile(void *file);
embedDBFileInterface *getDataflashInterface();
void *setupDataflashFile(uint32_t startPage, uint32_t numPages);
void tearDownDataflashFile(void *file);
void cardsMap(void); void cardsStart(int trace); void cardsLimit(uint32_t n); int chipBad(void);
#else
#include "desktopFileInterface.h"
#endif
/* failing transfers */
static int hurtAt = -1, hurtMask, hurt;
int devFault(int kind) { if (hurtAt < 0 || !(kind & hurtMask) || hurtAt-- > 0) return 0; hurt = 1; return 1; }
#ifdef DFIF
int32_t dfread(int32_t p, void *b, int32_t n); int32_t dfwrite(int32_t p, void *b, int32_t n);
int32_t vt_dfread(int32_t p, void *b, int32_t n) { if (devFault(1)) return n / 2 ? dfread(p, b, n / 2) : 0; return dfread(p, b, n); }
int32_t vt_dfwrite(int32_t p, void *b, int32_t n) { if (devFault(2)) return n / 2 ? dfwrite(p, b, n / 2) : 0; return dfwrite(p, b, n); }
#elif !defined(SDIF)
size_t __real_fread(void *, size_t, size_t, FILE *); size_t __real_fwrite(const void *, size_t, size_t, FILE *);
int __real_fflush(FILE *); int __real_fseek(FILE *, long, int);
size_t __wrap_fread(void *b, size_t n, size_t m, FILE *f) { return devFault(1) ? (n ? __real_fread(b, 1, n * m / 2, f) / n : 0) : __real_fread(b, n, m, f); }
size_t __wrap_fwrite(const void *b, size_t n, size_t m, FILE *f) { return devFault(2) ? (n ? __real_fwrite(b, 1, n * m / 2, f) / n : 0) : __real_fwrite(b, n, m, f); }
int __wrap_fflush(FILE *f) { return f && devFault(4) ? EOF : __real_fflush(f); }
int __wrap_fseek(FILE *f, long o, int w) { return devFault(8) ? -1 : __real_fseek(f, o, w); }
#endif
static embedDBFileInterface *FI;
static void *H[4];
static int ps;
static unsigned seed;
static uint32_t hh(uint32_t a, uint32_t b) { uint32_t x = a * 2654435761u ^ (b * 40503u + 0x9e3779b9u); x ^= x >> 15; x *= 2246822519u; x ^= x >> 13; return x; }
static void fill(uint8_t *b, uint32_t id) { memcpy(b, &id, 4); for (int i = 4; i < ps; i++) b[i] = hh(id + seed, i) >> 7; }
static void ret(long r) { evInt("x", hurt); evInt("r", r != 0); evEnd(); hurt = 0; hurtAt = -1; }
static void runLine(char *line) {
    char k = line[0];
    unsigned f = 0, a = 0, b = 0;
    sscanf(line + 1, "%u %u %u", &f, &a, &b);
#ifdef SDIF
    if (k == 'Q') { cardsStart(evTrace); FI = getSDInterface(); ps = a; seed = b; return; }
    if (k == 'L') { cardsLimit(f); evStart("limit"); evInt("f", 0); evEnd(); return; }
    if (k == 'N') { char n[64]; sprintf(n, "t%d-%u.bin", evTrace, f); H[f] = setupSDFile(n); memset(n, 'x', 63); return; }
    if (k == 'D') { tearDownSDFile(H[f]); H[f] = NULL; evStart("close"); evInt("f", f); ret(1); return; }
#elif defined(DFIF)
    if (k == 'Q') { cardsStart(evTrace); FI = getDataflashInterface(); ps = a; seed = b; return; }
    if (k == 'L') return;
    if (k == 'A') { H[f] = setupDataflashFile(a, b); evStart("area"); evInt("f", f); evInt("cap", b); evEnd(); return; }
    if (k == 'N') return;
    if (k == 'D') { tearDownDataflashFile(H[f]); H[f] = NULL; evStart("close"); evInt("f", f); ret(1); return; }
#else
    if (k == 'L') { signal(SIGXFSZ, SIG_IGN); struct rlimit rl = {f, f}; setrlimit(RLIMIT_FSIZE, &rl); evStart("limit"); evInt("f", 0); evEnd(); return; }
    if (k == 'N') {
        char *n = malloc(strlen(getenv("SCRATCH")) + 64);
        sprintf(n, "%s/trace %d file %u.bin", getenv("SCRATCH"), evTrace, f);
        H[f] = setupFile(n);
        memset(n, 'x', strlen(n)); free(n);
        return;
    }
    if (k == 'D') { tearDownFile(H[f]); H[f] = NULL; evStart("close"); evInt("f", f); ret(1); return; }
    if (k == 'Q') { FI = f ? getMockEraseFileInterface() : getFileInterface(); ps = a; seed = b; return; }
#endif
    if (k == 'H') { hurtAt = f; hurtMask = a; hurt = 0; return; }
    if (k == 'K') { evStart("kill"); evInt("f", 0); evEnd(); raise(SIGKILL); }
    if (k == 'O') { int r = FI->open(H[f], a == 0 ? EMBEDDB_FILE_MODE_W_PLUS_B : EMBEDDB_FILE_MODE_R_PLUS_B); evStart("open"); evInt("f", f); evInt("keep", a != 0); ret(r); }
    else if (k == 'W') {
        uint8_t *p = malloc(ps), *q = malloc(ps); fill(p, b); memcpy(q, p, ps);
        int r = FI->write(p, a, ps, H[f]);
        evStart("write"); evInt("f", f); evInt("pg", a > 2147483647 ? 2147483647 : a); evInt("v", memcmp(p, q, ps) ? -3 : (long)b); ret(r);
        memset(p, 0xEE, ps); free(p); free(q);
    } else if (k == 'R') {
        uint8_t *p = malloc(ps), *q = malloc(ps); memset(p, 0xCC, ps);
        int r = FI->read(p, a, ps, H[f]);
#ifdef DFIF
        if (chipBad()) { free(p); abort(); }
#endif
        uint32_t id; memcpy(&id, p, 4); fill(q, id);
        evStart("read"); evInt("f", f); evInt("pg", a > 2147483647 ? 2147483647 : a); evInt("v", id <= 1000000000u && memcmp(p, q, ps) == 0 ? (long)id : -3); ret(r);
        free(p); free(q);
    } else if (k == 'E') { int r = FI->erase(a, b, ps, H[f]); evStart("erase"); evInt("f", f); evInt("a", a); evInt("b", b); ret(r); }
    else if (k == 'S') { int r = FI->flush(H[f]); evStart("sync"); evInt("f", f); ret(r); }
    else if (k == 'C') { int r = FI->close(H[f]); evStart("close"); evInt("f", f); ret(r); }
}
int main(int argc, char **argv) {
#if defined(SDIF) || defined(DFIF)
    cardsMap();
#endif
    return forkMain(argc, argv, 8);
}
