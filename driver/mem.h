/* memory the library takes and gives back: the library is compiled with malloc, calloc, realloc and free renamed to these */
#ifndef MEM_H
#define MEM_H
#define MEMMAX 65536
static struct { void *p; int owner; } memT[MEMMAX];
static int memN, memOwner;
static void memPut(void *p) { if (!p) return; if (memN == MEMMAX) { fprintf(stderr, "memory table full\n"); _exit(96); } memT[memN].p = p; memT[memN++].owner = memOwner; }
static int memDel(void *p) { for (int i = memN - 1; i >= 0; i--) if (memT[i].p == p) { memT[i] = memT[--memN]; return 1; } return 0; }
static int memLive(int owner) { int c = 0; for (int i = 0; i < memN; i++) c += memT[i].owner == owner; return c; }
static void memForget(int owner) { for (int i = memN - 1; i >= 0; i--) if (memT[i].owner == owner) memT[i] = memT[--memN]; }
void *lib_malloc(size_t n) { void *p = malloc(n); if (p) memset(p, 0x5C, n); memPut(p); return p; }
void *lib_calloc(size_t a, size_t b) { void *p = calloc(a, b); memPut(p); return p; }
void *lib_realloc(void *q, size_t n) { if (q && !memDel(q)) abort(); void *p = realloc(q, n); memPut(p); return p; }
/* what the library frees it must have allocated, and only once */
void lib_free(void *p) { if (!p) return; if (!memDel(p)) { fprintf(stderr, "free of memory that is not allocated\n"); abort(); } free(p); }
#endif
