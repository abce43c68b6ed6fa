/* shared by the small conformance drivers: one forked child per trace, one
 * JSON event per line: {"n":node,"p":parent,"t":trace,"op":...}.  A child that
 * dies or uses up its processor time leaves an event "died". */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

static volatile int *shNode, *shLast, *shHung, *shDone;
static int evFd, evTrace;
static char evBuf[1 << 20];
static int evLen;
static void evAdd(const char *f, ...) {
    va_list a; va_start(a, f);
    evLen += vsnprintf(evBuf + evLen, sizeof evBuf - evLen - 2, f, a);
    va_end(a);
    if (evLen > (int)sizeof evBuf - 100) { fprintf(stderr, "event too long\n"); _exit(90); }
}
static void evStart(const char *op) {
    evLen = 0;
    int n = ++*shNode;
    evAdd("{\"n\":%d,\"p\":%d,\"t\":%d,\"op\":\"%s\"", n, *shLast, evTrace, op);
    *shLast = n;
}
static void evBytes(const char *name, const void *p, int len) {
    const uint8_t *b = p;
    evAdd(",\"%s\":[", name);
    for (int i = 0; i < len; i++) evAdd(i ? ",%d" : "%d", b[i]);
    evAdd("]");
}
static void evInt(const char *name, long v) { evAdd(",\"%s\":%ld", name, v); }
static void evEnd(void) {
    evAdd("}\n");
    for (int o = 0; o < evLen;) { int k = write(evFd, evBuf + o, evLen - o); if (k <= 0) _exit(91); o += k; }
}
/* values on the 64-bit line are logged as 8 bytes, least significant first */
static void evU64(const char *name, uint64_t v) { uint8_t b[8]; for (int i = 0; i < 8; i++) b[i] = v >> (8 * i); evBytes(name, b, 8); }
static int unhex(const char *s, uint8_t *out) {
    int n = 0;
    if (s[0] == '-') return -1;
    for (; s[0] && s[1]; s += 2) { char t[3] = {s[0], s[1], 0}; out[n++] = strtol(t, NULL, 16); }
    return n;
}
static void runLine(char *line);
static int forkMain(int argc, char **argv, int cpu) {
    if (argc < 3) return 2;
    int *m = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    shNode = m; shLast = m + 1; shHung = m + 2; shDone = m + 3;
    evFd = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
#ifdef EVPIPE /* events go through another process, so that limits set on this one do not concern them */
    int pp[2]; if (pipe(pp)) return 2;
    pid_t logger = fork();
    if (logger == 0) {
        char b[65536]; ssize_t n;
        close(pp[1]);
        while ((n = read(pp[0], b, sizeof b)) > 0) for (ssize_t o = 0; o < n;) { ssize_t w = write(evFd, b + o, n - o); if (w <= 0) _exit(1); o += w; }
        _exit(0);
    }
    close(pp[0]); close(evFd); evFd = pp[1];
#endif
    FILE *f = fopen(argv[1], "r");
    if (!f || evFd < 0) return 2;
    char *line = NULL; size_t cap = 0; ssize_t k;
    char **L = NULL; int nL = 0, cL = 0, have = 0;
    for (;;) {
        k = getline(&line, &cap, f);
        int isT = k > 0 && line[0] == 'T' && line[1] == ' ';
        if ((k < 0 || isT) && have && *shHung < 3) {
            *shLast = 0;
            int from = 0;
        again:
            *shDone = 0;
            pid_t p = fork();
            if (p == 0) {
                struct rlimit rl = {cpu, cpu + 1}; setrlimit(RLIMIT_CPU, &rl);
                for (int i = from; i < nL; i++) { *shDone = i + 1; runLine(L[i]); }
                _exit(0);
            }
            int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR);
            /* a script may ask for the process to be killed; the next process goes on from there */
            if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && *shDone > 0 && !strncmp(L[*shDone - 1], "K", 1)) { from = *shDone; goto again; }
            if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
                if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL)) ++*shHung;
                if (WIFEXITED(st) && (WEXITSTATUS(st) == 90 || WEXITSTATUS(st) == 91 || WEXITSTATUS(st) == 92)) return 3;
                evStart("died"); evInt("st", st); evEnd();
            }
        }
        if (k < 0) break;
        if (isT) { for (int i = 0; i < nL; i++) free(L[i]); nL = 0; have = 1; evTrace = atoi(line + 2); continue; }
        if (nL == cL) L = realloc(L, (cL = cL * 2 + 64) * sizeof *L);
        L[nL++] = strdup(line);
    }
#ifdef EVPIPE
    close(evFd);
    int ls = 0; waitpid(logger, &ls, 0);
    if (ls != 0) return 3;
#endif
    return 0;
}
