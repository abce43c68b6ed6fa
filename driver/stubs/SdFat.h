/* Host stand-in for SdFat: files on a simulated card.  As with the real library
 * seeking past the end fails, reading stops at the end, what was written is on
 * the card after flush or close, and a full card makes writes fail. */
#ifndef SDFAT_STUB
#define SDFAT_STUB
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <fcntl.h>
#ifndef O_READ
#define O_READ 0x1000
#define O_WRITE 0x2000
#endif
struct CardFile { char name[200]; int used; uint32_t len; uint8_t data[1 << 23]; };
static inline void copyCard(CardFile *to, const CardFile *from) { memcpy(to, from, offsetof(CardFile, data) + from->len); }
struct Card { int trace; uint32_t limit; CardFile f[4]; };
extern "C" Card *theCard(void);
extern "C" int devFault(int kind); /* 1 read, 2 write, 8 seek: this transfer goes wrong */
extern CardFile workFile[4];      /* what the running process sees */
class File32 {
    int h;
    uint32_t pos;
    bool wr, rd;
   public:
    File32() : h(-1), pos(0), wr(false), rd(false) {}
    File32(int i, bool w, bool r) : h(i), pos(0), wr(w), rd(r) {}
    bool isOpen() { return h >= 0; }
    bool truncate(uint32_t n) { if (h < 0 || !wr || n > workFile[h].len) return false; workFile[h].len = n; if (pos > n) pos = n; flush(); return true; }
    int read(void *b, size_t n) { if (h < 0 || !rd) return -1; if (devFault(1)) { if (n % 3) return -1; n /= 2; } size_t k = workFile[h].len - pos; if (n > k) n = k; memcpy(b, workFile[h].data + pos, n); pos += n; return (int)n; }
    bool seek(uint32_t p) { if (h < 0 || devFault(8) || p > workFile[h].len) return false; pos = p; return true; }
    size_t write(const void *b, size_t n) {
        if (h < 0 || !wr || pos + n > theCard()->limit || pos + n > sizeof workFile[h].data) return 0;
        if (devFault(2)) n /= 2;
        memcpy(workFile[h].data + pos, b, n); pos += n; if (pos > workFile[h].len) workFile[h].len = pos; return n;
    }
    uint32_t size() { return h < 0 ? 0 : workFile[h].len; }
    void flush() { if (h >= 0) copyCard(&theCard()->f[h], &workFile[h]); }
    bool close() { flush(); h = -1; return true; }
};
class SdFat32 {
   public:
    File32 open(const char *name, int mode) {
        for (int i = 0; i < 4; i++) if (theCard()->f[i].used && !strcmp(theCard()->f[i].name, name)) {
            copyCard(&workFile[i], &theCard()->f[i]);
            return File32(i, mode != O_READ, mode != O_WRITE);
        }
        if (!(mode & O_CREAT)) return File32();
        for (int i = 0; i < 4; i++) if (!theCard()->f[i].used) {
            strcpy(theCard()->f[i].name, name); theCard()->f[i].used = 1; theCard()->f[i].len = 0;
            copyCard(&workFile[i], &theCard()->f[i]);
            return File32(i, true, mode != (O_WRITE | O_CREAT));
        }
        return File32();
    }
};
#endif
