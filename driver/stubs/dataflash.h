/* host stand-in for the dataflash chip: 4096 pages of 528 bytes, one SRAM buffer */
#ifndef DATAFLASH_STUB
#define DATAFLASH_STUB
#include <stdint.h>
#include <string.h>
typedef struct { uint8_t page[4096][528]; uint8_t buf[528]; int busy; int bad; } memory_t;
#define DATAFLASH_BUSY 1
static inline int get_ready_status(memory_t *m) { return m->busy > 0 ? (m->busy--, 1) : 0; }
static inline void df_erase_chip(memory_t *m) { memset(m->page, 0xFF, sizeof m->page); m->busy = 2; }
static inline void df_main_memory_read(memory_t *m, uint32_t p, uint32_t off, uint8_t *b, uint32_t n) {
    if (p >= 4096 || off + n > 528 || m->busy) { m->bad = 1; return; }
    memcpy(b, m->page[p] + off, n);
}
static inline void df_buffer_1_write(memory_t *m, uint32_t off, uint8_t *b, uint32_t n) {
    if (off + n > 528) { m->bad = 1; return; }
    memcpy(m->buf + off, b, n);
}
static inline void df_buffer_1_to_MM_erase(memory_t *m, uint32_t p) {
    if (p >= 4096 || m->busy) { m->bad = 1; return; }
    memcpy(m->page[p], m->buf, 528); m->busy = 3;
}
#endif
