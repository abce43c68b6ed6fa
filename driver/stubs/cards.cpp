/* the simulated card and chip, in memory that survives the death of a process */
#include <sys/mman.h>
#include "SdFat.h"
#include "dataflash.h"
CardFile workFile[4];
static Card *card;
static memory_t *chip;
extern "C" Card *theCard(void) { return card; }
extern "C" void init_sdcard(void *sd);
extern "C" void init_df(void *df);
static SdFat32 sd;
extern "C" void cardsMap(void) {
    card = (Card *)mmap(0, sizeof *card, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    chip = (memory_t *)mmap(0, sizeof *chip, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    card->trace = -1;
    init_sdcard(&sd); init_df(chip);
}
extern "C" void cardsStart(int trace) {      /* a new trace starts with an empty card; every start has a fresh limit */
    if (card->trace != trace) { for (int i = 0; i < 4; i++) { card->f[i].used = 0; card->f[i].len = 0; } df_erase_chip(chip); }
    card->trace = trace; card->limit = 1u << 23; chip->busy = 0;
}
extern "C" void cardsLimit(uint32_t n) { card->limit = n; }
extern "C" int chipBad(void) { return chip->bad; }
