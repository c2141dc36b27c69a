/* Looks for secret byte strings in the memory an implementation can leave them in:
 * its stack, its static data and the heap blocks it allocated. */
#ifndef WATCH_H
#define WATCH_H
#include "engine.h"
void watch_reset(void);
/* every 8-byte window of p that is not also a window of one of the given public inputs */
void watch_add(const u8 *p, size_t n, const char *what);
void watch_public(const u8 *p, size_t n);
const char *watch_scan(const u8 *lo, const u8 *hi, const u8 **where);
const char *watch_statics(const u8 **where);
const char *watch_heap(const u8 **where);
int watch_windows(void);

/* stack painting */
#define PAINT (96 * 1024)
u8 *stack_paint(u8 v);                 /* returns the lowest painted address */
size_t stack_used(u8 *lo, u8 v);       /* bytes of the painted area that were overwritten */

/* heap interposition: counts what the code under test allocates while heap_watch is set */
extern int heap_watch;
extern u64 heap_calls, heap_bytes;
extern struct hblk { u8 *p; size_t n; } heap_blk[64];
extern int heap_nblk;
#endif
