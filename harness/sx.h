/* The interface between harnesses and the symbolic executor (engine/gsx.cpp).
   sx_native.c implements the same interface for concrete replay. */
#ifndef SX_H
#define SX_H
#include <stddef.h>
#include <stdint.h>
uint8_t sx_byte(void);                            /* any byte */
unsigned sx_range(unsigned lo, unsigned hi);      /* any value in lo..hi (<=255), kept symbolic */
unsigned sx_choice(unsigned n);                   /* any value in 0..n-1, one path each */
void sx_assume(int c);
void sx_assert_(int c, const char *msg);
void sx_observe(uint64_t v);                      /* compared between symbolic run and replay */
__attribute__((nomerge)) void sx_cover(const char *label); /* must be reached by some path */
void sx_done(void) __attribute__((noreturn));     /* end of this path */
void sx_fail(const char *msg) __attribute__((noreturn));
uint64_t sx_conc(uint64_t v);                     /* one path per value */
int sx_is_symbolic(uint64_t v);
int sx_live_heap(void);
#define SX_STR2(x) #x
#define SX_STR(x) SX_STR2(x)
#define sx_assert(c, msg) sx_assert_(!!(c), msg)
#endif
