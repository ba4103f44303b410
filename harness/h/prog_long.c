/* Many instructions: two pieces of n and m bytes, one of them at a symbolic origin. */
#include "check.h"
#ifndef SIZES
#define SIZES 3, 10, 100, 127, 128, 255, 256, 257
#endif
static void num(void) /* no address is beyond the end: programs that are too long are in h/prog.c */
{
	s_bin(0);
	s_c('0');
	for (int i = 0; i < 15; i++)
		s_c('0' + (int)sx_range(0, 1));
}
void harness(void)
{
	static const unsigned short sizes[] = {SIZES};
	unsigned k = sizeof sizes / sizeof *sizes;
	unsigned n = sizes[sx_choice(k)], m = sizes[sx_choice(k)], w = 1 + sx_choice(2), which = sx_choice(2);
	s_s("* = ");
	if (which)
		num();
	else
		s_s("$1234");
	s_s("\nBCC L\nJMP L\n" + (sx_choice(2) ? 0 : 7));
	for (unsigned i = 0; i < n; i += w)
		s_s(w == 1 ? "INX\n" : "LDA #7\n");
	s_s(".ORG ");
	if (which)
		s_s("500");
	else
		num();
	s_s("\nL\n");
	for (unsigned i = 0; i < m; i++)
		s_s("SEI\n");
	s_s("JMP L\n");
	h_assemble(A_STATUS | A_IMAGE | A_BYTES | A_SYMS);
}
