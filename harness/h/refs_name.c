/* Forward references to two labels of any length that differ in one place at most, or of which one starts with the other. */
#include "check.h"
#ifndef LENS
#define LENS 1, 2, 7, 8, 15, 16, 17, 31, 32, 33, 47, 48, 49, 61, 62, 63
#endif
static unsigned n, p;
static int c1, c2;
static void name(int c, unsigned len)
{
	for (unsigned i = 0; i < len; i++)
		s_c(i == p ? c : i ? "_aZ9"[i & 3] : 'Q');
}
void harness(void)
{
	static const unsigned char lens[] = {LENS};
	n = lens[sx_choice(sizeof lens)];
	p = sx_choice(n);
	c1 = 'G';
	c2 = "GgH_"[sx_choice(4 - (p == 0))];
	unsigned m = n - (n > 1 && sx_choice(2)), how = sx_choice(4);
	s_s(" JMP ");
	name(c1, n);
	s_s("\n BNE ");
	name(c2, m);
	s_s(" ; x\n");
	name(c1, n);
	s_s(": NOP\n");
	if (how) {
		if (how == 1)
			s_s(".DEFINE ");
		name(c2, m);
		s_s(how == 1 ? " 9\n" : how == 2 ? " INX\n" : " = ");
		if (how == 3)
			NUM();
	}
	h_assemble(A_STATUS | A_DIAG | A_COL | A_QUOTE | A_IMAGE);
}
