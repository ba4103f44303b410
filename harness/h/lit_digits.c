/* Long literals: leading zeros, every value, overflow by any number of digits.
   The literal is used in every place where the syntax has one. */
#include "check.h"
#ifndef MAXD
#define MAXD 24
#endif
/* 0..n-1 or one of the larger numbers */
static unsigned number(unsigned n)
{
	static const unsigned short big[] = {31, 32, 33, 40, 49, 50, 62, 63, 64, 65, 79, 80, 99, 100, 127, 128, 255, 256, 300, 1000};
	unsigned k = sx_choice(n + sizeof big / sizeof *big);
	return k < n ? k : big[k - n];
}
static const char hexd[] = "0123456789ABCDEFabcdef";
void harness(void)
{
	unsigned place = sx_choice(6);
	switch (place) {
	case 0: s_s("JMP "); break;
	case 1: s_s("V = "); break;
	case 2: s_s("V .EQU "); break;
	case 3: s_s(".DEFINE V "); break;
	case 4: s_s(".ORG "); break;
	case 5: s_s("* = "); break;
	}
	unsigned base = sx_choice(3);
	if (base == 0)
		s_c('$');
	if (base == 1)
		s_c('%');
	unsigned shape = sx_choice(2), n;
	if (shape == 0) {
		/* leading zeros, then arbitrary digits */
		unsigned z = place == 0 ? number(MAXD) : 2 * sx_choice(2);
		for (unsigned i = 0; i < z; i++)
			s_c('0');
		n = base == 0 ? 5 : base == 1 ? 17 : 6;
#ifndef DEEP
		if (base == 0)
			n = 4 + sx_choice(2);
#endif
		for (unsigned i = 0; i < n; i++)
			s_c(base == 0 ? hexd[sx_range(0, 15)] : base == 1 ? (int)('0' + sx_range(0, 1)) : (int)('0' + sx_range(0, 9)));
	} else {
		/* an arbitrary number of digits, the first not zero; all the others arbitrary */
		n = 1 + (place == 0 ? number(base == 1 ? 3 * MAXD : MAXD) : sx_choice(8));
		unsigned sym = base == 1 ? 18 : base == 0 ? 5 : 7;
		s_c(base == 0 ? hexd[sx_range(1, 15)] : base == 1 ? '1' : (int)('1' + sx_range(0, 8)));
		for (unsigned i = 1; i < n; i++) {
			int first = i < sym / 2, last = i + sym / 2 >= n;
			if (!first && !last)
				s_c('0');
			else
				s_c(base == 0 ? hexd[sx_range(0, 15)] : base == 1 ? (int)('0' + sx_range(0, 1)) : (int)('0' + sx_range(0, 9)));
		}
	}
	s_c('\n');
	if (place >= 1 && place <= 3)
		s_s("JMP V\n");
	if (place >= 4)
		s_s("L JMP L\n");
	h_assemble(A_STATUS | A_DIAG | A_IMAGE);
}
