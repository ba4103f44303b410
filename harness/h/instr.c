/* Every mnemonic with every operand form and every operand value. */
#include "check.h"
#ifndef ASPECTS
#define ASPECTS (A_ACCEPT | A_IMAGE)
#endif
#ifndef KINDS
#define KINDS 5 /* decimal, defined label, hexadecimal, binary, [forward reference] */
#endif
static const char hexd[] = "0123456789ABCDEF";
static void value(unsigned kind)
{
	if (kind == 0)
		s_digits(5);
	else if (kind == 1)
		s_s("VAL");
	else if (kind == 2) {
		s_c('$');
		for (unsigned n = 1 + sx_choice(4); n; n--)
			s_c(hexd[sx_range(0, 15)]);
	} else if (kind == 3) {
		s_c('%');
		for (unsigned n = sx_choice(2) ? 8 : 16; n; n--)
			s_c((int)('0' + sx_range(0, 1)));
	} else
		s_s("FWD");
}
void harness(void)
{
	unsigned mn = sx_choice(56), form = sx_choice(NFORM), kind = 0;
	if (form != F_NONE && form != F_A)
		kind = sx_choice(KINDS);
	unsigned label = sx_choice(2);
	if (kind == 1) {
		s_s("VAL = ");
		s_digits(5);
		s_c('\n');
	}
	if (label)
		s_s("L: ");
	s_s(ref_mn[mn]);
	if (form != F_NONE)
		s_c(' ');
	switch (form) {
	case F_A: s_c('A'); break;
	case F_IMM: s_c('#'); value(kind); break;
	case F_V: value(kind); break;
	case F_VX: value(kind); s_s(",X"); break;
	case F_VY: value(kind); s_s(",Y"); break;
	case F_IND: s_c('('); value(kind); s_c(')'); break;
	case F_INDX: s_c('('); value(kind); s_s(",X)"); break;
	case F_INDY: s_c('('); value(kind); s_s("),Y"); break;
	}
	s_c('\n');
	if (kind == 4) {
		s_s("FWD = ");
		s_digits(5);
		s_c('\n');
	}
	h_assemble(ASPECTS);
}
