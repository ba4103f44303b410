/* K forward references, one of them to a label with a symbolic value, or to none. */
#include "check.h"
#ifndef SIZES
#define SIZES 1, 7, 8, 15, 16
#endif
#ifndef PLACES
#define PLACES 0, 5, 6, 7, 8, 9, 14, 15
#endif
static void name(unsigned i)
{
	s_c('L');
	s_c((int)('A' + i % 26));
	s_u(i);
}
static unsigned k, p;
static void blank(unsigned i) /* unknown in few lines: a program may tell them apart */
{
	if (i == p || i == 0)
		s_blank();
	else
		s_c(i % 2 ? ' ' : '\t');
}
void harness(void)
{
	static const unsigned short sizes[] = {SIZES};
	static const char *const op[] = {"JMP ", "BNE ", "JMP (", "JSR "};
	k = sizes[sx_choice(sizeof sizes / 2)];
	unsigned shift = sx_choice(4), how = sx_choice(k > 8 ? 4 : 5), style = sx_choice(3);
	static const unsigned short places[] = {PLACES};
	p = places[sx_choice(sizeof places / 2)];
	sx_assume(p < k);
	for (unsigned i = 0; i < k; i++) {
		unsigned o = (i + shift) & 3;
		if (k > 40 && o == 1 && i != p)
			o = 3; /* the labels of most would be too far */
		if (style == 1 && i % 3 == 1)
			s_s("; comment \r\n\n");
		if (style)
			blank(i);
		if (i == 1)
			s_s("START:");
		if (style == 2)
			blank(i);
		s_s(op[o]);
		if (style == 1)
			blank(i);
		name(i);
		if (o == 2)
			s_c(')');
		if (style == 1)
			s_s(" ; jump");
		if (style == 2) {
			blank(i);
			s_c('\r');
		}
		s_c('\n');
	}
	/* how: 0 all are defined, 1 the p-th never, 2 in reverse order, 3 as a constant first, 4 an origin before it */
	for (unsigned i = 0; i < k; i++) {
		unsigned j = how == 2 ? k - 1 - i : i;
		if (j == p) {
			if (how == 1)
				continue;
			if (how == 3) {
				s_s(".DEFINE ");
				name(j);
				s_c(' ');
				NUM();
				s_c('\n');
				continue;
			}
			if (how == 4) {
				s_s("* = ");
				NUM();
				s_c('\n');
			}
		}
		name(j);
		if (j % 3 == 0)
			s_s(" = $3C\n");
		else
			s_s("\n  NOP\n");
	}
	h_assemble(A_STATUS | A_DIAG | A_COL | A_QUOTE | A_IMAGE);
}
