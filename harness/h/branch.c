/* Branches and jumps from any address to any address, backwards and forwards. */
#include "check.h"
void harness(void)
{
	/* the instruction: one of the eight branches, JMP, JSR or JMP (v) */
	unsigned want = sx_choice(11), mn = 0, seen = 0;
	for (unsigned i = 0; i < 56; i++)
		if (ref_isbranch[i] || ref_isjump[i]) {
			if (seen == (want == 10 ? 8u : want))
				mn = i;
			seen++;
		}
	sx_assert(seen == 10, "the reference has eight branches and two jumps");
	if (want == 10)
		for (unsigned i = 0; i < 56; i++)
			if (ref_mode((int)i, F_IND, 1) >= 0)
				mn = i;
	unsigned shape = sx_choice(6), lab = sx_choice(2);
	switch (shape) {
	case 0: case 2: /* the label is an address before */
		s_s(".ORG ");
		NUM();
		s_s("\nL\n");
		break;
	case 1: /* a constant before */
		s_s("L = ");
		NUM();
		s_c('\n');
		break;
	case 3: /* near: the label is followed by NOPs and the branch (real layouts) */
		s_s("* = ");
		NUM();
		s_s("\nL NOP\n");
		for (unsigned n = sx_choice(3); n; n--)
			s_s("ASL\n");
		break;
	}
	if (shape != 3) {
		s_s(shape == 2 ? "* = " : ".ORG ");
		NUM();
		s_c('\n');
	}
	if (lab)
		s_s("S ");
	s_s(ref_mn[mn]);
	s_s(want == 10 ? " (L)\n" : " L\n");
	switch (shape) {
	case 4: /* the label is an address after */
		s_s(".ORG ");
		NUM();
		s_s("\nL BRK\n");
		break;
	case 5: /* a constant after */
		s_s(".DEFINE L ");
		NUM();
		s_c('\n');
		break;
	}
	h_assemble(A_STATUS | A_DIAG | A_IMAGE);
}
