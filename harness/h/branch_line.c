/* Real distances: a branch, d one-byte instructions, and its label (or the other way round). */
#include "check.h"
void harness(void)
{
	unsigned back = sx_choice(2), d = 122 + sx_choice(9);
	s_s("* = ");
	NUM();
	s_c('\n');
	if (back)
		s_s("L\n");
	else
		s_s("BNE L\n");
	for (unsigned i = 0; i < d; i++)
		s_s("NOP\n");
	s_s(back ? "BNE L\n" : "L\n");
	h_assemble(A_STATUS | A_DIAG | A_IMAGE);
}
