/* A literal made of arbitrary bytes: 'JMP <prefix><N bytes>' through the whole program. */
#include "check.h"
#ifndef N
#define N 4
#endif
void harness(void)
{
	unsigned base = sx_choice(3);
	s_s(base == 0 ? "JMP $" : base == 1 ? "JMP %" : "JMP ");
	if (base == 2) /* a decimal literal begins with a digit */
		s_digits(1);
	for (int i = 0; i < N; i++)
		s_c(sx_byte());
	s_c('\n');
	h_assemble(A_STATUS | A_DIAG | A_IMAGE);
}
