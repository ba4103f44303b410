/* N arbitrary bytes are the whole source. */
#include "check.h"
#ifndef N
#define N 3
#endif
void harness(void)
{
	for (int i = 0; i < N; i++)
		src[i] = sx_byte();
	src_n = N;
	h_assemble(A_STATUS | A_DIAG | A_COL | A_IMAGE);
}
