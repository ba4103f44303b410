/* Definitions in all forms, in any order, with colliding labels, and uses. */
#include "check.h"
#ifndef LINES
#define LINES 3
#endif
#ifndef PRE
#define PRE 0
#endif
static void label(unsigned lower) /* one of four labels; LQQ and LR0 have the same hash */
{
	s_c('L' + 32 * (int)lower);
	s_c((int)sx_range('Q', 'R') + 32 * (int)lower);
	s_c('0' + 33 * (int)sx_range(0, 1));
}
void harness(void)
{
	for (int i = 0; i < PRE; i++) { /* makes the table grow before and between */
		s_s("F");
		s_u((unsigned)i);
		s_s(" = 7\n");
	}
	for (int i = 0; i < LINES; i++) {
		unsigned k = sx_choice(i ? 7 : 5);
		if (k == 2)
			s_s(".DEFINE ");
		if (k == 5)
			s_s("JMP ");
		if (k == 6)
			s_s("LDX ");
		label(0);
		switch (k) {
		case 0: s_s(" = "); NUM(); break;
		case 1: s_s(" .EQU "); NUM(); break;
		case 2: s_s(" "); NUM(); break;
		case 3: break;
		case 4: s_s(": NOP"); break;
		}
		s_c('\n');
	}
	s_s("JMP ");
	label(sx_choice(2));
	s_c('\n');
#if PRE
	s_s("JMP F0\nJMP F");
	s_u(PRE - 1);
	s_c('\n');
#endif
	h_assemble(A_STATUS | A_DIAG | A_IMAGE);
}
