/* Programs of references and definitions of two labels, in any order. */
#include "check.h"
#ifndef LINES
#define LINES 3
#endif
static void label(void)
{
	s_c('L');
	s_c('Q' + (int)sx_range(0, 1));
}
void harness(void)
{
	for (int i = 0; i < LINES; i++) {
		unsigned k = sx_choice(8);
		switch (k) {
		case 0: s_s("JMP "); label(); break;
		case 1: s_s("BCC "); label(); break;
		case 2: s_s(" jmp ("); label(); s_s(") ; x"); break;
		case 3: label(); s_s(" LDA "); label(); break;
		case 4: label(); break;
		case 5: label(); s_s(" .equ "); NUM(); break;
		case 6: s_s("* = "); NUM(); break;
		case 7: s_s("\tBVS"); s_blank(); label(); s_s("  "); break;
		}
		s_c('\n');
	}
	unsigned e = sx_choice(3);
	if (e >= 1)
		s_s("LR: RTS\n");
	if (e == 2)
		s_s(".END \nLQ = 5\n");
	h_assemble(A_STATUS | A_DIAG | A_COL | A_QUOTE | A_IMAGE);
}
