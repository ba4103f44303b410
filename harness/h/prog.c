/* Programs of any LINES lines of ten kinds, and a last one that defines F. */
#include "check.h"
#ifndef LINES
#define LINES 3
#endif
void harness(void)
{
	int ended = 0;
	for (int i = 0; i < LINES; i++) {
		unsigned k = sx_choice(10);
		switch (k) {
		case 0: s_s("\tNOP ; one"); break;
		case 1: s_s("LDX "); NUM(); break;
		case 2: s_s("L"); s_u((unsigned)i); s_s(": STA $1234,X"); break;
		case 3: s_s("L"); s_u((unsigned)i); break;
		case 4: s_s(".ORG "); NUM(); break;
		case 5: s_s("* = "); NUM(); break;
		case 6: s_s("L"); s_u((unsigned)i); s_s(" = "); NUM(); break;
		case 7: s_blank(); s_s(sx_choice(2) ? "; LDA #1" : ""); break;
		case 8:
			s_s(" .end");
			if (!ended) {
				static const char *const tail[] = {"", " ", "\t; done", ";", "\r"};
				s_s(tail[sx_choice(5)]);
			}
			break;
		case 9: s_s(" JSR F"); break;
		}
		s_c('\n');
		if (k == 8 && !ended) {
			ended = 1;
			if (sx_choice(2))
				s_s("?%( nothing here counts\nL0\nL0\n");
		}
	}
	s_s("F ASL A");
	if (sx_choice(2))
		s_c('\n');
	h_assemble(ASPECTS);
}
