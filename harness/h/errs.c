/* Programs of LINES lines of 24 kinds: valid ones and every kind of error. */
#include "check.h"
#ifndef LINES
#define LINES 3
#endif
static void dig(unsigned lo)
{
	s_c((int)('0' + sx_range(lo, 9)));
}
void harness(void)
{
	for (int i = 0; i < LINES; i++) {
		unsigned k = sx_choice(26);
		if (k & 1)
			s_blank();
		switch (k) {
		case 0: break;
		case 1: s_s("; a comment"); break;
		case 2: s_s("LDA #"); dig(0); break;
		case 3: s_s("STA "); NUM(); s_s(",X"); break;
		case 4: s_s("L"); dig(0); break;
		case 5: s_s("L1: INX"); break;
		case 6: s_s("L1 = "); dig(0); break;
		case 7: s_s(".DEFINE L2 "); dig(0); break;
		case 8: s_s("JMP L"); dig(0); break;
		case 9: s_s("BNE L1"); break;
		case 10: s_s("* = "); NUM(); break;
		case 11: s_s(".END"); break;
		case 12: s_s("LDA L"); dig(0); break;
		case 13: s_s("LDA #"); s_c((int)sx_byte()); break;
		case 14: s_s("STX "); NUM(); s_s(",Y"); break;
		case 15: s_s("LDY #6553"); dig(0); break;
		case 16: s_s("INX ,"); break;
		case 17: s_s("* "); dig(0); break;
		case 18: s_s(".ORGY"); break;
		case 19: for (int n = (int)(62 + sx_choice(3)); n; n--) s_c('Z'); break;
		case 20: s_s("JMP (L2,X)"); break;
		case 21: s_s("LDA #1 1 1 1 1 1 1 1 1"); break;
		case 22: s_s(".ORG"); break;
		case 23: s_s("L1 .EQU L1"); break;
		case 24: s_s("BVC "); NUM(); break;
		case 25: s_s("JSR $FFFF"); break;
		}
		s_s(k % 3 ? "\n" : "\r\n");
	}
	if (sx_choice(2))
		s_s("L1 RTS");
	h_assemble(A_STATUS | A_DIAG | A_ONE);
}
