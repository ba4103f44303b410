/* Lines at the limits of the buffers, with arbitrary bytes. */
#include "check.h"
static void rep(int c, unsigned n)
{
	while (n--)
		s_c(c);
}
void harness(void)
{
	unsigned k = sx_choice(12), n = 0;
	switch (k) {
	case 0: /* words and directives around the size of a token */
		if (sx_choice(2))
			s_c('.');
		rep('Q', 60 + sx_choice(6));
		s_c(sx_byte());
		break;
	case 1: /* more tokens than a line holds */
		for (n = 6 + sx_choice(6); n; n--)
			s_s(sx_choice(2) ? "1 " : ")");
		s_c(sx_byte());
		break;
	case 2: /* sentences of all lengths at the end of the sequence of tokens */
		s_s("L: LDA (1),Y");
		for (n = sx_choice(4); n; n--)
			s_s(",");
		s_c(sx_byte());
		break;
	case 3: /* long literals */
		s_s("JMP ");
		s_c("$%0"[sx_choice(3)]);
		n = sx_choice(2);
		rep('0' + (int)n, sx_choice(2) ? 200 : 5);
		s_c(sx_byte());
		break;
	case 4: /* a reference whose line is blank after it, or ends the source */
		s_s("JMP Q");
		rep(' ', sx_choice(2) * 40);
		s_c(sx_byte());
		break;
	case 5: /* long comments and blanks */
		rep('\t', sx_choice(2) * 130);
		s_c(';');
		rep('x', 1 + 125 * sx_choice(2));
		s_c(sx_byte());
		s_s("JMP ?");
		break;
	case 6: /* blanks, then a byte */
		rep(' ', sx_choice(3));
		s_c(sx_byte());
		rep(' ', sx_choice(3));
		s_c(sx_byte());
		break;
	case 7: /* high bytes */
		rep(255, 1 + sx_choice(3));
		s_c(sx_byte());
		break;
	case 8: /* many errors' worth of text in one line */
		s_s("\t\t\t\t\t\t\t\t\t\t\t\t\t\t\t\t\t\tLDA 1,");
		s_c(sx_byte());
		break;
	case 9: /* bytes around an end of file */
		s_s(".END");
		s_c(sx_byte());
		s_c(sx_byte());
		break;
	case 10: /* NULs */
		s_s("L1");
		s_c(0);
		s_c(sx_byte());
		s_s("JMP L2");
		s_c(0);
		s_c(sx_byte());
		break;
	case 11: /* addresses at both ends */
		s_s("* = $FFFF\nL0 NOP\nBNE L0\nJMP L");
		s_c((int)('0' + sx_range(0, 2)));
		s_s("\n* = 0\nL1 BCC L0\n");
		break;
	}
	n = sx_choice(3); /* the last bytes of the source */
	if (n)
		s_c(n == 1 ? '\n' : (int)sx_byte());
	h_assemble(0);
}
