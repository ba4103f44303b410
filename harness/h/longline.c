/* Lines whose lengths lie around those of plausible buffers. */
#include "check.h"
#ifndef BASES
#define BASES 64, 80, 100, 119, 128, 199, 255, 299, 511
#endif
#ifndef SPAN
#define SPAN 4
#endif
static void fill(int c, int upto, int start)
{
	while (src_n - start < upto)
		s_c(c);
}
void harness(void)
{
	static const int bases[] = {BASES};
	int len = bases[sx_choice(sizeof bases / sizeof *bases)] - SPAN / 2;
	len += (int)sx_choice(SPAN + 1);
	unsigned k = sx_choice(9), more = sx_choice(4);
	if (sx_choice(2))
		s_s("L1 NOP\n\n");
	int at = src_n;
	switch (k) {
	case 0: /* what stands in a comment is no code */
		s_s("NOP ;");
		fill('c', len, at);
		s_s("JMP $1234");
		break;
	case 1: /* the same, with symbolic bytes where the line could be cut */
		s_s(";");
		fill(' ', len, at);
		for (int i = 0; i < 2; i++) {
			unsigned c = sx_byte();
			sx_assume(c != '\n');
			s_c((int)c);
		}
		break;
	case 2: /* code far to the right */
		fill(' ', len, at);
		s_s("JMP ");
		NUM();
		break;
	case 3: /* an operand far from its mnemonic */
		s_s("L2: LDA");
		fill(' ', len - 3, at);
		s_blank();
		s_blank();
		s_s("#$");
		s_c('0' + (int)sx_range(0, 9));
		break;
	case 4: /* a reference whose line is kept */
		s_s("JMP LZ ;");
		fill('c', len, at);
		s_c((int)sx_range('a', 'z'));
		break;
	case 5: /* an error far to the right */
		s_s("  LDA");
		fill(' ', len, at);
		s_c((int)sx_range(':', '@'));
		break;
	case 6: /* a long line of nothing but code: a literal with many zeros */
		s_s("JMP $");
		fill('0', len, at);
		s_c('0' + (int)sx_range(0, 9));
		s_c('0' + (int)sx_range(0, 9));
		break;
	case 7: /* many lines */
		for (int n = len; n; n--)
			s_c('\n');
		if (sx_choice(2)) { /* undefined, or defined on the next line */
			s_s(" BNE LZ");
			break;
		}
		s_s("INX #");
		s_c('0' + (int)sx_range(0, 9));
		break;
	case 8: /* no line at all */
		src_n = 0;
		more = 0;
		break;
	}
	if (more)
		s_s(more == 3 ? "\r\n" : "\n");
	if (more == 2)
		s_s("LZ RTS");
	if (more == 3) {
		s_s("BRK\n ");
		s_c((int)sx_range(':', '@'));
	}
	h_assemble(A_STATUS | A_DIAG | A_COL | A_QUOTE | A_IMAGE);
}
