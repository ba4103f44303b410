/* Every kind of diagnostic, with blanks and tabs in all places and line numbers of one to three digits. */
#include "check.h"
#ifndef MID
#define MID 2
#endif
static void gap(unsigned n)
{
	while (n--)
		s_blank();
}
static void gap1(void) /* between tokens */
{
	gap(1 + sx_choice(MID));
}
void harness(void)
{
	static const char *const body[][4] = {
		{"LDA", "#", "1", 0},        {"STA", "70000", 0, 0},   {".FOO", 0, 0, 0},      {"INX", ",", 0, 0},
		{"LDA", ")", 0, 0},          {"*", "5", 0, 0},         {"L1", "=", "5", 0},    {"L1:", "INX", 0, 0},
		{".DEFINE", "L1", "5", 0},   {"LDA", "FWD", 0, 0},     {"STA", "#", "5", 0},   {"BNE", "L9", "; far", 0},
		{"JMP", "NOPE", ";", 0},     {"BCS", "L8", 0, 0},      {"*", "=", "$10000", 0}, {"LDA:", "5", 0, 0},
		{"LDA", "(5", ",X", ",X"},   {"X", "=", "5", 0},       {"JMP (", "NOPE", ")", 0}, {"JSR", "NOPE,Y", 0, 0},
		{"L3:", "BVC", "L9", 0},     {".END", "X", 0, 0},      {"L5", "L6", 0, 0},     {"LDA #5", "#5", "#5", "?"},
	};
	s_s("L1 = 0\nL9 = $FFFF\n");
	static const unsigned char lines[] = {0, 6, 7, 96, 97};
	for (unsigned n = lines[sx_choice(sizeof lines)]; n; n--)
		s_s(n & 1 ? "\n" : " ; \n");
#if LEAD == 0 /* the first token in any column up to 17 */
	for (unsigned n = sx_choice(10); n; n--)
		s_c(' ');
	gap(sx_choice(3));
#elif LEAD == 2 /* columns further to the right */
	static const unsigned short cols[] = {COLS};
	for (unsigned n = cols[sx_choice(sizeof cols / 2)]; n; n--)
		s_c(n % 50 == 3 ? '\t' : ' ');
	gap(sx_choice(3));
#else
	unsigned lead = sx_choice(3);
	for (unsigned n = lead * 3; n; n--)
		s_c(' ');
#endif
	unsigned k = sx_choice(28), crlf;
	if (k == 24) {
		s_s("NOP");
		gap1();
		for (int n = 64; n; n--)
			s_c('Z');
	} else if (k == 25) {
		s_s("LDA");
		gap1();
		s_c((int)sx_byte());
		gap1();
		s_c('1');
	} else if (k == 26) { /* text of symbolic characters before the error */
		s_c((int)sx_range('M', 'T'));
		s_blank();
		s_c((int)sx_range('(', ')'));
	} else if (k == 27) { /* any bytes in a comment */
		s_s("INX ,;");
		for (int i = 0; i < 2; i++) {
			unsigned c = sx_byte();
			sx_assume(c != '\n');
			s_c((int)c);
		}
	} else
		for (int i = 0; i < 4 && body[k][i]; i++) {
			if (i)
				gap1();
			s_s(body[k][i]);
		}
	gap(sx_choice(LEAD == 0 ? 2 : 4));
	crlf = sx_choice(3);
	if (crlf == 1)
		s_c('\r');
	if (crlf < 2)
		s_s("\n* = 1000\nL8 RTS\n");
	h_assemble(A_STATUS | A_DIAG | A_ONE | A_COL | A_QUOTE);
}
