/* Layout: gaps, comments, line ends, colons. */
#include "check.h"
static void gap(unsigned min, unsigned max) /* blanks and tabs */
{
	for (unsigned n = min + sx_choice(max - min + 1); n; n--)
		s_blank();
}
#ifndef GAPS
#define GAPS 2
#endif
static const char *const lines[] = { /* tokens separated by |; a gap of at least one at ' ' */
    "L| LDA| #|1", "LDA| (|1|)|,|Y", "LDA| (|1|,|X|)", "M|=|5", "M| .EQU| 5", ".DEFINE| M| 5", ".ORG| 5", "*|=|5", "L", "STA| $1234|,|X", ".END", "ROL| A", "JMP| L2",
};
#define NL (sizeof lines / sizeof *lines)
static void put(const char *t)
{
	for (; *t; t++)
		if (*t == '|') {
			if (t[1] == ' ') {
				gap(1, GAPS);
				t++;
			} else
				gap(0, GAPS - 1);
		} else
			s_c(*t);
}
static unsigned eol(unsigned last)
{
	unsigned e = sx_choice(2 + last);
	s_s(e == 0 ? "\n" : e == 1 ? "\r\n" : "");
	return e;
}
static void comment(unsigned n) /* n arbitrary bytes after ';' */
{
	s_c(';');
	while (n--) {
		unsigned c = sx_byte();
		sx_assume(c != '\n');
		s_c((int)c);
	}
}
void harness(void)
{
#if CASE == 0 /* every line with every layout */
	unsigned k = sx_choice(NL);
	gap(0, GAPS);
	const char *t = lines[k];
	if (k == 0 || k == 8) { /* the colon */
		s_c('L');
		unsigned colon = sx_choice(2);
		if (colon)
			s_c(':');
		if (k == 0) {
			if (colon)
				gap(0, GAPS);
			else
				gap(1, GAPS);
			put("LDA| #|1");
		}
	} else
		put(t);
	gap(0, GAPS);
	if (sx_choice(2))
		comment(sx_choice(3));
	if (eol(1) < 2) /* what the line defined is used */
		s_s(k == 0 || k == 8 ? "JMP L" : k >= 3 && k <= 5 ? "JMP M" : k == 12 ? "L2" : k == 10 ? "?" : "");
	h_assemble(A_STATUS | A_DIAG | A_COL | A_IMAGE);
#elif CASE == 1 /* one position of a line replaced by, or one inserted, arbitrary byte(s) */
	static const char *const whole[] = {
	    "L: LDA #1", "L LDA ($1),Y", "LDA ($01 , X)", "M = 5", "M .EQU 5", ".DEFINE M 5", ".ORG 5", "* = 5", "\tSTA $1234,X ; c", ".END", "ROL A", "L:", "LDA %11", "JMP L2;x", "L: JMP (L)", "L ldx\tL , y", "sbc #L2", "L1 BNE L1;", "L_3 = %1", "L9 JSR $fF",
	};
	unsigned k = sx_choice(sizeof whole / sizeof *whole), n = (unsigned)strlen(whole[k]), p = sx_choice(n + 1), ins = sx_choice(2);
	for (unsigned i = 0; i <= n; i++) {
		if (i == p) {
			s_c(sx_byte());
#ifdef TWO
			s_c(sx_byte());
#endif
			if (!ins)
				continue;
		}
		if (i < n)
			s_c(whole[k][i]);
	}
	s_s(sx_choice(2) ? "\r\n" : "\n");
	s_s("JMP 7\nL2 = 9");
	h_assemble(A_STATUS | A_DIAG | A_COL | A_IMAGE);
#elif CASE == 2 /* two lines: the second never depends on the first */
	static const char *const first[] = {"LDA #1 ; a", "", ";", "JMP $1234", "L: LDA (1),Y", "M = 3", "LDA 1,X\r", ".ORG 7\t", "\r"};
	s_s(first[sx_choice(9)]);
	s_c('\n');
	for (int i = 0; i < N; i++)
		s_c(sx_byte());
	h_assemble(A_STATUS | A_DIAG | A_COL | A_IMAGE);
#elif CASE == 3 /* comments of arbitrary bytes, before another line */
	static const char *const pre[] = {"", "LDA #1", "L", "L:", "LDA", "M = 1 "};
	s_s(pre[sx_choice(6)]);
	comment(N);
	eol(1);
	s_s("JMP 5 ; x");
	eol(1);
	h_assemble(A_STATUS | A_DIAG | A_COL | A_IMAGE);
#elif CASE == 4 /* words of other lengths in the lines before */
	static const unsigned char lens[] = {LENS};
	static const char *const form[][2] = {{"", "\n"}, {"JMP ", " ; c\r\n"}, {"", ": INX\n"}, {".DEFINE ", " %11\n"}, {" ", " .EQU $3\n"}};
	unsigned n1 = lens[sx_choice(sizeof lens)], n2 = lens[sx_choice(sizeof lens)], f = sx_choice(5);
	s_s(form[f][0]);
	for (unsigned i = 1; i < n1; i++)
		s_c('L');
	s_c((int)sx_range('J', 'M'));
	s_s(form[f][1]);
	f = sx_choice(5);
	s_s(form[f][0]);
	unsigned c = sx_range('J', 'M');
	for (unsigned i = 1; i < n2; i++)
		s_c('L');
	s_c((int)c);
	s_s(form[f][1]);
	unsigned k = sx_choice(4);
	s_s(k == 0 ? "inx\n" : k == 1 ? "LDA #300\n" : k == 2 ? "M: ADC 0001,y\n" : "");
	s_s("JSR ");
	for (unsigned i = 1; i < n2; i++)
		s_c('l');
	s_c((int)(c + 32));
	s_s("\n");
	h_assemble(A_STATUS | A_DIAG | A_COL | A_IMAGE);
#endif
}
