/* Words: mnemonics, registers, directives and labels, in any case. */
#include "check.h"
/* any character that may stand in a word */
static int wch(void)
{
	unsigned c = sx_byte();
	sx_assume((((c | 32) - 'a' < 26) | (c - '0' < 10)) | (c == '_'));
	return (int)c;
}
#ifndef N
#define N 3
#endif
void harness(void)
{
#if CASE == 0 /* a word of N characters (the first may be anything) as the only word, or before a number */
	unsigned tail = sx_choice(2);
	s_c(sx_byte());
	for (int i = 1; i < N; i++)
		s_c(wch());
	if (tail)
		s_s(" 1");
#elif CASE == 1 /* as an index register or operand */
	static const char *const pre[] = {"LDA 1,", "LDA ($1,", "LDA ($1),", "ASL ", "LDX 1,", "LDA (1,X),"};
	unsigned k = sx_choice(6), n = sx_choice(2);
	s_s(pre[k]);
	s_c(wch());
	if (n)
		s_c(wch());
	if (k == 1)
		s_c(')');
#elif CASE == 2 /* a directive name of 3 to N characters, first spelled by any case mix, then with one or two arbitrary bytes */
	static const char *const dir[] = {"define", "equ", "org", "end"};
	unsigned d = sx_choice(4), n = (unsigned)strlen(dir[d]), how = sx_choice(3), p = how ? sx_choice(n + (how == 2)) : 99;
	if (d == 1)
		s_s("L ");
	s_c('.');
	for (unsigned i = 0; i <= n; i++) {
		if (i == p) {
			s_c(sx_byte()); /* replaces (1) or inserts (2) a byte */
			if (how == 1)
				continue;
		}
		if (i < n)
			s_c(dir[d][i] - 32 * (int)sx_range(0, 1));
	}
	s_s(d == 0 ? " L 5\nJMP L" : d == 1 ? " 5\nJMP L" : d == 2 ? " 7\nL JMP L" : "\n:");
#elif CASE == 3 /* two labels of two characters each: equal exactly if they are the same word in any case */
	int c;
	unsigned l1 = 1 + sx_choice(2), l2 = 1 + sx_choice(2);
	unsigned def = sx_choice(2);
	c = 'a' + (int)sx_range(0, 25);
	c -= 32 * (int)sx_choice(2);
	s_c(c);
	if (l1 == 2)
		s_c(wch());
	s_s(def ? ":\n" : " = 5\n");
	s_s("JMP ");
	c = 'a' + (int)sx_range(0, 25);
	c -= 32 * (int)sx_choice(2);
	s_c(c);
	if (l2 == 2)
		s_c(wch());
#elif CASE == 4 /* long labels that differ in at most one place; one too long */
	unsigned n = 60 + sx_choice(6), p = sx_choice(n), m = n - sx_choice(2), how = sx_choice(3);
	for (unsigned i = 0; i < n; i++)
		s_c(i == p ? i ? wch() : 'A' + (int)sx_range(0, 25) : 'A' + (int)i % 26);
	s_s(how == 0 ? " = 5\nJMP " : how == 1 ? ":\nJMP " : " .EQU 5\nJMP ");
	for (unsigned i = 0; i < m; i++)
		s_c('a' + (int)i % 26);
#elif CASE == 5 /* an unbounded word: label or directive of up to 140 characters, with one arbitrary byte */
	unsigned dot = sx_choice(2), n = 50 + sx_choice(91), p = sx_choice(3);
	p = p == 0 ? 61 : p == 1 ? 62 : n - 1;
	if (dot)
		s_c('.');
	for (unsigned i = 0; i < n; i++)
		s_c(i == p ? (int)sx_byte() : 'q');
	s_s(" = 3");
#elif CASE == 6 /* every mnemonic in every mixture of case, with one arbitrary byte after or inside it */
	unsigned k = sx_choice(56), p = sx_choice(5);
	for (unsigned i = 0; i < 3; i++)
		s_c(i == p ? (int)sx_byte() : ref_mn[k][i] + 32 * (int)sx_range(0, 1));
	if (p == 3)
		s_c(sx_byte());
	s_s(ref_mode((int)k, F_NONE, 0) >= 0 ? "" : ref_isbranch[k] || ref_isjump[k] || ref_mode((int)k, F_V, 0) >= 0 ? " 1" : " #1");
#endif
	s_c('\n');
	h_assemble(A_STATUS | A_DIAG | A_IMAGE);
}
