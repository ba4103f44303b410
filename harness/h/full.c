/* Programs at the limits of numbers: a full memory, more bytes than memory, many lines, many labels. */
#include "check.h"
#ifndef TAIL
#define TAIL 2
#endif
#ifndef CASES
#define CASES 4
#define FIRST 0
#endif
static void bytes(unsigned n) /* instructions of n bytes together */
{
	for (; n >= 3; n -= 3)
		s_s("JMP 0\n");
	s_s(n == 2 ? "LDA #7\n" : n ? "INX\n" : "");
}
/* One of n texts, padded with blanks.  Which one is only decided when the program
   reads it, so the long run before is made once. */
static void alt(const char *const *a, unsigned n)
{
	unsigned k = sx_range(0, n - 1), len = 0;
	for (unsigned i = 0; i < n; i++)
		if (strlen(a[i]) > len)
			len = (unsigned)strlen(a[i]);
	for (unsigned j = 0; j < len; j++) {
		unsigned c = 0;
		for (unsigned i = 0; i < n; i++)
			c |= (unsigned)(k == i) * (uint8_t)(j < strlen(a[i]) ? a[i][j] : ' ');
		s_c((int)c);
	}
}
static void tail(int n) /* n more instructions of any length, a label at the end, text after .END */
{
	static const char *const code[] = {"INX", "LDA #9", "JMP $9 ; ", "BNE L", ";"};
	static const char *const end[] = {"", "L", "L RTS", ".END"};
	for (int i = 0; i < n; i++) {
		alt(code, 5);
		s_c('\n');
	}
	alt(end, 4);
	s_s("\nM RTS\nL=?");
	if (sx_choice(2))
		src_n -= 4;
}
static void low(void) /* a number below 32768 */
{
	s_s("%0");
	for (int i = 0; i < 15; i++)
		s_c('0' + (int)sx_range(0, 1));
	s_c('\n');
}
void harness(void)
{
	int what = A_STATUS | A_DIAG | A_BYTES | A_SYMS | A_IMAGE;
	switch (FIRST + sx_choice(CASES)) {
	case 0: /* the whole memory */
		bytes(65536 - 4);
		tail(TAIL);
		break;
	case 1: /* more bytes than memory */
		s_s("* = 5\n");
		bytes(65528);
		s_s("* = ");
		low();
		bytes(5);
		tail(TAIL);
		what &= ~A_IMAGE;
		break;
	case 2: /* many lines */
		s_s("BNE L\nJMP M\n");
		for (unsigned i = 0; i < 65531; i++)
			s_c('\n');
		tail(TAIL);
		break;
	case 3: /* many labels */
		for (unsigned i = 0; i < 1500; i++) {
			s_s("L");
			s_u(i);
			s_s(i % 2 ? " =7\n" : "\nINX\n");
		}
		s_s("JMP L1");
		s_digits(1);
		s_s("00\nL1");
		s_digits(1);
		s_s("00 = 3\n");
		break;
	}
	h_assemble(what);
}
