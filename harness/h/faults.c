/* One failing operation anywhere in the run of a program. */
#include "check.h"
#ifndef WHAT
#define WHAT sx_choice(5)
#endif
static void after(int status)
{
	ref_run();
	if (!n_fault) {
		sx_cover("the fault lies behind the end of the run");
		sx_assert((status == 0) == (rnalt == 0), "without a fault the program is accepted exactly if it is valid");
		return;
	}
	sx_cover("a fault happened");
	sx_assert(status != 0, "a failed operation ends in a failure status");
	int said = 0;
	for (int i = 0; i < txt_n; i++)
		said |= t_has(i, "ERROR:");
	sx_assert(said, "a failed operation is reported");
	sx_assert(t_count("Assembly successful.") == 0, "no success is reported after a failed operation");
	for (int i = 3; i < gx_nfiles; i++)
		sx_assert(gx_files[i].closes == 1, "every opened file is closed once after a failed operation");
}
void harness(void)
{
	unsigned what = WHAT, prog = sx_choice(5), n = 0;
	switch (prog) {
	case 0:
		s_s("L LDA #");
		s_c((int)('0' + sx_range(0, 9)));
		s_s("\nJMP L\nBNE F\nJMP (F)\nF RTS");
		break;
	case 1: /* the list of references grows */
		for (n = 9; n; n--)
			s_s("JSR F\n");
		s_s("F = ");
		s_c((int)('0' + sx_range(0, 9)));
		break;
	case 2: /* the table of labels grows */
		for (; n < 10; n++) {
			s_s("L");
			s_u(n);
			s_s("\n");
		}
		s_s("JMP L0\n.END\nL0");
		break;
	case 3: /* an invalid program */
		s_s("NOP\nJMP Q\nLDA #");
		s_c((int)('0' + sx_range(0, 9)));
		s_s("\n");
		break;
	case 4: /* long lines */
		for (n = 3; n; n--) {
			s_s("INX ;");
			for (unsigned i = 100 / n; i; i--)
				s_c('c');
			s_s("\n");
		}
		s_s(" .END ");
		s_c((int)sx_range(' ', ';'));
		s_s("c\n");
		break;
	}
#ifdef TWO /* and a second one */
	for (int two = 0; two < 2; two++, what = WHAT) {
#else
	{
#endif
	unsigned at = sx_byte();
	switch (what) {
	case 0: fi_alloc = (int)at + 1; break;
	case 1: fi_alloc = (int)at + 1; fi_alloc_sticky = 1; break;
	case 2: sx_assume(at <= (unsigned)src_n); fi_read_at = (int)at; break;
	case 3: fi_write = (int)at + 1; break;
	case 4: fi_flush = (int)at + 1; break;
	}
	}
	if (sx_choice(2))
		fi_out_open = 1;
	h_after = after;
	h_assemble(0);
}
