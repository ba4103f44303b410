/* The command line: up to EVENTS options and file names in any order. */
#include "check.h"
#ifndef EVENTS
#define EVENTS 3
#endif
#ifndef LONGEST
#define LONGEST 0
#endif
#ifndef NLEN
#define NLEN 2
#endif
#ifndef LONG /* the lengths of the rests of the names */
#define LONG 0
#endif
static const unsigned short rests[] = {LONG};
static unsigned rest;
static char names[8][LONGEST + 16];
static int nnames;
static char *fname(const char *pre, int plain) /* a file name of 1..NLEN symbolic characters after pre */
{
	char *p = names[nnames++];
	int n = 0;
	while (*pre)
		p[n++] = *pre++;
	unsigned len = 1 + sx_choice(NLEN);
	for (unsigned i = 0; i < len; i++) {
		unsigned c = sx_byte();
		sx_assume(c != 0);
		if (plain && i == 0)
			sx_assume(c != '-');
		p[n++] = (char)c;
	}
	for (unsigned i = 0; i < rest; i++)
		p[n++] = (char)('a' + i % 26);
	p[n] = 0;
	return p;
}
static int same(const char *a, const char *b)
{
	for (;; a++, b++) {
		if (sx_conc(*a != *b))
			return 0;
		if (!*a)
			return 1;
	}
}
static char *want_src, *want_out = "a.out";
static int npos;
static void after(int status)
{
	int n = gx_nfiles - 3;
	if (npos != 1) {
		sx_cover("a usage error");
		sx_assert(status != 0 && n == 0, "without exactly one source there is an error and no file is opened");
		sx_assert(txt_n > 0, "a usage error is reported");
		return;
	}
	if (src_missing) {
		sx_cover("the source is missing");
		sx_assert(status != 0 && n == 0, "a source that cannot be opened is an error and nothing is created");
		int at = 7, ok = t_has(0, "ERROR: ");
		for (const char *p = want_src; *p; p++)
			ok &= txt[at++] == (uint8_t)*p;
		sx_assert(ok && t_has(at, " could not be opened\n"), "the error names the source");
		return;
	}
	sx_assert(n >= 1 && same(gx_files[3].name, want_src), "the positional argument is the source");
	sx_assert(gx_files[3].rd && !gx_files[3].wr, "the source is opened for reading only");
	if (fi_out_open) {
		sx_cover("the output cannot be created");
		sx_assert(status != 0 && n == 1, "an output that cannot be created is an error");
		return;
	}
	sx_cover("both files are opened");
	sx_assert(n == 2, "only the source and the output are opened");
	sx_assert(same(gx_files[4].name, want_out), "the output goes where -o says, or to a.out");
	sx_assert(gx_files[4].wr && gx_files[4].old == 0 && !gx_files[4].app, "the output is opened for writing from its start");
#ifdef BAD
	{
		static const char rest[] = ":1: ERROR: illegal character\nNOP ?\n    ^";
		int at = 0, ok = 1;
		for (const char *p = want_src; *p; p++)
			ok &= txt[at++] == (uint8_t)*p;
		sx_assert(status != 0 && ok && t_has(at, rest), "the diagnostic names the source");
		return;
	}
#endif
	sx_assert(status == 0, "the source is assembled");
	sx_assert(out_n == 1 && out_fd[0] == 4 && out_val[0] == 0xEA && out_pos[0] == 0, "the image is written to the output");
}
void harness(void)
{
	static char *argv[16];
	int argc = 0, dd = 0;
	argv[argc++] = "gaia";
	unsigned n = sx_choice(EVENTS + 1);
	rest = rests[sx_choice(sizeof rests / sizeof *rests)];
	for (unsigned i = 0; i < n; i++)
		switch (dd ? 0 : sx_choice(7)) {
		case 0:
			want_src = argv[argc++] = fname(dd && sx_choice(2) ? "-" : "", !dd);
			npos++;
			break;
		case 1:
			argv[argc++] = "-o";
			want_out = argv[argc++] = fname("", 0);
			break;
		case 2:
			want_out = (argv[argc++] = fname("-o", 0)) + 2;
			break;
		case 3:
			argv[argc++] = "--output";
			want_out = argv[argc++] = fname("", 0);
			break;
		case 4:
			want_out = (argv[argc++] = fname("--output=", 0)) + 9;
			break;
		case 5:
			want_out = (argv[argc++] = fname("--ou=", 0)) + 5;
			break;
		case 6:
			argv[argc++] = "--";
			dd = 1;
			break;
		}
	argv[argc] = 0;
	src_name = want_src ? want_src : "in.asm";
	/* naming the output like the source is another matter */
	sx_assume(!same(src_name, want_out));
#ifdef BAD
	s_s("NOP ?\n");
#else
	s_s("NOP\n");
#endif
	src_missing = (int)sx_choice(2);
	fi_out_open = (int)sx_choice(2);
	h_quiet = 1;
	h_after = after;
	gx_on_exit = h_end;
	h_end(gaia_main(argc, argv), 0);
}
