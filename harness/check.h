/* Comparison of what the program did with what the reference says. */
#ifndef CHECK_H
#define CHECK_H
#include "libc.h"
#include "ref.h"
#include "sx.h"
#include <string.h>

int gaia_main(int, char **);

/* ---- building the source text */
static inline void s_c(int c) { src[src_n++] = (uint8_t)c; }
static inline void s_s(const char *s)
{
	while (*s)
		src[src_n++] = (uint8_t)*s++;
}
static inline void s_u(unsigned v)
{
	char b[12];
	int n = 0;
	do
		b[n++] = (char)('0' + v % 10);
	while (v /= 10);
	while (n)
		src[src_n++] = (uint8_t)b[--n];
}
static inline void s_digits(int n) /* n symbolic decimal digits */
{
	while (n--)
		src[src_n++] = (uint8_t)('0' + sx_range(0, 9));
}
static inline void s_hex(int n) /* '$' and n symbolic hexadecimal digits */
{
	src[src_n++] = '$';
	while (n--) {
		unsigned x = sx_range(0, 15);
		src[src_n++] = (uint8_t)(x + '0' + (x > 9) * 7);
	}
}
static inline void s_bin(int n)
{
	src[src_n++] = '%';
	while (n--)
		src[src_n++] = (uint8_t)('0' + sx_range(0, 1));
}
#ifndef NUM
#define NUM() s_hex(4) /* a symbolic 16-bit number */
#endif
static inline void s_blank(void) /* a space or a tab, kept symbolic */
{
	src[src_n++] = (uint8_t)(sx_range(0, 1) ? '\t' : ' ');
}

/* ---- what stands before the text of a harness (-DCTX=list): must not make a difference */
#ifdef CTX
void harness_body(void);
static unsigned ctx_kind;
static void ctx_before(void)
{
	static const unsigned char kinds[] = {CTX};
	ctx_kind = kinds[sx_choice(sizeof kinds)];
	switch (ctx_kind) {
	case 1: /* comments, blank lines, a long line */
		s_s("; LDA #1 ( ) , = * X Y .END\n\n \t\r\n;\n\t;\r\n;");
		for (int i = 0; i < 300; i++)
			s_c("LDA #$12 "[i % 9]);
		s_s("\n   \n");
		break;
	case 2: /* constants: the symbol table grows */
		for (unsigned i = 0; i < 20; i++) {
			if (i % 3 == 0)
				s_s(".Define ");
			s_s(i & 1 ? "ctxlab" : "CTXLAB");
			s_u(i);
			s_s(i % 3 == 0 ? " $FFFF\n" : i % 3 == 1 ? " = 65535\n" : " .equ %1000\n");
		}
		break;
	case 3: /* an instruction of every form, the longest sentence, and an origin */
		s_s("STA $1234,X\nLDA ($12),Y\nCTXLAB0: LDA ($12,X)\nASL A\nJMP ($1234)\nBNE 5\nBRK\nldx #%11\nSTX 7,Y\n.ORG $4321\nINC 65535\n");
		break;
	case 4: /* forward references that are resolved at the end */
		for (int i = 0; i < 10; i++)
			s_s(i == 3 ? "JMP (CTXLAB2)\n" : i == 5 ? "\tBEQ CTXLAB1 ; x\n" : i & 1 ? "CTXLABB: JSR ctxlab2\n" + (i > 1) * 9 : "BNE CTXLAB1\n");
		s_s("CTXLAB1\n");
		break;
	case 5: /* high addresses */
		s_s("CTXLAB0 NOP\n* = $80F0\nCTXLAB1 JMP CTXLAB1\nSTA CTXLAB0\n");
		break;
	case 6: /* many lines */
		for (int i = 0; i < 260; i++)
			s_c('\n');
		break;
	case 7: /* words and lines as long as they may be */
		for (int i = 0; i < 63; i++)
			s_c('Q');
		for (int i = 0; i < 70; i++)
			s_c(" \t"[i % 2]);
		s_s("SBC");
		for (int i = 0; i < 130; i++)
			s_c(' ');
		s_s("(%0000000000000000000000000000000000000000000000000000000000000000000000011111111),Y  ;\n");
		break;
	}
}
static void ctx_after(void)
{
	if (ctx_kind == 4 && src_n)
		s_s(src[src_n - 1] == '\n' ? "CTXLAB2 = $1234" : "\nCTXLAB2 = $1234");
}
void harness(void)
{
	ctx_before();
	harness_body();
}
#define harness harness_body
#endif

/* ---- what the program printed */
static int t_has(int at, const char *s) /* does the text have s at this place? (no branches on the text) */
{
	int ok = 1;
	for (; *s; s++, at++) {
		if (at >= txt_n)
			return 0;
		ok &= txt[at] == (uint8_t)*s;
	}
	return ok;
}
static inline int t_line(int at) /* start of the next line */
{
	while (at < txt_n && txt[at] != '\n')
		at++;
	return at < txt_n ? at + 1 : at;
}
static char hdr[400];
static void mk_hdr(int line, const char *msg)
{
	int n = 0;
	for (const char *p = src_name; *p; p++)
		hdr[n++] = *p;
	hdr[n++] = ':';
	char b[12];
	int k = 0;
	do
		b[k++] = (char)('0' + line % 10);
	while (line /= 10);
	while (k)
		hdr[n++] = b[--k];
	for (const char *p = ": ERROR: "; *p; p++)
		hdr[n++] = *p;
	for (const char *p = msg; *p; p++)
		hdr[n++] = *p;
	hdr[n++] = '\n';
	hdr[n] = 0;
}
static inline int t_is_success(void) { return t_has(0, "Assembly successful.\n"); }
/* index of the acceptable diagnostic that was printed, or -1 */
static int t_diag(void)
{
	for (int i = 0; i < rnalt; i++) {
		mk_hdr(ralt[i].line, ref_msg[ralt[i].kind]);
		if (t_has(0, hdr))
			return i;
	}
	return -1;
}
/* number of lines of the text that start with s */
static inline int t_count(const char *s)
{
	int n = 0;
	for (int at = 0; at < txt_n; at++)
		if (at == 0 || txt[at - 1] == '\n')
			n += t_has(at, s);
	return n;
}
static inline unsigned t_num(int *at, unsigned base)
{
	unsigned v = 0;
	while (*at < txt_n && gx_isxdigit(txt[*at]) && (base == 16 || gx_isdigit(txt[*at]))) {
		unsigned c = txt[(*at)++];
		v = v * base + (c <= '9' ? c - '0' : (c | 32) - 'a' + 10);
	}
	return v;
}

/* ---- the checks, one per aspect; each property uses its own */
#define A_STATUS 1   /* success exactly if the reference accepts */
#define A_DIAG 2     /* the diagnostic: line and kind */
#define A_ONE 4      /* exactly one diagnostic, no summary beside it */
#define A_COL 8      /* the arrow's column */
#define A_QUOTE 16   /* the layout of a diagnostic */
#define A_IMAGE 32   /* the bytes of the output file */
#define A_BYTES 64   /* the number of bytes reported */
#define A_SYMS 128   /* the number of symbols reported */
#define A_REJECT 256 /* what the reference rejects fails with a diagnostic */
#define A_ACCEPT 512 /* what the reference accepts succeeds */

static int out_file(void)
{
	for (int i = 3; i < gx_nfiles; i++)
		if (gx_files[i].kind == 1)
			return i;
	return -1;
}
static int at_ref_seen[RIMG]; /* 1 + a write known to be at the address of the byte */
/* Was the i-th write at the address of the j-th assembled byte?  Positions that
   differ from an already matched one by a constant need no solver. */
static int at_ref(int i, int j)
{
	int m = at_ref_seen[j] - 1, k = j; /* a match at or before j in the same segment */
	while (m < 0 && k && rseg[k] == rseg[k - 1])
		m = at_ref_seen[--k] - 1;
	if (m >= 0) {
		uint64_t d = out_pos[i] - out_pos[m];
		if (!sx_is_symbolic(d)) {
			int r = d == (uint64_t)(j - k);
			if (r && !at_ref_seen[j])
				at_ref_seen[j] = i + 1;
			return r;
		}
	}
	int r = (int)sx_conc(out_pos[i] == rpos[j]);
	if (r && !at_ref_seen[j])
		at_ref_seen[j] = i + 1;
	return r;
}
static void chk_image(void)
{
	int fd = out_file();
	sx_assert(fd >= 0, "the output file is created");
	sx_assert(gx_files[fd].old == 0, "the old content of the output file is gone");
	/* no address is assembled twice: the segments do not overlap */
	for (int i = 0; i < rnimg; i++) {
		if (i && rseg[i] == rseg[i - 1])
			continue;
		int e = i;
		while (e < rnimg && rseg[e] == rseg[i])
			e++;
		for (int k = 0; k < i; k++) {
			if (k && rseg[k] == rseg[k - 1])
				continue;
			int f = k;
			while (f < i && rseg[f] == rseg[k])
				f++;
			sx_assume((rpos[e - 1] < rpos[k]) | (rpos[f - 1] < rpos[i]));
		}
	}
	/* all the addresses are known */
	int known = 1;
	for (int i = 0; i < out_n && known; i++)
		known = !sx_is_symbolic(out_pos[i]) && out_pos[i] < RIMG;
	for (int j = 0; j < rnimg && known; j++)
		known = !sx_is_symbolic(rpos[j]);
	if (known) {
		static int written[RIMG]; /* 1 + the last write to an address */
		static uint8_t assembled[RIMG];
		int same = 1, extra = 0;
		uint64_t last = 0;
		for (int i = 0; i < out_n; i++)
			written[out_pos[i]] = i + 1;
		for (int j = 0; j < rnimg; j++) {
			int i = written[rpos[j]] - 1;
			same &= i >= 0 ? out_val[i] == rval[j] : 0;
			assembled[rpos[j]] = 1;
			last = rpos[j] > last ? rpos[j] : last;
		}
		for (int i = 0; i < out_n; i++) {
			if (!assembled[out_pos[i]])
				extra |= (out_val[i] != 0) | (out_pos[i] > last) | (rnimg == 0);
			extra |= out_fd[i] != fd;
		}
		sx_assert(same, "every assembled byte is in the output file at its address");
		sx_assert(!extra, "nothing else is written to the output file");
		return;
	}
	int same = 1, extra = 0, plain = out_n >= rnimg;
	uint64_t last = 0;
	/* usually the bytes are written in order, and then they do not replace each other */
	for (int j = 0; j < rnimg && plain; j++)
		plain = at_ref(j, j);
	for (int j = 0; j < rnimg; j++) {
		int i = out_n - 1;
		if (plain || (j < out_n && at_ref(j, j))) {
			/* the usual place; only later writes can have replaced it */
			for (int lo = plain ? rnimg : j + 1; i >= lo && !at_ref(i, j); i--)
				;
			if (i < j || (plain && i < rnimg))
				i = j;
		} else
			for (; i >= 0 && !at_ref(i, j); i--)
				;
		same &= i >= 0 ? out_val[i] == rval[j] : 0;
		if (j + 1 == rnimg || rseg[j] != rseg[j + 1])
			last = rpos[j] > last ? rpos[j] : last;
	}
	for (int i = 0; i < out_n; i++) {
		int in = i < rnimg && at_ref(i, i);
		for (int j = 0; j < rnimg && !in; j++)
			in = at_ref(i, j);
		if (!in)
			in = (out_val[i] == 0) & (out_pos[i] <= last) & (rnimg > 0);
		extra |= !in | (out_fd[i] != fd);
	}
	sx_assert(same, "every assembled byte is in the output file at its address");
	sx_assert(!extra, "nothing else is written to the output file");
}
/* the column on the screen of src[at] in the line that starts at `start` */
static int column(int start, int at)
{
	int col = 0;
	for (int i = start; i < at; i++)
		col = sx_conc(src[i] == '\t') ? (col | 7) + 1 : col + 1;
	return col;
}
static void chk_diag_layout(int d, int what)
{
	struct ralt *a = &ralt[d];
	int at = t_line(0), i = a->start, e = a->start;
	/* the line ends at its newline or at a NUL */
	while (e < a->end && src[e] != '\n' && src[e] != 0)
		e++;
	while (e > i && (src[e - 1] == ' ' || src[e - 1] == '\t' || src[e - 1] == '\r'))
		e--;
	if (what & A_QUOTE) {
		sx_assert(txt_n - at > e - i, "the source line is printed");
		int ok = 1;
		for (int k = 0; k < e - i; k++)
			ok &= txt[at + k] == src[i + k];
		sx_assert(ok, "the source line is printed as it is");
		sx_assert(txt[at + e - i] == '\n', "the source line is printed without trailing blanks and line end");
	}
	at += e - i + 1;
	int col = 0, p = at;
	while (p < txt_n && txt[p] == ' ') {
		p++;
		col++;
	}
	int arrow = p < txt_n && txt[p] == '^';
	if (a->at >= 0) {
		sx_assert(arrow, "an arrow is printed");
		sx_assert(col == column(a->start, a->at), "the arrow points at the offending column");
		if (what & A_QUOTE)
			p = t_line(p);
	} else if (a->kind == K_MODE || a->kind == K_SPACE)
		sx_assert(!arrow, "no arrow is printed for an error without a position");
	else if (arrow) /* something is missing at the end of the line */
		p = t_line(p);
	if (what & A_QUOTE) {
		int ok = 1;
		for (; p < txt_n; p++)
			ok &= txt[p] == '\n';
		sx_assert(ok, "nothing follows the diagnostic");
	}
}

static int h_status = -1, h_aspects;
static int h_quiet; /* no observations */
static void (*h_after)(int status);
static void h_check(int status)
{
	int what = h_aspects, ok = status == 0;
	if (what & A_STATUS)
		sx_assert(ok == (rnalt == 0), "the program is accepted exactly if it is valid");
	if (what & A_ACCEPT)
		sx_assert(ok || rnalt, "a valid program is accepted");
	if (what & A_REJECT) {
		sx_assert(!ok || !rnalt, "an invalid program is rejected");
		if (rnalt && !ok)
			sx_assert(t_count("in.asm:") + t_count("ERROR: ") >= 1, "a diagnostic is printed");
	}
	if (ok && rnalt == 0) {
		if (what & A_ONE)
			sx_assert(t_is_success() && t_count("in.asm:") == 0 && t_count("ERROR: ") == 0,
			          "success prints the summary and no diagnostic");
		if (what & A_IMAGE)
			chk_image();
		if (what & (A_BYTES | A_SYMS)) {
			int at = t_line(0);
			unsigned n = t_num(&at, 10);
			if (what & A_BYTES) {
				sx_assert(n == rbytes, "the number of bytes is reported");
				at += 4;
				sx_assert(t_num(&at, 16) == rbytes, "the number of bytes is reported in hexadecimal");
			}
			at = t_line(at);
			if (what & A_SYMS)
				sx_assert(t_num(&at, 10) == (unsigned)rnsym, "the number of symbols is reported");
		}
	}
	if (!ok && rnalt) {
		int d = -1;
		if (what & (A_DIAG | A_COL | A_QUOTE))
			d = t_diag();
		if (what & A_DIAG)
			sx_assert(d >= 0, "the diagnostic has the line and the message of the first error");
		if (what & A_ONE)
			sx_assert(t_count("in.asm:") == 1 && t_count("ERROR: ") == 0 && t_count("Assembly successful.") == 0,
			          "failure prints one diagnostic and no summary");
		if ((what & (A_COL | A_QUOTE)) && d >= 0)
			chk_diag_layout(d, what);
	}
}
static void h_observe(int status)
{
	sx_observe((uint64_t)(unsigned)status);
	sx_observe((uint64_t)txt_n);
	for (int i = 0; i < txt_n; i++)
		sx_observe(txt[i]);
	sx_observe((uint64_t)out_n);
	for (int i = 0; i < out_n; i++) {
		sx_observe(out_pos[i]);
		sx_observe(out_val[i]);
	}
}
#ifdef GX_SYMBOLIC
#define sx_dump(s) ((void)0)
#else
void sx_dump(int status); /* writes the run out for a comparison with the real program */
#endif
static void h_end(int status, int by_exit)
{
	(void)by_exit;
	gx_on_exit = 0;
	h_status = status & 0xFF;
	if (!h_quiet)
		h_observe(h_status);
	sx_dump(h_status);
	if (h_after)
		h_after(h_status);
	sx_done();
}
static void h_std(int status)
{
	ref_run();
	sx_cover("end of a run");
	if (rnalt)
		sx_cover("the program is invalid");
	else
		sx_cover("the program is valid");
	h_check(status);
}
/* the executor has checked every memory access; what is left to check at the end of a run */
static void h_safe(int status)
{
	sx_cover("end of a run");
	sx_assert(status == 0 || status == 1, "the program ends with a normal exit status");
	sx_assert(gx_bad_close == 0, "no file is closed twice");
	for (int i = 3; i < gx_nfiles; i++)
		sx_assert(gx_files[i].closes == 1, "every opened file is closed once");
}
/* assembles the source text and compares the given aspects with the reference */
static inline void h_assemble(int aspects)
{
	static char *argv[] = {"gaia", "in.asm", 0};
	h_aspects = aspects;
#ifdef CTX
	ctx_after();
#endif
	if (!h_after)
#ifdef SAFE
		h_after = h_safe;
#else
		h_after = h_std;
#endif
	gx_on_exit = h_end;
	h_end(gaia_main(2, argv), 0);
}
#endif
