/* Concrete implementation of sx.h: replays one path of the symbolic run.
     prog WITNESS            replay one witness: exit 0 path ends normally,
                             77 an assumption is false, 99 an assertion fails
     prog --batch FILE       lines "WITNESS obs...": replays each in a child,
                             prints "REPLAYED n MISMATCHED m" */
#define _GNU_SOURCE 1
#include "libc.h"
#include "sx.h"
/* this file works with the real environment */
#undef FILE
#undef fopen
#undef fclose
#undef fflush
#undef printf
#undef fprintf
#undef stdout
#undef stderr
#undef getline
#undef snprintf
#undef fwrite
#undef fseek
#undef fputc
#undef fork
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>

static uint8_t wit[4096];
static int wn, wi;
static uint64_t obs[400000];
static int on;
static char *expect;
static const char *dumpdir; /* --dump DIR: N.asm, N.txt, N.img and N.status of every run */
static int dumpn;

uint8_t sx_byte(void) { return wi < wn ? wit[wi++] : (wi++, 0); }
unsigned sx_range(unsigned lo, unsigned hi)
{
	unsigned v = wi < wn ? wit[wi] : lo;
	wi++;
	if (v < lo || v > hi)
		_exit(77);
	return v;
}
unsigned sx_choice(unsigned n) { return sx_range(0, n - 1); }
void sx_assume(int c)
{
	if (!c)
		_exit(77);
}
static void flushobs(void)
{
	if (expect) {
		char *p = expect;
		for (int i = 0; i < on; i++) {
			char *q;
			uint64_t v = strtoull(p, &q, 16);
			if (q == p || v != obs[i]) {
				fprintf(stderr, "observation %d: native %llx, symbolic %s\n", i, (unsigned long long)obs[i], q == p ? "(none)" : p);
				_exit(98);
			}
			p = q;
		}
		while (*p == ' ' || *p == '\n')
			p++;
		if (*p) {
			fprintf(stderr, "the symbolic path has more observations: %s\n", p);
			_exit(98);
		}
		return;
	}
	printf("OBS");
	for (int i = 0; i < on; i++)
		printf(" %llx", (unsigned long long)obs[i]);
	printf("\n");
	fflush(stdout);
}
void sx_assert_(int c, const char *msg)
{
	if (c)
		return;
	printf("ASSERTION FAILED: %s\n", msg);
	fflush(stdout);
	_exit(99);
}
void sx_fail(const char *msg)
{
	sx_assert_(0, msg);
	_exit(99);
}
void sx_observe(uint64_t v)
{
	if (on < 400000)
		obs[on++] = v;
}
void sx_cover(const char *l) { (void)l; }
void sx_done(void)
{
	flushobs();
	_exit(0);
}
uint64_t sx_conc(uint64_t v) { return v; }
int sx_is_symbolic(uint64_t v) { (void)v; return 0; }
int sx_live_heap(void) { return 0; }
void harness(void);
static FILE *dopen(const char *ext)
{
	char b[600];
	snprintf(b, sizeof b, "%s/%d.%s", dumpdir, dumpn, ext);
	FILE *f = fopen(b, "wb");
	if (!f)
		_exit(5);
	return f;
}
void sx_dump(int status)
{
	if (!dumpdir)
		return;
	FILE *f = dopen("asm");
	fwrite(src, 1, (size_t)src_n, f);
	fclose(f);
	f = dopen("txt");
	fwrite(txt, 1, (size_t)txt_n, f);
	fclose(f);
	f = dopen("img");
	for (int i = 0; i < out_n; i++) {
		fseek(f, (long)out_pos[i], SEEK_SET);
		fputc(out_val[i], f);
	}
	fclose(f);
	f = dopen("status");
	fprintf(f, "%d\n", status);
	fclose(f);
}

static void parse(const char *h)
{
	wn = wi = on = 0;
	if (*h == '-')
		return;
	for (; h[0] && h[1] && h[0] != ' ' && h[0] != '\n'; h += 2) {
		unsigned v;
		sscanf(h, "%2x", &v);
		if (wn < (int)sizeof wit)
			wit[wn++] = (uint8_t)v;
	}
}
int main(int argc, char **argv)
{
	if (argc == 5 && !strcmp(argv[3], "--dump")) {
		dumpdir = argv[4];
		argc = 3;
	}
	if (argc == 3 && !strcmp(argv[1], "--batch")) {
		FILE *f = fopen(argv[2], "r");
		if (!f)
			return 5;
		char *line = NULL;
		size_t cap = 0;
		int n = 0, bad = 0;
		while (getline(&line, &cap, f) > 0) {
			dumpn = n++;
			fflush(stdout);
			pid_t p = fork();
			if (p == 0) {
				signal(SIGALRM, SIG_DFL);
				alarm(20);
				parse(line);
				char *sp = strchr(line, ' ');
				expect = sp ? sp : (char *)"";
				harness();
				sx_done();
			}
			int st;
			waitpid(p, &st, 0);
			if (!WIFEXITED(st) || WEXITSTATUS(st)) {
				bad++;
				if (bad <= 5)
					printf("MISMATCH status %x: %s", st, line);
			}
		}
		printf("REPLAYED %d MISMATCHED %d\n", n, bad);
		return bad ? 3 : 0;
	}
	if (argc == 3 && !strcmp(argv[1], "--one"))
		argv[1] = argv[2];
	else if (argc != 2)
		return 5;
	alarm(30);
	parse(argv[1]);
	harness();
	sx_done();
}
