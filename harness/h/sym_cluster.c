/* The symbol table: labels that crowd at one place of it, any place, before and after it grows.
   The names are chosen with a copy of the hash; the oracle does not depend on it. */
#include "symtab.h"
#ifndef SIZES
#define SIZES {17, 37, 8}, {37, 79, 18}
#endif
#ifndef CROWD
#define CROWD 3
#endif
static char name[CROWD + 1][5];
static unsigned h(const char *s, unsigned m)
{
	uint64_t v = 5381;
	for (; *s; s++)
		v = v * 33 + (unsigned char)*s;
	return (unsigned)(v % m);
}
static void cname(char *b, unsigned i) /* the i-th candidate */
{
	static const char al[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_";
	b[0] = 'L';
	b[1] = al[i / 1369 % 37];
	b[2] = al[i / 37 % 37];
	b[3] = al[i % 37];
	b[4] = 0;
}
static void pname(char *b, unsigned i)
{
	b[0] = 'M';
	b[1] = (char)('A' + i % 26);
	b[2] = (char)('0' + i / 26);
	b[3] = 0;
}
static unsigned pick(unsigned m)
{
	unsigned hi = sx_choice((m + 15) / 16);
	return (hi * 16 + sx_choice(16)) % m;
}
void harness(void)
{
	static const unsigned short sizes[][3] = {SIZES};
	const unsigned short *z = sizes[sx_choice(sizeof sizes / sizeof *sizes)];
	unsigned m = z[sx_choice(2)], slot = m <= 256 ? sx_choice(m) : pick(m), later = sx_choice(2);
	/* the crowd before or after the other labels, which fill the table until it grows with the last one */
	TABLE;
	char b[5];
	unsigned n = 0;
	for (unsigned i = 0; n <= CROWD; i++) {
		cname(b, i);
		if (h(b, m) == slot)
			for (unsigned k = 0, c = n++; k < 5; k++)
				name[c][k] = b[k];
	}
	unsigned pre = z[2] - CROWD;
	for (unsigned i = 0; i < pre + CROWD; i++) {
		unsigned crowd = later ? i >= pre : i < CROWD, k = later ? i - pre : i;
		pname(b, later ? i : i - CROWD);
		DEFINE(crowd ? name[k] : b, crowd ? (int)(2000 + k) : (int)(1000 + i));
	}
	char s[3] = {'L', 0, 0};
	unsigned c = sx_byte();
	int v = (int)sx_byte();
	v |= (int)(sx_byte() << 8);
	sx_assume((c - 'A' < 26) | (c - '0' < 10) | (c == '_'));
	s[1] = (char)c;
	DEFINE(s, v);
	LOOKUP(s, v, "a label has the value of its definition");
	for (unsigned i = 0; i < pre + CROWD; i++) {
		unsigned crowd = later ? i >= pre : i < CROWD, k = later ? i - pre : i;
		pname(b, later ? i : i - CROWD);
		LOOKUP(crowd ? name[k] : b, crowd ? (int)(2000 + k) : (int)(1000 + i), "labels keep their values when the table grows");
	}
	sx_cover("all labels are looked up");
	COUNT((int)z[2] + 1);
	LOOKUP(name[CROWD], ERROR_SYMBOL_NOT_FOUND, "a label that was never defined is not found");
	END;
}
