/* The symbol table: symbolic labels among PRE others, around the sizes at which it grows. */
#include "symtab.h"
#ifndef NSYM
#define NSYM 2
#endif
#ifndef NSHAPE
#define NSHAPE 3
#endif
#ifndef PRES
#define PRES 0, 6, 7, 17, 38
#endif
static char name[NSYM + 1][4];
static int val[NSYM];
static void mkname(char *p) /* what the lexer delivers: upper case */
{
	unsigned shape = sx_choice(NSHAPE), n = 0, c = sx_byte();
	int ok = c - 'A' < 26;
	if (shape) {
		p[n++] = shape == 1 ? 'L' : 'M'; /* LQ and M0, LR and M1, ... have the same hash */
		ok |= (c - '0' < 10) | (c == '_');
	}
	sx_assume(ok);
	p[n++] = (char)c;
	p[n] = 0;
}
static int same(const char *a, const char *b)
{
	for (;; a++, b++) {
		if (sx_conc(*a != *b))
			return 0;
		if (!*a)
			return 1;
	}
}
static void pname(char *b, unsigned i) /* the labels that are there already */
{
	b[0] = 'L';
	b[1] = (char)('A' + i % 26);
	b[2] = (char)('0' + i / 26);
	b[3] = 0;
}
void harness(void)
{
	static const unsigned short pres[] = {PRES};
	unsigned pre = pres[sx_choice(sizeof pres / 2)];
	TABLE;
	char b[4];
	for (unsigned i = 0; i < pre; i++) {
		pname(b, i);
		DEFINE(b, (int)(1000 + i));
	}
	for (int i = 0; i < NSYM; i++) {
		mkname(name[i]);
		for (int j = 0; j < i; j++)
			sx_assume(!same(name[i], name[j])); /* defining one twice is another matter */
		val[i] = sx_byte();
		val[i] |= sx_byte() << 8;
		DEFINE(name[i], val[i]);
		for (int j = 0; j <= i; j++)
			LOOKUP(name[j], val[j], "a label has the value of its definition");
	}
	unsigned what = sx_choice(2);
	if (what == 0) {
		mkname(name[NSYM]);
		int want = ERROR_SYMBOL_NOT_FOUND;
		for (int i = 0; i < NSYM; i++)
			if (same(name[NSYM], name[i])) {
				want = val[i];
				sx_cover("a label is found again");
			}
		if (want == ERROR_SYMBOL_NOT_FOUND)
			sx_cover("a label is not found");
		LOOKUP(name[NSYM], want, "looking up any label gives its value or that it is undefined");
	} else {
		for (unsigned i = 0; i < pre; i++) {
			pname(b, i);
			LOOKUP(b, (int)(1000 + i), "labels keep their values when the table grows");
		}
		COUNT((int)pre + NSYM);
		pname(b, pre);
		LOOKUP(b, ERROR_SYMBOL_NOT_FOUND, "a label that was never defined is not found");
	}
	END;
}
