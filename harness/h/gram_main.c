/* Token sequences through the whole program: every prefix of a sentence of the
   grammar, followed by up to TAIL arbitrary tokens. */
#include "tok.h"
#ifndef TAIL
#define TAIL 2
#endif
/* sentences of the grammar; L label V literal I instruction */
static const char *const sent[] = {
    "", "I#V", "I#L", "IV,X", "IV,Y", "IL,X", "IL,Y", "I(V,X)", "I(L,X)", "I(V),Y", "I(L),Y", "IA",
    "L=V", "LeV", "LI#V", "LIV,X", "LI(V,X)", "LI(V),Y", "LIA", "dLV", "oV", "*=V", ".",
};
#define NSENT (sizeof sent / sizeof *sent)
static const char sent0[] = "LVI#(),=XY*edo.A"; /* the tokens */
static unsigned tokid(char c)
{
	const char *m = sent0;
	unsigned i = 0;
	while (m[i] != c)
		i++;
	return i;
}
void harness(void)
{
	unsigned s = sx_choice(NSENT), n = (unsigned)strlen(sent[s]);
	unsigned k = sx_choice(n + 1); /* tokens of the sentence that are kept */
	for (unsigned i = 0; i < k; i++)
		s_tok(tokid(sent[s][i]));
#ifdef MANY
	static const unsigned short many[] = {MANY};
	unsigned w = sx_choice(sizeof sent0 - 1);
	for (unsigned t = many[sx_choice(sizeof many / sizeof *many)]; t; t--)
		s_tok(w);
#endif
	for (unsigned t = sx_choice(TAIL + 1); t; t--) {
		/* any one-character token (or any other byte), or a longer one */
		static const uint8_t words[] = {0, 2, 11, 12, 13, 14};
		unsigned w = sx_choice(7);
		if (w == 0) {
			unsigned c = sx_byte();
			sx_assume(c != '\n');
			s_c((int)c);
			s_c(' ');
		} else
			s_tok(words[w - 1]);
	}
#ifdef REST
	/* the remainder of the sentence: tokens replaced or inserted */
	unsigned r = sx_choice(2);
	for (unsigned i = k + (r ? 0 : 1); i < n; i++)
		s_tok(tokid(sent[s][i]));
#endif
	s_c('\n');
	h_assemble(A_STATUS | A_DIAG | A_COL);
}
