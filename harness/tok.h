/* A source token of every type. */
#ifndef TOK_H
#define TOK_H
#include "check.h"
static const char *const tok_text[16] = {"LB", "1", "LDA", "#", "(", ")", ",", "=", "X", "Y", "*", ".EQU", ".DEFINE", ".ORG", ".END", "A"};
static inline void s_tok(unsigned t)
{
	s_s(tok_text[t]);
	s_c(' ');
}
#endif
