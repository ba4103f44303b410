/* Definitions and lookups of labels: in the symbol table itself, or (VIA) as lines of a source text for
   the whole program, with which counterexamples are confirmed. */
#include "check.h"
#include "error.h"
#include "symbol_table.h"
#ifdef VIA
static char und[8];
static void s_hex16(int v)
{
	s_s(" = $");
	for (int i = 12; i >= 0; i -= 4)
		s_c("0123456789ABCDEF"[v >> i & 15]);
	s_c('\n');
}
#define TABLE (void)0
#define DEFINE(n, v) (s_s(n), s_hex16(v))
/* what is not defined is defined later, as 7 */
#define LOOKUP(n, v, m) (s_s((v) == ERROR_SYMBOL_NOT_FOUND ? " JMP " : " LDA "), s_s(n), s_c('\n'), (v) == ERROR_SYMBOL_NOT_FOUND ? (void)strcpy(und, n) : (void)0)
#define COUNT(n) (void)0
#define END (*und ? (s_s(und), s_s(" = 7\n")) : (void)0, h_assemble(A_STATUS | A_IMAGE | A_SYMS))
#else
#define TABLE struct SymbolTable *t = init_symbol_table()
#define DEFINE(n, v) sx_assert(insert_symbol(t, n, v) >= 0, "a label is inserted")
#define LOOKUP(n, v, m) sx_assert(search_symbol(t, n) == (v), m)
#define COUNT(n) sx_assert(t->count == (n), "the table counts its labels")
#define END (destroy_symbol_table(t), sx_done())
#endif
