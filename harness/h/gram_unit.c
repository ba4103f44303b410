/* parse_line() on a sequence of MAX_TOKENS tokens of arbitrary types. */
#ifdef VIA /* the same sequence as a source line of the whole program: counterexamples are confirmed with it */
#include "tok.h"
#include "lexer.h"
#else
#include "check.h"
#include "lexer.h"
#endif
#include "parser.h"
static const uint8_t map[17] = {
    [TOKEN_LABEL] = T_LABEL, [TOKEN_LITERAL] = T_LIT, [TOKEN_INSTRUCTION] = T_MN, [TOKEN_IMMEDIATE] = T_HASH,
    [TOKEN_OPEN_PARENTHESIS] = T_OPEN, [TOKEN_CLOSE_PARENTHESIS] = T_CLOSE, [TOKEN_COMMA] = T_COMMA,
    [TOKEN_EQUAL_SIGN] = T_EQ, [TOKEN_X_REGISTER] = T_X, [TOKEN_Y_REGISTER] = T_Y, [TOKEN_BASE] = T_STAR,
    [TOKEN_EQU_DIRECTIVE] = T_EQU, [TOKEN_DEFINE_DIRECTIVE] = T_DEFINE, [TOKEN_ORG_DIRECTIVE] = T_ORG,
    [TOKEN_END_DIRECTIVE] = T_ENDD, [TOKEN_ACCUMULATOR] = T_A, [TOKEN_NULL] = T_NONE,
};
#ifdef VIA
void harness(void)
{
	unsigned n = sx_choice(MAX_TOKENS + 1);
	for (unsigned i = 0; i < n; i++)
		s_tok(map[sx_range(0, 15)]);
	h_assemble(A_STATUS | A_DIAG | A_COL);
}
#else
static const char line[] = "a b c d e f g h i j k l m n o p q r s t u v w x y z\n";
void harness(void)
{
	struct Lexer *lx = init_lexer("in.asm");
	struct Token *tk = init_token();
	sx_assume(lx && tk);
	lx->line = line;
	lx->line_num = 1;
	unsigned n = sx_choice(MAX_TOKENS + 1), ty[MAX_TOKENS];
	for (unsigned i = 0; i < n; i++) {
		ty[i] = sx_range(0, 15);
		tk->type = (enum TokenType)ty[i];
		tk->value = 1;
		tk->buffer_location = line + 2 * i;
		sx_assume(add_token(lx, tk) == TOKEN_INSERTION_SUCCESS);
	}
	int r = parse_line(lx);
	rnt = (int)n;
	for (unsigned i = 0; i < n; i++)
		rt[i].type = map[ty[i]];
	int bad = ref_parse();
	sx_cover("a sequence is parsed");
	sx_assert((r > 0) == (bad < 0), "parse_line accepts exactly the sentences of the grammar");
	if (bad < 0) {
		sx_cover("a sequence is accepted");
		sx_assert(txt_n == 0, "no diagnostic for an accepted sequence");
	} else {
		sx_assert(txt_n > 0, "a rejected sequence is diagnosed");
		if (bad < (int)n) {
			sx_cover("an arrow is required");
			mk_hdr(1, ref_msg[sx_conc(rt[0].type == T_STAR) ? K_BASE : K_SYNTAX]);
			sx_assert(t_has(0, hdr), "the message is printed");
			int p = t_line(t_line(0)), col = 0;
			while (p < txt_n && txt[p] == ' ')
				p++, col++;
			sx_assert(p < txt_n && txt[p] == '^' && col == 2 * bad, "the arrow points at the first token that does not fit");
		}
	}
	sx_observe((uint64_t)(r > 0));
	for (int i = 0; i < txt_n; i++)
		sx_observe(txt[i]);
	sx_done();
}
#endif
