/* A reference assembler, written from the documentation of the 6502 and of
   gaia's source language, without using the repository's code.  It is executed
   (symbolically or concretely) on the same source text as the real program. */
#ifndef REF_H
#define REF_H
#include <stdint.h>
enum rkind {
	K_CHAR, K_BIG, K_LONG, K_DIR, K_SYNTAX, K_BASE, K_REDEF, K_FWD, K_MODE, K_FAR, K_MISSING, K_SPACE, NKIND
};
extern const char *const ref_msg[NKIND];
enum rmode { IMP, ACC, IMM, ZP, ZPX, ZPY, ABS, ABSX, ABSY, IND, INDX, INDY, REL, NMODE };
extern const char ref_mn[56][4];
extern const uint8_t ref_isbranch[56], ref_isjump[56];
int ref_opcode(int mn, int mode); /* -1: no such instruction */
/* operand forms of the syntax */
enum rform { F_NONE, F_A, F_IMM, F_V, F_VX, F_VY, F_IND, F_INDX, F_INDY, NFORM };
int ref_mode(int mn, int form, int wide); /* mode of a form with a numeric operand; -1 if none */

enum rtype { T_LABEL, T_LIT, T_MN, T_HASH, T_OPEN, T_CLOSE, T_COMMA, T_EQ, T_X, T_Y, T_STAR, T_EQU, T_DEFINE, T_ORG, T_ENDD, T_A, T_NONE };
struct rtok {
	int type, at, len; /* position in src, length */
	unsigned val;      /* of a literal */
	int mn;
};
#define RTOKS 40
extern struct rtok rt[RTOKS + 1];
extern int rnt;
/* the acceptable diagnostics (a line may contain several errors) */
struct ralt {
	int line, kind, at; /* at: position in src, -1: no position */
	int start, end;     /* the line */
};
#define RALTS 12
extern struct ralt ralt[RALTS];
extern int rnalt; /* 0: the program is valid */
extern int ref_stop_line;
struct rsym {
	char name[64];
	int len;
	unsigned val;
};
#define RSYMS 4200
extern struct rsym rsym[RSYMS];
extern int rnsym;
/* the bytes of the image */
#define RIMG 66000
extern uint32_t rpos[RIMG];
extern uint8_t rval[RIMG];
extern int rnimg;
extern int rseg[RIMG]; /* bytes since the same origin have the same segment and consecutive addresses */
extern int rnseg;
extern uint32_t rbytes; /* sum of the instruction lengths */
extern int rninstr;
int ref_lex(int a, int b, int line); /* tokens of src[a..b) into rt/rnt; 0 if there is a lexical error (in ralt) */
int ref_parse(void);                 /* -1, or the index of the first token that does not fit */
void ref_run(void);
void ref_reset(void);
unsigned ref_upper(unsigned c);
#endif
