#include "ref.h"
#include "libc.h"
#include "sx.h"
#include "ref_ops.inc"

const char *const ref_msg[NKIND] = {
    [K_CHAR] = "illegal character", [K_BIG] = "value of literal exceeds 2 bytes",
    [K_LONG] = "label exceeds 63 characters", [K_DIR] = "illegal assembler directive",
    [K_SYNTAX] = "illegal syntax", [K_BASE] = "illegal base", [K_REDEF] = "no redefinition of labels",
    [K_FWD] = "illegal forward reference", [K_MODE] = "illegal addressing mode",
    [K_FAR] = "branch offset too far away", [K_MISSING] = "label definition was not found",
    [K_SPACE] = "code exceeds the 64K address space",
};
struct rtok rt[RTOKS + 1];
int rnt;
struct ralt ralt[RALTS];
int rnalt, ref_stop_line;
struct rsym rsym[RSYMS];
int rnsym;
uint32_t rpos[RIMG];
uint8_t rval[RIMG];
int rnimg;
int rseg[RIMG], rnseg;
uint32_t rbytes;
int rninstr;

int ref_opcode(int mn, int mode)
{
	for (int i = 0; i < 151; i++)
		if (ref_ops[i].mode == mode && ref_ops[i].mn[0] == ref_mn[mn][0] && ref_ops[i].mn[1] == ref_mn[mn][1] &&
		    ref_ops[i].mn[2] == ref_mn[mn][2])
			return ref_ops[i].op;
	return -1;
}
int ref_mode(int mn, int form, int wide)
{
	int m = -1;
	switch (form) {
	case F_NONE: m = ref_opcode(mn, ACC) >= 0 ? ACC : IMP; break;
	case F_A: m = ACC; break;
	case F_IMM: m = wide ? -1 : IMM; break;
	case F_V:
		if (ref_isbranch[mn])
			m = wide ? -1 : REL;
		else
			m = wide || ref_isjump[mn] ? ABS : ZP;
		break;
	case F_VX: m = wide ? ABSX : ZPX; break;
	case F_VY: m = wide ? ABSY : ZPY; break;
	case F_IND: m = IND; break;
	case F_INDX: m = wide ? -1 : INDX; break;
	case F_INDY: m = wide ? -1 : INDY; break;
	}
	return m >= 0 && ref_opcode(mn, m) >= 0 ? m : -1;
}

static int cur_line, cur_start, cur_end;
static void err(int kind, int at)
{
	for (int i = 0; i < rnalt; i++)
		if (ralt[i].kind == kind && ralt[i].at == at)
			return;
	if (rnalt < RALTS)
		ralt[rnalt++] = (struct ralt){cur_line, kind, at, cur_start, cur_end};
}

/* ------------------------------------------------------------- words */
unsigned ref_upper(unsigned c) { return c - 'a' < 26 ? c - 32 : c; }
static int letter(unsigned c) { return (c | 32) - 'a' < 26; }
static int digit(unsigned c) { return c - '0' < 10; }
static int wordch(unsigned c) { return (((c | 32) - 'a' < 26) | (c - '0' < 10)) | (c == '_'); }
/* is src[at..at+len) the word w, in any case? */
static int spells(int at, int len, const char *w)
{
	int i = 0;
	for (; i < len; i++)
		if (!w[i] || ref_upper(src[at + i]) != (uint8_t)w[i])
			return 0;
	return w[i] == 0;
}
/* does the token end here?  At the end of the line src[i] is not looked at */
static int ends(int i, int b)
{
	if (i >= b)
		return 1;
	switch (src[i]) {
	case ' ': case '\t': case '\r': case '\n': case 0: case 0xFF: case ',': case '(': case ')': case ';':
		return 1;
	}
	return 0;
}
static void tok(int type, int at, int len)
{
	if (rnt < RTOKS)
		rt[rnt++] = (struct rtok){type, at, len, 0, -1};
}

int ref_lex(int a, int b, int line)
{
	int i = a;
	cur_line = line;
	cur_start = a;
	cur_end = b;
	rnt = 0;
	for (;;) {
		while (i < b && (src[i] == ' ' || src[i] == '\t'))
			i++;
		if (i >= b)
			break;
		unsigned c = src[i];
		if (c == '\n' || c == ';' || c == 0 || c == 0xFF)
			break;
		if (c == '\r') {
			/* only as part of a line end; anything else is outside the property */
			sx_assume(i + 1 >= b || src[i + 1] == '\n');
			break;
		}
		int one = -1;
		switch (c) {
		case '#': one = T_HASH; break;
		case '(': one = T_OPEN; break;
		case ')': one = T_CLOSE; break;
		case ',': one = T_COMMA; break;
		case '=': one = T_EQ; break;
		case '*': one = T_STAR; break;
		}
		if (one >= 0) {
			tok(one, i, 1);
			i++;
		} else if (letter(c)) {
			int j = i;
			while (!ends(j, b) && src[j] != ':' && wordch(src[j]))
				j++;
			if (!ends(j, b) && src[j] != ':') {
				err(K_CHAR, j);
				if (j - i > 63)
					err(K_LONG, i);
				return 0;
			}
			if (j - i > 63) {
				err(K_LONG, i);
				return 0;
			}
			int type = T_LABEL, mn = -1;
			if (j - i == 1) {
				unsigned u = ref_upper(c);
				if (u == 'A')
					type = T_A;
				else if (u == 'X')
					type = T_X;
				else if (u == 'Y')
					type = T_Y;
			} else if (j - i == 3) {
				for (int k = 0; k < 56 && mn < 0; k++)
					if (spells(i, 3, ref_mn[k]))
						mn = k;
				if (mn >= 0)
					type = T_MN;
			}
			tok(type, i, j - i);
			if (rnt <= RTOKS)
				rt[rnt - 1].mn = mn;
			i = j;
		} else if (c == '$' || c == '%' || digit(c)) {
			unsigned base = c == '$' ? 16 : c == '%' ? 2 : 10;
			int j = i + (base != 10), first = j, bad = 0;
			uint32_t v = 0, big = 0;
			while (!ends(j, b)) {
				unsigned d = src[j], x;
				if (base == 16) {
					if (!(digit(d) | ((d | 32) - 'a' < 6))) {
						bad = 1;
						break;
					}
					x = d - '0' < 10 ? d - '0' : (d | 32) - 'a' + 10;
				} else if (base == 10) {
					if (!digit(d)) {
						bad = 1;
						break;
					}
					x = d - '0';
				} else {
					if (d - '0' >= 2) {
						bad = 1;
						break;
					}
					x = d - '0';
				}
				v = v * base + x;
				big |= v >> 16;
				v &= 0xFFFF;
				j++;
			}
			if (bad || j == first) {
				err(K_CHAR, j);
				if (big)
					err(K_BIG, i);
				return 0;
			}
			if (big) {
				err(K_BIG, i);
				return 0;
			}
			tok(T_LIT, i, j - i);
			rt[rnt - 1].val = v;
			i = j;
		} else if (c == '.') {
			int j = i + 1;
			while (!ends(j, b) && letter(src[j]))
				j++;
			if (!ends(j, b)) {
				err(K_CHAR, j);
				if (j - i > 62)
					err(K_DIR, i);
				return 0;
			}
			int type = -1;
			if (spells(i, j - i, ".DEFINE"))
				type = T_DEFINE;
			else if (spells(i, j - i, ".EQU"))
				type = T_EQU;
			else if (spells(i, j - i, ".ORG"))
				type = T_ORG;
			else if (spells(i, j - i, ".END"))
				type = T_ENDD;
			if (type < 0) {
				err(K_DIR, i);
				return 0;
			}
			tok(type, i, j - i);
			i = j;
		} else {
			err(K_CHAR, i);
			return 0;
		}
		if (i < b && src[i] == ':') {
			if (rnt == 1 && rt[0].type == T_LABEL)
				i++;
			else {
				err(K_CHAR, i);
				return 0;
			}
		}
	}
	return 1;
}

/* ------------------------------------------------------------- grammar */
static int ty(int i) { return i < rnt ? rt[i].type : T_NONE; }
static int isval(int i) { return ty(i) == T_LABEL || ty(i) == T_LIT; }
static int form, opnd; /* of the instruction, after parsing */
static int want(int i, int t) { return ty(i) == t; }
static int p_instr(int i) /* i: index after the mnemonic; returns the index of the first misfit, or -1 */
{
	opnd = -1;
	if (want(i, T_NONE)) {
		form = F_NONE;
		return -1;
	}
	if (want(i, T_A)) {
		form = F_A;
		i++;
	} else if (want(i, T_HASH)) {
		form = F_IMM;
		if (!isval(++i))
			return i;
		opnd = i++;
	} else if (isval(i)) {
		form = F_V;
		opnd = i++;
		if (want(i, T_COMMA)) {
			i++;
			if (want(i, T_X))
				form = F_VX;
			else if (want(i, T_Y))
				form = F_VY;
			else
				return i;
			i++;
		}
	} else if (want(i, T_OPEN)) {
		if (!isval(++i))
			return i;
		opnd = i++;
		if (want(i, T_COMMA)) {
			form = F_INDX;
			if (!want(++i, T_X))
				return i;
			if (!want(++i, T_CLOSE))
				return i;
			i++;
		} else if (want(i, T_CLOSE)) {
			form = F_IND;
			i++;
			if (want(i, T_COMMA)) {
				form = F_INDY;
				if (!want(++i, T_Y))
					return i;
				i++;
			}
		} else
			return i;
	} else
		return i;
	return want(i, T_NONE) ? -1 : i;
}
static int p_lit(int i) /* a literal and nothing else */
{
	if (!want(i, T_LIT))
		return i;
	return want(i + 1, T_NONE) ? -1 : i + 1;
}
int ref_parse(void)
{
	switch (ty(0)) {
	case T_NONE: return -1;
	case T_MN: return p_instr(1);
	case T_LABEL:
		if (want(1, T_EQ) || want(1, T_EQU))
			return p_lit(2);
		if (want(1, T_MN))
			return p_instr(2);
		return want(1, T_NONE) ? -1 : 1;
	case T_DEFINE: return want(1, T_LABEL) ? p_lit(2) : 1;
	case T_ORG: return p_lit(1);
	case T_ENDD: return want(1, T_NONE) ? -1 : 1;
	case T_STAR: return want(1, T_EQ) ? p_lit(2) : 1;
	}
	return 0;
}

/* ------------------------------------------------------------- symbols */
static int find(int at, int len)
{
	for (int i = 0; i < rnsym; i++) {
		if (rsym[i].len != len)
			continue;
		int k = 0;
		while (k < len && sx_conc(ref_upper(src[at + k]) == (uint8_t)rsym[i].name[k]))
			k++;
		if (k == len)
			return i;
	}
	return -1;
}
static int define(struct rtok *t, unsigned val)
{
	int s = find(t->at, t->len);
	if (s >= 0) {
		err(K_REDEF, t->at);
		return 0;
	}
	if (rnsym == RSYMS)
		sx_fail("reference: too many symbols");
	struct rsym *n = &rsym[rnsym++];
	for (int k = 0; k < t->len; k++)
		n->name[k] = (char)ref_upper(src[t->at + k]);
	n->name[t->len] = 0;
	n->len = t->len;
	n->val = val;
	return 1;
}

/* ------------------------------------------------------------- assembly */
static uint32_t pc;
struct fwd {
	int img, at, len, rel, line, start, end;
	uint32_t pc;
};
static struct fwd fw[4200];
static int nfw;
static void emit8(unsigned v)
{
	if (rnimg == RIMG)
		sx_fail("reference: image too large");
	rseg[rnimg] = rnseg;
	rpos[rnimg] = pc++;
	rval[rnimg++] = (uint8_t)v;
}
static int rel_ok(uint32_t from, uint32_t to) /* branchless */
{
	return (to + 128 - 2 - from) < 256u; /* to - from - 2 in -128..127, in 32-bit arithmetic */
}
static void instr(struct rtok *m)
{
	int mn = m->mn;
	struct rtok *o = opnd >= 0 ? &rt[opnd] : 0;
	uint32_t start = pc;
	int len;
	rninstr++;
	if (o && o->type == T_LABEL) {
		int s = find(o->at, o->len);
		if (s < 0) {
			int any = ref_mode(mn, form, 0) >= 0 || ref_mode(mn, form, 1) >= 0;
			if (!ref_isbranch[mn] && !ref_isjump[mn])
				err(K_FWD, o->at);
			if (!any)
				err(K_MODE, -1);
			if (rnalt)
				return;
			int mode = ref_mode(mn, form, 0);
			len = mode == REL ? 2 : 3;
			if (nfw == 4200)
				sx_fail("reference: too many forward references");
			fw[nfw++] = (struct fwd){rnimg, o->at, o->len, mode == REL, cur_line, cur_start, cur_end, pc};
			emit8((unsigned)ref_opcode(mn, mode));
			emit8(0);
			if (len == 3)
				emit8(0);
		} else if (ref_isbranch[mn] && form == F_V) {
			if (!rel_ok(pc, rsym[s].val)) {
				err(K_FAR, o->at);
				if (pc + 2 > 0x10000)
					err(K_SPACE, -1);
				return;
			}
			emit8((unsigned)ref_opcode(mn, REL));
			emit8(rsym[s].val - start - 2);
			len = 2;
		} else
			goto value;
	} else {
	value:;
		unsigned v = 0;
		int wide = 0;
		if (o) {
			v = o->type == T_LABEL ? rsym[find(o->at, o->len)].val : o->val;
			wide = v > 0xFF;
		}
		int mode = ref_mode(mn, form, wide);
		if (mode < 0) {
			err(K_MODE, -1);
			return;
		}
		emit8((unsigned)ref_opcode(mn, mode));
		len = 1;
		if (mode != IMP && mode != ACC) {
			emit8(v);
			len = 2;
			if (mode == ABS || mode == ABSX || mode == ABSY || mode == IND) {
				emit8(v >> 8);
				len = 3;
			}
		}
	}
	rbytes += (uint32_t)len;
	if (start + (uint32_t)len > 0x10000)
		err(K_SPACE, -1);
}
void ref_reset(void)
{
	rnt = rnalt = rnsym = rnimg = nfw = rninstr = ref_stop_line = 0;
	rbytes = pc = 0;
	rnseg = 0;
}
void ref_run(void)
{
	ref_reset();
	int a = 0, line = 1, stop = 0;
	while (a < src_n && !rnalt && !stop) {
		int b = a;
		while (b < src_n && src[b] != '\n')
			b++;
		if (b < src_n)
			b++;
		cur_line = line;
		if (ref_lex(a, b, line)) {
			int bad = ref_parse();
			if (bad >= 0)
				err(rt[0].type == T_STAR ? K_BASE : K_SYNTAX, bad < rnt ? rt[bad].at : -1);
			else {
				int m = -1;
				switch (ty(0)) {
				case T_MN: m = 0; break;
				case T_LABEL:
					if (ty(1) == T_EQ || ty(1) == T_EQU)
						define(&rt[0], rt[2].val);
					else {
						if (pc > 0xFFFF)
							err(K_SPACE, rt[0].at);
						define(&rt[0], pc);
						if (ty(1) == T_MN)
							m = 1;
					}
					break;
				case T_DEFINE: define(&rt[1], rt[2].val); break;
				case T_ORG: pc = rt[1].val; rnseg++; break;
				case T_STAR: pc = rt[2].val; rnseg++; break;
				case T_ENDD: stop = 1; break;
				}
				if (m >= 0)
					instr(&rt[m]);
			}
		} else {
			/* a syntax error on the same line may be reported instead */
			int bad = ref_parse();
			if (bad >= 0 && bad < rnt)
				err(rt[0].type == T_STAR ? K_BASE : K_SYNTAX, rt[bad].at);
		}
		ref_stop_line = line;
		a = b;
		line++;
	}
	if (rnalt)
		return;
	for (int i = 0; i < nfw && !rnalt; i++) {
		struct fwd *f = &fw[i];
		cur_line = f->line;
		cur_start = f->start;
		cur_end = f->end;
		int s = find(f->at, f->len);
		if (s < 0)
			err(K_MISSING, f->at);
		else if (f->rel) {
			if (!rel_ok(f->pc, rsym[s].val))
				err(K_FAR, f->at);
			rval[f->img + 1] = (uint8_t)(rsym[s].val - f->pc - 2);
		} else {
			rval[f->img + 1] = (uint8_t)rsym[s].val;
			rval[f->img + 2] = (uint8_t)(rsym[s].val >> 8);
		}
	}
}
