// gsx: a path-exploring symbolic executor for LLVM bitcode (see DESIGN.md).
//
// Executes the function `harness` of a linked module.  Inputs are bytes
// (sx_byte & co).  Every branch whose both sides are feasible forks the state;
// feasibility, address resolution and assertions are decided for all values of
// the inputs on the path, by exact finite-domain reasoning for conditions over
// a single unentangled byte and by z3 (QF_BV) for everything else.
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <z3.h>

#include <algorithm>
#include <bitset>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <deque>
#include <map>
#include <set>
#include <string>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;
typedef int64_t i64;

static const int MAXIN = 256;
typedef std::bitset<MAXIN> Bits;
typedef std::bitset<256> Dom;

static double now() {
	struct timespec ts;
	clock_gettime(CLOCK_MONOTONIC, &ts);
	return ts.tv_sec + ts.tv_nsec * 1e-9;
}

[[noreturn]] static void die(const char *fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	fprintf(stderr, "gsx: ");
	vfprintf(stderr, fmt, ap);
	fprintf(stderr, "\n");
	va_end(ap);
	fflush(stdout);
	_exit(5);
}

// ---------------------------------------------------------------- statistics
struct Stats {
	u64 paths, completed, forks, branches, domq, z3q, z3sat, z3unsat, z3unk,
	    asserts, asserts_proved_sym, insts, maxdepth, assumed_out, viol,
	    merged_loads, z3_us, concfork, qhits, audits, audit_us, audit_unk;
};
static Stats *ST; // this process' statistics (copied to shared memory at the end)

// ---------------------------------------------------------------- expressions
enum EOp : u8 {
	E_CONST, E_IN, E_UNDEF,
	E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM,
	E_SHL, E_LSHR, E_ASHR, E_AND, E_OR, E_XOR,
	E_EQ, E_ULT, E_ULE, E_SLT, E_SLE,
	E_ITE, E_ZEXT, E_SEXT, E_EXTRACT, E_CONCAT
};

struct Expr {
	EOp op;
	u8 w;
	bool und;
	int dep; // -1 constant, >=0 the only input, -2 several inputs
	Expr *a, *b, *c;
	u64 k;
	u32 id;
	const Bits *deps; // several inputs
	u64 *tab;         // values per input value if dep >= 0
	u64 ev;
	u32 stamp;
};

struct V {
	u64 c;
	Expr *s;
};
static inline V K(u64 c) { return V{c, nullptr}; }

static inline u64 mask(int w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline i64 sx(u64 v, int w) {
	if (w >= 64)
		return (i64)v;
	u64 m = 1ULL << (w - 1);
	v &= mask(w);
	return (i64)((v ^ m) - m);
}

struct EKey {
	u64 h;
	Expr *e;
};
static std::vector<Expr *> etab; // open addressing
static size_t ecount;
static u32 enext = 1;
static std::vector<char *> slabs;
static size_t slabpos = 1 << 20;
static void *slab(size_t n) {
	n = (n + 15) & ~15UL;
	if (slabpos + n > (1 << 20)) {
		slabs.push_back((char *)malloc((1 << 20) + 16));
		slabpos = 0;
	}
	void *p = slabs.back() + slabpos;
	slabpos += n;
	return p;
}
struct BitsHash {
	size_t operator()(const Bits &b) const { return std::hash<Bits>()(b); }
};
static std::unordered_map<Bits, const Bits *, BitsHash> bitsIntern;
static const Bits *intern(const Bits &b) {
	auto it = bitsIntern.find(b);
	if (it != bitsIntern.end())
		return it->second;
	const Bits *p = new Bits(b);
	bitsIntern[b] = p;
	return p;
}
static u64 ehash(EOp op, int w, Expr *a, Expr *b, Expr *c, u64 k) {
	u64 h = op * 0x9E3779B97F4A7C15ULL + w;
	auto mix = [&](u64 x) {
		h ^= x + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2);
		h *= 0xff51afd7ed558ccdULL;
		h ^= h >> 32;
	};
	mix(a ? a->id : 0);
	mix(b ? b->id : 0);
	mix(c ? c->id : 0);
	mix(k);
	return h;
}
static Expr *rawmk(EOp op, int w, Expr *a, Expr *b, Expr *c, u64 k) {
	if (etab.empty())
		etab.resize(1 << 16, nullptr);
	if (ecount * 2 > etab.size()) {
		std::vector<Expr *> old;
		old.swap(etab);
		etab.resize(old.size() * 2, nullptr);
		for (Expr *e : old)
			if (e) {
				size_t i = ehash(e->op, e->w, e->a, e->b, e->c, e->k) & (etab.size() - 1);
				while (etab[i])
					i = (i + 1) & (etab.size() - 1);
				etab[i] = e;
			}
	}
	size_t i = ehash(op, w, a, b, c, k) & (etab.size() - 1);
	while (Expr *e = etab[i]) {
		if (e->op == op && e->w == w && e->a == a && e->b == b && e->c == c && e->k == k)
			return e;
		i = (i + 1) & (etab.size() - 1);
	}
	Expr *e = (Expr *)slab(sizeof(Expr));
	memset(e, 0, sizeof *e);
	e->op = op;
	e->w = w;
	e->a = a;
	e->b = b;
	e->c = c;
	e->k = k;
	e->id = enext++;
	e->dep = -1;
	if (op == E_IN)
		e->dep = (int)k;
	if (op == E_UNDEF)
		e->und = true;
	Bits bs;
	Expr *ch[3] = {a, b, c};
	for (Expr *x : ch)
		if (x) {
			e->und |= x->und;
			if (x->dep == -1)
				continue;
			if (e->dep == -1)
				e->dep = x->dep;
			else if (e->dep != x->dep || x->dep == -2)
				e->dep = -2;
		}
	if (e->dep == -2) {
		for (Expr *x : ch)
			if (x) {
				if (x->dep >= 0)
					bs.set(x->dep);
				else if (x->dep == -2)
					bs |= *x->deps;
			}
		e->deps = intern(bs);
	}
	etab[i] = e;
	ecount++;
	return e;
}
static Expr *cst(u64 k, int w) { return rawmk(E_CONST, w, 0, 0, 0, k & mask(w)); }
static inline bool isk(Expr *e) { return e->op == E_CONST; }

static u64 evop(EOp op, int w, int aw, u64 a, u64 b, u64 c, u64 k) {
	switch (op) {
	case E_ADD: return (a + b) & mask(w);
	case E_SUB: return (a - b) & mask(w);
	case E_MUL: return (a * b) & mask(w);
	case E_UDIV: return b ? a / b : mask(w);
	case E_UREM: return b ? a % b : a;
	case E_SDIV: {
		i64 x = sx(a, w), y = sx(b, w);
		if (y == 0)
			return x < 0 ? 1 : mask(w);
		if (y == -1)
			return (0 - (u64)x) & mask(w);
		return (u64)(x / y) & mask(w);
	}
	case E_SREM: {
		i64 x = sx(a, w), y = sx(b, w);
		if (y == 0)
			return a;
		if (y == -1)
			return 0;
		return (u64)(x % y) & mask(w);
	}
	case E_SHL: return b >= (u64)w ? 0 : (a << b) & mask(w);
	case E_LSHR: return b >= (u64)w ? 0 : a >> b;
	case E_ASHR: return (u64)(sx(a, w) >> (b >= (u64)w ? w - 1 : b)) & mask(w);
	case E_AND: return a & b;
	case E_OR: return a | b;
	case E_XOR: return a ^ b;
	case E_EQ: return a == b;
	case E_ULT: return a < b;
	case E_ULE: return a <= b;
	case E_SLT: return sx(a, aw) < sx(b, aw);
	case E_SLE: return sx(a, aw) <= sx(b, aw);
	case E_ITE: return a ? b : c;
	case E_ZEXT: return a;
	case E_SEXT: return (u64)sx(a, aw) & mask(w);
	case E_EXTRACT: return (a >> k) & mask(w);
	default: die("evop %d", op);
	}
}

static Expr *mk(EOp op, int w, Expr *a, Expr *b = nullptr, Expr *c = nullptr, u64 k = 0);
static Expr *mknot(Expr *e) { return mk(E_XOR, 1, e, cst(1, 1)); }

static bool xnopush; // bytes going to memory: keep them recognisable as parts of one value
static Expr *mkextract(Expr *a, int lo, int w);
static Expr *mkconcat(Expr *hi, Expr *lo) {
	int w = hi->w + lo->w;
	if (isk(hi) && isk(lo))
		return cst(hi->k << lo->w | lo->k, w);
	if (isk(hi) && hi->k == 0)
		return mk(E_ZEXT, w, lo);
	if (hi->op == E_EXTRACT && lo->op == E_EXTRACT && hi->a == lo->a && hi->k == lo->k + lo->w) {
		if (lo->k == 0 && w == hi->a->w)
			return hi->a;
		xnopush = true;
		Expr *r = mkextract(hi->a, (int)lo->k, w);
		xnopush = false;
		return r;
	}
	// the upper part of a sign extension beside its lower part
	if (hi->op == E_EXTRACT && hi->a->op == E_SEXT && hi->k == (u64)lo->w && hi->a->a->w <= lo->w &&
	    (lo == hi->a->a || (lo->op == E_SEXT && lo->a == hi->a->a)))
		return mk(E_SEXT, w, hi->a->a);
	return rawmk(E_CONCAT, w, hi, lo, nullptr, 0);
}
static Expr *mkextract(Expr *a, int lo, int w) {
	if (lo == 0 && w == a->w)
		return a;
	if (isk(a))
		return cst(a->k >> lo, w);
	if (xnopush && a->dep < 0)
		switch (a->op) {
		case E_ADD: case E_SUB: case E_MUL: case E_ITE: case E_AND: case E_OR: case E_XOR:
			return rawmk(E_EXTRACT, w, a, nullptr, nullptr, lo);
		default:
			break;
		}
	switch (a->op) {
	case E_EXTRACT:
		return mkextract(a->a, lo + (int)a->k, w);
	case E_CONCAT: {
		int lw = a->b->w;
		if (lo >= lw)
			return mkextract(a->a, lo - lw, w);
		if (lo + w <= lw)
			return mkextract(a->b, lo, w);
		return mkconcat(mkextract(a->a, 0, lo + w - lw), mkextract(a->b, lo, lw - lo));
	}
	case E_ZEXT: {
		int aw = a->a->w;
		if (lo >= aw)
			return cst(0, w);
		if (lo + w <= aw)
			return mkextract(a->a, lo, w);
		return mk(E_ZEXT, w, mkextract(a->a, lo, aw - lo));
	}
	case E_SEXT: {
		int aw = a->a->w;
		if (lo + w <= aw)
			return mkextract(a->a, lo, w);
		if (lo == 0)
			return mk(E_SEXT, w, a->a);
		break;
	}
	case E_ITE:
		if (isk(a->b) || isk(a->c))
			return mk(E_ITE, w, a->a, mkextract(a->b, lo, w), mkextract(a->c, lo, w));
		break;
	case E_AND: case E_OR: case E_XOR:
		return mk(a->op, w, mkextract(a->a, lo, w), mkextract(a->b, lo, w));
	case E_ADD: case E_SUB: case E_MUL:
		if (lo == 0)
			return mk(a->op, w, mkextract(a->a, 0, w), mkextract(a->b, 0, w));
		break;
	case E_SHL:
		if (isk(a->b) && a->b->k < (u64)a->w) {
			int s = (int)a->b->k;
			if (lo >= s)
				return mkextract(a->a, lo - s, w);
			if (lo + w <= s)
				return cst(0, w);
		}
		break;
	case E_LSHR:
		if (isk(a->b) && a->b->k < (u64)a->w) {
			int s = (int)a->b->k;
			if (lo + s + w <= a->w)
				return mkextract(a->a, lo + s, w);
			if (lo + s >= a->w)
				return cst(0, w);
		}
		break;
	default:
		break;
	}
	return rawmk(E_EXTRACT, w, a, nullptr, nullptr, lo);
}

static Expr *mk(EOp op, int w, Expr *a, Expr *b, Expr *c, u64 k) {
	if (op == E_EXTRACT)
		return mkextract(a, (int)k, w);
	if (op == E_CONCAT)
		return mkconcat(a, b);
	if (op == E_ZEXT || op == E_SEXT) {
		if (w == a->w)
			return a;
		if (isk(a))
			return cst(evop(op, w, a->w, a->k, 0, 0, 0), w);
		if (a->op == op)
			return mk(op, w, a->a);
		if (op == E_SEXT && a->op == E_ZEXT)
			return mk(E_ZEXT, w, a->a);
		if (a->op == E_ITE && isk(a->b) && isk(a->c))
			return mk(E_ITE, w, a->a, mk(op, w, a->b), mk(op, w, a->c));
		return rawmk(op, w, a, 0, 0, 0);
	}
	if (op == E_ITE) {
		if (isk(a))
			return a->k ? b : c;
		if (b == c)
			return b;
		if (w == 1) {
			if (isk(b) && isk(c))
				return b->k ? a : mknot(a);
			if (isk(b))
				return b->k ? mk(E_OR, 1, a, c) : mk(E_AND, 1, mknot(a), c);
			if (isk(c))
				return c->k ? mk(E_OR, 1, mknot(a), b) : mk(E_AND, 1, a, b);
		}
		if (a->op == E_XOR && a->w == 1 && isk(a->b))
			return mk(E_ITE, w, a->a, c, b);
		if (b->op == E_ITE && b->a == a)
			b = b->b;
		if (c->op == E_ITE && c->a == a)
			c = c->c;
		if (b == c)
			return b;
		return rawmk(E_ITE, w, a, b, c, 0);
	}
	// binary
	if (isk(a) && isk(b))
		return cst(evop(op, w, a->w, a->k, b->k, 0, 0), w);
	bool comm = op == E_ADD || op == E_MUL || op == E_AND || op == E_OR || op == E_XOR || op == E_EQ;
	if (comm && (isk(a) || (!isk(b) && a->id > b->id)))
		std::swap(a, b);
	int aw = a->w;
	u64 m = mask(aw);
	switch (op) {
	case E_ADD:
		if (isk(b)) {
			if (b->k == 0)
				return a;
			if (a->op == E_ADD && isk(a->b))
				return mk(E_ADD, w, a->a, cst(a->b->k + b->k, w));
		}
		break;
	case E_SUB:
		if (isk(b))
			return mk(E_ADD, w, a, cst(0 - b->k, w));
		if (a == b)
			return cst(0, w);
		break;
	case E_MUL:
		if (isk(b)) {
			if (b->k == 0)
				return b;
			if (b->k == 1)
				return a;
			if ((b->k & (b->k - 1)) == 0)
				return mk(E_SHL, w, a, cst(__builtin_ctzll(b->k), w));
		}
		break;
	case E_UDIV:
		if (isk(b) && b->k == 1)
			return a;
		break;
	case E_SHL: case E_LSHR: case E_ASHR:
		if (isk(b) && b->k == 0)
			return a;
		if (isk(b) && op != E_ASHR && b->k >= (u64)w)
			return cst(0, w);
		if (isk(b) && op == E_LSHR)
			return mk(E_ZEXT, w, mkextract(a, (int)b->k, w - (int)b->k));
		if (isk(b) && op == E_SHL)
			return mkconcat(mkextract(a, 0, w - (int)b->k), cst(0, (int)b->k));
		break;
	case E_AND:
		if (a == b)
			return a;
		if (isk(b)) {
			if (b->k == 0)
				return b;
			if (b->k == m)
				return a;
			if (a->op == E_ZEXT) {
				u64 im = mask(a->a->w);
				if ((b->k & im) == im)
					return a;
				return mk(E_ZEXT, w, mk(E_AND, a->a->w, a->a, cst(b->k & im, a->a->w)));
			}
			if (a->op == E_AND && isk(a->b))
				return mk(E_AND, w, a->a, cst(a->b->k & b->k, w));
			// low mask
			if ((b->k & (b->k + 1)) == 0) {
				int n = __builtin_popcountll(b->k);
				return mk(E_ZEXT, w, mkextract(a, 0, n));
			}
		}
		if (w == 1 && ((a->op == E_XOR && isk(a->b) && a->a == b) || (b->op == E_XOR && isk(b->b) && b->a == a)))
			return cst(0, 1);
		break;
	case E_OR:
		if (a == b)
			return a;
		if (isk(b)) {
			if (b->k == 0)
				return a;
			if (b->k == m)
				return b;
		}
		if (w == 1 && ((a->op == E_XOR && isk(a->b) && a->a == b) || (b->op == E_XOR && isk(b->b) && b->a == a)))
			return cst(1, 1);
		// disjoint: zext low part | shifted high part -> concat
		if (a->op == E_CONCAT && isk(a->b) && a->b->k == 0 && b->op == E_ZEXT && b->a->w <= a->b->w)
			return mkconcat(a->a, mk(E_ZEXT, a->b->w, b->a));
		if (b->op == E_CONCAT && isk(b->b) && b->b->k == 0 && a->op == E_ZEXT && a->a->w <= b->b->w)
			return mkconcat(b->a, mk(E_ZEXT, b->b->w, a->a));
		break;
	case E_XOR:
		if (a == b)
			return cst(0, w);
		if (isk(b)) {
			if (b->k == 0)
				return a;
			if (a->op == E_XOR && isk(a->b))
				return mk(E_XOR, w, a->a, cst(a->b->k ^ b->k, w));
			if (w == 1) { // negated comparisons keep a canonical form
				if (a->op == E_ULT)
					return mk(E_ULE, 1, a->b, a->a);
				if (a->op == E_ULE)
					return mk(E_ULT, 1, a->b, a->a);
				if (a->op == E_SLT)
					return mk(E_SLE, 1, a->b, a->a);
				if (a->op == E_SLE)
					return mk(E_SLT, 1, a->b, a->a);
			}
		}
		break;
	case E_EQ:
		if (a == b)
			return cst(1, 1);
		if (isk(b)) {
			if (aw == 1)
				return b->k ? a : mknot(a);
			if (a->op == E_ZEXT) {
				if (b->k & ~mask(a->a->w))
					return cst(0, 1);
				return mk(E_EQ, 1, a->a, cst(b->k, a->a->w));
			}
			if (a->op == E_SEXT) {
				u64 lo = b->k & mask(a->a->w);
				if (((u64)sx(lo, a->a->w) & m) != b->k)
					return cst(0, 1);
				return mk(E_EQ, 1, a->a, cst(lo, a->a->w));
			}
			if (a->op == E_CONCAT)
				return mk(E_AND, 1, mk(E_EQ, 1, a->a, cst(b->k >> a->b->w, a->a->w)),
				          mk(E_EQ, 1, a->b, cst(b->k, a->b->w)));
			if (a->op == E_ITE && isk(a->b) && isk(a->c)) {
				bool x = a->b->k == b->k, y = a->c->k == b->k;
				if (x && y)
					return cst(1, 1);
				if (!x && !y)
					return cst(0, 1);
				return x ? a->a : mknot(a->a);
			}
			if (a->op == E_ITE && isk(a->b) && a->b->k != b->k)
				return mk(E_AND, 1, mknot(a->a), mk(E_EQ, 1, a->c, b));
			if (a->op == E_ITE && isk(a->b) && a->b->k == b->k)
				return mk(E_OR, 1, a->a, mk(E_EQ, 1, a->c, b));
			if (a->op == E_ADD && isk(a->b))
				return mk(E_EQ, 1, a->a, cst(b->k - a->b->k, aw));
			if (a->op == E_XOR && isk(a->b))
				return mk(E_EQ, 1, a->a, cst(b->k ^ a->b->k, aw));
		} else {
			if (a->op == E_ZEXT && b->op == E_ZEXT && a->a->w == b->a->w)
				return mk(E_EQ, 1, a->a, b->a);
			if (a->op == E_SEXT && b->op == E_SEXT && a->a->w == b->a->w)
				return mk(E_EQ, 1, a->a, b->a);
		}
		break;
	case E_ULT:
		if (a == b)
			return cst(0, 1);
		if (isk(b) && b->k == 0)
			return cst(0, 1);
		if (isk(a) && a->k == m)
			return cst(0, 1);
		if (a->op == E_ZEXT && isk(b)) {
			if (b->k > mask(a->a->w))
				return cst(1, 1);
			return mk(E_ULT, 1, a->a, cst(b->k, a->a->w));
		}
		if (b->op == E_ZEXT && isk(a)) {
			if (a->k >= mask(b->a->w))
				return cst(0, 1);
			return mk(E_ULT, 1, cst(a->k, b->a->w), b->a);
		}
		break;
	case E_ULE:
		if (a == b)
			return cst(1, 1);
		if (isk(a) && a->k == 0)
			return cst(1, 1);
		if (isk(b) && b->k == m)
			return cst(1, 1);
		if (a->op == E_ZEXT && isk(b)) {
			if (b->k >= mask(a->a->w))
				return cst(1, 1);
			return mk(E_ULE, 1, a->a, cst(b->k, a->a->w));
		}
		if (b->op == E_ZEXT && isk(a)) {
			if (a->k > mask(b->a->w))
				return cst(0, 1);
			return mk(E_ULE, 1, cst(a->k, b->a->w), b->a);
		}
		break;
	case E_SLT: case E_SLE:
		if (a == b)
			return cst(op == E_SLE, 1);
		// both non-negative by zero extension: unsigned compare
		{
			bool an = a->op == E_ZEXT || (isk(a) && sx(a->k, aw) >= 0);
			bool bn = b->op == E_ZEXT || (isk(b) && sx(b->k, aw) >= 0);
			if (an && bn)
				return mk(op == E_SLT ? E_ULT : E_ULE, 1, a, b);
			if (an && isk(b)) // b negative
				return cst(0, 1);
			if (bn && isk(a))
				return cst(1, 1);
		}
		break;
	default:
		break;
	}
	return rawmk(op, w, a, b, nullptr, 0);
}

static u64 *etable(Expr *e) {
	if (e->tab)
		return e->tab;
	u64 *t = (u64 *)slab(256 * sizeof(u64));
	if (e->op == E_IN) {
		for (int i = 0; i < 256; i++)
			t[i] = i;
	} else {
		Expr *ch[3] = {e->a, e->b, e->c};
		u64 *ct[3] = {0, 0, 0};
		for (int j = 0; j < 3; j++)
			if (ch[j] && ch[j]->dep >= 0)
				ct[j] = etable(ch[j]);
		for (int i = 0; i < 256; i++) {
			u64 x[3] = {0, 0, 0};
			for (int j = 0; j < 3; j++)
				if (ch[j])
					x[j] = ct[j] ? ct[j][i] : ch[j]->k;
			if (e->op == E_CONCAT)
				t[i] = x[0] << e->b->w | x[1];
			else
				t[i] = evop(e->op, e->w, e->a->w, x[0], x[1], x[2], e->k);
		}
	}
	e->tab = t;
	return t;
}

static u32 epoch = 1;
static u64 ev1(Expr *e, const u8 *wit) {
	if (e->op == E_CONST)
		return e->k;
	if (e->op == E_UNDEF)
		return 0;
	if (e->dep >= 0 && !e->und)
		return etable(e)[wit[e->dep]];
	if (e->stamp == epoch)
		return e->ev;
	u64 r;
	if (e->op == E_IN)
		r = wit[e->k];
	else if (e->op == E_ITE)
		r = ev1(e->a, wit) ? ev1(e->b, wit) : ev1(e->c, wit);
	else if (e->op == E_CONCAT)
		r = ev1(e->a, wit) << e->b->w | ev1(e->b, wit);
	else
		r = evop(e->op, e->w, e->a->w, ev1(e->a, wit), e->b ? ev1(e->b, wit) : 0, 0, e->k);
	e->stamp = epoch;
	e->ev = r;
	return r;
}
static u64 evalw(Expr *e, const u8 *wit) {
	epoch++;
	return ev1(e, wit);
}
static inline Expr *toE(V v, int w) { return v.s ? v.s : cst(v.c, w); }
static inline V fromE(Expr *e) { return isk(e) ? K(e->k) : V{0, e}; }

// ---------------------------------------------------------------- z3
static Z3_context zc;
static Z3_solver zs;
static Z3_ast zin[MAXIN];
static Z3_sort bvsort[65];
static unsigned opt_z3ms = 20000;
static bool opt_nodomain = false;

static void z3err(Z3_context c, Z3_error_code e) { die("z3 error: %s", Z3_get_error_msg(c, e)); }
static void z3init() {
	Z3_config cfg = Z3_mk_config();
	zc = Z3_mk_context(cfg);
	Z3_set_error_handler(zc, z3err);
	zs = Z3_mk_solver_for_logic(zc, Z3_mk_string_symbol(zc, "QF_BV"));
	Z3_solver_inc_ref(zc, zs);
	Z3_params p = Z3_mk_params(zc);
	Z3_params_inc_ref(zc, p);
	// a resource limit, not a timeout: timeouts use threads, which do not survive fork()
	Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "rlimit"), opt_z3ms * 4000);
	Z3_solver_set_params(zc, zs, p);
	for (int i = 1; i <= 64; i++)
		bvsort[i] = Z3_mk_bv_sort(zc, i);
	for (int i = 0; i < MAXIN; i++) {
		char nm[16];
		snprintf(nm, sizeof nm, "in%d", i);
		zin[i] = Z3_mk_const(zc, Z3_mk_string_symbol(zc, nm), bvsort[8]);
		Z3_inc_ref(zc, zin[i]);
	}
}
static Z3_ast znum(u64 k, int w) { return Z3_mk_unsigned_int64(zc, k, bvsort[w]); }

// Intervals of the value of an expression under the current domains, and a
// translation to SMT that uses only as many bits as the interval needs.  All
// of it is relative to one query: the domains used here are asserted in it.
static const Dom *rdom;
static u32 repoch;
struct Rng {
	u64 lo, hi;
};
struct LinCanon {
	Expr *e;
	u64 lo, g;
};
struct RInfo {
	u32 stamp, zstamp;
	Rng r;
	Z3_ast z;
	int zw;
	u32 lstamp;
	u64 llo, lg;
	LinCanon lc;
};
static std::vector<RInfo> rinfo;
static RInfo &ri(Expr *e) {
	if (rinfo.size() <= e->id)
		rinfo.resize(e->id * 2 + 64, RInfo{0, 0, {0, 0}, nullptr, 0, 0, 0, 0, {nullptr, 0, 0}});
	return rinfo[e->id];
}
static u64 *etable(Expr *e);
static inline int bitsof(u64 v) { return v ? 64 - __builtin_clzll(v) : 1; }
struct Term {
	u64 coef;
	Expr *x; // null: a constant
};
static bool lin(Expr *e, u64 coef, std::vector<Term> &ts);
// a - b, if both are sums without overflow that differ by a constant
static bool lindiff(Expr *a, Expr *b, i64 *d) {
	std::vector<Term> ta, tb;
	if (!lin(a, 1, ta) || !lin(b, 1, tb))
		return false;
	u64 c = 0;
	auto fold = [&](std::vector<Term> &t, u64 sg) {
		size_t n = 0;
		for (auto &x : t)
			if (!x.x)
				c += sg * x.coef;
			else
				t[n++] = x;
		t.resize(n);
		std::sort(t.begin(), t.end(), [](const Term &p, const Term &q) { return p.x->id != q.x->id ? p.x->id < q.x->id : p.coef < q.coef; });
	};
	fold(ta, 1);
	fold(tb, ~0ULL);
	if (ta.size() != tb.size())
		return false;
	for (size_t i = 0; i < ta.size(); i++)
		if (ta[i].x != tb[i].x || ta[i].coef != tb[i].coef)
			return false;
	*d = (i64)c;
	return true;
}
static std::map<std::vector<u64>, LinCanon> lcanon; // functions of one byte in normal form
static u32 lepoch;
static bool lexact; // lin(): no terms whose sum only fits modulo 2^64
static Rng rng(Expr *e) {
	if (e->op == E_CONST)
		return Rng{e->k, e->k};
	if (ri(e).stamp == repoch)
		return ri(e).r;
	u64 m = mask(e->w);
	Rng r{0, m};
	if (e->dep >= 0 && !e->und) {
		u64 *t = etable(e);
		const Dom &d = rdom[e->dep];
		bool any = false;
		for (int i = 0; i < 256; i++)
			if (d[i]) {
				if (!any)
					r = Rng{t[i], t[i]}, any = true;
				else {
					r.lo = std::min(r.lo, t[i]);
					r.hi = std::max(r.hi, t[i]);
				}
			}
	} else {
		Rng A = e->a ? rng(e->a) : Rng{0, 0}, B = e->b ? rng(e->b) : Rng{0, 0};
		typedef unsigned __int128 u128;
		int aw = e->a ? e->a->w : 0;
		switch (e->op) {
		case E_ADD: {
			u128 lo = (u128)A.lo + B.lo, hi = (u128)A.hi + B.hi;
			if (hi <= m)
				r = Rng{(u64)lo, (u64)hi};
			else if (lo > m)
				r = Rng{(u64)lo & m, (u64)hi & m};
			break;
		}
		case E_SUB:
			if (A.lo >= B.hi)
				r = Rng{A.lo - B.hi, A.hi - B.lo};
			if (A.lo != A.hi && aw > 8) {
				i64 d;
				if (lindiff(e->a, e->b, &d))
					r = Rng{(u64)d & m, (u64)d & m};
			}
			break;
		case E_MUL: {
			u128 hi = (u128)A.hi * B.hi;
			if (hi <= m)
				r = Rng{A.lo * B.lo, (u64)hi};
			break;
		}
		case E_UDIV:
			if (B.lo)
				r = Rng{A.lo / B.hi, A.hi / B.lo};
			break;
		case E_UREM:
			if (B.lo) {
				if (A.hi < B.lo)
					r = A;
				else
					r = Rng{0, std::min(A.hi, B.hi - 1)};
			}
			break;
		case E_AND: r = Rng{0, std::min(A.hi, B.hi)}; break;
		case E_OR: r = Rng{std::max(A.lo, B.lo), std::min(m, mask(std::max(bitsof(A.hi), bitsof(B.hi))))}; break;
		case E_XOR:
			if (A.lo == A.hi && B.lo == B.hi)
				r = Rng{A.lo ^ B.lo, A.lo ^ B.lo};
			else
				r = Rng{0, std::min(m, mask(std::max(bitsof(A.hi), bitsof(B.hi))))};
			break;
		case E_LSHR:
			if (isk(e->b) && e->b->k < 64)
				r = Rng{A.lo >> e->b->k, A.hi >> e->b->k};
			else
				r = Rng{0, A.hi};
			break;
		case E_ASHR:
			if (A.hi <= m >> 1) {
				if (isk(e->b) && e->b->k < 64)
					r = Rng{A.lo >> e->b->k, A.hi >> e->b->k};
				else
					r = Rng{0, A.hi};
			}
			break;
		case E_EQ:
			if (A.hi < B.lo || B.hi < A.lo)
				r = Rng{0, 0};
			else if (A.lo == A.hi && B.lo == B.hi)
				r = Rng{1, 1};
			else if (aw > 8) {
				i64 d;
				if (lindiff(e->a, e->b, &d))
					r = d ? Rng{0, 0} : Rng{1, 1};
			}
			break;
		case E_SLT: case E_SLE:
			if (A.hi > mask(aw) >> 1 || B.hi > mask(aw) >> 1)
				break;
			/* fall through */
		case E_ULT: case E_ULE: {
			bool strict = e->op == E_ULT || e->op == E_SLT;
			if (strict ? A.hi < B.lo : A.hi <= B.lo)
				r = Rng{1, 1};
			else if (strict ? A.lo >= B.hi : A.lo > B.hi)
				r = Rng{0, 0};
			else if (aw > 8) {
				i64 d;
				if (lindiff(e->a, e->b, &d))
					r = (strict ? d < 0 : d <= 0) ? Rng{1, 1} : Rng{0, 0};
			}
			break;
		}
		case E_ITE: {
			Rng C = rng(e->c);
			if (A.lo)
				r = B;
			else if (!A.hi)
				r = C;
			else
				r = Rng{std::min(B.lo, C.lo), std::max(B.hi, C.hi)};
			break;
		}
		case E_ZEXT: r = A; break;
		case E_SEXT:
			if (A.hi <= mask(aw) >> 1)
				r = A;
			else if (A.lo > mask(aw) >> 1)
				r = Rng{A.lo | (m & ~mask(aw)), A.hi | (m & ~mask(aw))};
			break;
		case E_EXTRACT:
			if (e->k + e->w >= 64 || A.hi >> e->k <= m)
				r = Rng{A.lo >> e->k, A.hi >> e->k};
			break;
		case E_CONCAT: r = Rng{A.lo << e->b->w | B.lo, A.hi << e->b->w | B.hi}; break;
		default: break;
		}
	}
	RInfo &x = ri(e);
	x.stamp = repoch;
	x.r = r;
	return r;
}
// what a constraint that holds says about the ranges of its parts
static void narrow(Expr *x, u64 lo, u64 hi) {
	if (isk(x) || x->dep >= 0)
		return;
	Rng r = rng(x);
	if (lo <= r.lo && hi >= r.hi)
		return;
	u64 l = std::max(lo, r.lo), h = std::min(hi, r.hi);
	if (l > h)
		return; // a contradiction, left to the solver
	ri(x).r = Rng{l, h};
	if (x->op == E_ZEXT)
		narrow(x->a, l, h);
	else if (x->op == E_ADD && isk(x->b) && (unsigned __int128)rng(x->a).hi + x->b->k <= mask(x->w) && l >= x->b->k)
		narrow(x->a, l - x->b->k, h - x->b->k);
	else if (x->op == E_EXTRACT && x->k == 0 && rng(x->a).hi <= mask(x->w))
		narrow(x->a, l, h);
}
static void seed(Expr *e, bool v) {
	if (isk(e) || e->w != 1 || e->dep >= 0)
		return;
	if (e->op == E_XOR && isk(e->b)) {
		narrow(e, v, v);
		seed(e->a, v ^ e->b->k);
		return;
	}
	narrow(e, v, v);
	if ((e->op == E_AND && v) || (e->op == E_OR && !v)) {
		seed(e->a, v);
		seed(e->b, v);
		return;
	}
	Expr *a = e->a, *b = e->b;
	bool sgn = e->op == E_SLT || e->op == E_SLE;
	if (sgn && (rng(a).hi > mask(a->w) >> 1 || rng(b).hi > mask(a->w) >> 1))
		return;
	bool strict = e->op == E_ULT || e->op == E_SLT;
	if (e->op == E_EQ) {
		if (v) {
			Rng A = rng(a), B = rng(b);
			narrow(a, B.lo, B.hi);
			narrow(b, A.lo, A.hi);
		}
	} else if (strict || e->op == E_ULE || e->op == E_SLE) {
		if (!v) {
			std::swap(a, b);
			strict = !strict;
		}
		// a < b or a <= b
		Rng A = rng(a), B = rng(b);
		if (!strict || B.hi)
			narrow(a, 0, B.hi - strict);
		if (!strict || A.lo != ~0ULL)
			narrow(b, A.lo + strict, ~0ULL);
	}
}
static Z3_ast zfit(Z3_ast z, int from, int to) {
	if (from == to)
		return z;
	return from < to ? Z3_mk_zero_ext(zc, to - from, z) : Z3_mk_extract(zc, to - 1, 0, z);
}
static Z3_ast zb(Expr *e);
static Z3_ast zv(Expr *e, int *w);
static Z3_ast zat(Expr *e, int w) { // the value modulo 2^w
	int n;
	Z3_ast z = zv(e, &n);
	return zfit(z, n, w);
}
// x mod k for a sum without overflow, term by term
static bool lin(Expr *e, u64 coef, std::vector<Term> &ts) {
	if (ts.size() > 64)
		return false;
	Rng r = rng(e);
	unsigned __int128 top = (unsigned __int128)r.hi * coef;
	if (top >> 64)
		return false;
	if (e->op == E_CONST) {
		ts.push_back(Term{e->k * coef, nullptr});
		return true;
	}
	if (r.lo == r.hi) {
		ts.push_back(Term{r.lo * coef, nullptr});
		return true;
	}
	if (e->dep >= 0 && !e->und && !lexact) {
		// a function of one byte: an offset and a multiple of a function in normal form
		RInfo &x = ri(e);
		if (x.lstamp != repoch) {
			u64 *t = etable(e), g = 0;
			const Dom &d = rdom[e->dep];
			for (int i = 0; i < 256; i++)
				if (d[i])
					g = std::__gcd(g, t[i] - r.lo);
			std::vector<u64> key(1, (u64)e->dep);
			for (int i = 0; i < 256; i++)
				if (d[i])
					key.push_back((t[i] - r.lo) / g);
			if (lepoch != repoch) {
				lepoch = repoch;
				lcanon.clear();
			}
			auto it = lcanon.emplace(std::move(key), LinCanon{e, r.lo, g}).first;
			x.lstamp = repoch;
			x.lc = it->second;
			x.llo = r.lo;
			x.lg = g;
		}
		// e = llo + lg * f and lc.e = lc.lo + lc.g * f
		if (x.lg % x.lc.g == 0) {
			u64 m = x.lg / x.lc.g;
			ts.push_back(Term{coef * m, x.lc.e});
			ts.push_back(Term{coef * (x.llo - m * x.lc.lo), nullptr});
			return true;
		}
	}
	if (e->dep < 0) {
		if (e->op == E_ITE) {
			Rng c = rng(e->a);
			if (c.lo)
				return lin(e->b, coef, ts);
			if (!c.hi)
				return lin(e->c, coef, ts);
		}
		if (e->op == E_AND && isk(e->b) && !(e->b->k & (e->b->k + 1)) && rng(e->a).hi <= e->b->k)
			return lin(e->a, coef, ts);
		if (e->op == E_ADD && (unsigned __int128)rng(e->a).hi + rng(e->b).hi <= mask(e->w))
			return lin(e->a, coef, ts) && lin(e->b, coef, ts);
		if (e->op == E_MUL && isk(e->b) && (unsigned __int128)rng(e->a).hi * e->b->k <= mask(e->w) &&
		    !((unsigned __int128)coef * e->b->k >> 64))
			return lin(e->a, coef * e->b->k, ts);
		if (e->op == E_ZEXT || (e->op == E_SEXT && rng(e->a).hi <= mask(e->a->w) >> 1))
			return lin(e->a, coef, ts);
		if (e->op == E_CONCAT && e->b->w < 63)
			return lin(e->a, coef << e->b->w, ts) && lin(e->b, coef, ts);
		if (e->op == E_EXTRACT && e->k == 0 && rng(e->a).hi <= mask(e->w))
			return lin(e->a, coef, ts);
	}
	ts.push_back(Term{coef, e});
	return true;
}
// a function of one byte, as a chain of affine pieces over its domain
static Z3_ast ztab(int v, const std::vector<u64> &t, int n) {
	const Dom &d = rdom[v];
	struct Piece {
		int lo, hi;
		u64 base;
		int slope; // 0: constant, 1: in - lo + base
	};
	std::vector<Piece> ps;
	for (int i = 0; i < 256; i++)
		if (d[i]) {
			if (!ps.empty()) {
				Piece &p = ps.back();
				if (p.lo == p.hi) {
					if (t[i] == p.base) {
						p.hi = i;
						continue;
					}
					if (t[i] - p.base == (u64)(i - p.lo)) {
						p.hi = i;
						p.slope = 1;
						continue;
					}
				} else if (p.slope ? t[i] - p.base == (u64)(i - p.lo) : t[i] == p.base) {
					p.hi = i;
					continue;
				}
			}
			ps.push_back(Piece{i, i, t[i], 0});
		}
	Z3_ast r = nullptr;
	for (int j = (int)ps.size() - 1; j >= 0; j--) {
		Piece &p = ps[j];
		Z3_ast x = p.slope ? Z3_mk_bvadd(zc, zfit(zin[v], 8, n), znum((p.base - (u64)p.lo) & mask(n), n)) : znum(p.base & mask(n), n);
		r = r ? Z3_mk_ite(zc, Z3_mk_bvule(zc, zin[v], znum(p.hi, 8)), x, r) : x;
	}
	return r ? r : znum(0, n);
}
static Z3_ast zv(Expr *e, int *w) {
	Rng r = rng(e);
	int n = bitsof(r.hi);
	*w = n;
	if (r.lo == r.hi)
		return znum(r.lo, n);
	if (e->w == 1) // (the cache holds the truth value)
		return Z3_mk_ite(zc, zb(e), znum(1, 1), znum(0, 1));
	if (ri(e).zstamp == repoch) {
		*w = ri(e).zw;
		return ri(e).z;
	}
	Z3_ast z = nullptr;
	if (e->und)
		die("undef reached the solver");
	if (e->op == E_IN)
		z = zfit(zin[e->k], 8, n);
	else if (e->dep >= 0) {
		u64 *t = etable(e);
		z = ztab(e->dep, std::vector<u64>(t, t + 256), n);
	} else
		switch (e->op) {
		case E_ADD: {
			// sums in one order, so that equal ones look equal
			std::vector<Term> ts;
			if (lin(e, 1, ts) && ts.size() > 1) {
				std::map<u32, Term> by;
				u64 c = 0;
				for (auto &t : ts)
					if (!t.x)
						c += t.coef;
					else {
						auto it = by.find(t.x->id);
						if (it == by.end())
							by[t.x->id] = t;
						else
							it->second.coef += t.coef;
					}
				for (auto &p : by) {
					Term &t = p.second;
					Z3_ast y = zat(t.x, n);
					if (t.coef != 1)
						y = Z3_mk_bvmul(zc, znum(t.coef & mask(n), n), y);
					z = z ? Z3_mk_bvadd(zc, z, y) : y;
				}
				if (c & mask(n))
					z = z ? Z3_mk_bvadd(zc, z, znum(c & mask(n), n)) : znum(c & mask(n), n);
				if (z)
					break;
			}
			z = Z3_mk_bvadd(zc, zat(e->a, n), zat(e->b, n));
			break;
		}
		case E_SUB: z = Z3_mk_bvsub(zc, zat(e->a, n), zat(e->b, n)); break;
		case E_MUL: z = Z3_mk_bvmul(zc, zat(e->a, n), zat(e->b, n)); break;
		case E_AND: z = Z3_mk_bvand(zc, zat(e->a, n), zat(e->b, n)); break;
		case E_OR: z = Z3_mk_bvor(zc, zat(e->a, n), zat(e->b, n)); break;
		case E_XOR: z = Z3_mk_bvxor(zc, zat(e->a, n), zat(e->b, n)); break;
		case E_UREM: {
			std::vector<Term> ts;
			lexact = true;
			bool fits = isk(e->b) && e->b->k > 1 && e->b->k < 65536 && lin(e->a, 1, ts);
			lexact = false;
			if (fits) {
				u64 k = e->b->k, top = 0, c = 0;
				std::vector<std::pair<Z3_ast, int>> zs;
				for (auto &t : ts) {
					if (!t.x) {
						c = (c + t.coef % k) % k;
						continue;
					}
					u64 co = t.coef % k;
					if (co == 0)
						continue;
					if (t.x->dep >= 0) {
						u64 *tb = etable(t.x);
						std::vector<u64> v(256);
						u64 mx = 0;
						for (int i = 0; i < 256; i++) {
							v[i] = (tb[i] % k) * co % k;
							if (rdom[t.x->dep][i])
								mx = std::max(mx, v[i]);
						}
						zs.push_back({ztab(t.x->dep, v, bitsof(mx)), bitsof(mx)});
						top += mx;
					} else {
						u64 hi = rng(t.x).hi;
						if ((unsigned __int128)hi * co >> 56)
							goto plain;
						int nw = bitsof(hi * co);
						zs.push_back({Z3_mk_bvmul(zc, zat(t.x, nw), znum(co, nw)), nw});
						top += hi * co;
					}
				}
				top += c;
				int nw = std::max(bitsof(top), bitsof(k));
				Z3_ast sum = znum(c, nw);
				for (auto &p : zs)
					sum = Z3_mk_bvadd(zc, sum, zfit(p.first, p.second, nw));
				z = zfit(top < k ? sum : Z3_mk_bvurem(zc, sum, znum(k, nw)), nw, n);
				break;
			}
		plain:;
		}
			/* fall through */
		case E_UDIV: {
			int nw = std::max(bitsof(rng(e->a).hi), bitsof(rng(e->b).hi));
			if (rng(e->b).lo == 0)
				nw = e->w; // division by zero has its own value
			Z3_ast x = zat(e->a, nw), y = zat(e->b, nw);
			z = zfit(e->op == E_UREM ? Z3_mk_bvurem(zc, x, y) : Z3_mk_bvudiv(zc, x, y), nw, n);
			break;
		}
		case E_SDIV: case E_SREM: case E_SHL: case E_LSHR: case E_ASHR: {
			Z3_ast x = zat(e->a, e->w), y = zat(e->b, e->w);
			z = e->op == E_SDIV ? Z3_mk_bvsdiv(zc, x, y) : e->op == E_SREM ? Z3_mk_bvsrem(zc, x, y)
			    : e->op == E_SHL ? Z3_mk_bvshl(zc, x, y) : e->op == E_LSHR ? Z3_mk_bvlshr(zc, x, y) : Z3_mk_bvashr(zc, x, y);
			z = zfit(z, e->w, n);
			break;
		}
		case E_ITE: {
			Rng A = rng(e->a);
			if (A.lo)
				z = zat(e->b, n);
			else if (!A.hi)
				z = zat(e->c, n);
			else
				z = Z3_mk_ite(zc, zb(e->a), zat(e->b, n), zat(e->c, n));
			break;
		}
		case E_ZEXT: z = zat(e->a, n); break;
		case E_SEXT:
			if (rng(e->a).hi <= mask(e->a->w) >> 1)
				z = zat(e->a, n);
			else
				z = zfit(Z3_mk_sign_ext(zc, e->w - e->a->w, zat(e->a, e->a->w)), e->w, n);
			break;
		case E_EXTRACT: {
			int an = bitsof(rng(e->a).hi), top = (int)e->k + n; // bits above n of the result are zero
			if (an < top)
				an = top;
			z = Z3_mk_extract(zc, (unsigned)(e->k + n - 1), (unsigned)e->k, zat(e->a, an));
			break;
		}
		case E_CONCAT: {
			int lw = e->b->w;
			if (n <= lw)
				z = zat(e->b, n);
			else
				z = Z3_mk_concat(zc, zat(e->a, n - lw), zat(e->b, lw));
			break;
		}
		default: die("zv op %d", e->op);
		}
	RInfo &x = ri(e);
	x.zstamp = repoch;
	x.z = z;
	x.zw = n;
	return z;
}
static Z3_ast zdomset(int v, const std::bitset<256> &d);
static Z3_ast zb(Expr *e) {
	Rng r = rng(e);
	if (r.lo == r.hi)
		return r.lo ? Z3_mk_true(zc) : Z3_mk_false(zc);
	if (ri(e).zstamp == repoch)
		return ri(e).z;
	Z3_ast z = nullptr;
	if (e->dep >= 0) {
		u64 *t = etable(e);
		Dom s;
		for (int i = 0; i < 256; i++)
			s[i] = rdom[e->dep][i] && t[i];
		z = zdomset(e->dep, s);
	} else if (e->op == E_ITE)
		z = Z3_mk_ite(zc, zb(e->a), zb(e->b), zb(e->c));
	else if (e->op == E_EXTRACT)
		z = Z3_mk_eq(zc, Z3_mk_extract(zc, (unsigned)e->k, (unsigned)e->k, zat(e->a, (int)e->k + 1)), znum(1, 1));
	else if (e->a->w == 1 && e->op >= E_ADD && e->op <= E_XOR) {
		Z3_ast x = zb(e->a), y = zb(e->b), t[2] = {x, y};
		switch (e->op) {
		case E_AND: case E_MUL: z = Z3_mk_and(zc, 2, t); break;
		case E_OR: z = Z3_mk_or(zc, 2, t); break;
		case E_XOR: case E_ADD: case E_SUB:
			z = isk(e->b) ? (e->b->k ? Z3_mk_not(zc, x) : x) : Z3_mk_xor(zc, x, y);
			break;
		default: die("1-bit op %d", e->op);
		}
	} else {
		Rng A = rng(e->a), B = rng(e->b);
		int aw = e->a->w, nw = std::max(bitsof(A.hi), bitsof(B.hi));
		bool sgn = e->op == E_SLT || e->op == E_SLE, nonneg = A.hi <= mask(aw) >> 1 && B.hi <= mask(aw) >> 1;
		if (sgn && !nonneg)
			nw = aw;
		Z3_ast x = zat(e->a, nw), y = zat(e->b, nw);
		switch (e->op) {
		case E_EQ: z = Z3_mk_eq(zc, x, y); break;
		case E_ULT: z = Z3_mk_bvult(zc, x, y); break;
		case E_ULE: z = Z3_mk_bvule(zc, x, y); break;
		case E_SLT: z = nonneg ? Z3_mk_bvult(zc, x, y) : Z3_mk_bvslt(zc, x, y); break;
		case E_SLE: z = nonneg ? Z3_mk_bvule(zc, x, y) : Z3_mk_bvsle(zc, x, y); break;
		default: die("zb op %d", e->op);
		}
	}
	RInfo &x = ri(e);
	x.zstamp = repoch;
	x.z = z;
	x.zw = 1;
	return z;
}
struct DomKey {
	int v;
	Dom d;
	bool operator==(const DomKey &o) const { return v == o.v && d == o.d; }
};
struct DomHash {
	size_t operator()(const DomKey &k) const { return std::hash<Dom>()(k.d) * 31 + k.v; }
};
static std::unordered_map<DomKey, Z3_ast, DomHash> domz;
static Z3_ast zdomset(int v, const Dom &d) {
	DomKey key{v, d};
	auto it = domz.find(key);
	if (it != domz.end())
		return it->second;
	std::vector<Z3_ast> ors;
	for (int i = 0; i < 256;) {
		if (!d[i]) {
			i++;
			continue;
		}
		int j = i;
		while (j + 1 < 256 && d[j + 1])
			j++;
		if (i == j)
			ors.push_back(Z3_mk_eq(zc, zin[v], znum(i, 8)));
		else {
			Z3_ast t[2] = {Z3_mk_bvuge(zc, zin[v], znum(i, 8)), Z3_mk_bvule(zc, zin[v], znum(j, 8))};
			ors.push_back(Z3_mk_and(zc, 2, t));
		}
		i = j + 1;
	}
	Z3_ast r = ors.empty() ? Z3_mk_false(zc) : ors.size() == 1 ? ors[0] : Z3_mk_or(zc, (unsigned)ors.size(), ors.data());
	Z3_inc_ref(zc, r);
	domz[key] = r;
	return r;
}

// ---------------------------------------------------------------- memory
static const u64 OBASE = 1ULL << 30;
static const u64 FUNC_ID0 = 0x60000000;
enum { OK_GLOBAL, OK_STACK, OK_HEAP };
struct Obj {
	int ref = 1;
	u32 size = 0;
	u8 kind = OK_GLOBAL;
	bool freed = false, ro = false;
	u32 uninit = 0;
	std::vector<u8> d, st;
	std::vector<Expr *> s;
	const char *name = "";
};
static inline u64 addrOf(u64 id, u64 off = 0) { return id << 32 | (OBASE + off); }

// ---------------------------------------------------------------- code
struct Opnd {
	int reg = -1;
	u64 c = 0;
	bool und = false;
};
struct Func;
enum Op : u8 {
	I_BIN, I_ICMP, I_SELECT, I_ZEXT, I_SEXT, I_TRUNC, I_COPY, I_LOAD, I_STORE, I_GEP, I_ALLOCA,
	I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_BUILTIN, I_UNREACH, I_EXTRACTV, I_INSERTV, I_FREEZE,
	I_FBIN, I_FCMP, I_FCAST, I_FNEG, I_NOP
};
struct Inst {
	Op op = I_NOP;
	EOp e = E_ADD;
	u8 w = 0, w2 = 0;
	bool nsw = false, inv = false;
	int dst = -1, ndst = 1;
	Opnd a, b, c;
	std::vector<Opnd> args;
	std::vector<u64> scale; // gep
	int t0 = 0, t1 = 0;
	std::vector<std::pair<u64, int>> cases;
	Func *callee = nullptr;
	int builtin = 0;
	u64 k = 0;
	u32 line = 0;
	u32 cov = 0;
};
struct Phi {
	int dst;
	Opnd src;
};
struct Block {
	int start = 0;
	std::vector<std::pair<int, std::vector<Phi>>> phis;
};
struct Func {
	std::string name;
	std::string file;
	int nregs = 0;
	std::vector<int> argregs;
	bool varargs = false;
	std::vector<Inst> code;
	std::vector<Block> blocks;
	bool defined = false;
	bool isrepo = false;
	u32 cov0 = 0;
	int builtin = 0;
	const llvm::Function *F = nullptr;
	bool decoded = false;
};

enum BI {
	B_NONE, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_MEMCPY, B_MEMMOVE, B_MEMSET, B_STRCMP, B_STRNCMP,
	B_MEMCMP, B_ABORT, B_NOP, B_RET0, B_SXBYTE, B_SXRANGE, B_SXCHOICE, B_SXASSUME, B_SXASSERT,
	B_SXOBSERVE, B_SXCOVER, B_SXDONE, B_SXLIVE, B_SXCONC, B_SXFAIL, B_SQRT, B_FLOOR, B_CEIL,
	B_VASTART, B_VACOPY, B_MINMAX, B_ABS, B_OVF, B_SAT, B_EXPECT, B_BSWAP, B_CTPOP, B_CTLZ, B_CTTZ, B_FSHL,
	B_FSHR, B_OBJSIZE, B_UBTRAP, B_TRAP, B_SXISSYM, B_SXVALID, B_FABS, B_POW
};

static llvm::Module *M;
static const llvm::DataLayout *DL;
static std::vector<Func *> funcs;
static std::unordered_map<const llvm::Function *, Func *> fmap;
static std::unordered_map<const llvm::GlobalVariable *, u64> gaddr;
static std::vector<Obj *> gobjs; // object ids 1..n: constants shared by all states (index 0 unused)
static std::vector<Obj *> ginit; // initial mutable globals
static u64 NCONST;
static u8 *cov; // shared
static u32 ncov;

struct Frame {
	Func *f;
	int ip;
	int bb;
	int retdst, nret;
	std::vector<V> r;
	std::vector<u32> al; // allocas (object ids)
	std::vector<V> va;
};
struct PC {
	Expr *e;
	PC *prev;
};
struct State {
	std::vector<Frame> fr;
	std::vector<Obj *> ob; // mutable objects, id = NCONST + index
	PC *pc = nullptr;
	PC *pd = nullptr; // the conditions over one input, of which dom is the result; used by the audit only
	std::vector<Dom> dom;
	Bits ent;
	std::vector<u8> wit;
	int nin = 0;
	std::vector<V> obs;
	std::vector<u32> covl;
	u64 steps = 0;
	u32 depth = 0;
	int live = 0;
	State() {}
	State(const State &o)
	    : fr(o.fr), ob(o.ob), pc(o.pc), pd(o.pd), dom(o.dom), ent(o.ent), wit(o.wit), nin(o.nin), obs(o.obs),
	      covl(o.covl), steps(o.steps), depth(o.depth), live(o.live) {
		for (Obj *x : ob)
			if (x)
				x->ref++;
	}
	~State() {
		for (Obj *x : ob)
			if (x && --x->ref == 0)
				delete x;
	}
};

// ---------------------------------------------------------------- options / results
static u64 opt_maxsteps = 3000000;
static double opt_timeout = 800;
static int opt_jobs = 8;
static int opt_maxwit = 4000;
static u64 opt_maxpaths = 0;
static std::string opt_out, opt_wit, opt_repo = "/repo/src";
static double t_start;
static std::deque<State *> work;
static std::vector<std::string> covlabels;
static std::map<std::string, u32> covidx;
struct Shared {
	u64 stop, active, slots, npaths, audit_us;
	double viol_at;
	u64 labels[4096];
};
static Shared *SH;
struct Viol {
	std::string kind, msg, where;
	std::vector<u8> wit;
};
static std::map<std::string, int> vcount;
static std::vector<Viol> viols;
static int witf = -1;
static std::map<std::string, u64> msgstat; // assertion message -> times checked
static bool inconclusive = false, hardstop = false;
static std::string inconclusive_why;

static std::string hex(const std::vector<u8> &v, int n) {
	std::string s;
	char b[4];
	for (int i = 0; i < n; i++) {
		snprintf(b, 4, "%02x", i < (int)v.size() ? v[i] : 0);
		s += b;
	}
	return s;
}
// findings are written down at once: the worker may be stopped at any time
static std::string tmpfile_name;
static void report(const std::string &d) {
	int fd = open(tmpfile_name.c_str(), O_WRONLY | O_APPEND);
	if (fd < 0 || write(fd, d.data(), d.size()) != (ssize_t)d.size())
		die("cannot write the results of a worker");
	close(fd);
}
struct PathEnd {};  // path terminated
static std::string here(State &s) {
	std::string r;
	for (int i = (int)s.fr.size() - 1; i >= 0 && i >= (int)s.fr.size() - 4; i--) {
		Frame &f = s.fr[i];
		int ip = f.ip;
		if (ip >= (int)f.f->code.size())
			ip = (int)f.f->code.size() - 1;
		r += (r.empty() ? "" : " < ") + f.f->name + ":" + std::to_string(f.f->code[ip].line);
	}
	return r;
}
static void violation(State &s, const char *kind, const std::string &msg, const std::vector<u8> *w = nullptr) {
	ST->viol++;
	std::string where = here(s);
	std::string key = std::string(kind) + "|" + msg + "|" + (strcmp(kind, "assert") ? where : "");
	if (vcount[key]++ < 3) {
		viols.push_back(Viol{kind, msg, where, w ? *w : s.wit});
		Viol &v = viols.back();
		v.wit.resize(s.nin);
		report("V\t" + v.kind + "\t" + v.msg + "\t" + v.where + "\t" + (v.wit.empty() ? "-" : hex(v.wit, (int)v.wit.size())) + "\n");
	}
}
#define ERR(...) ([&]() { char _b[400]; snprintf(_b, sizeof _b, __VA_ARGS__); violation(s, "error", _b); return PathEnd(); }())

// ---------------------------------------------------------------- feasibility
struct VHash {
	size_t operator()(const std::vector<u64> &v) const {
		u64 h = 1469598103934665603ULL;
		for (u64 x : v)
			h = (h ^ x ^ (x >> 29)) * 0x9E3779B97F4A7C15ULL, h ^= h >> 31;
		return h;
	}
};
struct QRes {
	bool sat;
	std::vector<std::pair<int, u8>> model;
};
static std::unordered_map<std::vector<u64>, QRes, VHash> qcache;
// the constraints connected to the variables of an expression, oldest first
static void slice(State &s, Bits &vars, std::vector<Expr *> &cs) {
	std::vector<PC *> rest;
	for (PC *p = s.pc; p; p = p->prev)
		rest.push_back(p);
	bool ch = true;
	while (ch) {
		ch = false;
		for (auto &p : rest)
			if (p && (*p->e->deps & vars).any()) {
				vars |= *p->e->deps;
				cs.push_back(p->e);
				p = nullptr;
				ch = true;
			}
	}
	{
		std::unordered_map<Expr *, int> ord;
		int n = 0;
		for (PC *p = s.pc; p; p = p->prev)
			ord[p->e] = n++;
		std::sort(cs.begin(), cs.end(), [&](Expr *x, Expr *y) { return ord[x] > ord[y]; });
	}
}
// is the value the same for all inputs of this path, as far as ranges tell?
static bool known(State &s, Expr *e) {
	if (isk(e))
		return true;
	if (e->und || e->dep >= 0 || opt_nodomain)
		return false;
	Bits vars = *e->deps;
	std::vector<Expr *> cs;
	slice(s, vars, cs);
	rdom = s.dom.data();
	repoch++;
	for (Expr *c : cs)
		seed(c, true);
	Rng r = rng(e);
	return r.lo == r.hi;
}
static void z3fresh() {
	static int sincereset = 0;
	if (++sincereset > 1500) { // the context keeps every term ever made
		sincereset = 0;
		Z3_solver_dec_ref(zc, zs);
		Z3_del_context(zc);
		domz.clear();
		z3init();
	}
}
// The audit: a verdict of "infeasible" is given to z3 again, as a plain translation of the conditions of the
// path at full width, without domains, intervals, tables or caches.  (Verdicts of "feasible" come with a
// model, which is evaluated.)  As many are audited as a share of the time allows.
static std::unordered_map<Expr *, Z3_ast> plainz;
static double opt_audit = 0.1;
static void notedom(State &s, Expr *e) {
	if (!isk(e) && opt_audit > 0)
		s.pd = new (slab(sizeof(PC))) PC{e, s.pd};
}
static Z3_ast plain(Expr *e) {
	if (e->op == E_CONST)
		return znum(e->k, e->w);
	if (e->op == E_IN)
		return zin[e->k];
	auto it = plainz.find(e);
	if (it != plainz.end())
		return it->second;
	if (plainz.size() > 20000)
		return nullptr;
	Z3_ast a = e->a ? plain(e->a) : nullptr, b = e->b ? plain(e->b) : nullptr, c = e->c ? plain(e->c) : nullptr, z = nullptr;
	if ((e->a && !a) || (e->b && !b) || (e->c && !c))
		return nullptr;
	auto bit = [&](Z3_ast t) { return Z3_mk_ite(zc, t, znum(1, 1), znum(0, 1)); };
	switch (e->op) {
	case E_ADD: z = Z3_mk_bvadd(zc, a, b); break;
	case E_SUB: z = Z3_mk_bvsub(zc, a, b); break;
	case E_MUL: z = Z3_mk_bvmul(zc, a, b); break;
	case E_UDIV: z = Z3_mk_bvudiv(zc, a, b); break;
	case E_SDIV: z = Z3_mk_bvsdiv(zc, a, b); break;
	case E_UREM: z = Z3_mk_bvurem(zc, a, b); break;
	case E_SREM: z = Z3_mk_bvsrem(zc, a, b); break;
	case E_SHL: z = Z3_mk_bvshl(zc, a, b); break;
	case E_LSHR: z = Z3_mk_bvlshr(zc, a, b); break;
	case E_ASHR: z = Z3_mk_bvashr(zc, a, b); break;
	case E_AND: z = Z3_mk_bvand(zc, a, b); break;
	case E_OR: z = Z3_mk_bvor(zc, a, b); break;
	case E_XOR: z = Z3_mk_bvxor(zc, a, b); break;
	case E_EQ: z = bit(Z3_mk_eq(zc, a, b)); break;
	case E_ULT: z = bit(Z3_mk_bvult(zc, a, b)); break;
	case E_ULE: z = bit(Z3_mk_bvule(zc, a, b)); break;
	case E_SLT: z = bit(Z3_mk_bvslt(zc, a, b)); break;
	case E_SLE: z = bit(Z3_mk_bvsle(zc, a, b)); break;
	case E_ITE: z = Z3_mk_ite(zc, Z3_mk_eq(zc, a, znum(1, 1)), b, c); break;
	case E_ZEXT: z = Z3_mk_zero_ext(zc, e->w - e->a->w, a); break;
	case E_SEXT: z = Z3_mk_sign_ext(zc, e->w - e->a->w, a); break;
	case E_EXTRACT: z = Z3_mk_extract(zc, (unsigned)e->k + e->w - 1, (unsigned)e->k, a); break;
	case E_CONCAT: z = Z3_mk_concat(zc, a, b); break;
	default: return nullptr;
	}
	plainz[e] = z;
	return z;
}
static void audit(State &s, Expr *cond) {
	if (opt_audit <= 0)
		return;
	double t0 = now();
	if (SH->audit_us * 1e-6 > opt_audit * opt_jobs * (t0 - t_start))
		return;
	z3fresh();
	plainz.clear();
	Bits vars;
	if (cond->dep >= 0)
		vars.set(cond->dep);
	else
		vars = *cond->deps;
	std::vector<Expr *> cs;
	slice(s, vars, cs);
	for (PC *p = s.pd; p; p = p->prev)
		if (vars[p->e->dep])
			cs.push_back(p->e);
	cs.push_back(cond);
	Z3_solver_push(zc, zs);
	bool ok = true;
	for (Expr *e : cs) {
		Z3_ast z = plain(e);
		if (!z) {
			ok = false;
			break;
		}
		Z3_solver_assert(zc, zs, Z3_mk_eq(zc, z, znum(1, 1)));
	}
	if (ok) {
		Z3_params p = Z3_mk_params(zc);
		Z3_params_inc_ref(zc, p);
		Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "rlimit"), 1000000);
		Z3_solver_set_params(zc, zs, p);
		Z3_lbool r = Z3_solver_check(zc, zs);
		Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "rlimit"), opt_z3ms * 4000);
		Z3_solver_set_params(zc, zs, p);
		Z3_params_dec_ref(zc, p);
		if (r == Z3_L_TRUE)
			die("the audit contradicts a verdict of infeasibility");
		(r == Z3_L_FALSE ? ST->audits : ST->audit_unk)++;
	} else
		ST->audit_unk++;
	Z3_solver_pop(zc, zs, 1);
	u64 us = (u64)((now() - t0) * 1e6);
	__sync_fetch_and_add(&SH->audit_us, us);
	ST->audit_us += us;
}
static int z3check(State &s, const Bits &vars0, Expr *cond, std::vector<u8> &w2) {
	Bits vars = vars0;
	std::vector<Expr *> cs;
	slice(s, vars, cs);
	rdom = s.dom.data();
	repoch++;
	if (!opt_nodomain) {
		for (Expr *e : cs)
			seed(e, true);
		Rng r = rng(cond);
		if (r.hi == 0) { // false for every value in the domains and the ranges the constraints allow
			ST->domq++;
			return 0;
		}
	}
	// the same query was answered before?
	std::vector<u64> key;
	key.push_back((u64)(uintptr_t)cond);
	{
		std::vector<u64> c2;
		for (Expr *e : cs)
			c2.push_back((u64)(uintptr_t)e);
		std::sort(c2.begin(), c2.end());
		key.insert(key.end(), c2.begin(), c2.end());
		for (int i = 0; i < s.nin; i++)
			if (vars[i]) {
				key.push_back((u64)i);
				const u64 *d = (const u64 *)&s.dom[i];
				key.insert(key.end(), d, d + 4);
			}
	}
	auto hit = qcache.find(key);
	if (hit != qcache.end()) {
		ST->qhits++;
		if (!hit->second.sat)
			return 0;
		w2 = s.wit;
		for (auto &p : hit->second.model)
			w2[p.first] = p.second;
		return 1;
	}
	double t0 = now();
	z3fresh();
	Z3_solver_push(zc, zs);
	repoch++; // (the ranges above presuppose the constraints)
	for (Expr *e : cs) {
		Z3_solver_assert(zc, zs, zb(e));
		seed(e, true);
	}
	for (int i = 0; i < s.nin; i++)
		if (vars[i] && !s.dom[i].all())
			Z3_solver_assert(zc, zs, zdomset(i, s.dom[i]));
	Z3_solver_assert(zc, zs, zb(cond));
	static const char *slow = getenv("GSX_SLOW");
	double t1 = now();
	Z3_lbool r = Z3_solver_check(zc, zs);
	if (slow && now() - t1 > atof(slow)) {
		std::string t = "slow query " + std::to_string(now() - t1) + " s, result " + std::to_string(r) + ", vars";
		for (int i = 0; i < s.nin; i++)
			if (vars[i])
				t += " " + std::to_string(i) + ":" + std::to_string(s.dom[i].count());
		fprintf(stderr, "%s\n%s\n", t.c_str(), Z3_solver_to_string(zc, zs));
	}
	ST->z3q++;
	int res = 0;
	QRes qr{false, {}};
	if (r == Z3_L_TRUE) {
		ST->z3sat++;
		res = 1;
		qr.sat = true;
		Z3_model m = Z3_solver_get_model(zc, zs);
		Z3_model_inc_ref(zc, m);
		w2 = s.wit;
		for (int i = 0; i < s.nin; i++)
			if (vars[i]) {
				Z3_ast v;
				u64 x = 0;
				if (Z3_model_eval(zc, m, zin[i], true, &v) && Z3_get_numeral_uint64(zc, v, &x))
					w2[i] = (u8)x;
				if (!s.dom[i][w2[i]])
					die("a model is outside a domain");
				qr.model.push_back({i, w2[i]});
			}
		Z3_model_dec_ref(zc, m);
		// the model is checked against the constraints as they were built
		for (Expr *e : cs)
			if (!evalw(e, w2.data()))
				die("a model does not satisfy a constraint");
		if (!evalw(cond, w2.data()))
			die("a model does not satisfy the condition");
	} else if (r == Z3_L_FALSE) {
		ST->z3unsat++;
	} else {
		ST->z3unk++;
		inconclusive = true;
		inconclusive_why = std::string("z3: ") + Z3_solver_get_reason_unknown(zc, zs);
		res = -1;
	}
	Z3_solver_pop(zc, zs, 1);
	if (res >= 0)
		qcache.emplace(std::move(key), std::move(qr));
	ST->z3_us += (u64)((now() - t0) * 1e6);
	return res;
}
static bool feasible1(State &s, Expr *e, std::vector<u8> &w2) {
	if (isk(e)) {
		w2 = s.wit;
		return e->k;
	}
	if (e->und)
		throw ERR("use of an uninitialised value in a decision");
	if (e->dep >= 0) {
		u64 *t = etable(e);
		Dom &d = s.dom[e->dep];
		int pick = -1;
		for (int i = 0; i < 256; i++)
			if (d[i] && t[i]) {
				pick = i;
				break;
			}
		if (!opt_nodomain) {
			if (pick < 0) {
				ST->domq++;
				return false;
			}
			if (!s.ent[e->dep]) {
				ST->domq++;
				w2 = s.wit;
				w2[e->dep] = (u8)pick;
				return true;
			}
		}
		Bits b;
		b.set(e->dep);
		int r = z3check(s, b, e, w2);
		if (r >= 0 && opt_nodomain && !s.ent[e->dep] && r != (pick >= 0))
			die("domain reasoning and z3 disagree");
		return r != 0;
	}
	int r = z3check(s, *e->deps, e, w2);
	if (r < 0)
		w2 = s.wit;
	return r != 0;
}
static bool feasible(State &s, Expr *e, std::vector<u8> &w2) {
	bool r = feasible1(s, e, w2);
	if (!r && !isk(e))
		audit(s, e);
	return r;
}
static void addc(State &s, Expr *e) {
	if (isk(e))
		return;
	if (e->w == 1 && e->op == E_AND) {
		addc(s, e->a);
		addc(s, e->b);
		return;
	}
	if (e->op == E_XOR && e->w == 1 && isk(e->b) && e->a->op == E_OR) {
		addc(s, mknot(e->a->a));
		addc(s, mknot(e->a->b));
		return;
	}
	if (e->dep >= 0) {
		u64 *t = etable(e);
		Dom &d = s.dom[e->dep];
		for (int i = 0; i < 256; i++)
			if (!t[i])
				d.reset(i);
		notedom(s, e);
		return;
	}
	s.ent |= *e->deps;
	s.pc = new (slab(sizeof(PC))) PC{e, s.pc};
}
// called after wit/dom are updated: fork bookkeeping
static void spawn(State *n) {
	ST->forks++;
	n->depth++;
	if (n->depth > ST->maxdepth)
		ST->maxdepth = n->depth;
	work.push_back(n);
}
// forks the state on e; on return the current state satisfies the returned value
static bool decide(State &s, Expr *e, State **clone = nullptr);

// ---------------------------------------------------------------- object access
static inline Obj *objOf(State &s, u64 addr) {
	u64 id = addr >> 32;
	if (id == 0)
		return nullptr;
	if (id < NCONST)
		return gobjs[id];
	id -= NCONST;
	if (id >= s.ob.size())
		return nullptr;
	return s.ob[id];
}
static inline i64 offOf(u64 addr) { return (i64)(u32)addr - (i64)OBASE; }
static Obj *wobj(State &s, u64 addr) {
	u64 id = (addr >> 32) - NCONST;
	Obj *o = s.ob[id];
	if (o->ref > 1) {
		o->ref--;
		Obj *n = new Obj(*o);
		n->ref = 1;
		s.ob[id] = n;
		return n;
	}
	return o;
}
static std::string describe(State &s, u64 addr) {
	Obj *o = objOf(s, addr);
	char b[200];
	if (!(addr >> 32))
		snprintf(b, sizeof b, "null or invalid pointer (0x%llx)", (unsigned long long)addr);
	else if (!o)
		snprintf(b, sizeof b, "invalid pointer");
	else
		snprintf(b, sizeof b, "offset %lld of %s%s object '%s' of %u bytes", (long long)offOf(addr), o->freed ? "freed " : "",
		         o->kind == OK_HEAP ? "heap" : o->kind == OK_STACK ? "stack" : "global", o->name, o->size);
	return b;
}
static bool validAcc(State &s, u64 addr, u64 n) {
	Obj *o = objOf(s, addr);
	if (!o || o->freed)
		return false;
	i64 off = offOf(addr);
	return off >= 0 && (u64)off + n <= o->size;
}
static Obj *checkAcc(State &s, u64 addr, u64 n, bool wr) {
	Obj *o = objOf(s, addr);
	i64 off = offOf(addr);
	if (!o || o->freed || off < 0 || (u64)off + n > o->size)
		throw ERR("memory error: %s of %llu bytes at %s", wr ? "write" : "read", (unsigned long long)n, describe(s, addr).c_str());
	if (wr && o->ro)
		throw ERR("memory error: write to constant %s", describe(s, addr).c_str());
	return o;
}
static V loadC(State &s, u64 addr, int bytes) {
	Obj *o = checkAcc(s, addr, bytes, false);
	size_t off = (size_t)offOf(addr);
	if (o->uninit) {
		for (int i = 0; i < bytes; i++)
			if (!o->st[off + i])
				return V{0, rawmk(E_UNDEF, bytes * 8, 0, 0, 0, 0)};
	}
	bool sym = false;
	if (!o->s.empty())
		for (int i = 0; i < bytes; i++)
			if (o->s[off + i])
				sym = true;
	if (!sym) {
		u64 c = 0;
		memcpy(&c, &o->d[off], bytes);
		return K(c);
	}
	Expr *e = nullptr;
	for (int i = 0; i < bytes; i++) {
		Expr *b = o->s[off + i] ? o->s[off + i] : cst(o->d[off + i], 8);
		e = e ? mkconcat(b, e) : b;
	}
	return fromE(e);
}
static void storeC(State &s, u64 addr, V v, int bytes) {
	checkAcc(s, addr, bytes, true);
	Obj *o = wobj(s, addr);
	size_t off = (size_t)offOf(addr);
	if (!v.s) {
		memcpy(&o->d[off], &v.c, bytes);
		if (!o->s.empty())
			for (int i = 0; i < bytes; i++)
				o->s[off + i] = nullptr;
	} else if (v.s->op == E_UNDEF) {
		for (int i = 0; i < bytes; i++) {
			if (o->st[off + i]) {
				o->st[off + i] = 0;
				o->uninit++;
			}
			if (!o->s.empty())
				o->s[off + i] = nullptr;
		}
		return;
	} else {
		if (o->s.empty())
			o->s.assign(o->size, nullptr);
		Expr *e = v.s;
		if (e->w < bytes * 8)
			e = mk(E_ZEXT, bytes * 8, e);
		for (int i = 0; i < bytes; i++) {
			xnopush = bytes > 1;
			Expr *b = mkextract(e, i * 8, 8);
			xnopush = false;
			if (isk(b)) {
				o->d[off + i] = (u8)b->k;
				o->s[off + i] = nullptr;
			} else
				o->s[off + i] = b;
		}
	}
	if (o->uninit)
		for (int i = 0; i < bytes; i++)
			if (!o->st[off + i]) {
				o->st[off + i] = 1;
				o->uninit--;
			}
}
static u64 newObj(State &s, u64 size, int kind, bool init, const char *name) {
	Obj *o = new Obj;
	if (size > (1 << 26))
		throw ERR("allocation of %llu bytes", (unsigned long long)size);
	o->size = (u32)size;
	o->kind = (u8)kind;
	o->d.assign(size, init ? 0 : 0xCD);
	o->st.assign(size, init ? 1 : 0);
	o->uninit = init ? 0 : (u32)size;
	o->name = name;
	s.ob.push_back(o);
	if (kind == OK_HEAP)
		s.live++;
	return addrOf(NCONST + s.ob.size() - 1);
}
static void freeObj(State &s, u64 addr, const char *what) {
	if (addr == 0)
		return;
	Obj *o = objOf(s, addr);
	if (!o || o->kind != OK_HEAP || offOf(addr) != 0 || o->freed)
		throw ERR("memory error: %s of %s", what, describe(s, addr).c_str());
	o = wobj(s, addr);
	o->freed = true;
	s.live--;
}

// ---------------------------------------------------------------- decisions
static bool decide(State &s, Expr *e, State **clone) {
	if (clone)
		*clone = nullptr;
	if (isk(e))
		return e->k;
	if (e->und)
		throw ERR("use of an uninitialised value in a decision");
	ST->branches++;
	bool b = evalw(e, s.wit.data());
	Expr *other = b ? mknot(e) : e;
	std::vector<u8> w2;
	if (feasible(s, other, w2)) {
		State *n = new State(s);
		n->wit = w2;
		addc(*n, other);
		addc(s, b ? e : mknot(e));
		spawn(n); // n re-executes the current instruction; its outcome is now forced
		if (clone)
			*clone = n;
		s.depth++;
	}
	return b;
}
static u64 conc(State &s, V v, int w) {
	if (!v.s)
		return v.c;
	if (v.s->und)
		throw ERR("use of an uninitialised value as an address or size");
	ST->branches++;
	u64 x = evalw(v.s, s.wit.data());
	Expr *eq = mk(E_EQ, 1, v.s, cst(x, v.s->w));
	std::vector<u8> w2;
	if (feasible(s, mknot(eq), w2)) {
		ST->concfork++;
		State *n = new State(s);
		n->wit = w2;
		addc(*n, mknot(eq));
		addc(s, eq);
		spawn(n);
		s.depth++;
	}
	(void)w;
	return x;
}
static V loadV(State &s, V addr, int bytes) {
	if (!addr.s)
		return loadC(s, addr.c, bytes);
	if (addr.s->und)
		throw ERR("use of an uninitialised value as an address");
	if (addr.s->dep >= 0) {
		u64 *t = etable(addr.s);
		Dom &d = s.dom[addr.s->dep];
		std::vector<u64> as;
		bool ok = true;
		for (int i = 0; i < 256 && ok; i++)
			if (d[i]) {
				if (std::find(as.begin(), as.end(), t[i]) == as.end()) {
					as.push_back(t[i]);
					ok = as.size() <= 256 && validAcc(s, t[i], bytes);
				}
			}
		if (ok && !as.empty()) {
			std::vector<V> vs;
			bool und = false;
			for (u64 a : as) {
				vs.push_back(loadC(s, a, bytes));
				und |= vs.back().s && vs.back().s->und;
			}
			if (!und) {
				ST->merged_loads++;
				Expr *r = toE(vs.back(), bytes * 8);
				for (int i = (int)as.size() - 2; i >= 0; i--)
					r = mk(E_ITE, bytes * 8, mk(E_EQ, 1, addr.s, cst(as[i], addr.s->w)), toE(vs[i], bytes * 8), r);
				return fromE(r);
			}
		}
	}
	return loadC(s, conc(s, addr, 64), bytes);
}

#include "gsx_decode.inc"
#include "gsx_exec.inc"
