// ---------------------------------------------------------------- execution
static void endPath(State &s);

static inline V val(const Frame &f, const Opnd &o) { return o.reg >= 0 ? f.r[o.reg] : K(o.c); }

static void jump(Frame &f, int to) {
	Block &B = f.f->blocks[to];
	int from = f.bb;
	if (!B.phis.empty())
		for (auto &p : B.phis)
			if (p.first == from) {
				if (p.second.size() == 1)
					f.r[p.second[0].dst] = val(f, p.second[0].src);
				else {
					V tmp[64];
					size_t n = p.second.size();
					if (n > 64)
						die("phis");
					for (size_t i = 0; i < n; i++)
						tmp[i] = val(f, p.second[i].src);
					for (size_t i = 0; i < n; i++)
						f.r[p.second[i].dst] = tmp[i];
				}
				break;
			}
	f.bb = to;
	f.ip = B.start;
}
static V binop(State &s, EOp e, int w, V a, V b) {
	if (e == E_UDIV || e == E_SDIV || e == E_UREM || e == E_SREM) {
		bool z;
		if (b.s)
			z = decide(s, mk(E_EQ, 1, b.s, cst(0, w)));
		else
			z = (b.c & mask(w)) == 0;
		if (z)
			throw ERR("division by zero");
	}
	if (!a.s && !b.s)
		return K(evop(e, w, w, a.c & mask(w), b.c & mask(w), 0, 0));
	return fromE(mk(e, w, toE(a, w), toE(b, w)));
}
static V icmp(EOp e, bool inv, int w, V a, V b) {
	if (!a.s && !b.s)
		return K(evop(e, 1, w, a.c & mask(w), b.c & mask(w), 0, 0) ^ (u64)inv);
	Expr *r = mk(e, 1, toE(a, w), toE(b, w));
	return fromE(inv ? mknot(r) : r);
}
static std::string cstr(State &s, u64 a) {
	std::string r;
	for (int i = 0; i < 300; i++) {
		V c = loadC(s, a + i, 1);
		if (c.s || !(c.c & 0xFF))
			break;
		r += (char)c.c;
	}
	return r;
}
static double asd(u64 x) {
	double d;
	memcpy(&d, &x, 8);
	return d;
}
static u64 asu(double d) {
	u64 x;
	memcpy(&x, &d, 8);
	return x;
}
static void memcpyB(State &s, u64 d, u64 sr, u64 n) {
	if (n == 0)
		return;
	checkAcc(s, sr, n, false);
	checkAcc(s, d, n, true);
	Obj *o = wobj(s, d);
	Obj *q = objOf(s, sr);
	size_t od = (size_t)offOf(d), os = (size_t)offOf(sr);
	memmove(&o->d[od], &q->d[os], n);
	if (!q->s.empty() || !o->s.empty()) {
		if (o->s.empty())
			o->s.assign(o->size, nullptr);
		if (q->s.empty())
			std::fill(o->s.begin() + od, o->s.begin() + od + n, nullptr);
		else
			memmove(&o->s[od], &q->s[os], n * sizeof(Expr *));
	}
	if (o->uninit || q->uninit) {
		std::vector<u8> t(q->st.begin() + os, q->st.begin() + os + n);
		for (size_t i = 0; i < n; i++) {
			if (o->st[od + i] && !t[i])
				o->uninit++;
			if (!o->st[od + i] && t[i])
				o->uninit--;
			o->st[od + i] = t[i];
		}
	}
}
static V strcmpB(State &s, u64 a, u64 b, u64 n, bool stopnul) {
	// collects the comparison as one expression; the decision is taken by the caller's branch
	std::vector<std::pair<Expr *, Expr *>> ps;
	V res = K(0);
	bool have = false;
	bool guarded = false; // some earlier byte pair is symbolic
	for (u64 i = 0; i < n; i++) {
		if (guarded && (!validAcc(s, a + i, 1) || !validAcc(s, b + i, 1))) {
			// only reached when all earlier bytes are equal: decide that first
			Expr *eq = cst(1, 1);
			for (auto &p : ps)
				eq = mk(E_AND, 1, eq, mk(E_EQ, 1, p.first, p.second));
			if (stopnul)
				for (auto &p : ps)
					eq = mk(E_AND, 1, eq, mknot(mk(E_EQ, 1, p.first, cst(0, 8))));
			if (!decide(s, eq))
				break;
		}
		V x = loadC(s, a + i, 1), y = loadC(s, b + i, 1);
		if ((x.s && x.s->und) || (y.s && y.s->und))
			throw ERR("comparison of uninitialised bytes");
		if (!x.s && !y.s) {
			x.c &= 0xFF;
			y.c &= 0xFF;
			if (x.c != y.c || (stopnul && x.c == 0)) {
				res = K((x.c - y.c) & 0xFFFFFFFF);
				have = true;
				break;
			}
			continue;
		}
		Expr *ex = toE(x, 8), *ey = toE(y, 8);
		ps.push_back({ex, ey});
		guarded = true;
		if (stopnul && ((!x.s && (x.c & 0xFF) == 0) || (!y.s && (y.c & 0xFF) == 0)))
			break; // equality here means both end
		if (stopnul && x.s && y.s) {
			// both symbolic: strings may end here together
			if (decide(s, mk(E_AND, 1, mk(E_EQ, 1, ex, cst(0, 8)), mk(E_EQ, 1, ey, cst(0, 8)))))
				break;
		}
	}
	(void)have;
	Expr *r = toE(res, 32);
	for (int i = (int)ps.size() - 1; i >= 0; i--) {
		Expr *x = ps[i].first, *y = ps[i].second;
		Expr *df = mk(E_SUB, 32, mk(E_ZEXT, 32, x), mk(E_ZEXT, 32, y));
		r = mk(E_ITE, 32, mk(E_EQ, 1, x, y), r, df);
	}
	return fromE(r);
}

static void setr(Frame &f, const Inst &I, V v) {
	if (I.dst >= 0)
		f.r[I.dst] = v;
}

static V newInput(State &s) {
	if (s.nin >= MAXIN)
		die("too many inputs");
	Expr *e = rawmk(E_IN, 8, 0, 0, 0, (u64)s.nin);
	s.nin++;
	s.dom.push_back(Dom().set());
	if ((int)s.wit.size() < s.nin)
		s.wit.push_back(0);
	s.wit[s.nin - 1] = 0;
	return V{0, e};
}

static void callFunc(State &s, Func *fn, std::vector<V> &args, int retdst, int nret) {
	if (!fn->defined)
		{
			inconclusive = true;
			inconclusive_why = "call of the unmodelled function " + fn->name + " at " + here(s);
			throw PathEnd();
		}
	ensure(fn);
	if (s.fr.size() > 400)
		throw ERR("stack overflow (recursion)");
	Frame n;
	n.f = fn;
	n.bb = 0;
	n.ip = fn->blocks[0].start;
	n.retdst = retdst;
	n.nret = nret;
	n.r.resize(fn->nregs, K(0));
	for (size_t i = 0; i < args.size(); i++) {
		if (i < fn->argregs.size())
			n.r[fn->argregs[i]] = args[i];
		else
			n.va.push_back(args[i]);
	}
	s.fr.push_back(std::move(n));
}

// returns false when the instruction must not advance ip (it did so itself)
static void builtin(State &s, Frame &f, const Inst &I) {
	auto A = [&](int i) { return val(f, I.args[i]); };
	switch (I.builtin) {
	case B_MALLOC: setr(f, I, K(newObj(s, conc(s, A(0), 64), OK_HEAP, false, "malloc"))); return;
	case B_CALLOC: {
		u64 a = conc(s, A(0), 64), b = conc(s, A(1), 64);
		setr(f, I, K(newObj(s, a * b, OK_HEAP, true, "calloc")));
		return;
	}
	case B_REALLOC: {
		u64 p = conc(s, A(0), 64), n = conc(s, A(1), 64);
		if (p == 0) {
			setr(f, I, K(newObj(s, n, OK_HEAP, false, "realloc")));
			return;
		}
		Obj *o = objOf(s, p);
		if (!o || o->kind != OK_HEAP || offOf(p) != 0 || o->freed)
			throw ERR("memory error: realloc of %s", describe(s, p).c_str());
		u64 m = std::min<u64>(o->size, n);
		u64 q = newObj(s, n, OK_HEAP, false, "realloc");
		memcpyB(s, q, p, m);
		freeObj(s, p, "realloc");
		setr(f, I, K(q));
		return;
	}
	case B_FREE: freeObj(s, conc(s, A(0), 64), "free"); return;
	case B_MEMCPY: case B_MEMMOVE: {
		u64 d = conc(s, A(0), 64), q = conc(s, A(1), 64), n = conc(s, A(2), 64);
		if (I.builtin == B_MEMCPY && n && (d >> 32) == (q >> 32) && d != q && (d < q ? d + n > q : q + n > d))
			throw ERR("memory error: memcpy of overlapping regions");
		memcpyB(s, d, q, n);
		setr(f, I, K(d));
		return;
	}
	case B_MEMSET: {
		u64 d = conc(s, A(0), 64), n = conc(s, A(2), 64);
		V v = A(1);
		if (v.s)
			v = fromE(mkextract(v.s, 0, 8));
		if (n) {
			checkAcc(s, d, n, true);
			if (!v.s) {
				Obj *o = wobj(s, d);
				size_t off = (size_t)offOf(d);
				memset(&o->d[off], (int)v.c, n);
				if (!o->s.empty())
					std::fill(o->s.begin() + off, o->s.begin() + off + n, nullptr);
				if (o->uninit)
					for (size_t i = 0; i < n; i++)
						if (!o->st[off + i]) {
							o->st[off + i] = 1;
							o->uninit--;
						}
			} else
				for (u64 i = 0; i < n; i++)
					storeC(s, d + i, v, 1);
		}
		setr(f, I, K(d));
		return;
	}
	case B_STRCMP: {
		u64 a = conc(s, A(0), 64), b = conc(s, A(1), 64);
		setr(f, I, strcmpB(s, a, b, ~0ULL, true));
		return;
	}
	case B_STRNCMP: case B_MEMCMP: {
		u64 a = conc(s, A(0), 64), b = conc(s, A(1), 64), n = conc(s, A(2), 64);
		setr(f, I, strcmpB(s, a, b, n, I.builtin == B_STRNCMP));
		return;
	}
	case B_ABORT: throw ERR("abort() called");
	case B_UBTRAP: throw ERR("undefined behaviour (sanitizer check)");
	case B_TRAP: throw ERR("trap");
	case B_SXBYTE: setr(f, I, newInput(s)); return;
	case B_SXRANGE: case B_SXCHOICE: {
		u64 lo = 0, hi;
		if (I.builtin == B_SXRANGE) {
			lo = conc(s, A(0), 32);
			hi = conc(s, A(1), 32);
		} else
			hi = conc(s, A(0), 32) - 1;
		if (lo > hi || hi > 255)
			die("sx_range(%llu,%llu)", (unsigned long long)lo, (unsigned long long)hi);
		V v = newInput(s);
		Dom d;
		for (u64 i = lo; i <= hi; i++)
			d.set(i);
		s.dom.back() = d;
		s.wit[s.nin - 1] = (u8)lo;
		if (I.builtin == B_SXRANGE) {
			notedom(s, mk(E_ULE, 1, v.s, cst(hi, 8)));
			notedom(s, mk(E_ULE, 1, cst(lo, 8), v.s));
		}
		if (I.builtin == B_SXRANGE) {
			setr(f, I, V{0, I.w > 8 ? mk(E_ZEXT, I.w, v.s) : v.s});
			return;
		}
		// one state per value, directly past this instruction
		int in = s.nin - 1;
		ST->branches++;
		for (u64 i = hi; i > lo; i--) {
			State *n = new State(s);
			n->dom[in].reset();
			n->dom[in].set(i);
			notedom(*n, mk(E_EQ, 1, v.s, cst(i, 8)));
			n->wit[in] = (u8)i;
			Frame &nf = n->fr.back();
			setr(nf, I, K(i));
			nf.ip++;
			spawn(n);
		}
		s.dom[in].reset();
		s.dom[in].set(lo);
		notedom(s, mk(E_EQ, 1, v.s, cst(lo, 8)));
		setr(f, I, K(lo));
		return;
	}
	case B_SXASSUME: {
		V v = A(0);
		Expr *c = v.s ? mknot(mk(E_EQ, 1, v.s, cst(0, v.s->w))) : nullptr;
		if (!c) {
			if (v.c & 0xFFFFFFFF)
				return;
			ST->assumed_out++;
			throw PathEnd();
		}
		if (isk(c)) {
			if (c->k)
				return;
			ST->assumed_out++;
			throw PathEnd();
		}
		if (!evalw(c, s.wit.data())) {
			std::vector<u8> w2;
			if (!feasible(s, c, w2)) {
				ST->assumed_out++;
				throw PathEnd();
			}
			s.wit = w2;
		}
		addc(s, c);
		return;
	}
	case B_SXASSERT: {
		V v = A(0);
		ST->asserts++;
		std::string msg = cstr(s, A(1).c);
		msgstat[msg]++;
		if (!v.s) {
			if (v.c & 0xFFFFFFFF)
				return;
			violation(s, "assert", msg);
			throw PathEnd();
		}
		if (v.s->und)
			throw ERR("use of an uninitialised value in: %s", msg.c_str());
		Expr *c = mknot(mk(E_EQ, 1, v.s, cst(0, v.s->w)));
		std::vector<u8> w2;
		if (!isk(c) && !evalw(c, s.wit.data())) {
			violation(s, "assert", msg);
			if (!feasible(s, c, w2))
				throw PathEnd();
			s.wit = w2;
			addc(s, c);
			return;
		}
		if (isk(c)) {
			if (c->k)
				return;
			violation(s, "assert", msg);
			throw PathEnd();
		}
		if (feasible(s, mknot(c), w2)) {
			violation(s, "assert", msg, &w2);
			addc(s, c);
		} else
			ST->asserts_proved_sym++;
		return;
	}
	case B_SXFAIL: violation(s, "assert", cstr(s, A(0).c)); throw PathEnd();
	case B_SXOBSERVE: s.obs.push_back(A(0)); return;
	case B_SXCOVER: {
		std::string l = cstr(s, A(0).c);
		auto it = covidx.find(l);
		u32 id;
		if (it == covidx.end()) {
			die("unregistered cover label %s", l.c_str());
		} else
			id = it->second;
		s.covl.push_back(id);
		return;
	}
	case B_SXDONE: endPath(s); throw PathEnd();
	case B_SXLIVE: setr(f, I, K((u64)s.live)); return;
	case B_SXCONC: setr(f, I, K(conc(s, A(0), 64))); return;
	case B_SXISSYM: setr(f, I, K(A(0).s && !known(s, A(0).s))); return;
	case B_SXVALID: setr(f, I, K(validAcc(s, A(0).c, A(1).c))); return;
	case B_SQRT: setr(f, I, K(asu(std::sqrt(asd(conc(s, A(0), 64)))))); return;
	case B_FLOOR: setr(f, I, K(asu(std::floor(asd(conc(s, A(0), 64)))))); return;
	case B_CEIL: setr(f, I, K(asu(std::ceil(asd(conc(s, A(0), 64)))))); return;
	case B_FABS: setr(f, I, K(asu(std::fabs(asd(conc(s, A(0), 64)))))); return;
	case B_POW: setr(f, I, K(asu(std::pow(asd(conc(s, A(0), 64)), asd(conc(s, A(1), 64)))))); return;
	case B_VASTART: {
		u64 p = conc(s, A(0), 64);
		u64 area = newObj(s, std::max<size_t>(8, f.va.size() * 8), OK_STACK, true, "varargs");
		f.al.push_back((u32)((area >> 32) - NCONST));
		for (size_t i = 0; i < f.va.size(); i++) {
			V v = f.va[i];
			if (v.s && v.s->w < 64)
				v.s = mk(E_ZEXT, 64, v.s);
			storeC(s, area + i * 8, v, 8);
		}
		storeC(s, p, K(48), 4);
		storeC(s, p + 4, K(176), 4);
		storeC(s, p + 8, K(area), 8);
		storeC(s, p + 16, K(0), 8);
		return;
	}
	case B_VACOPY: memcpyB(s, conc(s, A(0), 64), conc(s, A(1), 64), 24); return;
	case B_MINMAX: {
		V a = A(0), b = A(1);
		V c = icmp(I.e, false, I.w, a, b);
		if (I.inv)
			std::swap(a, b);
		if (!c.s)
			setr(f, I, c.c ? a : b);
		else
			setr(f, I, fromE(mk(E_ITE, I.w, c.s, toE(a, I.w), toE(b, I.w))));
		return;
	}
	case B_ABS: {
		V a = A(0);
		V n = binop(s, E_SUB, I.w, K(0), a);
		V c = icmp(E_SLT, false, I.w, a, K(0));
		if (!c.s)
			setr(f, I, c.c ? n : a);
		else
			setr(f, I, fromE(mk(E_ITE, I.w, c.s, toE(n, I.w), toE(a, I.w))));
		return;
	}
	case B_OVF: {
		V a = A(0), b = A(1);
		int w = I.w, ww = I.e == E_MUL ? 2 * w : w + 1;
		if (ww > 64)
			ww = 64; // checked below with a different formula for 64-bit operands
		V r = binop(s, I.e, w, a, b);
		V o;
		if (w < 64 && (I.e != E_MUL || 2 * w <= 64)) {
			EOp x = I.inv ? E_SEXT : E_ZEXT;
			Expr *ea = mk(x, ww, toE(a, w)), *eb = mk(x, ww, toE(b, w));
			Expr *full = mk(I.e, ww, ea, eb);
			Expr *back = mk(x, ww, toE(r, w));
			o = fromE(mknot(mk(E_EQ, 1, full, back)));
		} else {
			u64 ca = conc(s, a, w), cb = conc(s, b, w);
			long long sr;
			unsigned long long ur;
			bool ov;
			if (I.inv)
				ov = I.e == E_ADD   ? __builtin_saddll_overflow((i64)ca, (i64)cb, &sr)
				     : I.e == E_SUB ? __builtin_ssubll_overflow((i64)ca, (i64)cb, &sr)
				                    : __builtin_smulll_overflow((i64)ca, (i64)cb, &sr);
			else
				ov = I.e == E_ADD   ? __builtin_uaddll_overflow(ca, cb, &ur)
				     : I.e == E_SUB ? __builtin_usubll_overflow(ca, cb, &ur)
				                    : __builtin_umulll_overflow(ca, cb, &ur);
			r = binop(s, I.e, w, K(ca), K(cb));
			o = K(ov);
		}
		f.r[I.dst] = r;
		f.r[I.dst + 1] = o;
		return;
	}
	case B_SAT: {
		if (I.inv)
			die("signed saturating op");
		V a = A(0), b = A(1);
		V r = binop(s, I.e, I.w, a, b);
		V c = I.e == E_SUB ? icmp(E_ULT, false, I.w, a, b) : icmp(E_ULT, false, I.w, r, a);
		V sat = I.e == E_SUB ? K(0) : K(mask(I.w));
		setr(f, I, !c.s ? (c.c ? sat : r) : fromE(mk(E_ITE, I.w, c.s, toE(sat, I.w), toE(r, I.w))));
		return;
	}
	case B_EXPECT: setr(f, I, A(0)); return;
	case B_OBJSIZE: setr(f, I, K(~0ULL & mask(I.w))); return;
	case B_BSWAP: {
		V a = A(0);
		Expr *e = toE(a, I.w), *r = nullptr;
		for (int i = 0; i < I.w / 8; i++) {
			Expr *b = mkextract(e, i * 8, 8);
			r = r ? mkconcat(r, b) : b;
		}
		setr(f, I, fromE(r));
		return;
	}
	case B_CTPOP: setr(f, I, K((u64)__builtin_popcountll(conc(s, A(0), 64) & mask(I.w)))); return;
	case B_CTLZ: {
		u64 x = conc(s, A(0), 64) & mask(I.w);
		setr(f, I, K(x ? (u64)(__builtin_clzll(x) - (64 - I.w)) : I.w));
		return;
	}
	case B_CTTZ: {
		u64 x = conc(s, A(0), 64) & mask(I.w);
		setr(f, I, K(x ? (u64)__builtin_ctzll(x) : I.w));
		return;
	}
	case B_FSHL: case B_FSHR: {
		u64 sh = conc(s, A(2), 64) % I.w;
		V a = A(0), b = A(1);
		if (I.builtin == B_FSHR)
			sh = (I.w - sh) % I.w;
		if (I.builtin == B_FSHR && sh == 0) {
			setr(f, I, b);
			return;
		}
		if (sh == 0) {
			setr(f, I, a);
			return;
		}
		V hi = binop(s, E_SHL, I.w, a, K(sh)), lo = binop(s, E_LSHR, I.w, b, K(I.w - sh));
		setr(f, I, binop(s, E_OR, I.w, hi, lo));
		return;
	}
	}
	die("builtin %d (%s)", I.builtin, I.callee ? I.callee->name.c_str() : "?");
}

static void step(State &s) {
	Frame &f = s.fr.back();
	const Inst &I = f.f->code[f.ip];
	if (!cov[I.cov])
		cov[I.cov] = 1;
	switch (I.op) {
	case I_BIN: f.r[I.dst] = binop(s, I.e, I.w, val(f, I.a), val(f, I.b)); break;
	case I_ICMP: f.r[I.dst] = icmp(I.e, I.inv, I.w2, val(f, I.a), val(f, I.b)); break;
	case I_SELECT: {
		V c = val(f, I.a), a = val(f, I.b), b = val(f, I.c);
		if (!c.s)
			f.r[I.dst] = (c.c & 1) ? a : b;
		else
			f.r[I.dst] = fromE(mk(E_ITE, I.w, c.s, toE(a, I.w), toE(b, I.w)));
		break;
	}
	case I_ZEXT: {
		V a = val(f, I.a);
		f.r[I.dst] = a.s ? fromE(mk(E_ZEXT, I.w, a.s)) : K(a.c & mask(I.w2));
		break;
	}
	case I_SEXT: {
		V a = val(f, I.a);
		f.r[I.dst] = a.s ? fromE(mk(E_SEXT, I.w, a.s)) : K((u64)sx(a.c, I.w2) & mask(I.w));
		break;
	}
	case I_TRUNC: {
		V a = val(f, I.a);
		f.r[I.dst] = a.s ? fromE(mkextract(a.s, 0, I.w)) : K(a.c & mask(I.w));
		break;
	}
	case I_COPY: f.r[I.dst] = val(f, I.a); break;
	case I_LOAD: {
		V a = val(f, I.a);
		V r = loadV(s, a, (int)I.k);
		if (r.s && I.w < I.k * 8)
			r = r.s->op == E_UNDEF ? V{0, rawmk(E_UNDEF, I.w, 0, 0, 0, 0)} : fromE(mkextract(r.s, 0, I.w));
		s.fr.back().r[I.dst] = r;
		break;
	}
	case I_STORE: {
		V v = val(f, I.b);
		u64 a = conc(s, val(f, I.a), 64);
		if (v.s && I.w < I.k * 8)
			v.s = mk(E_ZEXT, (int)I.k * 8, v.s);
		storeC(s, a, v, (int)I.k);
		break;
	}
	case I_GEP: {
		V a = val(f, I.a);
		u64 off = I.k;
		Expr *sym = nullptr;
		for (size_t i = 0; i < I.args.size(); i++) {
			V x = val(f, I.args[i]);
			int w = (int)I.cases[i].first;
			if (!x.s)
				off += (u64)sx(x.c, w) * I.scale[i];
			else {
				Expr *e = mk(E_MUL, 64, mk(E_SEXT, 64, x.s), cst(I.scale[i], 64));
				sym = sym ? mk(E_ADD, 64, sym, e) : e;
			}
		}
		if (!a.s && !sym)
			f.r[I.dst] = K(a.c + off);
		else {
			Expr *e = mk(E_ADD, 64, toE(a, 64), cst(off, 64));
			if (sym)
				e = mk(E_ADD, 64, e, sym);
			f.r[I.dst] = fromE(e);
		}
		break;
	}
	case I_ALLOCA: {
		u64 n = conc(s, val(f, I.a), 64);
		u64 p = newObj(s, n * I.k, OK_STACK, false, f.f->name.c_str());
		f.al.push_back((u32)((p >> 32) - NCONST));
		f.r[I.dst] = K(p);
		break;
	}
	case I_BR: jump(f, I.t0); return;
	case I_CBR: {
		V c = val(f, I.a);
		if (!c.s) {
			jump(f, (c.c & 1) ? I.t0 : I.t1);
			return;
		}
		State *cl;
		bool b = decide(s, c.s, &cl);
		if (cl)
			jump(cl->fr.back(), b ? I.t1 : I.t0);
		jump(s.fr.back(), b ? I.t0 : I.t1);
		return;
	}
	case I_SWITCH: {
		V c = val(f, I.a);
		auto target = [&](u64 x) {
			for (auto &k : I.cases)
				if (k.first == x)
					return k.second;
			return I.t0;
		};
		if (!c.s) {
			jump(f, target(c.c & mask(I.w)));
			return;
		}
		if (c.s->und)
			throw ERR("use of an uninitialised value in a decision");
		// one successor state per feasible target block
		ST->branches++;
		int t = target(evalw(c.s, s.wit.data()));
		std::vector<std::pair<int, Expr *>> tg;
		Expr *any = cst(0, 1);
		for (auto &k : I.cases) {
			Expr *e = mk(E_EQ, 1, c.s, cst(k.first, I.w));
			any = mk(E_OR, 1, any, e);
			if (k.second == I.t0)
				continue;
			bool found = false;
			for (auto &p : tg)
				if (p.first == k.second) {
					p.second = mk(E_OR, 1, p.second, e);
					found = true;
				}
			if (!found)
				tg.push_back({k.second, e});
		}
		{
			Expr *nd = cst(0, 1);
			for (auto &p : tg)
				nd = mk(E_OR, 1, nd, p.second);
			tg.push_back({I.t0, mknot(nd)});
		}
		Expr *mine = nullptr;
		std::vector<u8> w2;
		for (auto &p : tg) {
			if (p.first == t) {
				mine = p.second;
				continue;
			}
			if (feasible(s, p.second, w2)) {
				State *n = new State(s);
				n->wit = w2;
				addc(*n, p.second);
				jump(n->fr.back(), p.first);
				spawn(n);
			}
		}
		addc(s, mine);
		s.depth++;
		jump(f, t);
		return;
	}
	case I_RET: {
		std::vector<u32> al;
		al.swap(f.al);
		for (u32 i : al) {
			if (--s.ob[i]->ref == 0)
				delete s.ob[i];
			s.ob[i] = nullptr;
		}
		if (s.fr.size() == 1) {
			endPath(s);
			throw PathEnd();
		}
		Frame &c = s.fr[s.fr.size() - 2];
		if (I.k && f.retdst >= 0)
			for (int i = 0; i < f.nret; i++)
				c.r[f.retdst + i] = I.a.reg >= 0 ? f.r[I.a.reg + i] : K(I.a.c);
		s.fr.pop_back();
		s.fr.back().ip++;
		return;
	}
	case I_CALL: {
		Func *fn = I.callee;
		std::vector<V> args;
		for (auto &o : I.args)
			args.push_back(val(f, o));
		if (!fn) {
			u64 a = conc(s, val(f, I.a), 64);
			u64 id = a >> 32;
			if (id < FUNC_ID0 || id >= FUNC_ID0 + funcs.size() || offOf(a) != 0)
				throw ERR("call through an invalid pointer");
			fn = funcs[id - FUNC_ID0];
			if (fn->builtin) {
				Inst J;
				J.op = I_BUILTIN;
				J.builtin = fn->builtin;
				J.callee = fn;
				J.args = I.args;
				J.dst = I.dst;
				J.w = I.w;
				builtin(s, f, J);
				s.fr.back().ip++;
				return;
			}
		}
		callFunc(s, fn, args, I.dst, I.ndst);
		return;
	}
	case I_BUILTIN: builtin(s, f, I); break;
	case I_UNREACH: throw ERR("unreachable code executed (undefined behaviour)");
	case I_INSERTV: {
		for (int i = 0; i < I.ndst; i++)
			f.r[I.dst + i] = (u64)i == I.k ? val(f, I.b) : I.a.reg >= 0 ? f.r[I.a.reg + i] : K(0);
		break;
	}
	case I_FBIN: {
		double a = asd(conc(s, val(f, I.a), 64)), b = asd(conc(s, val(f, I.b), 64)), r = 0;
		switch (I.k) {
		case llvm::Instruction::FAdd: r = a + b; break;
		case llvm::Instruction::FSub: r = a - b; break;
		case llvm::Instruction::FMul: r = a * b; break;
		case llvm::Instruction::FDiv: r = a / b; break;
		case llvm::Instruction::FRem: r = std::fmod(a, b); break;
		}
		f.r[I.dst] = K(asu(r));
		break;
	}
	case I_FNEG: f.r[I.dst] = K(asu(-asd(conc(s, val(f, I.a), 64)))); break;
	case I_FCMP: {
		double a = asd(conc(s, val(f, I.a), 64)), b = asd(conc(s, val(f, I.b), 64));
		bool un = std::isnan(a) || std::isnan(b), r = false;
		switch ((llvm::CmpInst::Predicate)I.k) {
		case llvm::CmpInst::FCMP_OEQ: r = !un && a == b; break;
		case llvm::CmpInst::FCMP_OGT: r = !un && a > b; break;
		case llvm::CmpInst::FCMP_OGE: r = !un && a >= b; break;
		case llvm::CmpInst::FCMP_OLT: r = !un && a < b; break;
		case llvm::CmpInst::FCMP_OLE: r = !un && a <= b; break;
		case llvm::CmpInst::FCMP_ONE: r = !un && a != b; break;
		case llvm::CmpInst::FCMP_UEQ: r = un || a == b; break;
		case llvm::CmpInst::FCMP_UGT: r = un || a > b; break;
		case llvm::CmpInst::FCMP_UGE: r = un || a >= b; break;
		case llvm::CmpInst::FCMP_ULT: r = un || a < b; break;
		case llvm::CmpInst::FCMP_ULE: r = un || a <= b; break;
		case llvm::CmpInst::FCMP_UNE: r = un || a != b; break;
		case llvm::CmpInst::FCMP_ORD: r = !un; break;
		case llvm::CmpInst::FCMP_UNO: r = un; break;
		default: die("fcmp");
		}
		f.r[I.dst] = K(r);
		break;
	}
	case I_FCAST: {
		u64 x = conc(s, val(f, I.a), 64);
		u64 r = 0;
		switch (I.k) {
		case llvm::Instruction::SIToFP: r = asu((double)sx(x, I.w2)); break;
		case llvm::Instruction::UIToFP: r = asu((double)(x & mask(I.w2))); break;
		case llvm::Instruction::FPToSI: r = (u64)(i64)asd(x) & mask(I.w); break;
		case llvm::Instruction::FPToUI: r = (u64)asd(x) & mask(I.w); break;
		default: die("float conversion");
		}
		if (I.w == 32 && (I.k == llvm::Instruction::SIToFP || I.k == llvm::Instruction::UIToFP))
			die("float");
		f.r[I.dst] = K(r);
		break;
	}
	default: die("op %d", I.op);
	}
	s.fr.back().ip++;
}

static void endPath(State &s) {
	ST->completed++;
	for (u32 l : s.covl)
		SH->labels[l] = 1; // benign race
	if (witf >= 0) {
		// all of the first paths, then thinner and thinner
		u64 n = __sync_fetch_and_add(&SH->npaths, 1), q = (u64)opt_maxwit / 4 + 1;
		if (n % (1 + n / q) == 0) {
			std::string o;
			bool ok = true;
			for (V v : s.obs) {
				char b[24];
				if (v.s && v.s->und)
					ok = false;
				snprintf(b, sizeof b, " %llx", (unsigned long long)(v.s ? evalw(v.s, s.wit.data()) : v.c));
				o += b;
			}
			o = (s.nin ? hex(s.wit, s.nin) : std::string("-")) + o + "\n";
			if (ok && write(witf, o.data(), o.size()) != (ssize_t)o.size())
				die("cannot write the witness file");
		}
	}
}

// a worker never outlives its time, even if the first process has been killed
static void lifeline() {
	double left = opt_timeout + 30 - (now() - t_start);
	alarm(left < 1 ? 1 : (unsigned)left);
}
static bool timeup() { return now() - t_start > opt_timeout; }
static void runState(State *s) {
	ST->paths++;
	try {
		u64 n = 0;
		for (;;) {
			step(*s);
			ST->insts++;
			s->steps++;
			if ((++n & 0xFFFF) == 0 && timeup()) {
				inconclusive = true;
				inconclusive_why = "time limit";
				hardstop = true;
				break;
			}
			if (s->steps > opt_maxsteps) {
				violation(*s, "error", "the execution does not terminate (step limit)");
				break;
			}
		}
	} catch (PathEnd &) {
	}
	delete s;
}

static std::string jesc(const std::string &x) {
	std::string r;
	for (unsigned char c : x) {
		if (c == '"' || c == '\\') {
			r += '\\';
			r += (char)c;
		} else if (c < 32 || c > 126) {
			char b[8];
			snprintf(b, 8, "\\u%04x", c);
			r += b;
		} else
			r += (char)c;
	}
	return r;
}
static std::string dumpViols() {
	std::string r;
	for (auto &m : msgstat)
		r += "M\t" + m.first + "\t" + std::to_string(m.second) + "\n";
	if (inconclusive)
		r += "I\t" + inconclusive_why + "\n";
	return r;
}
static const int NSLOT = 60000;
static Stats *shst;
static double last_split;
// explores everything in `work`; gives half of it away whenever a processor is free
static void worker() {
	last_split = now();
	u64 cnt = 0;
	while (!work.empty()) {
		State *s = work.back();
		work.pop_back();
		runState(s);
		if (!viols.empty() && SH->viol_at == 0)
			SH->viol_at = now();
		cnt++;
		if (SH->viol_at != 0 && (cnt & 7) == 0 && now() - SH->viol_at > 10)
			SH->stop = 1;
		if ((cnt & 15) == 0 && !work.empty() && timeup()) {
			inconclusive = hardstop = true;
			inconclusive_why = "time limit";
		}
		if (hardstop || SH->stop || viols.size() >= 40) {
			SH->stop = 1;
			break;
		}
		if (work.size() >= 2 && (int)SH->active < opt_jobs && now() - last_split > 0.03) {
			if ((int)__sync_add_and_fetch(&SH->active, 1) > opt_jobs) {
				__sync_sub_and_fetch(&SH->active, 1);
				continue;
			}
			u64 slot = __sync_fetch_and_add(&SH->slots, 1);
			pid_t p = slot < NSLOT ? fork() : -1;
			if (p < 0) {
				__sync_sub_and_fetch(&SH->active, 1);
				last_split = now();
				continue;
			}
			std::deque<State *> keep;
			bool odd = p == 0;
			for (size_t i = 0; i < work.size(); i++)
				if ((i & 1) == (odd ? 1u : 0u))
					keep.push_back(work[i]);
				else
					delete work[i];
			work.swap(keep);
			last_split = now();
			if (p == 0) {
				lifeline();
				ST = &shst[slot];
				viols.clear();
				vcount.clear();
				msgstat.clear();
			}
		}
	}
	report(dumpViols());
	__sync_sub_and_fetch(&SH->active, 1);
	_exit(0);
}

static void usage() {
	fprintf(stderr, "usage: gsx [--jobs N] [--timeout S] [--max-steps N] [--witnesses FILE] [--max-wit N]\n"
	                "           [--no-domain] [--repo DIR] --out JSON module.bc\n");
	exit(5);
}

int main(int argc, char **argv) {
	std::string bc, entry = "harness";
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto nx = [&]() -> std::string {
			if (i + 1 >= argc)
				usage();
			return argv[++i];
		};
		if (a == "--jobs") opt_jobs = atoi(nx().c_str());
		else if (a == "--timeout") opt_timeout = atof(nx().c_str());
		else if (a == "--max-steps") opt_maxsteps = strtoull(nx().c_str(), 0, 10);
		else if (a == "--witnesses") opt_wit = nx();
		else if (a == "--max-wit") opt_maxwit = atoi(nx().c_str());
		else if (a == "--no-domain") opt_nodomain = true;
		else if (a == "--audit") opt_audit = atof(nx().c_str());
		else if (a == "--repo") opt_repo = nx();
		else if (a == "--out") opt_out = nx();
		else if (a == "--entry") entry = nx();
		else if (a == "--z3-ms") opt_z3ms = (unsigned)atoi(nx().c_str());
		else if (a[0] == '-') usage();
		else bc = a;
	}
	if (bc.empty() || opt_out.empty())
		usage();
	t_start = now();
	LLVMContext ctx;
	SMDiagnostic err;
	std::unique_ptr<Module> mod = parseIRFile(bc, err, ctx);
	if (!mod)
		die("cannot read %s: %s", bc.c_str(), err.getMessage().str().c_str());
	M = mod.get();
	DL = &M->getDataLayout();

	// globals
	gobjs.push_back(nullptr);
	std::vector<const GlobalVariable *> cg, mg;
	for (auto &g : M->globals()) {
		if (g.getName().starts_with("llvm."))
			continue;
		if (g.isConstant() && g.hasInitializer())
			cg.push_back(&g);
		else
			mg.push_back(&g);
	}
	NCONST = 1 + cg.size();
	for (size_t i = 0; i < cg.size(); i++)
		gaddr[cg[i]] = addrOf(1 + i);
	for (size_t i = 0; i < mg.size(); i++)
		gaddr[mg[i]] = addrOf(NCONST + i);
	auto mkg = [&](const GlobalVariable *g) {
		Obj *o = new Obj;
		u64 n = DL->getTypeAllocSize(g->getValueType());
		o->size = (u32)n;
		o->d.assign(n, 0);
		o->st.assign(n, 1);
		o->name = strdup(g->getName().str().c_str());
		if (g->hasInitializer())
			initBytes(o, 0, g->getInitializer());
		o->ro = g->isConstant();
		return o;
	};
	for (auto *g : cg)
		gobjs.push_back(mkg(g));
	for (auto *g : mg)
		ginit.push_back(mkg(g));

	Function *F = M->getFunction(entry);
	if (!F || F->isDeclaration())
		die("no function %s", entry.c_str());
	// decode everything up front so that coverage indices are shared by the workers
	getFunc(F);
	for (auto &fn : *M)
		if (!fn.isDeclaration())
			getFunc(&fn);
	for (size_t i = 0; i < funcs.size(); i++)
		if (funcs[i]->defined)
			ensure(funcs[i]);
	// cover labels: all constant strings passed to sx_cover
	if (Function *cf = M->getFunction("sx_cover"))
		for (auto *u : cf->users())
			if (auto *c = dyn_cast<CallInst>(u)) {
				auto *a = c->getArgOperand(0)->stripPointerCasts();
				StringRef str;
				if (auto *gv = dyn_cast<GlobalVariable>(a))
					if (auto *cd = dyn_cast<ConstantDataArray>(gv->getInitializer()))
						str = cd->isCString() ? cd->getAsCString() : cd->getAsString();
				if (!covidx.count(str.str())) {
					covidx[str.str()] = (u32)covlabels.size();
					covlabels.push_back(str.str());
				}
			}
	cov = (u8 *)mmap(0, ncov + 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	SH = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	shst = (Stats *)mmap(0, sizeof(Stats) * NSLOT, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	ST = &shst[0];
	z3init();

	State *s0 = new State;
	s0->ob = ginit;
	Func *hf = fmap[F];
	std::vector<V> noargs;
	callFunc(*s0, hf, noargs, -1, 0);
	work.push_back(s0);
	std::string tmp = opt_out + ".w";
	tmpfile_name = tmp;
	close(open(tmp.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644));
	if (!opt_wit.empty() && (witf = open(opt_wit.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644)) < 0)
		die("cannot write %s", opt_wit.c_str());
	prctl(PR_SET_CHILD_SUBREAPER, 1);
	SH->active = 1;
	SH->slots = 2;
	bool bad = false;
	fflush(stdout);
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	pid_t p0 = fork();
	if (p0 < 0)
		die("fork");
	setpgid(p0, p0);
	if (p0 == 0) {
		setpgid(0, 0);
		lifeline();
		ST = &shst[1];
		worker();
	}
	bool killed = false;
	for (;;) {
		int st;
		pid_t q = waitpid(-1, &st, WNOHANG);
		if (q < 0)
			break;
		if (q > 0) {
			if (!killed && (!WIFEXITED(st) || WEXITSTATUS(st) != 0)) {
				bad = true;
				SH->stop = 1;
			}
			continue;
		}
		// a worker may be inside one long solver call
		if (!killed && (now() - t_start > opt_timeout + 10 || (SH->viol_at != 0 && now() - SH->viol_at > 25))) {
			killed = true;
			inconclusive = true;
			inconclusive_why = "time limit";
			kill(-p0, SIGKILL);
		}
		usleep(killed ? 1000 : 20000);
	}
	u64 nw = std::min<u64>(SH->slots, NSLOT);
	for (u64 w = 1; w < nw; w++) {
		u64 *d = (u64 *)&shst[0], *x = (u64 *)&shst[w];
		for (size_t i = 0; i < sizeof(Stats) / 8; i++)
			d[i] = (&d[i] == &shst[0].maxdepth) ? std::max(d[i], x[i]) : d[i] + x[i];
	}
	{
		FILE *o = fopen(tmp.c_str(), "r");
		if (!o)
			die("no results");
		char *line = nullptr;
		size_t cap = 0;
		while (getline(&line, &cap, o) > 0) {
			std::string L = line;
			if (!L.empty() && L.back() == '\n')
				L.pop_back();
			std::vector<std::string> p;
			size_t a = 0;
			for (;;) {
				size_t b = L.find('\t', a);
				p.push_back(L.substr(a, b == std::string::npos ? b : b - a));
				if (b == std::string::npos)
					break;
				a = b + 1;
			}
			if (p[0] == "V" && p.size() == 5) {
				Viol v;
				v.kind = p[1];
				v.msg = p[2];
				v.where = p[3];
				if (p[4] != "-")
					for (size_t i = 0; i + 1 < p[4].size(); i += 2)
						v.wit.push_back((u8)strtol(p[4].substr(i, 2).c_str(), 0, 16));
				viols.push_back(v);
			} else if (p[0] == "M" && p.size() == 3)
				msgstat[p[1]] += strtoull(p[2].c_str(), 0, 10);
			else if (p[0] == "I") {
				inconclusive = true;
				inconclusive_why = p[1];
			}
		}

		free(line);
		fclose(o);
		unlink(tmp.c_str());
	}
	if (bad) {
		inconclusive = true;
		inconclusive_why = "a worker died";
	}
	FILE *o = fopen(opt_out.c_str(), "w");
	if (!o)
		die("cannot write %s", opt_out.c_str());
	Stats &t = shst[0];
	fprintf(o, "{\n \"status\": \"%s\",\n", viols.empty() ? (inconclusive ? "inconclusive" : "holds") : "violated");
	if (inconclusive)
		fprintf(o, " \"why\": \"%s\",\n", jesc(inconclusive_why).c_str());
	fprintf(o, " \"paths\": %llu, \"completed\": %llu, \"assumed_out\": %llu, \"forks\": %llu, \"branches\": %llu, \"addr_forks\": %llu,\n",
	        (unsigned long long)t.paths, (unsigned long long)t.completed, (unsigned long long)t.assumed_out, (unsigned long long)t.forks,
	        (unsigned long long)t.branches, (unsigned long long)t.concfork);
	fprintf(o, " \"domain_queries\": %llu, \"z3_queries\": %llu, \"z3_sat\": %llu, \"z3_unsat\": %llu, \"z3_unknown\": %llu, \"z3_seconds\": %.3f,\n",
	        (unsigned long long)t.domq, (unsigned long long)t.z3q, (unsigned long long)t.z3sat, (unsigned long long)t.z3unsat,
	        (unsigned long long)t.z3unk, t.z3_us * 1e-6);
	fprintf(o, " \"assertions_checked\": %llu, \"assertions_proved_symbolically\": %llu, \"instructions\": %llu, \"max_depth\": %llu, \"merged_loads\": %llu,\n",
	        (unsigned long long)t.asserts, (unsigned long long)t.asserts_proved_sym, (unsigned long long)t.insts, (unsigned long long)t.maxdepth,
	        (unsigned long long)t.merged_loads);
	fprintf(o, " \"wall_s\": %.2f, \"workers\": %d, \"query_cache_hits\": %llu, \"audits\": %llu, \"audits_unknown\": %llu, \"audit_seconds\": %.3f,\n",
	        now() - t_start, (int)nw - 1, (unsigned long long)t.qhits, (unsigned long long)t.audits, (unsigned long long)t.audit_unk, t.audit_us * 1e-6);
	fprintf(o, " \"functions\": {");
	bool first = true;
	for (Func *f : funcs)
		if (f->isrepo && f->defined) {
			u32 hit = 0;
			for (auto &I : f->code)
				hit += cov[I.cov];
			if (!hit)
				continue;
			fprintf(o, "%s\n  \"%s\": [%u, %zu]", first ? "" : ",", f->name.c_str(), hit, f->code.size());
			first = false;
		}
	fprintf(o, "},\n \"covered\": [");
	first = true;
	for (size_t i = 0; i < covlabels.size(); i++)
		if (SH->labels[i]) {
			fprintf(o, "%s\"%s\"", first ? "" : ", ", jesc(covlabels[i]).c_str());
			first = false;
		}
	fprintf(o, "],\n \"uncovered\": [");
	first = true;
	for (size_t i = 0; i < covlabels.size(); i++)
		if (!SH->labels[i]) {
			fprintf(o, "%s\"%s\"", first ? "" : ", ", jesc(covlabels[i]).c_str());
			first = false;
		}
	fprintf(o, "],\n \"assertions\": {");
	first = true;
	for (auto &m : msgstat) {
		fprintf(o, "%s\n  \"%s\": %llu", first ? "" : ",", jesc(m.first).c_str(), (unsigned long long)m.second);
		first = false;
	}
	fprintf(o, "},\n \"violations\": [");
	for (size_t i = 0; i < viols.size(); i++)
		fprintf(o, "%s\n  {\"kind\": \"%s\", \"msg\": \"%s\", \"where\": \"%s\", \"witness\": \"%s\"}", i ? "," : "", viols[i].kind.c_str(),
		        jesc(viols[i].msg).c_str(), jesc(viols[i].where).c_str(), hex(viols[i].wit, (int)viols[i].wit.size()).c_str());
	fprintf(o, "]\n}\n");
	fclose(o);
	fflush(stdout);
	_exit(viols.empty() ? (inconclusive ? 4 : 0) : 1);
}
