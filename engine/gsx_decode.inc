// ---------------------------------------------------------------- decoding
using namespace llvm;

static int nelem(Type *t) {
	if (auto *st = dyn_cast<StructType>(t)) {
		int n = 0;
		for (Type *e : st->elements()) {
			if (e->isAggregateType())
				die("nested aggregate value");
			n++;
		}
		return n;
	}
	if (t->isArrayTy())
		die("array value");
	return t->isVoidTy() ? 0 : 1;
}
static int widthOf(Type *t) {
	if (t->isIntegerTy()) {
		int w = (int)t->getIntegerBitWidth();
		if (w > 64)
			die("integer of %d bits", w);
		return w;
	}
	if (t->isPointerTy())
		return 64;
	if (t->isDoubleTy())
		return 64;
	if (t->isFloatTy())
		return 32;
	if (t->isStructTy() || t->isVoidTy() || t->isMetadataTy() || t->isLabelTy())
		return 0;
	std::string s;
	raw_string_ostream os(s);
	t->print(os);
	die("unsupported type %s", os.str().c_str());
}
static Func *getFunc(const Function *f);
static u64 constVal(const Constant *c) {
	if (auto *ci = dyn_cast<ConstantInt>(c)) {
		if (ci->getBitWidth() > 64)
			die("wide constant");
		return ci->getZExtValue();
	}
	if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c))
		return 0;
	if (auto *cf = dyn_cast<ConstantFP>(c))
		return cf->getValueAPF().bitcastToAPInt().getZExtValue();
	if (auto *gv = dyn_cast<GlobalVariable>(c)) {
		auto it = gaddr.find(gv);
		if (it == gaddr.end())
			die("unknown global %s", gv->getName().str().c_str());
		return it->second;
	}
	if (auto *f = dyn_cast<Function>(c)) {
		Func *fn = getFunc(f);
		size_t i = std::find(funcs.begin(), funcs.end(), fn) - funcs.begin();
		return addrOf(FUNC_ID0 + i);
	}
	if (auto *ce = dyn_cast<ConstantExpr>(c)) {
		if (ce->getOpcode() == Instruction::GetElementPtr) {
			APInt off(64, 0);
			if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off))
				die("constant gep");
			return constVal(ce->getOperand(0)) + (u64)off.getSExtValue();
		}
		u64 a = constVal(ce->getOperand(0));
		switch (ce->getOpcode()) {
		case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr:
			return a;
		case Instruction::Trunc:
			return a & mask(widthOf(ce->getType()));
		case Instruction::Sub:
			return (a - constVal(ce->getOperand(1))) & mask(widthOf(ce->getType()));
		case Instruction::Add:
			return (a + constVal(ce->getOperand(1))) & mask(widthOf(ce->getType()));
		case Instruction::ICmp: {
			u64 b = constVal(ce->getOperand(1));
			if (ce->getPredicate() == CmpInst::ICMP_EQ)
				return a == b;
			if (ce->getPredicate() == CmpInst::ICMP_NE)
				return a != b;
			break;
		}
		}
		std::string s;
		raw_string_ostream os(s);
		ce->print(os);
		die("constant expression %s", os.str().c_str());
	}
	std::string s;
	raw_string_ostream os(s);
	c->print(os);
	die("constant %s", os.str().c_str());
}
static void initBytes(Obj *o, u64 off, const Constant *c) {
	Type *t = c->getType();
	if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c))
		return; // zero filled
	if (auto *cds = dyn_cast<ConstantDataSequential>(c)) {
		u64 es = DL->getTypeAllocSize(cds->getElementType());
		for (unsigned i = 0; i < cds->getNumElements(); i++) {
			u64 v = cds->getElementType()->isFloatingPointTy()
			            ? cds->getElementAsAPFloat(i).bitcastToAPInt().getZExtValue()
			            : cds->getElementAsInteger(i);
			memcpy(&o->d[off + i * es], &v, es);
		}
		return;
	}
	if (auto *ca = dyn_cast<ConstantArray>(c)) {
		u64 es = DL->getTypeAllocSize(ca->getType()->getElementType());
		for (unsigned i = 0; i < ca->getNumOperands(); i++)
			initBytes(o, off + i * es, ca->getOperand(i));
		return;
	}
	if (auto *cs = dyn_cast<ConstantStruct>(c)) {
		const StructLayout *sl = DL->getStructLayout(cs->getType());
		for (unsigned i = 0; i < cs->getNumOperands(); i++)
			initBytes(o, off + sl->getElementOffset(i), cs->getOperand(i));
		return;
	}
	u64 v = constVal(c);
	memcpy(&o->d[off], &v, DL->getTypeStoreSize(t));
}

static const struct {
	const char *n;
	int b;
} bitab[] = {
    {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"free", B_FREE},
    {"memcpy", B_MEMCPY}, {"memmove", B_MEMMOVE}, {"memset", B_MEMSET}, {"strcmp", B_STRCMP},
    {"strncmp", B_STRNCMP}, {"memcmp", B_MEMCMP}, {"bcmp", B_MEMCMP}, {"abort", B_ABORT}, {"sx_byte", B_SXBYTE},
    {"sx_range", B_SXRANGE}, {"sx_choice", B_SXCHOICE}, {"sx_assume", B_SXASSUME},
    {"sx_assert_", B_SXASSERT}, {"sx_observe", B_SXOBSERVE}, {"sx_cover", B_SXCOVER},
    {"sx_done", B_SXDONE}, {"sx_live_heap", B_SXLIVE}, {"sx_conc", B_SXCONC}, {"sx_fail", B_SXFAIL},
    {"sx_is_symbolic", B_SXISSYM}, {"sx_valid", B_SXVALID},
    {"sqrt", B_SQRT}, {"floor", B_FLOOR}, {"ceil", B_CEIL}, {"fabs", B_FABS}, {"pow", B_POW}, {"llvm.sqrt.f64", B_SQRT},
    {"llvm.floor.f64", B_FLOOR}, {"llvm.ceil.f64", B_CEIL}, {"llvm.fabs.f64", B_FABS}, {"__ubsan_handle", B_UBTRAP}};

static int builtinOf(const Function *f) {
	StringRef n = f->getName();
	for (auto &b : bitab)
		if (n == b.n)
			return b.b;
	if (n.starts_with("llvm.")) {
		static const struct {
			const char *p;
			int b;
		} pre[] = {{"llvm.memcpy", B_MEMCPY}, {"llvm.memmove", B_MEMMOVE}, {"llvm.memset", B_MEMSET},
		           {"llvm.lifetime", B_NOP}, {"llvm.dbg", B_NOP}, {"llvm.assume", B_NOP},
		           {"llvm.experimental.noalias", B_NOP}, {"llvm.stackrestore", B_NOP}, {"llvm.va_start", B_VASTART},
		           {"llvm.va_end", B_NOP}, {"llvm.va_copy", B_VACOPY}, {"llvm.umin", B_MINMAX},
		           {"llvm.umax", B_MINMAX}, {"llvm.smin", B_MINMAX}, {"llvm.smax", B_MINMAX},
		           {"llvm.abs", B_ABS}, {"llvm.sadd.with", B_OVF}, {"llvm.ssub.with", B_OVF},
		           {"llvm.smul.with", B_OVF}, {"llvm.uadd.with", B_OVF}, {"llvm.usub.with", B_OVF},
		           {"llvm.umul.with", B_OVF}, {"llvm.usub.sat", B_SAT}, {"llvm.uadd.sat", B_SAT},
		           {"llvm.expect", B_EXPECT}, {"llvm.bswap", B_BSWAP}, {"llvm.ctpop", B_CTPOP},
		           {"llvm.ctlz", B_CTLZ}, {"llvm.cttz", B_CTTZ}, {"llvm.fshl", B_FSHL}, {"llvm.fshr", B_FSHR},
		           {"llvm.objectsize", B_OBJSIZE}, {"llvm.ubsantrap", B_UBTRAP}, {"llvm.trap", B_TRAP}};
		for (auto &p : pre)
			if (n.starts_with(p.p))
				return p.b;
	}
	return 0;
}
static Func *getFunc(const Function *f) {
	auto it = fmap.find(f);
	if (it != fmap.end())
		return it->second;
	Func *fn = new Func;
	fn->name = f->getName().str();
	fn->F = f;
	fn->builtin = builtinOf(f);
	fn->defined = !f->isDeclaration() && !fn->builtin;
	fn->varargs = f->isVarArg();
	if (auto *sp = f->getSubprogram())
		fn->file = (sp->getDirectory() + "/" + sp->getFilename()).str();
	if (auto *sp = f->getSubprogram())
		if (sp->getFilename().starts_with("/"))
			fn->file = sp->getFilename().str();
	fn->isrepo = fn->file.compare(0, opt_repo.size(), opt_repo) == 0;
	fmap[f] = fn;
	funcs.push_back(fn);
	return fn;
}

struct Decoder {
	Func *fn;
	std::unordered_map<const Value *, int> regs;
	std::unordered_map<const BasicBlock *, int> bbs;
	int alloc(const Value *v) {
		auto it = regs.find(v);
		if (it != regs.end())
			return it->second;
		int r = fn->nregs;
		int n = nelem(v->getType());
		fn->nregs += n ? n : 1;
		regs[v] = r;
		return r;
	}
	Opnd op(const Value *v) {
		Opnd o;
		if (auto *c = dyn_cast<Constant>(v)) {
			if (isa<UndefValue>(c))
				o.und = true;
			o.c = c->getType()->isStructTy() ? 0 : constVal(c);
			return o;
		}
		o.reg = alloc(v);
		return o;
	}
	void run() {
		const Function *F = fn->F;
		for (auto &a : F->args())
			fn->argregs.push_back(alloc(&a));
		int n = 0;
		for (auto &bb : *F)
			bbs[&bb] = n++;
		fn->blocks.resize(n);
		for (auto &bb : *F) {
			Block &B = fn->blocks[bbs[&bb]];
			std::map<int, std::vector<Phi>> ph;
			for (auto &p : bb.phis())
				for (unsigned i = 0; i < p.getNumIncomingValues(); i++) {
					int from = bbs[p.getIncomingBlock(i)];
					int d = alloc(&p);
					bool dup = false;
					for (auto &q : ph[from])
						dup |= q.dst == d;
					if (!dup)
						ph[from].push_back(Phi{d, op(p.getIncomingValue(i))});
				}
			for (auto &x : ph)
				B.phis.push_back(x);
			B.start = (int)fn->code.size();
			for (auto &in : bb) {
				if (isa<PHINode>(in))
					continue;
				Inst I;
				decode(in, I);
				if (in.getDebugLoc())
					I.line = in.getDebugLoc().getLine();
				else if (!fn->code.empty())
					I.line = fn->code.back().line;
				if (I.op == I_NOP)
					continue;
				fn->code.push_back(std::move(I));
			}
		}
		fn->cov0 = ncov;
		for (auto &I : fn->code)
			I.cov = ncov++;
	}
	void decode(const Instruction &in, Inst &I) {
		Type *T = in.getType();
		if (!T->isVoidTy())
			I.dst = alloc(&in), I.ndst = nelem(T);
		I.w = (u8)(T->isVoidTy() || T->isStructTy() ? 0 : widthOf(T));
		switch (in.getOpcode()) {
		case Instruction::Add: bin(I, in, E_ADD); break;
		case Instruction::Sub: bin(I, in, E_SUB); break;
		case Instruction::Mul: bin(I, in, E_MUL); break;
		case Instruction::UDiv: bin(I, in, E_UDIV); break;
		case Instruction::SDiv: bin(I, in, E_SDIV); break;
		case Instruction::URem: bin(I, in, E_UREM); break;
		case Instruction::SRem: bin(I, in, E_SREM); break;
		case Instruction::Shl: bin(I, in, E_SHL); break;
		case Instruction::LShr: bin(I, in, E_LSHR); break;
		case Instruction::AShr: bin(I, in, E_ASHR); break;
		case Instruction::And: bin(I, in, E_AND); break;
		case Instruction::Or: bin(I, in, E_OR); break;
		case Instruction::Xor: bin(I, in, E_XOR); break;
		case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
			if (I.w != 64)
				die("float arithmetic");
			I.op = I_FBIN;
			I.k = in.getOpcode();
			I.a = op(in.getOperand(0));
			I.b = op(in.getOperand(1));
			break;
		case Instruction::FNeg:
			I.op = I_FNEG;
			I.a = op(in.getOperand(0));
			break;
		case Instruction::ICmp: {
			auto &c = cast<ICmpInst>(in);
			I.op = I_ICMP;
			I.w2 = (u8)widthOf(c.getOperand(0)->getType());
			I.a = op(c.getOperand(0));
			I.b = op(c.getOperand(1));
			switch (c.getPredicate()) {
			case CmpInst::ICMP_EQ: I.e = E_EQ; break;
			case CmpInst::ICMP_NE: I.e = E_EQ; I.inv = true; break;
			case CmpInst::ICMP_ULT: I.e = E_ULT; break;
			case CmpInst::ICMP_ULE: I.e = E_ULE; break;
			case CmpInst::ICMP_UGT: I.e = E_ULT; std::swap(I.a, I.b); break;
			case CmpInst::ICMP_UGE: I.e = E_ULE; std::swap(I.a, I.b); break;
			case CmpInst::ICMP_SLT: I.e = E_SLT; break;
			case CmpInst::ICMP_SLE: I.e = E_SLE; break;
			case CmpInst::ICMP_SGT: I.e = E_SLT; std::swap(I.a, I.b); break;
			case CmpInst::ICMP_SGE: I.e = E_SLE; std::swap(I.a, I.b); break;
			default: die("icmp");
			}
			break;
		}
		case Instruction::FCmp: {
			auto &c = cast<FCmpInst>(in);
			I.op = I_FCMP;
			I.k = c.getPredicate();
			I.a = op(c.getOperand(0));
			I.b = op(c.getOperand(1));
			break;
		}
		case Instruction::Select:
			if (nelem(T) != 1)
				die("aggregate select");
			I.op = I_SELECT;
			I.a = op(in.getOperand(0));
			I.b = op(in.getOperand(1));
			I.c = op(in.getOperand(2));
			break;
		case Instruction::ZExt: cast1(I, in, I_ZEXT); break;
		case Instruction::SExt: cast1(I, in, I_SEXT); break;
		case Instruction::Trunc: cast1(I, in, I_TRUNC); break;
		case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: {
			int w0 = widthOf(in.getOperand(0)->getType());
			cast1(I, in, w0 == I.w ? I_COPY : w0 < I.w ? I_ZEXT : I_TRUNC);
			break;
		}
		case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI:
		case Instruction::FPExt: case Instruction::FPTrunc:
			I.op = I_FCAST;
			I.k = in.getOpcode();
			I.a = op(in.getOperand(0));
			I.w2 = (u8)widthOf(in.getOperand(0)->getType());
			break;
		case Instruction::Freeze: cast1(I, in, I_COPY); break;
		case Instruction::Alloca: {
			auto &a = cast<AllocaInst>(in);
			I.op = I_ALLOCA;
			I.k = DL->getTypeAllocSize(a.getAllocatedType());
			I.a = op(a.getArraySize());
			break;
		}
		case Instruction::Load:
			I.op = I_LOAD;
			if (T->isStructTy())
				die("aggregate load");
			I.a = op(in.getOperand(0));
			I.k = DL->getTypeStoreSize(T);
			break;
		case Instruction::Store:
			I.op = I_STORE;
			I.a = op(in.getOperand(1));
			I.b = op(in.getOperand(0));
			if (in.getOperand(0)->getType()->isStructTy())
				die("aggregate store");
			I.w = (u8)widthOf(in.getOperand(0)->getType());
			I.k = DL->getTypeStoreSize(in.getOperand(0)->getType());
			break;
		case Instruction::GetElementPtr: {
			auto &g = cast<GEPOperator>(in);
			I.op = I_GEP;
			I.a = op(g.getPointerOperand());
			i64 off = 0;
			for (auto ti = gep_type_begin(g), e = gep_type_end(g); ti != e; ++ti) {
				const Value *idx = ti.getOperand();
				if (StructType *st = ti.getStructTypeOrNull()) {
					off += (i64)(u64)DL->getStructLayout(st)->getElementOffset(
					    (unsigned)cast<ConstantInt>(idx)->getZExtValue());
					continue;
				}
				u64 sz = DL->getTypeAllocSize(ti.getIndexedType());
				if (auto *ci = dyn_cast<ConstantInt>(idx)) {
					off += ci->getSExtValue() * (i64)sz;
					continue;
				}
				I.args.push_back(op(idx));
				I.scale.push_back(sz);
				I.cases.push_back({(u64)widthOf(idx->getType()), 0});
			}
			I.k = (u64)off;
			break;
		}
		case Instruction::Br: {
			auto &b = cast<BranchInst>(in);
			if (b.isConditional()) {
				I.op = I_CBR;
				I.a = op(b.getCondition());
				I.t0 = bbs[b.getSuccessor(0)];
				I.t1 = bbs[b.getSuccessor(1)];
			} else {
				I.op = I_BR;
				I.t0 = bbs[b.getSuccessor(0)];
			}
			break;
		}
		case Instruction::Switch: {
			auto &sw = cast<SwitchInst>(in);
			I.op = I_SWITCH;
			I.a = op(sw.getCondition());
			I.w = (u8)widthOf(sw.getCondition()->getType());
			I.t0 = bbs[sw.getDefaultDest()];
			for (auto &c : sw.cases())
				I.cases.push_back({c.getCaseValue()->getZExtValue(), bbs[c.getCaseSuccessor()]});
			break;
		}
		case Instruction::Ret:
			I.op = I_RET;
			if (in.getNumOperands()) {
				I.a = op(in.getOperand(0));
				I.ndst = nelem(in.getOperand(0)->getType());
				I.k = 1;
			}
			break;
		case Instruction::Unreachable: I.op = I_UNREACH; break;
		case Instruction::ExtractValue: {
			auto &e = cast<ExtractValueInst>(in);
			if (e.getNumIndices() != 1)
				die("extractvalue");
			I.op = I_COPY;
			I.a = op(e.getAggregateOperand());
			if (I.a.reg >= 0)
				I.a.reg += (int)e.getIndices()[0];
			break;
		}
		case Instruction::InsertValue: {
			auto &e = cast<InsertValueInst>(in);
			if (e.getNumIndices() != 1)
				die("insertvalue");
			I.op = I_INSERTV;
			I.a = op(e.getAggregateOperand());
			I.b = op(e.getInsertedValueOperand());
			I.k = e.getIndices()[0];
			break;
		}
		case Instruction::Call: {
			auto &c = cast<CallInst>(in);
			if (c.isInlineAsm())
				die("inline asm in %s", fn->name.c_str());
			for (auto &a : c.args()) {
				if (a->getType()->isMetadataTy())
					break;
				I.args.push_back(op(a.get()));
			}
			const Function *cf = dyn_cast<Function>(c.getCalledOperand()->stripPointerCasts());
			I.op = I_CALL;
			if (cf) {
				Func *t = getFunc(cf);
				if (t->builtin) {
					I.op = t->builtin == B_NOP ? I_NOP : I_BUILTIN;
					I.builtin = t->builtin;
					I.callee = t;
					if (t->builtin == B_MINMAX) {
						StringRef n = cf->getName();
						I.e = n.starts_with("llvm.u") ? E_ULT : E_SLT;
						I.inv = n.substr(6, 3) == "max";
					}
					if (t->builtin == B_OVF || t->builtin == B_SAT) {
						StringRef n = cf->getName();
						I.inv = n.starts_with("llvm.s"); // signed
						StringRef o = n.substr(6, 3);
						I.e = o == "add" ? E_ADD : o == "sub" ? E_SUB : E_MUL;
						I.w = (u8)widthOf(c.getArgOperand(0)->getType());
					}
					if (I.w == 0 && c.arg_size() && !c.getArgOperand(0)->getType()->isMetadataTy())
						I.w2 = (u8)widthOf(c.getArgOperand(0)->getType());
				} else
					I.callee = t;
			} else
				I.a = op(c.getCalledOperand());
			if (T->isVoidTy())
				I.ndst = 0;
			break;
		}
		default: {
			std::string s;
			raw_string_ostream os(s);
			in.print(os);
			die("unsupported instruction %s", os.str().c_str());
		}
		}
	}
	void bin(Inst &I, const Instruction &in, EOp e) {
		I.op = I_BIN;
		I.e = e;
		I.a = op(in.getOperand(0));
		I.b = op(in.getOperand(1));
	}
	void cast1(Inst &I, const Instruction &in, Op o) {
		I.op = o;
		I.a = op(in.getOperand(0));
		I.w2 = (u8)widthOf(in.getOperand(0)->getType());
	}
};
static void ensure(Func *f) {
	if (f->decoded)
		return;
	f->decoded = true;
	Decoder d;
	d.fn = f;
	d.run();
}
