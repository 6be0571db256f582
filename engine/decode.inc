// ---- decoding LLVM IR into compact form ----
using namespace llvm;
enum DOp : u16 { D_BIN, D_ICMP, D_FBIN, D_FCMP, D_FNEG, D_SELECT, D_CAST, D_LOAD, D_STORE, D_GEP, D_ALLOCA, D_CALL, D_RET, D_BR, D_CBR, D_SWITCH, D_MOVE, D_MOVES, D_UNREACH, D_RMW, D_CMPXCHG, D_NOP, D_EXTEL, D_INSEL, D_UNSUP };
static Module* M; static const DataLayout* DL;
static std::vector<Val> CP; static std::map<u64, i32> CPidx;
static std::unordered_map<Type*, std::vector<FlatElem>*> FLAT;
static std::unordered_map<const Function*, DFunc*> FUNCS; static std::vector<DFunc*> FLIST;
static std::unordered_map<const GlobalValue*, u64> GADDR;

static void flattenInto(Type* t, u32 off, std::vector<FlatElem>& o) {
	if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); ++i) flattenInto(st->getElementType(i), off + sl->getElementOffset(i), o); return; }
	if (auto* at = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); ++i) flattenInto(at->getElementType(), off + i * es, o); return; }
	if (auto* vt = dyn_cast<FixedVectorType>(t)) { u64 es = DL->getTypeStoreSize(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); ++i) flattenInto(vt->getElementType(), off + i * es, o); return; }
	FlatElem e; e.off = off; e.fp = t->isFloatTy() || t->isDoubleTy(); e.ptr = t->isPointerTy();
	if (t->isPointerTy()) e.w = 64; else if (t->isFloatTy()) e.w = 32; else if (t->isDoubleTy()) e.w = 64; else if (t->isIntegerTy() && t->getIntegerBitWidth() <= 64) e.w = t->getIntegerBitWidth(); else e.w = 255; // unsupported
	o.push_back(e);
}
static std::vector<FlatElem>* flat(Type* t) { auto& p = FLAT[t]; if (!p) { p = new std::vector<FlatElem>; if (!t->isVoidTy()) flattenInto(t, 0, *p); } return p; }
static u8 scalarW(Type* t) { return (*flat(t)).empty() ? 0 : (*flat(t))[0].w; }

static u64 constScalar(const Constant* c);
static void constFlat(const Constant* c, std::vector<u64>& o) {
	Type* t = c->getType();
	if (t->isAggregateType() || t->isVectorTy()) {
		unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
		for (unsigned i = 0; i < n; ++i) { Constant* e = c->getAggregateElement(i); if (!e) { fprintf(stderr, "const aggregate\n"); exit(2); } constFlat(e, o); }
		return;
	}
	o.push_back(constScalar(c));
}
static u64 gaddr(const GlobalValue* g);
static u64 constScalar(const Constant* c) {
	if (auto* i = dyn_cast<ConstantInt>(c)) return i->getBitWidth() <= 64 ? i->getZExtValue() : i->getValue().getRawData()[0];
	if (auto* f = dyn_cast<ConstantFP>(c)) { if (f->getType()->isX86_FP80Ty()) return 0; return f->getValueAPF().bitcastToAPInt().getZExtValue(); }
	if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) return 0;
	if (auto* g = dyn_cast<GlobalValue>(c)) { if (auto* a = dyn_cast<GlobalAlias>(g)) return constScalar(a->getAliasee()); return gaddr(g); }
	if (auto* e = dyn_cast<ConstantExpr>(c)) {
		switch (e->getOpcode()) {
		case Instruction::GetElementPtr: { APInt off(64, 0); cast<GEPOperator>(e)->accumulateConstantOffset(*DL, off); return constScalar(e->getOperand(0)) + off.getSExtValue(); }
		case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast: return constScalar(e->getOperand(0)) & mask(scalarW(c->getType()));
		case Instruction::Trunc: return constScalar(e->getOperand(0)) & mask(scalarW(c->getType()));
		case Instruction::Add: return (constScalar(e->getOperand(0)) + constScalar(e->getOperand(1))) & mask(scalarW(c->getType()));
		case Instruction::Sub: return (constScalar(e->getOperand(0)) - constScalar(e->getOperand(1))) & mask(scalarW(c->getType()));
		case Instruction::ICmp: { u64 a = constScalar(e->getOperand(0)), b = constScalar(e->getOperand(1)); switch (e->getPredicate()) { case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; case CmpInst::ICMP_ULT: return a < b; default: break; } break; }
		}
	}
	std::string s; raw_string_ostream os(s); c->print(os); fprintf(stderr, "unsupported constant: %s\n", s.c_str()); return 0;
}
static i32 cpVal(u64 v) { auto it = CPidx.find(v); if (it != CPidx.end()) return it->second; CP.push_back(CV(v)); i32 r = ~(i32)(CP.size() - 1); CPidx[v] = r; return r; }

struct Dec {
	Function& F; DFunc& D; std::unordered_map<const Value*, i32> slot; u32 nregs = 0; std::unordered_map<const BasicBlock*, u32> bbpc; std::vector<std::pair<u32, const BasicBlock*>> fix;
	Dec(Function& f, DFunc& d) : F(f), D(d) {}
	i32 alloc(Type* t) { i32 r = nregs; nregs += flat(t)->size(); return r; }
	i32 opnd(const Value* v) {
		if (auto* c = dyn_cast<Constant>(v)) {
			std::vector<u64> o; constFlat(c, o);
			if (o.size() == 1) return cpVal(o[0]);
			if (o.empty()) return 0;
			i32 r = ~(i32)CP.size(); for (u64 x : o) CP.push_back(CV(x)); return r;
		}
		if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return 0;
		auto it = slot.find(v); if (it != slot.end()) return it->second;
		i32 r = alloc(v->getType()); slot[v] = r; return r;
	}
	i32 edge(const BasicBlock* from, const BasicBlock* to) {
		Edge e; e.target = -1;
		for (auto& p : to->phis()) { Move m; m.dst = opnd(&p); m.src = opnd(p.getIncomingValueForBlock(from)); m.n = flat(p.getType())->size(); if (m.dst != m.src) e.mv.push_back(m); }
		D.edges.push_back(e); i32 id = D.edges.size() - 1; fix.push_back({ (u32)id, to }); return id;
	}
	void decode();
	void inst(const Instruction& I);
};
struct SwitchInfo { std::vector<std::pair<u64, i32>> cases; i32 def; };

static Handler findHandler(const std::string& n);
void Dec::decode() {
	for (auto& a : F.args()) { ArgInfo ai; ai.fl = flat(a.getType()); ai.n = ai.fl->size(); ai.slot = alloc(a.getType()); slot[&a] = ai.slot; ai.byval = 0; ai.w = 0; D.params.push_back(ai); }
	for (auto& bb : F) { bbpc[&bb] = D.code.size(); for (auto& I : bb) inst(I); }
	for (auto& p : fix) D.edges[p.first].target = bbpc[p.second];
	D.nregs = nregs; D.va = F.isVarArg(); D.decoded = true;
}
static u32 lineOf(const Instruction& I) { if (auto& d = I.getDebugLoc()) { const DILocation* l = d.get(); return l->getLine(); } return 0; }
void Dec::inst(const Instruction& I) {
	DInst d; memset(&d, 0, sizeof d); d.line = lineOf(I); Type* T = I.getType();
	d.n = flat(T)->size(); d.w = scalarW(T);
	if (isa<PHINode>(I)) { opnd(&I); return; }
	auto unsup = [&](const char* why) { d.op = D_UNSUP; std::string* s = new std::string(why); raw_string_ostream os(*s); os << ": "; I.print(os); os.flush(); d.x = s; D.code.push_back(d); };
	if (!T->isVoidTy()) d.dst = opnd(&I);
	for (auto& e : *flat(T)) if (e.w == 255) { if (!isa<CallInst>(I)) { unsup("type"); return; } }
	for (auto& op : I.operands()) if (!isa<CallInst>(I) && !op->getType()->isVoidTy() && !op->getType()->isLabelTy() && !op->getType()->isMetadataTy()) for (auto& e : *flat(op->getType())) if (e.w == 255) { unsup("operand type"); return; }
	switch (I.getOpcode()) {
	case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
	case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
		d.op = D_BIN; d.aux = I.getOpcode(); d.a = opnd(I.getOperand(0)); d.b = opnd(I.getOperand(1)); break;
	case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
		d.op = D_FBIN; d.aux = I.getOpcode(); d.a = opnd(I.getOperand(0)); d.b = opnd(I.getOperand(1)); break;
	case Instruction::FNeg: d.op = D_FNEG; d.a = opnd(I.getOperand(0)); break;
	case Instruction::ICmp: d.op = D_ICMP; d.aux = cast<CmpInst>(I).getPredicate(); d.a = opnd(I.getOperand(0)); d.b = opnd(I.getOperand(1)); d.w2 = scalarW(I.getOperand(0)->getType()); break;
	case Instruction::FCmp: d.op = D_FCMP; d.aux = cast<CmpInst>(I).getPredicate(); d.a = opnd(I.getOperand(0)); d.b = opnd(I.getOperand(1)); d.w2 = scalarW(I.getOperand(0)->getType()); break;
	case Instruction::Select: d.op = D_SELECT; d.a = opnd(I.getOperand(0)); d.b = opnd(I.getOperand(1)); d.c = opnd(I.getOperand(2)); d.w2 = I.getOperand(0)->getType()->isVectorTy(); d.x = flat(T); break;
	case Instruction::Freeze: d.op = D_MOVE; d.a = opnd(I.getOperand(0)); break;
	case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP:
		d.op = D_CAST; d.aux = I.getOpcode(); d.a = opnd(I.getOperand(0)); d.w2 = scalarW(I.getOperand(0)->getType()); break;
	case Instruction::PtrToInt: case Instruction::IntToPtr: d.w2 = scalarW(I.getOperand(0)->getType()); d.a = opnd(I.getOperand(0)); d.op = D_CAST; d.aux = d.w < d.w2 ? Instruction::Trunc : Instruction::ZExt; break;
	case Instruction::BitCast: {
		auto* sf = flat(I.getOperand(0)->getType()); auto* df = flat(T); d.a = opnd(I.getOperand(0));
		if (sf->size() == df->size()) { d.op = D_MOVE; break; }
		d.op = D_CAST; d.aux = Instruction::BitCast; d.w2 = (*sf)[0].w; d.c = sf->size(); break; }
	case Instruction::Load: d.op = D_LOAD; d.a = opnd(I.getOperand(0)); d.x = flat(T); break;
	case Instruction::Store: d.op = D_STORE; d.a = opnd(I.getOperand(1)); d.b = opnd(I.getOperand(0)); d.x = flat(I.getOperand(0)->getType()); d.n = flat(I.getOperand(0)->getType())->size(); d.w = scalarW(I.getOperand(0)->getType()); break;
	case Instruction::GetElementPtr: {
		auto& G = cast<GetElementPtrInst>(I); if (T->isVectorTy()) { unsup("vector gep"); return; }
		GepInfo* g = new GepInfo; g->base = opnd(G.getPointerOperand()); g->off = 0;
		Type* cur = G.getSourceElementType(); bool first = true;
		for (auto it = G.idx_begin(); it != G.idx_end(); ++it) {
			Value* ix = *it;
			if (!first && cur->isStructTy()) { unsigned fi = cast<ConstantInt>(ix)->getZExtValue(); g->off += DL->getStructLayout(cast<StructType>(cur))->getElementOffset(fi); cur = cast<StructType>(cur)->getElementType(fi); continue; }
			if (!first) cur = cur->isArrayTy() ? cur->getArrayElementType() : cast<VectorType>(cur)->getElementType();
			u64 es = DL->getTypeAllocSize(cur); first = false;
			if (auto* ci = dyn_cast<ConstantInt>(ix)) g->off += ci->getSExtValue() * (i64)es;
			else g->idx.push_back({ opnd(ix), { scalarW(ix->getType()), (i64)es } });
		}
		d.op = D_GEP; d.x = g; break; }
	case Instruction::Alloca: { auto& A = cast<AllocaInst>(I); d.op = D_ALLOCA; d.x = (void*)(u64)DL->getTypeAllocSize(A.getAllocatedType()); d.a = opnd(A.getArraySize()); d.w2 = scalarW(A.getArraySize()->getType()); break; }
	case Instruction::Ret: d.op = D_RET; if (I.getNumOperands()) { d.a = opnd(I.getOperand(0)); d.n = flat(I.getOperand(0)->getType())->size(); } else d.n = 0; break;
	case Instruction::Br: { auto& B = cast<BranchInst>(I); if (B.isUnconditional()) { d.op = D_BR; d.a = edge(I.getParent(), B.getSuccessor(0)); } else { d.op = D_CBR; d.a = opnd(B.getCondition()); d.b = edge(I.getParent(), B.getSuccessor(0)); d.c = edge(I.getParent(), B.getSuccessor(1)); } break; }
	case Instruction::Switch: { auto& S = cast<SwitchInst>(I); d.op = D_SWITCH; d.a = opnd(S.getCondition()); d.w2 = scalarW(S.getCondition()->getType()); SwitchInfo* si = new SwitchInfo; si->def = edge(I.getParent(), S.getDefaultDest()); for (auto& c : S.cases()) si->cases.push_back({ c.getCaseValue()->getZExtValue(), edge(I.getParent(), c.getCaseSuccessor()) }); d.x = si; break; }
	case Instruction::Unreachable: d.op = D_UNREACH; break;
	case Instruction::ExtractValue: { auto& E = cast<ExtractValueInst>(I); Type* t = E.getAggregateOperand()->getType(); u32 off = 0; for (unsigned ix : E.indices()) { for (unsigned k = 0; k < ix; ++k) off += flat(t->isStructTy() ? t->getStructElementType(k) : t->getArrayElementType())->size(); t = t->isStructTy() ? t->getStructElementType(ix) : t->getArrayElementType(); }
		d.op = D_MOVE; i32 s = opnd(E.getAggregateOperand()); d.a = s >= 0 ? s + (i32)off : ~(~s + (i32)off); break; }
	case Instruction::InsertValue: { auto& E = cast<InsertValueInst>(I); Type* t = E.getAggregateOperand()->getType(); u32 off = 0; for (unsigned ix : E.indices()) { for (unsigned k = 0; k < ix; ++k) off += flat(t->isStructTy() ? t->getStructElementType(k) : t->getArrayElementType())->size(); t = t->isStructTy() ? t->getStructElementType(ix) : t->getArrayElementType(); }
		d.op = D_MOVE; d.a = opnd(E.getAggregateOperand()); D.code.push_back(d);
		DInst e = d; e.dst = d.dst + off; e.a = opnd(E.getInsertedValueOperand()); e.n = flat(E.getInsertedValueOperand()->getType())->size(); D.code.push_back(e); return; }
	case Instruction::ExtractElement: { d.op = D_EXTEL; d.a = opnd(I.getOperand(0)); d.b = opnd(I.getOperand(1)); d.c = flat(I.getOperand(0)->getType())->size(); break; }
	case Instruction::InsertElement: { d.op = D_INSEL; d.a = opnd(I.getOperand(0)); d.b = opnd(I.getOperand(1)); d.c = opnd(I.getOperand(2)); break; }
	case Instruction::ShuffleVector: { auto& S = cast<ShuffleVectorInst>(I); std::vector<Move>* mv = new std::vector<Move>; i32 a = opnd(I.getOperand(0)), b = opnd(I.getOperand(1)); int na = flat(I.getOperand(0)->getType())->size(); auto at = [](i32 s, i32 k) { return s >= 0 ? s + k : ~(~s + k); };
		int k = 0; for (int m : S.getShuffleMask()) { Move x; x.dst = d.dst + k++; x.n = 1; x.src = m < 0 ? cpVal(0) : m < na ? at(a, m) : at(b, m - na); mv->push_back(x); } d.op = D_MOVES; d.x = mv; break; }
	case Instruction::AtomicRMW: { auto& A = cast<AtomicRMWInst>(I); d.op = D_RMW; d.aux = A.getOperation(); d.a = opnd(A.getPointerOperand()); d.b = opnd(A.getValOperand()); break; }
	case Instruction::AtomicCmpXchg: { d.op = D_CMPXCHG; d.a = opnd(I.getOperand(0)); d.b = opnd(I.getOperand(1)); d.c = opnd(I.getOperand(2)); d.w = scalarW(I.getOperand(1)->getType()); break; }
	case Instruction::Fence: return;
	case Instruction::Call: {
		auto& Cl = cast<CallInst>(I); const Function* cf = Cl.getCalledFunction();
		if (!cf) { Value* cv = Cl.getCalledOperand()->stripPointerCastsAndAliases(); cf = dyn_cast<Function>(cv); }
		if (Cl.isInlineAsm()) { D.code.push_back((d.op = D_NOP, d)); return; }
		if (cf && cf->isIntrinsic()) { StringRef n = cf->getName(); if (n.starts_with("llvm.dbg") || n.starts_with("llvm.lifetime") || n.starts_with("llvm.assume") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.invariant") || n.starts_with("llvm.donothing") || n.starts_with("llvm.var.annotation")) return; }
		CallInfo* ci = new CallInfo; ci->f = (Function*)cf; ci->indirect = cf ? 0 : opnd(Cl.getCalledOperand()); ci->df = nullptr; ci->h = nullptr; ci->dst = d.dst; ci->nret = d.n; ci->retw = d.w; ci->retfl = flat(T);
		ci->va = false;
		for (unsigned i = 0; i < Cl.arg_size(); ++i) { ArgInfo ai; Value* v = Cl.getArgOperand(i); if (v->getType()->isMetadataTy()) { ai.fl = flat(Type::getVoidTy(M->getContext())); ai.n = 0; ai.slot = 0; ai.w = 0; } else { ai.fl = flat(v->getType()); ai.n = ai.fl->size(); ai.slot = ai.n ? opnd(v) : 0; ai.w = ai.n ? (*ai.fl)[0].w : 0; } ai.byval = 0; if (Cl.isByValArgument(i)) ai.byval = DL->getTypeAllocSize(Cl.getParamByValType(i)); ci->args.push_back(ai); }
		if (cf) { ci->name = cf->getName().str(); ci->h = findHandler(ci->name); if (!ci->h && !cf->isDeclaration()) { ci->df = nullptr; } }
		d.op = D_CALL; d.x = ci; break; }
	default: unsup("opcode"); return;
	}
	D.code.push_back(d);
}
static DFunc* dfunc(const Function* f) {
	auto it = FUNCS.find(f); DFunc* d = it->second;
	if (!d->decoded) { Dec dec(*(Function*)f, *d); dec.decode(); }
	return d;
}
