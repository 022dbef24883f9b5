// irx: exports LLVM IR (after a normalising pass pipeline) as JSON for the Python analyses.
//   irx IN.bc OUT.json [--inline] [--keep REGEX] [--passes PIPE]
// --inline  marks every defined function that does not match --keep as always-inline, so that
//           helper extraction / manual inlining in the source give the same normal form.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/CommandLine.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/Regex.h>
#include <llvm/Support/JSON.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Analysis/CGSCCPassManager.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Analysis/ScalarEvolution.h>
#include <llvm/Analysis/ScalarEvolutionExpressions.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IR/Dominators.h>
#include <llvm/Analysis/AssumptionCache.h>
#include <llvm/Analysis/TargetLibraryInfo.h>
#include <llvm/TargetParser/Triple.h>
#include <optional>
#include <map>
#include <set>
using namespace llvm;

static const DataLayout* DL;
static std::map<const Value*, unsigned> ids;

static std::string tyStr(Type* t)
{
	std::string s;
	raw_string_ostream o(s);
	if (auto* st = dyn_cast<StructType>(t)) {
		if (st->hasName()) return std::string("%") + st->getName().str();
	}
	t->print(o, false, true);
	return o.str();
}

static void locStr(json::OStream& J, const DebugLoc& d)
{
	if (!d) return;
	const DILocation* L = d.get();
	J.attribute("l", (int64_t)L->getLine());
	J.attribute("lf", L->getFilename());
	if (auto* sp = L->getScope()->getSubprogram()) {
		J.attribute("ls", sp->getLinkageName().empty() ? sp->getName() : sp->getLinkageName());
	}
	if (const DILocation* ia = L->getInlinedAt()) {
		J.attributeArray("ia", [&] {
			while (ia) {
				J.value((int64_t)ia->getLine());
				auto* sp = ia->getScope()->getSubprogram();
				J.value(sp ? (sp->getLinkageName().empty() ? sp->getName() : sp->getLinkageName()) : StringRef(""));
				ia = ia->getInlinedAt();
			}
		});
	}
}

static void constant(json::OStream& J, const Constant* c, int depth = 0);

static void operand(json::OStream& J, const Value* v)
{
	if (auto* m = dyn_cast<MetadataAsValue>(v)) { (void)m; J.array([&] { J.value("m"); }); return; }
	if (isa<Instruction>(v)) { J.array([&] { J.value("i"); J.value((int64_t)ids[v]); }); return; }
	if (auto* a = dyn_cast<Argument>(v)) { J.array([&] { J.value("a"); J.value((int64_t)a->getArgNo()); }); return; }
	if (isa<BasicBlock>(v)) { J.array([&] { J.value("b"); J.value((int64_t)ids[v]); }); return; }
	if (auto* c = dyn_cast<Constant>(v)) { constant(J, c); return; }
	J.array([&] { J.value("?"); });
}

static void constant(json::OStream& J, const Constant* c, int depth)
{
	if (auto* ci = dyn_cast<ConstantInt>(c)) {
		J.array([&] {
			J.value("c");
			if (ci->getBitWidth() <= 64) J.value((int64_t)ci->getSExtValue());
			else { SmallString<40> s; ci->getValue().toStringSigned(s); J.value(s.str()); }
			J.value((int64_t)ci->getBitWidth());
		});
	}
	else if (auto* f = dyn_cast<ConstantFP>(c)) {
		SmallString<40> s; f->getValueAPF().toString(s);
		J.array([&] { J.value("fp"); J.value(s.str()); });
	}
	else if (isa<ConstantPointerNull>(c)) J.array([&] { J.value("n"); });
	else if (isa<UndefValue>(c)) J.array([&] { J.value("u"); });
	else if (isa<ConstantAggregateZero>(c)) J.array([&] { J.value("z"); J.value(tyStr(c->getType())); });
	else if (isa<Function>(c)) J.array([&] { J.value("f"); J.value(c->getName()); });
	else if (isa<GlobalVariable>(c)) J.array([&] { J.value("g"); J.value(c->getName()); });
	else if (auto* a = dyn_cast<GlobalAlias>(c)) {
		const GlobalObject* o = a->getAliaseeObject();
		J.array([&] { J.value(isa<Function>(o) ? "f" : "g"); J.value(o->getName()); });
	}
	else if (auto* d = dyn_cast<ConstantDataSequential>(c)) {
		J.array([&] {
			J.value(isa<ConstantDataVector>(c) ? "vec" : "arr");
			for (unsigned i = 0; i < d->getNumElements(); ++i) {
				if (d->getElementType()->isIntegerTy()) J.value((int64_t)d->getElementAsAPInt(i).getSExtValue());
				else J.value(d->getElementAsAPFloat(i).convertToDouble());
			}
		});
	}
	else if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
		J.array([&] {
			J.value(isa<ConstantStruct>(c) ? "agg" : isa<ConstantVector>(c) ? "cvec" : "cagg");
			for (auto& o : ca->operands()) constant(J, cast<Constant>(o.get()), depth + 1);
		});
	}
	else if (auto* e = dyn_cast<ConstantExpr>(c)) {
		J.array([&] {
			J.value("x");
			J.value(e->getOpcodeName());
			if (auto* g = dyn_cast<GEPOperator>(e)) {
				APInt off(64, 0);
				if (g->accumulateConstantOffset(*DL, off)) J.value((int64_t)off.getSExtValue());
				else J.value(nullptr);
			}
			else J.value(nullptr);
			for (auto& o : e->operands()) operand(J, o.get());
		});
	}
	else J.array([&] { J.value("?"); });
}

static std::string diTy(const DIType* t)
{
	if (!t) return "void";
	if (auto* d = dyn_cast<DIDerivedType>(t)) {
		switch (d->getTag()) {
			case dwarf::DW_TAG_pointer_type: return "ptr " + diTy(d->getBaseType());
			case dwarf::DW_TAG_reference_type: return "ref " + diTy(d->getBaseType());
			case dwarf::DW_TAG_rvalue_reference_type: return "rref " + diTy(d->getBaseType());
			case dwarf::DW_TAG_const_type: return "const " + diTy(d->getBaseType());
			case dwarf::DW_TAG_volatile_type: return "volatile " + diTy(d->getBaseType());
			default: return d->getBaseType() && d->getTag() != dwarf::DW_TAG_typedef ? diTy(d->getBaseType()) : d->getName().str();
		}
	}
	return t->getName().str();
}

static const char* ordStr(AtomicOrdering o) { return toIRString(o); }

static void instr(json::OStream& J, Instruction& I)
{
	J.object([&] {
		J.attribute("id", (int64_t)ids[&I]);
		J.attribute("op", I.getOpcodeName());
		if (!I.getType()->isVoidTy()) J.attribute("t", tyStr(I.getType()));
		if (I.hasName()) J.attribute("n", I.getName());
		if (auto* cb = dyn_cast<CallBase>(&I)) {
			Value* callee = cb->getCalledOperand()->stripPointerCasts();
			if (auto* ga = dyn_cast<GlobalAlias>(callee)) callee = const_cast<GlobalObject*>(ga->getAliaseeObject());
			if (auto* f = dyn_cast<Function>(callee)) J.attribute("callee", f->getName());
			else if (isa<InlineAsm>(callee)) {
				J.attribute("callee", "__asm__");
				J.attribute("asm", cast<InlineAsm>(callee)->getAsmString());
				J.attribute("asmc", cast<InlineAsm>(callee)->getConstraintString());
			}
			else { J.attributeBegin("fp"); operand(J, callee); J.attributeEnd(); }
			J.attributeArray("o", [&] { for (auto& a : cb->args()) operand(J, a.get()); });
			if (cb->doesNotThrow()) J.attribute("nounwind", true);
			if (cb->doesNotReturn()) J.attribute("noreturn", true);
			J.attributeArray("pa", [&] { // parameter alignment / byval info
				for (unsigned i = 0; i < cb->arg_size(); ++i) J.value((int64_t)(cb->getParamAlign(i) ? cb->getParamAlign(i)->value() : 0));
			});
			if (auto* iv = dyn_cast<InvokeInst>(&I)) {
				J.attribute("normal", (int64_t)ids[iv->getNormalDest()]);
				J.attribute("unwind", (int64_t)ids[iv->getUnwindDest()]);
			}
		}
		else if (auto* phi = dyn_cast<PHINode>(&I)) {
			J.attributeArray("o", [&] { for (auto& v : phi->incoming_values()) operand(J, v.get()); });
			J.attributeArray("inb", [&] { for (auto* b : phi->blocks()) J.value((int64_t)ids[b]); });
		}
		else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
			J.attributeBegin("o"); J.array([&] { operand(J, sw->getCondition()); }); J.attributeEnd();
			J.attribute("def", (int64_t)ids[sw->getDefaultDest()]);
			J.attributeArray("cases", [&] {
				for (auto& c : sw->cases()) J.array([&] { J.value((int64_t)c.getCaseValue()->getSExtValue()); J.value((int64_t)ids[c.getCaseSuccessor()]); });
			});
		}
		else if (auto* lp = dyn_cast<LandingPadInst>(&I)) {
			J.attribute("cleanup", lp->isCleanup());
			J.attributeArray("o", [&] { for (unsigned i = 0; i < lp->getNumClauses(); ++i) operand(J, lp->getClause(i)); });
		}
		else {
			J.attributeArray("o", [&] { for (auto& o : I.operands()) operand(J, o.get()); });
		}
		if (auto* br = dyn_cast<BranchInst>(&I)) {
			// true destination first
			J.attributeArray("succ", [&] { for (unsigned k = 0; k < br->getNumSuccessors(); ++k) J.value((int64_t)ids[br->getSuccessor(k)]); });
			J.attribute("cond", br->isConditional());
		}
		if (auto* c = dyn_cast<CmpInst>(&I)) J.attribute("pred", CmpInst::getPredicateName(c->getPredicate()));
		if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
			J.attribute("st", tyStr(g->getSourceElementType()));
			J.attribute("es", (int64_t)DL->getTypeAllocSize(g->getSourceElementType()));
			if (g->isInBounds()) J.attribute("inb_", true);
			APInt off(64, 0);
			if (g->accumulateConstantOffset(*DL, off)) J.attribute("off", (int64_t)off.getSExtValue());
			else {
				MapVector<Value*, APInt> vo; APInt co(64, 0);
				if (cast<GEPOperator>(g)->collectOffset(*DL, 64, vo, co)) {
					J.attribute("coff", (int64_t)co.getSExtValue());
					J.attributeArray("voff", [&] { for (auto& p : vo) { J.array([&] { operand(J, p.first); J.value((int64_t)p.second.getSExtValue()); }); } });
				}
			}
		}
		if (auto* l = dyn_cast<LoadInst>(&I)) {
			J.attribute("al", (int64_t)l->getAlign().value());
			J.attribute("sz", (int64_t)DL->getTypeStoreSize(l->getType()));
			if (l->isVolatile()) J.attribute("vol", true);
			if (l->isAtomic()) J.attribute("ord", ordStr(l->getOrdering()));
		}
		if (auto* s = dyn_cast<StoreInst>(&I)) {
			J.attribute("al", (int64_t)s->getAlign().value());
			J.attribute("sz", (int64_t)DL->getTypeStoreSize(s->getValueOperand()->getType()));
			J.attribute("vt", tyStr(s->getValueOperand()->getType()));
			if (s->isVolatile()) J.attribute("vol", true);
			if (s->isAtomic()) J.attribute("ord", ordStr(s->getOrdering()));
		}
		if (auto* r = dyn_cast<AtomicRMWInst>(&I)) {
			J.attribute("rmw", AtomicRMWInst::getOperationName(r->getOperation()));
			J.attribute("ord", ordStr(r->getOrdering()));
			J.attribute("sz", (int64_t)DL->getTypeStoreSize(r->getType()));
		}
		if (auto* r = dyn_cast<AtomicCmpXchgInst>(&I)) {
			J.attribute("ord", ordStr(r->getSuccessOrdering()));
			J.attribute("sz", (int64_t)DL->getTypeStoreSize(r->getNewValOperand()->getType()));
		}
		if (auto* a = dyn_cast<AllocaInst>(&I)) {
			J.attribute("at", tyStr(a->getAllocatedType()));
			if (auto s = a->getAllocationSize(*DL)) J.attribute("sz", (int64_t)s->getFixedValue());
			J.attribute("al", (int64_t)a->getAlign().value());
		}
		if (auto* e = dyn_cast<ExtractValueInst>(&I)) J.attributeArray("idx", [&] { for (unsigned i : e->indices()) J.value((int64_t)i); });
		if (auto* e = dyn_cast<InsertValueInst>(&I)) J.attributeArray("idx", [&] { for (unsigned i : e->indices()) J.value((int64_t)i); });
		if (auto* sv = dyn_cast<ShuffleVectorInst>(&I)) J.attributeArray("mask", [&] { for (int i : sv->getShuffleMask()) J.value((int64_t)i); });
		if (isa<CastInst>(&I)) J.attribute("ft", tyStr(I.getOperand(0)->getType()));
		if (isa<CmpInst>(&I) || isa<SwitchInst>(&I)) J.attribute("ft", tyStr(I.getOperand(0)->getType()));
		if (auto* ob = dyn_cast<OverflowingBinaryOperator>(&I)) {
			if (ob->hasNoUnsignedWrap()) J.attribute("nuw", true);
			if (ob->hasNoSignedWrap()) J.attribute("nsw", true);
		}
		locStr(J, I.getDebugLoc());
	});
}

// ---- extents of accesses to allocated memory, as polynomials over arguments and loaded fields
typedef std::map<std::string, int64_t> Poly;    // monomial (symbols joined by '*', sorted) -> coefficient
struct Ext
{
	Function& F; ScalarEvolution& SE; LoopInfo& LI; DominatorTree& DT;
	const BasicBlock* at = nullptr;
	Ext(Function& f, ScalarEvolution& s, LoopInfo& l, DominatorTree& d) : F(f), SE(s), LI(l), DT(d) {}
	static void acc(Poly& a, const Poly& b, int64_t k) { for (auto& x : b) { a[x.first] += x.second * k; if (!a[x.first]) a.erase(x.first); } }
	static std::string mono(const std::string& a, const std::string& b)
	{
		if (a.empty()) return b;
		if (b.empty()) return a;
		std::vector<std::string> v; SmallVector<StringRef, 4> x; StringRef(a).split(x, '*'); for (auto y : x) v.push_back(y.str()); x.clear(); StringRef(b).split(x, '*'); for (auto y : x) v.push_back(y.str());
		std::sort(v.begin(), v.end());
		std::string r; for (auto& y : v) r += (r.empty() ? "" : "*") + y;
		return r;
	}
	static Poly mul(const Poly& a, const Poly& b) { Poly r; for (auto& x : a) for (auto& y : b) { auto m = mono(x.first, y.first); r[m] += x.second * y.second; if (!r[m]) r.erase(m); } return r; }
	static bool nonneg(const Poly& p) { for (auto& x : p) if (x.second < 0) return false; return true; }
	std::string symOf(const Value* v)
	{
		if (auto* a = dyn_cast<Argument>(v)) return "a" + std::to_string(a->getArgNo());
		if (auto* l = dyn_cast<LoadInst>(v)) {
			APInt off(64, 0);
			const Value* b = l->getPointerOperand()->stripAndAccumulateConstantOffsets(*DL, off, true);
			if (isa<Argument>(b) || isa<LoadInst>(b)) return "ld(" + symOf(b) + "+" + std::to_string(off.getSExtValue()) + ")";
		}
		if (ids.count(v)) return "v" + std::to_string(ids[v]);
		return "?";
	}
	// number of back edges taken before the body of L is last executed in block `at`
	std::optional<Poly> last(const Loop* L)
	{
		SmallVector<BasicBlock*, 4> ex; L->getExitingBlocks(ex);
		std::optional<Poly> best;
		for (auto* e : ex) {
			const SCEV* n = SE.getExitCount(L, e);
			if (isa<SCEVCouldNotCompute>(n)) continue;
			auto p = poly(n, 1);
			if (!p) continue;
			if (at && e != at && DT.dominates(e, at) && L->contains(at)) acc(*p, Poly{{"", 1}}, -1);   // tested before the access
			if (p->empty() || (p->size() == 1 && p->begin()->first.empty())) return p;
			if (!best || p->size() < best->size()) best = p;
		}
		return best;
	}
	struct Term { std::string kind; int64_t c; std::vector<Poly> p; bool operator<(const Term& o) const { return std::tie(kind, c, p) < std::tie(o.kind, o.c, o.p); } };
	std::map<Term, std::string> terms;      // quotients and minima
	std::string intern(const std::string& k, int64_t c, std::vector<Poly> p)
	{
		if (k == "m") std::sort(p.begin(), p.end());
		Term t{k, c, p};
		auto it = terms.find(t);
		if (it != terms.end()) return it->second;
		std::string n = "#" + k + std::to_string(terms.size());
		terms[t] = n;
		return n;
	}
	bool cond = false;      // the access depends on a test of the induction variable
	bool uses(const SCEV* s, const Loop* L)
	{
		if (auto* r = dyn_cast<SCEVAddRecExpr>(s)) if (r->getLoop() == L) return true;
		for (auto* o : s->operands()) if (uses(o, L)) return true;
		return false;
	}
	bool dependsOn(Value* v, const Loop* L, int depth = 0)
	{
		auto* i = dyn_cast<Instruction>(v);
		if (!i || depth > 6) return false;
		if (auto* c = dyn_cast<ICmpInst>(i)) { for (auto* o : {c->getOperand(0), c->getOperand(1)}) if (SE.isSCEVable(o->getType()) && !o->getType()->isPointerTy() && uses(SE.getSCEV(o), L)) return true; return false; }
		for (auto& o : i->operands()) if (o->getType()->isIntegerTy(1) && dependsOn(o, L, depth + 1)) return true;
		return false;
	}
	void guards(const Loop* L)
	{
		for (auto* b : L->blocks()) {
			auto* br = dyn_cast<BranchInst>(b->getTerminator());
			if (!br || !br->isConditional() || b == at || L->isLoopExiting(b) || !DT.dominates(b, at)) continue;
			if (dependsOn(br->getCondition(), L)) cond = true;
		}
	}
	std::optional<Poly> poly(const SCEV* s, int dir)
	{
		switch (s->getSCEVType()) {
			case scConstant: { auto& c = cast<SCEVConstant>(s)->getAPInt(); if (c.getSignificantBits() > 63) return std::nullopt; Poly p; if (!c.isZero()) p[""] = c.getSExtValue(); return p; }
			case scUDivExpr: {
				auto* u = cast<SCEVUDivExpr>(s); auto* c = dyn_cast<SCEVConstant>(u->getRHS());
				if (!c || c->getAPInt().getActiveBits() > 31) return std::nullopt;
				auto p = poly(u->getLHS(), dir); if (!p) return p;
				return Poly{{intern("q", c->getAPInt().getZExtValue(), {*p}), 1}};
			}
			case scUMinExpr: case scSMinExpr: {
				std::vector<Poly> v;
				for (auto* o : cast<SCEVNAryExpr>(s)->operands()) { auto q = poly(o, dir); if (!q) return q; v.push_back(*q); }
				return Poly{{intern("m", 0, v), 1}};
			}
			case scTruncate: if (cast<SCEVCastExpr>(s)->getType()->getIntegerBitWidth() < 32) return std::nullopt; [[fallthrough]];
			case scZeroExtend: case scSignExtend: case scPtrToInt: return poly(cast<SCEVCastExpr>(s)->getOperand(0), dir);
			case scUnknown: { Poly p; p[symOf(cast<SCEVUnknown>(s)->getValue())] = 1; return p; }
			case scAddExpr: { Poly p; for (auto* o : cast<SCEVAddExpr>(s)->operands()) { auto q = poly(o, dir); if (!q) return q; acc(p, *q, 1); } return p; }
			case scMulExpr: {
				Poly p{{"", 1}};
				int64_t c = 1; bool neg = false;
				for (auto* o : cast<SCEVMulExpr>(s)->operands()) if (auto* k = dyn_cast<SCEVConstant>(o)) { c *= k->getAPInt().getSExtValue(); neg = c < 0; }
				for (auto* o : cast<SCEVMulExpr>(s)->operands()) if (!isa<SCEVConstant>(o)) { auto q = poly(o, neg ? -dir : dir); if (!q) return q; p = mul(p, *q); }
				return mul(p, Poly{{"", c}});
			}
			case scAddRecExpr: {
				auto* r = cast<SCEVAddRecExpr>(s);
				if (!r->isAffine()) return std::nullopt;
				auto p = poly(r->getStart(), dir); if (!p) return p;
				auto* st = r->getStepRecurrence(SE);
				auto q = poly(st, dir); if (!q) return q;
				bool up = nonneg(*q), down = true;
				for (auto& x : *q) if (x.second > 0) down = false;
				if (!up && !down) return std::nullopt;
				if (!r->getLoop()->contains(at)) return std::nullopt;
				if ((dir > 0 && up) || (dir < 0 && down)) { auto n = last(r->getLoop()); if (!n) return n; guards(r->getLoop()); acc(*p, mul(*q, *n), 1); }
				return p;
			}
			case scUMaxExpr: case scSMaxExpr: {
				std::optional<Poly> r;
				for (auto* o : cast<SCEVNAryExpr>(s)->operands()) {
					if (auto* c = dyn_cast<SCEVConstant>(o)) if (c->getAPInt().ule(1) || c->getAPInt().isNegative()) continue;
					if (r) return std::nullopt;
					r = poly(o, dir); if (!r) return r;
				}
				return r;
			}
			default: return std::nullopt;
		}
	}
	struct Acc { const CallBase* base; std::set<std::string> alts; int64_t moff; int64_t slack; bool cond; Poly lo, hi; const Instruction* at; bool write; std::string what; };
	std::vector<Acc> accs; unsigned undecided = 0;
	std::set<std::string> alts; int64_t moff = 0;   // buffer held by a member of an object: where the object comes from, offset of the member
	bool origin(const Value* v, const Regex& A, std::set<const Value*>& seen)
	{
		if (!seen.insert(v).second) return true;
		if (isa<ConstantPointerNull>(v)) return true;
		if (isa<SelectInst>(v) || isa<PHINode>(v)) {
			auto* in = cast<Instruction>(v);
			for (unsigned k = isa<SelectInst>(v) ? 1 : 0; k < in->getNumOperands(); ++k) if (!origin(in->getOperand(k), A, seen)) return false;
			return true;
		}
		if (auto* c = dyn_cast<CallBase>(v)) { if (!c->getCalledFunction() || !A.match(c->getCalledFunction()->getName())) return false; alts.insert("c" + std::to_string(ids[c])); return true; }
		if (isa<LoadInst>(v)) { std::string s = symOf(v); alts.insert(s[0] == 'l' ? s : "ld#" + s); return true; }
		return false;
	}
	// base object of a pointer: allocation call, with the offset from it
	bool find(const SCEV* p, const CallBase*& base, std::vector<const SCEV*>& offs, int64_t& slack, const Regex& A, int depth = 0)
	{
		if (depth > 6) return false;
		const SCEV* b = SE.getPointerBase(p);
		auto* u = dyn_cast<SCEVUnknown>(b);
		if (!u) return false;
		offs.push_back(SE.removePointerBase(p));
		const Value* v = u->getValue();
		if (auto* c = dyn_cast<CallBase>(v)) { base = c; return true; }
		if (auto* l = dyn_cast<LoadInst>(v)) {
			APInt off(64, 0);
			const Value* q = l->getPointerOperand()->stripAndAccumulateConstantOffsets(*DL, off, true);
			std::set<const Value*> seen; alts.clear(); moff = off.getSExtValue();
			return origin(q, A, seen) && !alts.empty();
		}
		Type* t64 = Type::getInt64Ty(v->getContext());
		auto total = [&](const std::vector<const SCEV*>& o) { const SCEV* r = SE.getZero(t64); for (auto* x : o) r = SE.getAddExpr(r, SE.getTruncateOrSignExtend(x, t64)); return r; };
		if (isa<SelectInst>(v) || isa<PHINode>(v)) {
			// the same object on every branch; the offsets differ by a constant
			unsigned n = 0; int64_t sl = 0;
			const CallBase* b0 = nullptr; const SCEV* t0 = nullptr;
			auto* in = cast<Instruction>(v);
			for (unsigned k = isa<SelectInst>(v) ? 1 : 0; k < in->getNumOperands(); ++k) {
				if (isa<ConstantPointerNull>(in->getOperand(k)) || in->getOperand(k) == v) continue;
				const CallBase* b1 = nullptr; int64_t s1 = 0; std::vector<const SCEV*> o1;
				if (!find(SE.getSCEV(in->getOperand(k)), b1, o1, s1, A, depth + 1) || !b1) return false;
				const SCEV* t1 = total(o1);
				if (!n) t0 = t1, sl = s1, b0 = b1;
				else {
					auto* d = dyn_cast<SCEVConstant>(SE.getMinusSCEV(t1, t0));
					if (!d || b1 != b0) return false;
					sl = std::max(sl, d->getAPInt().getSExtValue() + s1);
				}
				++n;
			}
			if (!n) return false;
			offs.push_back(t0); slack += sl; base = b0;
			return true;
		}
		if (auto* ip = dyn_cast<IntToPtrInst>(v)) {
			// ((pointer + c1) & mask) + c2; allocations are aligned on 16 bytes
			const Value* x = ip->getOperand(0); int64_t c1 = 0, c2 = 0, mask = -1;
			for (int k = 0; k < 8; ++k) {
				if (auto* bo = dyn_cast<BinaryOperator>(x)) {
					auto* c = dyn_cast<ConstantInt>(bo->getOperand(1));
					if (!c) return false;
					if (bo->getOpcode() == Instruction::And && c->isNegative() && mask == -1) { mask = c->getSExtValue(); x = bo->getOperand(0); continue; }
					if (bo->getOpcode() == Instruction::Add) { (mask == -1 ? c2 : c1) += c->getSExtValue(); x = bo->getOperand(0); continue; }
					return false;
				}
				if (auto* pi = dyn_cast<PtrToIntInst>(x)) {
					std::vector<const SCEV*> o1; int64_t s1 = 0;
					if (!find(SE.getSCEV(const_cast<Value*>(pi->getOperand(0))), base, o1, s1, A, depth + 1) || !base) return false;
					const SCEV* t = total(o1);
					auto p = poly(t, 1);
					bool exact = p && mask >= -16 && !s1;
					int64_t k0 = 0;
					if (p) for (auto& y : *p) { if (y.first.empty()) k0 = y.second; else if (y.second % 16) exact = false; }
					offs.push_back(t);
					slack += s1 + (exact ? ((k0 + c1) & mask) - k0 : c1) + c2;
					return true;
				}
				if (isa<FreezeInst>(x)) { x = cast<Instruction>(x)->getOperand(0); continue; }
				return false;
			}
		}
		return false;
	}
	void one(Value* ptr, const SCEV* len, const Instruction* I, bool write, const std::string& what, const Regex& A)
	{
		const CallBase* base = nullptr; std::vector<const SCEV*> offs; int64_t slack = 0;
		alts.clear();
		if (!find(SE.getSCEV(ptr), base, offs, slack, A)) return;
		if (base ? !base->getCalledFunction() || !A.match(base->getCalledFunction()->getName()) : alts.empty()) return;
		at = I->getParent(); cond = false;
		Poly lo, hi; bool ok = true;
		// the offset and the length together, so that common terms cancel
		const SCEV* sum = nullptr;
		Type* t64 = Type::getInt64Ty(I->getContext());
		for (auto* o : offs) { const SCEV* x = SE.getTruncateOrSignExtend(o, t64); sum = sum ? SE.getAddExpr(sum, x) : x; auto l = poly(o, -1); if (l) acc(lo, *l, 1); else ok = false; }
		const SCEV* end = SE.getAddExpr(sum, SE.getTruncateOrZeroExtend(len, t64));
		auto h = poly(end, 1);
		if (!h || !ok) { ++undecided; return; }
		accs.push_back(Acc{base, alts, moff, slack, cond, lo, *h, I, write, what});
	}
	void run(const Regex& A, const std::map<std::string, std::vector<std::pair<int, int>>>& models)
	{
		Type* t64 = Type::getInt64Ty(F.getContext());
		for (auto& B : F) {
			if (!DT.isReachableFromEntry(&B)) continue;
			for (auto& I : B) {
				if (auto* s = dyn_cast<StoreInst>(&I)) if (s->getValueOperand()->getType()->isPointerTy()) {
					APInt off(64, 0);
					const Value* b = s->getPointerOperand()->stripAndAccumulateConstantOffsets(*DL, off, true);
					if (auto* c = dyn_cast<CallBase>(b)) one(s->getValueOperand(), SE.getConstant(t64, 0), s, false, "ptr:" + std::to_string(ids[c]) + ":" + std::to_string(off.getSExtValue()), A);
				}
				if (auto* r = dyn_cast<ReturnInst>(&I)) if (r->getReturnValue() && r->getReturnValue()->getType()->isPointerTy()) one(r->getReturnValue(), SE.getConstant(t64, 0), r, false, "ret", A);
				if (auto* l = dyn_cast<LoadInst>(&I)) one(l->getPointerOperand(), SE.getConstant(t64, DL->getTypeStoreSize(l->getType())), l, false, "load", A);
				else if (auto* s = dyn_cast<StoreInst>(&I)) one(s->getPointerOperand(), SE.getConstant(t64, DL->getTypeStoreSize(s->getValueOperand()->getType())), s, true, "store", A);
				else if (auto* m = dyn_cast<MemIntrinsic>(&I)) {
					one(m->getRawDest(), SE.getSCEV(m->getLength()), m, true, isa<MemSetInst>(m) ? "memset" : "memcpy", A);
					if (auto* t = dyn_cast<MemTransferInst>(m)) one(t->getRawSource(), SE.getSCEV(t->getLength()), m, false, "memcpy", A);
				}
				else if (auto* c = dyn_cast<CallBase>(&I)) {
					Function* f = c->getCalledFunction();
					if (!f) continue;
					auto it = models.find(f->getName().str());
					if (it == models.end()) continue;
					for (auto& x : it->second) one(c->getArgOperand(x.first), SE.getSCEV(c->getArgOperand(x.second)), c, true, f->getName().str(), A);
				}
			}
		}
	}
	static void json(json::OStream& J, const Poly& p) { J.array([&] { for (auto& x : p) J.array([&] { J.value(x.first); J.value(x.second); }); }); }
};

int main(int argc, char** argv)
{
	std::string in = argv[1], out = argv[2], passes, keep, roots, drop, extents;
	std::map<std::string, std::vector<std::pair<int, int>>> emodels;
	std::vector<std::string> lo;
	bool inl = false;
	for (int i = 3; i < argc; ++i) {
		std::string a = argv[i];
		if (a == "--inline") inl = true;
		else if (a == "--keep") keep = argv[++i];
		else if (a == "--passes") passes = argv[++i];
		else if (a == "--roots") roots = argv[++i]; // only emit functions matching
		else if (a == "--llvm") lo.push_back(argv[++i]); // option of the LLVM libraries
		else if (a == "--extents") extents = argv[++i]; // allocating functions
		else if (a == "--extmodel") { std::string n = argv[++i]; int p = atoi(argv[++i]); int q = atoi(argv[++i]); emodels[n].push_back({p, q}); } // call with pointer and length arguments
		else if (a == "--drop") drop = argv[++i];   // do not emit functions matching
	}
	if (!lo.empty()) {
		std::vector<const char*> av{"irx"};
		for (auto& x : lo) av.push_back(x.c_str());
		cl::ParseCommandLineOptions((int)av.size(), av.data());
	}
	LLVMContext C;
	SMDiagnostic err;
	auto M = parseIRFile(in, err, C);
	if (!M) { err.print("irx", errs()); return 2; }
	DL = &M->getDataLayout();

	Regex K(keep), R(roots), D(drop);
	if (inl) {
		// direct-recursion detection: a function in a call-graph cycle cannot be inlined
		for (auto& F : *M) {
			if (F.isDeclaration()) continue;
			F.removeFnAttr(Attribute::OptimizeNone);
			if (!keep.empty() && K.match(F.getName())) { F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline); continue; }
			F.removeFnAttr(Attribute::NoInline);
			F.addFnAttr(Attribute::AlwaysInline);
		}
		for (auto& F : *M) for (auto& B : F) for (auto& I : B) if (auto* cb = dyn_cast<CallBase>(&I)) {
			Function* f = cb->getCalledFunction();
			if (f && !f->isDeclaration() && f->hasFnAttribute(Attribute::AlwaysInline)) cb->removeFnAttr(Attribute::NoInline);
		}
	}
	// target-feature mismatches must not block inlining: unify
	{
		for (auto& F : *M) { F.removeFnAttr("target-features"); F.removeFnAttr("target-cpu"); F.removeFnAttr("tune-cpu"); }
	}
	if (!passes.empty() || inl) {
		PassBuilder PB;
		LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
		PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
		PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
		ModulePassManager MPM;
		std::string p = inl ? "always-inline" : "";
		if (!passes.empty()) { if (!p.empty()) p += ","; p += passes; }
		if (auto e = PB.parsePassPipeline(MPM, p)) { errs() << "bad pipeline: " << toString(std::move(e)) << "\n"; return 2; }
		MPM.run(*M, MAM);
	}

	std::error_code ec;
	raw_fd_ostream os(out, ec);
	json::OStream J(os);
	J.object([&] {
		J.attributeObject("structs", [&] {
			std::vector<StructType*> sts = M->getIdentifiedStructTypes();
			for (auto* st : sts) {
				if (!st->hasName() || st->isOpaque()) continue;
				const StructLayout* sl = DL->getStructLayout(st);
				J.attributeObject((std::string("%") + st->getName().str()), [&] {
					J.attribute("size", (int64_t)sl->getSizeInBytes());
					J.attributeArray("el", [&] { for (unsigned i = 0; i < st->getNumElements(); ++i) J.array([&] { J.value((int64_t)sl->getElementOffset(i)); J.value(tyStr(st->getElementType(i))); }); });
				});
			}
		});
		J.attributeArray("ditypes", [&] {
			DebugInfoFinder F; F.processModule(*M);
			for (auto* t : F.types()) if (auto* ct = dyn_cast<DICompositeType>(t)) {
				if (ct->getTag() != dwarf::DW_TAG_structure_type && ct->getTag() != dwarf::DW_TAG_class_type && ct->getTag() != dwarf::DW_TAG_union_type) continue;
				std::string full = ct->getName().str();
				for (auto* s = ct->getScope(); s; s = s->getScope()) {
					if (isa<DIFile>(s) || isa<DICompileUnit>(s)) break;
					if (!s->getName().empty()) full = s->getName().str() + "::" + full;
				}
				J.object([&] {
					J.attribute("name", full);
					J.attribute("size", (int64_t)ct->getSizeInBits() / 8);
					J.attribute("file", ct->getFilename());
					J.attribute("line", (int64_t)ct->getLine());
					J.attributeArray("m", [&] {
						for (auto* e : ct->getElements()) if (auto* d = dyn_cast_or_null<DIDerivedType>(e)) {
							if (d->getTag() != dwarf::DW_TAG_member && d->getTag() != dwarf::DW_TAG_inheritance) continue;
							if (d->isStaticMember()) continue;
							J.array([&] {
								J.value(d->getTag() == dwarf::DW_TAG_inheritance ? StringRef("<base>") : d->getName());
								J.value((int64_t)d->getOffsetInBits() / 8);
								J.value((int64_t)(d->getBaseType() ? d->getBaseType()->getSizeInBits() / 8 : 0));
								J.value(d->getBaseType() ? d->getBaseType()->getName() : StringRef(""));
							});
						}
					});
				});
			}
		});
		J.attributeArray("globals", [&] {
			for (auto& G : M->globals()) J.object([&] {
				J.attribute("name", G.getName());
				J.attribute("dem", demangle(G.getName().str()));
				J.attribute("const", G.isConstant());
				J.attribute("tls", G.isThreadLocal());
				J.attribute("decl", G.isDeclaration());
				J.attribute("linkage", G.hasLocalLinkage() ? "local" : "ext");
				J.attribute("t", tyStr(G.getValueType()));
				J.attribute("sz", (int64_t)(G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()).getFixedValue() : 0));
				J.attribute("al", (int64_t)(G.getAlign() ? G.getAlign()->value() : 0));
				if (G.hasInitializer()) { J.attributeBegin("init"); constant(J, G.getInitializer()); J.attributeEnd(); }
				SmallVector<DIGlobalVariableExpression*, 1> gs; G.getDebugInfo(gs);
				if (!gs.empty()) { J.attribute("lf", gs[0]->getVariable()->getFilename()); J.attribute("l", (int64_t)gs[0]->getVariable()->getLine()); J.attribute("dn", gs[0]->getVariable()->getName()); 
				  if (auto* s = gs[0]->getVariable()->getScope()) if (auto* sp = dyn_cast<DILocalScope>(s)) J.attribute("dscope", sp->getSubprogram()->getName()); }
			});
		});
		J.attributeArray("functions", [&] {
			for (auto& F : *M) {
				if (!F.isDeclaration() && !roots.empty() && !R.match(F.getName())) continue;
				if (!F.isDeclaration() && !drop.empty() && D.match(F.getName())) continue;
				J.object([&] {
					J.attribute("name", F.getName());
					J.attribute("dem", demangle(F.getName().str()));
					J.attribute("decl", F.isDeclaration());
					J.attribute("nounwind", F.doesNotThrow());
					J.attribute("noreturn", F.doesNotReturn());
					J.attribute("rt", tyStr(F.getReturnType()));
					J.attribute("local", F.hasLocalLinkage());
					J.attribute("vararg", F.isVarArg());
					J.attribute("addrtaken", F.hasAddressTaken(nullptr, false, true, true));
					if (auto* sp = F.getSubprogram()) { J.attribute("file", sp->getFilename()); J.attribute("line", (int64_t)sp->getLine()); J.attribute("dn", sp->getName()); }
					if (auto* sp = F.getSubprogram()) if (auto* ty = sp->getType()) {
						J.attributeArray("dia", [&] {
							for (auto* t : ty->getTypeArray()) J.value(diTy(t));
						});
					}
					J.attributeArray("args", [&] {
						for (auto& A : F.args()) J.object([&] {
							J.attribute("n", A.getName());
							J.attribute("t", tyStr(A.getType()));
							if (A.hasStructRetAttr()) J.attribute("sret", true);
							if (A.hasByValAttr()) J.attribute("byval", true);
						});
					});
					if (F.isDeclaration()) return;
					ids.clear();
					unsigned n = 0, b = 0;
					for (auto& B : F) { ids[&B] = b++; for (auto& I : B) ids[&I] = n++; }
					if (!extents.empty()) {
						TargetLibraryInfoImpl TLII(Triple(M->getTargetTriple())); TargetLibraryInfo TLI(TLII);
						AssumptionCache AC(F); DominatorTree DT(F); LoopInfo LI(DT); ScalarEvolution SE(F, TLI, AC, DT, LI);
						Ext X(F, SE, LI, DT);
						X.run(Regex(extents), emodels);
						J.attribute("extu", (int64_t)X.undecided);
						J.attributeArray("ext", [&] {
							for (auto& a : X.accs) J.object([&] {
								if (a.base) J.attribute("base", (int64_t)ids[a.base]);
								else { J.attributeArray("alts", [&] { for (auto& x : a.alts) J.value(x); }); J.attribute("moff", a.moff); }
								J.attribute("slack", (int64_t)a.slack);
								J.attribute("cond", a.cond);
								J.attribute("i", (int64_t)ids[a.at]);
								J.attribute("w", a.write);
								J.attribute("what", a.what);
								J.attributeBegin("lo"); Ext::json(J, a.lo); J.attributeEnd();
								J.attributeBegin("hi"); Ext::json(J, a.hi); J.attributeEnd();
							});
						});
						// size argument of every allocation
						J.attributeArray("exta", [&] {
							Regex A(extents);
							for (auto& B : F) for (auto& I : B) if (auto* c = dyn_cast<CallBase>(&I)) if (c->getCalledFunction() && A.match(c->getCalledFunction()->getName()) && DT.isReachableFromEntry(&B)) {
								J.object([&] {
									J.attribute("i", (int64_t)ids[c]);
									J.attributeArray("kept", [&] { for (auto* u : c->users()) if (auto* st = dyn_cast<StoreInst>(u)) if (st->getValueOperand() == c) {
										APInt off(64, 0);
										const Value* b = st->getPointerOperand()->stripAndAccumulateConstantOffsets(*DL, off, true);
										if (isa<Argument>(b) || isa<LoadInst>(b)) J.value("ld(" + X.symOf(b) + "+" + std::to_string(off.getSExtValue()) + ")");
									} });
									J.attributeArray("args", [&] { for (auto& o : c->args()) { X.at = &B; if (!o->getType()->isIntegerTy()) { J.value(nullptr); continue; } auto p = X.poly(SE.getSCEV(o), -1); if (p) Ext::json(J, *p); else J.value(nullptr); } });
								});
							}
						});
						J.attributeObject("extt", [&] {
							for (auto& t : X.terms) J.attributeArray(t.second, [&] { J.value(t.first.kind); J.value(t.first.c); for (auto& p : t.first.p) Ext::json(J, p); });
						});
					}
					J.attributeArray("blocks", [&] {
						for (auto& B : F) J.array([&] {
							for (auto& I : B) {
								if (isa<DbgInfoIntrinsic>(&I)) continue;
								if (auto* ii = dyn_cast<IntrinsicInst>(&I)) if (ii->isLifetimeStartOrEnd()) continue;
								instr(J, I);
							}
						});
					});
				});
			}
		});
	});
	os << "\n";
	return 0;
}
