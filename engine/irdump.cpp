// irdump: dump an LLVM module as JSON for the Python analyses (see DESIGN.md).
// Reads LLVM IR (bitcode or text), writes one JSON document on stdout.  It only reads the module.
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/GlobalVariable.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace llvm;
using json::Array;
using json::Object;
using JV = json::Value;

static const DataLayout *DL;
static std::map<const Value *, int> ids;
static std::map<const BasicBlock *, int> bbs;

static std::string tystr(Type *t) {
	std::string s;
	raw_string_ostream o(s);
	if (auto *st = dyn_cast<StructType>(t)) {
		o << "struct:" << (st->hasName() ? st->getName() : "anon");
	} else
		t->print(o);
	return o.str();
}
static int64_t tysize(Type *t) { return t->isSized() ? (int64_t)DL->getTypeAllocSize(t).getFixedValue() : -1; }

static JV oper(const Value *v);

static JV constant(const Constant *c) {
	if (auto *ci = dyn_cast<ConstantInt>(c)) {
		if (ci->getBitWidth() <= 64) return Array{"i", (int64_t)ci->getBitWidth(), ci->getSExtValue()};
		SmallString<64> s;
		ci->getValue().toString(s, 10, true);
		return Array{"I", (int64_t)ci->getBitWidth(), std::string(s.str())};
	}
	if (auto *cf = dyn_cast<ConstantFP>(c)) {
		SmallString<64> s;
		cf->getValueAPF().toString(s);
		return Array{"fp", std::string(s.str())};
	}
	if (isa<ConstantPointerNull>(c)) return Array{"null"};
	if (isa<UndefValue>(c)) return Array{"undef"};
	if (isa<ConstantAggregateZero>(c)) return Array{"zero"};
	if (auto *f = dyn_cast<Function>(c)) return Array{"f", f->getName()};
	if (auto *a = dyn_cast<GlobalAlias>(c)) return constant(a->getAliasee());
	if (auto *g = dyn_cast<GlobalVariable>(c)) return Array{"g", g->getName(), 0};
	if (auto *ce = dyn_cast<ConstantExpr>(c)) {
		if (ce->getOpcode() == Instruction::GetElementPtr) {
			APInt off(64, 0);
			auto *base = ce->stripAndAccumulateConstantOffsets(*DL, off, true);
			if (auto *g = dyn_cast<GlobalVariable>(base)) return Array{"g", g->getName(), off.getSExtValue()};
			if (isa<ConstantPointerNull>(base)) return Array{"i", 64, off.getSExtValue()};
		}
		if (ce->isCast()) {
			Array a{"ce", std::string(ce->getOpcodeName())};
			a.push_back(constant(cast<Constant>(ce->getOperand(0))));
			return a;
		}
	}
	std::string s;
	raw_string_ostream o(s);
	c->print(o);
	return Array{"c?", o.str()};
}

static JV oper(const Value *v) {
	if (auto *c = dyn_cast<Constant>(v)) return constant(c);
	if (auto *b = dyn_cast<BasicBlock>(v)) return Array{"bb", bbs[b]};
	if (auto *a = dyn_cast<Argument>(v)) return Array{"a", (int64_t)a->getArgNo()};
	if (isa<InlineAsm>(v)) return Array{"asm"};
	if (isa<MetadataAsValue>(v)) return Array{"md"};
	auto it = ids.find(v);
	if (it != ids.end()) return Array{"v", it->second};
	return Array{"?"};
}

// flatten an initializer: [offset, size, value]
static void flat(const Constant *c, int64_t off, Array &out) {
	Type *t = c->getType();
	if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
	if (auto *ds = dyn_cast<ConstantDataSequential>(c)) {
		if (ds->isString()) {
			std::string hex;
			for (unsigned char ch : ds->getAsString()) {
				char b[3];
				snprintf(b, 3, "%02x", ch);
				hex += b;
			}
			out.push_back(Array{off, (int64_t)ds->getNumElements(), Array{"s", hex}});
			return;
		}
		int64_t es = tysize(ds->getElementType());
		for (unsigned i = 0; i < ds->getNumElements(); ++i) flat(ds->getElementAsConstant(i), off + i * es, out);
		return;
	}
	if (auto *ca = dyn_cast<ConstantArray>(c)) {
		int64_t es = tysize(ca->getType()->getElementType());
		for (unsigned i = 0; i < ca->getNumOperands(); ++i) flat(ca->getOperand(i), off + i * es, out);
		return;
	}
	if (auto *cs = dyn_cast<ConstantStruct>(c)) {
		auto *sl = DL->getStructLayout(cs->getType());
		for (unsigned i = 0; i < cs->getNumOperands(); ++i)
			flat(cs->getOperand(i), off + (int64_t)sl->getElementOffset(i).getFixedValue(), out);
		return;
	}
	out.push_back(Array{off, tysize(t), constant(c)});
}

static std::string ditname(const DIType *t, int depth = 0) {
	if (!t) return "void";
	if (depth > 6) return "...";
	if (auto *d = dyn_cast<DIDerivedType>(t)) {
		if (d->getTag() == dwarf::DW_TAG_pointer_type) return ditname(d->getBaseType(), depth + 1) + "*";
		if (d->getTag() == dwarf::DW_TAG_const_type || d->getTag() == dwarf::DW_TAG_volatile_type) return ditname(d->getBaseType(), depth + 1);
		if (d->getTag() == dwarf::DW_TAG_typedef) return d->getName().str();
		return ditname(d->getBaseType(), depth + 1);
	}
	if (auto *c = dyn_cast<DICompositeType>(t)) {
		if (c->getTag() == dwarf::DW_TAG_array_type) return ditname(c->getBaseType(), depth + 1) + "[]";
		return c->getName().empty() ? "anon" : c->getName().str();
	}
	if (isa<DISubroutineType>(t)) return "fn";
	return t->getName().str();
}
static const DICompositeType *strip(const DIType *t) {
	while (t) {
		if (auto *c = dyn_cast<DICompositeType>(t)) return c;
		auto *d = dyn_cast<DIDerivedType>(t);
		if (!d) return nullptr;
		if (d->getTag() == dwarf::DW_TAG_pointer_type) return nullptr;
		t = d->getBaseType();
	}
	return nullptr;
}
static void members(const DICompositeType *c, int64_t base, const std::string &pre, Array &out, int depth = 0) {
	if (depth > 5) return;
	for (auto *e : c->getElements()) {
		auto *m = dyn_cast<DIDerivedType>(e);
		if (!m || m->getTag() != dwarf::DW_TAG_member) continue;
		int64_t off = base + (int64_t)m->getOffsetInBits() / 8;
		std::string name = pre + m->getName().str();
		auto *sub = strip(m->getBaseType());
		if (sub && (sub->getTag() == dwarf::DW_TAG_structure_type || sub->getTag() == dwarf::DW_TAG_union_type)) {
			out.push_back(Array{off, (int64_t)m->getSizeInBits() / 8, name, ditname(m->getBaseType())});
			members(sub, off, m->getName().empty() ? pre : name + ".", out, depth + 1);
		} else
			out.push_back(Array{off, (int64_t)m->getSizeInBits() / 8, name, ditname(m->getBaseType())});
	}
}

int main(int argc, char **argv) {
	LLVMContext ctx;
	SMDiagnostic err;
	auto M = parseIRFile(argv[1], err, ctx);
	if (!M) {
		err.print("irdump", errs());
		return 2;
	}
	DL = &M->getDataLayout();
	Object root;
	Array globals, funcs;
	for (auto &g : M->globals()) {
		Object o{{"name", g.getName()}, {"size", tysize(g.getValueType())}, {"const", g.isConstant()}, {"tls", g.isThreadLocal()}, {"internal", g.hasLocalLinkage()}, {"decl", g.isDeclaration()}, {"ty", tystr(g.getValueType())}};
		SmallVector<DIGlobalVariableExpression *, 1> gv;
		g.getDebugInfo(gv);
		if (!gv.empty()) {
			auto *v = gv[0]->getVariable();
			o["dname"] = v->getName();
			o["file"] = v->getFilename();
			o["line"] = (int64_t)v->getLine();
			o["dty"] = ditname(v->getType());
			if (auto *sc = dyn_cast_or_null<DISubprogram>(v->getScope())) o["scope"] = sc->getName();
			else if (auto *lb = dyn_cast_or_null<DILocalScope>(v->getScope())) o["scope"] = lb->getSubprogram()->getName();
		}
		if (g.hasInitializer()) {
			Array init;
			flat(g.getInitializer(), 0, init);
			o["init"] = std::move(init);
		}
		globals.push_back(std::move(o));
	}
	for (auto &f : *M) {
		if (f.isIntrinsic()) continue;
		Object o{{"name", f.getName()}, {"decl", f.isDeclaration()}, {"internal", f.hasLocalLinkage()}, {"ret", tystr(f.getReturnType())}, {"noreturn", f.doesNotReturn()}, {"vararg", f.isVarArg()}};
		if (auto *sp = f.getSubprogram()) {
			o["file"] = sp->getFilename();
			o["line"] = (int64_t)sp->getLine();
			o["dname"] = sp->getName();
			Array at;
			if (auto *st = sp->getType())
				for (auto *t : st->getTypeArray()) at.push_back(ditname(t));
			o["dty"] = std::move(at);
		}
		Array args;
		for (auto &a : f.args()) args.push_back(Array{a.getName(), tystr(a.getType())});
		o["args"] = std::move(args);
		ids.clear();
		bbs.clear();
		int n = 0, nb = 0;
		for (auto &b : f) {
			bbs[&b] = nb++;
			for (auto &i : b) ids[&i] = n++;
		}
		Array blocks;
		for (auto &b : f) {
			Array ins;
			for (auto &i : b) {
				if (auto *dv = dyn_cast<DbgVariableIntrinsic>(&i)) {
					Array a{"dbg", dv->getVariable()->getName()};
					if (dv->getNumVariableLocationOps() == 1 && dv->getVariableLocationOp(0)) a.push_back(oper(dv->getVariableLocationOp(0)));
					else a.push_back(Array{"undef"});
					a.push_back(ditname(dv->getVariable()->getType()));
					ins.push_back(Object{{"op", "dbg"}, {"d", std::move(a)}});
					continue;
				}
				if (isa<DbgInfoIntrinsic>(&i)) continue;
				Object x{{"id", ids[&i]}, {"op", i.getOpcodeName()}, {"ty", tystr(i.getType())}};
				if (auto &dl = i.getDebugLoc()) {
					x["l"] = (int64_t)dl.getLine();
					x["c"] = (int64_t)dl.getCol();
					if (auto *sc = dyn_cast_or_null<DIScope>(dl.getScope())) x["fl"] = sc->getFilename();
				}
				Array ops;
				if (auto *ca = dyn_cast<CallBase>(&i)) {
					for (auto &a : ca->args()) ops.push_back(oper(a.get()));
					x["callee"] = oper(ca->getCalledOperand()->stripPointerCasts());
					x["noret"] = ca->doesNotReturn();
				} else if (auto *g = dyn_cast<GetElementPtrInst>(&i)) {
					MapVector<Value *, APInt> vo;
					APInt co(64, 0);
					if (g->collectOffset(*DL, 64, vo, co)) {
						x["off"] = co.getSExtValue();
						Array idx;
						for (auto &p : vo) idx.push_back(Array{oper(p.first), p.second.getSExtValue()});
						x["idx"] = std::move(idx);
					} else
						x["bad"] = true;
					ops.push_back(oper(g->getPointerOperand()));
					x["sty"] = tystr(g->getSourceElementType());
					x["inb"] = g->isInBounds();
				} else if (auto *p = dyn_cast<PHINode>(&i)) {
					for (unsigned k = 0; k < p->getNumIncomingValues(); ++k) ops.push_back(Array{oper(p->getIncomingValue(k)), bbs[p->getIncomingBlock(k)]});
				} else if (auto *s = dyn_cast<SwitchInst>(&i)) {
					ops.push_back(oper(s->getCondition()));
					x["def"] = bbs[s->getDefaultDest()];
					Array cs;
					for (auto &c : s->cases()) cs.push_back(Array{c.getCaseValue()->getSExtValue(), bbs[c.getCaseSuccessor()]});
					x["cases"] = std::move(cs);
				} else if (auto *br = dyn_cast<BranchInst>(&i)) {
					if (br->isConditional()) ops.push_back(oper(br->getCondition()));
					Array ss;
					for (unsigned k = 0; k < br->getNumSuccessors(); ++k) ss.push_back(bbs[br->getSuccessor(k)]);
					x["succ"] = std::move(ss);
				} else {
					for (auto &u : i.operands()) ops.push_back(oper(u.get()));
					if (auto *c = dyn_cast<CmpInst>(&i)) x["pred"] = CmpInst::getPredicateName(c->getPredicate());
					if (auto *c = dyn_cast<CmpInst>(&i)) x["oty"] = tystr(c->getOperand(0)->getType());
					if (auto *al = dyn_cast<AllocaInst>(&i)) {
						x["asize"] = tysize(al->getAllocatedType());
						x["aty"] = tystr(al->getAllocatedType());
					}
					if (auto *st = dyn_cast<StoreInst>(&i)) {
						x["sz"] = tysize(st->getValueOperand()->getType());
						x["vty"] = tystr(st->getValueOperand()->getType());
						x["vol"] = st->isVolatile();
					}
					if (auto *l = dyn_cast<LoadInst>(&i)) {
						x["sz"] = tysize(l->getType());
						x["vol"] = l->isVolatile();
					}
					if (auto *c = dyn_cast<CastInst>(&i)) x["sty"] = tystr(c->getSrcTy());
					if (auto *o2 = dyn_cast<OverflowingBinaryOperator>(&i)) {
						x["nsw"] = o2->hasNoSignedWrap();
						x["nuw"] = o2->hasNoUnsignedWrap();
					}
					if (auto *ev = dyn_cast<ExtractValueInst>(&i)) {
						Array ix;
						for (auto k : ev->indices()) ix.push_back((int64_t)k);
						x["ix"] = std::move(ix);
					}
					if (auto *ev = dyn_cast<InsertValueInst>(&i)) {
						Array ix;
						for (auto k : ev->indices()) ix.push_back((int64_t)k);
						x["ix"] = std::move(ix);
					}
				}
				x["o"] = std::move(ops);
				ins.push_back(std::move(x));
			}
			blocks.push_back(std::move(ins));
		}
		o["blocks"] = std::move(blocks);
		funcs.push_back(std::move(o));
	}
	Object types, enums;
	DebugInfoFinder fi;
	fi.processModule(*M);
	for (auto *t : fi.types()) {
		std::string name;
		const DICompositeType *c = dyn_cast<DICompositeType>(t);
		if (c) name = c->getName().str();
		if (auto *d = dyn_cast<DIDerivedType>(t))
			if (d->getTag() == dwarf::DW_TAG_typedef) {
				name = d->getName().str();
				c = strip(d);
			}
		if (!c || name.empty()) continue;
		if (c->getTag() == dwarf::DW_TAG_enumeration_type) {
			Object e;
			for (auto *el : c->getElements())
				if (auto *en = dyn_cast<DIEnumerator>(el)) e[en->getName()] = en->getValue().getSExtValue();
			enums[name] = std::move(e);
		} else if (c->getTag() == dwarf::DW_TAG_structure_type || c->getTag() == dwarf::DW_TAG_union_type) {
			if (c->isForwardDecl()) continue;
			Array m;
			members(c, 0, "", m);
			types[name] = Object{{"size", (int64_t)c->getSizeInBits() / 8}, {"members", std::move(m)}, {"union", c->getTag() == dwarf::DW_TAG_union_type}};
		}
	}
	Object en2;
	for (auto *cu : fi.compile_units())
		for (auto *et : cu->getEnumTypes())
			for (auto *el : et->getElements())
				if (auto *en = dyn_cast<DIEnumerator>(el)) en2[en->getName()] = en->getValue().getSExtValue();
	root["enumerators"] = std::move(en2);
	root["enums"] = std::move(enums);
	root["types"] = std::move(types);
	root["globals"] = std::move(globals);
	root["functions"] = std::move(funcs);
	outs() << JV(std::move(root)) << "\n";
	return 0;
}
