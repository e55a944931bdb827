// irdump: prints an LLVM bitcode module as JSON for the Python analyses.
// Everything is taken from the compiler's own intermediate representation of
// /repo's current source: resolved callees, exceptional edges, destructor calls,
// field names (from debug info), source lines.  No decision is made here.
#include <functional>
#include <llvm/ADT/DenseMap.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/ADT/StringMap.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>
using namespace llvm;
static const DataLayout* DL;
static json::OStream* J;
static std::string tyStr(Type* t) {
    std::string s;
    raw_string_ostream o(s);
    if (auto* st = dyn_cast<StructType>(t)) {
        if (st->hasName()) return "%" + st->getName().str();
    }
    t->print(o, false, true);
    return o.str();
}
static DenseMap<const Value*, int> ids;

static void gepSteps(const GEPOperator* g);
static void operand(const Value* v) {
    auto tag = [&](const char* t, std::function<void()> f) {
        J->arrayBegin();
        J->value(t);
        f();
        J->arrayEnd();
    };
    if (auto* ci = dyn_cast<ConstantInt>(v)) {
        tag("c", [&] {
            if (ci->getBitWidth() <= 64) J->value(ci->getBitWidth() == 1 ? (int64_t)ci->getZExtValue() : ci->getSExtValue());
            else J->value(0);
            J->value((int64_t)ci->getBitWidth());
        });
    } else if (isa<ConstantPointerNull>(v)) tag("null", [] {});
    else if (auto* f = dyn_cast<Function>(v)) tag("fn", [&] { J->value(f->getName()); });
    else if (auto* ga = dyn_cast<GlobalAlias>(v)) {
        const Value* t = ga->getAliasee()->stripPointerCasts();
        if (auto* gv = dyn_cast<GlobalValue>(t)) {
            if (isa<Function>(gv)) tag("fn", [&] { J->value(gv->getName()); });
            else tag("g", [&] { J->value(gv->getName()); });
        } else tag("g", [&] { J->value(ga->getName()); });
    }
    else if (auto* gv = dyn_cast<GlobalVariable>(v)) tag("g", [&] { J->value(gv->getName()); });
    else if (isa<UndefValue>(v)) tag("undef", [] {});
    else if (isa<ConstantAggregateZero>(v)) tag("zero", [] {});
    else if (auto* cf = dyn_cast<ConstantFP>(v)) tag("fp", [&] { J->value(cf->getValueAPF().convertToDouble()); });
    else if (auto* ce = dyn_cast<ConstantExpr>(v)) {
        if (auto* g = dyn_cast<GEPOperator>(ce)) {
            tag("gep", [&] { operand(g->getPointerOperand()); gepSteps(g); });
        } else {
            tag("ce", [&] {
                J->value(ce->getOpcodeName());
                J->arrayBegin();
                for (auto& o : ce->operands()) operand(o.get());
                J->arrayEnd();
            });
        }
    } else if (auto* ca = dyn_cast<ConstantAggregate>(v)) {
        tag("agg", [&] {
            J->arrayBegin();
            for (auto& o : ca->operands()) operand(o.get());
            J->arrayEnd();
        });
    } else if (auto* cda = dyn_cast<ConstantDataSequential>(v)) {
        tag("agg", [&] {
            J->arrayBegin();
            for (unsigned i = 0; i < cda->getNumElements() && i < 64; ++i) operand(cda->getElementAsConstant(i));
            J->arrayEnd();
        });
    } else if (auto* a = dyn_cast<Argument>(v)) tag("a", [&] { J->value((int64_t)a->getArgNo()); });
    else {
        auto it = ids.find(v);
        if (it != ids.end()) tag("i", [&] { J->value(it->second); });
        else tag("other", [] {});
    }
}
static void gepSteps(const GEPOperator* g) {
    J->arrayBegin();
    bool first = true;
    for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
        J->arrayBegin();
        if (StructType* st = it.getStructTypeOrNull()) {
            unsigned idx = (unsigned)cast<ConstantInt>(it.getOperand())->getZExtValue();
            J->value("f");
            J->value(st->hasName() ? st->getName() : StringRef(""));
            J->value((int64_t)idx);
            J->value((int64_t)DL->getStructLayout(st)->getElementOffset(idx));
        } else {
            J->value(first ? "p" : "x");
            operand(it.getOperand());
            J->value((int64_t)DL->getTypeAllocSize(it.getIndexedType()).getFixedValue());
        }
        J->arrayEnd();
        first = false;
    }
    J->arrayEnd();
}
static std::string qual(const DIScope* s) {
    if (!s) return "";
    if (isa<DIFile>(s) || isa<DICompileUnit>(s)) return "";
    std::string n = s->getName().str();
    std::string p = qual(s->getScope());
    if (auto* ns = dyn_cast<DINamespace>(s)) {
        if (ns->getExportSymbols()) return p;  // inline namespace
    }
    if (p.empty()) return n;
    return p + "::" + n;
}
int main(int argc, char** argv) {
    LLVMContext ctx;
    SMDiagnostic err;
    auto m = parseIRFile(argv[1], err, ctx);
    if (!m) {
        err.print("irdump", errs());
        return 2;
    }
    DL = &m->getDataLayout();
    json::OStream js(outs(), 0);
    J = &js;
    // debug-info composites by qualified name
    DebugInfoFinder F;
    F.processModule(*m);
    std::map<std::string, const DICompositeType*> comps;
    for (auto* t : F.types())
        if (auto* c = dyn_cast<DICompositeType>(t))
            if (c->getTag() == dwarf::DW_TAG_class_type || c->getTag() == dwarf::DW_TAG_structure_type)
                if (!c->isForwardDecl()) comps[qual(c)] = c;
    js.objectBegin();
    js.attributeBegin("structs");
    js.objectBegin();
    for (StructType* st : m->getIdentifiedStructTypes()) {
        if (!st->hasName() || st->isOpaque()) continue;
        StringRef n = st->getName();
        std::string q = n.str();
        for (StringRef p : {"class.", "struct."})
            if (n.starts_with(p)) q = n.drop_front(p.size()).str();
        // "%class.X.base" and numeric suffixes
        auto it = comps.find(q);
        if (it == comps.end()) {
            size_t d = q.rfind('.');
            if (d != std::string::npos) it = comps.find(q.substr(0, d));
        }
        js.attributeBegin(n);
        js.objectBegin();
        js.attribute("size", (int64_t)DL->getTypeAllocSize(st).getFixedValue());
        js.attributeBegin("fields");
        js.arrayBegin();
        for (unsigned i = 0; i < st->getNumElements(); ++i) {
            uint64_t off = DL->getStructLayout(st)->getElementOffset(i);
            std::string name, dty;
            if (it != comps.end())
                for (auto* el : it->second->getElements())
                    if (auto* d = dyn_cast<DIDerivedType>(el))
                        if (!d->isStaticMember() && d->getOffsetInBits() == off * 8 &&
                            (d->getTag() == dwarf::DW_TAG_member || d->getTag() == dwarf::DW_TAG_inheritance)) {
                            name = d->getTag() == dwarf::DW_TAG_inheritance ? "<base>" : d->getName().str();
                            if (auto* bt = d->getBaseType()) dty = bt->getName().empty() ? "" : qual(bt);
                        }
            js.arrayBegin();
            js.value(name);
            js.value(tyStr(st->getElementType(i)));
            js.value((int64_t)off);
            js.value(dty);
            js.arrayEnd();
        }
        js.arrayEnd();
        js.attributeEnd();
        js.objectEnd();
        js.attributeEnd();
    }
    js.objectEnd();
    js.attributeEnd();

    js.attributeBegin("globals");
    js.objectBegin();
    for (auto& g : m->globals()) {
        js.attributeBegin(g.getName());
        js.objectBegin();
        js.attribute("const", g.isConstant());
        js.attribute("tls", g.isThreadLocal());
        js.attribute("decl", g.isDeclaration());
        js.attribute("demangled", demangle(g.getName().str()));
        if (g.hasInitializer()) {
            if (auto* cds = dyn_cast<ConstantDataSequential>(g.getInitializer())) {
                if (cds->isString()) {
                    StringRef s = cds->isCString() ? cds->getAsCString() : cds->getAsString();
                    js.attribute("str", json::isUTF8(s) ? s.str() : json::fixUTF8(s));
                }
            }
            else if (isa<ConstantAggregateZero>(g.getInitializer()) && g.getValueType()->isArrayTy())
                js.attribute("str", "");
            else {
                js.attributeBegin("init");
                operand(g.getInitializer());
                js.attributeEnd();
            }
        }
        js.objectEnd();
        js.attributeEnd();
    }
    js.objectEnd();
    js.attributeEnd();

    js.attributeBegin("functions");
    js.objectBegin();
    for (auto& f : *m) {
        js.attributeBegin(f.getName());
        js.objectBegin();
        js.attribute("dem", demangle(f.getName().str()));
        js.attribute("nounwind", f.doesNotThrow());
        js.attribute("noreturn", f.doesNotReturn());
        js.attribute("decl", f.isDeclaration());
        js.attribute("vararg", f.isVarArg());
        js.attribute("ret", tyStr(f.getReturnType()));
        js.attribute("linkage", f.hasLinkOnceLinkage() ? "odr" : f.hasLocalLinkage() ? "local" : "ext");
        if (auto* sp = f.getSubprogram()) {
            js.attribute("file", sp->getFilename().str());
            js.attribute("line", (int64_t)sp->getLine());
            if (auto* ty = sp->getType()) {
                const DIType* rt = ty->getTypeArray().size() ? ty->getTypeArray()[0] : nullptr;
                while (auto* d = dyn_cast_or_null<DIDerivedType>(rt)) {
                    if (d->getTag() != dwarf::DW_TAG_typedef && d->getTag() != dwarf::DW_TAG_const_type) break;
                    rt = d->getBaseType();
                }
                if (auto* b = dyn_cast_or_null<DIBasicType>(rt)) js.attribute("rty", b->getName().str());
            }
        }
        js.attributeBegin("args");
        js.arrayBegin();
        for (auto& a : f.args()) {
            js.arrayBegin();
            js.value(a.getName());
            js.value(tyStr(a.getType()));
            js.value(a.hasStructRetAttr() ? "sret" : a.hasByValAttr() ? "byval" : "");
            js.arrayEnd();
        }
        js.arrayEnd();
        js.attributeEnd();
        if (!f.isDeclaration()) {
            ids.clear();
            int n = 0;
            std::map<const BasicBlock*, int> bid;
            int nb = 0;
            for (auto& b : f) {
                bid[&b] = nb++;
                for (auto& i : b) ids[&i] = n++;
            }
            js.attributeBegin("blocks");
            js.arrayBegin();
            for (auto& b : f) {
                js.arrayBegin();
                for (auto& i : b) {
                    if (isa<DbgInfoIntrinsic>(i)) continue;
                    js.objectBegin();
                    js.attribute("o", i.getOpcodeName());
                    js.attribute("i", ids[&i]);
                    if (!i.getName().empty()) js.attribute("n", i.getName());
                    if (!i.getType()->isVoidTy()) js.attribute("t", tyStr(i.getType()));
                    if (const DebugLoc& dl = i.getDebugLoc()) {
                        js.attribute("l", (int64_t)dl.getLine());
                        auto* sc = dl->getScope();
                        if (sc && f.getSubprogram() && sc->getFilename() != f.getSubprogram()->getFilename())
                            js.attribute("file", sc->getFilename().str());
                    }
                    if (auto* ca = dyn_cast<CastInst>(&i)) js.attribute("st", tyStr(ca->getSrcTy()));
                    if (auto* ob = dyn_cast<OverflowingBinaryOperator>(&i)) js.attribute("nsw", ob->hasNoSignedWrap());
                    if (auto* a = dyn_cast<AllocaInst>(&i)) {
                        js.attribute("at", tyStr(a->getAllocatedType()));
                        js.attribute("sz", (int64_t)DL->getTypeAllocSize(a->getAllocatedType()).getFixedValue());
                    } else if (auto* g = dyn_cast<GetElementPtrInst>(&i)) {
                        js.attributeBegin("p");
                        operand(g->getPointerOperand());
                        js.attributeEnd();
                        js.attributeBegin("s");
                        gepSteps(cast<GEPOperator>(g));
                        js.attributeEnd();
                    } else if (auto* cb = dyn_cast<CallBase>(&i)) {
                        js.attributeBegin("f");
                        const Value* callee = cb->getCalledOperand()->stripPointerCasts();
                        operand(callee);
                        js.attributeEnd();
                        js.attribute("nw", cb->doesNotThrow());
                        if (cb->hasStructRetAttr()) js.attribute("sret", true);
                        js.attributeBegin("a");
                        js.arrayBegin();
                        for (auto& o : cb->args()) operand(o.get());
                        js.arrayEnd();
                        js.attributeEnd();
                        js.attributeBegin("aty");
                        js.arrayBegin();
                        for (auto& o : cb->args()) js.value(tyStr(o->getType()));
                        js.arrayEnd();
                        js.attributeEnd();
                        if (auto* iv = dyn_cast<InvokeInst>(cb)) {
                            js.attribute("nd", bid[iv->getNormalDest()]);
                            js.attribute("ud", bid[iv->getUnwindDest()]);
                        }
                    } else if (auto* br = dyn_cast<BranchInst>(&i)) {
                        if (br->isConditional()) {
                            js.attributeBegin("c");
                            operand(br->getCondition());
                            js.attributeEnd();
                        }
                        js.attributeBegin("d");
                        js.arrayBegin();
                        for (unsigned k = 0; k < br->getNumSuccessors(); ++k) js.value(bid[br->getSuccessor(k)]);
                        js.arrayEnd();
                        js.attributeEnd();
                    } else if (auto* sw = dyn_cast<SwitchInst>(&i)) {
                        js.attributeBegin("c");
                        operand(sw->getCondition());
                        js.attributeEnd();
                        js.attribute("dd", bid[sw->getDefaultDest()]);
                        js.attributeBegin("cs");
                        js.arrayBegin();
                        for (auto& c : sw->cases()) {
                            js.arrayBegin();
                            js.value(c.getCaseValue()->getSExtValue());
                            js.value(bid[c.getCaseSuccessor()]);
                            js.arrayEnd();
                        }
                        js.arrayEnd();
                        js.attributeEnd();
                    } else if (auto* ph = dyn_cast<PHINode>(&i)) {
                        js.attributeBegin("in");
                        js.arrayBegin();
                        for (unsigned k = 0; k < ph->getNumIncomingValues(); ++k) {
                            js.arrayBegin();
                            operand(ph->getIncomingValue(k));
                            js.value(bid[ph->getIncomingBlock(k)]);
                            js.arrayEnd();
                        }
                        js.arrayEnd();
                        js.attributeEnd();
                    } else if (auto* lp = dyn_cast<LandingPadInst>(&i)) {
                        js.attribute("cleanup", lp->isCleanup());
                        js.attributeBegin("cl");
                        js.arrayBegin();
                        for (unsigned k = 0; k < lp->getNumClauses(); ++k) {
                            js.arrayBegin();
                            js.value(lp->isCatch(k) ? "catch" : "filter");
                            operand(lp->getClause(k));
                            js.arrayEnd();
                        }
                        js.arrayEnd();
                        js.attributeEnd();
                    } else {
                        if (auto* c = dyn_cast<CmpInst>(&i))
                            js.attribute("pred", CmpInst::getPredicateName(c->getPredicate()));
                        if (auto* bo = dyn_cast<OverflowingBinaryOperator>(&i))
                            js.attribute("nsw", bo->hasNoSignedWrap());
                        if (auto* ev = dyn_cast<ExtractValueInst>(&i)) {
                            js.attributeBegin("idx");
                            js.arrayBegin();
                            for (unsigned x : ev->indices()) js.value((int64_t)x);
                            js.arrayEnd();
                            js.attributeEnd();
                        }
                        if (auto* iv = dyn_cast<InsertValueInst>(&i)) {
                            js.attributeBegin("idx");
                            js.arrayBegin();
                            for (unsigned x : iv->indices()) js.value((int64_t)x);
                            js.arrayEnd();
                            js.attributeEnd();
                        }
                        if (auto* ai = dyn_cast<AtomicRMWInst>(&i)) js.attribute("rmw", AtomicRMWInst::getOperationName(ai->getOperation()));
                        if (auto* li = dyn_cast<LoadInst>(&i)) if (li->isAtomic()) js.attribute("atomic", true);
                        if (auto* si = dyn_cast<StoreInst>(&i)) { js.attribute("vt", tyStr(si->getValueOperand()->getType())); if (si->isAtomic()) js.attribute("atomic", true); }
                        js.attributeBegin("a");
                        js.arrayBegin();
                        for (auto& o : i.operands()) operand(o.get());
                        js.arrayEnd();
                        js.attributeEnd();
                        if (i.getNumOperands() > 0) js.attribute("ot", tyStr(i.getOperand(0)->getType()));
                    }
                    js.objectEnd();
                }
                js.arrayEnd();
            }
            js.arrayEnd();
            js.attributeEnd();
        }
        js.objectEnd();
        js.attributeEnd();
    }
    js.objectEnd();
    js.attributeEnd();
    js.objectEnd();
    outs() << "\n";
    return 0;
}
