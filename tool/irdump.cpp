// irdump: LLVM IR (.ll/.bc) -> JSON, the resolved program the analyses read.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/ADT/SmallString.h>
#include <map>
#include <set>
using namespace llvm;
using JV = json::Value; using json::Array; using json::Object;

static std::set<const DICompositeType*> structs;

static JV ditype(const DIType* t, int depth = 0) {
    Object o;
    if (!t) { o["k"] = "void"; return std::move(o); }
    if (auto b = dyn_cast<DIBasicType>(t)) {
        o["k"] = "int"; o["size"] = (int64_t)b->getSizeInBits() / 8;
        auto e = b->getEncoding();
        o["signed"] = (e == dwarf::DW_ATE_signed || e == dwarf::DW_ATE_signed_char);
        if (e == dwarf::DW_ATE_float) o["k"] = "float";
        return std::move(o);
    }
    if (auto d = dyn_cast<DIDerivedType>(t)) {
        switch (d->getTag()) {
        case dwarf::DW_TAG_pointer_type:
            o["k"] = "ptr"; o["size"] = 8;
            o["to"] = depth > 2 ? JV(Object{{"k","void"}}) : ditype(d->getBaseType(), depth + 1);
            return std::move(o);
        case dwarf::DW_TAG_typedef: {
            JV v = ditype(d->getBaseType(), depth);
            if (auto vo = v.getAsObject()) if (!vo->get("td")) (*vo)["td"] = d->getName().str();
            return v; }
        case dwarf::DW_TAG_const_type: {
            JV v = ditype(d->getBaseType(), depth);
            if (auto vo = v.getAsObject()) (*vo)["const"] = true;
            return v; }
        default:
            return ditype(d->getBaseType(), depth);
        }
    }
    if (auto c = dyn_cast<DICompositeType>(t)) {
        if (c->getTag() == dwarf::DW_TAG_array_type) {
            o["k"] = "array"; o["size"] = (int64_t)c->getSizeInBits() / 8;
            o["elem"] = ditype(c->getBaseType(), depth + 1);
            return std::move(o);
        }
        if (c->getTag() == dwarf::DW_TAG_enumeration_type) {
            o["k"] = "int"; o["size"] = (int64_t)c->getSizeInBits() / 8;
            bool sg = false;
            if (auto bt = dyn_cast_or_null<DIBasicType>(c->getBaseType()))
                sg = bt->getEncoding() == dwarf::DW_ATE_signed;
            o["signed"] = sg; return std::move(o);
        }
        o["k"] = c->getTag() == dwarf::DW_TAG_union_type ? "union" : "struct";
        o["name"] = c->getName().str(); o["size"] = (int64_t)c->getSizeInBits() / 8;
        structs.insert(c);
        return std::move(o);
    }
    if (isa<DISubroutineType>(t)) { o["k"] = "func"; return std::move(o); }
    o["k"] = "void"; return std::move(o);
}

static std::string tystr(Type* t) { std::string s; raw_string_ostream os(s); t->print(os, false, true); return os.str(); }

struct FnDump {
    const DataLayout& DL;
    std::map<const llvm::Value*, int> ids; std::map<const BasicBlock*, int> bbs;
    FnDump(const DataLayout& dl) : DL(dl) {}
    JV constant(const Constant* c) {
        if (auto i = dyn_cast<ConstantInt>(c)) {
            SmallString<32> s; i->getValue().toString(s, 10, true);
            return Array{"i", (int64_t)i->getBitWidth(), s.str().str()};
        }
        if (isa<ConstantPointerNull>(c)) return Array{"null"};
        if (isa<UndefValue>(c)) return Array{"undef", tystr(c->getType())};
        if (auto f = dyn_cast<Function>(c)) return Array{"f", f->getName().str()};
        if (auto g = dyn_cast<GlobalVariable>(c)) return Array{"g", g->getName().str()};
        if (auto ga = dyn_cast<GlobalAlias>(c)) return constant(ga->getAliasee());
        if (auto ce = dyn_cast<ConstantExpr>(c)) {
            if (auto gep = dyn_cast<GEPOperator>(ce)) {
                APInt off(64, 0);
                if (gep->accumulateConstantOffset(DL, off))
                    return Array{"off", constant(cast<Constant>(gep->getPointerOperand())), off.getSExtValue()};
            }
            Array a{"ce", ce->getOpcodeName()};
            for (auto& op : ce->operands()) a.push_back(constant(cast<Constant>(op)));
            return std::move(a);
        }
        if (isa<ConstantAggregateZero>(c)) return Array{"zero", (int64_t)DL.getTypeAllocSize(c->getType())};
        if (auto cd = dyn_cast<ConstantDataSequential>(c)) {
            Array a;
            for (unsigned i = 0; i < cd->getNumElements(); i++) a.push_back(constant(cd->getElementAsConstant(i)));
            return Array{"agg", (int64_t)DL.getTypeAllocSize(cd->getElementType()), std::move(a)};
        }
        if (auto ca = dyn_cast<ConstantAggregate>(c)) {
            Array a; Array offs;
            if (auto st = dyn_cast<StructType>(ca->getType())) {
                auto sl = DL.getStructLayout(st);
                for (unsigned i = 0; i < ca->getNumOperands(); i++) {
                    a.push_back(constant(ca->getOperand(i))); offs.push_back((int64_t)sl->getElementOffset(i));
                }
                return Array{"st", std::move(offs), std::move(a)};
            }
            Type* et = nullptr;
            for (auto& op : ca->operands()) { a.push_back(constant(cast<Constant>(op))); et = op->getType(); }
            return Array{"agg", (int64_t)DL.getTypeAllocSize(et), std::move(a)};
        }
        return Array{"unk", tystr(c->getType())};
    }
    JV val(const llvm::Value* v) {
        auto it = ids.find(v);
        if (it != ids.end()) return (int64_t)it->second;
        if (auto c = dyn_cast<Constant>(v)) return constant(c);
        if (auto b = dyn_cast<BasicBlock>(v)) return Array{"bb", (int64_t)bbs[b]};
        if (isa<MetadataAsValue>(v)) return Array{"md"};
        return Array{"unk", tystr(v->getType())};
    }
    int64_t width(Type* t) {
        if (auto it = dyn_cast<IntegerType>(t)) return it->getBitWidth();
        if (t->isPointerTy()) return 64;
        return 0;
    }
    JV inst(const Instruction& I) {
        Object o; o["op"] = I.getOpcodeName();
        if (!I.getType()->isVoidTy()) { o["id"] = (int64_t)ids[&I]; o["ty"] = tystr(I.getType()); o["w"] = width(I.getType()); }
        if (auto& dl = I.getDebugLoc()) {
            o["line"] = (int64_t)dl.getLine();
            o["file"] = dl->getFilename().str();
        }
        Array ops;
        if (auto phi = dyn_cast<PHINode>(&I)) {
            for (unsigned i = 0; i < phi->getNumIncomingValues(); i++)
                ops.push_back(Array{(int64_t)bbs[phi->getIncomingBlock(i)], val(phi->getIncomingValue(i))});
            o["ops"] = std::move(ops); return std::move(o);
        }
        if (auto br = dyn_cast<BranchInst>(&I)) {
            if (br->isConditional()) { o["cond"] = val(br->getCondition());
                o["t"] = (int64_t)bbs[br->getSuccessor(0)]; o["f"] = (int64_t)bbs[br->getSuccessor(1)]; }
            else o["t"] = (int64_t)bbs[br->getSuccessor(0)];
            return std::move(o);
        }
        if (auto sw = dyn_cast<SwitchInst>(&I)) {
            o["cond"] = val(sw->getCondition()); o["w"] = width(sw->getCondition()->getType());
            o["def"] = (int64_t)bbs[sw->getDefaultDest()];
            for (auto& c : sw->cases()) ops.push_back(Array{(int64_t)c.getCaseValue()->getSExtValue(), (int64_t)bbs[c.getCaseSuccessor()]});
            o["cases"] = std::move(ops); return std::move(o);
        }
        if (auto gep = dyn_cast<GetElementPtrInst>(&I)) {
            o["base"] = val(gep->getPointerOperand()); int64_t c = 0; Array vs;
            for (auto g = gep_type_begin(gep), e = gep_type_end(gep); g != e; ++g) {
                auto idx = g.getOperand();
                if (auto st = g.getStructTypeOrNull()) {
                    c += (int64_t)DL.getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
                } else {
                    int64_t sz = (int64_t)DL.getTypeAllocSize(g.getIndexedType());
                    if (auto ci = dyn_cast<ConstantInt>(idx)) c += sz * ci->getSExtValue();
                    else vs.push_back(Array{val(idx), sz, width(idx->getType())});
                }
            }
            o["c"] = c; o["vs"] = std::move(vs);
            o["sty"] = tystr(gep->getSourceElementType()); o["inb"] = gep->isInBounds();
            return std::move(o);
        }
        if (auto ic = dyn_cast<ICmpInst>(&I)) { o["pred"] = ICmpInst::getPredicateName(ic->getPredicate()).str();
            o["cw"] = width(ic->getOperand(0)->getType()); o["cp"] = ic->getOperand(0)->getType()->isPointerTy(); }
        if (auto al = dyn_cast<AllocaInst>(&I)) { o["size"] = (int64_t)DL.getTypeAllocSize(al->getAllocatedType()); o["aty"] = tystr(al->getAllocatedType()); }
        if (auto ld = dyn_cast<LoadInst>(&I)) { o["atomic"] = ld->isAtomic(); o["size"] = (int64_t)DL.getTypeStoreSize(ld->getType()); o["vol"] = ld->isVolatile(); o["ord"] = (int64_t)ld->getOrdering(); }
        if (auto st = dyn_cast<StoreInst>(&I)) { o["atomic"] = st->isAtomic(); o["size"] = (int64_t)DL.getTypeStoreSize(st->getValueOperand()->getType()); o["w"] = width(st->getValueOperand()->getType()); o["vty"] = tystr(st->getValueOperand()->getType()); o["ord"] = (int64_t)st->getOrdering(); }
        if (auto rmw = dyn_cast<AtomicRMWInst>(&I)) { o["rmw"] = AtomicRMWInst::getOperationName(rmw->getOperation()).str(); o["size"] = (int64_t)DL.getTypeStoreSize(rmw->getValOperand()->getType()); o["ord"] = (int64_t)rmw->getOrdering(); }
        if (auto cx = dyn_cast<AtomicCmpXchgInst>(&I)) { o["size"] = (int64_t)DL.getTypeStoreSize(cx->getNewValOperand()->getType()); o["ord"] = (int64_t)cx->getSuccessOrdering(); }
        if (auto bo = dyn_cast<OverflowingBinaryOperator>(&I)) { o["nsw"] = bo->hasNoSignedWrap(); o["nuw"] = bo->hasNoUnsignedWrap(); }
        if (auto ca = dyn_cast<CastInst>(&I)) { o["fw"] = width(ca->getSrcTy()); }
        if (auto cb = dyn_cast<CallBase>(&I)) {
            if (isa<DbgInfoIntrinsic>(cb)) return nullptr;
            if (cb->isInlineAsm()) o["callee"] = Array{"asm"};
            else o["callee"] = val(cb->getCalledOperand());
            Array ws;
            for (auto& a : cb->args()) { ops.push_back(val(a.get())); ws.push_back(width(a->getType())); }
            o["ws"] = std::move(ws);
            o["ops"] = std::move(ops); return std::move(o);
        }
        for (auto& op : I.operands()) ops.push_back(val(op.get()));
        if (auto ev = dyn_cast<ExtractValueInst>(&I)) { Array ix; for (auto i : ev->indices()) ix.push_back((int64_t)i); o["idx"] = std::move(ix); }
        if (auto ev = dyn_cast<InsertValueInst>(&I)) { Array ix; for (auto i : ev->indices()) ix.push_back((int64_t)i); o["idx"] = std::move(ix); }
        if (auto r = dyn_cast<ReturnInst>(&I)) if (r->getReturnValue()) o["w"] = width(r->getReturnValue()->getType());
        o["ops"] = std::move(ops);
        return std::move(o);
    }
    JV run(const Function& F) {
        Object o; o["name"] = F.getName().str(); o["internal"] = F.hasLocalLinkage(); o["vararg"] = F.isVarArg();
        int n = 0; Array args;
        for (auto& a : F.args()) { ids[&a] = n++; args.push_back(Object{{"name", a.getName().str()}, {"ty", tystr(a.getType())}, {"w", width(a.getType())}}); }
        o["rty"] = tystr(F.getReturnType()); o["rw"] = width(F.getReturnType());
        if (auto sp = F.getSubprogram()) {
            o["file"] = sp->getFilename().str(); o["line"] = (int64_t)sp->getLine();
            Array ts; for (auto t : sp->getType()->getTypeArray()) ts.push_back(ditype(t));
            o["ditypes"] = std::move(ts);
            Array nm; // parameter names from retained/dbg variables
            std::map<unsigned, std::string> names;
            for (auto& BB : F) for (auto& I : BB) {
                if (auto dv = dyn_cast<DbgVariableIntrinsic>(&I)) { auto v = dv->getVariable(); if (v->getArg() && v->getScope()->getSubprogram() == sp) names[v->getArg()] = v->getName().str(); }
            }
            for (unsigned i = 1; i <= F.arg_size(); i++) nm.push_back(names.count(i) ? names[i] : std::string());
            o["argnames"] = std::move(nm);
        }
        o["args"] = std::move(args);
        int b = 0; for (auto& BB : F) bbs[&BB] = b++;
        for (auto& BB : F) for (auto& I : BB) if (!I.getType()->isVoidTy()) ids[&I] = n++;
        Array blocks;
        for (auto& BB : F) { Array is; for (auto& I : BB) { JV v = inst(I); if (v.getAsObject()) is.push_back(std::move(v)); } blocks.push_back(std::move(is)); }
        o["blocks"] = std::move(blocks);
        return std::move(o);
    }
};

int main(int argc, char** argv) {
    LLVMContext ctx; SMDiagnostic err;
    Array mods;
    for (int i = 1; i < argc; i++) {
        auto m = parseIRFile(argv[i], err, ctx);
        if (!m) { err.print(argv[0], errs()); return 2; }
        structs.clear();
        Object o; Array fns, globs, decls; const DataLayout& DL = m->getDataLayout();
        o["source"] = m->getSourceFileName();
        for (auto& F : *m) {
            if (F.isDeclaration()) { if (!F.isIntrinsic()) decls.push_back(F.getName().str()); continue; }
            FnDump d(DL); fns.push_back(d.run(F));
        }
        for (auto& G : m->globals()) {
            FnDump d(DL); Object g; g["name"] = G.getName().str(); g["const"] = G.isConstant(); g["internal"] = G.hasLocalLinkage();
            g["size"] = (int64_t)DL.getTypeAllocSize(G.getValueType()); g["tls"] = G.isThreadLocal();
            if (G.hasInitializer()) g["init"] = d.constant(G.getInitializer());
            SmallVector<DIGlobalVariableExpression*, 1> gv; G.getDebugInfo(gv);
            if (!gv.empty()) g["ditype"] = ditype(gv[0]->getVariable()->getType());
            globs.push_back(std::move(g));
        }
        Object so; std::set<const DICompositeType*> done;
        while (done.size() < structs.size()) {
            auto todo = structs;
            for (auto c : todo) {
                if (!done.insert(c).second) continue;
                if (c->isForwardDecl()) continue;
                Array fs;
                for (auto e : c->getElements()) if (auto d = dyn_cast<DIDerivedType>(e)) if (d->getTag() == dwarf::DW_TAG_member)
                    fs.push_back(Array{d->getName().str(), (int64_t)d->getOffsetInBits() / 8, (int64_t)d->getSizeInBits() / 8, ditype(d->getBaseType())});
                if (!c->getName().empty()) so[c->getName()] = Object{{"size", (int64_t)c->getSizeInBits() / 8}, {"fields", std::move(fs)}};
            }
        }
        o["structs"] = std::move(so); o["functions"] = std::move(fns); o["globals"] = std::move(globs); o["decls"] = std::move(decls);
        mods.push_back(std::move(o));
    }
    outs() << JV(std::move(mods)) << "\n";
    return 0;
}
