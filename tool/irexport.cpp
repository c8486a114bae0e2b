// irexport: normalise an LLVM module and dump it as JSON for the analyses.
//   irexport <in.bc> <out.json> [--no-inline] [--keep=<substr>]...
// Normalisation: every defined function (except entry points and functions whose
// demangled name starts with one of the --keep prefixes) is inlined, then
// sroa/early-cse/simplifycfg. No pass that exploits or hides out-of-range
// accesses (instcombine, loop passes, vectorisers) is run.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Transforms/IPO/AlwaysInliner.h>
#include <llvm/ADT/MapVector.h>
#include <map>
#include <set>
#include <vector>
#include <string>

using namespace llvm;

static const DataLayout *DL;
static std::map<const Value*, int> ids;
static std::map<const BasicBlock*, int> bbids;

static std::string tyname(Type *t)
{
    std::string s; raw_string_ostream os(s); t->print(os, false, true); return os.str();
}

static json::Value valjson(const Value *v);

static json::Value constjson(const Constant *c)
{
    Type *t = c->getType();
    if(auto *ci = dyn_cast<ConstantInt>(c)) {
        SmallString<40> s; ci->getValue().toStringUnsigned(s);
        return json::Object{{"k","i"},{"w",(int64_t)ci->getBitWidth()},{"v",std::string(s.str())}};
    }
    if(isa<ConstantPointerNull>(c)) return json::Object{{"k","null"}};
    if(isa<UndefValue>(c)) return json::Object{{"k", isa<PoisonValue>(c) ? "poison":"undef"},{"t",tyname(t)}};
    if(auto *f = dyn_cast<ConstantFP>(c)) {
        SmallString<40> s; f->getValueAPF().bitcastToAPInt().toStringUnsigned(s);
        return json::Object{{"k","f"},{"v",std::string(s.str())},{"t",tyname(t)}};
    }
    if(auto *f = dyn_cast<Function>(c)) return json::Object{{"k","fn"},{"n",f->getName().str()}};
    if(auto *g = dyn_cast<GlobalVariable>(c)) return json::Object{{"k","g"},{"n",g->getName().str()},{"o",0}};
    if(auto *a = dyn_cast<GlobalAlias>(c)) return constjson(a->getAliasee());
    if(auto *ce = dyn_cast<ConstantExpr>(c)) {
        if(ce->getOpcode() == Instruction::GetElementPtr) {
            APInt off(64, 0, true);
            const Value *b = ce->stripAndAccumulateConstantOffsets(*DL, off, true);
            if(auto *bc = dyn_cast<Constant>(b)) {
                json::Value in = constjson(bc);
                if(auto *o = in.getAsObject())
                    if(o->getString("k") == StringRef("g")) {
                        int64_t base = o->getInteger("o").value_or(0);
                        (*o)["o"] = base + off.getSExtValue();
                        return in;
                    }
            }
        }
        std::string s; raw_string_ostream os(s); ce->print(os);
        return json::Object{{"k","ce"},{"op",ce->getOpcodeName()},{"s",os.str()}};
    }
    if(isa<ConstantAggregateZero>(c) || isa<ConstantAggregate>(c) || isa<ConstantDataSequential>(c)) {
        json::Array arr;
        unsigned n = 0;
        if(auto *st = dyn_cast<StructType>(t)) n = st->getNumElements();
        else if(auto *at = dyn_cast<ArrayType>(t)) n = at->getNumElements();
        else if(auto *vt = dyn_cast<FixedVectorType>(t)) n = vt->getNumElements();
        if(n <= 4096)
            for(unsigned i = 0; i < n; ++i) arr.push_back(constjson(c->getAggregateElement(i)));
        return json::Object{{"k","agg"},{"e",std::move(arr)},{"t",tyname(t)}};
    }
    return json::Object{{"k","unk"},{"t",tyname(t)}};
}

static json::Value valjson(const Value *v)
{
    if(auto *c = dyn_cast<Constant>(v)) return constjson(c);
    auto it = ids.find(v);
    if(it != ids.end()) return json::Value((int64_t)it->second);
    if(auto *m = dyn_cast<MetadataAsValue>(v)) { (void)m; return json::Object{{"k","md"}}; }
    return json::Object{{"k","unk"}};
}

static void bytesOf(const Constant *c, uint64_t off, std::vector<int> &out, json::Array &rel)
{
    Type *t = c->getType();
    if(isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) {
        uint64_t n = DL->getTypeAllocSize(t);
        for(uint64_t i = 0; i < n && off+i < out.size(); ++i) out[off+i] = 0;
    } else if(auto *ci = dyn_cast<ConstantInt>(c)) {
        APInt a = ci->getValue(); uint64_t n = DL->getTypeStoreSize(t);
        a = a.zextOrTrunc(n*8);
        for(uint64_t i = 0; i < n && off+i < out.size(); ++i) out[off+i] = (int)a.extractBitsAsZExtValue(8, i*8);
    } else if(auto *cf = dyn_cast<ConstantFP>(c)) {
        APInt a = cf->getValueAPF().bitcastToAPInt(); uint64_t n = DL->getTypeStoreSize(t);
        a = a.zextOrTrunc(n*8);
        for(uint64_t i = 0; i < n && off+i < out.size(); ++i) out[off+i] = (int)a.extractBitsAsZExtValue(8, i*8);
    } else if(auto *st = dyn_cast<StructType>(t)) {
        auto *sl = DL->getStructLayout(st);
        for(unsigned i = 0; i < st->getNumElements(); ++i)
            if(auto *e = c->getAggregateElement(i)) bytesOf(e, off + sl->getElementOffset(i), out, rel);
    } else if(auto *at = dyn_cast<ArrayType>(t)) {
        uint64_t es = DL->getTypeAllocSize(at->getElementType());
        for(unsigned i = 0; i < at->getNumElements(); ++i)
            if(auto *e = c->getAggregateElement(i)) bytesOf(e, off + i*es, out, rel);
    } else if(t->isPointerTy()) {
        rel.push_back(json::Object{{"o",(int64_t)off},{"v",constjson(c)}});
    }
}

static std::string locof(const Instruction &I)
{
    const DebugLoc &dl = I.getDebugLoc();
    if(!dl) return "";
    std::string s;
    DILocation *l = dl.get();
    int n = 0;
    while(l && n < 12) {
        if(!s.empty()) s += " < ";
        s += l->getFilename().str() + ":" + std::to_string(l->getLine());
        if(auto *sp = l->getScope()->getSubprogram()) { s += "("; s += sp->getName().str(); s += ")"; }
        l = l->getInlinedAt(); ++n;
    }
    return s;
}

static const char *tk(Type *t)
{
    if(t->isIntegerTy()) return "i";
    if(t->isPointerTy()) return "p";
    if(t->isFloatingPointTy()) return "f";
    if(t->isVoidTy()) return "v";
    if(t->isStructTy() || t->isArrayTy()) return "a";
    return "x";
}
static int64_t tw(Type *t)
{
    if(t->isIntegerTy()) return t->getIntegerBitWidth();
    if(t->isPointerTy()) return 64;
    if(t->isFloatingPointTy()) return t->getPrimitiveSizeInBits();
    return 0;
}

static json::Object instjson(const Instruction &I)
{
    json::Object o;
    o["op"] = I.getOpcodeName();
    if(!I.getType()->isVoidTy()) { o["id"] = (int64_t)ids[&I]; }
    o["tk"] = tk(I.getType()); o["w"] = tw(I.getType());
    std::string l = locof(I);
    if(!l.empty()) o["loc"] = l;
    if(auto *ob = dyn_cast<OverflowingBinaryOperator>(&I)) { if(ob->hasNoSignedWrap()) o["nsw"]=true; if(ob->hasNoUnsignedWrap()) o["nuw"]=true; }
    if(auto *ob = dyn_cast<PossiblyExactOperator>(&I)) { if(ob->isExact()) o["exact"]=true; }
    auto ops = [&](){ json::Array a; for(const Use &u : I.operands()) if(!isa<BasicBlock>(u)) a.push_back(valjson(u)); return a; };
    if(auto *ic = dyn_cast<CmpInst>(&I)) {
        o["pred"] = CmpInst::getPredicateName(ic->getPredicate()).str();
        Type *t = ic->getOperand(0)->getType(); o["otk"] = tk(t); o["ow"] = tw(t);
        o["a"] = ops();
    } else if(auto *p = dyn_cast<PHINode>(&I)) {
        json::Array a; for(unsigned i = 0; i < p->getNumIncomingValues(); ++i) a.push_back(json::Array{(int64_t)bbids[p->getIncomingBlock(i)], valjson(p->getIncomingValue(i))});
        o["in"] = std::move(a);
    } else if(auto *b = dyn_cast<BranchInst>(&I)) {
        if(b->isConditional()) { o["c"] = valjson(b->getCondition()); o["t"] = (int64_t)bbids[b->getSuccessor(0)]; o["f"] = (int64_t)bbids[b->getSuccessor(1)]; }
        else o["t"] = (int64_t)bbids[b->getSuccessor(0)];
    } else if(auto *s = dyn_cast<SwitchInst>(&I)) {
        o["c"] = valjson(s->getCondition()); o["d"] = (int64_t)bbids[s->getDefaultDest()];
        json::Array a; for(auto &cs : s->cases()) a.push_back(json::Array{constjson(cs.getCaseValue()), (int64_t)bbids[cs.getCaseSuccessor()]});
        o["cases"] = std::move(a);
    } else if(auto *g = dyn_cast<GetElementPtrInst>(&I)) {
        MapVector<Value*, APInt> vo; APInt co(64, 0, true);
        if(g->getType()->isPointerTy() && cast<GEPOperator>(g)->collectOffset(*DL, 64, vo, co)) {
            o["base"] = valjson(g->getPointerOperand()); o["co"] = co.getSExtValue();
            if(g->isInBounds()) o["inb"] = true;
            json::Array a; for(auto &kv : vo) a.push_back(json::Array{valjson(kv.first), kv.second.getSExtValue(), tw(kv.first->getType())});
            o["vo"] = std::move(a);
        } else o["unk"] = true;
    } else if(auto *ld = dyn_cast<LoadInst>(&I)) {
        o["p"] = valjson(ld->getPointerOperand()); o["sz"] = (int64_t)DL->getTypeStoreSize(ld->getType()).getKnownMinValue(); o["t"] = tyname(ld->getType());
        o["al"] = (int64_t)ld->getAlign().value();
    } else if(auto *st = dyn_cast<StoreInst>(&I)) {
        o["p"] = valjson(st->getPointerOperand()); o["v"] = valjson(st->getValueOperand());
        Type *t = st->getValueOperand()->getType(); o["sz"] = (int64_t)DL->getTypeStoreSize(t).getKnownMinValue(); o["vk"] = tk(t); o["vw"] = tw(t);
        o["al"] = (int64_t)st->getAlign().value();
    } else if(auto *al = dyn_cast<AllocaInst>(&I)) {
        o["sz"] = (int64_t)DL->getTypeAllocSize(al->getAllocatedType()); o["n"] = valjson(al->getArraySize());
        o["al"] = (int64_t)al->getAlign().value(); o["at"] = tyname(al->getAllocatedType());
    } else if(auto *cb = dyn_cast<CallBase>(&I)) {
        json::Array a; for(const Use &u : cb->args()) a.push_back(valjson(u));
        o["args"] = std::move(a);
        json::Array aw; for(const Use &u : cb->args()) aw.push_back(json::Array{tk(u->getType()), tw(u->getType())});
        o["aw"] = std::move(aw);
        if(Function *f = cb->getCalledFunction()) o["f"] = f->getName().str();
        else if(auto *ga = dyn_cast<GlobalAlias>(cb->getCalledOperand()->stripPointerCasts())) { if(auto *f = dyn_cast<Function>(ga->getAliasee())) o["f"] = f->getName().str(); }
        else o["fp"] = valjson(cb->getCalledOperand());
        if(cb->doesNotReturn()) o["noret"] = true;
        if(auto *iv = dyn_cast<InvokeInst>(&I)) { o["t"] = (int64_t)bbids[iv->getNormalDest()]; o["uw"] = (int64_t)bbids[iv->getUnwindDest()]; }
    } else if(auto *ev = dyn_cast<ExtractValueInst>(&I)) {
        json::Array a; for(unsigned i : ev->indices()) a.push_back((int64_t)i); o["idx"] = std::move(a); o["a"] = ops();
    } else if(auto *iv = dyn_cast<InsertValueInst>(&I)) {
        json::Array a; for(unsigned i : iv->indices()) a.push_back((int64_t)i); o["idx"] = std::move(a); o["a"] = ops();
    } else {
        if(I.getNumOperands()) { Type *t = I.getOperand(0)->getType(); o["otk"] = tk(t); o["ow"] = tw(t); }
        o["a"] = ops();
    }
    return o;
}

int main(int argc, char **argv)
{
    if(argc < 3) return 2;
    bool noinl = false; std::vector<std::string> keep;
    for(int i = 3; i < argc; ++i) { std::string a = argv[i]; if(a == "--no-inline") noinl = true; else if(a.rfind("--keep=",0)==0) keep.push_back(a.substr(7)); }
    LLVMContext ctx; SMDiagnostic err;
    auto M = parseIRFile(argv[1], err, ctx);
    if(!M) { err.print("irexport", errs()); return 2; }
    DL = &M->getDataLayout();
    std::set<std::string> keptNames;
    auto isKept = [&](Function &F) {
        std::string d = demangle(F.getName().str());
        for(auto &k : keep) {
            // match as qualified-name prefix, ignoring a leading return type for templates
            size_t paren = d.find('(');
            size_t p = d.find(k);
            if(p == 0) return true;
            if(p != std::string::npos && (paren == std::string::npos || p < paren) && d[p-1] == ' ') return true;
        }
        return false;
    };
    for(Function &F : *M) {
        if(F.hasAvailableExternallyLinkage()) { F.deleteBody(); F.setLinkage(GlobalValue::ExternalLinkage); F.setComdat(nullptr); }
    }
    if(!noinl) {
        for(Function &F : *M) {
            if(F.isDeclaration()) continue;
            F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::OptimizeNone); F.removeFnAttr(Attribute::InlineHint);
            bool entry = F.getName().starts_with("w_");
            if(!entry && !isKept(F)) { F.addFnAttr(Attribute::AlwaysInline); if(!F.hasLocalLinkage()) {} }
            else F.removeFnAttr(Attribute::AlwaysInline);
        }
        for(Function &F : *M) for(Instruction &I : instructions(F)) if(auto *cb = dyn_cast<CallBase>(&I)) { cb->removeFnAttr(Attribute::NoInline); }
    }
    {
        PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
        PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
        ModulePassManager MPM;
        const char *pl = noinl ? "function(sroa,early-cse)"
            : "always-inline,function(sroa,early-cse<memssa>,sroa,early-cse,instsimplify,adce),globaldce";
        if(auto e = PB.parsePassPipeline(MPM, pl)) { errs() << toString(std::move(e)) << "\n"; return 2; }
        MPM.run(*M, MAM);
    }
    json::Object root; json::Object fns, globs;
    for(Function &F : *M) {
        json::Object fo; fo["dem"] = demangle(F.getName().str());
        ids.clear(); bbids.clear();
        int n = 0;
        json::Array args;
        for(Argument &A : F.args()) {
            ids[&A] = n++;
            json::Object ao{{"id",n-1},{"tk",tk(A.getType())},{"w",tw(A.getType())},{"n",A.getName().str()}};
            if(A.hasStructRetAttr()) ao["sret"] = (int64_t)DL->getTypeAllocSize(A.getParamStructRetType());
            if(A.hasByValAttr()) ao["byval"] = (int64_t)DL->getTypeAllocSize(A.getParamByValType());
            if(A.onlyReadsMemory()) ao["ro"] = true;
            args.push_back(std::move(ao));
        }
        fo["args"] = std::move(args);
        fo["rk"] = tk(F.getReturnType()); fo["rw"] = tw(F.getReturnType());
        if(F.doesNotReturn()) fo["noret"] = true;
        if(F.doesNotThrow()) fo["nothrow"] = true;
        if(F.isDeclaration()) { fo["decl"] = true; fns[F.getName()] = std::move(fo); continue; }
        fo["linkage"] = F.hasLocalLinkage() ? "local" : F.hasLinkOnceLinkage() ? "linkonce" : "ext";
        if(auto *sp = F.getSubprogram()) { fo["file"] = sp->getFilename().str(); fo["line"] = (int64_t)sp->getLine(); }
        int b = 0;
        for(BasicBlock &B : F) { bbids[&B] = b++; for(Instruction &I : B) ids[&I] = n++; }
        json::Array blocks;
        for(BasicBlock &B : F) {
            json::Array is;
            for(Instruction &I : B) {
                if(isa<DbgInfoIntrinsic>(I)) continue;
                if(auto *ii = dyn_cast<IntrinsicInst>(&I)) {
                    auto id = ii->getIntrinsicID();
                    if(id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::experimental_noalias_scope_decl) continue;
                }
                is.push_back(instjson(I));
            }
            blocks.push_back(std::move(is));
        }
        fo["blocks"] = std::move(blocks);
        fns[F.getName()] = std::move(fo);
    }
    for(GlobalVariable &G : M->globals()) {
        json::Object go; go["const"] = G.isConstant(); go["dem"] = demangle(G.getName().str());
        uint64_t sz = G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()).getKnownMinValue() : 0;
        go["sz"] = (int64_t)sz; go["decl"] = G.isDeclaration(); go["tls"] = G.isThreadLocal(); go["local"] = G.hasLocalLinkage();
        SmallVector<DIGlobalVariableExpression*,1> gv; G.getDebugInfo(gv);
        if(!gv.empty()) { auto *v = gv[0]->getVariable(); go["file"] = v->getFilename().str(); go["line"] = (int64_t)v->getLine(); }
        if(G.hasInitializer() && sz <= (1u<<16)) {
            std::vector<int> by(sz, -1); json::Array rel;
            bytesOf(G.getInitializer(), 0, by, rel);
            json::Array a; for(int x : by) a.push_back(x);
            go["bytes"] = std::move(a); if(!rel.empty()) go["rel"] = std::move(rel);
        }
        globs[G.getName()] = std::move(go);
    }
    root["functions"] = std::move(fns); root["globals"] = std::move(globs);
    std::error_code ec; raw_fd_ostream os(argv[2], ec); if(ec) return 2;
    os << json::Value(std::move(root));
    return 0;
}
