// irdump: link LLVM bitcode modules, normalise each function intraprocedurally
// (no inlining) and print the resolved program as JSON for the Python analyses.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/CFG.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/ADT/MapVector.h"
using namespace llvm;

static cl::list<std::string> Inputs(cl::Positional, cl::OneOrMore);
static cl::opt<std::string> Passes("p", cl::init("function(sroa,early-cse,instsimplify,dce)"));
static cl::opt<std::string> Out("o", cl::init("-"));
static cl::opt<bool> EmitLL("S");

static const DataLayout *DL;
static DenseMap<const Value *, unsigned> Ids;

static std::string tyName(Type *T) {
    if (T->isVoidTy()) return "void";
    if (T->isPointerTy()) return "ptr";
    std::string s; raw_string_ostream os(s); T->print(os, false, true); return os.str();
}
static uint64_t tySize(Type *T) { return T->isSized() ? DL->getTypeStoreSize(T).getKnownMinValue() : 0; }

static json::Value constant(const Constant *C);
static json::Value operand(const Value *V) {
    if (auto *C = dyn_cast<Constant>(V)) return constant(C);
    if (isa<InlineAsm>(V)) {
        auto *A = cast<InlineAsm>(V);
        return json::Object{{"asm", A->getAsmString()}, {"cons", A->getConstraintString()}};
    }
    if (isa<MetadataAsValue>(V)) return json::Object{{"md", 1}};
    auto it = Ids.find(V);
    if (it != Ids.end()) return json::Object{{"v", it->second}};
    return json::Object{{"u", "unknown"}};
}
static json::Value constant(const Constant *C) {
    if (auto *I = dyn_cast<ConstantInt>(C)) {
        SmallString<40> s; I->getValue().toStringUnsigned(s);
        return json::Object{{"i", std::string(s)}, {"b", I->getBitWidth()}};
    }
    if (isa<ConstantPointerNull>(C)) return json::Object{{"i", "0"}, {"b", 64}};
    if (isa<UndefValue>(C)) return json::Object{{"undef", 1}};
    if (isa<ConstantAggregateZero>(C)) return json::Object{{"zero", 1}, {"b", tySize(C->getType()) * 8}};
    if (auto *A = dyn_cast<GlobalAlias>(C)) return constant(A->getAliasee());
    if (isa<GlobalValue>(C)) return json::Object{{"g", C->getName().str()}};
    if (auto *F = dyn_cast<ConstantFP>(C)) {
        if (C->getType()->isFloatTy() || C->getType()->isDoubleTy()) { SmallString<40> s; APInt b = F->getValueAPF().bitcastToAPInt(); b.toStringUnsigned(s); return json::Object{{"i", std::string(s)}, {"b", b.getBitWidth()}}; }
        SmallString<40> s; F->getValueAPF().toString(s); return json::Object{{"fp", std::string(s)}}; }
    if (auto *E = dyn_cast<ConstantExpr>(C)) {
        if (E->isCast()) return constant(E->getOperand(0));
        if (E->getOpcode() == Instruction::GetElementPtr) {
            APInt off(64, 0);
            if (cast<GEPOperator>(E)->accumulateConstantOffset(*DL, off)) {
                auto b = constant(E->getOperand(0));
                if (auto *o = b.getAsObject()) { int64_t prev = 0; if (auto p = o->getInteger("off")) prev = *p; (*o)["off"] = prev + off.getSExtValue(); }
                return b;
            }
        }
    }
    if (auto *CA = dyn_cast<ConstantAggregate>(C)) {
        json::Array a; for (auto &o : CA->operands()) a.push_back(constant(cast<Constant>(o)));
        return json::Object{{"agg", std::move(a)}};
    }
    std::string s; raw_string_ostream os(s); C->print(os);
    return json::Object{{"k", os.str()}};
}
static void flatten(const Constant *C, uint64_t off, json::Array &ptrs, std::string &bytes) {
    if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
    if (auto *S = dyn_cast<ConstantStruct>(C)) {
        auto *L = DL->getStructLayout(S->getType());
        for (unsigned i = 0; i < S->getNumOperands(); i++) flatten(S->getOperand(i), off + L->getElementOffset(i), ptrs, bytes);
    } else if (auto *A = dyn_cast<ConstantArray>(C)) {
        uint64_t es = DL->getTypeAllocSize(A->getType()->getElementType());
        for (unsigned i = 0; i < A->getNumOperands(); i++) flatten(A->getOperand(i), off + i * es, ptrs, bytes);
    } else if (auto *D = dyn_cast<ConstantDataSequential>(C)) {
        uint64_t es = D->getElementByteSize();
        for (unsigned i = 0; i < D->getNumElements(); i++) {
            if (!D->getElementType()->isIntegerTy()) continue;
            uint64_t v = D->getElementAsInteger(i);
            for (unsigned k = 0; k < es; k++) if (off + i * es + k < bytes.size()) bytes[off + i * es + k] = char(v >> (8 * k));
        }
    } else if (auto *I = dyn_cast<ConstantInt>(C)) {
        uint64_t n = tySize(C->getType());
        if (I->getBitWidth() <= 64) for (unsigned k = 0; k < n && off + k < bytes.size(); k++) bytes[off + k] = char(I->getZExtValue() >> (8 * k));
    } else if (isa<ConstantPointerNull>(C)) {
    } else ptrs.push_back(json::Array{int64_t(off), constant(C)});
}
static std::string hex(const std::string &b) { static const char *d = "0123456789abcdef"; std::string r; for (unsigned char c : b) { r += d[c >> 4]; r += d[c & 15]; } return r; }

static json::Value loc(const DebugLoc &L) {
    if (!L) return nullptr;
    json::Array a;
    a.push_back(L->getFilename().str()); a.push_back((int64_t)L->getLine());
    return std::move(a);
}
static json::Value dumpType(Type *T) { return json::Array{tyName(T), (int64_t)tySize(T)}; }

static json::Object dumpInst(const Instruction &I, DenseMap<const BasicBlock *, unsigned> &BB) {
    json::Object o;
    o["op"] = I.getOpcodeName();
    if (!I.getType()->isVoidTy()) { o["id"] = Ids[&I]; o["t"] = dumpType(I.getType()); }
    if (auto l = loc(I.getDebugLoc()); l.kind() != json::Value::Null) o["l"] = std::move(l);
    auto bb = [&](const BasicBlock *B) { return (int64_t)BB[B]; };
    if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
        APInt c(64, 0); MapVector<Value *, APInt> vars;
        json::Array v;
        if (G->collectOffset(*DL, 64, vars, c)) {
            for (auto &p : vars) v.push_back(json::Array{operand(p.first), p.second.getSExtValue()});
            o["off"] = c.getSExtValue(); o["var"] = std::move(v);
        } else o["bad"] = 1;
        o["a"] = json::Array{operand(G->getPointerOperand())};
        if (G->isInBounds()) o["ib"] = 1;
        return o;
    }
    if (auto *P = dyn_cast<PHINode>(&I)) {
        json::Array a; for (unsigned i = 0; i < P->getNumIncomingValues(); i++) a.push_back(json::Array{operand(P->getIncomingValue(i)), bb(P->getIncomingBlock(i))});
        o["in"] = std::move(a); return o;
    }
    if (auto *C = dyn_cast<CallBase>(&I)) {
        o["callee"] = operand(C->getCalledOperand());
        json::Array a; for (auto &x : C->args()) a.push_back(operand(x));
        o["a"] = std::move(a);
        if (C->isInlineAsm()) {
            json::Array et; for (unsigned i = 0; i < C->arg_size(); i++) et.push_back(C->getParamElementType(i) ? (int64_t)tySize(C->getParamElementType(i)) : (int64_t)-1);
            o["et"] = std::move(et);
        }
        if (C->doesNotThrow()) o["nounwind"] = 1;
        if (C->hasFnAttr(Attribute::NoReturn) ) o["noreturn"] = 1;
        if (auto *II = dyn_cast<InvokeInst>(&I)) { o["normal"] = bb(II->getNormalDest()); o["unwind"] = bb(II->getUnwindDest()); }
        json::Array sr; for (unsigned i = 0; i < C->arg_size(); i++) if (C->paramHasAttr(i, Attribute::StructRet)) sr.push_back((int64_t)i);
        if (!sr.empty()) o["sret"] = std::move(sr);
        json::Array bv; for (unsigned i = 0; i < C->arg_size(); i++) if (C->isByValArgument(i)) bv.push_back(json::Array{(int64_t)i, (int64_t)tySize(C->getParamByValType(i))});
        if (!bv.empty()) o["byval"] = std::move(bv);
        return o;
    }
    if (auto *B = dyn_cast<BranchInst>(&I)) {
        if (B->isConditional()) { o["a"] = json::Array{operand(B->getCondition())}; o["succ"] = json::Array{bb(B->getSuccessor(0)), bb(B->getSuccessor(1))}; }
        else o["succ"] = json::Array{bb(B->getSuccessor(0))};
        return o;
    }
    if (auto *S = dyn_cast<SwitchInst>(&I)) {
        o["a"] = json::Array{operand(S->getCondition())}; o["default"] = bb(S->getDefaultDest());
        json::Array cs; for (auto &c : S->cases()) cs.push_back(json::Array{operand(c.getCaseValue()), bb(c.getCaseSuccessor())});
        o["cases"] = std::move(cs); return o;
    }
    if (auto *L = dyn_cast<LandingPadInst>(&I)) {
        o["cleanup"] = L->isCleanup();
        json::Array cl; for (unsigned i = 0; i < L->getNumClauses(); i++) cl.push_back(json::Array{L->isCatch(i) ? "catch" : "filter", constant(L->getClause(i))});
        o["clauses"] = std::move(cl); return o;
    }
    if (auto *A = dyn_cast<AllocaInst>(&I)) { o["size"] = (int64_t)tySize(A->getAllocatedType()); o["ty"] = tyName(A->getAllocatedType()); o["n"] = operand(A->getArraySize()); return o; }
    if (auto *L = dyn_cast<LoadInst>(&I)) { if (L->isVolatile()) o["volatile"] = 1; if (L->isAtomic()) o["ord"] = (int64_t)L->getOrdering(); o["align"] = (int64_t)L->getAlign().value(); }
    if (auto *S = dyn_cast<StoreInst>(&I)) { if (S->isVolatile()) o["volatile"] = 1; if (S->isAtomic()) o["ord"] = (int64_t)S->getOrdering(); o["vt"] = dumpType(S->getValueOperand()->getType()); o["align"] = (int64_t)S->getAlign().value(); }
    if (auto *R = dyn_cast<AtomicRMWInst>(&I)) { o["rmw"] = AtomicRMWInst::getOperationName(R->getOperation()).str(); o["ord"] = (int64_t)R->getOrdering(); }
    if (auto *X = dyn_cast<AtomicCmpXchgInst>(&I)) { o["ord"] = (int64_t)X->getSuccessOrdering(); o["ord2"] = (int64_t)X->getFailureOrdering(); o["weak"] = X->isWeak(); }
    if (auto *F = dyn_cast<FenceInst>(&I)) o["ord"] = (int64_t)F->getOrdering();
    if (auto *C = dyn_cast<CmpInst>(&I)) o["pred"] = CmpInst::getPredicateName(C->getPredicate()).str();
    if (auto *E = dyn_cast<ExtractValueInst>(&I)) { json::Array a; for (auto i : E->getIndices()) a.push_back((int64_t)i); o["idx"] = std::move(a); }
    if (auto *E = dyn_cast<InsertValueInst>(&I)) { json::Array a; for (auto i : E->getIndices()) a.push_back((int64_t)i); o["idx"] = std::move(a); }
    if (isa<CastInst>(&I)) o["st"] = dumpType(I.getOperand(0)->getType());
    if (auto *O = dyn_cast<OverflowingBinaryOperator>(&I)) { if (O->hasNoUnsignedWrap()) o["nuw"] = 1; if (O->hasNoSignedWrap()) o["nsw"] = 1; }
    json::Array a; for (auto &x : I.operands()) if (!isa<BasicBlock>(x)) a.push_back(operand(x));
    o["a"] = std::move(a);
    if (isa<CmpInst>(&I)) o["st"] = dumpType(I.getOperand(0)->getType());
    return o;
}

int main(int argc, char **argv) {
    cl::ParseCommandLineOptions(argc, argv);
    LLVMContext Ctx; SMDiagnostic Err;
    std::unique_ptr<Module> M;
    for (auto &f : Inputs) {
        auto m = parseIRFile(f, Err, Ctx);
        if (!m) { Err.print(argv[0], errs()); return 2; }
        if (!M) M = std::move(m);
        else if (Linker::linkModules(*M, std::move(m))) { errs() << "link failed: " << f << "\n"; return 2; }
    }
    DL = &M->getDataLayout();
    {
        LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
        PassBuilder PB;
        PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
        PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
        ModulePassManager MPM;
        if (auto e = PB.parsePassPipeline(MPM, Passes)) { errs() << toString(std::move(e)) << "\n"; return 2; }
        MPM.run(*M, MAM);
    }
    std::error_code EC; raw_fd_ostream OS(Out, EC);
    if (EC) { errs() << EC.message() << "\n"; return 2; }
    if (EmitLL) { M->print(OS, nullptr); return 0; }
    json::Object root; json::Object fns, gls;
    for (auto &A : M->aliases()) gls[A.getName().str()] = json::Object{{"alias", constant(A.getAliasee())}};
    for (auto &G : M->globals()) {
        json::Object g; g["const"] = G.isConstant(); g["size"] = (int64_t)tySize(G.getValueType());
        g["linkage"] = (int64_t)G.getLinkage(); g["tls"] = G.isThreadLocal();
        if (G.hasInitializer()) {
            json::Array ptrs; uint64_t n = tySize(G.getValueType()); std::string bytes(n < 65536 ? n : 65536, '\0');
            flatten(G.getInitializer(), 0, ptrs, bytes);
            g["ptrs"] = std::move(ptrs); g["bytes"] = hex(bytes); g["def"] = 1;
        }
        SmallVector<DIGlobalVariableExpression *, 1> gv; G.getDebugInfo(gv);
        if (!gv.empty()) { auto *v = gv[0]->getVariable(); g["file"] = v->getFilename().str(); g["line"] = (int64_t)v->getLine(); g["src"] = v->getName().str(); }
        gls[G.getName().str()] = std::move(g);
    }
    for (auto &F : *M) {
        json::Object f; f["dem"] = demangle(F.getName().str());
        f["nounwind"] = F.doesNotThrow(); f["noreturn"] = F.doesNotReturn(); f["va"] = F.isVarArg();
        f["ret"] = dumpType(F.getReturnType()); f["linkage"] = (int64_t)F.getLinkage();
        f["memnone"] = F.doesNotAccessMemory(); f["readonly"] = F.onlyReadsMemory();
        if (auto *SP = F.getSubprogram()) { f["file"] = SP->getFilename().str(); f["line"] = (int64_t)SP->getLine(); f["src"] = SP->getName().str(); f["artificial"] = SP->isArtificial(); }
        if (F.isDeclaration()) { f["decl"] = 1; fns[F.getName().str()] = std::move(f); continue; }
        Ids.clear(); unsigned n = 0; DenseMap<const BasicBlock *, unsigned> BB; unsigned b = 0;
        json::Array args;
        for (auto &A : F.args()) { Ids[&A] = n++; json::Object a; a["n"] = A.getName().str(); a["t"] = dumpType(A.getType()); if (A.hasStructRetAttr()) a["sret"] = (int64_t)tySize(A.getParamStructRetType()); if (A.hasByValAttr()) a["byval"] = (int64_t)tySize(A.getParamByValType());
            if (uint64_t d = A.getDereferenceableBytes()) a["deref"] = (int64_t)d; if (A.hasAttribute(Attribute::ZExt)) a["zext"] = 1; if (A.hasAttribute(Attribute::SExt)) a["sext"] = 1; args.push_back(std::move(a)); }
        f["args"] = std::move(args);
        for (auto &B : F) { BB[&B] = b++; for (auto &I : B) if (!I.getType()->isVoidTy()) Ids[&I] = n++; }
        json::Array blocks;
        for (auto &B : F) {
            json::Array ins;
            for (auto &I : B) { if (isa<DbgInfoIntrinsic>(I)) continue; ins.push_back(dumpInst(I, BB)); }
            blocks.push_back(std::move(ins));
        }
        f["blocks"] = std::move(blocks);
        fns[F.getName().str()] = std::move(f);
    }
    root["functions"] = std::move(fns); root["globals"] = std::move(gls);
    OS << json::Value(std::move(root)) << "\n";
    return 0;
}
