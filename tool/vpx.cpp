// vpx: fact extractor for the vecmem static analyses.
//
//   vpx -o out.json --opaque FILE --entries FILE [--lower-atomic] a.bc b.bc ...
//
// It links the given (unoptimised) bitcode modules into one program, turns the
// functions whose demangled name matches one of the "opaque" patterns into
// abstract operations (declarations), flattens every entry function by inlining
// everything else, canonicalises the result with LLVM's scalar optimisations,
// and writes, for each entry, its control flow graph, resolved calls, memory
// accesses and scalar-evolution expressions as JSON.
#include <llvm/ADT/PostOrderIterator.h>
#include <llvm/ADT/SmallPtrSet.h>
#include <llvm/Analysis/AssumptionCache.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Analysis/ScalarEvolution.h>
#include <llvm/Analysis/ScalarEvolutionExpressions.h>
#include <llvm/Analysis/TargetLibraryInfo.h>
#include <llvm/Analysis/ValueTracking.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/CommandLine.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/MemoryBuffer.h>
#include <llvm/Support/Regex.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/IPO/AlwaysInliner.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Transforms/Scalar/LowerAtomicPass.h>
#include <llvm/Transforms/Utils/Cloning.h>
#include <llvm/Transforms/Utils/BasicBlockUtils.h>
#include <llvm/Transforms/Utils/Local.h>

#include <fstream>
#include <regex>
#include <set>

using namespace llvm;

static cl::list<std::string> Inputs(cl::Positional, cl::OneOrMore);
static cl::opt<std::string> Out("o", cl::Required);
static cl::opt<std::string> OpaqueFile("opaque", cl::init(""));
static cl::opt<std::string> EntriesFile("entries", cl::Required);
static cl::opt<bool> Light("light", cl::desc("keep the shape of loops"));
static cl::opt<bool> LowerAtomic("lower-atomic", cl::init(false));
static cl::opt<std::string> DumpIR("dump-ir", cl::init(""));

// Patterns starting with "D:" are for the whole demangled name, the others for
// the qualified name without arguments.
static std::vector<std::regex> readPatterns(const std::string& f,
                                            bool whole = false) {
    std::vector<std::regex> r;
    if (f.empty()) return r;
    std::ifstream in(f);
    std::string l;
    while (std::getline(in, l)) {
        if (l.empty() || l[0] == '#') continue;
        if ((l.compare(0, 2, "D:") == 0) != whole) continue;
        r.emplace_back(whole ? l.substr(2) : l, std::regex::extended);
    }
    return r;
}
// Qualified name without template and function arguments, e.g.
// "std::unordered_map::emplace".
static std::string stripArgs(const std::string& s) {
    std::string r;
    int depth = 0;
    for (size_t i = 0; i < s.size(); ++i) {
        char c = s[i];
        if (c == '<') {
            ++depth;
            continue;
        }
        if (c == '>' && depth > 0) {
            --depth;
            continue;
        }
        if (depth == 0) r += c;
    }
    return r;
}
static std::string qname(StringRef sym) {
    ItaniumPartialDemangler D;
    std::string m = sym.str();
    if (m.rfind("_Z", 0) != 0) return m;
    if (D.partialDemangle(m.c_str())) return demangle(m);
    if (!D.isFunction()) return demangle(m);
    size_t n = 0;
    char* ctx = D.getFunctionDeclContextName(nullptr, &n);
    std::string r = ctx ? stripArgs(ctx) : "";
    if (ctx) std::free(ctx);
    n = 0;
    char* base = D.getFunctionBaseName(nullptr, &n);
    std::string b = base ? base : "";
    if (base) std::free(base);
    if (b.rfind("operator", 0) != 0) b = stripArgs(b);
    else if (b.size() > 9 && b[8] == ' ' && b.find('<') != std::string::npos &&
             b.rfind("operator<", 0) != 0)
        b = stripArgs(b);
    return r.empty() ? b : r + "::" + b;
}
static bool matches(const std::vector<std::regex>& rs, const std::string& s) {
    for (auto& r : rs)
        if (std::regex_search(s, r)) return true;
    return false;
}

struct Ctx {
    ScalarEvolution* SE;
    LoopInfo* LI;
    DenseMap<const Value*, int> id;
    DenseMap<const BasicBlock*, int> bb;
    const DataLayout* DL;
};

static json::Value ref(Ctx& C, const Value* V, int depth = 0) {
    if (auto* A = dyn_cast<Argument>(V))
        return json::Object{{"k", "arg"}, {"i", (int)A->getArgNo()}};
    if (auto* CI = dyn_cast<ConstantInt>(V)) {
        if (CI->getBitWidth() <= 64)
            return json::Object{{"k", "int"},
                                {"v", CI->getSExtValue()},
                                {"w", (int)CI->getBitWidth()}};
        SmallString<40> s;
        CI->getValue().toStringSigned(s);
        return json::Object{{"k", "bigint"}, {"v", s.str().str()}};
    }
    if (isa<ConstantPointerNull>(V)) return json::Object{{"k", "null"}};
    if (isa<UndefValue>(V)) return json::Object{{"k", "undef"}};
    if (auto* GV = dyn_cast<GlobalVariable>(V)) {
        json::Object o{{"k", "global"}, {"n", GV->getName()}};
        if (GV->hasInitializer())
            if (auto* CDA = dyn_cast<ConstantDataArray>(GV->getInitializer()))
                if (CDA->isCString()) {
                    auto S = CDA->getAsCString();
                    if (json::isUTF8(S)) o["str"] = S.str();
                }
        if (GV->isConstant() && GV->hasDefinitiveInitializer())
            if (auto* CI = dyn_cast<ConstantInt>(GV->getInitializer()))
                if (CI->getBitWidth() <= 64) o["cv"] = CI->getSExtValue();
        return o;
    }
    if (auto* F = dyn_cast<Function>(V))
        return json::Object{{"k", "fn"}, {"n", demangle(F->getName().str())}, {"qn", qname(F->getName())}};
    if (auto* I = dyn_cast<Instruction>(V)) {
        auto it = C.id.find(I);
        return json::Object{{"k", "ins"},
                            {"i", it == C.id.end() ? -1 : it->second}};
    }
    if (auto* CE = dyn_cast<ConstantExpr>(V)) {
        if (depth < 6) {
            if (auto* G = dyn_cast<GEPOperator>(CE)) {
                APInt off(64, 0);
                if (G->accumulateConstantOffset(*C.DL, off))
                    return json::Object{
                        {"k", "cgep"},
                        {"b", ref(C, G->getPointerOperand(), depth + 1)},
                        {"o", off.getSExtValue()}};
            }
            json::Array a;
            for (auto& op : CE->operands()) a.push_back(ref(C, op, depth + 1));
            std::string opn = CE->getOpcodeName();
            if (CE->isCompare())
                opn += std::string(" ") +
                       CmpInst::getPredicateName(
                           static_cast<CmpInst::Predicate>(
                               CE->getPredicate()))
                           .str();
            return json::Object{{"k", "cexpr"},
                                {"op", opn},
                                {"a", std::move(a)}};
        }
    }
    if (auto* CA = dyn_cast<ConstantAggregate>(V)) {
        json::Array a;
        if (depth < 3)
            for (auto& op : CA->operands()) a.push_back(ref(C, op, depth + 1));
        return json::Object{{"k", "cagg"}, {"a", std::move(a)}};
    }
    return json::Object{{"k", "other"}};
}

static json::Value scev(Ctx& C, const SCEV* S, int depth = 0) {
    if (depth > 24) return json::Array{"deep"};
    auto nary = [&](const char* n, const SCEVNAryExpr* E) {
        json::Array a{n};
        for (auto* o : E->operands()) a.push_back(scev(C, o, depth + 1));
        return a;
    };
    switch (S->getSCEVType()) {
        case scConstant: {
            auto& v = cast<SCEVConstant>(S)->getAPInt();
            if (v.getSignificantBits() <= 64)
                return json::Array{"int", v.getSExtValue()};
            return json::Array{"deep"};
        }
        case scVScale: return json::Array{"deep"};
        case scTruncate:
        case scZeroExtend:
        case scSignExtend:
        case scPtrToInt: {
            auto* E = cast<SCEVCastExpr>(S);
            const char* n = S->getSCEVType() == scTruncate     ? "trunc"
                            : S->getSCEVType() == scZeroExtend ? "zext"
                            : S->getSCEVType() == scSignExtend ? "sext"
                                                               : "p2i";
            return json::Array{n, scev(C, E->getOperand(), depth + 1)};
        }
        case scAddExpr: return nary("add", cast<SCEVNAryExpr>(S));
        case scMulExpr: return nary("mul", cast<SCEVNAryExpr>(S));
        case scUDivExpr: {
            auto* E = cast<SCEVUDivExpr>(S);
            return json::Array{"udiv", scev(C, E->getLHS(), depth + 1),
                               scev(C, E->getRHS(), depth + 1)};
        }
        case scAddRecExpr: {
            auto* E = cast<SCEVAddRecExpr>(S);
            json::Array a{"rec", C.bb.lookup(E->getLoop()->getHeader())};
            for (auto* o : E->operands()) a.push_back(scev(C, o, depth + 1));
            return a;
        }
        case scUMaxExpr: return nary("umax", cast<SCEVNAryExpr>(S));
        case scSMaxExpr: return nary("smax", cast<SCEVNAryExpr>(S));
        case scUMinExpr: return nary("umin", cast<SCEVNAryExpr>(S));
        case scSMinExpr: return nary("smin", cast<SCEVNAryExpr>(S));
        case scSequentialUMinExpr: return nary("umin", cast<SCEVNAryExpr>(S));
        case scUnknown:
            return json::Array{"unk",
                               ref(C, cast<SCEVUnknown>(S)->getValue())};
        case scCouldNotCompute: return json::Array{"none"};
    }
    return json::Array{"none"};
}

static json::Value dbg(const DebugLoc& L) {
    json::Array a;
    DILocation* d = L.get();
    while (d) {
        auto* SP = d->getScope()->getSubprogram();
        json::Object o;
        std::string fn = d->getFilename().str();
        if (!fn.empty() && fn[0] != '/') fn = d->getDirectory().str() + "/" + fn;
        o["f"] = fn;
        o["l"] = (int)d->getLine();
        if (SP)
            o["n"] = demangle(SP->getLinkageName().empty()
                                  ? SP->getName().str()
                                  : SP->getLinkageName().str());
        a.push_back(std::move(o));
        d = d->getInlinedAt();
    }
    return a;
}

static std::string tyStr(Type* T) {
    std::string s;
    raw_string_ostream os(s);
    T->print(os, false, true);
    return s;
}

static const char* orderName(AtomicOrdering o) {
    return toIRString(o);
}

static json::Object dumpFunction(Function& F, FunctionAnalysisManager& FAM) {
    Ctx C;
    C.SE = &FAM.getResult<ScalarEvolutionAnalysis>(F);
    C.LI = &FAM.getResult<LoopAnalysis>(F);
    C.DL = &F.getParent()->getDataLayout();
    int n = 0, b = 0;
    for (auto& BB : F) {
        C.bb[&BB] = b++;
        for (auto& I : BB) C.id[&I] = n++;
    }
    json::Object o;
    o["name"] = demangle(F.getName().str());
    o["qn"] = qname(F.getName());
    o["sym"] = F.getName();
    if (auto* SP = F.getSubprogram()) {
        std::string fn = SP->getFilename().str();
        if (!fn.empty() && fn[0] != '/')
            fn = SP->getDirectory().str() + "/" + fn;
        o["file"] = fn;
        o["line"] = (int)SP->getLine();
    }
    json::Array args;
    for (auto& A : F.args())
        args.push_back(json::Object{{"n", A.getName()},
                                    {"t", tyStr(A.getType())},
                                    {"sret", A.hasStructRetAttr()},
                                    {"byval", A.hasByValAttr()}});
    o["args"] = std::move(args);
    o["nounwind"] = F.doesNotThrow();
    json::Array blocks;
    for (auto& BB : F) {
        json::Object bo;
        bo["id"] = C.bb[&BB];
        json::Array succ;
        for (auto* S : successors(&BB)) succ.push_back(C.bb[S]);
        bo["succ"] = std::move(succ);
        if (auto* L = C.LI->getLoopFor(&BB)) {
            bo["loop"] = C.bb[L->getHeader()];
            bo["depth"] = (int)L->getLoopDepth();
        }
        json::Array ins;
        for (auto& I : BB) {
            json::Object io;
            io["id"] = C.id[&I];
            io["op"] = I.getOpcodeName();
            io["t"] = tyStr(I.getType());
            if (I.getDebugLoc()) io["loc"] = dbg(I.getDebugLoc());
            if (auto* CB = dyn_cast<CallBase>(&I)) {
                json::Array a;
                for (unsigned i = 0; i < CB->arg_size(); ++i)
                    a.push_back(ref(C, CB->getArgOperand(i)));
                io["args"] = std::move(a);
                if (CB->getType()->isIntegerTy() || CB->getType()->isPointerTy())
                    ;
                auto* Callee = dyn_cast<Function>(
                    CB->getCalledOperand()->stripPointerCasts());
                if (Callee) {
                    io["callee"] = demangle(Callee->getName().str());
                    io["sym"] = Callee->getName();
                    io["qn"] = qname(Callee->getName());
                    if (Callee->isIntrinsic()) io["intr"] = true;
                } else {
                    io["ind"] = ref(C, CB->getCalledOperand());
                }
                json::Array sc;
                for (unsigned i = 0; i < CB->arg_size(); ++i) {
                    auto* AO = CB->getArgOperand(i);
                    if (C.SE->isSCEVable(AO->getType()))
                        sc.push_back(scev(C, C.SE->getSCEV(AO)));
                    else
                        sc.push_back(nullptr);
                }
                io["asc"] = std::move(sc);
                if (CB->doesNotThrow()) io["nounwind"] = true;
                if (auto* II = dyn_cast<InvokeInst>(CB)) {
                    io["normal"] = C.bb[II->getNormalDest()];
                    io["unwind"] = C.bb[II->getUnwindDest()];
                }
            } else {
                json::Array a;
                for (auto& op : I.operands()) {
                    if (isa<BasicBlock>(op)) continue;
                    a.push_back(ref(C, op));
                }
                io["args"] = std::move(a);
            }
            if (auto* P = dyn_cast<PHINode>(&I)) {
                json::Array pb;
                for (unsigned i = 0; i < P->getNumIncomingValues(); ++i)
                    pb.push_back(C.bb[P->getIncomingBlock(i)]);
                io["pb"] = std::move(pb);
            }
            if (auto* Cm = dyn_cast<CmpInst>(&I))
                io["pred"] = CmpInst::getPredicateName(Cm->getPredicate());
            if (auto* Br = dyn_cast<BranchInst>(&I)) {
                if (Br->isConditional()) {
                    io["tb"] = C.bb[Br->getSuccessor(0)];
                    io["fb"] = C.bb[Br->getSuccessor(1)];
                }
            }
            if (auto* Sw = dyn_cast<SwitchInst>(&I)) {
                json::Array cs;
                for (auto& c : Sw->cases())
                    cs.push_back(json::Array{
                        c.getCaseValue()->getSExtValue(),
                        C.bb[c.getCaseSuccessor()]});
                io["cases"] = std::move(cs);
                io["default"] = C.bb[Sw->getDefaultDest()];
            }
            if (auto* G = dyn_cast<GetElementPtrInst>(&I)) {
                unsigned bw = C.DL->getIndexTypeSizeInBits(G->getType());
                MapVector<Value*, APInt> vars;
                APInt cst(bw, 0);
                if (G->collectOffset(*C.DL, bw, vars, cst)) {
                    io["off"] = cst.getSExtValue();
                    json::Array vs;
                    for (auto& p : vars)
                        vs.push_back(json::Array{ref(C, p.first),
                                                 p.second.getSExtValue()});
                    io["vars"] = std::move(vs);
                }
            }
            if (auto* A = dyn_cast<AllocaInst>(&I)) {
                if (auto s = A->getAllocationSize(*C.DL))
                    if (!s->isScalable()) io["size"] = (int64_t)s->getFixedValue();
                io["at"] = tyStr(A->getAllocatedType());
                io["align"] = (int64_t)A->getAlign().value();
            }
            if (auto* Ld = dyn_cast<LoadInst>(&I)) {
                io["align"] = (int64_t)Ld->getAlign().value();
                if (Ld->isAtomic()) io["ord"] = orderName(Ld->getOrdering());
                if (Ld->isVolatile()) io["vol"] = true;
                io["sc"] = scev(C, C.SE->getSCEV(Ld->getPointerOperand()));
                io["sz"] = (int64_t)C.DL->getTypeStoreSize(Ld->getType());
            }
            if (auto* St = dyn_cast<StoreInst>(&I)) {
                io["align"] = (int64_t)St->getAlign().value();
                if (St->isAtomic()) io["ord"] = orderName(St->getOrdering());
                io["sc"] = scev(C, C.SE->getSCEV(St->getPointerOperand()));
                if (C.SE->isSCEVable(St->getValueOperand()->getType()))
                    io["vsc"] = scev(C, C.SE->getSCEV(St->getValueOperand()));
                io["sz"] = (int64_t)C.DL->getTypeStoreSize(
                    St->getValueOperand()->getType());
            }
            if (auto* R = dyn_cast<AtomicRMWInst>(&I)) {
                io["rmw"] = AtomicRMWInst::getOperationName(R->getOperation());
                io["ord"] = orderName(R->getOrdering());
                io["sc"] = scev(C, C.SE->getSCEV(R->getPointerOperand()));
            }
            if (auto* X = dyn_cast<AtomicCmpXchgInst>(&I)) {
                io["ord"] = orderName(X->getSuccessOrdering());
                io["ford"] = orderName(X->getFailureOrdering());
                io["weak"] = X->isWeak();
            }
            if (auto* LP = dyn_cast<LandingPadInst>(&I)) {
                io["cleanup"] = LP->isCleanup();
            }
            if (auto* EV = dyn_cast<ExtractValueInst>(&I)) {
                json::Array ix;
                for (auto x : EV->indices()) ix.push_back((int)x);
                io["ix"] = std::move(ix);
            }
            if (auto* IV = dyn_cast<InsertValueInst>(&I)) {
                json::Array ix;
                for (auto x : IV->indices()) ix.push_back((int)x);
                io["ix"] = std::move(ix);
            }
            if (!isa<LoadInst>(I) && !I.getType()->isVoidTy() &&
                C.SE->isSCEVable(I.getType()))
                io["scv"] = scev(C, C.SE->getSCEV(&I));
            ins.push_back(std::move(io));
        }
        bo["ins"] = std::move(ins);
        blocks.push_back(std::move(bo));
    }
    o["blocks"] = std::move(blocks);
    json::Array loops;
    for (auto* L : C.LI->getLoopsInPreorder()) {
        json::Object lo;
        lo["header"] = C.bb[L->getHeader()];
        if (L->getLoopPreheader()) lo["pre"] = C.bb[L->getLoopPreheader()];
        if (auto* P = L->getParentLoop()) lo["parent"] = C.bb[P->getHeader()];
        json::Array bl;
        for (auto* BB : L->blocks()) bl.push_back(C.bb[BB]);
        lo["blocks"] = std::move(bl);
        lo["btc"] = scev(C, C.SE->getBackedgeTakenCount(L));
        SmallVector<BasicBlock*, 4> ex;
        L->getExitingBlocks(ex);
        json::Array exits;
        for (auto* E : ex)
            exits.push_back(json::Object{
                {"b", C.bb[E]}, {"n", scev(C, C.SE->getExitCount(L, E))}});
        lo["exits"] = std::move(exits);
        loops.push_back(std::move(lo));
    }
    o["loops"] = std::move(loops);
    return o;
}

// Ways of leaving a scope that share its cleanup are told apart by a switch
// over a number: every predecessor of the switch gets one of its own, so that
// what leaves a loop is not taken for a part of it.
struct ThreadSwitches : PassInfoMixin<ThreadSwitches> {
    PreservedAnalyses run(Module& M, ModuleAnalysisManager&) {
        bool any = false;
        for (auto& F : M) {
            std::vector<BasicBlock*> todo;
            for (auto& B : F) {
                auto* S = dyn_cast<SwitchInst>(B.getTerminator());
                auto* P = S ? dyn_cast<PHINode>(S->getCondition()) : nullptr;
                if (!P || P->getParent() != &B || B.isEHPad()) continue;
                bool ok = true;
                for (auto& V : P->incoming_values())
                    ok = ok && isa<ConstantInt>(V);
                for (auto& I : B)
                    ok = ok && (isa<PHINode>(I) || &I == S ||
                                isa<DbgInfoIntrinsic>(I) ||
                                I.isLifetimeStartOrEnd());
                for (auto* Q : predecessors(&B))
                    ok = ok && Q != &B && isa<BranchInst>(Q->getTerminator());
                for (auto* Q : successors(&B)) ok = ok && !Q->isEHPad();
                if (ok) todo.push_back(&B);
            }
            for (auto* B : todo) {
                any = true;
                std::set<BasicBlock*> ss(succ_begin(B), succ_end(B));
                for (auto* Q : ss)
                    while (auto* P = dyn_cast<PHINode>(&Q->front()))
                        DemotePHIToStack(P);
                while (auto* P = dyn_cast<PHINode>(&B->front()))
                    DemotePHIToStack(P);
                std::vector<Instruction*> out;
                for (auto& I : *B)
                    for (auto* U : I.users())
                        if (cast<Instruction>(U)->getParent() != B) {
                            out.push_back(&I);
                            break;
                        }
                for (auto* I : out) DemoteRegToStack(*I);
                std::set<BasicBlock*> ps(pred_begin(B), pred_end(B));
                for (auto* P : ps) {
                    ValueToValueMapTy vm;
                    BasicBlock* C = CloneBasicBlock(B, vm, "", &F);
                    for (auto& I : *C)
                        RemapInstruction(&I, vm, RF_IgnoreMissingLocals |
                                                     RF_NoModuleLevelChanges);
                    P->getTerminator()->replaceSuccessorWith(B, C);
                }
                DeleteDeadBlock(B);
            }
        }
        return any ? PreservedAnalyses::none() : PreservedAnalyses::all();
    }
};

int main(int argc, char** argv) {
    cl::ParseCommandLineOptions(argc, argv);
    auto opaque = readPatterns(OpaqueFile);
    auto opaqueD = readPatterns(OpaqueFile, true);
    auto entriesD = readPatterns(EntriesFile, true);
    auto entriesP = readPatterns(EntriesFile);
    LLVMContext Ctxt;
    SMDiagnostic Err;
    std::unique_ptr<Module> M;
    for (auto& f : Inputs) {
        auto m = parseIRFile(f, Err, Ctxt);
        if (!m) {
            Err.print("vpx", errs());
            return 2;
        }
        if (!M)
            M = std::move(m);
        else if (Linker::linkModules(*M, std::move(m))) {
            errs() << "link error\n";
            return 2;
        }
    }
    std::set<std::string> entryNames;
    json::Array opaqueUsed;
    json::Array defs;
    std::vector<Function*> toDrop;
    for (auto& F : *M) {
        if (F.isDeclaration()) continue;
        std::string d = demangle(F.getName().str());
        if (auto* SP = F.getSubprogram()) {
            std::string fn = SP->getFilename().str();
            if (!fn.empty() && fn[0] != '/')
                fn = SP->getDirectory().str() + "/" + fn;
            if (fn.find("/usr/") != 0)
                defs.push_back(json::Object{{"n", d},
                                            {"q", qname(F.getName())},
                                            {"f", fn},
                                            {"l", (int)SP->getLine()}});
        }
        std::string q = qname(F.getName());
        bool entry = matches(entriesP, q) || matches(entriesD, d);
        if (!entry && (matches(opaque, q) || matches(opaqueD, d))) {
            toDrop.push_back(&F);
            continue;
        }
        F.removeFnAttr(Attribute::NoInline);
        F.removeFnAttr(Attribute::OptimizeNone);
        if (entry) {
            entryNames.insert(F.getName().str());
            F.setLinkage(GlobalValue::ExternalLinkage);
            F.setVisibility(GlobalValue::DefaultVisibility);
            F.setComdat(nullptr);
        } else {
            F.setComdat(nullptr);
            F.setLinkage(GlobalValue::InternalLinkage);
            F.setVisibility(GlobalValue::DefaultVisibility);
            // directly recursive functions cannot be inlined away
            bool rec = false;
            for (auto& I : instructions(F))
                if (auto* CB = dyn_cast<CallBase>(&I))
                    if (CB->getCalledFunction() == &F) rec = true;
            if (!rec) F.addFnAttr(Attribute::AlwaysInline);
        }
    }
    for (auto* F : toDrop) {
        opaqueUsed.push_back(demangle(F->getName().str()));
        F->deleteBody();
        F->setComdat(nullptr);
        F->setLinkage(GlobalValue::ExternalLinkage);
        F->setVisibility(GlobalValue::DefaultVisibility);
    }
    // The standard library promises a non-null result of
    // memory_resource::allocate; vecmem resources are allowed to return null
    // (for zero-size requests), so do not let null checks be optimised away.
    auto weaken = [](AttributeList L, LLVMContext& X) {
        L = L.removeRetAttribute(X, Attribute::NonNull);
        L = L.removeRetAttribute(X, Attribute::Alignment);
        L = L.removeRetAttribute(X, Attribute::Dereferenceable);
        L = L.removeRetAttribute(X, Attribute::NoAlias);
        L = L.removeRetAttribute(X, Attribute::NoUndef);
        return L;
    };
    for (auto& F : *M) {
        if (qname(F.getName()) == "std::pmr::memory_resource::allocate")
            F.setAttributes(weaken(F.getAttributes(), Ctxt));
        for (auto& I : instructions(F))
            if (auto* CB = dyn_cast<CallBase>(&I))
                if (auto* C = CB->getCalledFunction())
                    if (qname(C->getName()) ==
                        "std::pmr::memory_resource::allocate")
                        CB->setAttributes(weaken(CB->getAttributes(), Ctxt));
    }
    // Global aliases (constructor/destructor variants): resolve to aliasee.
    std::vector<GlobalAlias*> al;
    for (auto& A : M->aliases()) al.push_back(&A);
    for (auto* A : al) {
        if (auto* F = dyn_cast<Function>(A->getAliasee()->stripPointerCasts())) {
            std::string nm = A->getName().str();
            std::string d = demangle(nm);
            A->replaceAllUsesWith(F);
            A->eraseFromParent();
        }
    }
    // Entries are kept out of each other: an entry called by another entry is
    // inlined through a private clone.
    for (auto& nm : std::vector<std::string>(entryNames.begin(), entryNames.end())) {
        Function* F = M->getFunction(nm);
        if (!F || F->use_empty()) continue;
        bool called = false;
        for (auto* U : F->users())
            if (auto* CB = dyn_cast<CallBase>(U))
                if (CB->getCalledFunction() == F &&
                    CB->getFunction() != F)
                    called = true;
        if (!called) continue;
        ValueToValueMapTy vm;
        Function* G = CloneFunction(F, vm);
        G->setLinkage(GlobalValue::InternalLinkage);
        G->addFnAttr(Attribute::AlwaysInline);
        std::vector<CallBase*> cs;
        for (auto* U : F->users())
            if (auto* CB = dyn_cast<CallBase>(U))
                if (CB->getCalledFunction() == F && CB->getFunction() != F &&
                    CB->getFunction() != G)
                    cs.push_back(CB);
        for (auto* CB : cs) CB->setCalledFunction(G);
    }

    PassBuilder PB([] {
        return nullptr;
    }(), [] {
        PipelineTuningOptions o;
        o.LoopVectorization = false;
        o.SLPVectorization = false;
        o.LoopUnrolling = false;
        o.LoopInterleaving = false;
        o.MergeFunctions = false;
        return o;
    }());
    LoopAnalysisManager LAM;
    FunctionAnalysisManager FAM;
    CGSCCAnalysisManager CGAM;
    ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM);
    PB.registerCGSCCAnalyses(CGAM);
    PB.registerFunctionAnalyses(FAM);
    PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    if (LowerAtomic)
        MPM.addPass(createModuleToFunctionPassAdaptor(LowerAtomicPass()));
    MPM.addPass(AlwaysInlinerPass(true));
    MPM.addPass(GlobalDCEPass());
    if (Light) {
        // Promotes, folds and simplifies, but does not transform loops.
        for (int k = 0; k < 3; ++k) {
            if (k == 2) MPM.addPass(ThreadSwitches());
            const char* text =
                "inferattrs,cgscc(function-attrs),"
                "function(lower-expect,simplifycfg,sroa<modify-cfg>,early-cse<memssa>,"
                "instcombine<no-verify-fixpoint>,simplifycfg,sroa<modify-cfg>,"
                "gvn<no-pre;no-load-pre>,sccp,"
                "instcombine<no-verify-fixpoint>,early-cse<memssa>,adce,"
                "simplifycfg),always-inline,globaldce";
            if (auto e = PB.parsePassPipeline(MPM, text)) {
                errs() << toString(std::move(e)) << "\n";
                return 1;
            }
        }
    } else {
        MPM.addPass(PB.buildPerModuleDefaultPipeline(OptimizationLevel::O2));
        MPM.addPass(ThreadSwitches());
        MPM.addPass(PB.buildPerModuleDefaultPipeline(OptimizationLevel::O2));
    }
    MPM.run(*M, MAM);
    if (!DumpIR.empty()) {
        std::error_code ec;
        raw_fd_ostream os(DumpIR, ec);
        M->print(os, nullptr);
    }
    json::Array fns;
    for (auto& nm : entryNames) {
        Function* F = M->getFunction(nm);
        if (!F || F->isDeclaration()) continue;
        fns.push_back(dumpFunction(*F, FAM));
    }
    json::Object o;
    o["functions"] = std::move(fns);
    o["opaque"] = std::move(opaqueUsed);
    o["defs"] = std::move(defs);
    std::error_code ec;
    raw_fd_ostream os(Out, ec);
    os << json::Value(std::move(o)) << "\n";
    return 0;
}
