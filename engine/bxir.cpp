// bxir: links the bitcode of /repo's translation units, normalises it (helpers that are not part of the known
// interface are inlined, memory is promoted to SSA, trivial control flow is folded) and exports a JSON model of the
// resolved program for the python analyses.  It executes nothing of the program.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/ValueMapper.h"
#include "llvm/Analysis/CallGraph.h"
#include <fstream>
#include <set>
#include <map>
#include <string>
#include <cstdlib>
using namespace llvm;

static const DataLayout *DL;
static std::map<const Value*,int> ids;

static std::string tyStr(Type *T){std::string s;raw_string_ostream o(s);T->print(o,false,true);return o.str();}
static int64_t tySize(Type *T){if (!T->isSized()) return -1;TypeSize s = DL->getTypeStoreSize(T);return s.isScalable() ? -1 : (int64_t)s.getFixedValue();}

static void constJ(json::OStream &J,const Constant *C);

static void opJ(json::OStream &J,const Value *V)
{
    if (auto *C = dyn_cast<Constant>(V)) {constJ(J,C);return;}
    if (auto *A = dyn_cast<Argument>(V)) {J.object([&]{J.attribute("a",(int64_t)A->getArgNo());});return;}
    if (isa<BasicBlock>(V)) {J.object([&]{J.attribute("bb",(int64_t)ids[V]);});return;}
    if (isa<Instruction>(V)) {J.object([&]{J.attribute("v",(int64_t)ids[V]);});return;}
    J.object([&]{J.attribute("x","?");});
}

static bool gepParts(const GEPOperator *G,int64_t &off,std::vector<std::pair<const Value*,int64_t>> &var,json::OStream *J)
{
    off = 0;
    for(auto GI = gep_type_begin(G),E = gep_type_end(G);GI != E;++GI)
    {
        const Value *Ix = GI.getOperand();
        if (StructType *ST = GI.getStructTypeOrNull())
        {
            unsigned n = cast<ConstantInt>(Ix)->getZExtValue();
            off += DL->getStructLayout(ST)->getElementOffset(n);
            continue;
        }
        int64_t es = DL->getTypeAllocSize(GI.getIndexedType()).getFixedValue();
        if (auto *CI = dyn_cast<ConstantInt>(Ix)) off += es*CI->getSExtValue();
        else var.push_back({Ix,es});
    }
    return true;
}

static void gepJ(json::OStream &J,const GEPOperator *G)
{
    int64_t off;std::vector<std::pair<const Value*,int64_t>> var;
    gepParts(G,off,var,nullptr);
    J.attributeBegin("b");opJ(J,G->getPointerOperand());J.attributeEnd();
    J.attribute("o",off);
    J.attribute("st",tyStr(G->getSourceElementType()));
    J.attribute("nops",(int64_t)G->getNumIndices());
    J.attributeArray("vix",[&]{for(auto &p : var) J.array([&]{opJ(J,p.first);J.value(p.second);});});
    // array subscripts: [length, element size, index, offset before]
    J.attributeArray("ax",[&]{
        int64_t o = 0;
        Type *Cur = nullptr;    // null: the leading pointer index
        for(auto It = G->idx_begin();It != G->idx_end();++It)
        {
            const Value *Ix = *It;
            if (Cur == nullptr) 
            {
                Cur = G->getSourceElementType();
                if (auto *CI = dyn_cast<ConstantInt>(Ix)) o += (int64_t)DL->getTypeAllocSize(Cur).getFixedValue()*CI->getSExtValue();
                continue;
            }
            if (StructType *ST = dyn_cast<StructType>(Cur))
            {
                unsigned n = cast<ConstantInt>(Ix)->getZExtValue();
                o += DL->getStructLayout(ST)->getElementOffset(n);
                Cur = ST->getElementType(n);
                continue;
            }
            if (ArrayType *AT = dyn_cast<ArrayType>(Cur))
            {
                int64_t es = DL->getTypeAllocSize(AT->getElementType()).getFixedValue();
                J.array([&]{J.value((int64_t)AT->getNumElements());J.value(es);opJ(J,Ix);J.value(o);});
                if (auto *CI = dyn_cast<ConstantInt>(Ix)) o += es*CI->getSExtValue();
                Cur = AT->getElementType();
                continue;
            }
            break;
        }
    });
}

static void constJ(json::OStream &J,const Constant *C)
{
    J.object([&]{
        if (auto *CI = dyn_cast<ConstantInt>(C))
        {
            J.attribute("w",(int64_t)CI->getBitWidth());
            if (CI->getBitWidth() <= 64) J.attribute("c",CI->getSExtValue());
            else {SmallString<64> S;CI->getValue().toStringSigned(S);J.attribute("cs",S.str());}
        }
        else if (auto *F = dyn_cast<ConstantFP>(C))
        {
            SmallString<32> S;F->getValueAPF().toString(S);J.attribute("f",S.str());
        }
        else if (isa<ConstantPointerNull>(C)) J.attribute("null",1);
        else if (isa<UndefValue>(C)) J.attribute("undef",1);
        else if (auto *GV = dyn_cast<GlobalValue>(C)) J.attribute("g",GV->getName());
        else if (auto *GO = dyn_cast<GEPOperator>(C))
        {
            APInt Off(64,0);
            const Value *B = GO;
            B = GO->stripAndAccumulateConstantOffsets(*DL,Off,true);
            if (auto *GV = dyn_cast<GlobalValue>(B)) {J.attribute("g",GV->getName());J.attribute("go",Off.getSExtValue());}
            else J.attribute("x","cgep");
        }
        else if (auto *CE = dyn_cast<ConstantExpr>(C))
        {
            J.attribute("ce",CE->getOpcodeName());
            J.attributeArray("ops",[&]{for(auto &o : CE->operands()) opJ(J,o);});
        }
        else if (isa<ConstantAggregateZero>(C)) {J.attribute("zero",1);J.attribute("sz",tySize(C->getType()));}
        else if (auto *CDS = dyn_cast<ConstantDataSequential>(C))
        {
            J.attribute("ds",1);
            J.attribute("es",(int64_t)CDS->getElementByteSize());
            if (CDS->isString() || CDS->getElementByteSize() == 1)
            {
                std::string hex;
                for(unsigned char c : CDS->getRawDataValues()) {char b[4];snprintf(b,4,"%02x",c);hex += b;}
                J.attribute("hex",hex);
            }
            else
                J.attributeArray("el",[&]{for(unsigned i = 0;i < CDS->getNumElements();i++) 
                    if (CDS->getElementType()->isIntegerTy()) J.value(CDS->getElementAsAPInt(i).getSExtValue());
                    else J.value(CDS->getElementAsAPFloat(i).convertToDouble());});
        }
        else if (auto *CA = dyn_cast<ConstantAggregate>(C))
        {
            J.attributeArray("agg",[&]{
                if (auto *ST = dyn_cast<StructType>(C->getType()))
                {
                    auto *SL = DL->getStructLayout(ST);
                    for(unsigned i = 0;i < CA->getNumOperands();i++)
                        J.array([&]{J.value((int64_t)SL->getElementOffset(i));constJ(J,CA->getOperand(i));});
                }
                else
                {
                    int64_t es = CA->getNumOperands() ? (int64_t)DL->getTypeAllocSize(CA->getOperand(0)->getType()).getFixedValue() : 0;
                    for(unsigned i = 0;i < CA->getNumOperands();i++)
                        J.array([&]{J.value(es*(int64_t)i);constJ(J,CA->getOperand(i));});
                }
            });
        }
        else J.attribute("x",tyStr(C->getType()));
    });
}

static std::map<std::string,int> fileIx;static std::vector<std::string> files;
static int fileId(const DIFile *F)
{
    std::string n = F ? (F->getFilename().startswith("/") ? F->getFilename().str() : (F->getDirectory()+"/"+F->getFilename()).str()) : "";
    auto it = fileIx.find(n);
    if (it != fileIx.end()) return it->second;
    int i = files.size();files.push_back(n);fileIx[n] = i;return i;
}

static void instJ(json::OStream &J,const Instruction &I)
{
    J.object([&]{
        J.attribute("i",(int64_t)ids[&I]);
        J.attribute("op",I.getOpcodeName());
        J.attribute("t",tyStr(I.getType()));
        if (auto &D = I.getDebugLoc())
        {
            J.attribute("l",(int64_t)D.getLine());
            J.attribute("f",(int64_t)fileId(cast<DIScope>(D.getScope())->getFile()));
        }
        if (auto *L = dyn_cast<LoadInst>(&I))
        {
            J.attributeArray("a",[&]{opJ(J,L->getPointerOperand());});
            J.attribute("sz",tySize(L->getType()));
        }
        else if (auto *S = dyn_cast<StoreInst>(&I))
        {
            J.attributeArray("a",[&]{opJ(J,S->getValueOperand());opJ(J,S->getPointerOperand());});
            J.attribute("sz",tySize(S->getValueOperand()->getType()));
            J.attribute("vt",tyStr(S->getValueOperand()->getType()));
        }
        else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) gepJ(J,cast<GEPOperator>(G));
        else if (auto *P = dyn_cast<PHINode>(&I))
            J.attributeArray("in",[&]{for(unsigned k = 0;k < P->getNumIncomingValues();k++) J.array([&]{opJ(J,P->getIncomingValue(k));J.value((int64_t)ids[P->getIncomingBlock(k)]);});});
        else if (auto *B = dyn_cast<BranchInst>(&I))
        {
            if (B->isConditional()) {J.attributeBegin("c");opJ(J,B->getCondition());J.attributeEnd();}
            J.attributeArray("s",[&]{for(unsigned k = 0;k < B->getNumSuccessors();k++) J.value((int64_t)ids[B->getSuccessor(k)]);});
        }
        else if (auto *W = dyn_cast<SwitchInst>(&I))
        {
            J.attributeBegin("c");opJ(J,W->getCondition());J.attributeEnd();
            J.attribute("d",(int64_t)ids[W->getDefaultDest()]);
            J.attributeArray("cs",[&]{for(auto &c : W->cases()) J.array([&]{J.value(c.getCaseValue()->getSExtValue());J.value((int64_t)ids[c.getCaseSuccessor()]);});});
            J.attributeArray("s",[&]{std::set<int> d;for(unsigned k = 0;k < W->getNumSuccessors();k++) {int id = ids[W->getSuccessor(k)];if (d.insert(id).second) J.value((int64_t)id);}});
        }
        else if (auto *C = dyn_cast<CallBase>(&I))
        {
            const Value *Callee = C->getCalledOperand()->stripPointerCasts();
            if (auto *F = dyn_cast<Function>(Callee)) J.attribute("fn",F->getName());
            else if (isa<InlineAsm>(Callee)) J.attribute("asm",cast<InlineAsm>(Callee)->getAsmString());
            else {J.attributeBegin("fp");opJ(J,Callee);J.attributeEnd();}
            J.attributeArray("a",[&]{for(auto &a : C->args()) opJ(J,a.get());});
            J.attributeArray("at",[&]{for(auto &a : C->args()) J.value(tyStr(a->getType()));});
            if (C->doesNotReturn()) J.attribute("nr",1);
            J.attributeArray("byval",[&]{for(unsigned k = 0;k < C->arg_size();k++) if (C->isByValArgument(k)) J.array([&]{J.value((int64_t)k);J.value(tySize(C->getParamByValType(k)));});});
        }
        else if (auto *A = dyn_cast<AllocaInst>(&I))
        {
            J.attribute("at",tyStr(A->getAllocatedType()));
            J.attribute("sz",tySize(A->getAllocatedType()));
            J.attributeArray("a",[&]{opJ(J,A->getArraySize());});
        }
        else
        {
            if (auto *K = dyn_cast<CmpInst>(&I)) J.attribute("p",CmpInst::getPredicateName(K->getPredicate()));
            J.attributeArray("a",[&]{for(auto &o : I.operands()) opJ(J,o);});
            if (isa<CastInst>(&I)) J.attribute("st",tyStr(I.getOperand(0)->getType()));
            if (auto *E = dyn_cast<ExtractValueInst>(&I)) J.attributeArray("ix",[&]{for(unsigned x : E->indices()) J.value((int64_t)x);});
            if (auto *E = dyn_cast<InsertValueInst>(&I)) J.attributeArray("ix",[&]{for(unsigned x : E->indices()) J.value((int64_t)x);});
        }
        if (I.getType()->isIntegerTy()) J.attribute("bw",(int64_t)I.getType()->getIntegerBitWidth());
    });
}

static std::string ditype(const DIType *T,int depth = 0)
{
    if (!T) return "void";
    if (depth > 8) return "...";
    if (auto *D = dyn_cast<DIDerivedType>(T))
    {
        std::string b = ditype(D->getBaseType(),depth+1);
        switch(D->getTag())
        {
            case dwarf::DW_TAG_pointer_type: return b+"*";
            case dwarf::DW_TAG_reference_type: return b+"&";
            case dwarf::DW_TAG_rvalue_reference_type: return b+"&&";
            case dwarf::DW_TAG_const_type: return "const "+b;
            case dwarf::DW_TAG_volatile_type: return b;
            case dwarf::DW_TAG_typedef: return D->getName().str();
        }
        return D->getName().str();
    }
    if (auto *C = dyn_cast<DICompositeType>(T))
    {
        if (C->getTag() == dwarf::DW_TAG_array_type) return ditype(C->getBaseType(),depth+1)+"[]";
        return C->getName().str();
    }
    if (auto *B = dyn_cast<DIBasicType>(T)) return B->getName().str();
    if (isa<DISubroutineType>(T)) return "fn";
    return "?";
}

static const DIType *stripTD(const DIType *T)
{
    while (auto *D = dyn_cast_or_null<DIDerivedType>(T))
    {
        if (D->getTag() == dwarf::DW_TAG_typedef || D->getTag() == dwarf::DW_TAG_const_type || D->getTag() == dwarf::DW_TAG_volatile_type) T = D->getBaseType();
        else break;
    }
    return T;
}

int main(int argc,char **argv)
{
    // bxir OUT.json KNOWN.txt passes a.bc b.bc ...
    LLVMContext Ctx;
    if (argc < 5) return 2;
    std::set<std::string> known;
    {
        std::ifstream f(argv[2]);std::string s;
        while (std::getline(f,s)) if (!s.empty()) known.insert(s);
    }
    std::string passes = argv[3];
    SMDiagnostic Err;
    std::unique_ptr<Module> M = std::make_unique<Module>("all",Ctx);
    {
        Linker L(*M);
        for(int i = 4;i < argc;i++)
        {
            auto m = parseIRFile(argv[i],Err,Ctx);
            if (!m) {Err.print(argv[0],errs());return 2;}
            if (i == 4) {M->setDataLayout(m->getDataLayout());M->setTargetTriple(m->getTargetTriple());}
            if (L.linkInModule(std::move(m))) {errs() << "link failed " << argv[i] << "\n";return 2;}
        }
    }
    DL = &M->getDataLayout();
    // all null-pointer constants spelled through a never written global are constants
    for(auto &G : M->globals())
    {
        if (G.isConstant() || !G.hasInitializer() || !G.getValueType()->isPointerTy() || !G.getInitializer()->isNullValue()) continue;
        bool only_loads = true;
        for(auto *U : G.users()) if (!isa<LoadInst>(U)) only_loads = false;
        if (!only_loads || G.getName() != "NULL_PTR") continue;   
        std::vector<LoadInst*> ls;
        for(auto *U : G.users()) ls.push_back(cast<LoadInst>(U));
        for(auto *l : ls) {l->replaceAllUsesWith(Constant::getNullValue(l->getType()));l->eraseFromParent();}
    }
    // diagnostic failure counters (debug_status) are outside every property: the optional shared status block is absent
    if (auto *G = M->getGlobalVariable("debug_status"))
    {
        std::vector<LoadInst*> ls;
        for(auto *U : G->users()) if (auto *L = dyn_cast<LoadInst>(U)) ls.push_back(L);
        for(auto *l : ls) {l->replaceAllUsesWith(Constant::getNullValue(l->getType()));l->eraseFromParent();}
    }
    // memory behaviour of the C/C++ library functions which only print or only inspect their arguments
    {
        static const char *print[] = {"__assert_fail","fprintf","printf","puts","putchar","fflush","fputc","fputs","strerror","perror","_exit","exit","abort","__errno_location","vfprintf"};
        static const char *inspect[] = {"strlen","strcmp","strncmp","strcasecmp","strncasecmp","strchr","strrchr","strstr","memcmp","memchr","atoi","atol","strnlen","isspace","isdigit","isxdigit","isalpha"};
        std::set<std::string> P(std::begin(print),std::end(print)),I(std::begin(inspect),std::end(inspect));
        for(auto &F : *M)
        {
            if (!F.isDeclaration()) continue;
            std::string n = F.getName().str();
            if (P.count(n) || n.rfind("_ZStls",0) == 0 || n.rfind("_ZNSo",0) == 0 || n.rfind("_ZSt4endl",0) == 0 || n.rfind("_ZNSt8ios_base",0) == 0 || n.rfind("_ZSt4setw",0) == 0 || n.rfind("_ZSt7setfill",0) == 0)
                F.setMemoryEffects(MemoryEffects::inaccessibleOrArgMemOnly());
            else if (I.count(n))
                F.setMemoryEffects(MemoryEffects::argMemOnly(ModRefInfo::Ref));
        }
    }
    auto runPasses = [&](const std::string &p)
    {
        LoopAnalysisManager LAM;FunctionAnalysisManager FAM;CGSCCAnalysisManager CGAM;ModuleAnalysisManager MAM;
        PassBuilder PB;
        PB.registerModuleAnalyses(MAM);PB.registerCGSCCAnalyses(CGAM);PB.registerFunctionAnalyses(FAM);PB.registerLoopAnalyses(LAM);
        PB.crossRegisterProxies(LAM,FAM,CGAM,MAM);
        ModulePassManager MPM;
        if (auto e = PB.parsePassPipeline(MPM,p)) {errs() << toString(std::move(e)) << "\n";exit(2);}
        MPM.run(*M,MAM);
    };
    for(auto &F : *M)
    {
        F.removeFnAttr(Attribute::OptimizeNone);
        F.removeFnAttr(Attribute::NoInline);
    }
    runPasses("function(sroa)");
    // inline helpers which are not part of the known function set (new helpers of a refactoring, lambdas)
    std::vector<std::string> inlined;
    if (!known.empty())
    {
        // a known function whose parameters were changed keeps its name without parameters
        auto plain = [](const std::string &s) -> std::string
        {
            ItaniumPartialDemangler D;
            if (D.partialDemangle(s.c_str())) return "";
            size_t n = 0;
            char *c = D.getFunctionDeclContextName(nullptr,&n);
            std::string r = std::string(c ? c : "")+"::";
            free(c);
            c = D.getFunctionBaseName(nullptr,&n);
            if (c == nullptr) return "";
            r += c;
            free(c);
            return r;
        };
        std::set<std::string> changed;
        for(auto &s : known)
        {
            Function *F = M->getFunction(s);
            if (F == nullptr) changed.insert(plain(s));
        }
        changed.erase("");
        std::set<Function*> helper;
        for(auto &F : *M)
            if (!F.isDeclaration() && !known.count(F.getName().str()) && !changed.count(plain(F.getName().str())) && !F.getName().startswith("_GLOBAL__") && !F.getName().startswith("__cxx_global") 
                && F.getName() != "main") helper.insert(&F);
        for(int round = 0;round < 12;round++)
        {
            std::vector<CallBase*> work;
            for(auto &F : *M)
                for(auto &I : instructions(F))
                    if (auto *C = dyn_cast<CallBase>(&I))
                        if (Function *T = C->getCalledFunction())
                            if (helper.count(T) && T != &F) work.push_back(C);
            if (work.empty()) break;
            for(auto *C : work)
            {
                InlineFunctionInfo IFI;
                inlined.push_back(C->getCalledFunction()->getName().str());
                InlineFunction(*C,IFI);
            }
        }
    }
    runPasses(passes);

    std::error_code EC;
    raw_fd_ostream OS(argv[1],EC);
    json::OStream J(OS);
    J.object([&]{
        J.attributeArray("inlined",[&]{for(auto &s : inlined) J.value(s);});
        J.attributeObject("globals",[&]{
            for(auto &G : M->globals())
                J.attributeObject(G.getName(),[&]{
                    J.attribute("const",G.isConstant());
                    J.attribute("t",tyStr(G.getValueType()));
                    J.attribute("sz",tySize(G.getValueType()));
                    J.attribute("local",G.hasLocalLinkage());
                    J.attribute("dn",demangle(G.getName().str()));
                    SmallVector<DIGlobalVariableExpression*,1> V;G.getDebugInfo(V);
                    if (!V.empty()) {J.attribute("l",(int64_t)V[0]->getVariable()->getLine());J.attribute("f",(int64_t)fileId(V[0]->getVariable()->getFile()));J.attribute("n",V[0]->getVariable()->getName());}
                    if (G.hasInitializer()) {J.attributeBegin("init");constJ(J,G.getInitializer());J.attributeEnd();}
                });
        });
        J.attributeObject("functions",[&]{
            for(auto &F : *M)
            {
                if (F.isIntrinsic() && F.isDeclaration()) continue;
                J.attributeObject(F.getName(),[&]{
                    J.attribute("dn",demangle(F.getName().str()));
                    J.attribute("decl",F.isDeclaration());
                    J.attribute("local",F.hasLocalLinkage());
                    J.attribute("rt",tyStr(F.getReturnType()));
                    J.attribute("nr",F.doesNotReturn());
                    J.attribute("va",F.isVarArg());
                    if (auto *SP = F.getSubprogram())
                    {
                        J.attribute("l",(int64_t)SP->getLine());J.attribute("f",(int64_t)fileId(SP->getFile()));
                        J.attribute("name",SP->getName());
                        if (auto *CT = dyn_cast_or_null<DICompositeType>(SP->getScope())) J.attribute("cls",CT->getName());
                        J.attribute("virt",(int64_t)(SP->getVirtuality() != 0 || (SP->getDeclaration() && SP->getDeclaration()->getVirtuality() != 0)));
                        auto TA = SP->getType()->getTypeArray();
                        J.attributeArray("dit",[&]{for(unsigned k = 0;k < TA.size();k++) J.value(ditype(TA[k]));});
                        J.attribute("this_first",(int64_t)(TA.size() > 1 && TA[1] && (TA[1]->getFlags() & DINode::FlagObjectPointer) ? 1 : 0));
                        J.attributeArray("pn",[&]{
                            std::map<unsigned,std::string> pn;
                            for(auto *N : SP->getRetainedNodes()) if (auto *V = dyn_cast<DILocalVariable>(N)) if (V->getArg()) pn[V->getArg()] = V->getName().str();
                            for(auto &I : instructions(F)) if (auto *D = dyn_cast<DbgVariableIntrinsic>(&I)) if (D->getVariable()->getArg() && D->getVariable()->getScope() == SP) pn[D->getVariable()->getArg()] = D->getVariable()->getName().str();
                            for(unsigned k = 1;k <= F.arg_size()+1;k++) J.value(pn.count(k) ? pn[k] : "");
                        });
                    }
                    J.attributeArray("args",[&]{for(auto &A : F.args()) J.object([&]{J.attribute("t",tyStr(A.getType()));J.attribute("sz",tySize(A.getType()));if (A.hasStructRetAttr()) J.attribute("sret",1);if (A.hasByValAttr()) J.attribute("byval",tySize(A.getParamByValType()));});});
                    if (F.isDeclaration()) return;
                    ids.clear();
                    int n = 0;
                    for(auto &B : F) ids[&B] = n++;
                    n = 0;
                    for(auto &I : instructions(F)) ids[&I] = n++;
                    J.attributeArray("blocks",[&]{
                        for(auto &B : F) J.array([&]{
                            for(auto &I : B)
                            {
                                if (isa<DbgInfoIntrinsic>(I)) continue;
                                instJ(J,I);
                            }
                        });
                    });
                });
            }
        });
        J.attributeArray("types",[&]{
            DebugInfoFinder DF;DF.processModule(*M);
            std::set<std::string> seen;
            for(auto *T : DF.types())
            {
                auto *C = dyn_cast<DICompositeType>(T);
                if (!C || C->isForwardDecl()) continue;
                if (C->getTag() == dwarf::DW_TAG_array_type) continue;
                std::string fn = C->getFile() ? C->getFile()->getFilename().str() : "";
                if (fn.find("/usr/") != std::string::npos && fn.find("libxml") == std::string::npos) continue;
                std::string name = C->getName().str();
                J.object([&]{
                    J.attribute("name",name);
                    J.attribute("tag",dwarf::TagString(C->getTag()));
                    J.attribute("sz",(int64_t)(C->getSizeInBits()/8));
                    J.attribute("file",fn);J.attribute("line",(int64_t)C->getLine());
                    J.attributeArray("m",[&]{
                        for(auto *E : C->getElements())
                        {
                            if (auto *D = dyn_cast<DIDerivedType>(E))
                            {
                                if (D->isStaticMember()) continue;
                                J.object([&]{
                                    J.attribute("n",D->getTag() == dwarf::DW_TAG_inheritance ? ditype(D->getBaseType()) : D->getName().str());
                                    J.attribute("inh",D->getTag() == dwarf::DW_TAG_inheritance);
                                    J.attribute("o",(int64_t)(D->getOffsetInBits()/8));
                                    J.attribute("ob",(int64_t)(D->getOffsetInBits()));
                                    J.attribute("bits",(int64_t)D->getSizeInBits());
                                    J.attribute("t",ditype(D->getBaseType()));
                                    const DIType *S = stripTD(D->getBaseType());
                                    J.attribute("arr",(int64_t)(S && S->getTag() == dwarf::DW_TAG_array_type));
                                });
                            }
                            else if (auto *EN = dyn_cast<DIEnumerator>(E))
                                J.object([&]{J.attribute("n",EN->getName());J.attribute("ev",EN->getValue().getSExtValue());});
                        }
                    });
                });
            }
        });
        J.attributeArray("files",[&]{for(auto &f : files) J.value(f);});
    });
    OS << "\n";
    return 0;
}
