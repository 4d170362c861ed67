// Fact extractor: parses one translation unit of /repo with the real build flags and dumps
// a compact, fully type-resolved AST (functions incl. template instantiations, classes, globals, enums)
// as JSON on stdout.  Used by the Python analyses in /verif/sa.
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/AST/OpenMPClause.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace clang;
using std::string;

static string root;   // directory prefix of files of interest, with trailing slash
static llvm::raw_ostream* OUT;

static string jstr(llvm::StringRef s) {
    string r; llvm::raw_string_ostream o(r);
    if(llvm::json::isUTF8(s)) o << llvm::json::Value(s);
    else o << llvm::json::Value(llvm::json::fixUTF8(s));
    return o.str();
}

class Dumper {
public:
    ASTContext& C; SourceManager& SM; PrintingPolicy PP;
    std::map<void*, int> typeIdx; std::vector<string> types;
    std::map<const Decl*, int> localId; 
    std::map<string,int> fileIdx; std::vector<string> files;
    std::vector<string> functions, classes, globals, enums;
    std::set<string> seenF, seenC, seenG;
    std::map<string,int> strIdx; std::vector<string> strs;
    string mainFile;
    Dumper(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
        PP.SuppressTagKeyword = true; PP.Bool = true; PP.FullyQualifiedName = true;
        PP.SuppressUnwrittenScope = true; PP.PrintCanonicalTypes = true; PP.TerseOutput = true;
        if(auto F = SM.getFileEntryRefForID(SM.getMainFileID())) mainFile = F->getName().str();
    }
    int sidx(const string& s) {
        auto it = strIdx.find(s); if(it!=strIdx.end()) return it->second;
        int n = strs.size(); strs.push_back(s); strIdx[s]=n; return n;
    }
    string fileOf(SourceLocation L) {
        L = SM.getExpansionLoc(L);
        if(L.isInvalid()) return "";
        return SM.getFilename(L).str();
    }
    bool inRepo(SourceLocation L) { string f = fileOf(L); return f.compare(0, root.size(), root)==0; }
    string relFile(SourceLocation L) {
        string f = fileOf(L);
        if(f.compare(0, root.size(), root)==0) return f.substr(root.size());
        return f;
    }
    int fidx(SourceLocation L) {
        string f = relFile(L);
        auto it = fileIdx.find(f); if(it!=fileIdx.end()) return it->second;
        int n = files.size(); files.push_back(f); fileIdx[f]=n; return n;
    }
    int lineOf(SourceLocation L) { L = SM.getExpansionLoc(L); return L.isInvalid() ? 0 : SM.getExpansionLineNumber(L); }

    string qname(const NamedDecl* D) {
        string s; llvm::raw_string_ostream o(s);
        D->getNameForDiagnostic(o, PP, true);
        return o.str();
    }
    bool internal(const NamedDecl* D) {
        if(D->isInAnonymousNamespace()) return true;
        auto l = D->getFormalLinkage();
        return l == Linkage::Internal || l == Linkage::None || l==Linkage::UniqueExternal;
    }
    string fkey(const FunctionDecl* F) {
        string s = qname(F);
        s += "(";
        for(unsigned i=0; i<F->getNumParams(); i++) {
            if(i) s += ",";
            // qualifiers of the parameter itself are not a part of the function type
            s += F->getParamDecl(i)->getType().getCanonicalType().getUnqualifiedType().getAsString(PP);
        }
        if(F->isVariadic()) s += ",...";
        s += ")";
        if(auto M = dyn_cast<CXXMethodDecl>(F)) if(M->isConst()) s += " const";
        if(internal(F) && inRepo(F->getLocation())) s += "@" + relFile(F->getLocation());
        return s;
    }
    string ckey(const NamedDecl* R) {
        string s = qname(R);
        if(auto RD=dyn_cast<CXXRecordDecl>(R)) if(RD->isLambda()) { s += "lambda" + std::to_string(lineOf(R->getLocation())); }
        if(inRepo(R->getLocation()) && internal(R)) s += "@" + relFile(R->getLocation());
        return s;
    }
    string vkey(const VarDecl* V) {
        string s = qname(V);
        if(V->isStaticLocal()) {
            if(auto F = dyn_cast_or_null<FunctionDecl>(V->getParentFunctionOrMethod())) s = fkey(F) + "::" + V->getNameAsString();
        }
        else if(internal(V) && inRepo(V->getLocation()) && !V->isStaticDataMember()) s += "@" + relFile(V->getLocation());
        return s;
    }
    // type table entry: [spelling, kind, const, pointee/elem idx or -1, record key/enum name or null, array len]
    int tidx(QualType T0) {
        if(T0.isNull()) return -1;
        QualType T = T0.getCanonicalType();
        void* key = T.getAsOpaquePtr();
        auto it = typeIdx.find(key); if(it!=typeIdx.end()) return it->second;
        int n = types.size(); types.push_back(""); typeIdx[key] = n;
        string sp = T.getAsString(PP);
        string kind="other", name="null"; int sub=-1; long len=-1;
        const Type* t = T.getTypePtr();
        if(t->isPointerType()) { kind="ptr"; sub=tidx(t->getPointeeType()); }
        else if(t->isReferenceType()) { kind= t->isRValueReferenceType() ? "rref" : "ref"; sub=tidx(t->getPointeeType()); }
        else if(auto A = C.getAsConstantArrayType(T)) { kind="arr"; sub=tidx(A->getElementType()); len=A->getSize().getZExtValue(); }
        else if(auto A = C.getAsArrayType(T)) { kind="arr"; sub=tidx(A->getElementType()); }
        else if(t->isMemberPointerType()) { kind="mptr"; }
        else if(auto R = t->getAsCXXRecordDecl()) { kind="rec"; name=jstr(ckey(R)); }
        else if(auto RT = t->getAs<RecordType>()) { kind="rec"; name=jstr(ckey(RT->getDecl())); }
        else if(auto E = t->getAs<EnumType>()) { kind="enum"; name=jstr(ckey(E->getDecl())); }
        else if(t->isBooleanType()) kind="bool";
        else if(t->isIntegralOrEnumerationType()) { kind= t->isUnsignedIntegerType() ? "uint" : "int"; len=C.getTypeSize(T)/8; }
        else if(t->isFloatingType()) { kind="float"; len=C.getTypeSize(T)/8; }
        else if(t->isVoidType()) kind="void";
        else if(t->isFunctionType()) kind="func";
        types[n] = "[" + jstr(sp) + ",\"" + kind + "\"," + (T.isConstQualified()?"1":"0") + "," + std::to_string(sub) + "," + name + "," + std::to_string(len) + "]";
        return n;
    }
    int lid(const Decl* D) {
        D = D->getCanonicalDecl();
        auto it = localId.find(D); if(it!=localId.end()) return it->second;
        int n = localId.size()+1; localId[D]=n; return n;
    }
    string macroName(SourceLocation L) {
        // outermost macro expansion name
        string name;
        while(L.isMacroID()) {
            name = Lexer::getImmediateMacroName(L, SM, C.getLangOpts()).str();
            L = SM.getImmediateMacroCallerLoc(L);
        }
        return name;
    }
    // ---- statement dump: [kind, line, type, attr, [children...]]
    void node(string& o, const char* k, const Stmt* S, int t, const string& attr) {
        o += "[\""; o += k; o += "\","; o += std::to_string(lineOf(S->getBeginLoc())); o += ","; o += std::to_string(t); o += ","; o += attr.empty() ? "0" : attr; o += ",[";
    }
    void kids(string& o, const Stmt* S) {
        bool first = true;
        for(const Stmt* c : S->children()) { if(!first) o += ","; first=false; dump(o, c); }
        o += "]]";
    }
    string declRef(const ValueDecl* D) {
        if(auto F = dyn_cast<FunctionDecl>(D)) return "[\"F\"," + std::to_string(sidx(fkey(F))) + "]";
        if(auto E = dyn_cast<EnumConstantDecl>(D)) return "[\"E\"," + jstr(qname(E)) + "," + std::to_string((long long)E->getInitVal().getExtValue()) + "]";
        if(auto V = dyn_cast<VarDecl>(D)) {
            if(V->hasGlobalStorage()) return "[\"G\"," + std::to_string(sidx(vkey(V))) + "]";
            return "[\"L\"," + std::to_string(lid(V)) + "," + jstr(V->getName()) + (isa<ParmVarDecl>(V)?",1]":",0]");
        }
        return "[\"?\"," + jstr(D->getNameAsString()) + "]";
    }
    void varDecl(string& o, const VarDecl* V) {
        // ["Var", line, type, [id|0, name, static/global key|null, isRefOrDirectInitStyle], [init?]]
        o += "[\"Var\"," + std::to_string(lineOf(V->getLocation())) + "," + std::to_string(tidx(V->getType())) + ",[";
        if(V->hasGlobalStorage()) o += "0," + jstr(V->getName()) + "," + jstr(vkey(V));
        else o += std::to_string(lid(V)) + "," + jstr(V->getName()) + ",null";
        o += "],[";
        if(V->hasInit()) dump(o, V->getInit());
        o += "]]";
        if(V->isStaticLocal()) globalVar(V);
    }
    string calleeAttr(const Expr* E, const FunctionDecl* F, bool virt) {
        string a = "[";
        if(F) a += std::to_string(sidx(fkey(F))); else a += "-1";
        a += virt ? ",1" : ",0";
        a += ",";
        a += E->getBeginLoc().isMacroID() ? jstr(macroName(E->getBeginLoc())) : "null";
        return a + "]";
    }
    void clauseVars(string& o, const char* kind, llvm::iterator_range<llvm::ArrayRef<const Expr*>::iterator> r) {}
    void dump(string& o, const Stmt* S) {
        if(!S) { o += "null"; return; }
        // ---- transparent nodes
        if(auto E = dyn_cast<ParenExpr>(S)) return dump(o, E->getSubExpr());
        if(auto E = dyn_cast<FullExpr>(S)) return dump(o, E->getSubExpr());
        if(auto E = dyn_cast<MaterializeTemporaryExpr>(S)) return dump(o, E->getSubExpr());
        if(auto E = dyn_cast<CXXBindTemporaryExpr>(S)) return dump(o, E->getSubExpr());
        if(auto E = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) return dump(o, E->getReplacement());
        if(auto E = dyn_cast<CXXDefaultArgExpr>(S)) {
            node(o, "DefArg", S, tidx(E->getType()), ""); dump(o, E->getExpr()); o += "]]"; return;
        }
        if(auto E = dyn_cast<CXXDefaultInitExpr>(S)) return dump(o, E->getExpr());
        if(auto E = dyn_cast<CapturedStmt>(S)) return dump(o, E->getCapturedStmt());
        if(auto E = dyn_cast<AttributedStmt>(S)) return dump(o, E->getSubStmt());
        if(auto E = dyn_cast<ConstantExpr>(S)) return dump(o, E->getSubExpr());
        if(auto E = dyn_cast<OMPCanonicalLoop>(S)) return dump(o, E->getLoopStmt());
        if(auto E = dyn_cast<ChooseExpr>(S)) return dump(o, E->getChosenSubExpr());
        if(auto E = dyn_cast<ImplicitCastExpr>(S)) {
            switch(E->getCastKind()) {
                case CK_NoOp: case CK_FunctionToPointerDecay: case CK_BuiltinFnToFnPtr: case CK_ConstructorConversion:
                    return dump(o, E->getSubExpr());
                default: ;
            }
            node(o, "Cast", S, tidx(E->getType()), "[\"" + string(E->getCastKindName()) + "\",0]"); kids(o,S); return;
        }
        if(auto E = dyn_cast<ExplicitCastExpr>(S)) {
            const char* st = isa<CXXConstCastExpr>(S) ? "const" : isa<CXXReinterpretCastExpr>(S) ? "reinterpret" :
                isa<CXXDynamicCastExpr>(S) ? "dynamic" : isa<CXXStaticCastExpr>(S) ? "static" : isa<CXXFunctionalCastExpr>(S) ? "func" : "c";
            node(o, "Cast", S, tidx(E->getType()), "[\"" + string(E->getCastKindName()) + "\",\"" + st + "\"]"); kids(o,S); return;
        }
        if(auto E = dyn_cast<DeclRefExpr>(S)) { node(o, "Ref", S, tidx(E->getType()), declRef(E->getDecl())); o += "]]"; return; }
        if(auto E = dyn_cast<MemberExpr>(S)) {
            const ValueDecl* D = E->getMemberDecl();
            string a;
            if(auto F = dyn_cast<FunctionDecl>(D)) a = "[\"F\"," + std::to_string(sidx(fkey(F))) + ",";
            else if(auto V = dyn_cast<VarDecl>(D)) a = "[\"G\"," + std::to_string(sidx(vkey(V))) + ",";
            else if(auto FD = dyn_cast<FieldDecl>(D)) a = "[\"M\"," + std::to_string(sidx(ckey(FD->getParent()) + "::" + FD->getNameAsString())) + ",";
            else a = "[\"?\",-1,";
            a += E->isArrow() ? "1," : "0,";
            a += jstr(D->getNameAsString()) + "]";
            node(o, "Member", S, tidx(E->getType()), a); kids(o,S); return;
        }
        if(auto E = dyn_cast<CXXThisExpr>(S)) { node(o, "This", S, tidx(E->getType()), ""); o += "]]"; return; }
        if(auto E = dyn_cast<IntegerLiteral>(S)) { node(o, "Int", S, tidx(E->getType()), jstr(llvm::toString(E->getValue(), 10, false))); o += "]]"; return; }
        if(auto E = dyn_cast<FloatingLiteral>(S)) { llvm::SmallString<32> b; E->getValue().toString(b); node(o, "Float", S, tidx(E->getType()), jstr(b.str())); o += "]]"; return; }
        if(auto E = dyn_cast<StringLiteral>(S)) { node(o, "Str", S, tidx(E->getType()), E->isOrdinary()||E->isUTF8() ? jstr(E->getString()) : "\"\""); o += "]]"; return; }
        if(auto E = dyn_cast<CharacterLiteral>(S)) { node(o, "Char", S, tidx(E->getType()), std::to_string(E->getValue())); o += "]]"; return; }
        if(auto E = dyn_cast<CXXBoolLiteralExpr>(S)) { node(o, "Bool", S, tidx(E->getType()), E->getValue() ? "1" : "0"); o += "]]"; return; }
        if(isa<CXXNullPtrLiteralExpr>(S) || isa<GNUNullExpr>(S)) { node(o, "Null", S, tidx(cast<Expr>(S)->getType()), ""); o += "]]"; return; }
        if(auto E = dyn_cast<CompoundAssignOperator>(S)) { node(o, "AssignOp", S, tidx(E->getType()), jstr(E->getOpcodeStr())); kids(o,S); return; }
        if(auto E = dyn_cast<BinaryOperator>(S)) { node(o, E->getOpcode()==BO_Assign ? "Assign" : "Bin", S, tidx(E->getType()), jstr(E->getOpcodeStr())); kids(o,S); return; }
        if(auto E = dyn_cast<UnaryOperator>(S)) {
            string op = UnaryOperator::getOpcodeStr(E->getOpcode()).str(); if(E->isPostfix()) op = "p"+op;
            node(o, "Un", S, tidx(E->getType()), jstr(op)); kids(o,S); return; }
        if(auto E = dyn_cast<ConditionalOperator>(S)) { node(o, "Cond", S, tidx(E->getType()), ""); kids(o,S); return; }
        if(auto E = dyn_cast<ArraySubscriptExpr>(S)) { node(o, "Idx", S, tidx(E->getType()), "");
            dump(o, E->getBase()); o += ","; dump(o, E->getIdx()); o += "]]"; return; }
        if(auto E = dyn_cast<CXXOperatorCallExpr>(S)) {
            node(o, "OpCall", S, tidx(E->getType()), calleeAttr(E, E->getDirectCallee(), false));
            bool first=true; for(unsigned i=0; i<E->getNumArgs(); i++) { if(!first) o += ","; first=false; dump(o, E->getArg(i)); }
            o += "]]"; return;
        }
        if(auto E = dyn_cast<CXXMemberCallExpr>(S)) {
            const CXXMethodDecl* M = E->getMethodDecl();
            bool virt = false;
            if(M && M->isVirtual()) {
                virt = true;
                if(auto ME = dyn_cast<MemberExpr>(E->getCallee()->IgnoreParens())) if(ME->hasQualifier()) virt = false;
            }
            // children: object, args...
            node(o, "MCall", S, tidx(E->getType()), calleeAttr(E, M, virt));
            const Expr* ob = E->getImplicitObjectArgument();
            if(ob) dump(o, ob); else dump(o, E->getCallee());
            for(unsigned i=0; i<E->getNumArgs(); i++) { o += ","; dump(o, E->getArg(i)); }
            o += "]]"; return;
        }
        if(auto E = dyn_cast<CallExpr>(S)) {
            const FunctionDecl* F = E->getDirectCallee();
            if(F && F->getBuiltinID() && F->getNameAsString()=="__builtin_expect") return dump(o, E->getArg(0));
            node(o, "Call", S, tidx(E->getType()), calleeAttr(E, F, false));
            // children: callee expr (null if direct), args...
            if(F) o += "null"; else dump(o, E->getCallee());
            for(unsigned i=0; i<E->getNumArgs(); i++) { o += ","; dump(o, E->getArg(i)); }
            o += "]]"; return;
        }
        if(auto E = dyn_cast<CXXConstructExpr>(S)) {
            const CXXConstructorDecl* K = E->getConstructor();
            if(E->isElidable() && E->getNumArgs()>=1) return dump(o, E->getArg(0));
            string a = calleeAttr(E, K, false); a.pop_back();
            a += K->isCopyOrMoveConstructor() ? ",1" : E->requiresZeroInitialization() ? ",2" : ",0"; a += "]";
            node(o, "New0", S, tidx(E->getType()), a);
            bool first=true; for(unsigned i=0; i<E->getNumArgs(); i++) { if(!first) o += ","; first=false; dump(o, E->getArg(i)); }
            o += "]]"; return;
        }
        if(auto E = dyn_cast<CXXNewExpr>(S)) {
            node(o, "NewE", S, tidx(E->getType()), string("[") + (E->isArray()?"1":"0") + "," + std::to_string(E->getNumPlacementArgs()) + "]");
            if(E->isArray() && E->getArraySize()) dump(o, *E->getArraySize()); else o += "null";
            o += ","; dump(o, E->getInitializer());
            for(unsigned i=0; i<E->getNumPlacementArgs(); i++) { o += ","; dump(o, E->getPlacementArg(i)); }
            o += "]]"; return;
        }
        if(auto E = dyn_cast<CXXDeleteExpr>(S)) { node(o, "Delete", S, tidx(E->getType()), E->isArrayForm()?"1":"0"); kids(o,S); return; }
        if(auto E = dyn_cast<CXXThrowExpr>(S)) { node(o, "Throw", S, -1, E->getSubExpr() ? "0" : "1"); kids(o,S); return; }
        if(auto E = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) {
            Expr::EvalResult R; string v = "\"?\"";
            if(E->EvaluateAsInt(R, C)) v = jstr(llvm::toString(R.Val.getInt(), 10));
            node(o, "Int", S, tidx(E->getType()), v); o += "]]"; return; }
        if(auto E = dyn_cast<InitListExpr>(S)) {
            if(E->isSemanticForm()==false && E->getSemanticForm()) E = E->getSemanticForm();
            node(o, "InitList", S, tidx(E->getType()), "");
            bool first=true; for(unsigned i=0; i<E->getNumInits(); i++) { if(!first) o += ","; first=false; dump(o, E->getInit(i)); }
            o += "]]"; return; }
        if(auto E = dyn_cast<LambdaExpr>(S)) {
            string ps = "[";
            bool first=true;
            for(auto P : E->getCallOperator()->parameters()) { if(!first) ps += ","; first=false; ps += "[" + std::to_string(lid(P)) + "," + jstr(P->getName()) + "," + std::to_string(tidx(P->getType())) + "]"; }
            node(o, "Lambda", S, tidx(E->getType()), ps + "]");
            dump(o, E->getBody()); o += "]]"; return; }
        // ---- statements
        if(auto D = dyn_cast<DeclStmt>(S)) {
            node(o, "Decl", S, -1, "");
            bool first=true;
            for(auto d : D->decls()) if(auto V = dyn_cast<VarDecl>(d)) { if(!first) o += ","; first=false; varDecl(o, V); }
            o += "]]"; return;
        }
        if(auto I = dyn_cast<IfStmt>(S)) {
            node(o, "If", S, -1, "");
            if(I->getConditionVariable()) { varDecl(o, I->getConditionVariable()); } else o += "null";
            o += ","; dump(o, I->getCond()); o += ","; dump(o, I->getThen()); o += ","; dump(o, I->getElse()); o += "]]"; return; }
        if(auto F = dyn_cast<ForStmt>(S)) {
            node(o, "For", S, -1, ""); dump(o, F->getInit()); o += ","; dump(o, F->getCond()); o += ","; dump(o, F->getInc()); o += ","; dump(o, F->getBody()); o += "]]"; return; }
        if(auto F = dyn_cast<CXXForRangeStmt>(S)) {
            node(o, "ForRange", S, -1, ""); dump(o, F->getRangeInit()); o += ","; varDecl(o, F->getLoopVariable()); o += ","; dump(o, F->getBody()); o += "]]"; return; }
        if(auto W = dyn_cast<WhileStmt>(S)) { node(o, "While", S, -1, ""); dump(o, W->getCond()); o += ","; dump(o, W->getBody()); o += "]]"; return; }
        if(auto W = dyn_cast<DoStmt>(S)) { node(o, "Do", S, -1, ""); dump(o, W->getBody()); o += ","; dump(o, W->getCond()); o += "]]"; return; }
        if(auto W = dyn_cast<SwitchStmt>(S)) { node(o, "Switch", S, -1, ""); dump(o, W->getCond()); o += ","; dump(o, W->getBody()); o += "]]"; return; }
        if(auto W = dyn_cast<CaseStmt>(S)) { 
            Expr::EvalResult R; string v = "null";
            if(W->getLHS()->EvaluateAsInt(R, C)) v = jstr(llvm::toString(R.Val.getInt(), 10));
            node(o, "Case", S, -1, v); dump(o, W->getLHS()); o += ","; dump(o, W->getSubStmt()); o += "]]"; return; }
        if(auto W = dyn_cast<DefaultStmt>(S)) { node(o, "Default", S, -1, ""); dump(o, W->getSubStmt()); o += "]]"; return; }
        if(isa<BreakStmt>(S)) { node(o, "Break", S, -1, ""); o += "]]"; return; }
        if(isa<ContinueStmt>(S)) { node(o, "Continue", S, -1, ""); o += "]]"; return; }
        if(isa<NullStmt>(S)) { node(o, "Nop", S, -1, ""); o += "]]"; return; }
        if(auto W = dyn_cast<GotoStmt>(S)) { node(o, "Goto", S, -1, jstr(W->getLabel()->getName())); o += "]]"; return; }
        if(auto W = dyn_cast<LabelStmt>(S)) { node(o, "Label", S, -1, jstr(W->getName())); dump(o, W->getSubStmt()); o += "]]"; return; }
        if(isa<ReturnStmt>(S)) { node(o, "Return", S, -1, ""); kids(o,S); return; }
        if(isa<CompoundStmt>(S)) { node(o, "Block", S, -1, std::to_string(lineOf(cast<CompoundStmt>(S)->getRBracLoc()))); kids(o,S); return; }
        if(auto T = dyn_cast<CXXTryStmt>(S)) {
            node(o, "Try", S, -1, ""); dump(o, T->getTryBlock());
            for(unsigned i=0; i<T->getNumHandlers(); i++) { o += ","; dump(o, T->getHandler(i)); } o += "]]"; return; }
        if(auto T = dyn_cast<CXXCatchStmt>(S)) {
            string a = "null";
            if(T->getExceptionDecl()) a = "[" + std::to_string(lid(T->getExceptionDecl())) + "," + jstr(T->getExceptionDecl()->getName()) + "]";
            node(o, "Catch", S, T->getExceptionDecl() ? tidx(T->getCaughtType()) : -1, a); dump(o, T->getHandlerBlock()); o += "]]"; return; }
        if(auto D = dyn_cast<OMPExecutableDirective>(S)) {
            string a = "[\"" + llvm::omp::getOpenMPDirectiveName(D->getDirectiveKind()).str() + "\"";
            if(auto Cr = dyn_cast<OMPCriticalDirective>(D)) a += ",[\"name\"," + jstr(Cr->getDirectiveName().getAsString()) + "]";
            for(auto cl : D->clauses()) {
                if(!cl || cl->isImplicit()) continue;
                a += ",[\"" + llvm::omp::getOpenMPClauseName(cl->getClauseKind()).str() + "\"";
                if(auto c = dyn_cast<OMPPrivateClause>(cl)) { for(auto e : c->varlists()) a += "," + refOf(e); }
                else if(auto c = dyn_cast<OMPFirstprivateClause>(cl)) { for(auto e : c->varlists()) a += "," + refOf(e); }
                else if(auto c = dyn_cast<OMPLastprivateClause>(cl)) { for(auto e : c->varlists()) a += "," + refOf(e); }
                else if(auto c = dyn_cast<OMPSharedClause>(cl)) { for(auto e : c->varlists()) a += "," + refOf(e); }
                else if(auto c = dyn_cast<OMPReductionClause>(cl)) { for(auto e : c->varlists()) a += "," + refOf(e); }
                else if(auto c = dyn_cast<OMPScheduleClause>(cl)) {
                    const char* k = c->getScheduleKind()==OMPC_SCHEDULE_dynamic ? "dynamic" : c->getScheduleKind()==OMPC_SCHEDULE_static ? "static" :
                        c->getScheduleKind()==OMPC_SCHEDULE_guided ? "guided" : "other";
                    a += string(",\"") + k + "\""; }
                a += "]";
            }
            a += "]";
            node(o, "OMP", S, -1, a);
            if(D->hasAssociatedStmt()) dump(o, D->getRawStmt()); 
            o += "]]"; return;
        }
        if(auto E = dyn_cast<Expr>(S)) {
            node(o, "Other", S, tidx(E->getType()), jstr(S->getStmtClassName())); kids(o,S); return;
        }
        node(o, "OtherS", S, -1, jstr(S->getStmtClassName())); kids(o,S);
    }
    string refOf(const Expr* e) {
        e = e->IgnoreParenImpCasts();
        if(auto D = dyn_cast<DeclRefExpr>(e)) return declRef(D->getDecl());
        return "null";
    }
    void function(const FunctionDecl* F) {
        if(!F->doesThisDeclarationHaveABody() && !F->isDefaulted()) return;
        if(F->isDependentContext()) return;
        if(!inRepo(F->getLocation())) return;
        if(F->isDefaulted() && !F->doesThisDeclarationHaveABody()) return;
        string k = fkey(F);
        if(!seenF.insert(k).second) return;
        string o = "{\"key\":" + jstr(k) + ",\"q\":" + jstr(qname(F)) + ",\"n\":" + jstr(F->getNameAsString());
        o += ",\"file\":" + std::to_string(fidx(F->getLocation())) + ",\"line\":" + std::to_string(lineOf(F->getLocation())) + ",\"end\":" + std::to_string(lineOf(F->getEndLoc()));
        o += ",\"ret\":" + std::to_string(tidx(F->getReturnType())) + ",\"params\":[";
        for(unsigned i=0; i<F->getNumParams(); i++) {
            auto P = F->getParamDecl(i);
            o += string(i?",":"") + "[" + std::to_string(lid(P)) + "," + jstr(P->getName()) + "," + std::to_string(tidx(P->getType())) + "," + (P->hasDefaultArg()?"1":"0") + "]";
        }
        o += "]";
        string fl;
        if(internal(F)) fl += "i";
        if(F->isExternC()) fl += "C";
        if(F->isTemplateInstantiation()) fl += "T";
        if(F->isImplicit() || F->isDefaulted()) fl += "d";
        if(F->isInlined()) fl += "l";
        if(F->isVariadic()) fl += "v";
        if(auto PT = F->getType()->getAs<FunctionProtoType>()) if(PT->isNothrow()) fl += "n";
        if(auto M = dyn_cast<CXXMethodDecl>(F)) {
            o += ",\"cls\":" + jstr(ckey(M->getParent()));
            if(M->isVirtual()) fl += "V"; if(M->isConst()) fl += "c"; if(M->isStatic()) fl += "s";
            if(auto K = dyn_cast<CXXConstructorDecl>(M)) {
                fl += "K"; if(K->isCopyOrMoveConstructor()) fl += "k";
                o += ",\"inits\":[";
                bool first=true;
                for(auto I : K->inits()) {
                    if(!first) o += ","; first=false;
                    o += "[";
                    if(I->isAnyMemberInitializer()) o += "\"M\"," + jstr(ckey(I->getAnyMember()->getParent()) + "::" + I->getAnyMember()->getNameAsString());
                    else if(I->isDelegatingInitializer()) o += "\"D\",\"\"";
                    else { o += "\"B\","; auto BT = I->getBaseClass(); auto R = BT ? QualType(BT,0)->getAsCXXRecordDecl() : nullptr; o += R ? jstr(ckey(R)) : "\"?\""; }
                    o += string(",") + (I->isWritten()?"1":"0") + ","; dump(o, I->getInit()); o += "]";
                }
                o += "]";
            }
            if(isa<CXXDestructorDecl>(M)) fl += "D";
        }
        o += ",\"fl\":\"" + fl + "\"";
        o += ",\"body\":"; dump(o, F->getBody());
        o += "}";
        functions.push_back(o);
    }
    void record(const CXXRecordDecl* R) {
        if(!R->isCompleteDefinition() || R->isDependentContext() || !inRepo(R->getLocation())) return;
        string k = ckey(R);
        if(!seenC.insert(k).second) return;
        string o = "{\"key\":" + jstr(k) + ",\"file\":" + std::to_string(fidx(R->getLocation())) + ",\"line\":" + std::to_string(lineOf(R->getLocation())) + ",\"bases\":[";
        bool first=true;
        for(auto& B : R->bases()) { auto BR = B.getType()->getAsCXXRecordDecl(); if(!first) o += ","; first=false; o += "[" + (BR ? jstr(ckey(BR)) : "\"?\"") + "," + std::to_string((int)B.getAccessSpecifier()) + "]"; }
        o += "],\"abs\":"; o += R->isAbstract() ? "1" : "0";
        o += ",\"poly\":"; o += R->isPolymorphic() ? "1" : "0";
        o += ",\"union\":"; o += R->isUnion() ? "1" : "0";
        { auto D = R->getDestructor(); o += ",\"vdtor\":"; o += (D && D->isVirtual()) ? "1":"0"; o += ",\"udtor\":"; o += (D && D->isUserProvided()) ? "1":"0"; }
        bool ucc=false, dcc=false, uca=false;
        for(auto K : R->ctors()) if(K->isCopyConstructor()) { if(K->isDeleted() || (K->getAccess()==AS_private)) dcc=true; else if(K->isUserProvided()) ucc=true; }
        for(auto M : R->methods()) if(M->isCopyAssignmentOperator()) { if(M->isDeleted() || M->getAccess()==AS_private) dcc=dcc; else if(M->isUserProvided()) uca=true; }
        o += ",\"ucc\":"; o += ucc?"1":"0"; o += ",\"dcc\":"; o += dcc?"1":"0"; o += ",\"uca\":"; o += uca?"1":"0";
        o += ",\"fields\":["; first=true;
        for(auto F : R->fields()) { if(!first) o += ","; first=false;
            o += "[" + jstr(F->getNameAsString()) + "," + std::to_string(tidx(F->getType())) + "," + (F->isMutable()?"1":"0") + "," + std::to_string(lineOf(F->getLocation())) + "," + std::to_string((int)F->getAccess()) + "]"; }
        o += "],\"methods\":["; first=true;
        for(auto M : R->methods()) { if(M->isImplicit()) continue; if(!first) o += ","; first=false;
            o += "[" + jstr(fkey(M)) + "," + jstr(M->getNameAsString()) + ",\"" + (M->isVirtual()?"V":"") + (M->isPureVirtual()?"P":"") + (M->isConst()?"c":"") + (M->isStatic()?"s":"") + (M->isDeleted()?"X":"") + "\",[";
            bool f2=true; for(auto O : M->overridden_methods()) { if(!f2) o += ","; f2=false; o += jstr(fkey(O)); }
            o += "]," + std::to_string((int)M->getAccess()) + "]"; }
        o += "]}";
        classes.push_back(o);
    }
    void globalVar(const VarDecl* V) {
        if(!V->hasGlobalStorage() || !inRepo(V->getLocation()) || V->isTemplated()) return;
        if(V->isThisDeclarationADefinition()==VarDecl::DeclarationOnly && !V->isStaticDataMember()) return;
        string k = vkey(V);
        if(!seenG.insert(k).second) return;
        string o = "{\"key\":" + jstr(k) + ",\"n\":" + jstr(V->getNameAsString()) + ",\"file\":" + std::to_string(fidx(V->getLocation())) + ",\"line\":" + std::to_string(lineOf(V->getLocation())) +
            ",\"t\":" + std::to_string(tidx(V->getType())) + ",\"local\":" + (V->isStaticLocal()?"1":"0") + ",\"tls\":" + (V->getTLSKind() || V->hasAttr<OMPThreadPrivateDeclAttr>() ? "1":"0") + ",\"init\":";
        if(V->hasInit()) dump(o, V->getInit()); else o += "null";
        o += "}";
        globals.push_back(o);
    }
    void enumDecl(const EnumDecl* E) {
        if(!E->isCompleteDefinition() || !inRepo(E->getLocation()) || E->isDependentContext()) return;
        string o = "{\"key\":" + jstr(ckey(E)) + ",\"file\":" + std::to_string(fidx(E->getLocation())) + ",\"line\":" + std::to_string(lineOf(E->getLocation())) + ",\"c\":[";
        bool first=true;
        for(auto c : E->enumerators()) { if(!first) o += ","; first=false; o += "[" + jstr(qname(c)) + "," + std::to_string((long long)c->getInitVal().getExtValue()) + "]"; }
        o += "]}"; enums.push_back(o);
    }
    void finish(llvm::raw_ostream& os) {
        auto list = [&](const char* n, std::vector<string>& v, bool q) { os << "\"" << n << "\":["; for(size_t i=0; i<v.size(); i++) { if(i) os << ",\n"; if(q) os << jstr(v[i]); else os << v[i]; } os << "]"; };
        os << "{"; list("files", files, true); os << ",\n"; list("strs", strs, true); os << ",\n"; list("types", types, false); os << ",\n"; list("functions", functions, false);
        os << ",\n"; list("classes", classes, false); os << ",\n"; list("globals", globals, false); os << ",\n"; list("enums", enums, false);
        // dependencies: every file in root
        std::vector<string> deps;
        for(auto it = SM.fileinfo_begin(); it != SM.fileinfo_end(); ++it) { string f = it->first.getName().str(); if(f.compare(0, root.size(), root)==0) deps.push_back(f.substr(root.size())); }
        os << ",\n"; list("deps", deps, true); os << "}\n";
    }
};

class V : public RecursiveASTVisitor<V> {
public:
    Dumper& D; V(Dumper& d) : D(d) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool VisitFunctionDecl(FunctionDecl* F) { D.function(F); return true; }
    bool VisitCXXRecordDecl(CXXRecordDecl* R) { D.record(R); return true; }
    bool VisitVarDecl(VarDecl* Vd) { if(Vd->isFileVarDecl()) D.globalVar(Vd); return true; }
    bool VisitEnumDecl(EnumDecl* E) { D.enumDecl(E); return true; }
};
class Cons : public ASTConsumer {
    void HandleTranslationUnit(ASTContext& C) override {
        if(C.getDiagnostics().hasErrorOccurred()) return;
        Dumper D(C); V v(D);
        for(Decl* d : C.getTranslationUnitDecl()->decls()) {
            SourceLocation L = C.getSourceManager().getExpansionLoc(d->getLocation());
            if(L.isInvalid()) continue;
            if(!D.inRepo(d->getLocation())) continue;
            if(C.getSourceManager().isInSystemHeader(L)) continue;
            v.TraverseDecl(d);
        }
        D.finish(*OUT);
    }
};
class Act : public ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override { return std::make_unique<Cons>(); }
};
class Fac : public tooling::FrontendActionFactory { public: std::unique_ptr<FrontendAction> create() override { return std::make_unique<Act>(); } };

int main(int argc, const char** argv) {
    // extract ROOT OUTFILE file.cpp -- flags...
    if(argc<5) { llvm::errs() << "usage\n"; return 2; }
    root = argv[1]; if(root.back()!='/') root += '/';
    string file = argv[3];
    std::vector<string> flags;
    for(int i=5; i<argc; i++) flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", flags);
    std::error_code ec;
    llvm::raw_fd_ostream os(argv[2], ec);
    if(ec) { llvm::errs() << ec.message() << "\n"; return 2; }
    OUT = &os;
    tooling::ClangTool T(db, {file});
    Fac f;
    return T.run(&f);
}
