// lru-export: dumps the resolved, instantiated clang AST of everything reachable
// from the analysis driver (namespace `drv`) as JSON.  No code is executed.
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <map>
#include <set>
using namespace clang;
namespace json = llvm::json;
using JO = json::Object;
using JA = json::Array;
using JV = json::Value;

static std::string OutPath;
static bool hasErrors = false;

struct Exporter {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<const FunctionDecl *, int> FIds;
  std::vector<const FunctionDecl *> Fs;
  std::map<const CXXRecordDecl *, int> RIds;
  std::vector<const CXXRecordDecl *> Rs;
  std::map<const void *, int> TIds; // canonical QualType opaque ptr
  std::vector<QualType> Ts;
  std::map<const Decl *, int> DIds; // vars, fields, params
  std::map<std::string, int> Files;
  std::vector<std::string> FileNames;
  std::deque<const FunctionDecl *> Work;
  std::set<int> Done;
  JO FuncOut, GlobOut;
  std::set<const VarDecl *> GlobDone;
  std::deque<const VarDecl *> GlobWork;

  Exporter(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.SuppressDefaultTemplateArgs = false;
    PP.PrintCanonicalTypes = true;
  }

  int did(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = DIds.find(D);
    if (it != DIds.end()) return it->second;
    int n = DIds.size() + 1;
    DIds[D] = n;
    return n;
  }
  int fileId(const std::string &s) {
    auto it = Files.find(s);
    if (it != Files.end()) return it->second;
    int n = FileNames.size();
    Files[s] = n;
    FileNames.push_back(s);
    return n;
  }
  void loc(JO &o, SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return;
    PresumedLoc P = SM.getPresumedLoc(L);
    if (P.isInvalid()) return;
    o["l"] = JA{fileId(P.getFilename()), (int)P.getLine()};
  }

  std::string qual(const NamedDecl *D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    D->printQualifiedName(os, PP);
    return os.str();
  }
  // qualified name without template arguments
  std::string plainQual(const NamedDecl *D) {
    std::vector<std::string> parts;
    std::string n = D->getNameAsString();
    if (n.empty()) n = "<anon>";
    parts.push_back(n);
    const DeclContext *DC = D->getDeclContext();
    while (DC && !DC->isTranslationUnit()) {
      if (auto *NS = dyn_cast<NamespaceDecl>(DC)) {
        if (!NS->isInline() && !NS->isAnonymousNamespace()) parts.push_back(NS->getNameAsString());
      } else if (auto *R = dyn_cast<RecordDecl>(DC)) {
        parts.push_back(R->getNameAsString().empty() ? "<anon>" : R->getNameAsString());
      } else if (auto *F = dyn_cast<FunctionDecl>(DC)) {
        parts.push_back(F->getNameAsString() + "()");
      }
      DC = DC->getParent();
    }
    std::string r;
    for (auto it = parts.rbegin(); it != parts.rend(); ++it) {
      if (!r.empty()) r += "::";
      r += *it;
    }
    return r;
  }

  int tid(QualType T) {
    T = C.getCanonicalType(T);
    auto it = TIds.find(T.getAsOpaquePtr());
    if (it != TIds.end()) return it->second;
    int n = Ts.size();
    TIds[T.getAsOpaquePtr()] = n;
    Ts.push_back(T);
    return n;
  }
  int rid(const CXXRecordDecl *R) {
    if (auto *D = R->getDefinition()) R = D;
    R = cast<CXXRecordDecl>(R->getCanonicalDecl());
    auto it = RIds.find(R);
    if (it != RIds.end()) return it->second;
    int n = Rs.size();
    RIds[R] = n;
    Rs.push_back(R);
    return n;
  }
  int fid(const FunctionDecl *F) {
    F = F->getCanonicalDecl();
    auto it = FIds.find(F);
    if (it != FIds.end()) return it->second;
    int n = Fs.size();
    FIds[F] = n;
    Fs.push_back(F);
    Work.push_back(F);
    return n;
  }

  static bool starts(llvm::StringRef s, const char *p) { return s.starts_with(p); }
  bool stopped(const FunctionDecl *F) {
    std::string q = plainQual(F);
    static const char *stops[] = {
        "std::unordered_map::", "std::_Hashtable::", "std::__detail::", "std::list::", "std::_List_",
        "std::vector::", "std::_Vector", "std::_Bvector", "__gnu_cxx::__normal_iterator::", "std::function::",
        "std::_Function", "std::shared_ptr::", "std::__shared_ptr", "std::__shared_count", "std::make_shared",
        "std::allocate_shared", "std::basic_string::", "std::runtime_error", "std::exception", "std::logic_error",
        "std::initializer_list::", "std::hash::", "std::_Hash_impl", "std::allocator", "std::__new_allocator",
        "std::type_info", "std::type_index", "std::basic_ostream", "std::deque::", "std::map::", "std::set::",
        "std::_Rb_tree", "std::unordered_set::", "std::basic_string_view::", "std::locale", "std::ios",
        "std::unique_ptr::", "std::__uniq_ptr", "std::default_delete", "std::make_unique", "std::optional::", "std::_Optional",
        "std::make_optional", "std::__weak", "std::weak_ptr", "std::_Sp_", "std::enable_shared", "std::mutex", "std::thread",
        "std::__cxx11", "std::operator<<", "std::_Any", "std::any::", "std::variant", "std::terminate",
        "std::_List", "std::__throw", "std::_Mem_fn", "std::_Bind", "std::bind", "std::random", "std::__copy_move", "std::atomic", "std::__atomic"};
    // written in terms of the public members
    if (q == "std::list::remove_if" || q == "std::list::unique" || q == "std::list::remove") return false;
    for (auto *s : stops)
      if (starts(q, s)) {
        // the project's own std::hash<std::tuple> must be analysed
        if (starts(q, "std::hash::")) {
          PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(F->getLocation()));
          if (P.isValid() && std::string(P.getFilename()).find("/lru/") != std::string::npos) return false;
        }
        return true;
      }
    return false;
  }

  JV typeJson(QualType T) {
    JO o;
    Qualifiers Q = T.getQualifiers();
    if (Q.hasConst()) o["const"] = 1;
    const Type *ty = T.getTypePtr();
    o["s"] = T.getAsString(PP);
    if (auto *R = ty->getAs<ReferenceType>()) {
      o["k"] = isa<RValueReferenceType>(R) ? "rref" : "lref";
      o["to"] = tid(R->getPointeeType());
    } else if (auto *P = ty->getAs<PointerType>()) {
      o["k"] = "ptr";
      o["to"] = tid(P->getPointeeType());
    } else if (auto *RD = ty->getAsCXXRecordDecl()) {
      o["k"] = "rec";
      o["r"] = rid(RD);
    } else if (auto *E = ty->getAs<EnumType>()) {
      o["k"] = "enum";
      (void)E;
    } else if (auto *B = ty->getAs<BuiltinType>()) {
      if (B->isVoidType()) o["k"] = "void";
      else if (B->getKind() == BuiltinType::Bool) o["k"] = "bool";
      else if (B->isInteger()) {
        o["k"] = "int";
        o["u"] = B->isUnsignedInteger() ? 1 : 0;
        o["w"] = (int)C.getTypeSize(ty);
      } else if (B->isFloatingPoint()) o["k"] = "float";
      else if (B->isNullPtrType()) o["k"] = "nullptr";
      else o["k"] = "other";
    } else if (auto *A = dyn_cast<ConstantArrayType>(ty)) {
      o["k"] = "array";
      o["to"] = tid(A->getElementType());
      o["n"] = (int64_t)A->getSize().getZExtValue();
    } else if (ty->isFunctionType()) {
      o["k"] = "fn";
    } else if (auto *MP = ty->getAs<MemberPointerType>()) {
      o["k"] = "memptr";
      (void)MP;
    } else
      o["k"] = "other";
    return JV(std::move(o));
  }

  JV args(const TemplateArgumentList &L) {
    JA a;
    std::function<void(const TemplateArgument &)> add = [&](const TemplateArgument &A) {
      switch (A.getKind()) {
      case TemplateArgument::Type: a.push_back(JO{{"t", tid(A.getAsType())}}); break;
      case TemplateArgument::Integral: a.push_back(JO{{"v", A.getAsIntegral().getExtValue()}}); break;
      case TemplateArgument::Pack: for (auto &x : A.pack_elements()) add(x); break;
      default: a.push_back(JO{{"x", 1}});
      }
    };
    for (auto &A : L.asArray()) add(A);
    return JV(std::move(a));
  }

  // ---------------------------------------------------------------- functions
  void drain() {
    for (;;) {
      bool any = false;
      while (!Work.empty()) {
        auto *F = Work.front();
        Work.pop_front();
        dumpFunc(F);
        any = true;
      }
      while (!GlobWork.empty()) {
        auto *V = GlobWork.front();
        GlobWork.pop_front();
        dumpGlobal(V);
        any = true;
      }
      // overriders, ctors/dtors of known records
      for (size_t i = 0; i < Rs.size(); ++i) {
        auto *R = Rs[i];
        if (!R->hasDefinition() || R->isDependentContext()) continue;
        R = R->getDefinition();
        for (auto *M : R->methods()) {
          if (M->isDeleted()) continue;
          bool want = false;
          if (isa<CXXConstructorDecl>(M) || isa<CXXDestructorDecl>(M)) want = true;
          if (M->isCopyAssignmentOperator() || M->isMoveAssignmentOperator()) want = true;
          if (M->isOverloadedOperator() && M->getOverloadedOperator() == OO_Call) want = true;
          if (M->isVirtual()) want = true;
          if (want && !FIds.count(M->getCanonicalDecl())) { fid(M); any = true; }
        }
        // templated constructors and call operators: instantiated specialisations
        for (auto *D : R->decls())
          if (auto *FT = dyn_cast<FunctionTemplateDecl>(D)) {
            auto *TD = FT->getTemplatedDecl();
            bool call = TD->isOverloadedOperator() && TD->getOverloadedOperator() == OO_Call;
            if (!isa<CXXConstructorDecl>(TD) && !call) continue;
            for (auto *S : FT->specializations())
              if (S->getDefinition() && !FIds.count(S->getCanonicalDecl())) { fid(S); any = true; }
          }
      }
      if (!any) break;
    }
  }

  const FunctionDecl *def(const FunctionDecl *F) {
    const FunctionDecl *D = nullptr;
    if (F->hasBody(D)) return D;
    // implicitly defined special members keep the body on themselves
    return nullptr;
  }

  void dumpGlobal(const VarDecl *V) {
    JO o;
    o["name"] = plainQual(V);
    o["t"] = tid(V->getType());
    const VarDecl *D = V->getDefinition();
    if (!D) D = V;
    const VarDecl *I = nullptr;
    if (auto *Init = D->getAnyInitializer(I)) {
      if (!Init->isValueDependent()) o["init"] = ex(Init);
    }
    GlobOut[std::to_string(did(V))] = std::move(o);
  }

  void dumpFunc(const FunctionDecl *F) {
    int id = FIds[F->getCanonicalDecl()];
    if (Done.count(id)) return;
    Done.insert(id);
    JO o;
    o["name"] = F->getNameAsString();
    o["q"] = plainQual(F);
    loc(o, F->getLocation());
    o["ret"] = tid(F->getReturnType());
    bool stop = stopped(F);
    const FunctionDecl *D = stop ? nullptr : def(F);
    const FunctionDecl *PD = D ? D : F;
    JA ps;
    for (auto *P : PD->parameters()) {
      JO p;
      p["id"] = did(P);
      p["n"] = P->getNameAsString();
      p["t"] = tid(P->getType());
      if (P->hasDefaultArg() && !P->hasUninstantiatedDefaultArg() && !P->hasUnparsedDefaultArg()) {
        Expr::EvalResult R;
        if (P->getType()->isIntegralOrEnumerationType() && !P->getDefaultArg()->isValueDependent() && P->getDefaultArg()->EvaluateAsInt(R, C))
          p["def"] = R.Val.getInt().getExtValue();
      }
      ps.push_back(std::move(p));
    }
    o["params"] = std::move(ps);
    if (auto *FPT = F->getType()->getAs<FunctionProtoType>()) {
      if (!isUnresolvedExceptionSpec(FPT->getExceptionSpecType()) && FPT->isNothrow()) o["ne"] = 1;
    }
    if (F->isVariadic()) o["variadic"] = 1;
    if (auto *TA = F->getTemplateSpecializationArgs()) o["ta"] = args(*TA);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["rec"] = rid(M->getParent());
      if (M->isStatic()) o["static"] = 1;
      if (M->isConst()) o["cm"] = 1;
      if (M->isVirtual()) o["virt"] = 1;
      if (M->isPureVirtual()) o["pure"] = 1;
      if (M->isCopyAssignmentOperator()) o["ca"] = 1;
      if (M->isMoveAssignmentOperator()) o["ma"] = 1;
      if (M->isTrivial()) o["triv"] = 1;
      if (M->isDefaulted()) o["dflt"] = 1;
      if (M->isUserProvided()) o["up"] = 1;
      JA ov;
      for (auto *X : M->overridden_methods()) ov.push_back(fid(X));
      if (!ov.empty()) o["ov"] = std::move(ov);
    }
    if (F->isDeleted()) o["del"] = 1;
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
      o["ctor"] = 1;
      if (K->isCopyConstructor()) o["cc"] = 1;
      if (K->isMoveConstructor()) o["mc"] = 1;
      if (K->isDefaultConstructor()) o["dc"] = 1;
      if (K->isExplicit()) o["expl"] = 1;
      if (D) {
        JA in;
        auto *KD = cast<CXXConstructorDecl>(D);
        for (auto *I : KD->inits()) {
          JO x;
          if (I->isBaseInitializer()) {
            x["b"] = tid(QualType(I->getBaseClass(), 0));
          } else if (I->isDelegatingInitializer()) {
            x["d"] = 1;
          } else if (I->isIndirectMemberInitializer()) {
            JA path;
            for (auto *ND : I->getIndirectMember()->chain()) path.push_back(did(ND));
            x["ip"] = std::move(path);
          } else {
            x["f"] = did(I->getAnyMember());
          }
          x["e"] = ex(I->getInit());
          in.push_back(std::move(x));
        }
        o["inits"] = std::move(in);
      }
    }
    if (isa<CXXDestructorDecl>(F)) o["dtor"] = 1;
    if (F->isOverloadedOperator()) o["op"] = getOperatorSpelling(F->getOverloadedOperator());
    if (F->getBuiltinID()) o["builtin"] = 1;
    if (stop) o["stop"] = 1;
    if (D && D->getBody()) o["body"] = st(D->getBody());
    FuncOut[std::to_string(id)] = std::move(o);
  }

  JV recJson(const CXXRecordDecl *R) {
    JO o;
    o["q"] = plainQual(R);
    o["n"] = R->getNameAsString();
    {
      std::string s;
      llvm::raw_string_ostream os(s);
      C.getTypeDeclType(R).print(os, PP);
      o["s"] = os.str();
    }
    loc(o, R->getLocation());
    if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R)) o["ta"] = args(S->getTemplateArgs());
    if (!R->hasDefinition()) return JV(std::move(o));
    R = R->getDefinition();
    o["def"] = 1;
    if (R->isUnion()) o["union"] = 1;
    JA bs;
    for (auto &B : R->bases()) bs.push_back(tid(B.getType()));
    o["bases"] = std::move(bs);
    JA fs;
    for (auto *F : R->fields()) {
      JO f;
      f["id"] = did(F);
      f["n"] = F->getNameAsString();
      f["t"] = tid(F->getType());
      if (F->isMutable()) f["mut"] = 1;
      fs.push_back(std::move(f));
    }
    o["fields"] = std::move(fs);
    JA ms;
    if (!R->isDependentContext()) {
      for (auto *M : R->methods()) {
        auto it = FIds.find(M->getCanonicalDecl());
        if (it != FIds.end()) ms.push_back(it->second);
      }
      for (auto *D : R->decls())
        if (auto *FT = dyn_cast<FunctionTemplateDecl>(D))
          for (auto *S : FT->specializations()) {
            auto it = FIds.find(S->getCanonicalDecl());
            if (it != FIds.end()) ms.push_back(it->second);
          }
    }
    o["methods"] = std::move(ms);
    if (R->isAggregate()) o["agg"] = 1;
    if (R->isLambda()) {
      o["lambda"] = 1;
      llvm::DenseMap<const ValueDecl *, FieldDecl *> caps;
      FieldDecl *thisF = nullptr;
      R->getCaptureFields(caps, thisF);
      JO cm;
      for (auto &kv : caps) cm[std::to_string(did(kv.first))] = did(kv.second);
      o["caps"] = std::move(cm);
      if (thisF) o["capthis"] = did(thisF);
    }
    return JV(std::move(o));
  }

  // ---------------------------------------------------------------- statements
  JV varDecl(const VarDecl *V) {
    JO o;
    o["id"] = did(V);
    o["n"] = V->getNameAsString();
    o["t"] = tid(V->getType());
    if (V->isStaticLocal()) o["static"] = 1;
    if (V->getInit()) o["init"] = ex(V->getInit());
    if (V->isNRVOVariable()) o["nrvo"] = 1;
    if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
      JA bs;
      for (auto *B : DD->bindings()) {
        JO b;
        b["id"] = did(B);
        if (auto *H = B->getHoldingVar()) b["hold"] = varDecl(H);
        else if (B->getBinding()) b["e"] = ex(B->getBinding());
        bs.push_back(std::move(b));
      }
      o["bind"] = std::move(bs);
    }
    loc(o, V->getLocation());
    return JV(std::move(o));
  }

  JV st(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) {
      JO o{{"k", "Expr"}};
      o["e"] = ex(E);
      loc(o, E->getBeginLoc());
      return JV(std::move(o));
    }
    JO o;
    loc(o, S->getBeginLoc());
    switch (S->getStmtClass()) {
    case Stmt::CompoundStmtClass: {
      o["k"] = "Block";
      JA a;
      for (auto *x : cast<CompoundStmt>(S)->body()) a.push_back(st(x));
      o["c"] = std::move(a);
      break;
    }
    case Stmt::DeclStmtClass: {
      o["k"] = "Decl";
      JA a;
      for (auto *D : cast<DeclStmt>(S)->decls())
        if (auto *V = dyn_cast<VarDecl>(D)) a.push_back(varDecl(V));
      o["v"] = std::move(a);
      break;
    }
    case Stmt::IfStmtClass: {
      auto *I = cast<IfStmt>(S);
      o["k"] = "If";
      if (I->getInit()) o["init"] = st(I->getInit());
      if (auto *CV = I->getConditionVariableDeclStmt()) o["cv"] = st(CV);
      if (I->isConstexpr() && !I->getCond()->isValueDependent()) {
        if (auto NC = I->getNondiscardedCase(C)) {
          o["k"] = "Block";
          JA a;
          if (*NC) a.push_back(st(*NC));
          o["c"] = std::move(a);
          break;
        }
      }
      o["cond"] = ex(I->getCond());
      o["then"] = st(I->getThen());
      if (I->getElse()) o["else"] = st(I->getElse());
      break;
    }
    case Stmt::WhileStmtClass: {
      auto *I = cast<WhileStmt>(S);
      o["k"] = "While";
      if (auto *CV = I->getConditionVariableDeclStmt()) o["cv"] = st(CV);
      o["cond"] = ex(I->getCond());
      o["body"] = st(I->getBody());
      break;
    }
    case Stmt::DoStmtClass: {
      auto *I = cast<DoStmt>(S);
      o["k"] = "Do";
      o["cond"] = ex(I->getCond());
      o["body"] = st(I->getBody());
      break;
    }
    case Stmt::ForStmtClass: {
      auto *I = cast<ForStmt>(S);
      o["k"] = "For";
      if (I->getInit()) o["init"] = st(I->getInit());
      if (I->getCond()) o["cond"] = ex(I->getCond());
      if (I->getInc()) o["inc"] = ex(I->getInc());
      if (auto *CV = I->getConditionVariableDeclStmt()) o["cv"] = st(CV);
      o["body"] = st(I->getBody());
      break;
    }
    case Stmt::CXXForRangeStmtClass: {
      auto *I = cast<CXXForRangeStmt>(S);
      o["k"] = "For";
      JA init;
      if (I->getInit()) init.push_back(st(I->getInit()));
      init.push_back(st(I->getRangeStmt()));
      init.push_back(st(I->getBeginStmt()));
      init.push_back(st(I->getEndStmt()));
      o["init"] = JO{{"k", "Seq"}, {"c", std::move(init)}};
      o["cond"] = ex(I->getCond());
      o["inc"] = ex(I->getInc());
      JA body;
      body.push_back(st(I->getLoopVarStmt()));
      body.push_back(st(I->getBody()));
      o["body"] = JO{{"k", "Block"}, {"c", std::move(body)}};
      break;
    }
    case Stmt::ReturnStmtClass: {
      auto *R = cast<ReturnStmt>(S);
      o["k"] = "Return";
      if (R->getRetValue()) o["e"] = ex(R->getRetValue());
      if (R->getNRVOCandidate()) o["nrvo"] = did(R->getNRVOCandidate());
      break;
    }
    case Stmt::BreakStmtClass: o["k"] = "Break"; break;
    case Stmt::ContinueStmtClass: o["k"] = "Continue"; break;
    case Stmt::NullStmtClass: o["k"] = "Null"; break;
    case Stmt::CXXTryStmtClass: {
      auto *T = cast<CXXTryStmt>(S);
      o["k"] = "Try";
      o["body"] = st(T->getTryBlock());
      JA hs;
      for (unsigned i = 0; i < T->getNumHandlers(); ++i) {
        auto *H = T->getHandler(i);
        JO h;
        if (auto *V = H->getExceptionDecl()) {
          h["v"] = varDecl(V);
          h["t"] = tid(H->getCaughtType());
        }
        h["body"] = st(H->getHandlerBlock());
        hs.push_back(std::move(h));
      }
      o["h"] = std::move(hs);
      break;
    }
    case Stmt::SwitchStmtClass: {
      auto *W = cast<SwitchStmt>(S);
      o["k"] = "Switch";
      if (W->getInit()) o["init"] = st(W->getInit());
      o["cond"] = ex(W->getCond());
      o["body"] = st(W->getBody());
      break;
    }
    case Stmt::CaseStmtClass: {
      auto *K = cast<CaseStmt>(S);
      o["k"] = "Case";
      o["v"] = ex(K->getLHS());
      o["s"] = st(K->getSubStmt());
      break;
    }
    case Stmt::DefaultStmtClass:
      o["k"] = "Default";
      o["s"] = st(cast<DefaultStmt>(S)->getSubStmt());
      break;
    case Stmt::AttributedStmtClass: return st(cast<AttributedStmt>(S)->getSubStmt());
    case Stmt::LabelStmtClass: return st(cast<LabelStmt>(S)->getSubStmt());
    default:
      o["k"] = "Unknown";
      o["what"] = S->getStmtClassName();
    }
    return JV(std::move(o));
  }

  // ---------------------------------------------------------------- expressions
  JA exs(llvm::iterator_range<CallExpr::const_arg_iterator> r) {
    JA a;
    for (auto *x : r) a.push_back(ex(x));
    return a;
  }
  void useRec(QualType T) {
    if (auto *R = T->getAsCXXRecordDecl()) rid(R);
  }

  JV ex(const Expr *E) {
    if (!E) return nullptr;
    if (auto *X = dyn_cast<ParenExpr>(E)) return ex(X->getSubExpr());
    if (auto *X = dyn_cast<ConstantExpr>(E)) return ex(X->getSubExpr());
    if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return ex(X->getReplacement());
    if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) return ex(X->getExpr());
    if (auto *X = dyn_cast<GenericSelectionExpr>(E)) return ex(X->getResultExpr());
    JO o;
    QualType T = E->getType();
    o["t"] = tid(T);
    loc(o, E->getExprLoc());
    // compile-time constants
    if (E->isPRValue() && (T->isIntegralOrEnumerationType()) && !E->isValueDependent() &&
        !isa<CXXDefaultInitExpr>(E)) {
      Expr::EvalResult R;
      if (E->EvaluateAsInt(R, C) && !R.HasSideEffects) {
        o["k"] = T->isBooleanType() ? "Bool" : "Int";
        auto V = R.Val.getInt();
        if (T->isBooleanType()) o["v"] = V.getBoolValue() ? 1 : 0;
        else {
          llvm::SmallString<24> s;
          V.toString(s, 10);
          o["v"] = std::string(s.str());
        }
        return JV(std::move(o));
      }
    }
    if (E->isGLValue()) o["gl"] = E->isXValue() ? 2 : 1;
    switch (E->getStmtClass()) {
    case Stmt::FloatingLiteralClass:
      o["k"] = "Float";
      o["v"] = cast<FloatingLiteral>(E)->getValueAsApproximateDouble();
      break;
    case Stmt::StringLiteralClass: o["k"] = "Str"; break;
    case Stmt::PredefinedExprClass: o["k"] = "Str"; break;
    case Stmt::CXXNullPtrLiteralExprClass:
    case Stmt::GNUNullExprClass: o["k"] = "Null"; break;
    case Stmt::DeclRefExprClass: {
      auto *D = cast<DeclRefExpr>(E)->getDecl();
      if (auto *F = dyn_cast<FunctionDecl>(D)) {
        o["k"] = "Fn";
        o["f"] = fid(F);
      } else {
        o["k"] = "Var";
        o["id"] = did(D);
        o["n"] = D->getNameAsString();
        if (auto *V = dyn_cast<VarDecl>(D))
          if (V->hasGlobalStorage() && !V->isStaticLocal()) {
            if (GlobDone.insert(V->getCanonicalDecl()).second) GlobWork.push_back(V->getCanonicalDecl());
            o["g"] = 1;
          }
        if (D->getType()->isReferenceType()) o["ref"] = 1;
      }
      break;
    }
    case Stmt::MemberExprClass: {
      auto *M = cast<MemberExpr>(E);
      auto *D = M->getMemberDecl();
      if (auto *F = dyn_cast<FunctionDecl>(D)) {
        o["k"] = "MFn";
        o["f"] = fid(F);
        o["b"] = ex(M->getBase());
        if (M->isArrow()) o["arrow"] = 1;
      } else if (auto *V = dyn_cast<VarDecl>(D)) {
        o["k"] = "Var";
        o["id"] = did(V);
        o["n"] = V->getNameAsString();
        o["g"] = 1;
        if (GlobDone.insert(V->getCanonicalDecl()).second) GlobWork.push_back(V->getCanonicalDecl());
      } else {
        o["k"] = "Mem";
        o["f"] = did(D);
        o["n"] = D->getNameAsString();
        o["b"] = ex(M->getBase());
        if (M->isArrow()) o["arrow"] = 1;
        if (D->getType()->isReferenceType()) o["ref"] = 1;
        if (auto *FD = dyn_cast<FieldDecl>(D))
          if (FD->isMutable()) o["mut"] = 1;
      }
      break;
    }
    case Stmt::CXXThisExprClass: o["k"] = "This"; break;
    case Stmt::CXXMemberCallExprClass:
    case Stmt::CXXOperatorCallExprClass:
    case Stmt::UserDefinedLiteralClass:
    case Stmt::CallExprClass: {
      auto *X = cast<CallExpr>(E);
      o["k"] = "Call";
      if (auto *MC = dyn_cast<CXXMemberCallExpr>(X)) {
        auto *F = MC->getMethodDecl();
        if (F) {
          o["f"] = fid(F);
          o["obj"] = ex(MC->getImplicitObjectArgument());
          auto *ME = dyn_cast<MemberExpr>(MC->getCallee()->IgnoreParenImpCasts());
          if (ME && ME->isArrow()) o["arrow"] = 1;
          if (F->isVirtual() && !(ME && ME->hasQualifier())) o["v"] = 1;
        } else {
          o["callee"] = ex(X->getCallee());
        }
        o["a"] = exs(X->arguments());
      } else if (auto *D = X->getDirectCallee()) {
        o["f"] = fid(D);
        auto *M = dyn_cast<CXXMethodDecl>(D);
        if (isa<CXXOperatorCallExpr>(X) && M && !M->isStatic()) {
          o["obj"] = ex(X->getArg(0));
          JA a;
          for (unsigned i = 1; i < X->getNumArgs(); ++i) a.push_back(ex(X->getArg(i)));
          o["a"] = std::move(a);
          if (M->isVirtual()) o["v"] = 1;
        } else {
          o["a"] = exs(X->arguments());
        }
      } else {
        o["callee"] = ex(X->getCallee());
        o["a"] = exs(X->arguments());
      }
      break;
    }
    case Stmt::CXXConstructExprClass:
    case Stmt::CXXTemporaryObjectExprClass: {
      auto *X = cast<CXXConstructExpr>(E);
      o["k"] = "Ctor";
      o["f"] = fid(X->getConstructor());
      useRec(T);
      JA a;
      for (auto *y : X->arguments()) a.push_back(ex(y));
      o["a"] = std::move(a);
      if (X->isElidable()) o["el"] = 1;
      if (X->requiresZeroInitialization()) o["zi"] = 1;
      if (X->isListInitialization()) o["li"] = 1;
      break;
    }
    case Stmt::CXXInheritedCtorInitExprClass: {
      auto *X = cast<CXXInheritedCtorInitExpr>(E);
      o["k"] = "InhCtor";
      o["f"] = fid(X->getConstructor());
      break;
    }
    case Stmt::ImplicitCastExprClass:
    case Stmt::CStyleCastExprClass:
    case Stmt::CXXStaticCastExprClass:
    case Stmt::CXXConstCastExprClass:
    case Stmt::CXXFunctionalCastExprClass:
    case Stmt::CXXReinterpretCastExprClass:
    case Stmt::CXXDynamicCastExprClass: {
      auto *X = cast<CastExpr>(E);
      o["k"] = "Cast";
      o["ck"] = X->getCastKindName();
      o["e"] = ex(X->getSubExpr());
      break;
    }
    case Stmt::UnaryOperatorClass: {
      auto *X = cast<UnaryOperator>(E);
      o["k"] = "Un";
      o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if (X->isPostfix()) o["post"] = 1;
      o["e"] = ex(X->getSubExpr());
      break;
    }
    case Stmt::BinaryOperatorClass: {
      auto *X = cast<BinaryOperator>(E);
      o["k"] = "Bin";
      o["op"] = X->getOpcodeStr().str();
      o["a"] = ex(X->getLHS());
      o["b"] = ex(X->getRHS());
      break;
    }
    case Stmt::CXXRewrittenBinaryOperatorClass: return ex(cast<CXXRewrittenBinaryOperator>(E)->getSemanticForm());
    case Stmt::CompoundAssignOperatorClass: {
      auto *X = cast<CompoundAssignOperator>(E);
      o["k"] = "CAssign";
      o["op"] = X->getOpcodeStr().str();
      o["a"] = ex(X->getLHS());
      o["b"] = ex(X->getRHS());
      o["ct"] = tid(X->getComputationResultType());
      break;
    }
    case Stmt::ConditionalOperatorClass: {
      auto *X = cast<ConditionalOperator>(E);
      o["k"] = "Cond";
      o["c"] = ex(X->getCond());
      o["a"] = ex(X->getTrueExpr());
      o["b"] = ex(X->getFalseExpr());
      break;
    }
    case Stmt::ArraySubscriptExprClass: {
      auto *X = cast<ArraySubscriptExpr>(E);
      o["k"] = "Idx";
      o["a"] = ex(X->getBase());
      o["b"] = ex(X->getIdx());
      break;
    }
    case Stmt::CXXThrowExprClass: {
      auto *X = cast<CXXThrowExpr>(E);
      o["k"] = "Throw";
      if (X->getSubExpr()) o["e"] = ex(X->getSubExpr());
      break;
    }
    case Stmt::CXXNewExprClass: {
      auto *X = cast<CXXNewExpr>(E);
      o["k"] = "New";
      o["at"] = tid(X->getAllocatedType());
      if (X->isArray()) o["arr"] = 1;
      if (X->getInitializer()) o["init"] = ex(X->getInitializer());
      JA pl;
      for (unsigned i = 0; i < X->getNumPlacementArgs(); ++i) pl.push_back(ex(X->getPlacementArg(i)));
      if (!pl.empty()) o["pl"] = std::move(pl);
      break;
    }
    case Stmt::CXXDeleteExprClass: {
      auto *X = cast<CXXDeleteExpr>(E);
      o["k"] = "Delete";
      o["e"] = ex(X->getArgument());
      break;
    }
    case Stmt::LambdaExprClass: {
      auto *X = cast<LambdaExpr>(E);
      o["k"] = "Lambda";
      auto *R = X->getLambdaClass();
      o["r"] = rid(R);
      JA fs, is;
      for (auto *F : R->fields()) fs.push_back(did(F));
      for (auto *I : X->capture_inits()) is.push_back(ex(I));
      o["fs"] = std::move(fs);
      o["is"] = std::move(is);
      break;
    }
    case Stmt::MaterializeTemporaryExprClass: {
      auto *X = cast<MaterializeTemporaryExpr>(E);
      o["k"] = "Mat";
      o["e"] = ex(X->getSubExpr());
      if (auto *D = X->getExtendingDecl()) o["ext"] = did(D);
      break;
    }
    case Stmt::CXXBindTemporaryExprClass: return ex(cast<CXXBindTemporaryExpr>(E)->getSubExpr());
    case Stmt::ExprWithCleanupsClass: {
      o["k"] = "Full";
      o["e"] = ex(cast<ExprWithCleanups>(E)->getSubExpr());
      break;
    }
    case Stmt::CXXDefaultInitExprClass: {
      o["k"] = "DInit";
      o["e"] = ex(cast<CXXDefaultInitExpr>(E)->getExpr());
      break;
    }
    case Stmt::InitListExprClass: {
      auto *X = cast<InitListExpr>(E);
      if (!X->isSemanticForm() && X->getSemanticForm()) X = X->getSemanticForm();
      o["k"] = "IList";
      useRec(T);
      JA a;
      for (unsigned i = 0; i < X->getNumInits(); ++i) a.push_back(ex(X->getInit(i)));
      o["a"] = std::move(a);
      if (auto *F = X->getInitializedFieldInUnion()) o["uf"] = did(F);
      if (X->hasArrayFiller()) o["filler"] = 1;
      break;
    }
    case Stmt::CXXParenListInitExprClass: {
      auto *X = cast<CXXParenListInitExpr>(E);
      o["k"] = "IList";
      JA a;
      for (auto *y : X->getInitExprs()) a.push_back(ex(y));
      o["a"] = std::move(a);
      break;
    }
    case Stmt::CXXStdInitializerListExprClass: {
      o["k"] = "StdIL";
      o["e"] = ex(cast<CXXStdInitializerListExpr>(E)->getSubExpr());
      break;
    }
    case Stmt::ImplicitValueInitExprClass:
    case Stmt::CXXScalarValueInitExprClass: o["k"] = "VInit"; break;
    case Stmt::StmtExprClass: {
      o["k"] = "StmtE";
      o["s"] = st(cast<StmtExpr>(E)->getSubStmt());
      break;
    }
    case Stmt::OpaqueValueExprClass: return ex(cast<OpaqueValueExpr>(E)->getSourceExpr());
    case Stmt::SourceLocExprClass: o["k"] = "Str"; break;
    case Stmt::CXXTypeidExprClass: {
      auto *X = cast<CXXTypeidExpr>(E);
      o["k"] = "Typeid";
      if (X->isTypeOperand()) o["of"] = tid(X->getTypeOperand(C));
      else { o["e"] = ex(X->getExprOperand()); o["of"] = tid(X->getExprOperand()->getType()); }
      break;
    }
    case Stmt::CXXPseudoDestructorExprClass: o["k"] = "PseudoDtor"; break;
    case Stmt::ArrayInitLoopExprClass: {
      o["k"] = "ArrayCopy";
      o["e"] = ex(cast<ArrayInitLoopExpr>(E)->getCommonExpr()->getSourceExpr());
      break;
    }
    default:
      o["k"] = "Unknown";
      o["what"] = E->getStmtClassName();
    }
    return JV(std::move(o));
  }

  // the public members of every known record of the library, with canonical types
  JV api() {
    JA out;
    auto cs = [&](QualType T) { return T.getCanonicalType().getAsString(PP); };
    for (auto *R0 : Rs) {
      if (!R0->hasDefinition() || R0->isDependentContext()) continue;
      auto *R = R0->getDefinition();
      if (R->isLambda() || StringRef(R->getQualifiedNameAsString()).substr(0, 5) != "LRU::") continue;
      JO o;
      o["s"] = cs(C.getRecordType(R));
      JA bs;
      for (auto &B : R->bases()) bs.push_back(cs(B.getType()));
      o["bases"] = std::move(bs);
      JA ms;
      for (auto *D : R->decls()) {
        if (D->isImplicit() || D->getAccess() != AS_public) continue;
        const NamedDecl *N = dyn_cast<NamedDecl>(D);
        if (auto *FT = dyn_cast<FunctionTemplateDecl>(D)) D = FT->getTemplatedDecl();
        JO m;
        if (auto *M = dyn_cast<CXXMethodDecl>(D)) {
          m["k"] = isa<CXXConstructorDecl>(M) ? "ctor" : isa<CXXDestructorDecl>(M) ? "dtor" : "method";
          m["t"] = cs(M->getReturnType());
          m["const"] = M->isConst() ? 1 : 0;
          JA ps;
          for (auto *P : M->parameters()) ps.push_back(cs(P->getType()));
          m["p"] = std::move(ps);
        } else if (auto *F = dyn_cast<FieldDecl>(D)) {
          m["k"] = "field";
          m["t"] = cs(F->getType());
          m["const"] = F->isMutable() ? 1 : 0;
        } else
          continue;
        m["n"] = N->getNameAsString();
        loc(m, D->getLocation());
        ms.push_back(std::move(m));
      }
      o["m"] = std::move(ms);
      out.push_back(std::move(o));
    }
    return JV(std::move(out));
  }

  void write() {
    JO top;
    top["functions"] = std::move(FuncOut);
    JA rs;
    // recJson may discover new types/records: iterate
    for (size_t i = 0; i < Rs.size(); ++i) rs.push_back(recJson(Rs[i]));
    JA ts;
    size_t i = 0;
    for (;;) {
      for (; i < Ts.size(); ++i) ts.push_back(typeJson(Ts[i]));
      for (size_t j = rs.size(); j < Rs.size(); ++j) rs.push_back(recJson(Rs[j]));
      if (i == Ts.size() && rs.size() == Rs.size()) break;
    }
    top["api"] = api();
    top["records"] = std::move(rs);
    top["types"] = std::move(ts);
    top["globals"] = std::move(GlobOut);
    JA fn;
    for (auto &f : FileNames) fn.push_back(f);
    top["files"] = std::move(fn);
    std::error_code ec;
    llvm::raw_fd_ostream os(OutPath, ec);
    os << JV(std::move(top));
  }
};

struct Consumer : ASTConsumer {
  CompilerInstance &CI;
  Consumer(CompilerInstance &CI) : CI(CI) {}
  void HandleTranslationUnit(ASTContext &C) override {
    if (CI.getDiagnostics().hasErrorOccurred()) { hasErrors = true; return; }
    Exporter X(C);
    std::function<void(const DeclContext *, bool)> walk = [&](const DeclContext *DC, bool in) {
      for (auto *D : DC->decls()) {
        if (auto *NS = dyn_cast<NamespaceDecl>(D)) {
          if (in || NS->getName() == "drv") walk(NS, true);
        } else if (in) {
          if (auto *F = dyn_cast<FunctionDecl>(D)) {
            if (F->hasBody() && !F->isDependentContext()) X.fid(F);
          } else if (auto *A = dyn_cast<TypeAliasDecl>(D)) {
            if (auto *R = A->getUnderlyingType()->getAsCXXRecordDecl()) X.rid(R);
          }
        }
      }
    };
    walk(C.getTranslationUnitDecl(), false);
    X.drain();
    X.write();
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override {
    return std::make_unique<Consumer>(CI);
  }
};

// usage: lru-export OUT.json SOURCE.cpp -- <compiler args>
int main(int argc, char **argv) {
  if (argc < 3) return 2;
  OutPath = argv[1];
  std::string src = argv[2];
  std::vector<std::string> args{"clang++"};
  for (int i = 3; i < argc; ++i)
    if (std::string(argv[i]) != "--") args.push_back(argv[i]);
  args.push_back("-fsyntax-only");
  args.push_back(src);
  auto FM = llvm::IntrusiveRefCntPtr<FileManager>(new FileManager(FileSystemOptions()));
  tooling::ToolInvocation inv(args, std::make_unique<Action>(), FM.get());
  bool ok = inv.run();
  return ok && !hasErrors ? 0 : 3;
}
