// extract: dumps the type-checked program (functions, records, globals, enums)
// of one translation unit as JSON.  Only declarations located under the given
// root directories are dumped; everything else is referred to by name.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::vector<std::string> Roots;
static std::string TuTag;

struct Dumper : RecursiveASTVisitor<Dumper> {
  ASTContext &C;
  SourceManager &SM;
  std::unique_ptr<MangleContext> MC;
  PrintingPolicy PP;
  std::map<const Decl *, int> Ids;
  std::map<std::string, int> TypeIds;
  std::map<std::string, int> FileIds;
  Array Types, Files;
  Array Functions, Globals, Enums, Records;
  std::set<const Decl *> Seen;

  Dumper(ASTContext &C)
      : C(C), SM(C.getSourceManager()), MC(C.createMangleContext()),
        PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.Bool = true;
    PP.SuppressUnwrittenScope = false;
    PP.AnonymousTagLocations = false;
  }

  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool shouldVisitLambdaBody() const { return true; }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto P = SM.getPresumedLoc(L, false);
    if (P.isInvalid())
      return "";
    llvm::SmallString<256> S(P.getFilename());
    SM.getFileManager().makeAbsolutePath(S);
    llvm::sys::path::remove_dots(S, true);
    return std::string(S);
  }
  bool inRoots(SourceLocation L) {
    std::string F = fileOf(L);
    for (auto &R : Roots)
      if (F.compare(0, R.size(), R) == 0)
        return true;
    return false;
  }
  Value loc(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    std::string F = fileOf(L);
    auto It = FileIds.find(F);
    int Id;
    if (It == FileIds.end()) {
      Id = FileIds.size();
      FileIds[F] = Id;
      Files.push_back(F);
    } else
      Id = It->second;
    return Array{Id, (int)SM.getExpansionLineNumber(L)};
  }
  int id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto R = Ids.insert({D, (int)Ids.size() + 1});
    return R.first->second;
  }

  std::string recName(const RecordDecl *R) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    if (auto *CR = dyn_cast<CXXRecordDecl>(R))
      if (CR->isLambda())
        return "lambda#" + std::to_string(id(R));
    if (!R->getIdentifier())
      return "anon#" + std::to_string(id(R)) + (R->isUnion() ? "u" : "");
    C.getTypeDeclType(R).print(OS, PP);
    return OS.str();
  }

  int type(QualType Q) {
    QualType T = Q.getCanonicalType();
    std::string Name = T.getAsString(PP);
    std::string Key = Name;
    const RecordDecl *KR = T->getAsRecordDecl();
    if (KR && (!KR->getIdentifier() || (isa<CXXRecordDecl>(KR) && cast<CXXRecordDecl>(KR)->isLambda())))
      Key += recName(KR);
    // anonymous record somewhere inside: use pointer identity
    if (Key.find("lambda") != std::string::npos ||
        Key.find("(unnamed") != std::string::npos ||
        Key.find("(anonymous") != std::string::npos)
      Key += "@" + std::to_string((uintptr_t)T.getAsOpaquePtr());
    auto It = TypeIds.find(Key);
    if (It != TypeIds.end())
      return It->second;
    int Id = Types.size();
    TypeIds[Key] = Id;
    Types.push_back(nullptr);
    Object O;
    O["n"] = Name;
    if (T.isConstQualified())
      O["const"] = true;
    const clang::Type *U = T.getTypePtr();
    if (T->isDependentType()) {
      O["k"] = "dependent";
    } else if (T->isVoidType()) {
      O["k"] = "void";
    } else if (T->isBooleanType()) {
      O["k"] = "int";
      O["bool"] = true;
      O["w"] = 8;
      O["s"] = false;
    } else if (auto *ET = U->getAs<EnumType>()) {
      O["k"] = "enum";
      O["w"] = (int)C.getTypeSize(T);
      QualType I = ET->getDecl()->getIntegerType();
      O["s"] = I.isNull() ? true : I->isSignedIntegerType();
      O["q"] = ET->getDecl()->getQualifiedNameAsString();
    } else if (T->isIntegerType()) {
      O["k"] = "int";
      O["w"] = (int)C.getTypeSize(T);
      O["s"] = T->isSignedIntegerType();
    } else if (T->isRealFloatingType()) {
      O["k"] = "float";
      O["w"] = (int)C.getTypeSize(T);
    } else if (T->isNullPtrType()) {
      O["k"] = "nullptr";
    } else if (T->isPointerType()) {
      O["k"] = "ptr";
      O["e"] = type(T->getPointeeType());
    } else if (T->isReferenceType()) {
      O["k"] = "ref";
      O["rv"] = T->isRValueReferenceType();
      O["e"] = type(T->getPointeeType());
    } else if (auto *AT = C.getAsConstantArrayType(T)) {
      O["k"] = "array";
      O["e"] = type(AT->getElementType());
      O["len"] = (int64_t)AT->getSize().getLimitedValue();
      O["size"] = (int64_t)C.getTypeSizeInChars(T).getQuantity();
    } else if (T->isArrayType()) {
      O["k"] = "array";
      O["e"] = type(C.getAsArrayType(T)->getElementType());
      O["len"] = -1;
    } else if (T->isFunctionType()) {
      O["k"] = "func";
    } else if (auto *RT = U->getAs<RecordType>()) {
      O["k"] = "rec";
      auto *RD = RT->getDecl();
      O["rec"] = recName(RD);
      O["q"] = RD->getQualifiedNameAsString();
      if (RD->isUnion())
        O["union"] = true;
      if (RD->isCompleteDefinition() && !RD->isInvalidDecl() && !RD->isDependentType())
        O["size"] = (int64_t)C.getTypeSizeInChars(T).getQuantity();
      if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(RD)) {
        Array A;
        for (auto &Arg : S->getTemplateArgs().asArray())
          targ(Arg, A);
        O["targs"] = std::move(A);
      }
      if (auto *CR = dyn_cast<CXXRecordDecl>(RD)) {
        if (CR->isLambda())
          O["lambda"] = true;
      }
    } else {
      O["k"] = "other";
    }
    Types[Id] = std::move(O);
    return Id;
  }
  void targ(const TemplateArgument &Arg, Array &A) {
    switch (Arg.getKind()) {
    case TemplateArgument::Type:
      A.push_back(Object{{"t", type(Arg.getAsType())}});
      break;
    case TemplateArgument::Integral:
      A.push_back(Object{{"i", Arg.getAsIntegral().getExtValue()}});
      break;
    case TemplateArgument::Pack:
      for (auto &P : Arg.pack_elements())
        targ(P, A);
      break;
    default:
      A.push_back(nullptr);
    }
  }

  bool internal(const NamedDecl *D) {
    return !D->hasExternalFormalLinkage();
  }
  std::string mangled(const NamedDecl *ND) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    if (auto *FD = dyn_cast<FunctionDecl>(ND)) {
      if (FD->isDependentContext())
        return ND->getQualifiedNameAsString();
      if (auto *K = dyn_cast<CXXConstructorDecl>(FD))
        MC->mangleName(GlobalDecl(K, Ctor_Complete), OS);
      else if (auto *K = dyn_cast<CXXDestructorDecl>(FD))
        MC->mangleName(GlobalDecl(K, Dtor_Complete), OS);
      else if (MC->shouldMangleDeclName(FD))
        MC->mangleName(GlobalDecl(FD), OS);
      else
        OS << FD->getQualifiedNameAsString();
    } else if (auto *VD = dyn_cast<VarDecl>(ND)) {
      if (VD->isStaticLocal() || (VD->getDeclContext()->isDependentContext()) || VD->isLocalVarDeclOrParm())
        OS << "v" << id(VD) << "@" << TuTag;
      else if (MC->shouldMangleDeclName(VD))
        MC->mangleName(GlobalDecl(VD), OS);
      else
        OS << VD->getQualifiedNameAsString();
    } else
      OS << ND->getQualifiedNameAsString();
    OS.flush();
    if (internal(ND) && S.find("@") == std::string::npos) {
      S += "@" + TuTag;
      if (isa<FunctionDecl>(ND) && isa<CXXRecordDecl>(ND->getDeclContext()) &&
          cast<CXXRecordDecl>(ND->getDeclContext())->isLambda())
        S += "#" + std::to_string(id(ND));
    }
    return S;
  }

  Value fnref(const FunctionDecl *F) {
    Object O;
    O["q"] = F->getQualifiedNameAsString();
    O["n"] = F->getNameAsString();
    O["m"] = mangled(F);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isStatic())
        O["static"] = true;
      O["rec"] = M->getParent()->getQualifiedNameAsString();
      O["rect"] = type(C.getTypeDeclType(M->getParent()));
      if (M->isConst())
        O["const"] = true;
      if (M->isDefaulted() || M->isImplicit())
        O["dflt"] = true;
      if (auto *K = dyn_cast<CXXConstructorDecl>(M)) {
        O["ctor"] = true;
        if (K->isCopyConstructor())
          O["copy"] = true;
        if (K->isMoveConstructor())
          O["move"] = true;
      }
      if (isa<CXXDestructorDecl>(M))
        O["dtor"] = true;
      if (M->isCopyAssignmentOperator())
        O["copyassign"] = true;
      if (M->isMoveAssignmentOperator())
        O["moveassign"] = true;
    }
    Array PT;
    for (auto *P : F->parameters())
      PT.push_back(type(P->getType()));
    O["pt"] = std::move(PT);
    O["rt"] = type(F->getReturnType());
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      Array A;
      for (auto &Arg : TA->asArray())
        targ(Arg, A);
      O["targs"] = std::move(A);
    }
    if (F->isNoReturn())
      O["noreturn"] = true;
    if (F->getBuiltinID())
      O["builtin"] = true;
    return O;
  }

  Array exprs(llvm::iterator_range<CallExpr::const_arg_iterator> R) {
    Array A;
    for (auto *E : R)
      A.push_back(expr(E));
    return A;
  }

  Value expr(const Expr *E) {
    if (!E)
      return nullptr;
    // transparent wrappers
    if (auto *X = dyn_cast<ParenExpr>(E))
      return expr(X->getSubExpr());
    if (auto *X = dyn_cast<ExprWithCleanups>(E)) {
      return Object{{"k", "full"}, {"e", expr(X->getSubExpr())}};
    }
    if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E))
      return expr(X->getSubExpr());
    if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E))
      return expr(X->getReplacement());
    if (auto *X = dyn_cast<CXXDefaultArgExpr>(E))
      return expr(X->getExpr());
    if (auto *X = dyn_cast<CXXDefaultInitExpr>(E))
      return expr(X->getExpr());
    if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E))
      return Object{{"k", "initlist_std"}, {"t", type(E->getType())}, {"e", expr(X->getSubExpr())}, {"l", loc(E->getBeginLoc())}};
    if (auto *X = dyn_cast<ConstantExpr>(E))
      return expr(X->getSubExpr());
    if (auto *X = dyn_cast<ChooseExpr>(E))
      return expr(X->getChosenSubExpr());
    if (auto *X = dyn_cast<GenericSelectionExpr>(E))
      return expr(X->getResultExpr());
    if (auto *X = dyn_cast<OpaqueValueExpr>(E))
      return expr(X->getSourceExpr());
    if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E))
      return expr(X->getSemanticForm());

    Object O;
    O["t"] = type(E->getType());
    O["l"] = loc(E->getBeginLoc());
    if (E->isGLValue())
      O["lv"] = true;
    if (!E->isValueDependent() && !E->isTypeDependent() &&
        E->isPRValue() && E->getType()->isIntegralOrEnumerationType() && !isa<InitListExpr>(E)) {
      Expr::EvalResult R;
      if (E->EvaluateAsInt(R, C) && !R.HasSideEffects) {
        llvm::SmallString<32> S;
        R.Val.getInt().toString(S, 10);
        O["c"] = std::string(S);
        if (isa<IntegerLiteral>(E) || isa<CharacterLiteral>(E) ||
            isa<CXXBoolLiteralExpr>(E)) {
          O["k"] = "int";
          return O;
        }
        // constant folding is only used where there is nothing to observe
      }
    }
    if (auto *X = dyn_cast<CastExpr>(E)) {
      O["k"] = "cast";
      O["ck"] = X->getCastKindName();
      if (!isa<ImplicitCastExpr>(X))
        O["expl"] = true;
      O["e"] = expr(X->getSubExpr());
      if (X->getCastKind() == CK_UserDefinedConversion || X->getCastKind() == CK_ConstructorConversion)
        if (auto *F = dyn_cast_or_null<FunctionDecl>(X->getConversionFunction()))
          O["fn"] = fnref(F);
      return O;
    }
    if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) {
      O["k"] = "mat";
      O["e"] = expr(X->getSubExpr());
      return O;
    }
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      O["k"] = "ref";
      auto *D = X->getDecl();
      O["n"] = D->getNameAsString();
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        O["k"] = "int";
        llvm::SmallString<32> S;
        EC->getInitVal().toString(S, 10);
        O["c"] = std::string(S);
        return O;
      }
      if (auto *F = dyn_cast<FunctionDecl>(D)) {
        O["k"] = "fref";
        O["fn"] = fnref(F);
        return O;
      }
      O["d"] = id(D);
      if (auto *V = dyn_cast<VarDecl>(D)) {
        if (V->hasGlobalStorage()) {
          O["g"] = mangled(V);
          O["q"] = V->getQualifiedNameAsString();
        }
      }
      if (X->refersToEnclosingVariableOrCapture())
        O["cap"] = true;
      return O;
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      auto *D = X->getMemberDecl();
      O["k"] = "mem";
      O["arrow"] = X->isArrow();
      O["b"] = expr(X->getBase());
      O["f"] = D->getNameAsString();
      if (auto *FD = dyn_cast<FieldDecl>(D)) {
        O["f"] = FD->getNameAsString();
        O["fi"] = (int)FD->getFieldIndex();
        if (FD->isMutable())
          O["mut"] = true;
      } else if (auto *F = dyn_cast<FunctionDecl>(D)) {
        O["k"] = "mref";
        O["fn"] = fnref(F);
      } else if (auto *V = dyn_cast<VarDecl>(D)) {
        O["k"] = "ref";
        O["g"] = mangled(V);
        O["n"] = V->getNameAsString();
        O["d"] = id(V);
      }
      return O;
    }
    if (auto *X = dyn_cast<StringLiteral>(E)) {
      O["k"] = "str";
      Array A;
      for (unsigned I = 0; I < X->getLength(); ++I)
        A.push_back((int64_t)X->getCodeUnit(I));
      O["v"] = std::move(A);
      return O;
    }
    if (isa<PredefinedExpr>(E)) {
      O["k"] = "str";
      O["v"] = Array{};
      return O;
    }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) {
      O["k"] = "float";
      O["v"] = X->getValueAsApproximateDouble();
      return O;
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) {
      O["k"] = "null";
      return O;
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      O["k"] = "un";
      O["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if (X->isPostfix())
        O["post"] = true;
      O["e"] = expr(X->getSubExpr());
      return O;
    }
    if (auto *X = dyn_cast<CompoundAssignOperator>(E)) {
      O["k"] = "cassign";
      O["op"] = X->getOpcodeStr().drop_back().str();
      O["a"] = expr(X->getLHS());
      O["b"] = expr(X->getRHS());
      O["ct"] = type(X->getComputationResultType());
      O["clt"] = type(X->getComputationLHSType());
      return O;
    }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      O["k"] = X->isAssignmentOp() ? "assign" : "bin";
      O["op"] = X->getOpcodeStr().str();
      O["a"] = expr(X->getLHS());
      O["b"] = expr(X->getRHS());
      return O;
    }
    if (auto *X = dyn_cast<AbstractConditionalOperator>(E)) {
      O["k"] = "cond";
      O["x"] = expr(X->getCond());
      O["a"] = expr(X->getTrueExpr());
      O["b"] = expr(X->getFalseExpr());
      return O;
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      O["k"] = "idx";
      O["a"] = expr(X->getBase());
      O["b"] = expr(X->getIdx());
      return O;
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      O["k"] = "mcall";
      if (auto *M = X->getMethodDecl())
        O["fn"] = fnref(M);
      if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) {
        O["o"] = expr(ME->getBase());
        O["arrow"] = ME->isArrow();
        if (ME->hasQualifier())
          O["qual"] = true;
        if (auto *M = X->getMethodDecl())
          if (M->isVirtual() && !ME->hasQualifier())
            O["virt"] = true;
      } else
        O["o"] = expr(X->getCallee());
      O["args"] = exprs(X->arguments());
      return O;
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      bool Op = isa<CXXOperatorCallExpr>(E);
      O["k"] = Op ? "ocall" : "call";
      if (Op)
        O["op"] = getOperatorSpelling(cast<CXXOperatorCallExpr>(E)->getOperator());
      if (auto *F = X->getDirectCallee())
        O["fn"] = fnref(F);
      else
        O["callee"] = expr(X->getCallee());
      if (isa<CXXPseudoDestructorExpr>(X->getCallee()->IgnoreParens()))
        O["k"] = "nop";
      O["args"] = exprs(X->arguments());
      return O;
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      O["k"] = "ctor";
      O["fn"] = fnref(X->getConstructor());
      Array A;
      for (auto *Arg : X->arguments())
        A.push_back(expr(Arg));
      O["args"] = std::move(A);
      if (X->requiresZeroInitialization())
        O["zero"] = true;
      if (X->isListInitialization())
        O["list"] = true;
      return O;
    }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      O["k"] = "ctor";
      O["fn"] = fnref(X->getConstructor());
      O["args"] = Array{};
      return O;
    }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      if (auto *S = X->getSemanticForm())
        X = S;
      O["k"] = "list";
      Array A;
      for (auto *I : X->inits())
        A.push_back(expr(I));
      O["args"] = std::move(A);
      if (auto *F = X->getInitializedFieldInUnion())
        O["uf"] = F->getNameAsString();
      if (X->hasArrayFiller() && X->getArrayFiller())
        O["filler"] = expr(X->getArrayFiller());
      return O;
    }
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) {
      O["k"] = "zero";
      return O;
    }
    if (isa<CXXThisExpr>(E)) {
      O["k"] = "this";
      return O;
    }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
      O["k"] = "throw";
      O["e"] = expr(X->getSubExpr());
      return O;
    }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      O["k"] = "lambda";
      O["fn"] = fnref(X->getCallOperator());
      Array Caps;
      auto IE = X->capture_init_begin();
      for (auto &Cap : X->captures()) {
        Object CO;
        if (Cap.capturesVariable()) {
          CO["d"] = id(Cap.getCapturedVar());
          CO["n"] = Cap.getCapturedVar()->getNameAsString();
          CO["ref"] = Cap.getCaptureKind() == LCK_ByRef;
        } else if (Cap.capturesThis()) {
          CO["this"] = true;
          CO["ref"] = Cap.getCaptureKind() == LCK_This;
        }
        if (IE != X->capture_init_end()) {
          CO["e"] = expr(*IE);
          ++IE;
        }
        Caps.push_back(std::move(CO));
      }
      O["caps"] = std::move(Caps);
      if (X->isGenericLambda())
        O["generic"] = true;
      return O;
    }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      O["k"] = "new";
      O["at"] = type(X->getAllocatedType());
      if (X->isArray() && X->getArraySize())
        O["n"] = expr(*X->getArraySize());
      if (X->getInitializer())
        O["init"] = expr(X->getInitializer());
      return O;
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
      O["k"] = "delete";
      O["e"] = expr(X->getArgument());
      return O;
    }
    if (auto *X = dyn_cast<CXXTypeidExpr>(E)) {
      (void)X;
      O["k"] = "unknown";
      O["what"] = "typeid";
      return O;
    }
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      (void)X;
      O["k"] = "int"; // the constant is in "c"
      return O;
    }
    if (isa<TypeTraitExpr>(E) || isa<CXXNoexceptExpr>(E) || isa<SizeOfPackExpr>(E)) {
      O["k"] = "int";
      return O;
    }
    if (auto *X = dyn_cast<ArrayInitLoopExpr>(E)) {
      O["k"] = "arrayloop";
      O["e"] = expr(X->getCommonExpr()->getSourceExpr());
      return O;
    }
    O["k"] = "unknown";
    O["what"] = E->getStmtClassName();
    return O;
  }

  Value var(const VarDecl *V) {
    Object O;
    O["d"] = id(V);
    O["n"] = V->getNameAsString();
    O["t"] = type(V->getType());
    O["l"] = loc(V->getLocation());
    if (V->hasGlobalStorage())
      O["g"] = mangled(V);
    if (V->isStaticLocal())
      O["static"] = true;
    if (V->getTLSKind() != VarDecl::TLS_None)
      O["tls"] = true;
    if (V->hasInit() && !V->getInit()->isTypeDependent())
      O["init"] = expr(V->getInit());
    return O;
  }

  Value stmts(const Stmt *S) { return stmt(S); }
  Value stmt(const Stmt *S) {
    if (!S)
      return nullptr;
    if (auto *E = dyn_cast<Expr>(S))
      return Object{{"k", "expr"}, {"e", expr(E)}, {"l", loc(E->getBeginLoc())}};
    Object O;
    O["l"] = loc(S->getBeginLoc());
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      O["k"] = "block";
      Array A;
      for (auto *B : X->body())
        A.push_back(stmt(B));
      O["b"] = std::move(A);
      return O;
    }
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      O["k"] = "decl";
      Array A;
      for (auto *D : X->decls()) {
        if (auto *V = dyn_cast<VarDecl>(D)) {
          if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
            Value VV = var(V);
            Array B;
            for (auto *BD : DD->bindings()) {
              Object BO;
              BO["d"] = id(BD);
              BO["n"] = BD->getNameAsString();
              if (auto *HV = BD->getHoldingVar())
                BO["hv"] = var(HV);
              BO["e"] = expr(BD->getBinding());
              B.push_back(std::move(BO));
            }
            (*VV.getAsObject())["bind"] = std::move(B);
            A.push_back(std::move(VV));
          } else
            A.push_back(var(V));
        }
      }
      O["v"] = std::move(A);
      return O;
    }
    if (auto *X = dyn_cast<IfStmt>(S)) {
      O["k"] = "if";
      if (X->getInit())
        O["init"] = stmt(X->getInit());
      if (X->getConditionVariable())
        O["cv"] = var(X->getConditionVariable());
      O["x"] = expr(X->getCond());
      O["a"] = stmt(X->getThen());
      O["b"] = stmt(X->getElse());
      return O;
    }
    if (auto *X = dyn_cast<WhileStmt>(S)) {
      O["k"] = "while";
      if (X->getConditionVariable())
        O["cv"] = var(X->getConditionVariable());
      O["x"] = expr(X->getCond());
      O["b"] = stmt(X->getBody());
      return O;
    }
    if (auto *X = dyn_cast<DoStmt>(S)) {
      O["k"] = "do";
      O["x"] = expr(X->getCond());
      O["b"] = stmt(X->getBody());
      return O;
    }
    if (auto *X = dyn_cast<ForStmt>(S)) {
      O["k"] = "for";
      O["init"] = stmt(X->getInit());
      if (X->getConditionVariable())
        O["cv"] = var(X->getConditionVariable());
      O["x"] = expr(X->getCond());
      O["inc"] = expr(X->getInc());
      O["b"] = stmt(X->getBody());
      return O;
    }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      O["k"] = "rfor";
      if (X->getInit())
        O["init"] = stmt(X->getInit());
      O["range"] = stmt(X->getRangeStmt());
      O["begin"] = stmt(X->getBeginStmt());
      O["end"] = stmt(X->getEndStmt());
      O["x"] = expr(X->getCond());
      O["inc"] = expr(X->getInc());
      O["var"] = stmt(X->getLoopVarStmt());
      O["b"] = stmt(X->getBody());
      return O;
    }
    if (auto *X = dyn_cast<ReturnStmt>(S)) {
      O["k"] = "ret";
      O["e"] = expr(X->getRetValue());
      return O;
    }
    if (isa<BreakStmt>(S)) {
      O["k"] = "break";
      return O;
    }
    if (isa<ContinueStmt>(S)) {
      O["k"] = "continue";
      return O;
    }
    if (isa<NullStmt>(S)) {
      O["k"] = "null";
      return O;
    }
    if (auto *X = dyn_cast<SwitchStmt>(S)) {
      O["k"] = "switch";
      if (X->getInit())
        O["init"] = stmt(X->getInit());
      O["x"] = expr(X->getCond());
      O["b"] = stmt(X->getBody());
      return O;
    }
    if (auto *X = dyn_cast<CaseStmt>(S)) {
      O["k"] = "case";
      O["v"] = expr(X->getLHS());
      if (X->getRHS())
        O["v2"] = expr(X->getRHS());
      O["b"] = stmt(X->getSubStmt());
      return O;
    }
    if (auto *X = dyn_cast<DefaultStmt>(S)) {
      O["k"] = "default";
      O["b"] = stmt(X->getSubStmt());
      return O;
    }
    if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      O["k"] = "try";
      O["b"] = stmt(X->getTryBlock());
      Array A;
      for (unsigned I = 0; I < X->getNumHandlers(); ++I) {
        auto *H = X->getHandler(I);
        Object HO;
        if (H->getExceptionDecl()) {
          HO["v"] = var(H->getExceptionDecl());
          QualType T = H->getCaughtType().getNonReferenceType();
          HO["ct"] = type(T.getUnqualifiedType());
        }
        HO["b"] = stmt(H->getHandlerBlock());
        A.push_back(std::move(HO));
      }
      O["h"] = std::move(A);
      return O;
    }
    if (auto *X = dyn_cast<LabelStmt>(S)) {
      O["k"] = "label";
      O["n"] = X->getDecl()->getNameAsString();
      O["b"] = stmt(X->getSubStmt());
      return O;
    }
    if (auto *X = dyn_cast<GotoStmt>(S)) {
      O["k"] = "goto";
      O["n"] = X->getLabel()->getNameAsString();
      return O;
    }
    if (auto *X = dyn_cast<AttributedStmt>(S))
      return stmt(X->getSubStmt());
    O["k"] = "unknown";
    O["what"] = S->getStmtClassName();
    return O;
  }

  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->isThisDeclarationADefinition() || F->isDependentContext())
      return true;
    if (!F->hasBody() && !F->isDefaulted())
      return true;
    if (F->isDeleted())
      return true;
    if (!inRoots(F->getLocation()))
      return true;
    if (!Seen.insert(F).second)
      return true;
    if (F->getTemplatedKind() == FunctionDecl::TK_FunctionTemplate)
      return true;
    if (!F->getBody() && !isa<CXXConstructorDecl>(F))
      return true;
    Value FV = fnref(F);
    Object &O = *FV.getAsObject();
    O["l"] = loc(F->getLocation());
    Array P;
    for (auto *Prm : F->parameters())
      P.push_back(var(Prm));
    O["params"] = std::move(P);
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
      Array I;
      for (auto *Init : K->inits()) {
        Object IO;
        if (Init->isAnyMemberInitializer()) {
          IO["f"] = Init->getAnyMember()->getNameAsString();
          IO["ft"] = type(Init->getAnyMember()->getType());
        } else if (Init->isDelegatingInitializer())
          IO["deleg"] = true;
        else if (Init->isBaseInitializer())
          IO["base"] = type(QualType(Init->getBaseClass(), 0));
        IO["e"] = expr(Init->getInit());
        I.push_back(std::move(IO));
      }
      O["inits"] = std::move(I);
    }
    if (F->getBody())
      O["body"] = stmt(F->getBody());
    if (F->isImplicit())
      O["implicit"] = true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["access"] = (int)M->getAccess();
      if (M->getParent()->isLambda())
        O["lambda"] = true;
    }
    Functions.push_back(std::move(FV));
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (!V->hasGlobalStorage() || isa<ParmVarDecl>(V))
      return true;
    if (V->getDeclContext()->isDependentContext())
      return true;
    if (V->getType()->isDependentType())
      return true;
    if (!inRoots(V->getLocation()))
      return true;
    if (!Seen.insert(V).second)
      return true;
    if (!V->isThisDeclarationADefinition() && !V->hasInit())
      return true;
    Value VV = var(V);
    Object &O = *VV.getAsObject();
    O["q"] = V->getQualifiedNameAsString();
    O["const"] = V->getType().isConstQualified() || (V->getType()->isArrayType() && C.getBaseElementType(V->getType()).isConstQualified());
    O["constexpr"] = V->isConstexpr();
    O["internal"] = internal(V);
    // constant tables of numbers are evaluated by the front end
    Globals.push_back(std::move(VV));
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (!inRoots(E->getLocation()) || !E->isThisDeclarationADefinition() || E->isDependentContext())
      return true;
    Object O;
    O["q"] = E->getQualifiedNameAsString();
    Object M;
    for (auto *K : E->enumerators()) {
      llvm::SmallString<32> S;
      K->getInitVal().toString(S, 10);
      M[K->getNameAsString()] = std::string(S);
    }
    O["v"] = std::move(M);
    Enums.push_back(std::move(O));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() ||
        !inRoots(R->getLocation()))
      return true;
    if (!Seen.insert(R).second)
      return true;
    Object O;
    O["q"] = R->getQualifiedNameAsString();
    O["rec"] = recName(R);
    O["t"] = type(C.getTypeDeclType(R));
    O["union"] = R->isUnion();
    O["l"] = loc(R->getLocation());
    Array F;
    for (auto *FD : R->fields()) {
      Object FO;
      FO["n"] = FD->getNameAsString();
      FO["t"] = type(FD->getType());
      FO["off"] = (int64_t)C.getFieldOffset(FD) / 8;
      if (FD->isMutable())
        FO["mutable"] = true;
      if (FD->hasInClassInitializer() && FD->getInClassInitializer())
        FO["init"] = expr(FD->getInClassInitializer());
      FO["access"] = (int)FD->getAccess();
      F.push_back(std::move(FO));
    }
    O["fields"] = std::move(F);
    Array B;
    for (auto &Base : R->bases())
      B.push_back(type(Base.getType()));
    O["bases"] = std::move(B);
    Array M;
    for (auto *Me : R->methods()) {
      Object MO;
      MO["n"] = Me->getNameAsString();
      MO["m"] = mangled(Me);
      MO["access"] = (int)Me->getAccess();
      MO["const"] = Me->isConst();
      MO["rt"] = type(Me->getReturnType());
      MO["deleted"] = Me->isDeleted();
      MO["implicit"] = Me->isImplicit();
      M.push_back(std::move(MO));
    }
    O["methods"] = std::move(M);
    if (auto *D = R->getDestructor())
      if (!D->isImplicit())
        O["dtor"] = mangled(D);
    O["aggregate"] = R->isAggregate();
    Records.push_back(std::move(O));
    return true;
  }
};

struct Consumer : ASTConsumer {
  std::string Out;
  CompilerInstance &CI;
  Consumer(std::string Out, CompilerInstance &CI) : Out(std::move(Out)), CI(CI) {}
  void HandleTranslationUnit(ASTContext &C) override {
    Dumper D(C);
    D.TraverseDecl(C.getTranslationUnitDecl());
    Object O;
    O["tu"] = TuTag;
    O["errors"] = CI.getDiagnostics().hasErrorOccurred();
    O["functions"] = std::move(D.Functions);
    O["globals"] = std::move(D.Globals);
    O["enums"] = std::move(D.Enums);
    O["records"] = std::move(D.Records);
    O["types"] = std::move(D.Types);
    O["files"] = std::move(D.Files);
    // object-like macros with the library's version
    Object M;
    auto &PPc = CI.getPreprocessor();
    for (auto It = PPc.macro_begin(); It != PPc.macro_end(); ++It) {
      auto *MI = PPc.getMacroInfo(It->first);
      std::string N = It->first->getName().str();
      if (!MI || MI->isFunctionLike() || N.rfind("NPY_", 0) != 0)
        continue;
      std::string V;
      for (auto &T : MI->tokens())
        V += PPc.getSpelling(T);
      M[N] = V;
    }
    O["macros"] = std::move(M);
    std::error_code EC;
    llvm::raw_fd_ostream OS(Out, EC);
    OS << Value(std::move(O));
  }
};

struct Action : ASTFrontendAction {
  std::string Out;
  Action(std::string Out) : Out(std::move(Out)) {}
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override {
    return std::make_unique<Consumer>(Out, CI);
  }
};
struct Factory : tooling::FrontendActionFactory {
  std::string Out;
  Factory(std::string Out) : Out(std::move(Out)) {}
  std::unique_ptr<FrontendAction> create() override {
    return std::make_unique<Action>(Out);
  }
};

// extract OUT TAG ROOT[:ROOT...] FILE -- flags...
int main(int argc, char **argv) {
  if (argc < 6)
    return 2;
  std::string Out = argv[1];
  TuTag = argv[2];
  std::string R = argv[3];
  size_t P = 0;
  while (P <= R.size()) {
    size_t E = R.find(':', P);
    if (E == std::string::npos)
      E = R.size();
    if (E > P)
      Roots.push_back(R.substr(P, E - P));
    P = E + 1;
  }
  std::string File = argv[4];
  std::vector<std::string> Args;
  for (int I = 6; I < argc; ++I)
    Args.push_back(argv[I]);
  tooling::FixedCompilationDatabase DB(".", Args);
  tooling::ClangTool Tool(DB, {File});
  Factory F(Out);
  return Tool.run(&F);
}
