// xport: dumps the resolved, type-checked program (functions, records, enums, globals) of one or more
// translation units as JSON, for the analyses under /verif/lib.  One output file per translation unit.
#include <fstream>
#include <map>
#include <set>
#include <string>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Preprocessor.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
namespace json = llvm::json;

static std::string gRepo, gOut;

namespace {

struct Exporter {
  ASTContext& C;
  SourceManager& SM;
  PrintingPolicy PP;
  json::Array functions, records, enums, globals;
  std::map<std::string, int> typeIds;
  std::vector<std::string> types;
  std::map<const Decl*, int> localIds;
  std::set<std::string> seenFn, seenRec, seenEnum, seenGlob;
  std::map<FileID, std::string> relCache;
  std::set<std::string> repoFiles;

  explicit Exporter(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.SuppressUnwrittenScope = true;
    PP.Bool = true;
    PP.PrintCanonicalTypes = true;
    PP.SuppressDefaultTemplateArgs = true;
  }

  std::string relFile(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    FileID F = SM.getFileID(L);
    auto it = relCache.find(F);
    if (it != relCache.end()) return it->second;
    std::string r;
    if (auto fe = SM.getFileEntryRefForID(F)) {
      llvm::SmallString<256> p(fe->getName());
      SM.getFileManager().makeAbsolutePath(p);
      llvm::sys::path::remove_dots(p, true);
      std::string s = p.str().str();
      if (s.rfind(gRepo + "/", 0) == 0) r = s.substr(gRepo.size() + 1);
    }
    if (!r.empty()) repoFiles.insert(r);
    return relCache[F] = r;
  }
  int line(SourceLocation L) { return L.isValid() ? (int)SM.getExpansionLineNumber(L) : 0; }

  int ty(QualType T) {
    if (T.isNull()) return -1;
    std::string s = T.getCanonicalType().getAsString(PP);
    auto it = typeIds.find(s);
    if (it != typeIds.end()) return it->second;
    int n = types.size();
    types.push_back(s);
    return typeIds[s] = n;
  }
  int lid(const Decl* D) {
    auto it = localIds.find(D);
    if (it != localIds.end()) return it->second;
    int n = localIds.size() + 1;
    return localIds[D] = n;
  }
  bool inAnon(const Decl* D) {
    for (const DeclContext* dc = D->getDeclContext(); dc; dc = dc->getParent())
      if (auto* ns = dyn_cast<NamespaceDecl>(dc)) if (ns->isAnonymousNamespace()) return true;
    return false;
  }
  std::string qname(const NamedDecl* D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    D->printQualifiedName(os, PP);
    return os.str();
  }
  std::string recKey(const TagDecl* R) {
    std::string s;
    if (R->getIdentifier() == nullptr && !isa<ClassTemplateSpecializationDecl>(R)) {
      if (auto* td = R->getTypedefNameForAnonDecl()) s = qname(td);
      else s = "anon@" + relFile(R->getLocation()) + ":" + std::to_string(line(R->getLocation()));
    } else {
      s = C.getTypeDeclType(R).getCanonicalType().getAsString(PP);
    }
    return s;
  }
  const FunctionDecl* canonFn(const FunctionDecl* F) { return F; }
  std::string fnKey(const FunctionDecl* F) {
    if (auto* M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda()) {
        SourceLocation L = M->getParent()->getLocation();
        L = SM.getExpansionLoc(L);
        std::string targs;
        if (auto* A = F->getTemplateSpecializationArgs()) {
          llvm::raw_string_ostream os(targs);
          printTemplateArgumentList(os, A->asArray(), PP);
        }
        // enclosing function keeps instantiations apart
        std::string enc;
        for (const DeclContext* dc = M->getParent()->getDeclContext(); dc; dc = dc->getParent())
          if (auto* ef = dyn_cast<FunctionDecl>(dc)) { enc = fnKey(ef); break; }
        return "lambda@" + relFile(L) + ":" + std::to_string(SM.getExpansionLineNumber(L)) + ":" +
               std::to_string(SM.getExpansionColumnNumber(L)) + targs + "{" + enc + "}";
      }
    std::string s;
    llvm::raw_string_ostream os(s);
    if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
      os << recKey(M->getParent()) << "::";
      F->getDeclName().print(os, PP);
    } else {
      F->printQualifiedName(os, PP);
    }
    if (auto* A = F->getTemplateSpecializationArgs()) printTemplateArgumentList(os, A->asArray(), PP);
    os << "(";
    bool first = true;
    for (auto* p : F->parameters()) {
      if (!first) os << ",";
      first = false;
      os << p->getType().getCanonicalType().getUnqualifiedType().getAsString(PP);   // top-level const is no part of the signature
    }
    os << ")";
    if (auto* M = dyn_cast<CXXMethodDecl>(F)) if (M->isConst()) os << "const";
    os.flush();
    if (inAnon(F) || (F->getStorageClass() == SC_Static && !isa<CXXMethodDecl>(F))) s += "@" + relFile(F->getLocation());
    return s;
  }

  json::Array node(const char* op, SourceLocation L) { json::Array a; a.push_back(op); a.push_back(line(L)); return a; }

  std::string apS(const llvm::APSInt& v) { llvm::SmallString<40> s; v.toString(s, 10); return s.str().str(); }
  json::Value intVal(const llvm::APSInt& v) {
    if (v.isSigned() ? v.getSignificantBits() <= 63 : v.getActiveBits() <= 62) return (int64_t)v.getExtValue();
    return apS(v);
  }

  json::Value exprs(llvm::ArrayRef<Expr*> es) { json::Array a; for (auto* e : es) a.push_back(expr(e)); return a; }

  json::Value callee(const FunctionDecl* F) {
    json::Array a;
    a.push_back(fnKey(F));
    std::string q;
    if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
      const CXXRecordDecl* R = M->getParent();
      q = qname(R) + "::" + F->getDeclName().getAsString();
    } else q = qname(F);
    a.push_back(q);
    int flags = 0;
    if (auto* M = dyn_cast<CXXMethodDecl>(F)) { if (M->isVirtual()) flags |= 1; if (M->isStatic()) flags |= 2; if (M->isConst()) flags |= 4; }
    if (F->isNoReturn()) flags |= 8;
    a.push_back(flags);
    a.push_back(relFile(F->getLocation()));
    return a;
  }

  const Expr* strip(const Expr* E) {
    while (E) {
      if (auto* x = dyn_cast<FullExpr>(E)) { E = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<ParenExpr>(E)) { E = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<MaterializeTemporaryExpr>(E)) { E = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<CXXBindTemporaryExpr>(E)) { E = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = x->getReplacement(); continue; }
      if (auto* x = dyn_cast<CXXDefaultArgExpr>(E)) { E = x->getExpr(); continue; }
      if (auto* x = dyn_cast<CXXStdInitializerListExpr>(E)) { E = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<CXXRewrittenBinaryOperator>(E)) { E = x->getSemanticForm(); continue; }
      if (auto* x = dyn_cast<OpaqueValueExpr>(E)) { if (x->getSourceExpr()) { E = x->getSourceExpr(); continue; } }
      if (auto* x = dyn_cast<ImplicitCastExpr>(E)) {
        switch (x->getCastKind()) {
          case CK_LValueToRValue: case CK_NoOp: case CK_FunctionToPointerDecay: case CK_ArrayToPointerDecay:
          case CK_DerivedToBase: case CK_UncheckedDerivedToBase: case CK_ConstructorConversion:
          case CK_UserDefinedConversion: case CK_BuiltinFnToFnPtr: case CK_LValueBitCast: case CK_MemberPointerToBoolean:
            E = x->getSubExpr(); continue;
          default: break;
        }
      }
      break;
    }
    return E;
  }

  bool foldInt(const Expr* E, llvm::APSInt& out) {
    if (!E || E->isValueDependent() || E->isTypeDependent()) return false;
    QualType T = E->getType();
    if (T.isNull() || !T->isIntegralOrEnumerationType()) return false;
    Expr::EvalResult R;
    if (!E->EvaluateAsRValue(R, C, false)) return false;
    if (R.HasSideEffects || !R.Val.isInt()) return false;
    out = R.Val.getInt();
    return true;
  }
  bool foldFlt(const Expr* E, double& out) {
    if (!E || E->isValueDependent() || E->isTypeDependent()) return false;
    if (!E->getType()->isRealFloatingType()) return false;
    Expr::EvalResult R;
    if (!E->EvaluateAsRValue(R, C, false) || R.HasSideEffects || !R.Val.isFloat()) return false;
    llvm::APFloat f = R.Val.getFloat();
    bool lose; f.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &lose);
    out = f.convertToDouble();
    return true;
  }
  json::Value fltJson(double d) {
    if (d != d) return "nan";
    if (d > 1.7976931348623157e308) return "inf";
    if (d < -1.7976931348623157e308) return "-inf";
    return d;
  }

  json::Value expr(const Expr* E0) {
    const Expr* E = strip(E0);
    if (!E) return nullptr;
    SourceLocation L = E->getExprLoc();
    // Constant folding wrapper (keeps the original below).
    bool simple = isa<IntegerLiteral>(E) || isa<CXXBoolLiteralExpr>(E) || isa<CharacterLiteral>(E) || isa<FloatingLiteral>(E) ||
                  isa<StringLiteral>(E) || isa<DeclRefExpr>(E);
    if (!simple && !isa<CallExpr>(E)) {
      llvm::APSInt v;
      double d;
      if (foldInt(E, v)) {
        auto a = node("cst", L); a.push_back(ty(E->getType())); a.push_back(intVal(v)); a.push_back(expr1(E)); return a;
      }
      if (foldFlt(E, d)) {
        auto a = node("cst", L); a.push_back(ty(E->getType())); a.push_back(fltJson(d)); a.push_back(expr1(E)); return a;
      }
    } else if (isa<CallExpr>(E)) {
      llvm::APSInt v; double d;
      // calls to constexpr functions with constant arguments (std::numeric_limits and friends)
      if (foldInt(E, v)) { auto a = node("cst", L); a.push_back(ty(E->getType())); a.push_back(intVal(v)); a.push_back(expr1(E)); return a; }
      if (foldFlt(E, d)) { auto a = node("cst", L); a.push_back(ty(E->getType())); a.push_back(fltJson(d)); a.push_back(expr1(E)); return a; }
    }
    return expr1(E);
  }

  json::Value expr1(const Expr* E) {
    SourceLocation L = E->getExprLoc();
    QualType T = E->getType();
    if (auto* x = dyn_cast<IntegerLiteral>(E)) {
      auto a = node("int", L); a.push_back(ty(T)); a.push_back(intVal(llvm::APSInt(x->getValue(), T->isUnsignedIntegerType()))); return a;
    }
    if (auto* x = dyn_cast<CXXBoolLiteralExpr>(E)) { auto a = node("int", L); a.push_back(ty(T)); a.push_back(x->getValue() ? 1 : 0); return a; }
    if (auto* x = dyn_cast<CharacterLiteral>(E)) { auto a = node("int", L); a.push_back(ty(T)); a.push_back((int64_t)x->getValue()); return a; }
    if (auto* x = dyn_cast<FloatingLiteral>(E)) {
      llvm::APFloat f = x->getValue(); bool lose; f.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &lose);
      auto a = node("flt", L); a.push_back(ty(T)); a.push_back(fltJson(f.convertToDouble())); return a;
    }
    if (auto* x = dyn_cast<StringLiteral>(E)) {
      auto a = node("str", L); a.push_back(ty(T));
      std::string s = x->getCharByteWidth() == 1 ? x->getString().str() : "<wide>";
      if (!json::isUTF8(s)) s = json::fixUTF8(s);
      a.push_back(s); return a;
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return node("null", L);
    if (isa<CXXThisExpr>(E)) { auto a = node("this", L); a.push_back(ty(T)); return a; }
    if (auto* x = dyn_cast<PredefinedExpr>(E)) { auto a = node("str", L); a.push_back(ty(T)); a.push_back("__func__"); return a; }
    if (auto* x = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl* D = x->getDecl();
      if (auto* ec = dyn_cast<EnumConstantDecl>(D)) {
        auto a = node("int", L); a.push_back(ty(T)); a.push_back(intVal(ec->getInitVal())); a.push_back(qname(ec)); return a;
      }
      if (auto* f = dyn_cast<FunctionDecl>(D)) { auto a = node("fref", L); a.push_back(ty(T)); a.push_back(callee(f)); return a; }
      if (auto* b = dyn_cast<BindingDecl>(D)) {
        auto a = node("bref", L); a.push_back(ty(T)); a.push_back(lid(b->getDecomposedDecl()));
        int i = 0; for (auto* bb : cast<DecompositionDecl>(b->getDecomposedDecl())->bindings()) { if (bb == b) break; ++i; }
        a.push_back(i); a.push_back(b->getNameAsString()); return a;
      }
      auto a = node("ref", L); a.push_back(ty(T));
      auto* v = dyn_cast<VarDecl>(D);
      if (v && (v->hasGlobalStorage() && !v->isStaticLocal())) {
        a.push_back(globKey(v)); a.push_back(v->getNameAsString()); a.push_back("g");
        // constants
        llvm::APSInt iv; double d;
        if (foldInt(E, iv)) a.push_back(intVal(iv)); else if (foldFlt(E, d)) a.push_back(fltJson(d));
      } else {
        a.push_back(lid(D)); a.push_back(D->getNameAsString());
        a.push_back(isa<ParmVarDecl>(D) ? "p" : (v && v->isStaticLocal()) ? "s" : "l");
        llvm::APSInt iv; double d;
        if (v && (v->isConstexpr() || v->getType().isConstQualified())) {
          if (foldInt(E, iv)) a.push_back(intVal(iv)); else if (foldFlt(E, d)) a.push_back(fltJson(d));
        }
      }
      return a;
    }
    if (auto* x = dyn_cast<MemberExpr>(E)) {
      if (auto* v = dyn_cast<VarDecl>(x->getMemberDecl())) {
        auto a = node("ref", L); a.push_back(ty(T)); a.push_back(globKey(v)); a.push_back(v->getNameAsString()); a.push_back("g");
        llvm::APSInt iv; if (foldInt(E, iv)) a.push_back(intVal(iv));
        return a;
      }
      if (auto* ec = dyn_cast<EnumConstantDecl>(x->getMemberDecl())) {
        auto a = node("int", L); a.push_back(ty(T)); a.push_back(intVal(ec->getInitVal())); a.push_back(qname(ec)); return a;
      }
      auto a = node("mem", L); a.push_back(ty(T)); a.push_back(expr(x->getBase())); a.push_back(x->getMemberDecl()->getNameAsString());
      std::string owner;
      if (auto* f = dyn_cast<FieldDecl>(x->getMemberDecl())) owner = recKey(f->getParent());
      a.push_back(owner); a.push_back(x->isArrow() ? 1 : 0);
      return a;
    }
    if (auto* x = dyn_cast<CXXOperatorCallExpr>(E)) {
      auto a = node("call", L); a.push_back(ty(T));
      const FunctionDecl* F = x->getDirectCallee();
      json::Value obj = nullptr; json::Array args;
      unsigned i = 0;
      if (F) {
        a.push_back(callee(F));
        if (isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic() && x->getNumArgs() > 0) { obj = expr(x->getArg(0)); i = 1; }
      } else { a.push_back(nullptr); }
      for (; i < x->getNumArgs(); ++i) args.push_back(expr(x->getArg(i)));
      a.push_back(std::move(obj)); a.push_back(std::move(args));
      return a;
    }
    if (auto* x = dyn_cast<CXXMemberCallExpr>(E)) {
      auto a = node("call", L); a.push_back(ty(T));
      const FunctionDecl* F = x->getMethodDecl();
      if (F) a.push_back(callee(F)); else a.push_back(nullptr);
      if (x->getImplicitObjectArgument()) a.push_back(expr(x->getImplicitObjectArgument())); else a.push_back(nullptr);
      json::Array args; for (auto* e : x->arguments()) args.push_back(expr(e));
      a.push_back(std::move(args));
      // qualified (non-virtual) call?
      if (auto* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParenImpCasts())) if (me->hasQualifier()) a.push_back("nonvirtual");
      return a;
    }
    if (auto* x = dyn_cast<CallExpr>(E)) {
      auto a = node("call", L); a.push_back(ty(T));
      const FunctionDecl* F = x->getDirectCallee();
      if (F) { a.push_back(callee(F)); a.push_back(nullptr); }
      else { a.push_back(nullptr); a.push_back(expr(x->getCallee())); }
      json::Array args; for (auto* e : x->arguments()) args.push_back(expr(e));
      a.push_back(std::move(args));
      return a;
    }
    if (auto* x = dyn_cast<CXXConstructExpr>(E)) {
      auto a = node("ctor", L); a.push_back(ty(T)); a.push_back(callee(x->getConstructor()));
      json::Array args; for (auto* e : x->arguments()) args.push_back(expr(e));
      a.push_back(std::move(args));
      int fl = 0; auto* cd = x->getConstructor();
      if (cd->isCopyConstructor()) fl |= 1; if (cd->isMoveConstructor()) fl |= 2; if (x->isListInitialization()) fl |= 4;
      if (x->requiresZeroInitialization()) fl |= 8; if (cd->isDefaultConstructor()) fl |= 16;
      if (x->isStdInitListInitialization()) fl |= 32;
      a.push_back(fl);
      return a;
    }
    if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(E)) { auto a = node("ctor", L); a.push_back(ty(T)); a.push_back(callee(x->getConstructor())); a.push_back(json::Array()); a.push_back(0); return a; }
    if (auto* x = dyn_cast<UnaryOperator>(E)) {
      auto a = node("un", L); a.push_back(ty(T)); std::string o = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
      if (x->isPostfix()) o = "p" + o;
      a.push_back(o); a.push_back(expr(x->getSubExpr())); return a;
    }
    if (auto* x = dyn_cast<BinaryOperator>(E)) {
      auto a = node(x->isAssignmentOp() ? "asg" : "bin", L); a.push_back(ty(T)); a.push_back(x->getOpcodeStr().str());
      a.push_back(expr(x->getLHS())); a.push_back(expr(x->getRHS()));
      if (auto* ca = dyn_cast<CompoundAssignOperator>(x)) a.push_back(ty(ca->getComputationResultType()));
      return a;
    }
    if (auto* x = dyn_cast<AbstractConditionalOperator>(E)) {
      auto a = node("cond", L); a.push_back(ty(T)); a.push_back(expr(x->getCond())); a.push_back(expr(x->getTrueExpr())); a.push_back(expr(x->getFalseExpr())); return a;
    }
    if (auto* x = dyn_cast<ArraySubscriptExpr>(E)) {
      auto a = node("idx", L); a.push_back(ty(T)); a.push_back(expr(x->getBase())); a.push_back(expr(x->getIdx())); return a;
    }
    if (auto* x = dyn_cast<InitListExpr>(E)) {
      if (!x->isSemanticForm() && x->getSemanticForm()) x = x->getSemanticForm();
      auto a = node("init", L); a.push_back(ty(T));
      json::Array els; json::Array names;
      for (auto* e : x->inits()) els.push_back(expr(e));
      if (auto* R = T->getAsCXXRecordDecl()) { if (R->hasDefinition()) { for (auto& b : R->bases()) { (void)b; names.push_back("<base>"); } if (!R->isUnion()) for (auto* f : R->fields()) names.push_back(f->getNameAsString()); else if (x->getInitializedFieldInUnion()) names.push_back(x->getInitializedFieldInUnion()->getNameAsString()); } }
      a.push_back(std::move(els)); a.push_back(std::move(names));
      if (x->hasArrayFiller() && T->isConstantArrayType()) a.push_back((int64_t)C.getAsConstantArrayType(T)->getSize().getZExtValue());
      return a;
    }
    if (auto* x = dyn_cast<CXXDefaultInitExpr>(E)) { auto a = node("dinit", L); a.push_back(ty(T)); a.push_back(expr(x->getExpr())); return a; }
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) { auto a = node("zero", L); a.push_back(ty(T)); return a; }
    if (auto* x = dyn_cast<CastExpr>(E)) {
      // explicit (or kept implicit) casts
      auto a = node("cast", L); a.push_back(ty(T)); a.push_back(x->getCastKindName());
      a.push_back(expr(x->getSubExpr())); a.push_back(ty(x->getSubExpr()->getType()));
      a.push_back(isa<ImplicitCastExpr>(E) ? "i" : isa<CXXReinterpretCastExpr>(E) ? "r" : isa<CXXConstCastExpr>(E) ? "c" : "e");
      return a;
    }
    if (auto* x = dyn_cast<LambdaExpr>(E)) {
      auto a = node("lambda", L); a.push_back(ty(T));
      const CXXMethodDecl* M = x->getCallOperator();
      json::Array keys;
      if (auto* ft = x->getDependentCallOperator()) {
        for (auto* sp : ft->specializations()) { keys.push_back(fnKey(sp)); function(sp); }
      } else { keys.push_back(fnKey(M)); function(M); }
      a.push_back(std::move(keys));
      json::Array caps;
      auto init = x->capture_init_begin();
      for (auto& c : x->captures()) {
        json::Array cc; cc.push_back(c.capturesThis() ? "this" : c.getCaptureKind() == LCK_ByRef ? "&" : "=");
        if (c.capturesVariable()) { cc.push_back(lid(c.getCapturedVar())); cc.push_back(c.getCapturedVar()->getNameAsString());
          if (x->isInitCapture(&c)) { auto* vd = cast<VarDecl>(c.getCapturedVar()); cc.push_back(vd->getInit() ? expr(vd->getInit()) : json::Value(nullptr)); } }
        caps.push_back(std::move(cc)); ++init;
      }
      a.push_back(std::move(caps));
      return a;
    }
    if (auto* x = dyn_cast<CXXNewExpr>(E)) {
      auto a = node("new", L); a.push_back(ty(T)); a.push_back(x->getInitializer() ? expr(x->getInitializer()) : json::Value(nullptr));
      a.push_back(x->isArray() && x->getArraySize() ? expr(*x->getArraySize()) : json::Value(nullptr)); return a;
    }
    if (auto* x = dyn_cast<CXXDeleteExpr>(E)) { auto a = node("delete", L); a.push_back(ty(T)); a.push_back(expr(x->getArgument())); return a; }
    if (auto* x = dyn_cast<CXXThrowExpr>(E)) { auto a = node("throw", L); a.push_back(ty(T)); a.push_back(x->getSubExpr() ? expr(x->getSubExpr()) : json::Value(nullptr)); return a; }
    // fallback
    auto a = node("raw", L); a.push_back(ty(T)); a.push_back(E->getStmtClassName());
    json::Array ch;
    for (auto* c : E->children()) { if (!c) continue; if (auto* e = dyn_cast<Expr>(c)) ch.push_back(expr(e)); else ch.push_back(stmt(c)); }
    a.push_back(std::move(ch));
    return a;
  }

  std::string globKey(const VarDecl* v) {
    std::string s = qname(v);
    if (inAnon(v) || (v->getStorageClass() == SC_Static && v->isFileVarDecl() && !v->isStaticDataMember())) s += "@" + relFile(v->getLocation());
    return s;
  }

  json::Value varDecl(const VarDecl* v) {
    json::Array a;
    a.push_back(lid(v)); a.push_back(v->getNameAsString()); a.push_back(ty(v->getType()));
    if (v->getInit()) a.push_back(expr(v->getInit())); else a.push_back(nullptr);
    std::string fl;
    if (v->isStaticLocal()) fl += "s";
    if (v->getType().isConstQualified()) fl += "c";
    if (v->isConstexpr()) fl += "x";
    if (v->getType()->isReferenceType()) fl += "r";
    if (v->getTLSKind() != VarDecl::TLS_None) fl += "t";
    a.push_back(fl);
    a.push_back(line(v->getLocation()));
    if (auto* dd = dyn_cast<DecompositionDecl>(v)) {
      json::Array names; for (auto* b : dd->bindings()) names.push_back(b->getNameAsString());
      a.push_back(std::move(names));
    }
    if (v->isStaticLocal()) globalVar(v);
    return a;
  }

  json::Value stmt(const Stmt* S) {
    if (!S) return nullptr;
    SourceLocation L = S->getBeginLoc();
    if (auto* e = dyn_cast<Expr>(S)) return expr(e);
    if (auto* x = dyn_cast<CompoundStmt>(S)) {
      auto a = node("{", L); json::Array b; for (auto* s : x->body()) b.push_back(stmt(s)); a.push_back(std::move(b)); a.push_back(line(x->getRBracLoc())); return a;
    }
    if (auto* x = dyn_cast<DeclStmt>(S)) {
      auto a = node("decl", L); json::Array b;
      for (auto* d : x->decls()) if (auto* v = dyn_cast<VarDecl>(d)) b.push_back(varDecl(v));
      a.push_back(std::move(b)); return a;
    }
    if (auto* x = dyn_cast<IfStmt>(S)) {
      if (x->isConstexpr() && !x->getCond()->isValueDependent()) {
        // `if constexpr`: keep only the selected arm.
        if (auto nd = x->getNondiscardedCase(C)) {
          auto a = node("{", L); json::Array b; if (x->getInit()) b.push_back(stmt(x->getInit())); if (*nd) b.push_back(stmt(*nd)); a.push_back(std::move(b)); a.push_back(line(L)); return a;
        }
      }
      auto a = node("if", L); a.push_back(x->getInit() ? stmt(x->getInit()) : json::Value(nullptr));
      a.push_back(x->getConditionVariable() ? varDecl(x->getConditionVariable()) : json::Value(nullptr));
      a.push_back(x->getCond() ? expr(x->getCond()) : json::Value(nullptr)); a.push_back(stmt(x->getThen())); a.push_back(stmt(x->getElse())); return a;
    }
    if (auto* x = dyn_cast<WhileStmt>(S)) {
      auto a = node("while", L); a.push_back(x->getConditionVariable() ? varDecl(x->getConditionVariable()) : json::Value(nullptr)); a.push_back(expr(x->getCond())); a.push_back(stmt(x->getBody())); return a;
    }
    if (auto* x = dyn_cast<DoStmt>(S)) { auto a = node("do", L); a.push_back(stmt(x->getBody())); a.push_back(expr(x->getCond())); return a; }
    if (auto* x = dyn_cast<ForStmt>(S)) {
      auto a = node("for", L); a.push_back(stmt(x->getInit())); a.push_back(x->getCond() ? expr(x->getCond()) : json::Value(nullptr));
      a.push_back(x->getInc() ? expr(x->getInc()) : json::Value(nullptr)); a.push_back(stmt(x->getBody())); return a;
    }
    if (auto* x = dyn_cast<CXXForRangeStmt>(S)) {
      auto a = node("rfor", L); 
      // loop variable without its (iterator) initialiser
      const VarDecl* v = x->getLoopVariable();
      json::Array va; va.push_back(lid(v)); va.push_back(v->getNameAsString()); va.push_back(ty(v->getType())); va.push_back(nullptr);
      std::string fl; if (v->getType()->isReferenceType()) fl += "r"; if (v->getType().isConstQualified()) fl += "c"; va.push_back(fl); va.push_back(line(v->getLocation()));
      if (auto* dd = dyn_cast<DecompositionDecl>(v)) { json::Array names; for (auto* b : dd->bindings()) names.push_back(b->getNameAsString()); va.push_back(std::move(names)); }
      a.push_back(std::move(va)); a.push_back(expr(x->getRangeInit())); a.push_back(stmt(x->getBody())); a.push_back(x->getInit() ? stmt(x->getInit()) : json::Value(nullptr)); return a;
    }
    if (auto* x = dyn_cast<SwitchStmt>(S)) {
      auto a = node("switch", L); a.push_back(x->getInit() ? stmt(x->getInit()) : json::Value(nullptr));
      a.push_back(x->getConditionVariable() ? varDecl(x->getConditionVariable()) : json::Value(nullptr));
      a.push_back(expr(x->getCond())); a.push_back(stmt(x->getBody())); a.push_back(ty(x->getCond()->IgnoreParenImpCasts()->getType())); return a;
    }
    if (auto* x = dyn_cast<CaseStmt>(S)) { auto a = node("case", L); a.push_back(expr(x->getLHS())); a.push_back(x->getRHS() ? expr(x->getRHS()) : json::Value(nullptr)); a.push_back(stmt(x->getSubStmt())); return a; }
    if (auto* x = dyn_cast<DefaultStmt>(S)) { auto a = node("default", L); a.push_back(stmt(x->getSubStmt())); return a; }
    if (auto* x = dyn_cast<ReturnStmt>(S)) { auto a = node("ret", L); a.push_back(x->getRetValue() ? expr(x->getRetValue()) : json::Value(nullptr)); return a; }
    if (isa<BreakStmt>(S)) return node("break", L);
    if (isa<ContinueStmt>(S)) return node("continue", L);
    if (isa<NullStmt>(S)) return node(";", L);
    if (auto* x = dyn_cast<AttributedStmt>(S)) return stmt(x->getSubStmt());
    if (auto* x = dyn_cast<LabelStmt>(S)) { auto a = node("label", L); a.push_back(x->getName()); a.push_back(stmt(x->getSubStmt())); return a; }
    if (auto* x = dyn_cast<GotoStmt>(S)) { auto a = node("goto", L); a.push_back(x->getLabel()->getName().str()); return a; }
    if (auto* x = dyn_cast<CXXTryStmt>(S)) {
      auto a = node("try", L); a.push_back(stmt(x->getTryBlock())); json::Array hs; for (unsigned i = 0; i < x->getNumHandlers(); ++i) hs.push_back(stmt(x->getHandler(i)->getHandlerBlock())); a.push_back(std::move(hs)); return a;
    }
    auto a = node("rawstmt", L); a.push_back(S->getStmtClassName()); json::Array ch; for (auto* c : S->children()) if (c) ch.push_back(stmt(c)); a.push_back(std::move(ch)); return a;
  }

  void function(const FunctionDecl* F) {
    if (!F->isThisDeclarationADefinition() && !F->isDefaulted()) { const FunctionDecl* def = nullptr; if (!F->hasBody(def)) return; F = def; }
    if (F->isDependentContext()) return;
    if (F->isDeleted()) return;
    std::string file = relFile(F->getLocation());
    if (file.empty()) return;
    if (!F->getBody() && !F->isDefaulted()) return;
    if (F->isImplicit() && !isa<CXXConstructorDecl>(F) && !(isa<CXXMethodDecl>(F) && cast<CXXMethodDecl>(F)->getParent()->isLambda())) return;
    std::string key = fnKey(F);
    if (!seenFn.insert(key).second) return;
    json::Object o;
    o["k"] = key; o["f"] = file; o["l"] = line(F->getLocation()); o["e"] = line(F->getEndLoc());
    std::string q;
    if (auto* M = dyn_cast<CXXMethodDecl>(F)) { q = (M->getParent()->isLambda() ? std::string("lambda") : qname(M->getParent())) + "::" + F->getDeclName().getAsString(); }
    else q = qname(F);
    o["q"] = q; o["n"] = F->getDeclName().getAsString();
    o["r"] = ty(F->getReturnType());
    json::Array ps;
    for (auto* p : F->parameters()) { json::Array a; a.push_back(lid(p)); a.push_back(p->getNameAsString()); a.push_back(ty(p->getType())); ps.push_back(std::move(a)); }
    o["p"] = std::move(ps);
    std::string fl;
    if (F->getAccess() == AS_private) fl += "private "; if (F->getAccess() == AS_public) fl += "public "; if (F->getAccess() == AS_protected) fl += "protected ";
    if (inAnon(F)) fl += "anon ";
    if (F->isDefaulted()) fl += "defaulted ";
    if (F->isImplicit()) fl += "implicit ";
    if (F->isTemplateInstantiation()) fl += "inst ";
    if (F->isConstexpr()) fl += "constexpr ";
    if (F->isNoReturn()) fl += "noreturn ";
    if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
      o["c"] = recKey(M->getParent());
      if (M->isVirtual()) fl += "virtual "; if (M->isConst()) fl += "const "; if (M->isStatic()) fl += "static ";
      json::Array ov; for (auto* b : M->overridden_methods()) ov.push_back(fnKey(b)); if (!ov.empty()) o["ov"] = std::move(ov);
      if (M->getParent()->isLambda()) fl += "lambda ";
    }
    if (isa<CXXDestructorDecl>(F)) fl += "dtor ";
    if (auto* K = dyn_cast<CXXConstructorDecl>(F)) {
      fl += "ctor ";
      if (K->isCopyConstructor()) fl += "copyctor "; if (K->isMoveConstructor()) fl += "movector "; if (K->isDefaultConstructor()) fl += "defctor ";
      if (K->isDelegatingConstructor()) fl += "delegating ";
      json::Array in;
      if (!(F->isDefaulted() && !F->getBody()) && !K->isCopyOrMoveConstructor())
      for (auto* i : K->inits()) {
        json::Array a;
        if (i->isAnyMemberInitializer()) a.push_back(i->getAnyMember()->getNameAsString());
        else if (i->isBaseInitializer()) a.push_back(std::string("<base>") + QualType(i->getBaseClass(), 0).getCanonicalType().getAsString(PP));
        else a.push_back("<delegate>");
        a.push_back(expr(i->getInit())); a.push_back(i->isWritten() ? 1 : 0);
        in.push_back(std::move(a));
      }
      else if (K->isCopyOrMoveConstructor() && !F->isDefaulted())
      for (auto* i : K->inits()) {
        json::Array a; a.push_back(i->isAnyMemberInitializer() ? i->getAnyMember()->getNameAsString() : std::string("<base>")); a.push_back(expr(i->getInit())); a.push_back(i->isWritten() ? 1 : 0); in.push_back(std::move(a));
      }
      o["i"] = std::move(in);
    }
    o["a"] = fl;
    if (F->getBody()) o["b"] = stmt(F->getBody()); else o["b"] = nullptr;
    functions.push_back(std::move(o));
  }

  void record(const CXXRecordDecl* R) {
    if (!R->isCompleteDefinition() || R->isDependentContext() || R->isLambda()) return;
    std::string file = relFile(R->getLocation());
    if (file.empty()) return;
    std::string key = recKey(R);
    if (!seenRec.insert(key).second) return;
    json::Object o;
    o["k"] = key; o["f"] = file; o["l"] = line(R->getLocation()); o["q"] = qname(R);
    json::Array bs; for (auto& b : R->bases()) bs.push_back(b.getType().getCanonicalType().getAsString(PP)); o["b"] = std::move(bs);
    json::Array fs;
    for (auto* f : R->fields()) {
      json::Object fo; fo["n"] = f->getNameAsString(); fo["t"] = ty(f->getType()); fo["l"] = line(f->getLocation());
      fo["i"] = f->hasInClassInitializer();
      if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = expr(f->getInClassInitializer());
      QualType t = f->getType(); 
      QualType el = C.getBaseElementType(t);
      std::string s;
      if (el->isScalarType()) s += "scalar ";
      if (t->isReferenceType()) s += "ref ";
      if (t->isPointerType()) s += "ptr ";
      if (t.isConstQualified()) s += "const ";
      if (f->isMutable()) s += "mutable ";
      if (f->getAccess() == AS_private) s += "private ";
      if (el->isRecordType()) { s += "record "; if (auto* rr = el->getAsCXXRecordDecl()) { if (rr->hasDefinition() && rr->isAggregate()) s += "agg "; if (rr->hasDefinition() && rr->hasUserProvidedDefaultConstructor()) s += "updc "; if (rr->hasDefinition() && !rr->hasDefaultConstructor()) s += "nodc "; fo["r"] = recKey(rr); } }
      if (t->isArrayType()) s += "array ";
      fo["a"] = s; fs.push_back(std::move(fo));
    }
    o["fs"] = std::move(fs);
    json::Array ms;
    for (auto* m : R->methods()) {
      if (m->isImplicit()) continue;
      json::Object mo; mo["k"] = fnKey(m); mo["n"] = m->getDeclName().getAsString(); mo["l"] = line(m->getLocation());
      std::string s; if (m->isVirtual()) s += "virtual "; if (m->isPureVirtual()) s += "pure "; if (m->isStatic()) s += "static "; if (m->isConst()) s += "const "; if (m->isDeleted()) s += "deleted "; if (m->isDefaulted()) s += "defaulted ";
      if (m->getAccess() == AS_public) s += "public "; if (m->getAccess() == AS_private) s += "private "; if (m->getAccess() == AS_protected) s += "protected ";
      if (isa<CXXConstructorDecl>(m)) s += "ctor "; if (isa<CXXDestructorDecl>(m)) s += "dtor ";
      mo["a"] = s; mo["r"] = ty(m->getReturnType());
      json::Array ov; for (auto* b : m->overridden_methods()) ov.push_back(fnKey(b)); if (!ov.empty()) mo["ov"] = std::move(ov);
      ms.push_back(std::move(mo));
    }
    o["ms"] = std::move(ms);
    std::string s;
    if (R->isAggregate()) s += "agg "; if (R->isAbstract()) s += "abstract "; if (R->hasUserProvidedDefaultConstructor()) s += "updc ";
    if (R->isUnion()) s += "union "; if (R->needsImplicitDefaultConstructor()) s += "idc "; if (R->hasDefaultConstructor()) s += "dc ";
    o["a"] = s;
    records.push_back(std::move(o));
    // implicit/defaulted constructors carry in-class initialisers; force nothing here.
  }

  void enumeration(const EnumDecl* D) {
    if (!D->isCompleteDefinition()) return;
    std::string file = relFile(D->getLocation());
    bool pb = false;
    if (file.empty()) {
      std::string q = qname(D);
      if (q.rfind("iamf_tools_cli_proto", 0) == 0) pb = true; else return;
    }
    std::string key = recKey(D);
    if (!seenEnum.insert(key).second) return;
    json::Object o; o["k"] = key; o["f"] = pb ? "<proto>" : file; o["l"] = pb ? 0 : line(D->getLocation()); o["u"] = ty(D->getIntegerType());
    json::Array es; for (auto* e : D->enumerators()) { json::Array a; a.push_back(e->getNameAsString()); a.push_back(intVal(e->getInitVal())); es.push_back(std::move(a)); }
    o["e"] = std::move(es);
    enums.push_back(std::move(o));
  }

  void globalVar(const VarDecl* v) {
    if (v->isInvalidDecl() || v->getType()->isDependentType() || v->getDeclContext()->isDependentContext()) return;
    std::string file = relFile(v->getLocation());
    if (file.empty()) return;
    if (!v->isThisDeclarationADefinition() && !(v->isStaticDataMember() && v->hasInit())) return;
    std::string key = v->isStaticLocal() ? "static@" + file + ":" + std::to_string(line(v->getLocation())) + ":" + v->getNameAsString() : globKey(v);
    if (!seenGlob.insert(key).second) return;
    json::Object o; o["k"] = key; o["n"] = v->getNameAsString(); o["f"] = file; o["l"] = line(v->getLocation()); o["t"] = ty(v->getType());
    std::string fl;
    if (v->getType().isConstQualified() || v->getType()->isReferenceType()) fl += "const ";
    if (auto* at = C.getAsArrayType(v->getType())) if (C.getBaseElementType(v->getType()).isConstQualified()) fl += "const ";
    if (v->isConstexpr()) fl += "constexpr "; if (v->isStaticLocal()) fl += "local "; if (v->getTLSKind() != VarDecl::TLS_None) fl += "tls ";
    if (v->isStaticDataMember()) fl += "member ";
    if (v->isStaticLocal()) { if (auto* ef = dyn_cast<FunctionDecl>(v->getParentFunctionOrMethod())) o["in"] = fnKey(ef); o["id"] = lid(v); }
    o["a"] = fl;
    if (v->getInit() && !v->getInit()->isValueDependent()) o["i"] = expr(v->getInit()); 
    globals.push_back(std::move(o));
  }
};

class V : public RecursiveASTVisitor<V> {
 public:
  Exporter& X;
  explicit V(Exporter& x) : X(x) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool TraverseDecl(Decl* D) {
    if (D && !isa<TranslationUnitDecl>(D) && !isa<NamespaceDecl>(D) && !isa<LinkageSpecDecl>(D)) {
      // Prune declarations outside the repository (but look at their enumerations for generated protobuf code).
      SourceLocation L = D->getLocation();
      if (L.isValid() && X.relFile(L).empty()) {
        if (auto* e = dyn_cast<EnumDecl>(D)) X.enumeration(e);
        return true;
      }
    }
    if (auto* ns = dyn_cast_or_null<NamespaceDecl>(D)) {
      StringRef n = ns->getName();
      if (n == "std" || n == "absl" || n == "google" || n == "__gnu_cxx" || n == "Eigen" || n == "testing" || n == "__detail") return true;
    }
    return RecursiveASTVisitor<V>::TraverseDecl(D);
  }
  bool VisitFunctionDecl(FunctionDecl* F) {
    if (F->isThisDeclarationADefinition() && !F->isDependentContext()) {
      if (auto* M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;  // exported with their expression
      X.function(F);
    }
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* R) { X.record(R); return true; }
  bool VisitEnumDecl(EnumDecl* E) { X.enumeration(E); return true; }
  bool VisitVarDecl(VarDecl* v) { if (v->hasGlobalStorage() && !isa<ParmVarDecl>(v) && !v->isStaticLocal()) X.globalVar(v); return true; }
};

class Consumer : public ASTConsumer {
 public:
  CompilerInstance& CI; std::string in;
  Consumer(CompilerInstance& ci, std::string f) : CI(ci), in(std::move(f)) {}
  void HandleTranslationUnit(ASTContext& C) override {
    Exporter X(C);
    V v(X);
    v.TraverseDecl(C.getTranslationUnitDecl());
    json::Object o;
    o["tu"] = in; o["errors"] = (int64_t)CI.getDiagnostics().getClient()->getNumErrors();
    // all repository files included
    std::set<std::string> deps;
    auto& SM = C.getSourceManager();
    for (auto it = SM.fileinfo_begin(); it != SM.fileinfo_end(); ++it) {
      llvm::SmallString<256> p(it->first.getName()); SM.getFileManager().makeAbsolutePath(p); llvm::sys::path::remove_dots(p, true);
      std::string s = p.str().str(); if (s.rfind(gRepo + "/", 0) == 0) deps.insert(s.substr(gRepo.size() + 1));
    }
    json::Array d; for (auto& s : deps) d.push_back(s); o["deps"] = std::move(d);
    o["functions"] = std::move(X.functions); o["records"] = std::move(X.records); o["enums"] = std::move(X.enums); o["globals"] = std::move(X.globals);
    json::Array ts; for (auto& s : X.types) ts.push_back(s); o["types"] = std::move(ts);
    std::error_code ec; llvm::raw_fd_ostream os(gOut, ec);
    os << json::Value(std::move(o));
  }
};
class Action : public ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, StringRef f) override { return std::make_unique<Consumer>(CI, f.str()); }
};
struct Factory : tooling::FrontendActionFactory { std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); } };
}  // namespace

// usage: xport REPO OUT.json SOURCE -- flags...
int main(int argc, const char** argv) {
  if (argc < 5) return 2;
  gRepo = argv[1]; gOut = argv[2]; std::string src = argv[3];
  std::vector<std::string> flags;
  for (int i = 5; i < argc; ++i) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool tool(db, {src});
  Factory f;
  return tool.run(&f) ? 1 : 0;
}
