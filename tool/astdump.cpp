// Declarations of the functions and templates in the repository's own files, as one JSON object per line.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <set>
using namespace clang;
using llvm::json::Array; using llvm::json::Object; using llvm::json::Value;
static std::string Prefix;
struct V : RecursiveASTVisitor<V> {
  ASTContext &C; SourceManager &SM; std::unique_ptr<MangleContext> MC; PrintingPolicy PP;
  V(ASTContext &C) : C(C), SM(C.getSourceManager()), MC(C.createMangleContext()), PP(C.getPrintingPolicy()) {
    PP.FullyQualifiedName = true; PP.SuppressTagKeyword = C.getLangOpts().CPlusPlus; PP.SuppressUnwrittenScope = true; PP.Bool = true;
  }
  bool shouldVisitTemplateInstantiations() const { return false; }
  bool shouldVisitImplicitCode() const { return false; }
  std::string where(SourceLocation L) {
    L = SM.getExpansionLoc(L); PresumedLoc P = SM.getPresumedLoc(L);
    if (P.isInvalid()) return ""; 
    llvm::SmallString<256> F; std::string N = P.getFilename();
    if (const FileEntry *E = SM.getFileEntryForID(SM.getFileID(L))) if (!E->tryGetRealPathName().empty()) N = E->tryGetRealPathName().str();
    return N + ":" + std::to_string(P.getLine());
  }
  bool mine(const Decl *D) { return where(D->getLocation()).compare(0, Prefix.size(), Prefix) == 0; }
  static Array params(const TemplateParameterList *L) {
    Array A;
    for (const NamedDecl *P : *L) {
      const char *k = isa<TemplateTypeParmDecl>(P) ? "type" : isa<NonTypeTemplateParmDecl>(P) ? "value" : "template";
      A.push_back(Object{{"kind", k}, {"name", P->getNameAsString()}, {"pack", P->isParameterPack()}});
    }
    return A;
  }
  static bool bodied(const FunctionDecl *F) { const FunctionDecl *D; return F->hasBody(D) || F->isDefaulted() || F->isDeleted() || F->isPureVirtual() || F->getBuiltinID(); }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!mine(F) || F->isImplicit()) return true;
    if (F->getTemplateSpecializationKind() == TSK_ImplicitInstantiation) return true;
    Object O; O["name"] = F->getQualifiedNameAsString(); O["at"] = where(F->getLocation());
    O["type"] = F->getType().getAsString(PP); O["ctype"] = F->getType().getCanonicalType().getAsString(PP); O["body"] = F->doesThisDeclarationHaveABody() || F->isDefaulted(); O["defined"] = bodied(F);
    O["inline"] = F->isInlined(); O["external"] = F->isExternallyVisible(); O["dependent"] = F->isDependentContext();
    O["method"] = isa<CXXMethodDecl>(F); O["main"] = F->isMain(); O["none"] = F->isDeleted() || F->isPureVirtual() || F->isDefaulted();
    O["static"] = F->getStorageClass() == SC_Static || (isa<CXXMethodDecl>(F) && cast<CXXMethodDecl>(F)->isStatic());
    O["spec"] = F->getTemplateSpecializationKind() == TSK_ExplicitSpecialization;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) { O["class"] = M->getParent()->getQualifiedNameAsString(); O["const"] = M->isConst(); O["ctor"] = isa<CXXConstructorDecl>(F) || isa<CXXDestructorDecl>(F); }
    if (auto *T = F->getDescribedFunctionTemplate()) {
      O["tparams"] = params(T->getTemplateParameters());
      int n = 0; for (FunctionDecl *S : T->specializations()) { const FunctionDecl *D; if (S->hasBody(D)) n++; }
      O["instances"] = n;
      Array A; for (ParmVarDecl *P : F->parameters()) A.push_back(P->getType().getAsString(PP));
      O["args"] = std::move(A); O["ret"] = F->getReturnType().getAsString(PP);
    } else if (F->isDependentContext()) {
      // member of a class template: how many of its instances have a body
      int n = 0;
      if (auto *R = dyn_cast<CXXRecordDecl>(F->getDeclContext())) if (auto *CT = R->getDescribedClassTemplate())
        for (auto *S : CT->specializations()) for (Decl *D : S->decls()) if (auto *G = dyn_cast<FunctionDecl>(D)) {
          const FunctionDecl *X;
          if (G->getTemplateInstantiationPattern() && G->getTemplateInstantiationPattern()->getCanonicalDecl() == F->getCanonicalDecl() && G->hasBody(X)) n++;
        }
      O["instances"] = n;
    } else if (!isa<CXXConstructorDecl>(F) && !isa<CXXDestructorDecl>(F)) {
      if (MC->shouldMangleDeclName(F)) { std::string S; llvm::raw_string_ostream R(S); MC->mangleName(F, R); O["symbol"] = R.str(); } else O["symbol"] = F->getNameAsString();
    }
    out("function", std::move(O)); return true;
  }
  bool VisitClassTemplateDecl(ClassTemplateDecl *T) {
    if (!mine(T) || !T->isThisDeclarationADefinition()) return true;
    Object O; O["name"] = T->getQualifiedNameAsString(); O["at"] = where(T->getLocation()); O["tparams"] = params(T->getTemplateParameters()); O["tag"] = T->getTemplatedDecl()->getKindName();
    int n = 0; for (auto *S : T->specializations()) if (S->isCompleteDefinition()) n++;
    O["instances"] = n; out("class", std::move(O)); return true;
  }
  std::set<std::string> seen;
  void out(const char *k, Object O) { O["k"] = k; std::string S; llvm::raw_string_ostream R(S); R << Value(std::move(O)); if (seen.insert(R.str()).second) llvm::outs() << S << "\n"; }
};
struct Con : ASTConsumer { void HandleTranslationUnit(ASTContext &C) override { V v(C); v.TraverseDecl(C.getTranslationUnitDecl()); } };
struct Act : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Con>(); } };
int main(int argc, const char **argv) {
  if (argc < 3) return 2;
  Prefix = argv[1]; std::string Err; int n = argc;
  auto DB = tooling::FixedCompilationDatabase::loadFromCommandLine(n, argv, Err);
  if (!DB) { llvm::errs() << Err; return 2; }
  tooling::ClangTool T(*DB, {argv[2]});
  T.run(tooling::newFrontendActionFactory<Act>().get());
  llvm::outs().flush();
  return 0;
}
