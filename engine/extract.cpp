// Source-fact extractor: parses one translation unit with Clang and writes, for
// every function defined in the analysed tree, its control-flow graph (implicit
// destructors, member initialisers, exception edges included) and the expressions
// its elements evaluate, as one JSON document.  Nothing is executed.
#include <functional>
#include "clang/Basic/Builtins.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Analysis/CFG.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static int64_t sx(const llvm::APSInt &V)
{
	return (int64_t)V.extOrTrunc(64).getZExtValue();
}
static std::string gRoot; // analysed tree, with trailing '/'

class Extractor {
	ASTContext &Ctx;
	SourceManager &SM;
	PrintingPolicy PP;
	json::OStream J;
	// per function
	std::map<const Stmt *, int> Ids;
	std::vector<const Stmt *> Order;
	std::map<const Decl *, int> DeclIds;
	std::set<const Stmt *> Reads; // glvalues whose value is loaded
	std::set<std::string> Done;
	std::set<const FunctionDecl *> Pending;
	std::set<const CXXRecordDecl *> SeenRecords;

  public:
	Extractor(ASTContext &C, llvm::raw_ostream &OS)
	    : Ctx(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()), J(OS)
	{
		PP.SuppressTagKeyword = true;
		PP.Bool = true;
		PP.SuppressUnwrittenScope = true;
	}

	std::string fileOf(SourceLocation L)
	{
		L = SM.getExpansionLoc(L);
		if (L.isInvalid())
			return "";
		StringRef F = SM.getFilename(L);
		if (auto FE = SM.getFileEntryRefForID(SM.getFileID(L))) {
			StringRef R = FE->getFileEntry().tryGetRealPathName();
			if (!R.empty())
				return R.str();
		}
		return F.str();
	}
	bool inTree(SourceLocation L)
	{
		std::string F = fileOf(L);
		return F.compare(0, gRoot.size(), gRoot) == 0;
	}
	unsigned lineOf(SourceLocation L)
	{
		L = SM.getExpansionLoc(L);
		return L.isInvalid() ? 0 : SM.getExpansionLineNumber(L);
	}
	static std::string usr(const Decl *D)
	{
		llvm::SmallString<128> Buf;
		// a definition may spell its parameters differently ("const T" by value)
		if (isa<FunctionDecl>(D))
			D = D->getCanonicalDecl();
		if (index::generateUSRForDecl(D, Buf))
			return "";
		return Buf.str().str();
	}
	std::string qn(const NamedDecl *D)
	{
		std::string S;
		llvm::raw_string_ostream OS(S);
		D->printQualifiedName(OS, PP);
		return OS.str();
	}
	std::string ty(QualType T)
	{
		if (T.isNull())
			return "";
		return T.getAsString(PP);
	}
	std::string cty(QualType T)
	{
		if (T.isNull())
			return "";
		return T.getCanonicalType().getAsString(PP);
	}
	int declId(const Decl *D)
	{
		D = D->getCanonicalDecl();
		auto It = DeclIds.find(D);
		if (It != DeclIds.end())
			return It->second;
		int N = DeclIds.size() + 1;
		DeclIds[D] = N;
		return N;
	}

	const Stmt *strip(const Stmt *S)
	{
		while (S) {
			if (auto *E = dyn_cast<ParenExpr>(S))
				S = E->getSubExpr();
			else if (auto *E = dyn_cast<ImplicitCastExpr>(S)) {
				S = E->getSubExpr();
			} else if (auto *E = dyn_cast<FullExpr>(S))
				S = E->getSubExpr();
			else if (auto *E = dyn_cast<MaterializeTemporaryExpr>(S))
				S = E->getSubExpr();
			else if (auto *E = dyn_cast<CXXBindTemporaryExpr>(S))
				S = E->getSubExpr();
			else if (auto *E = dyn_cast<CXXDefaultArgExpr>(S))
				S = E->getExpr();
			else if (auto *E = dyn_cast<CXXDefaultInitExpr>(S))
				S = E->getExpr();
			else if (auto *E = dyn_cast<SubstNonTypeTemplateParmExpr>(S))
				S = E->getReplacement();
			else if (auto *E = dyn_cast<ExplicitCastExpr>(S)) {
				S = E->getSubExpr();
			} else if (auto *E = dyn_cast<CXXConstructExpr>(S)) {
				// elidable copy/move of a temporary
				if (E->isElidable() && E->getNumArgs() >= 1)
					S = E->getArg(0);
				else
					break;
			} else if (auto *E = dyn_cast<ConstantExpr>(S))
				S = E->getSubExpr();
			else
				break;
		}
		return S;
	}
	int id(const Stmt *S)
	{
		S = strip(S);
		if (!S)
			return 0;
		auto It = Ids.find(S);
		if (It != Ids.end())
			return It->second;
		int N = Order.size() + 1;
		Ids[S] = N;
		Order.push_back(S);
		return N;
	}
	void kids(const Stmt *S)
	{
		J.attributeArray("c", [&] {
			for (const Stmt *K : S->children())
				J.value(K ? id(K) : 0);
		});
	}
	void callee(const FunctionDecl *F)
	{
		if (!F)
			return;
		if (auto *P = F->getTemplateInstantiationPattern(); P && !inTree(F->getLocation()))
			;
		J.attribute("fn", qn(F));
		J.attribute("fk", usr(F));
		if (F->isNoReturn())
			J.attribute("nr", true);
		if (inTree(F->getLocation()))
			J.attribute("in", true);
		if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
			J.attribute("cls", qn(M->getParent()));
			if (M->isVirtual())
				J.attribute("virt", true);
			if (M->isConst())
				J.attribute("cm", true);
		}
		// how each parameter takes its argument
		std::string PK;
		for (auto *P : F->parameters()) {
			QualType T = P->getType();
			if (T->isLValueReferenceType())
				PK += T->getPointeeType().isConstQualified() ? 'c' : 'r';
			else if (T->isRValueReferenceType())
				PK += 'm';
			else if (T->isPointerType())
				PK += T->getPointeeType().isConstQualified() ? 'q' : 'p';
			else
				PK += 'v';
		}
		J.attribute("pk", PK);
		if (F->isVariadic())
			J.attribute("va", true);
		if (auto *FA = F->getAttr<FormatAttr>()) {
			J.attribute("fmt", (int)FA->getFormatIdx());
			J.attribute("fmt1", (int)FA->getFirstArg());
			J.attribute("fmtt", FA->getType()->getName().str());
		} else if (unsigned B = F->getBuiltinID()) {
			unsigned FI;
			bool VA;
			if (Ctx.BuiltinInfo.isPrintfLike(B, FI, VA)) {
				J.attribute("fmt", (int)FI + 1);
				J.attribute("fmtt", "printf");
				J.attribute("fmt1", VA ? 0 : (int)FI + 2);
			} else if (Ctx.BuiltinInfo.isScanfLike(B, FI, VA)) {
				J.attribute("fmt", (int)FI + 1);
				J.attribute("fmtt", "scanf");
				J.attribute("fmt1", VA ? 0 : (int)FI + 2);
			}
		}
	}
	void node(const Stmt *S)
	{
		J.object([&] {
			J.attribute("i", Ids[S]);
			J.attribute("l", lineOf(S->getBeginLoc()));
			if (Reads.count(S))
				J.attribute("rd", true);
			if (auto *E = dyn_cast<Expr>(S)) {
				J.attribute("t", cty(E->getType()));
				if (!E->isValueDependent() && !E->isTypeDependent() &&
				    E->getType()->isIntegralOrEnumerationType()) {
					Expr::EvalResult R;
					if (E->EvaluateAsInt(R, Ctx))
						J.attribute("v", sx(R.Val.getInt()));
				}
			}
			if (auto *E = dyn_cast<DeclRefExpr>(S)) {
				J.attribute("k", "ref");
				const ValueDecl *D = E->getDecl();
				J.attribute("n", D->getNameAsString());
				if (auto *V = dyn_cast<VarDecl>(D)) {
					if (V->isLocalVarDeclOrParm() && !V->isStaticLocal()) {
						J.attribute("d", declId(V));
						J.attribute("dk", isa<ParmVarDecl>(V) ? "parm" : "local");
					} else {
						J.attribute("dk", V->isStaticLocal() ? "slocal" : "global");
						J.attribute("q", qn(V));
						if (V->isStaticLocal())
							J.attribute("d", declId(V));
					}
				} else if (auto *F = dyn_cast<FunctionDecl>(D)) {
					J.attribute("dk", "func");
					callee(F);
				} else if (isa<EnumConstantDecl>(D)) {
					J.attribute("dk", "enum");
					J.attribute("q", qn(D));
				} else if (isa<BindingDecl>(D)) {
					J.attribute("dk", "local");
					J.attribute("d", declId(D));
				} else {
					J.attribute("dk", "other");
				}
				return;
			}
			if (auto *E = dyn_cast<MemberExpr>(S)) {
				const ValueDecl *D = E->getMemberDecl();
				J.attribute("n", D->getNameAsString());
				if (isa<FieldDecl>(D) || isa<VarDecl>(D)) {
					J.attribute("k", "fld");
					J.attribute("q", qn(D));
				} else {
					J.attribute("k", "mth");
					J.attribute("q", qn(D));
				}
				J.attribute("b", id(E->getBase()));
				if (isa<CXXThisExpr>(E->getBase()->IgnoreImpCasts()))
					J.attribute("this", true);
				return;
			}
			if (isa<CXXThisExpr>(S)) {
				J.attribute("k", "this");
				return;
			}
			if (auto *E = dyn_cast<StringLiteral>(S)) {
				J.attribute("k", "str");
				std::string V = E->getCharByteWidth() == 1 ? E->getString().str() : "";
				J.attribute("s", json::fixUTF8(V));
				return;
			}
			if (isa<IntegerLiteral>(S) || isa<CharacterLiteral>(S) || isa<CXXBoolLiteralExpr>(S)) {
				J.attribute("k", "int");
				return;
			}
			if (isa<CXXNullPtrLiteralExpr>(S) || isa<GNUNullExpr>(S)) {
				J.attribute("k", "null");
				return;
			}
			if (isa<FloatingLiteral>(S)) {
				J.attribute("k", "float");
				return;
			}
			if (auto *E = dyn_cast<CallExpr>(S)) {
				J.attribute("k", "call");
				const FunctionDecl *F = E->getDirectCallee();
				callee(F);
				if (auto *O = dyn_cast<CXXOperatorCallExpr>(E)) {
					J.attribute("op", getOperatorSpelling(O->getOperator()));
					bool Member = F && isa<CXXMethodDecl>(F) &&
					              !cast<CXXMethodDecl>(F)->isStatic();
					if (Member && E->getNumArgs() > 0)
						J.attribute("o", id(E->getArg(0)));
					J.attributeArray("a", [&] {
						for (unsigned I = Member ? 1 : 0; I < E->getNumArgs(); ++I)
							J.value(id(E->getArg(I)));
					});
					return;
				}
				if (auto *M = dyn_cast<CXXMemberCallExpr>(E)) {
					const Expr *O = M->getImplicitObjectArgument();
					J.attribute("o", id(O));
					if (O) {
						const Stmt *SO = strip(O);
						if (auto *SE = dyn_cast<Expr>(SO)) {
							QualType T = SE->getType();
							if (T->isPointerType())
								T = T->getPointeeType();
							J.attribute("ot", cty(T.getNonReferenceType().getUnqualifiedType()));
							if (isa<CXXThisExpr>(SE))
								J.attribute("othis", true);
						}
					}
					if (auto *ME = dyn_cast<MemberExpr>(M->getCallee()->IgnoreParens()))
						if (ME->hasQualifier())
							J.attribute("qual", true);
				} else if (!F) {
					J.attribute("fe", id(E->getCallee()));
				}
				J.attributeArray("a", [&] {
					for (const Expr *A : E->arguments())
						J.value(id(A));
				});
				if (F && F->isVariadic())
					J.attributeArray("at", [&] {
						// as they are passed, after explicit and implicit conversions
						for (const Expr *A : E->arguments())
							J.value(cty(A->getType()));
					});
				return;
			}
			if (auto *E = dyn_cast<CXXConstructExpr>(S)) {
				J.attribute("k", "ctor");
				callee(E->getConstructor());
				if (E->getConstructor()->isCopyOrMoveConstructor())
					J.attribute("copy", true);
				if (E->isListInitialization() && E->requiresZeroInitialization())
					J.attribute("zi", true);
				else if (E->requiresZeroInitialization())
					J.attribute("zi", true);
				J.attributeArray("a", [&] {
					for (const Expr *A : E->arguments())
						J.value(id(A));
				});
				return;
			}
			if (auto *E = dyn_cast<CXXNewExpr>(S)) {
				J.attribute("k", "new");
				J.attribute("nt", ty(E->getAllocatedType()));
				if (E->isArray())
					J.attribute("arr", true);
				kids(S);
				return;
			}
			if (auto *E = dyn_cast<CXXDeleteExpr>(S)) {
				J.attribute("k", "delete");
				if (E->isArrayForm())
					J.attribute("arr", true);
				kids(S);
				return;
			}
			if (auto *E = dyn_cast<BinaryOperator>(S)) {
				J.attribute("k", "bin");
				J.attribute("op", E->getOpcodeStr());
				kids(S);
				return;
			}
			if (auto *E = dyn_cast<UnaryOperator>(S)) {
				J.attribute("k", "un");
				J.attribute("op", UnaryOperator::getOpcodeStr(E->getOpcode()));
				if (E->isPostfix())
					J.attribute("post", true);
				kids(S);
				return;
			}
			if (auto *E = dyn_cast<AbstractConditionalOperator>(S)) {
				J.attribute("k", "cond");
				J.attributeArray("c", [&] {
					J.value(id(E->getCond()));
					J.value(id(E->getTrueExpr()));
					J.value(id(E->getFalseExpr()));
				});
				return;
			}
			if (auto *E = dyn_cast<ArraySubscriptExpr>(S)) {
				J.attribute("k", "idx");
				J.attributeArray("c", [&] {
					J.value(id(E->getBase()));
					J.value(id(E->getIdx()));
				});
				return;
			}
			if (auto *E = dyn_cast<LambdaExpr>(S)) {
				J.attribute("k", "lambda");
				callee(E->getCallOperator());
				Pending.insert(E->getCallOperator());
				J.attributeArray("caps", [&] {
					for (auto &C : E->captures()) {
						if (C.capturesVariable()) {
							J.object([&] {
								J.attribute("n", C.getCapturedVar()->getNameAsString());
								J.attribute("d", declId(C.getCapturedVar()));
								J.attribute("ref", C.getCaptureKind() == LCK_ByRef);
							});
						} else if (C.capturesThis())
							J.object([&] { J.attribute("this", true); });
					}
				});
				return;
			}
			if (auto *E = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) {
				J.attribute("k", "sizeof");
				if (!E->isArgumentType())
					J.attributeArray("c", [&] { J.value(id(E->getArgumentExpr())); });
				return;
			}
			if (auto *E = dyn_cast<InitListExpr>(S)) {
				J.attribute("k", "ilist");
				kids(S);
				fieldNames(E->getType());
				return;
			}
			if (isa<CXXStdInitializerListExpr>(S)) {
				J.attribute("k", "ilist");
				kids(S);
				return;
			}
			if (auto *E = dyn_cast<CXXThrowExpr>(S)) {
				J.attribute("k", "throw");
				if (E->getSubExpr())
					J.attribute("tt", cty(E->getSubExpr()->getType()));
				kids(S);
				return;
			}
			if (auto *E = dyn_cast<ReturnStmt>(S)) {
				J.attribute("k", "ret");
				J.attributeArray("c", [&] {
					if (E->getRetValue())
						J.value(id(E->getRetValue()));
				});
				return;
			}
			if (auto *E = dyn_cast<DeclStmt>(S)) {
				J.attribute("k", "decl");
				J.attributeArray("vars", [&] {
					for (const Decl *D : E->decls()) {
						auto *V = dyn_cast<VarDecl>(D);
						if (!V)
							continue;
						J.object([&] {
							J.attribute("n", V->getNameAsString());
							J.attribute("d", declId(V));
							J.attribute("t", cty(V->getType()));
							J.attribute("wt", ty(V->getType()));
							if (V->getType()->isReferenceType())
								J.attribute("ref", true);
							if (V->isStaticLocal())
								J.attribute("static", true);
							if (V->isImplicit())
								J.attribute("impl", true);
							if (V->getInit())
								J.attribute("init", id(V->getInit()));
							if (auto *CA = Ctx.getAsConstantArrayType(V->getType()))
								J.attribute("asz", (int64_t)CA->getSize().getZExtValue());
						});
					}
				});
				return;
			}
			if (isa<CXXScalarValueInitExpr>(S) || isa<ImplicitValueInitExpr>(S)) {
				J.attribute("k", "zero");
				return;
			}
			if (isa<PredefinedExpr>(S)) {
				J.attribute("k", "str");
				J.attribute("s", "");
				return;
			}
			J.attribute("k", std::string("S:") + S->getStmtClassName());
			if (auto *SW = dyn_cast<SwitchCase>(S)) {
				// children would drag whole sub-statements in
				(void)SW;
				return;
			}
			if (isa<Expr>(S))
				kids(S);
		});
	}

	void loads(const Stmt *S)
	{
		if (!S)
			return;
		if (auto *C = dyn_cast<ImplicitCastExpr>(S))
			if (C->getCastKind() == CK_LValueToRValue)
				Reads.insert(strip(C->getSubExpr()));
		if (isa<LambdaExpr>(S))
			return;
		for (const Stmt *K : S->children())
			loads(K);
	}
	void function(const FunctionDecl *F)
	{
		std::string K = usr(F);
		if (K.empty() || !Done.insert(K).second)
			return;
		const Stmt *Body = F->getBody();
		if (!Body || F->isDependentContext())
			return;
		Ids.clear();
		Order.clear();
		DeclIds.clear();
		Reads.clear();
		loads(Body);
		if (auto *CD = dyn_cast<CXXConstructorDecl>(F))
			for (auto *I : CD->inits())
				loads(I->getInit());
		CFG::BuildOptions BO;
		BO.AddImplicitDtors = true;
		BO.AddTemporaryDtors = true;
		BO.AddInitializers = true;
		BO.AddEHEdges = true;
		BO.AddCXXDefaultInitExprInCtors = true;
		BO.PruneTriviallyFalseEdges = true;
		BO.setAllAlwaysAdd();
		std::unique_ptr<CFG> G = CFG::buildCFG(F, const_cast<Stmt *>(Body), &Ctx, BO);
		J.object([&] {
			J.attribute("key", K);
			J.attribute("name", qn(F));
			J.attribute("file", fileOf(F->getLocation()));
			J.attribute("line", lineOf(F->getLocation()));
			J.attribute("ret", cty(F->getReturnType()));
			if (F->isNoReturn())
				J.attribute("nr", true);
			if (F->getStorageClass() == SC_Static)
				J.attribute("sstatic", true);
			if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
				J.attribute("cls", qn(M->getParent()));
				J.attribute("static", M->isStatic());
				J.attribute("virt", M->isVirtual());
				J.attribute("access", (int)M->getAccess());
				J.attributeArray("over", [&] {
					for (auto *O : M->overridden_methods())
						J.value(usr(O));
				});
				if (isa<CXXConstructorDecl>(M)) {
					J.attribute("ctor", true);
					if (cast<CXXConstructorDecl>(M)->isCopyOrMoveConstructor())
						J.attribute("copyctor", true);
				}
				if (isa<CXXDestructorDecl>(M))
					J.attribute("dtor", true);
				if (M->getParent()->isLambda())
					J.attribute("lambda", true);
				if (M->isImplicit() || M->isDefaulted())
					J.attribute("implicit", true);
			}
			J.attributeArray("params", [&] {
				for (auto *P : F->parameters())
					J.object([&] {
						J.attribute("n", P->getNameAsString());
						J.attribute("d", declId(P));
						J.attribute("t", cty(P->getType()));
						if (P->getType()->isReferenceType()) {
							J.attribute("ref", true);
							if (P->getType()->getPointeeType().isConstQualified())
								J.attribute("cref", true);
						}
					});
			});
			if (!G) {
				J.attribute("nocfg", true);
				return;
			}
			J.attribute("entry", (int)G->getEntry().getBlockID());
			J.attribute("exit", (int)G->getExit().getBlockID());
			J.attributeArray("blocks", [&] {
				for (const CFGBlock *B : *G)
					block(B);
			});
			J.attributeArray("ex", [&] {
				for (size_t I = 0; I < Order.size(); ++I)
					node(Order[I]);
			});
		});
	}
	void block(const CFGBlock *B)
	{
		J.object([&] {
			J.attribute("b", (int)B->getBlockID());
			J.attributeArray("e", [&] {
				for (const CFGElement &E : *B)
					element(E);
			});
			if (const Stmt *L = B->getLabel()) {
				if (auto *C = dyn_cast<CaseStmt>(L)) {
					J.attribute("lab", "case");
					Expr::EvalResult R;
					if (C->getLHS()->EvaluateAsInt(R, Ctx))
						J.attribute("lv", sx(R.Val.getInt()));
					if (C->getRHS() && C->getRHS()->EvaluateAsInt(R, Ctx))
						J.attribute("lv2", sx(R.Val.getInt()));
				} else if (isa<DefaultStmt>(L))
					J.attribute("lab", "default");
				else if (auto *C = dyn_cast<CXXCatchStmt>(L)) {
					J.attribute("lab", "catch");
					J.attribute("lt", C->getExceptionDecl() ? cty(C->getCaughtType()) : "...");
				} else
					J.attribute("lab", "label");
			}
			if (const Stmt *T = B->getTerminatorStmt()) {
				J.attributeObject("term", [&] {
					J.attribute("k", T->getStmtClassName());
					J.attribute("l", lineOf(T->getBeginLoc()));
					if (B->getTerminator().isTemporaryDtorsBranch())
						J.attribute("tmp", true);
					if (auto *BO = dyn_cast<BinaryOperator>(T))
						J.attribute("op", BO->getOpcodeStr());
					if (!isa<CXXTryStmt>(T))
						if (const Stmt *C = B->getTerminatorCondition())
							J.attribute("cond", id(C));
					if (auto *TR = dyn_cast<CXXTryStmt>(T))
						J.attribute("l2", lineOf(TR->getTryBlock()->getEndLoc()));
					if (auto *R = dyn_cast<CXXForRangeStmt>(T)) {
						J.attribute("range", id(R->getRangeInit()));
						J.attribute("rvar", declId(R->getLoopVariable()));
					}
				});
			}
			J.attributeArray("s", [&] {
				for (auto &S : B->succs()) {
					if (const CFGBlock *R = S.getReachableBlock())
						J.value((int)R->getBlockID());
					else
						J.value(nullptr);
				}
			});
			if (B->hasNoReturnElement())
				J.attribute("nr", true);
		});
	}
	void fieldNames(QualType T)
	{
		if (auto *R = T->getAsRecordDecl())
			J.attributeArray("fl", [&] {
				for (auto *F : R->fields())
					J.value(F->getNameAsString());
			});
	}
	// the constants an initialiser consists of
	void constants(const Stmt *S)
	{
		S = S ? strip(S) : nullptr;
		auto *E = dyn_cast_or_null<Expr>(S);
		Expr::EvalResult R;
		if (!E)
			J.value(nullptr);
		else if (auto *SL = dyn_cast<StringLiteral>(E))
			J.object([&] { J.attribute("s", json::fixUTF8(SL->getCharByteWidth() == 1 ? SL->getString().str() : "")); });
		else if (isa<CXXNullPtrLiteralExpr>(E) || isa<ImplicitValueInitExpr>(E))
			J.object([&] { J.attribute("v", 0); });
		else if (E->getType()->isIntegralOrEnumerationType() && !E->isValueDependent() && E->EvaluateAsInt(R, Ctx))
			J.object([&] { J.attribute("v", R.Val.getInt().getExtValue()); });
		else if (auto *L = dyn_cast<InitListExpr>(E))
			J.object([&] {
				J.attributeArray("c", [&] {
					for (auto *C : L->inits())
						constants(C);
				});
				fieldNames(E->getType());
			});
		else if (auto *L = dyn_cast<CXXStdInitializerListExpr>(E))
			constants(L->getSubExpr());
		else if (auto *C = dyn_cast<CXXConstructExpr>(E)) {
			std::vector<const Expr *> A;
			for (auto *X : C->arguments())
				if (!isa<CXXDefaultArgExpr>(X))
					A.push_back(X);
			if (A.size() == 1)
				constants(A[0]);
			else if (A.size() == 2 && C->getConstructor()->getParent()->getName() == "pair")
				J.object([&] {
					J.attributeArray("c", [&] {
						constants(A[0]);
						constants(A[1]);
					});
					J.attributeArray("fl", [&] {
						J.value("first");
						J.value("second");
					});
				});
			else
				J.value(nullptr);
		} else
			J.value(nullptr);
	}
	void dtor(const char *Kind, const CXXDestructorDecl *D, QualType T, const VarDecl *V,
	          const FieldDecl *FD)
	{
		J.object([&] {
			J.attribute("k", Kind);
			J.attribute("t", cty(T.getNonReferenceType().getUnqualifiedType()));
			if (D) {
				J.attribute("fn", qn(D));
				J.attribute("fk", usr(D));
			}
			if (V) {
				J.attribute("d", declId(V));
				J.attribute("n", V->getNameAsString());
			}
			if (FD)
				J.attribute("n", FD->getNameAsString());
		});
	}
	void element(const CFGElement &E)
	{
		switch (E.getKind()) {
		case CFGElement::Statement:
		case CFGElement::Constructor:
		case CFGElement::CXXRecordTypedCall: {
			const Stmt *S = E.castAs<CFGStmt>().getStmt();
			if (strip(S) != S) {
				return; // transparent wrapper: its operand is an element of its own
			}
			J.value(id(S));
			break;
		}
		case CFGElement::Initializer: {
			const CXXCtorInitializer *I = E.castAs<CFGInitializer>().getInitializer();
			J.object([&] {
				J.attribute("k", "init");
				if (I->isAnyMemberInitializer()) {
					J.attribute("n", I->getAnyMember()->getNameAsString());
					J.attribute("q", qn(I->getAnyMember()));
				} else if (I->isBaseInitializer())
					J.attribute("base", cty(QualType(I->getBaseClass(), 0)));
				else
					J.attribute("deleg", true);
				J.attribute("written", I->isWritten());
				if (I->getInit())
					J.attribute("x", id(I->getInit()));
			});
			break;
		}
		case CFGElement::AutomaticObjectDtor: {
			auto D = E.castAs<CFGAutomaticObjDtor>();
			dtor("dtor", D.getDestructorDecl(Ctx), D.getVarDecl()->getType(), D.getVarDecl(), nullptr);
			break;
		}
		case CFGElement::TemporaryDtor: {
			auto D = E.castAs<CFGTemporaryDtor>();
			dtor("tdtor", D.getDestructorDecl(Ctx), D.getBindTemporaryExpr()->getType(), nullptr, nullptr);
			break;
		}
		case CFGElement::MemberDtor: {
			auto D = E.castAs<CFGMemberDtor>();
			dtor("mdtor", D.getDestructorDecl(Ctx), D.getFieldDecl()->getType(), nullptr, D.getFieldDecl());
			break;
		}
		case CFGElement::BaseDtor: {
			auto D = E.castAs<CFGBaseDtor>();
			dtor("bdtor", D.getDestructorDecl(Ctx), D.getBaseSpecifier()->getType(), nullptr, nullptr);
			break;
		}
		case CFGElement::DeleteDtor: {
			auto D = E.castAs<CFGDeleteDtor>();
			dtor("ddtor", D.getDestructorDecl(Ctx), D.getDeleteExpr()->getDestroyedType(), nullptr, nullptr);
			break;
		}
		default:
			break;
		}
	}

	void record(const CXXRecordDecl *R)
	{
		R = R->getDefinition();
		if (!R || !SeenRecords.insert(R).second || R->isLambda() || R->isDependentContext())
			return;
		J.object([&] {
			J.attribute("name", qn(R));
			J.attribute("file", fileOf(R->getLocation()));
			J.attribute("line", lineOf(R->getLocation()));
			J.attribute("struct", !R->hasUserDeclaredConstructor());
			J.attributeArray("bases", [&] {
				for (auto &B : R->bases())
					J.value(cty(B.getType()));
			});
			J.attributeArray("fields", [&] {
				for (auto *F : R->fields())
					J.object([&] {
						J.attribute("n", F->getNameAsString());
						J.attribute("t", cty(F->getType()));
						J.attribute("l", lineOf(F->getLocation()));
						J.attribute("scalar", F->getType()->isScalarType());
						J.attribute("access", (int)F->getAccess());
						if (F->hasInClassInitializer())
							J.attribute("ici", true);
						if (auto *CA = Ctx.getAsConstantArrayType(F->getType()))
							J.attribute("asz", (int64_t)CA->getSize().getZExtValue());
					});
			});
			J.attributeArray("methods", [&] {
				for (auto *M : R->methods())
					J.object([&] {
						J.attribute("n", M->getNameAsString());
						J.attribute("key", usr(M));
						J.attribute("virt", M->isVirtual());
						J.attribute("access", (int)M->getAccess());
						J.attributeArray("over", [&] {
							for (auto *O : M->overridden_methods())
								J.value(usr(O));
						});
					});
			});
		});
	}

	std::vector<const FunctionDecl *> Fns;
	std::vector<const CXXRecordDecl *> Recs;
	std::vector<const EnumDecl *> Enums;
	std::vector<const VarDecl *> Globals;

	struct V : RecursiveASTVisitor<V> {
		Extractor &X;
		V(Extractor &X) : X(X) {}
		bool shouldVisitTemplateInstantiations() const { return true; }
		bool shouldVisitImplicitCode() const { return true; }
		bool VisitFunctionDecl(FunctionDecl *F)
		{
			if (F->isThisDeclarationADefinition() && F->getBody() && X.inTree(F->getLocation()))
				X.Fns.push_back(F);
			return true;
		}
		bool VisitCXXRecordDecl(CXXRecordDecl *R)
		{
			if (R->isThisDeclarationADefinition() && X.inTree(R->getLocation()))
				X.Recs.push_back(R);
			return true;
		}
		bool VisitEnumDecl(EnumDecl *E)
		{
			if (E->isThisDeclarationADefinition() && X.inTree(E->getLocation()))
				X.Enums.push_back(E);
			return true;
		}
		bool VisitVarDecl(VarDecl *D)
		{
			if (!D->isLocalVarDeclOrParm() && X.inTree(D->getLocation()))
				X.Globals.push_back(D);
			return true;
		}
	};

	void run(TranslationUnitDecl *TU)
	{
		V Vis(*this);
		Vis.TraverseDecl(TU);
		J.object([&] {
			J.attributeArray("enums", [&] {
				for (auto *E : Enums)
					J.object([&] {
						J.attribute("name", qn(E));
						J.attribute("file", fileOf(E->getLocation()));
						J.attributeArray("c", [&] {
							for (auto *C : E->enumerators())
								J.array([&] {
									J.value(C->getNameAsString());
									J.value(sx(C->getInitVal()));
								});
						});
					});
			});
			J.attributeArray("records", [&] {
				for (auto *R : Recs)
					record(R);
			});
			J.attributeArray("globals", [&] {
				for (auto *D : Globals)
					J.object([&] {
						J.attribute("name", qn(D));
						J.attribute("t", cty(D->getType()));
						J.attribute("file", fileOf(D->getLocation()));
						J.attribute("line", lineOf(D->getLocation()));
						QualType T = D->getType();
						while (auto *A = Ctx.getAsArrayType(T))
							T = A->getElementType();
						J.attribute("ro", T.isConstQualified());
						if (const Expr *I = D->getInit()) {
							// the literals of an initialiser made of string literals only
							std::vector<const StringLiteral *> L;
							bool Only = true;
							std::function<void(const Stmt *)> Walk = [&](const Stmt *S) {
								if (!S)
									return;
								S = strip(S);
								if (auto *SL = dyn_cast<StringLiteral>(S))
									L.push_back(SL);
								else if (isa<InitListExpr>(S) || isa<CXXConstructExpr>(S))
									for (auto *C : S->children())
										Walk(C);
								else if (!isa<CXXDefaultArgExpr>(S) && !isa<ImplicitValueInitExpr>(S))
									Only = false;
							};
							Walk(I);
							J.attribute("init", true);
							if (T.isConstQualified() && !I->isValueDependent()) {
								J.attributeBegin("tree");
								constants(I);
								J.attributeEnd();
							}
							if (Only && !L.empty())
								J.attributeArray("strs", [&] {
									for (auto *SL : L)
										J.value(json::fixUTF8(SL->getCharByteWidth() == 1 ? SL->getString().str() : ""));
								});
						}
					});
			});
			J.attributeArray("functions", [&] {
				for (auto *F : Fns)
					function(F);
				for (bool More = true; More;) {
					More = false;
					auto P = Pending;
					for (auto *F : P)
						if (!Done.count(usr(F)) && F->getBody()) {
							function(F);
							More = true;
						}
				}
			});
		});
	}
};

class Consumer : public ASTConsumer {
  public:
	void HandleTranslationUnit(ASTContext &C) override
	{
		if (C.getDiagnostics().hasErrorOccurred())
			return;
		Extractor X(C, llvm::outs());
		X.run(C.getTranslationUnitDecl());
	}
};
class Action : public ASTFrontendAction {
	std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override
	{
		return std::make_unique<Consumer>();
	}
};

int main(int argc, char **argv)
{
	// extract TREE FILE -- CLANG-ARGS...
	if (argc < 4)
		return 2;
	gRoot = std::string(argv[1]) + "/";
	std::vector<std::string> Args;
	for (int I = 4; I < argc; ++I)
		Args.push_back(argv[I]);
	tooling::FixedCompilationDatabase DB(".", Args);
	tooling::ClangTool Tool(DB, {argv[2]});
	return Tool.run(tooling::newFrontendActionFactory<Action>().get());
}
