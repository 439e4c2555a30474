#include "ref/conv.h"
#include <cstdlib>

namespace ref {
using namespace nixf;

namespace {
struct Conv {
  std::string_view Src;

  P miss() { return mk(NId, 0, 0, "<missing>"); }
  static size_t b(const nixf::Node *N) { return N->lCur().offset(); }
  static size_t e(const nixf::Node *N) { return N->rCur().offset(); }

  std::vector<P> parts(const InterpolatedParts &Ps) {
    std::vector<P> R;
    for (auto &F : Ps.fragments()) {
      if (F.kind() == InterpolablePart::SPK_Escaped) {
        if (F.escaped().empty()) continue;
        if (!R.empty() && R.back()->K == Lit) R.back()->S += F.escaped();
        else R.push_back(mk(Lit, 0, 0, F.escaped()));
      } else {
        auto &I = F.interpolation();
        R.push_back(mk(Interp, b(&I), e(&I), "", {go(I.expr())}));
      }
    }
    return R;
  }

  P name(const AttrName *N) {
    if (!N) return miss();
    switch (N->kind()) {
    case AttrName::ANK_ID: return mk(NId, b(N), e(N), N->id()->name());
    case AttrName::ANK_String: return mk(NStr, b(N), e(N), "", parts(N->string().parts()));
    case AttrName::ANK_Interpolation: return mk(NDyn, b(N), e(N), "", {go(N->interpolation().expr())});
    }
    return miss();
  }
  P path(const nixf::AttrPath *A) {
    if (!A) return miss();
    std::vector<P> Ch;
    for (auto &N : A->names()) Ch.push_back(name(N.get()));
    return mk(ref::AttrPath, b(A), e(A), "", Ch);
  }
  std::vector<P> binds(const Binds *B) {
    std::vector<P> R;
    if (!B) return R;
    for (auto &X : B->bindings()) {
      if (!X) { R.push_back(miss()); continue; }
      if (X->kind() == nixf::Node::NK_Binding) {
        auto &Bi = static_cast<const Binding &>(*X);
        R.push_back(mk(Bind, b(&Bi), e(&Bi), "", {path(&Bi.path()), go(Bi.value().get())}));
      } else {
        auto &In = static_cast<const nixf::Inherit &>(*X);
        std::vector<P> Ch;
        if (In.expr()) Ch.push_back(go(In.expr().get()));
        for (auto &N : In.names()) Ch.push_back(name(N.get()));
        R.push_back(mk(In.expr() ? InheritFrom : ref::Inherit, b(&In), e(&In), "", Ch));
      }
    }
    return R;
  }
  static std::string opName(tok::TokenKind K) {
    switch (K) {
    case tok::tok_op_not: return "!";
    case tok::tok_op_impl: return "->";
    case tok::tok_op_or: return "||";
    case tok::tok_op_and: return "&&";
    case tok::tok_op_eq: return "==";
    case tok::tok_op_neq: return "!=";
    case tok::tok_op_lt: return "<";
    case tok::tok_op_gt: return ">";
    case tok::tok_op_le: return "<=";
    case tok::tok_op_ge: return ">=";
    case tok::tok_op_update: return "//";
    case tok::tok_op_add: return "+";
    case tok::tok_op_negate: return "-";
    case tok::tok_op_mul: return "*";
    case tok::tok_op_div: return "/";
    case tok::tok_op_concat: return "++";
    case tok::tok_op_pipe_from: return "<|";
    case tok::tok_op_pipe_into: return "|>";
    default: return "op?";
    }
  }

  P go(const nixf::Node *N) {
    if (!N) return miss();
    size_t B = b(N), E = e(N);
    switch (N->kind()) {
    case nixf::Node::NK_ExprInt: return mk(Int, B, E, std::to_string(static_cast<const ExprInt *>(N)->value()));
    case nixf::Node::NK_ExprFloat: {
      char Buf[64];
      snprintf(Buf, sizeof Buf, "%.17g", static_cast<const ExprFloat *>(N)->value());
      return mk(Float, B, E, Buf);
    }
    case nixf::Node::NK_ExprVar: return mk(Var, B, E, static_cast<const ExprVar *>(N)->id().name());
    case nixf::Node::NK_ExprString: {
      auto *S = static_cast<const ExprString *>(N);
      if (B < Src.size() && Src[B] != '"' && Src[B] != '\'') return mk(Uri, B, E, S->isLiteral() ? S->literal() : "?");
      return mk(Src[B] == '"' ? Str : IndStr, B, E, "", parts(S->parts()));
    }
    case nixf::Node::NK_ExprPath: {
      auto Ps = parts(static_cast<const ExprPath *>(N)->parts());
      return mk(B < Src.size() && Src[B] == '~' ? HomePath : Path, B, E, "", Ps);
    }
    case nixf::Node::NK_ExprSPath: return mk(SPath, B, E, static_cast<const ExprSPath *>(N)->text());
    case nixf::Node::NK_ExprParen: return mk(Paren, B, E, "", {go(static_cast<const ExprParen *>(N)->expr())});
    case nixf::Node::NK_ExprAttrs: {
      auto *A = static_cast<const ExprAttrs *>(N);
      return mk(A->isRecursive() ? RecAttrs : Attrs, B, E, "", binds(A->binds()));
    }
    case nixf::Node::NK_ExprSelect: {
      auto *S = static_cast<const ExprSelect *>(N);
      std::vector<P> Ch{go(&S->expr()), path(S->path())};
      if (S->defaultExpr()) Ch.push_back(go(S->defaultExpr()));
      return mk(Ch.size() == 3 ? SelectOr : Select, B, E, "", Ch);
    }
    case nixf::Node::NK_ExprCall: {
      auto *C = static_cast<const ExprCall *>(N);
      std::vector<P> Ch{go(&C->fn())};
      for (auto &A : C->args()) Ch.push_back(go(A.get()));
      return mk(Call, B, E, "", Ch);
    }
    case nixf::Node::NK_ExprList: {
      std::vector<P> Ch;
      for (auto &X : static_cast<const ExprList *>(N)->elements()) Ch.push_back(go(X.get()));
      return mk(List, B, E, "", Ch);
    }
    case nixf::Node::NK_ExprLambda: {
      auto *L = static_cast<const ExprLambda *>(N);
      auto R = mk(Lambda, B, E);
      if (auto *A = L->arg()) {
        if (A->id()) {
          R->HasArg = true;
          R->S = A->id()->name();
        }
        if (A->formals()) {
          R->HasFormals = true;
          R->ArgFirst = A->id() && b(A->id()) < b(A->formals());
          std::vector<P> Fs;
          for (auto &F : A->formals()->members()) {
            if (F->isEllipsis()) Fs.push_back(mk(Ellipsis, b(&F->ellipsis()), e(&F->ellipsis())));
            else if (!F->id()) continue; // trailing comma
            else if (F->defaultExpr()) Fs.push_back(mk(FormalDef, b(F->id()), e(F->defaultExpr()), F->id()->name(), {go(F->defaultExpr())}));
            else Fs.push_back(mk(ref::Formal, b(F->id()), e(F->id()), F->id()->name()));
          }
          R->Ch.push_back(mk(ref::Formals, b(A->formals()), e(A->formals()), "", Fs));
        }
      }
      R->Ch.push_back(go(L->body()));
      return R;
    }
    case nixf::Node::NK_ExprBinOp: {
      auto *O = static_cast<const ExprBinOp *>(N);
      return mk(Bin, B, E, opName(O->op().op()), {go(O->lhs()), go(O->rhs())});
    }
    case nixf::Node::NK_ExprUnaryOp: {
      auto *O = static_cast<const ExprUnaryOp *>(N);
      return mk(Un, B, E, opName(O->op().op()), {go(O->expr())});
    }
    case nixf::Node::NK_ExprOpHasAttr: {
      auto *O = static_cast<const ExprOpHasAttr *>(N);
      return mk(HasAttr, B, E, "", {go(O->expr()), path(O->attrpath())});
    }
    case nixf::Node::NK_ExprIf: {
      auto *I = static_cast<const ExprIf *>(N);
      return mk(If, B, E, "", {go(I->cond()), go(I->then()), go(I->elseExpr())});
    }
    case nixf::Node::NK_ExprAssert: {
      auto *A = static_cast<const ExprAssert *>(N);
      return mk(Assert, B, E, "", {go(A->cond()), go(A->value())});
    }
    case nixf::Node::NK_ExprWith: {
      auto *W = static_cast<const ExprWith *>(N);
      return mk(With, B, E, "", {go(W->with()), go(W->expr())});
    }
    case nixf::Node::NK_ExprLet: {
      auto *L = static_cast<const ExprLet *>(N);
      auto Ch = binds(L->binds());
      Ch.push_back(go(L->expr()));
      return mk(Let, B, E, "", Ch);
    }
    case nixf::Node::NK_ExprLegacyLet: {
      auto *L = static_cast<const ExprLegacyLet *>(N);
      return mk(LegacyLet, B, E, "", binds(L->attrs() ? L->attrs()->binds() : nullptr));
    }
    default: return mk(NId, B, E, std::string("<") + N->name() + ">");
    }
  }
};
} // namespace

P fromNixf(const nixf::Node *N, std::string_view Src) { return Conv{Src}.go(N); }

void walk(const P &N, const std::function<void(const P &)> &F) {
  F(N);
  for (auto &C : N->Ch) walk(C, F);
}

void canon(const P &R) {
  walk(R, [](const P &N) {
    if (N->K == Int) {
      errno = 0;
      long long V = strtoll(N->S.c_str(), nullptr, 10);
      if (errno == 0) N->S = std::to_string(V);
    } else if (N->K == Float) {
      char Buf[64];
      snprintf(Buf, sizeof Buf, "%.17g", strtod(N->S.c_str(), nullptr));
      N->S = Buf;
    }
  });
}

std::string outside(const P &R, std::string_view Src) {
  std::string W;
  walk(R, [&](const P &N) {
    if (N->K == Call) {
      auto K = N->Ch[0]->K;
      if (K == Int || K == Float || K == Str || K == IndStr || K == Path || K == HomePath || K == Uri || K == Attrs || K == RecAttrs)
        W = "applied literal";
    }
    if (N->K == Int) {
      errno = 0;
      strtoll(N->S.c_str(), nullptr, 10);
      if (errno) W = "integer overflow";
      if (N->E < Src.size() && Src[N->E] == '.') W = "number that libnixf reads as a float";
    }
    if (N->K == Float) {
      if (N->E < Src.size() && (Src[N->E] == 'e' || Src[N->E] == 'E')) W = "float directly followed by e";
    }
    if (N->K == Bin && (N->S == "<|" || N->S == "|>"))
      for (auto &C : N->Ch)
        if (C->K == Bin && (C->S == "<|" || C->S == "|>")) W = "chained pipes";
    if (N->K == NDyn) {
      P X = N->Ch[0];
      while (X->K == Paren) X = X->Ch[0];
      if (X->K == IndStr) W = "indented string as a name";
      if (X->K == Str && !X->Ch.empty() && X->Ch[0]->K == Lit && (X->Ch[0]->S.starts_with(' ') || X->Ch[0]->S.find('\n') != std::string::npos)) W = "blanks in an interpolated name";
    }
    if (N->K == LegacyLet) {
      bool Body = false;
      for (auto &C : N->Ch) {
        if (C->K == Bind) {
          auto &A = C->Ch[0]->Ch[0];
          Body |= (A->K == NId && A->S == "body") || (A->K == NStr && A->Ch.size() == 1 && A->Ch[0]->S == "body");
        } else
          for (auto &A : C->Ch) Body |= A->K == NId && A->S == "body";
      }
      if (!Body) W = "legacy let without body";
    }
  });
  return W;
}
} // namespace ref
