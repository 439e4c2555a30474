// USES: nixf
#include "core/nixutil.h"
#include "gen/gen.h"
#include "ref/conv.h"
#include "ref/scope.h"
using namespace pbt;
using nixf::Diagnostic;

namespace {
std::string rg(size_t B, size_t E) { return std::to_string(B) + "-" + std::to_string(E); }

const nixf::ExprAttrs *asAttrs(const nixf::Expr *E) {
  while (E && E->kind() == nixf::Node::NK_ExprParen) E = static_cast<const nixf::ExprParen *>(E)->expr();
  return E && E->kind() == nixf::Node::NK_ExprAttrs ? static_cast<const nixf::ExprAttrs *>(E) : nullptr;
}

struct Cmp {
  unsigned Merged = 0, Depth = 0;
  void value(const std::string &Path, const ref::P &V, const std::shared_ptr<ref::Set> &Sub, const nixf::Expr *E) {
    check(E != nullptr, "value", Path + " has no value");
    if (V && V->K != ref::Attrs && V->K != ref::RecAttrs && V->K != ref::Paren)
      check(E->lCur().offset() == V->B && E->rCur().offset() == V->E, "value",
            Path + " should have the value at " + rg(V->B, V->E) + ", has " + nu::rangeStr(E->range()));
    if (!Sub) return;
    auto *A = asAttrs(E);
    check(A != nullptr, "value", Path + " should be an attribute set");
    set(Path, *Sub, A->sema());
  }
  void set(const std::string &Path, const ref::Set &M, const nixf::SemaAttrs &S) {
    ++Depth;
    check(M.Rec == S.isRecursive(), "recursive", Path + (M.Rec ? " should be recursive" : " should not be recursive"));
    std::string Want, Got;
    for (auto &[N, A] : M.Static) Want += " '" + N + "'";
    for (auto &[N, A] : S.staticAttrs()) Got += " '" + N + "'";
    check(Want == Got, "names", Path + " should have the names" + Want + ", has" + Got);
    for (auto &[N, A] : M.Static) {
      auto &B = S.staticAttrs().at(N);
      std::string P = Path + "." + N;
      check(B.key().lCur().offset() == A.KB && B.key().rCur().offset() == A.KE, "key", "the name of " + P + " is at " + rg(A.KB, A.KE) + ", not " + nu::rangeStr(B.key().range()));
      auto K = A.Kind == ref::Attr::Plain ? nixf::Attribute::AttributeKind::Plain : A.Kind == ref::Attr::Inh ? nixf::Attribute::AttributeKind::Inherit : nixf::Attribute::AttributeKind::InheritFrom;
      check(B.kind() == K, "kind", P + " is inherited or not");
      if (A.Kind == ref::Attr::Plain) value(P, A.Value, A.Sub, B.value());
      else if (A.Kind == ref::Attr::Inh) {
        check(B.value() && B.value()->kind() == nixf::Node::NK_ExprVar && static_cast<nixf::ExprVar *>(B.value())->id().name() == N, "inherit", P + " is inherited, but not the variable " + N);
      } else {
        check(B.value() && B.value()->kind() == nixf::Node::NK_ExprSelect, "inherit", P + " should be a selection");
        auto &Se = static_cast<nixf::ExprSelect &>(*B.value());
        check(Se.expr().lCur().offset() == A.Value->B && Se.expr().rCur().offset() == A.Value->E && Se.path() && Se.path()->names().size() == 1 && Se.path()->names()[0]->staticName() == N,
              "inherit", P + " should be selected from " + rg(A.Value->B, A.Value->E));
      }
    }
    check(M.Dynamic.size() == S.dynamicAttrs().size(), "dynamic", Path + " should have " + std::to_string(M.Dynamic.size()) + " dynamic attributes, has " + std::to_string(S.dynamicAttrs().size()));
    for (size_t I = 0; I < M.Dynamic.size(); ++I) {
      auto &A = S.dynamicAttrs()[I];
      check(A.key().lCur().offset() == M.Dynamic[I].Name->B, "dynamic", Path + ": dynamic attribute at a wrong place");
      value(Path + ".${}", M.Dynamic[I].Value, M.Dynamic[I].Sub, A.value());
    }
  }
};

void go(Ctx &C, const std::string &Src) {
  C.show("text", Src);
  auto R = ref::parse(Src);
  if (!R.ok() || !ref::outside(R.Root, Src).empty()) throw Discard{};
  std::vector<Diagnostic> Ds;
  auto N = nixf::parse(Src, Ds);
  check(N != nullptr, "no-tree", "no tree");
  auto Sc = ref::resolve(R.Root, Src);
  // Every duplicated name is reported, and nothing else.
  std::multiset<std::string> Want, Got;
  // All sets count, also those that are dropped with a duplicate.
  bool WantDynInh = false;
  std::set<const ref::Node *> Inside;
  ref::walk(R.Root, [&](const ref::P &X) {
    if (X->K == ref::Bind) {
      ref::P V = X->Ch[1];
      while (V->K == ref::Paren) V = V->Ch[0];
      Inside.insert(V.get());
    }
    if (X->K == ref::Inherit || X->K == ref::InheritFrom)
      for (size_t I = X->K == ref::InheritFrom; I < X->Ch.size(); ++I) {
        std::string T;
        WantDynInh |= !ref::staticName(X->Ch[I], T);
      }
    std::vector<ref::Dup> Du;
    if ((X->K == ref::Attrs || X->K == ref::RecAttrs) && !Inside.contains(X.get())) ref::lowerBinds(X->Ch, X->K == ref::RecAttrs, X, Du);
    else if (X->K == ref::LegacyLet) ref::lowerBinds(X->Ch, true, X, Du);
    else if (X->K == ref::Let) {
      auto S = ref::lowerBinds(std::vector<ref::P>(X->Ch.begin(), X->Ch.end() - 1), true, X, Du);
      for (auto &D : S->Dynamic) Want.insert("dynamic in let at " + rg(D.Name->B, D.Name->E));
    } else if (X->K == ref::Lambda && X->HasFormals) {
      std::map<std::string, ref::P> Seen;
      for (auto &F : X->Ch[0]->Ch) {
        if (F->K == ref::Ellipsis) continue;
        auto [It, New] = Seen.insert({F->S, F});
        if (!New) Want.insert("formal at " + rg(F->B, F->B + F->S.size()) + " already at " + rg(It->second->B, It->second->B + F->S.size()));
      }
      if (X->HasArg && Seen.contains(X->S)) Want.insert("argument at " + rg(X->ArgB, X->ArgE));
    }
    for (auto &D : Du) Want.insert("'" + D.Name + "' at " + rg(D.B, D.E) + " already at " + rg(D.PrevB, D.PrevE));
  });
  bool DynInh = false;
  for (auto &D : Ds) {
    if (D.kind() == Diagnostic::DK_DuplicatedAttrName) {
      check(D.args().size() == 1 && D.notes().size() == 1, "form", nu::diagStr(D));
      Got.insert("'" + D.args()[0] + "' at " + nu::rangeStr(D.range()) + " already at " + nu::rangeStr(D.notes()[0].range()));
    } else if (D.kind() == Diagnostic::DK_DuplicatedFormal) {
      check(D.notes().size() == 1, "form", nu::diagStr(D));
      Got.insert("formal at " + nu::rangeStr(D.range()) + " already at " + nu::rangeStr(D.notes()[0].range()));
    } else if (D.kind() == Diagnostic::DK_DuplicatedFormalToArg) Got.insert("argument at " + nu::rangeStr(D.range()));
    else if (D.kind() == Diagnostic::DK_LetDynamic) Got.insert("dynamic in let at " + nu::rangeStr(D.range()));
    else if (D.kind() == Diagnostic::DK_DynamicInherit) DynInh = true;
  }
  if (Want != Got) {
    std::string W, G;
    for (auto &X : Want) if (Want.count(X) > Got.count(X)) W += "\n   " + X;
    for (auto &X : Got) if (Got.count(X) > Want.count(X)) G += "\n   " + X;
    fail("duplicates", "not reported:" + W + "\n  reported in vain:" + G);
  }
  check(DynInh == WantDynInh, "dynamic-inherit", DynInh ? "a valid inherit is reported as dynamic" : "a dynamic inherit is not reported");
  if (!Sc.Dups.empty()) C.label("duplicates");
  for (auto &W : Want) if (W.starts_with("formal")) C.label("duplicated formals");
  unsigned Depth = 0;
  if (!Sc.anyError()) {
    // The merged sets are the same.
    std::map<std::pair<size_t, size_t>, const nixf::ExprAttrs *> At;
    std::map<std::pair<size_t, size_t>, const nixf::Expr *> Lets;
    std::set<const nixf::Node *> Own;
    nu::walk(N.get(), [&](const nixf::Node *X, const nixf::Node *) {
      if (X->kind() == nixf::Node::NK_ExprLet) Own.insert(static_cast<const nixf::ExprLet *>(X)->attrs());
      if (X->kind() == nixf::Node::NK_ExprLegacyLet) Own.insert(static_cast<const nixf::ExprLegacyLet *>(X)->attrs());
      std::pair<size_t, size_t> K{X->lCur().offset(), X->rCur().offset()};
      if (X->kind() == nixf::Node::NK_ExprAttrs && !Own.contains(X)) At[K] = static_cast<const nixf::ExprAttrs *>(X);
      if (X->kind() == nixf::Node::NK_ExprLet || X->kind() == nixf::Node::NK_ExprLegacyLet) Lets[K] = static_cast<const nixf::Expr *>(X);
    });
    Cmp M;
    // Sets that are merged into others are compared with those.
    std::set<const ref::Node *> Values;
    std::function<void(const ref::P &)> Walk = [&](const ref::P &X) {
      std::vector<ref::Dup> Du;
      if (X->K == ref::Bind) {
        ref::P V = X->Ch[1];
        while (V->K == ref::Paren) V = V->Ch[0];
        Values.insert(V.get());
      }
      if ((X->K == ref::Attrs || X->K == ref::RecAttrs) && !Values.contains(X.get())) {
        auto It = At.find({X->B, X->E});
        check(It != At.end(), "set", "no attribute set at " + rg(X->B, X->E));
        M.set("set@" + rg(X->B, X->E), *ref::lowerBinds(X->Ch, X->K == ref::RecAttrs, X, Du), It->second->sema());
      } else if (X->K == ref::Let || X->K == ref::LegacyLet) {
        auto It = Lets.find({X->B, X->E});
        check(It != Lets.end(), "set", "no let at " + rg(X->B, X->E));
        std::vector<ref::P> Bs = X->Ch;
        if (X->K == ref::Let) Bs.pop_back();
        const nixf::ExprAttrs *A = X->K == ref::Let ? static_cast<const nixf::ExprLet *>(It->second)->attrs() : static_cast<const nixf::ExprLegacyLet *>(It->second)->attrs();
        if (Bs.empty()) return;
        check(A != nullptr, "set", "the bindings of the let at " + rg(X->B, X->E) + " are lost");
        M.set("let@" + rg(X->B, X->E), *ref::lowerBinds(Bs, true, X, Du), A->sema());
      }
    };
    ref::walk(R.Root, Walk);
    Depth = M.Depth;
  }
  C.nontrivial(Want.size() > 0 || Depth >= 3);
}

Sub Sets("attribute-sets", 40000, 900000, [](Ctx &C) {
  gen::Opts O;
  O.Budget = 3 + C.S.below(30);
  O.Dups = true;
  O.Strings = false;
  O.Names = {"a", "b", "c"};
  O.Builtins = false;
  gen::G G(C.S, O);
  if (C.S.chance(70)) G.attrs();
  else if (C.S.chance(50)) G.let();
  else G.expr();
  go(C, G.render());
});
// Small sets with simple values, where paths and sets collide often.
struct Dense {
  pbt::Src &S;
  std::string name() {
    static const char *Ids[] = {"a", "b", "c"};
    std::string N = Ids[S.below(S.chance(60) ? 2 : 3)];
    switch (S.weighted({70, 8, 14, 8})) {
    case 1: return "\"" + N + "\"";
    case 2: return "${" + std::string(S.pick({"x", "y", "\"a\" + x"})) + "}";
    case 3: return "${\"" + N + "\"}";
    default: return N;
    }
  }
  std::string value(unsigned D) {
    if (D && S.chance(65)) {
      std::string T = set(D - 1, 15);
      return S.chance(8) ? "(" + T + ")" : T;
    }
    return S.pick({"1", "x", "[ ]", "a"});
  }
  std::string binds(unsigned D) {
    std::string T;
    for (unsigned I = 0, N = S.below(4) + (D > 1); I < N; ++I) {
      unsigned K = S.weighted({80, 10, 10});
      if (K == 0) {
        T += name();
        for (unsigned J = S.weighted({60, 30, 10}); J; --J) T += "." + name();
        T += " = " + value(D) + "; ";
      } else {
        T += K == 1 ? "inherit" : "inherit (x)";
        for (unsigned J = S.below(3); J; --J) T += S.pick({" a", " b", " c", " \"a\""});
        T += "; ";
      }
    }
    return T;
  }
  std::string set(unsigned D, unsigned Rec) { return std::string(S.chance(Rec) ? "rec " : "") + "{ " + binds(D) + "}"; }
};
Sub Small("dense-sets", 60000, 1500000, [](Ctx &C) {
  Dense G{C.S};
  unsigned D = 1 + C.S.below(3);
  switch (C.S.weighted({70, 15, 15})) {
  case 0: return go(C, G.set(D, 25));
  case 1: return go(C, "let " + G.binds(D) + "in 1");
  default: return go(C, "let { " + G.binds(D) + "body = 1; }");
  }
});
Sub Progs("programs", 15000, 400000, [](Ctx &C) {
  gen::Opts O;
  O.Budget = 4 + C.S.below(50);
  go(C, gen::program(C.S, O));
});
} // namespace
namespace pbt {
const char *Rule = "Random attribute sets over few names (nested paths, repeated sets, rec, inherit, dynamic and quoted names, parentheses) compared with a model of how Nix merges them: the merged "
  "sets, and exactly the duplicates it rejects. Non-trivial: distinct texts with a duplicate, or with three or more sets.";
}
