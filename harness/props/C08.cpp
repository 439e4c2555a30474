// USES: nixf
#include "core/nixutil.h"
#include "gen/gen.h"
#include "ref/conv.h"
#include "ref/scope.h"
using namespace pbt;
using VLA = nixf::VariableLookupAnalysis;
using nixf::Definition;

namespace {
using Rg = std::pair<size_t, size_t>;
Rg rg(const nixf::Node &N) { return {N.lCur().offset(), N.rCur().offset()}; }
std::string str(Rg R) { return std::to_string(R.first) + "-" + std::to_string(R.second); }

Definition::DefinitionSource source(ref::Source S) {
  switch (S) {
  case ref::Source::Let: return Definition::DS_Let;
  case ref::Source::Rec: return Definition::DS_Rec;
  case ref::Source::Arg: return Definition::DS_LambdaArg;
  case ref::Source::FormalNoArg: return Definition::DS_LambdaNoArg_Formal;
  case ref::Source::FormalWithArg: return Definition::DS_LambdaWithArg_Formal;
  case ref::Source::ArgWithFormals: return Definition::DS_LambdaWithArg_Arg;
  case ref::Source::With: return Definition::DS_With;
  }
  return Definition::DS_With;
}

void go(Ctx &C, const std::string &Src) {
  C.show("text", Src);
  auto R = ref::parse(Src);
  if (!R.ok() || !ref::outside(R.Root, Src).empty()) throw Discard{};
  auto Sc = ref::resolve(R.Root, Src, true);
  if (Sc.anyError()) throw Discard{};
  std::vector<nixf::Diagnostic> Ds;
  auto N = nixf::parse(Src, Ds);
  check(N != nullptr, "no-tree", "no tree");
  VLA A(Ds);
  A.runOnAST(*N);
  std::map<Rg, const nixf::ExprVar *> Vars;
  std::map<Rg, std::vector<const nixf::Node *>> Keys;
  std::function<void(const nixf::SemaAttrs &)> Sema = [&](const nixf::SemaAttrs &S) {
    for (auto &[Nm, At] : S.staticAttrs())
      if (At.kind() == nixf::Attribute::AttributeKind::Inherit && At.value()->kind() == nixf::Node::NK_ExprVar) Vars[rg(*At.value())] = static_cast<nixf::ExprVar *>(At.value());
  };
  nu::walk(N.get(), [&](const nixf::Node *X, const nixf::Node *) {
    Keys[rg(*X)].push_back(X);
    if (X->kind() == nixf::Node::NK_ExprVar) Vars[rg(*X)] = static_cast<const nixf::ExprVar *>(X);
    if (X->kind() == nixf::Node::NK_ExprAttrs) Sema(static_cast<const nixf::ExprAttrs *>(X)->sema());
  });
  unsigned Interesting = 0;
  for (auto &V : Sc.Vars) {
    auto It = Vars.find({V.B, V.E});
    std::string W = V.Name + "@" + str({V.B, V.E});
    check(It != Vars.end(), "no-variable", W + " is not a variable of the tree");
    auto Q = A.query(*It->second);
    auto Has = [&] {
      switch (Q.Kind) {
      case VLA::LookupResultKind::Undefined: return std::string("undefined");
      case VLA::LookupResultKind::NoSuchVar: return std::string("not known");
      case VLA::LookupResultKind::FromWith: return "from the with at " + str(rg(*Q.Def->syntax()));
      case VLA::LookupResultKind::Defined: return Q.Def->isBuiltin() ? std::string("a builtin") : "defined at " + str(rg(*Q.Def->syntax()));
      }
      return std::string();
    }();
    switch (V.Kind) {
    case ref::VarUse::Undefined: check(Q.Kind == VLA::LookupResultKind::Undefined, "undefined", W + " is undefined, the analysis says " + Has); break;
    case ref::VarUse::Builtin: check(Q.Kind == VLA::LookupResultKind::Defined && Q.Def->isBuiltin(), "builtin", W + " is a builtin, the analysis says " + Has); break;
    case ref::VarUse::Defined: {
      auto &D = Sc.Defs[V.Def];
      check(Q.Kind == VLA::LookupResultKind::Defined && !Q.Def->isBuiltin() && rg(*Q.Def->syntax()) == Rg{D.B, D.E}, "definition", W + " refers to " + str({D.B, D.E}) + ", the analysis says " + Has);
      check(Q.Def->source() == source(D.Src), "source", W + ": the kind of its definition is wrong");
      ++Interesting;
      break;
    }
    case ref::VarUse::FromWith: {
      auto &D = Sc.Defs[V.Withs.back()];
      check(Q.Kind == VLA::LookupResultKind::FromWith && rg(*Q.Def->syntax()) == Rg{D.B, D.E}, "with", W + " may come from the with at " + str({D.B, D.E}) + ", the analysis says " + Has);
      std::string Want, Got;
      for (int I : V.Withs) Want += " " + std::to_string(Sc.Defs[I].B);
      for (auto *X : A.getWithScopes(*It->second)) Got += " " + std::to_string(X->lCur().offset());
      check(Want == Got, "with-scopes", W + " may come from the with at" + Want + ", the analysis says" + Got);
      ++Interesting;
      break;
    }
    }
    if (V.Kind != ref::VarUse::FromWith) check(A.getWithScopes(*It->second).empty(), "with-scopes", W + " does not come from a with");
    // The names in scope there.
    auto *E = A.env(It->second);
    check(E != nullptr, "env", "no scope is known at " + W);
    std::map<std::string, std::string> Want, Got;
    for (auto &[Nm, D] : V.Env) Want[Nm] = str({Sc.Defs[D].B, Sc.Defs[D].E});
    for (; E; E = E->parent())
      for (auto &[Nm, D] : E->defs())
        if (D->syntax()) Got.insert({Nm, str(rg(*D->syntax()))});
    if (Want != Got) {
      std::string S = "names in scope at " + W + ":";
      for (auto &[K, X] : Want) if (Got[K] != X) S += "\n   " + K + " should be from " + X + ", is from " + Got[K];
      for (auto &[K, X] : Got) if (!X.empty() && !Want.contains(K)) S += "\n   " + K + " is not in scope, has " + X;
      fail("env", S);
    }
  }
  // Definitions know exactly their uses.
  for (auto &D : Sc.Defs) {
    const Definition *Got = nullptr;
    for (auto *K : Keys[{D.B, D.E}])
      if (auto *X = A.toDef(*K)) Got = X;
    std::string W = D.Name + "@" + str({D.B, D.E});
    check(Got != nullptr, "no-definition", W + " is not known as a definition");
    std::multiset<Rg> Want, Have;
    for (auto U : D.Uses) Want.insert({Sc.Vars[U].B, Sc.Vars[U].E});
    for (auto *U : Got->uses()) Have.insert(rg(*U));
    if (Want != Have) {
      std::string S = "uses of " + W + ": should be";
      for (auto &X : Want) S += " " + str(X);
      S += ", are";
      for (auto &X : Have) S += " " + str(X);
      fail("uses", S);
    }
  }
  if (Interesting) C.label("bound variables");
  C.nontrivial(Interesting >= 2 && Sc.Of.size() >= 2);
}

Sub Scoped("scoped-programs", 30000, 900000, [](Ctx &C) {
  gen::Opts O;
  O.Scoped = true;
  O.Budget = 4 + C.S.below(40);
  O.Strings = C.S.chance(30);
  O.Paths = O.Uris = false;
  O.Shadow = C.S.chance(30);
  O.UndefPct = C.S.below(20);
  O.BuiltinPct = C.S.chance(30) ? 8 : 0;
  if (C.S.chance(40)) O.Names = {"a", "b", "c"};
  go(C, gen::program(C.S, O));
});
Sub Merged("merged-sets", 20000, 500000, [](Ctx &C) {
  gen::Opts O;
  O.Scoped = true;
  O.Dups = true;
  O.Strings = O.Paths = O.Uris = false;
  O.Budget = 4 + C.S.below(24);
  O.Names = {"a", "b", "c"};
  O.UndefPct = C.S.below(30);
  gen::G G(C.S, O);
  if (C.S.chance(60)) G.let();
  else if (C.S.chance(50)) G.attrs();
  else G.expr();
  go(C, G.render());
});
} // namespace
namespace pbt {
const char *Rule = "Random programs with nested let, rec, with, lambdas, inherit and merged sets; every variable's resolution, every definition's uses, the scopes of with and the names in scope are "
  "compared with a model of Nix scoping. Non-trivial: distinct programs with two or more scopes and two or more variables bound in them.";
}
