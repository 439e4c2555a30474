// USES: nixf
#include "core/nixutil.h"
#include "gen/gen.h"
#include "ref/conv.h"
#include "ref/scope.h"
using namespace pbt;
using nixf::Diagnostic;

namespace {
std::string rg(size_t B, size_t E) { return std::to_string(B) + "-" + std::to_string(E); }

void go(Ctx &C, const std::string &Src) {
  C.show("text", Src);
  auto R = ref::parse(Src);
  if (!R.ok() || !ref::outside(R.Root, Src).empty()) throw Discard{};
  auto Sc = ref::resolve(R.Root, Src, true);
  if (Sc.anyError()) throw Discard{};
  std::vector<Diagnostic> Ds;
  auto N = nixf::parse(Src, Ds);
  check(N != nullptr, "no-tree", "no tree");
  size_t Mark = Ds.size();
  nixf::VariableLookupAnalysis A(Ds);
  A.runOnAST(*N);
  std::multiset<std::string> Want, Got;
  for (size_t I = Mark; I < Ds.size(); ++I) {
    std::string S = std::string(Ds[I].sname()) + "@" + nu::rangeStr(Ds[I].range());
    for (auto &X : Ds[I].args()) S += " " + X;
    Got.insert(S);
  }
  std::map<std::pair<size_t, size_t>, const ref::VarUse *> At;
  for (auto &V : Sc.Vars) {
    At[{V.B, V.E}] = &V;
    if (V.Kind != ref::VarUse::Undefined) continue;
    if (ref::isPrefixOnly(V.Name)) Want.insert("sema-primop-needs-prefix@" + rg(V.B, V.E));
    else Want.insert("sema-undefined-variable@" + rg(V.B, V.E) + " " + V.Name);
  }
  for (auto &D : Sc.Defs) {
    auto P = rg(D.B, D.E);
    if (D.Src == ref::Source::With) {
      if (D.Uses.empty()) Want.insert("sema-extra-with@" + P);
      continue;
    }
    if (ref::isGlobalPrimOp(D.Name) && !D.FromBuiltins) Want.insert("sema-primop-overridden@" + P + " " + D.Name);
    if (ref::isConstant(D.Name)) Want.insert("sema-constant-overridden@" + P + " " + D.Name);
    if (!D.Uses.empty()) continue;
    if (D.Src == ref::Source::Let) Want.insert("sema-unused-def-let@" + P + " " + D.Name);
    if (D.Src == ref::Source::FormalNoArg) Want.insert("sema-unused-def-lambda-noarg-formal@" + P + " " + D.Name);
    if (D.Src == ref::Source::FormalWithArg) Want.insert("sema-unused-def-lambda-witharg-formal@" + P + " " + D.Name);
    if (D.Src == ref::Source::ArgWithFormals) Want.insert("sema-unused-def-lambda-witharg-arg@" + P + " " + D.Name);
  }
  for (auto &S : Sc.Of) {
    if (S.Kind == ref::ScopeInfo::Rec) {
      bool Live = false;
      for (int D : S.Defs) Live |= !Sc.Defs[D].Uses.empty();
      if (!Live) Want.insert("sema-extra-rec@" + rg(S.B, S.B + 3));
    }
  }
  // `builtins.x`
  ref::walk(R.Root, [&](const ref::P &X) {
    if (X->K != ref::Select || X->Ch[0]->K != ref::Var || X->Ch[0]->S != "builtins" || X->Ch[1]->Ch.size() != 1) return;
    auto It = At.find({X->Ch[0]->B, X->Ch[0]->E});
    if (It == At.end() || It->second->Kind != ref::VarUse::Builtin) return;
    auto &Nm = X->Ch[1]->Ch[0];
    std::string S;
    if (!ref::staticName(Nm, S)) return;
    if (S == "builtins" || (S[0] != '_' && ref::isConstant(S)) || (!S.starts_with("__") && ref::isConstant("__" + S))) return;
    if (ref::isGlobalPrimOp(S) && !S.starts_with("__")) {
      if (!It->second->Env.contains(S)) Want.insert("sema-primop-removed-prefix@" + rg(X->Ch[0]->B, X->Ch[0]->E));
    } else if (S.starts_with("__") || !ref::isPrefixOnly(S)) Want.insert("sema-primop-unknown@" + rg(Nm->B, Nm->E) + " " + S);
  });
  // `let inherit (builtins) x; in`
  for (auto &S : Sc.Of) {
    if (S.Kind != ref::ScopeInfo::Let) continue;
    bool Own = false;
    std::set<std::string> Mine;
    for (int D : S.Defs) Own |= Sc.Defs[D].Name == "builtins", Mine.insert(Sc.Defs[D].Name);
    if (Own) continue;
    for (int D : S.Defs) {
      auto &De = Sc.Defs[D];
      if (!De.FromBuiltins || !ref::isGlobalPrimOp(De.Name) || De.Name.starts_with("__")) continue;
      // Scopes around the let: those that enclose it and bind the name.
      bool Shadow = false;
      for (auto &O : Sc.Of) {
        if (&O == &S || O.B > S.B || O.E < S.E || (O.B == S.B && O.E == S.E)) continue;
        if (O.Kind == ref::ScopeInfo::With) continue;
        for (int X : O.Defs) Shadow |= Sc.Defs[X].Name == De.Name || Sc.Defs[X].Name == "builtins";
      }
      if (!Shadow) Want.insert("sema-primop-removed-prefix@" + rg(De.B, De.E));
    }
  }
  if (Want != Got) {
    std::string W, G;
    for (auto &X : Want) if (Want.count(X) > Got.count(X)) W += "\n   " + X;
    for (auto &X : Got) if (Got.count(X) > Want.count(X)) G += "\n   " + X;
    fail("diagnostics", "not reported:" + W + "\n  reported in vain:" + G);
  }
  for (auto &X : Want) C.label(X.substr(0, X.find('@')));
  C.nontrivial(Want.size() >= 2);
}

Sub Scoped("scoped-programs", 40000, 900000, [](Ctx &C) {
  gen::Opts O;
  O.Scoped = true;
  O.Budget = 4 + C.S.below(36);
  O.Strings = C.S.chance(30);
  O.Paths = O.Uris = false;
  O.Shadow = C.S.chance(50);
  O.UndefPct = C.S.below(20);
  O.BuiltinPct = C.S.chance(50) ? 12 : 0;
  go(C, gen::program(C.S, O));
});
Sub Merged("merged-sets", 15000, 400000, [](Ctx &C) {
  gen::Opts O;
  O.Scoped = true;
  O.Dups = true;
  O.Strings = O.Paths = O.Uris = false;
  O.Budget = 4 + C.S.below(24);
  O.Names = {"a", "b", "c", "map"};
  O.BuiltinPct = C.S.chance(40) ? 10 : 0;
  gen::G G(C.S, O);
  if (C.S.chance(60)) G.let();
  else G.expr();
  go(C, G.render());
});
} // namespace
namespace pbt {
const char *Rule = "Random programs; the warnings and errors about names (undefined, unused, needless rec and with, overridden and misspelt builtins) must be exactly those a model of Nix scoping "
  "derives. Non-trivial: distinct programs that should get two or more of them.";
}
