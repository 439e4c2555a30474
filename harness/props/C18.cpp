// USES: server
#include "srv/scoped.h"
#include "ref/core.h"
using namespace pbt;
using namespace srv;
namespace pbt {
const char *Rule = "Random scoped programs; a random name is renamed to a fresh identifier and the edits are applied. The new text is parsed and resolved by the reference: the same uses must refer to the same "
  "definitions and the meaning must be the same. Non-trivial: distinct renames that change two or more places.";
}
namespace {
/// The normal form with the renamed name spelled as before.
std::string meaning(const ref::P &Root) {
  ref::canon(Root);
  auto X = ref::core(Root);
  if (!X) throw Discard{};
  return *X;
}
std::string swap(std::string T, const std::string &From, const std::string &To) {
  for (size_t P = 0; (P = T.find(From, P)) != std::string::npos;) T.replace(P, From.size(), To), P += To.size();
  return T;
}
void go(Ctx &C, const std::string &T) {
  auto &S = C.S;
  C.show("text", T);
  ref::P Root;
  auto Sc = scopesOf(T, &Root);
  const std::string Fresh = S.chance(70) ? "qq" : "q-'_7"; // longer and other lengths than the names in use
  if (T.find(Fresh) != std::string::npos) throw Discard{};
  auto Before = meaning(Root);
  struct Place { Rg At; int Def; bool Use; };
  std::vector<Place> Ps;
  std::set<Rg> Taken;
  for (auto &X : Sc.Vars) {
    Taken.insert({X.B, X.E});
    Ps.push_back({{X.B, X.E}, X.Kind == ref::VarUse::Defined ? X.Def : -1, true});
  }
  for (size_t I = 0; I < Sc.Defs.size(); ++I) {
    auto &D = Sc.Defs[I];
    if (D.Src == ref::Source::With || Taken.contains({D.B, D.E})) continue;
    Ps.push_back({{D.B, D.E}, (int)I, false});
  }
  if (Ps.empty()) throw Discard{};
  std::vector<Place> Bd;
  for (auto &X : Ps) if (X.Def >= 0) Bd.push_back(X);
  auto &V = shared(plainOpts);
  std::string U = "file:///t/ren.nix";
  V.open(U, T);
  unsigned Big = 0;
  for (unsigned N = 1 + S.below(3); N; --N) {
    auto &X = !Bd.empty() && S.chance(80) ? S.pick(Bd) : S.pick(Ps);
    size_t P = cursorIn(S, T, X.At.first, X.At.second);
    C.show("rename", std::to_string(P) + " to " + Fresh);
    auto Q = at(U, T, P);
    auto Prep = V.call("textDocument/prepareRename", Value(Q));
    (*Q.getAsObject())["newName"] = Fresh;
    auto R = V.call("textDocument/rename", std::move(Q));
    check(Prep.Ok == R.Ok, "prepare", "prepareRename and rename disagree: " + Prep.Msg + " / " + R.Msg);
    std::string W = "renaming " + T.substr(X.At.first, X.At.second - X.At.first) + "@" + str(X.At);
    if (X.Def < 0) { // from with, builtin or undefined
      check(!R.Ok, "renames-the-unknown", W + ": " + jg::text(R.Result));
      C.label("refused");
      continue;
    }
    auto &D = Sc.Defs[X.Def];
    if (!R.Ok) {
      // Only inherited names may be refused.
      check(R.Msg.find("inherited") != std::string::npos, "refused", W + ": " + R.Msg);
      C.label("inherited refused");
      continue;
    }
    auto PR = rangeAt(T, Prep.Result);
    check(PR.first >= X.At.first && PR.second <= X.At.second, "prepare-range", W + ": prepareRename gives " + str(PR));
    std::map<std::string, std::string> F{{U, T}};
    applyWorkspaceEdit(R.Result, F);
    auto New = F[U];
    C.note("renamed", New);
    auto R2 = ref::parse(New);
    if (!R2.ok()) fail("rename-breaks-syntax", W + " gives " + New);
    auto Sc2 = ref::resolve(R2.Root, New);
    check(!Sc2.anyError(), "rename-adds-errors", W + " gives " + New);
    // The number of places with the new name.
    check(Sc2.Vars.size() >= Sc.Vars.size(), "rename-loses-uses", W + " gives " + New);
    for (auto &Y : Sc2.Vars) if (Y.Name == Fresh) check(Y.Kind == ref::VarUse::Defined, "rename-unbound", W + " gives " + New);
    std::set<std::string> Und, Und2; // (an inherited-from expression may be copied)
    for (auto &Y : Sc.Vars) if (Y.Kind == ref::VarUse::Undefined) Und.insert(Y.Name);
    for (auto &Y : Sc2.Vars) if (Y.Kind == ref::VarUse::Undefined) Und2.insert(Y.Name);
    check(Und == Und2, "rename-unbound", W + " gives " + New);
    unsigned Named = 0;
    for (auto &Y : Sc2.Defs) if (Y.Name == Fresh) { ++Named; check(Y.Uses.size() == D.Uses.size(), "rename-uses", W + " gives " + New); }
    check(Named == 1, "rename-definition", W + " gives " + New);
    auto After = meaning(R2.Root);
    // Names of rec sets and formals are visible from outside.
    bool Visible = D.Src == ref::Source::Rec || D.Src == ref::Source::FormalNoArg || D.Src == ref::Source::FormalWithArg;
    if (Visible) After = swap(After, Fresh, D.Name);
    if (!Visible && Before != After) fail("rename-changes-meaning", W + " gives " + New + "\n  before " + Before + "\n  after  " + After);
    if (D.Uses.size() >= 1) ++Big;
    if (Visible) C.label("visible name");
  }
  V.close(U);
  V.sync();
  V.forget();
  C.nontrivial(Big);
}
Sub Ren("rename", 5000, 150000, [](Ctx &C) {
  auto O = scopedOpts(C.S);
  O.LegacyLet = false;
  go(C, gen::program(C.S, O));
});
Sub Merged("merged-sets", 2000, 60000, [](Ctx &C) {
  auto O = scopedOpts(C.S);
  O.LegacyLet = false;
  O.Dups = true;
  O.Strings = O.Unicode = O.Paths = false;
  O.Names = {"a", "b", "c"};
  gen::G G(C.S, O);
  if (C.S.chance(50)) G.let();
  else G.attrs();
  go(C, G.render());
});
}
