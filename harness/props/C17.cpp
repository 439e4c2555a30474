// USES: server
#include "srv/scoped.h"
using namespace pbt;
using namespace srv;
namespace pbt {
const char *Rule = "Random scoped programs (let, rec, lambdas, formals, inherit, with, merged sets, Unicode text, CRLF); at every name, definition, references and highlight are compared with a model of Nix "
  "scoping. Non-trivial: distinct texts with two or more names that are bound in the text and used.";
}
namespace {
Rg locOf(const std::string &U, const std::string &T, const Value &V) {
  auto *O = V.getAsObject();
  check(O && O->getString("uri") && O->get("range"), "not-a-location", jg::text(V));
  check(*O->getString("uri") == U, "wrong-document", jg::text(V));
  return rangeAt(T, *O->get("range"));
}
std::multiset<Rg> locs(const std::string &U, const std::string &T, const Value &V) {
  std::multiset<Rg> R;
  if (V == Value(nullptr)) return R;
  if (auto *A = V.getAsArray()) { for (auto &X : *A) R.insert(locOf(U, T, X)); return R; }
  R.insert(locOf(U, T, V));
  return R;
}
std::multiset<Rg> usesOf(const ref::Scopes &Sc, const ref::Def &D) {
  std::multiset<Rg> R;
  for (auto U : D.Uses) R.insert({Sc.Vars[U].B, Sc.Vars[U].E});
  return R;
}
void go(Ctx &C, const std::string &T) {
  auto &S = C.S;
  C.show("text", T);
  auto Sc = scopesOf(T);
  auto &V = shared(plainOpts);
  std::string U = "file:///t/nav.nix";
  V.open(U, T);
  unsigned Bound = 0;
  auto Ask = [&](const char *M, size_t P, const std::string &What) {
    auto R = V.call(M, at(U, T, P));
    return R;
  };
  std::set<Rg> Taken;
  auto CheckDef = [&](const ref::Def &D, size_t P, const std::string &W) {
    auto Want = usesOf(Sc, D);
    auto R = Ask("textDocument/references", P, W);
    check(R.Ok, "references", W + ": " + R.Msg);
    auto Got = locs(U, T, R.Result);
    check(Want == Got, "references", W + " (cursor at " + std::to_string(P) + ") is used at " + strs(Want) + ", the server says " + strs(Got));
    R = Ask("textDocument/documentHighlight", P, W);
    check(R.Ok, "highlight", W + ": " + R.Msg);
    std::multiset<Rg> Reads, Writes;
    check(R.Result.getAsArray(), "highlight", W + ": " + jg::text(R.Result));
    for (auto &X : *R.Result.getAsArray()) {
      auto *O = X.getAsObject();
      check(O && O->get("range") && O->getInteger("kind"), "highlight", W + ": " + jg::text(X));
      (*O->getInteger("kind") == 3 ? Writes : Reads).insert(rangeAt(T, *O->get("range")));
    }
    check(Reads == Want && Writes == std::multiset<Rg>{{D.B, D.E}}, "highlight", W + " (cursor at " + std::to_string(P) + ") should highlight " + strs(Want) + " and " + str({D.B, D.E}) + ", has " + strs(Reads) + " and " + strs(Writes));
  };
  for (auto &X : Sc.Vars) {
    Taken.insert({X.B, X.E});
    if (!S.chance(70)) continue;
    size_t P = cursorIn(S, T, X.B, X.E);
    std::string W = X.Name + "@" + str({X.B, X.E});
    auto R = Ask("textDocument/definition", P, W);
    check(R.Ok, "definition", W + ": " + R.Msg);
    auto Got = locs(U, T, R.Result);
    std::string Says = W + " (cursor at " + std::to_string(P) + "): the server says " + strs(Got);
    switch (X.Kind) {
    case ref::VarUse::Defined: {
      auto &D = Sc.Defs[X.Def];
      check(Got == std::multiset<Rg>{{D.B, D.E}}, "definition", Says + ", it is defined at " + str({D.B, D.E}));
      CheckDef(D, P, W);
      ++Bound;
      break;
    }
    case ref::VarUse::FromWith: {
      bool Ok = Got.size() == 1;
      for (auto &G : Got) {
        bool In = false;
        for (int I : X.Withs) In |= G == Rg{Sc.Defs[I].B, Sc.Defs[I].E};
        Ok &= In;
      }
      check(Ok, "definition", Says + ", it comes from a with");
      auto R2 = Ask("textDocument/references", P, W);
      check(R2.Ok && locs(U, T, R2.Result).contains({X.B, X.E}), "references", W + " is not among its own uses");
      C.label("with");
      break;
    }
    default:
      check(Got.empty(), "definition", Says + ", it has no definition in this text");
    }
  }
  for (auto &D : Sc.Defs) {
    // The name in `inherit x;` is a use of the outer x.
    if (D.Src == ref::Source::With || Taken.contains({D.B, D.E}) || !S.chance(70)) continue;
    size_t P = cursorIn(S, T, D.B, D.E);
    CheckDef(D, P, "definition of " + D.Name + "@" + str({D.B, D.E}));
    auto R = Ask("textDocument/definition", P, "");
    if (R.Ok) for (auto &G : locs(U, T, R.Result)) check(G == Rg{D.B, D.E}, "definition", "the name at " + str({D.B, D.E}) + " should lead to itself or nowhere, leads to " + str(G));
  }
  V.close(U);
  V.sync();
  V.forget();
  C.nontrivial(Bound >= 2);
}
Sub Nav("navigation", 5000, 150000, [](Ctx &C) { go(C, gen::program(C.S, scopedOpts(C.S))); });
}
