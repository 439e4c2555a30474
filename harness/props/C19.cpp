// USES: server
#include "srv/requests.h"
#include "srv/scoped.h"
using namespace pbt;
using namespace srv;
namespace pbt {
const char *Rule = "Random scoped programs over many lines; semantic tokens, document symbols, folding ranges and inlay hints (with a scripted evaluator) are compared with models of them on an "
                   "independent parse. Non-trivial: distinct texts over two or more lines with at least three tokens and one symbol with children or one fold (hints: one package under `with pkgs`).";
}
namespace {
using ref::P;
bool literal(const P &N) {
  for (auto &C : N->Ch) if (C->K != ref::Lit) return false;
  return true;
}
std::string lit(const P &N) {
  std::string R;
  for (auto &C : N->Ch) R += C->S;
  return R;
}
bool lines(const std::string &T, size_t B, size_t E) { return T.substr(B, E - B).find('\n') != std::string::npos; }

// Semantic tokens.
enum { TString = 1, TSelect = 3, TBuiltin, TDefined, TFromWith, TNull = 8, TBool, TAttr, TArg, TFormal };
struct Tok { int Type, Mod; bool Must; };
struct Tokens {
  const std::string &T;
  std::map<Rg, Tok> W;
  void put(size_t B, size_t E, int Ty, int Mod, bool Must) {
    if (!lines(T, B, E)) W[{B, E}] = {Ty, Mod, Must};
  }
  // A name that several bindings share has its token where it stands first.
  void keys(const ref::Set &S) {
    for (auto &[_, A] : S.Static) {
      if (A.Kind != ref::Attr::Plain) continue;
      put(A.KB, A.KE, TAttr, 0, true);
      if (A.Sub) keys(*A.Sub);
    }
    for (auto &D : S.Dynamic) if (D.Sub) keys(*D.Sub);
  }
  void go(const P &N, bool Must) {
    if (Must && (N->K == ref::Attrs || N->K == ref::RecAttrs || N->K == ref::Let || N->K == ref::LegacyLet)) {
      std::vector<ref::Dup> D;
      keys(*ref::lowerBinds({N->Ch.begin(), N->Ch.end() - (N->K == ref::Let)}, true, N, D));
    }
    switch (N->K) {
    case ref::Str: case ref::IndStr:
      if (literal(N)) put(N->B, N->E, TString, 0, Must);
      for (auto &C : N->Ch) if (C->K != ref::Lit) go(C, false);
      return;
    case ref::Select: case ref::SelectOr:
      go(N->Ch[0], Must);
      for (auto &C : N->Ch[1]->Ch) {
        if (C->K == ref::NId) put(C->B, C->E, TSelect, 0, Must);
        else name(C, false);
      }
      if (N->K == ref::SelectOr) go(N->Ch[2], Must);
      return;
    case ref::HasAttr:
      go(N->Ch[0], Must);
      for (auto &C : N->Ch[1]->Ch) {
        if (C->K == ref::NStr && literal(C)) put(C->B, C->E, TString, 0, false);
        name(C, false);
      }
      return;
    case ref::Lambda:
      if (N->HasArg) put(N->ArgB, N->ArgE, TArg, 0, Must);
      if (N->HasFormals)
        for (auto &F : N->Ch[0]->Ch) {
          if (F->K == ref::Ellipsis) continue;
          put(F->B, F->B + F->S.size(), TFormal, 0, Must);
          if (F->K == ref::FormalDef) go(F->Ch[0], false);
        }
      return go(N->Ch.back(), Must);
    case ref::Bind: {
      auto &Path = N->Ch[0]->Ch;
      for (auto &C : Path) {
        std::string S;
        if (ref::staticName(C, S) && !W.contains({C->B, C->E})) put(C->B, C->E, TAttr, 0, false);
        name(C, false);
      }
      return go(N->Ch[1], Must);
    }
    case ref::Inherit: case ref::InheritFrom:
      for (auto &C : N->Ch) {
        if (C->K == ref::NId) put(C->B, C->E, TAttr, 0, false);
        else go(C, false);
      }
      return;
    case ref::NId: case ref::NStr: case ref::NDyn: return name(N, false);
    default:
      for (auto &C : N->Ch) if (C->K != ref::Lit) go(C, Must);
    }
  }
  void name(const P &N, bool Must) {
    for (auto &C : N->Ch) {
      if (C->K == ref::Lit) continue;
      go(C, Must);
    }
  }
};

void tokens(Ctx &C, Server &V, const std::string &U, const std::string &T, const P &Root, const ref::Scopes &Sc, unsigned &Count) {
  auto R = V.call("textDocument/semanticTokens/full", Object{{"textDocument", doc(U)}});
  check(R.Ok && R.Result.getAsObject() && R.Result.getAsObject()->getArray("data"), "tokens", jg::text(R.Result) + R.Msg);
  Tokens W{T, {}};
  W.go(Root, true);
  std::set<Rg> Must;
  for (auto &[K, X] : W.W) if (X.Must) Must.insert(K);
  // Which uses of variables must have a token.
  std::set<Rg> Seen;
  std::function<void(const P &, bool)> Vars = [&](const P &N, bool M) {
    switch (N->K) {
    case ref::Var: if (M) Seen.insert({N->B, N->E}); return;
    case ref::Str: case ref::IndStr: case ref::AttrPath: case ref::Inherit: case ref::InheritFrom: case ref::Formals: case ref::NDyn: case ref::NStr: return;
    default: for (auto &X : N->Ch) Vars(X, M);
    }
  };
  Vars(Root, true);
  for (auto &X : Sc.Vars) {
    Rg K{X.B, X.E};
    Tok Want{TDefined, 0, false};
    // A user's own `true` is not told apart: there is no way to know in general.
    if (X.Name == "true" || X.Name == "false") Want = {TBool, 1, false};
    else if (X.Name == "null") Want = {TNull, 0, false};
    else if (X.Kind == ref::VarUse::Builtin) Want = {TBuiltin, 1, false};
    else if (X.Kind == ref::VarUse::FromWith) Want = {TFromWith, 4, false};
    else if (X.Kind == ref::VarUse::Undefined) Want = {TDefined, 2, false};
    Want.Must = Seen.contains(K);
    if (X.Inherited) { W.W.erase(K); Want.Must = false; }
    W.W[K] = Want;
    if (Want.Must) Must.insert(K);
  }
  auto &A = *R.Result.getAsObject()->getArray("data");
  check(A.size() % 5 == 0, "tokens", "data is no sequence of five numbers");
  int64_t L = 0, Ch = 0, PrevEnd = 0;
  for (size_t I = 0; I < A.size(); I += 5) {
    int64_t F[5];
    for (int K = 0; K < 5; ++K) {
      auto X = A[I + K].getAsInteger();
      check(X && *X >= 0 && *X < (1 << 30), "tokens", "a number of data is " + jg::text(A[I + K]));
      F[K] = *X;
    }
    if (F[0]) L += F[0], Ch = F[1], PrevEnd = 0;
    else Ch += F[1];
    check(Ch >= PrevEnd && F[2] > 0, "tokens", "tokens overlap or are empty at " + std::to_string(L) + ":" + std::to_string(Ch));
    PrevEnd = Ch + F[2];
    Rg K = rangeAt(T, Object{{"start", pos(L, Ch)}, {"end", pos(L, PrevEnd)}});
    auto It = W.W.find(K);
    std::string Says = "the token at " + str(K) + " `" + T.substr(K.first, K.second - K.first) + "`, type " + std::to_string(F[3]) + ", modifiers " + std::to_string(F[4]);
    check(It != W.W.end(), "tokens", Says + " is no token of the text");
    check(It->second.Type == F[3] && It->second.Mod == F[4], "tokens", Says + ", should have type " + std::to_string(It->second.Type) + ", modifiers " + std::to_string(It->second.Mod));
    Must.erase(K);
    ++Count;
  }
  if (!Must.empty()) fail("tokens", "no token at " + str(*Must.begin()) + " `" + T.substr(Must.begin()->first, Must.begin()->second - Must.begin()->first) + "`");
}

// Document symbols.
enum { KField = 8, KProperty = 7, KFunction = 12, KVariable = 13, KConstant = 14, KString = 15, KNumber = 16, KBoolean = 17, KArray = 18, KNull = 21, KEvent = 24 };
struct Sym {
  std::string Name; // empty: any
  int Kind;
  Rg Sel;
  std::optional<Rg> Range;
  bool Deprecated = false, AnyKids = false;
  std::vector<Sym> Kids = {};
};
struct Outline {
  const ref::Scopes &Sc;
  std::map<Rg, const ref::VarUse *> Uses;
  explicit Outline(const ref::Scopes &Sc) : Sc(Sc) { for (auto &X : Sc.Vars) Uses[{X.B, X.E}] = &X; }
  static std::string shown(const std::string &S) { return llvm::StringRef(S).trim(" \t\r\n").empty() ? "" : S; }
  void set(const ref::Set &S, std::vector<Sym> &Out) {
    for (auto &[N, A] : S.Static) {
      Sym Y{shown(N), KField, {A.KB, A.KE}, {}};
      if (A.Kind != ref::Attr::Plain) Y.AnyKids = true;
      else if (A.Sub) set(*A.Sub, Y.Kids);
      else go(A.Value, Y.Kids);
      Out.push_back(std::move(Y));
    }
    for (auto &D : S.Dynamic) {
      Sym Y{"${dynamic attribute}", KField, {D.Name->B, D.Name->E}, {}};
      if (D.Sub) set(*D.Sub, Y.Kids);
      else go(D.Value, Y.Kids);
      Out.push_back(std::move(Y));
    }
  }
  void path(const P &N, std::vector<Sym> &Out) {
    for (auto &C : N->Ch) {
      std::string S;
      bool St = ref::staticName(C, S);
      Out.push_back({St ? shown(S) : "(dynamic attribute name)", KProperty, {C->B, C->E}, Rg{C->B, C->E}});
    }
  }
  void go(const P &N, std::vector<Sym> &Out) {
    Rg R{N->B, N->E};
    switch (N->K) {
    case ref::Str: case ref::IndStr: Out.push_back({literal(N) ? shown(lit(N)) : "(dynamic string)", KString, R, R}); return;
    case ref::Int: Out.push_back({"", KNumber, R, R}); return;
    case ref::Float: Out.push_back({"", KNumber, R, R}); return;
    case ref::Var: {
      Sym Y{N->S, KVariable, R, R};
      auto &X = *Uses.at(R);
      if (N->S == "true" || N->S == "false") Y.Kind = KBoolean;
      else if (N->S == "null") Y.Kind = KNull;
      else if (X.Kind == ref::VarUse::Builtin) Y.Kind = KEvent;
      else if (X.Kind == ref::VarUse::Defined) Y.Kind = KConstant;
      else if (X.Kind == ref::VarUse::Undefined) Y.Deprecated = true;
      Out.push_back(std::move(Y));
      return;
    }
    case ref::Lambda: {
      Rg Sel = N->HasArg ? Rg{N->ArgB, N->ArgE} : Rg{N->Ch[0]->B, N->Ch[0]->E};
      Sym Y{N->HasArg ? N->S : "(anonymous lambda)", KFunction, Sel, R};
      go(N->Ch.back(), Y.Kids);
      Out.push_back(std::move(Y));
      return;
    }
    case ref::List: {
      Sym Y{"{anonymous}", KArray, R, R};
      for (auto &C : N->Ch) go(C, Y.Kids);
      Out.push_back(std::move(Y));
      return;
    }
    case ref::Attrs: case ref::RecAttrs: case ref::LegacyLet: {
      std::vector<ref::Dup> D;
      return set(*ref::lowerBinds(N->Ch, true, N, D), Out);
    }
    case ref::Let: {
      std::vector<ref::Dup> D;
      set(*ref::lowerBinds({N->Ch.begin(), N->Ch.end() - 1}, true, N, D), Out);
      return go(N->Ch.back(), Out);
    }
    case ref::AttrPath: return path(N, Out);
    case ref::Path: case ref::HomePath: case ref::SPath:
      for (auto &C : N->Ch) if (C->K != ref::Lit) go(C, Out);
      return;
    default:
      for (auto &C : N->Ch) if (C->K != ref::Lit) go(C, Out);
    }
  }
};
std::string brief(const Sym &S) { return "`" + S.Name + "` kind " + std::to_string(S.Kind) + " at " + str(S.Sel); }
void sameSyms(const std::string &T, const Array &Got, std::vector<Sym> &Want, const std::string &In) {
  std::vector<bool> Used(Want.size());
  for (auto &G : Got) {
    auto *O = G.getAsObject();
    std::string Gs = jg::text(G).substr(0, 300);
    check(O && O->getString("name") && O->getInteger("kind") && O->get("range") && O->get("selectionRange"), "symbols", Gs);
    auto Nm = *O->getString("name");
    check(!Nm.trim(" \t\r\n").empty(), "blank-name", "a symbol without a name: " + Gs);
    Rg Sel = rangeAt(T, *O->get("selectionRange")), R = rangeAt(T, *O->get("range"));
    check(R.first <= Sel.first && Sel.second <= R.second, "selection", "the selection range " + str(Sel) + " of `" + Nm.str() + "` is outside of its range " + str(R));
    auto Kind = *O->getInteger("kind");
    bool Dep = O->getBoolean("deprecated").value_or(false);
    size_t I = 0;
    for (; I < Want.size(); ++I)
      if (!Used[I] && (Want[I].Name.empty() || Want[I].Name == Nm) && Want[I].Kind == Kind && Want[I].Sel == Sel && (!Want[I].Range || *Want[I].Range == R) && Want[I].Deprecated == Dep) break;
    check(I < Want.size(), "symbols", "`" + Nm.str() + "` kind " + std::to_string(Kind) + (Dep ? " deprecated" : "") + " at " + str(Sel) + " in " + str(R) + " is not expected in " + In);
    Used[I] = true;
    static const Array None;
    auto *K = O->getArray("children");
    if (!Want[I].AnyKids) sameSyms(T, K ? *K : None, Want[I].Kids, brief(Want[I]));
  }
  for (size_t I = 0; I < Want.size(); ++I)
    if (!Used[I]) fail("symbols", brief(Want[I]) + " is missing in " + In);
}
bool deep(const std::vector<Sym> &V) {
  for (auto &S : V) if (!S.Kids.empty()) return true;
  return false;
}

// Folding ranges.
void folds(const std::string &T, const P &N, std::multiset<Rg> &Must, std::multiset<Rg> &May) {
  auto Add = [&](std::multiset<Rg> &M, size_t B, size_t E) { if (lines(T, B, E)) M.insert({B, E}); };
  auto Any = [&](const P &X) { // wherever, it may be folded
    std::multiset<Rg> A;
    folds(T, X, A, May);
    May.insert(A.begin(), A.end());
  };
  switch (N->K) {
  case ref::Str: case ref::IndStr: Add(Must, N->B, N->E); return;
  case ref::NStr: Add(May, N->B, N->E); return;
  case ref::Lambda:
    Add(Must, N->B, N->E);
    if (N->HasFormals) for (auto &F : N->Ch[0]->Ch) for (auto &C : F->Ch) Any(C);
    return folds(T, N->Ch.back(), Must, May);
  case ref::Attrs: case ref::RecAttrs: case ref::List: case ref::Let: case ref::LegacyLet: case ref::With: case ref::If:
    Add(Must, N->B, N->E);
    if (N->K == ref::LegacyLet) Add(May, N->B, N->E);
    if (N->K == ref::Let) { // its bindings
      size_t E = N->Ch.size() > 1 ? N->Ch[N->Ch.size() - 2]->E : N->B + 3;
      for (size_t X = E; X <= N->Ch.back()->B && X <= E + 4; ++X) Add(May, N->B, X);
      for (size_t B = N->B; B <= N->Ch[0]->B; ++B) Add(May, B, E), Add(May, B, E + 1);
    }
    break;
  default:;
  }
  for (auto &C : N->Ch) if (C->K != ref::Lit) folds(T, C, Must, May);
}

Sub Structure("structure", 3500, 100000, [](Ctx &C) {
  auto &S = C.S;
  auto O = scopedOpts(S);
  O.NewLines = S.chance(85);
  O.Budget = 8 + S.below(40);
  O.BuiltinPct = S.below(15);
  auto T = gen::program(S, O);
  C.show("text", T);
  P Root;
  auto Sc = scopesOf(T, &Root);
  auto &V = shared(plainOpts);
  std::string U = "file:///t/str.nix";
  V.open(U, T);
  unsigned Toks = 0;
  tokens(C, V, U, T, Root, Sc, Toks);
  auto R = V.call("textDocument/documentSymbol", Object{{"textDocument", doc(U)}});
  check(R.Ok && R.Result.getAsArray(), "symbols", jg::text(R.Result) + R.Msg);
  Outline Ol(Sc);
  std::vector<Sym> Want;
  Ol.go(Root, Want);
  sameSyms(T, *R.Result.getAsArray(), Want, "the document");
  R = V.call("textDocument/foldingRange", Object{{"textDocument", doc(U)}});
  check(R.Ok && R.Result.getAsArray(), "folds", jg::text(R.Result) + R.Msg);
  std::multiset<Rg> Must, May;
  folds(T, Root, Must, May);
  size_t NF = Must.size();
  for (auto &X : *R.Result.getAsArray()) {
    auto *F = X.getAsObject();
    check(F && F->getInteger("startLine") && F->getInteger("endLine"), "folds", jg::text(X));
    check(*F->getInteger("startLine") < *F->getInteger("endLine"), "folds", "nothing to fold: " + jg::text(X));
    Rg K = rangeAt(T, Object{{"start", pos(*F->getInteger("startLine"), F->getInteger("startCharacter").value_or(0))},
                             {"end", pos(*F->getInteger("endLine"), F->getInteger("endCharacter").value_or(0))}});
    if (auto It = Must.find(K); It != Must.end()) { Must.erase(It); continue; }
    auto It = May.find(K);
    check(It != May.end(), "folds", "the fold " + str(K) + " is none of the text");
    May.erase(It);
  }
  if (!Must.empty()) fail("folds", "no fold for " + str(*Must.begin()));
  V.close(U);
  V.sync();
  V.forget();
  C.nontrivial(Toks >= 3 && T.find('\n') != T.npos && (deep(Want) || NF));
});

Sub Hints("inlay-hints", 1500, 40000, [](Ctx &C) {
  auto &S = C.S;
  static const std::vector<std::string> Pk{"foo", "bar", "a", "b", "pkgs", "lib", "zé"};
  auto O = scopedOpts(S);
  O.With = true;
  O.UndefPct = 30 + S.below(30);
  O.Dups = false;
  O.NewLines = S.chance(40);
  O.Names = {"pkgs", "foo", "a", "b", "lib"};
  std::string T;
  for (unsigned N = 1 + S.below(3); N; --N) T += S.pick({"with pkgs; ", "with pkgs;\n", "with pkgs; [ foo ] ++ ", "{ pkgs, ... }: ", "with lib; ", "pkgs: ", "with (pkgs); ", "with pkgs.a; ", "let pkgs = 1; in "});
  T += gen::program(S, O);
  C.show("text", T);
  P Root;
  auto Sc = scopesOf(T, &Root);
  auto &V = shared(plainOpts);
  static std::map<std::string, std::string> Ver;
  static Server *Known = nullptr;
  if (Known != &V) { // the world stays the same for all cases
    Known = &V;
    Ver = {{"foo", "1.2.3"}, {"a", ""}, {"lib", "24.05"}, {"b", "0-unstable é"}};
    Object Info;
    for (auto &[N, X] : Ver) Info[N] = Object{{"Meta", Object{{"Type", 1}, {"Location", nullptr}}}, {"PackageDesc", Object{{"Version", X}, {"Name", N}}}, {"ValueDesc", nullptr}};
    Info["pkgs"] = Object{{"Meta", Object{{"Type", 1}, {"Location", nullptr}}}, {"PackageDesc", Object{{"Name", "p"}}}, {"ValueDesc", nullptr}};
    V.configure(Object{{"nixpkgs", Object{{"expr", jg::text(Object{{"info", std::move(Info)}})}}}});
  }
  std::string U = "file:///t/hint.nix";
  V.open(U, T);
  size_t A = 0, B = T.size();
  if (S.chance(50)) {
    A = anyOff(S, T), B = anyOff(S, T);
    if (A > B) std::swap(A, B);
  }
  C.show("range", str({A, B}));
  auto R = V.call("textDocument/inlayHint", Object{{"textDocument", doc(U)}, {"range", Object{{"start", posAt(T, A)}, {"end", posAt(T, B)}}}});
  check(R.Ok && R.Result.getAsArray(), "hints", jg::text(R.Result) + R.Msg);
  std::map<size_t, std::string> Must, May;
  for (auto &X : Sc.Vars) {
    if (X.Kind != ref::VarUse::FromWith || !Ver.contains(X.Name) || X.Inherited) continue;
    bool Pkgs = false;
    for (int W : X.Withs) {
      auto &E = Sc.Defs[W].At->Ch[0];
      Pkgs |= E->K == ref::Var && E->S == "pkgs";
    }
    bool Paren = false;
    for (int W : X.Withs) {
      auto E = Sc.Defs[W].At->Ch[0];
      while (E->K == ref::Paren) E = E->Ch[0];
      Paren |= E->K == ref::Var && E->S == "pkgs";
    }
    if (Paren && X.B <= B && X.E >= A) May[X.E] = ": " + Ver[X.Name];
    if (Pkgs && X.B >= A && X.E <= B) Must[X.E] = ": " + Ver[X.Name];
  }
  size_t Some = Must.size();
  for (auto &X : *R.Result.getAsArray()) {
    auto *H = X.getAsObject();
    check(H && H->get("position") && H->getString("label"), "hints", jg::text(X));
    size_t At = offAt(T, *H->get("position"));
    auto It = May.find(At);
    check(It != May.end(), "hints", "there should be no hint at " + std::to_string(At) + ": " + H->getString("label")->str());
    check(It->second == *H->getString("label"), "hints", "the hint at " + std::to_string(At) + " should be `" + It->second + "`, is `" + H->getString("label")->str() + "`");
    May.erase(It);
    Must.erase(At);
  }
  if (!Must.empty()) fail("hints", "no hint at " + std::to_string(Must.begin()->first));
  V.close(U);
  V.sync();
  V.forget();
  C.label(Some ? "hints" : "no hints");
  C.nontrivial(Some >= 1);
});
}
