// USES: server
#include "srv/actions.h"
using namespace pbt;
using namespace srv;
namespace pbt {
const char *Rule = "Random programs with known scopes in the running server; `with` to `let`, extraction to a file and added formals are requested at random places, applied (with the new file read back through `import`), "
                   "and the program compared with the one before in a normal form of meaning. Plain cases must be offered. Non-trivial: distinct applied actions.";
}
namespace {
std::string one(Src &S, std::initializer_list<const char *> L) { return *(L.begin() + S.below(L.size())); }
Server &server() { return shared(plainOpts); }
std::string nm(Src &S) { return one(S, {"a", "b", "c", "f", "x", "x"}); }
std::string expr(Src &S, unsigned D);
std::string atom(Src &S, unsigned D) {
  switch (S.weighted({5, 2, D ? 3u : 0u, D ? 3u : 0u, D ? 2u : 0u, D ? 2u : 0u, D ? 1u : 0u})) {
  case 0: return nm(S);
  case 1: return one(S, {"1", "\"s\"", "./p", "map", "{ }", "[ ]"});
  case 2: {
    std::string R = S.chance(25) ? "rec {" : "{";
    for (unsigned N = S.below(4); N; --N)
      switch (S.weighted({5, 3, 2, 2})) {
      case 0: R += one(S, {" ", "\n "}) + nm(S) + one(S, {" = ", "="}) + expr(S, D - 1) + ";"; break;
      case 1: R += " " + nm(S) + "." + nm(S) + (S.chance(30) ? "." + nm(S) : "") + " = " + expr(S, D - 1) + ";"; break;
      case 2: R += " inherit " + nm(S) + ";"; break;
      default: R += " inherit (" + expr(S, D - 1) + ") " + nm(S) + ";"; break;
      }
    return R + " }";
  }
  case 3: return "[" + one(S, {"", " "}) + atom(S, D - 1) + " " + atom(S, D - 1) + "]";
  case 4: return "(" + expr(S, D - 1) + ")";
  case 5: return atom(S, D - 1) + "." + nm(S) + (S.chance(40) ? " or " + atom(S, D - 1) : "");
  default: return "\"q${" + expr(S, D - 1) + "}\"";
  }
}
std::string expr(Src &S, unsigned D) {
  if (!D) return atom(S, 0);
  switch (S.weighted({4, 3, 4, 3, 4, 2, 3, 1, 1, 1})) {
  case 0: return atom(S, D);
  case 1: return atom(S, D - 1) + one(S, {" ", "  "}) + atom(S, D - 1);
  case 2: return "with " + (S.chance(70) ? one(S, {"x", "a", "b.c", "{ a = 1; }", "(f x)", "f x", "{ inherit b; }"}) : expr(S, D - 1)) + one(S, {"; ", ";"}) + expr(S, D - 1);
  case 3: {
    std::string R = "let";
    for (unsigned N = 1 + S.below(2); N; --N) R += " " + (S.chance(20) ? "inherit " + nm(S) : S.chance(10) ? std::string("import = ") + expr(S, D - 1) : S.chance(15) ? nm(S) + "." + nm(S) + " = " + expr(S, D - 1) : nm(S) + " = " + expr(S, D - 1)) + ";";
    return R + " in " + expr(S, D - 1);
  }
  case 4: {
    std::string F;
    switch (S.below(9)) {
    case 0: F = nm(S); break;
    case 1: F = one(S, {"{ }", "{}", "{ /* n */ }", "{ # n\n }"}); break;
    case 2: F = one(S, {"{ ... }", "{...}", "{ a, ... }", "{ b, c ? x, ... }", "{ b, # n\n ... }"}); break;
    case 3: F = "{ " + nm(S) + " ? " + expr(S, D - 1) + " }"; break;
    case 4: F = one(S, {"{ a, }", "{ a ? b, }", "{ a,b }", "{ a # n\n }", "{ a\n, b\n, c\n}"}); break;
    case 5: F = one(S, {"x@{ }", "{ a }@x", "{ ... } @ b", "a@{ ... }"}); break;
    default: F = "{ " + nm(S) + " }";
    }
    return F + one(S, {": ", ": ", ":"}) + expr(S, D - 1);
  }
  case 5: return "if " + expr(S, D - 1) + " then " + expr(S, D - 1) + " else " + expr(S, D - 1);
  case 6: return atom(S, D - 1) + one(S, {" + ", "+", " // ", "//", "++", " -> ", "/", " - ", "-"}) + atom(S, D - 1);
  case 7: return one(S, {"!", "-"}) + atom(S, D - 1);
  case 8: return atom(S, D - 1) + " ? " + nm(S);
  default: return "assert " + expr(S, D - 1) + "; " + expr(S, D - 1);
  }
}
std::string program(Src &S) {
  if (S.chance(25)) {
    auto O = scopedOpts(S);
    O.Dups = S.chance(30);
    return gen::program(S, O);
  }
  return one(S, {"", "", "", "{ f, x }: ", "let x = 1; in ", "with x; "}) + expr(S, 3 + S.below(2));
}
struct Prog {
  std::string T, U, Before;
  ref::P Root;
  ref::Scopes Sc;
};
void all(const ref::P &N, const std::function<void(const ref::P &, const ref::P &)> &F, const ref::P &Up = nullptr) {
  F(N, Up);
  for (auto &C : N->Ch) all(C, F, N);
}
/// `inherit (e);` has no attribute, and no one looks at its expression.
bool hasEmpty(const ref::P &Root) {
  bool R = false;
  all(Root, [&](const ref::P &N, const ref::P &) { R |= N->K == ref::InheritFrom && N->Ch.size() == 1; });
  return R;
}
Prog start(Ctx &C, bool InnermostWith) {
  Prog P;
  P.T = program(C.S);
  C.show("text", P.T);
  P.Sc = scopesOf(P.T, &P.Root);
  auto M = meaning(P.T, {}, InnermostWith);
  if (!M) throw Discard{};
  P.Before = *M;
  P.U = "file:///t/" + one(C.S, {"main", "a", "extracted-list"}) + ".nix";
  return P;
}
void stop(Prog &P) {
  server().close(P.U);
  server().sync();
  server().forget();
}

Sub Withs("with-to-let", 3500, 100000, [](Ctx &C) {
  auto &S = C.S;
  auto P = start(C, true);
  std::vector<ref::P> L;
  all(P.Root, [&](const ref::P &N, const ref::P &) { if (N->K == ref::With) L.push_back(N); });
  if (L.empty()) throw Discard{};
  server().open(P.U, P.T);
  unsigned K = 0;
  for (auto &N : L) {
    size_t At = N->B + 1 + S.below(3); // what comes before may touch the start
    bool Found = false;
    for (auto &A : actionsAt(server(), P.U, P.T, At, At))
      if (A.titled("Convert `with`")) {
        check(!Found, "twice", "offered twice");
        Found = true;
        check(A.is("refactor"), "kind", A.Title + " has kind " + A.Kind);
        keepsMeaning(A, P.U, P.T, P.Before, true);
        ++K;
      }
    // Must be offered: the only with around all names it gives, which do not occur in its source.
    std::set<std::string> Names, In;
    bool Only = true;
    for (auto &V : P.Sc.Vars) {
      if (V.B >= N->Ch[0]->B && V.E <= N->Ch[0]->E) In.insert(V.Name);
      if (V.Kind != ref::VarUse::FromWith) continue;
      bool Mine = false;
      for (auto W : V.Withs) Mine |= P.Sc.Defs[W].B == N->B;
      if (Mine) Names.insert(V.Name), Only &= V.Withs.size() == 1;
    }
    for (auto &X : Names) Only &= !In.count(X);
    check(Found || !Only || hasEmpty(P.Root) || Names.empty(), "offered", "not offered at " + std::to_string(At));
    check(!Found || !Names.empty(), "offered", "offered although nothing comes from it");
    C.label(Found ? "converted" : Names.empty() ? "unused" : "refused");
  }
  stop(P);
  C.nontrivial(K);
});

Sub Extract("extract-to-file", 5000, 150000, [](Ctx &C) {
  auto &S = C.S;
  auto P = start(C, false);
  server().open(P.U, P.T);
  auto Nodes = nodesOf(P.Root, P.T);
  unsigned K = 0;
  for (unsigned I = 5; I--;) {
    auto [B, E] = S.pick(Nodes);
    size_t X = B, Y = B;
    switch (S.weighted({5, 2, 3})) {
    case 0: break;
    case 1: X = Y = B + S.below(E - B); break;
    default: Y = E;
    }
    C.show("at", std::to_string(X) + "-" + std::to_string(Y));
    for (auto &A : actionsAt(server(), P.U, P.T, X, Y))
      if (A.titled("Extract to ")) {
        check(A.is("refactor"), "kind", A.Title + " has kind " + A.Kind);
        auto F = after(A, P.U, P.T);
        check(F.size() == 2, "files", A.Title + " touches " + std::to_string(F.size()) + " files");
        for (auto &[U, _] : F)
          if (U != P.U) check(llvm::StringRef(A.Title).starts_with("Extract to " + fileName(U)) && U == "file:///t/" + fileName(U), "files", A.Title + " writes " + U);
        keepsMeaning(A, P.U, P.T, P.Before);
        C.label(A.Title.find("with") != std::string::npos ? "extracted, with vars" : A.Title.find("free") != std::string::npos ? "extracted, free vars" : "extracted");
        ++K;
      }
  }
  // Must be offered: lists and functions bound once, under no with, and with `import` as it is.
  if (P.T.find("import") == std::string::npos && P.T.find("with") == std::string::npos && !hasEmpty(P.Root)) {
    std::vector<ref::P> L;
    all(P.Root, [&](const ref::P &N, const ref::P &) {
      if (N->K == ref::Bind && N->Ch[0]->Ch.size() == 1 && N->Ch[0]->Ch[0]->K == ref::NId && ((N->Ch[1]->K == ref::List && !N->Ch[1]->Ch.empty()) || N->Ch[1]->K == ref::Lambda)) L.push_back(N);
    });
    if (!L.empty()) {
      auto N = S.pick(L);
      size_t At = N->Ch[1]->B;
      bool Found = false;
      for (auto &A : actionsAt(server(), P.U, P.T, At, N->Ch[1]->E)) Found |= A.titled("Extract to ");
      check(Found, "offered", "extraction is not offered at " + std::to_string(At));
      C.label("plain");
    }
  }
  stop(P);
  C.nontrivial(K);
});

Sub Formals("add-to-formals", 4000, 120000, [](Ctx &C) {
  auto &S = C.S;
  auto P = start(C, false);
  std::vector<const ref::VarUse *> L;
  for (auto &V : P.Sc.Vars) if (!V.Inherited) L.push_back(&V);
  if (L.empty()) throw Discard{};
  server().open(P.U, P.T);
  unsigned K = 0;
  for (unsigned I = 4; I--;) {
    auto &V = *S.pick(L);
    size_t At = V.B + S.below(V.E - V.B);
    if (At == V.B && At && !isspace((unsigned char)P.T[At - 1])) continue;
    C.show("at", std::to_string(At));
    ref::P Fn;
    all(P.Root, [&](const ref::P &N, const ref::P &) { if (N->K == ref::Lambda && N->B <= V.B && V.E <= N->E) Fn = N; });
    bool Want = V.Kind == ref::VarUse::Undefined && Fn && Fn->HasFormals, Found = false;
    for (auto &A : actionsAt(server(), P.U, P.T, At, At))
      if (A.titled("add `")) {
        check(Want && !Found, "offered", "adding a formal is offered at " + std::to_string(At));
        Found = true;
        check(A.is("quickfix") && A.Title == "add `" + V.Name + "` to formals", "title", A.Title + " of kind " + A.Kind);
        // The same, with the name as the first of the formals.
        size_t O = P.T.find('{', Fn->Ch[0]->B) + 1;
        auto T2 = P.T.substr(0, O) + " " + V.Name + (Fn->Ch[0]->Ch.empty() ? " " : ", ") + P.T.substr(O);
        auto M = meaning(T2);
        if (!M) continue;
        keepsMeaning(A, P.U, P.T, *M);
        ++K;
        C.label("added");
      }
    check(Found == Want, "offered", "adding a formal is not offered at " + std::to_string(At));
  }
  stop(P);
  C.nontrivial(K);
});
}
