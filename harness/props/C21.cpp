// USES: server
#include "srv/actions.h"
using namespace pbt;
using namespace srv;
namespace pbt {
const char *Rule = "Random programs in the running server; every refactoring that is offered at random places and rewrites attribute sets, names or inherits is applied, and the result compared with the program before "
                   "in a normal form of meaning. Plain cases must be offered. Non-trivial: distinct applied actions.";
}
namespace {
std::string one(Src &S, std::initializer_list<const char *> L) { return *(L.begin() + S.below(L.size())); }
Server &server() { return shared(plainOpts); }
/// Sets, dotted paths, inherits in all mixes.
std::string binding(Src &S, unsigned D);
std::string attrName(Src &S) {
  return one(S, {"a", "b", "c", "x", "\"a\"", "\"b c\"", "\"or\"", "or", "\"x\"", "a-b", "\"a\\${b}\"", "x'", "\"\"", "\"true\"", "\"${\"c\"}\"", "\"a.b\"", "null"});
}
std::string val(Src &S, unsigned D);
std::string setOf(Src &S, unsigned D) {
  std::string R = S.weighted({8, 2}) ? "rec {" : "{";
  for (unsigned N = S.below(5); N; --N) R += one(S, {" ", "\n  ", " /*c*/ "}) + binding(S, D);
  return R + " }";
}
std::string val(Src &S, unsigned D) {
  switch (S.weighted({3, 3, D ? 4u : 0u, 2, 1, 1, D ? 1u : 0u, D ? 1u : 0u, 1})) {
  case 0: return one(S, {"a", "b", "c", "x", "or", "null"});
  case 1: return one(S, {"1", "\"s\"", "[ a b ]", "x: x", "a b", "-1", "a + b", "''\n  t\n''"});
  case 2: return setOf(S, D - 1);
  case 3: return one(S, {"x.a", "c.a", "x.\"b c\"", "x.a or b", "b.c.a", "(f x).a", "x.${a}.a", "{ a = 1; }.a", "x.or", "b.\"a.b\".a"});
  case 4: return "if a then b else c";
  case 5: return one(S, {"let a = x; in a", "with x; a", "assert a; b"});
  case 6: return "(" + val(S, D - 1) + ")";
  case 7: return "x: " + val(S, D - 1);
  default: return "let " + one(S, {"a = x.a;", "inherit a;", "inherit (x) a;", "a = a;", "a.b = 1; a.c = 2;", "a = { b = 1; };"}) + " in " + one(S, {"a", "{ inherit a; }", "{ a = a; }"});
  }
}
std::string binding(Src &S, unsigned D) {
  switch (S.weighted({6, 6, 2, 2, 1, 1})) {
  case 0: return attrName(S) + " = " + val(S, D) + ";";
  case 1: {
    std::string R = attrName(S);
    for (unsigned N = 1 + S.below(3); N; --N) R += one(S, {".", ".", " . ", " /*d*/ . "}) + attrName(S);
    return R + " = " + val(S, D) + ";";
  }
  case 2: {
    auto N = attrName(S);
    return "inherit" + (N[0] == '"' && S.chance(40) ? "" : one(S, {" ", " /*i*/ "})) + N + one(S, {"", " b", " c", "\"k\"", "\"k\"d", " e\"g\"\"h\""}) + ";";
  }
  case 3: return "inherit (" + one(S, {"x", "f x", "x.b", "{ a = 1; }", "x: x", "let y = x; in y", "-x", "a + b"}) + one(S, {") ", ")"}) + attrName(S) + one(S, {"", "", " b", "\"k\"", " e\"g\""}) + ";";
  case 4: return one(S, {"${a}", "${\"a\"}", "\"${a}\"", "a.${b}", "\"a${b}\".c"}) + " = " + val(S, D) + ";";
  default: return one(S, {"a = a;", "x = x;", "\"b c\" = x.\"b c\";", "a = x.a;", "a = b.c.a;"});
  }
}
std::string program(Src &S) {
  if (S.chance(30)) {
    auto O = scopedOpts(S);
    O.Dups = false;
    return gen::program(S, O);
  }
  std::string P = one(S, {"", "a: ", "{ a, b, c, x, f }: ", "with x; ", "let a = 1; x = { a = 2; }; in ", "[ ", "rec { q = "});
  std::string E = P == "[ " ? " ]" : P.starts_with("rec") ? "; }" : "";
  return P + setOf(S, 3) + E;
}
bool mine(const Act &A) {
  for (auto *T : {"Quote", "Unquote", "Convert to `inherit", "Convert to explicit", "Flatten", "Pack", "Recursively pack"}) if (A.titled(T)) return true;
  return false;
}
/// The documented exception: in recursive sets `x = x;` is infinite recursion, and becomes the x of outside.
std::optional<std::string> outward(const ref::P &Root, const std::string &T, size_t P) {
  std::optional<std::string> R;
  std::string Nm;
  std::function<void(const ref::P &)> Go = [&](const ref::P &N) {
    using namespace ref;
    if (N->K == RecAttrs || N->K == Let || N->K == LegacyLet)
      for (auto &B : N->Ch)
        if (B->K == Bind && B->B <= P && P <= B->E && B->Ch[0]->Ch.size() == 1 && B->Ch[1]->K == Var && staticName(B->Ch[0]->Ch[0], Nm) && Nm == B->Ch[1]->S)
          R = T.substr(0, B->B) + "inherit " + T.substr(B->Ch[0]->B, B->Ch[0]->E - B->Ch[0]->B) + ";" + T.substr(B->E);
    for (auto &C : N->Ch) Go(C);
  };
  Go(Root);
  return R;
}
struct Plain { size_t P; std::string Title; };
/// Places where an action has to be offered.
std::vector<Plain> plain(const ref::P &Root, const std::string &T) {
  std::vector<Plain> R;
  std::function<void(const ref::P &, bool)> Go = [&](const ref::P &N, bool In) {
    using namespace ref;
    if (In && N->K == NId) R.push_back({N->B, "Quote attribute name"});
    if (In && N->K == NStr && N->E - N->B > 3 && N->E - N->B < 8 && T[N->B + 1] == 'a' && T[N->B + 2] == 'b') R.push_back({N->B + 1, "Unquote attribute name"});
    if (N->K == Attrs)
      for (auto &B : N->Ch) if (B->K == Bind) {
        auto &Pa = B->Ch[0]->Ch;
        auto &V = B->Ch[1];
        bool Ids = true, Val = V->K == Attrs && !V->Ch.empty();
        for (auto &X : Pa) Ids &= X->K == NId;
        if (Ids && Pa.size() == 1 && V->K == Var && V->S == Pa[0]->S && V->S != "or") R.push_back({Pa[0]->B, "Convert to `inherit`"});
        if (Ids && Val) {
          for (auto &X : V->Ch) {
            Val &= X->K == Bind && X->Ch[0]->Ch.size() == 1 && X->Ch[0]->Ch[0]->K == NId;
          }
          if (Val && N->Ch.size() == 1) R.push_back({Pa[0]->B, "Flatten nested attribute set"});
        }
        if (Ids && Pa.size() == 2 && N->Ch.size() == 1) R.push_back({Pa[0]->B, "Pack dotted path to nested set"});
      }
    for (auto &C : N->Ch) if (C->K != Lit) Go(C, N->K == AttrPath);
  };
  Go(Root, false);
  return R;
}

Sub Sets("sets-and-names", 6000, 120000, [](Ctx &C) {
  auto &S = C.S;
  auto T = program(S);
  C.show("text", T);
  ref::P Root;
  scopesOf(T, &Root);
  auto Before = meaning(T);
  if (!Before) throw Discard{};
  auto &V = server();
  std::string U = "file:///t/act.nix";
  V.open(U, T);
  auto Nodes = nodesOf(Root, T);
  unsigned N = 0;
  for (unsigned K = 6; K--;) {
    auto [B, E] = S.pick(Nodes);
    size_t P = B, Q = B;
    switch (S.weighted({5, 2, 2})) {
    case 0: break;
    case 1: P = Q = B + S.below(E - B); break;
    default: Q = E;
    }
    C.show("at", std::to_string(P) + "-" + std::to_string(Q));
    for (auto &A : actionsAt(V, U, T, P, Q))
      if (mine(A)) {
        check(A.is("refactor"), "kind", A.Title + " has kind " + A.Kind);
        if (auto Alt = A.Title == "Convert to `inherit`" ? outward(Root, T, P) : std::nullopt) {
          auto M = meaning(*Alt);
          if (!M) continue;
          keepsMeaning(A, U, T, *M);
        } else
          keepsMeaning(A, U, T, *Before);
        C.label(A.Title.substr(0, A.Title.find('\'')).substr(0, 28));
        ++N;
      }
  }
  auto Ps = plain(Root, T);
  if (!Ps.empty()) {
    auto &X = S.pick(Ps);
    bool Found = false;
    auto L = actionsAt(V, U, T, X.P, X.P);
    for (auto &A : L) Found |= A.Title == X.Title;
    check(Found, "offered", "`" + X.Title + "` is not offered at " + std::to_string(X.P));
    C.label("plain: " + X.Title);
  }
  V.close(U);
  V.sync();
  V.forget();
  C.nontrivial(N);
});

/// One plain case of each action between unrelated bindings: it must be offered and keep the meaning.
Sub PlainCases("plain-cases", 4000, 80000, [](Ctx &C) {
  auto &S = C.S;
  auto Name = [&] { return one(S, {"ab", "b", "c1", "x'", "d-e", "_f", "ora", "B"}); };
  auto Quoted = [&] { return one(S, {"\"ab\"", "\"b c\"", "\"or\"", "\"x\"", "\"if\"", "\"a.b\"", "\"1\"", "\"\"", "\"a\\\"\""}); };
  auto Any = [&] { return S.chance(60) ? Name() : Quoted(); };
  auto Sp = [&] { return one(S, {" ", " ", "\n  ", " /*c*/ ", "\t"}); };
  bool InRec = false, InLet = false;
  std::string Pre, Post, T, Title, After;
  switch (S.below(6)) {
  case 0: Pre = "{"; Post = "}"; break;
  case 1: Pre = "{ ab, b, x, s, c1, ... }: {"; Post = "}"; break;
  case 2: Pre = "rec {", Post = "}", InRec = true; break;
  case 3: Pre = "let", Post = "in x", InRec = InLet = true; break;
  case 4: Pre = "f [ (g {"; Post = "}) ]"; break;
  default: Pre = "with s; { q = {"; Post = "}; }";
  }
  std::string Bi;
  size_t At = 0; // where to ask in the binding
  auto Path = [&](unsigned N, bool Ids = false) {
    std::string R = Ids ? Name() : Any();
    while (--N) R += one(S, {".", ".", " . "}) + (Ids ? Name() : Any());
    return R;
  };
  switch (S.below(9)) {
  case 0: Bi = Name() + Sp() + "=" + Sp() + val(S, 1) + ";"; Title = "Quote attribute name"; break;
  case 1: Bi = "\"" + Name() + "\"" + Sp() + "=" + Sp() + val(S, 1) + ";"; Title = "Unquote attribute name"; break;
  case 2: {
    if (InRec) throw Discard{};
    auto N = Name();
    Bi = N + Sp() + "=" + Sp() + N + one(S, {";", " ;"}), Title = "Convert to `inherit`";
    break;
  }
  case 3: {
    auto N = Any();
    auto From = one(S, {"s", "x", "(f y)", "s.t", "s.t.u", "s.\"b c\"", "{ ab = 1; }", "[ ]", "s . t"});
    if (InRec && From[0] == 'x') From = "s";
    Bi = N + Sp() + "=" + Sp() + From + "." + N + ";", Title = "Convert to `inherit (" + From + ")`";
    break;
  }
  case 4: {
    if (InRec) throw Discard{};
    Bi = "inherit" + Sp() + Name() + ";", Title = "Convert to explicit binding", At = 1;
    break;
  }
  case 5: Bi = "inherit" + Sp() + "(" + one(S, {"s", "s.t", "f y", "{ ab = 1; }", "y: y", "-y", "if y then s else t", "\"k\"", "s.t or u", "with s; t", "1", "./p", "s // t"}) + ")" + Sp() + Any() + ";", Title = "Convert to explicit binding", At = 2; break;
  case 6: {
    Bi = Path(1 + S.below(2)) + Sp() + "=" + Sp() + "{";
    std::set<std::string> Used;
    for (unsigned N = 1 + S.below(3); N; --N) {
      auto First = Any();
      if (!Used.insert(First[0] == '"' ? First : "\"" + First + "\"").second) continue;
      Bi += Sp() + First + (S.chance(30) ? "." + Any() : "") + " =" + Sp() + val(S, 1) + ";";
    }
    Bi += Sp() + "}" + one(S, {";", " ;"});
    Title = "Flatten nested attribute set";
    break;
  }
  default: {
    if (InRec) throw Discard{};
    auto First = Any();
    Bi = First + one(S, {".", " . "}) + Path(1 + S.below(3)) + Sp() + "=" + Sp() + val(S, 1) + ";";
    Title = "Pack dotted path to nested set";
    if (S.below(2)) { // with others of the same first name
      std::set<std::string> Used;
      for (unsigned N = 1 + S.below(3); N; --N) After += Sp() + (S.chance(30) ? "z" + std::to_string(N + 5) + " = 1;" + Sp() : "") + First + ".k" + std::to_string(N) + (S.chance(30) ? "." + Any() : "") + " = " + val(S, 1) + ";";
      std::string F;
      F = First[0] == '"' ? First.substr(1, First.size() - 2) : First;
      if (F == "a\\\"") F = "a\"";
      Title = one(S, {"Pack dotted path to nested set", "Pack all '", "Recursively pack all '"});
      if (Title.back() == '\'') Title += F + "' bindings to nested set";
    }
  }
  }
  T = Pre;
  for (unsigned N = S.below(3); N; --N) T += Sp() + "z" + std::to_string(N) + " = " + val(S, 1) + ";";
  T += Sp();
  size_t P = T.size() + At;
  T += Bi + After;
  if (InLet && After.empty()) T += " z9 = 1;";
  for (unsigned N = S.below(3); N; --N) T += Sp() + "y" + std::to_string(N) + " = " + val(S, 1) + ";";
  T += Sp() + Post;
  C.show("text", T);
  C.show("title", Title);
  auto Before = meaning(T);
  if (!ref::parse(T).ok() || !Before || scopesOf(T).anyError()) throw Discard{};
  auto &V = server();
  std::string U = "file:///t/act.nix";
  V.open(U, T);
  bool Found = false;
  for (auto &A : actionsAt(V, U, T, P, P)) {
    if (A.Title != Title) continue;
    check(!Found, "twice", "`" + Title + "` is offered twice");
    Found = true;
    keepsMeaning(A, U, T, *Before);
    auto Now = srv::after(A, U, T)[U];
    check(Now != T, "nothing", "`" + Title + "` changes nothing");
  }
  check(Found, "offered", "`" + Title + "` is not offered at " + std::to_string(P));
  C.label(Title.substr(0, Title.find_first_of("'(")).substr(0, 28));
  V.close(U);
  V.sync();
  V.forget();
  C.nontrivial();
});
}
