// USES: server
#include "srv/actions.h"
using namespace pbt;
using namespace srv;
namespace pbt {
const char *Rule = "Random programs with string literals in the running server; the conversion between quoted and indented strings is requested at every kind of place in them, applied, and the program compared with the "
                   "one before in a normal form that decodes, strips and joins strings as Nix does. Non-trivial: distinct applied conversions.";
}
namespace {
std::string one(Src &S, std::initializer_list<const char *> L) { return *(L.begin() + S.below(L.size())); }
Server &server() { return shared(plainOpts); }
std::string literal(Src &S, unsigned D, bool InQuoted);
std::string hole(Src &S, unsigned D) {
  std::string X = D && S.chance(50) ? literal(S, D - 1, false) : one(S, {"a", "a.b", "{ x = \"y\"; }.x", "(f \"b\")", "\n  a\n", "x: { }"});
  return "${" + one(S, {"", " ", "\n"}) + X + one(S, {"", " ", "\n"}) + "}";
}
/// Pieces of strings: everything is special somewhere.
std::string literal(Src &S, unsigned D, bool) {
  bool Ind = S.chance(50);
  std::string R = Ind ? "''" : "\"";
  for (unsigned N = S.small(7, 70); N; --N) {
    switch (S.weighted({6, 5, 5, 4, 3, D ? 4u : 0u, 2})) {
    case 0: R += one(S, {"a", "b ", "word", "\xc3\xa9", "\xf0\x9f\x98\x80", "{", "}", "#", "/*", "x=1;"}); break;
    case 1: R += one(S, {"\n", "\n  ", "\n    ", " ", "  ", "\n\n", "\n \n", "\t", "\n\t"}); break;
    case 2: R += Ind ? one(S, {"''$", "'''", "''\\n", "''\\t", "''\\r", "''\\ ", "''\\'", "''\\$", "''\\\\", "''\\\n", "''\\\""})
                     : one(S, {"\\n", "\\t", "\\r", "\\\"", "\\\\", "\\$", "\\${", "\\'", "\\ ", "\\\n"}); break;
    case 3: R += one(S, {"$", "$$", "$$$"}) + (S.chance(50) ? "" : one(S, {"x", "(", "$x", " ", "\n"})); break;
    case 4: R += Ind ? one(S, {"'a", "'", "\"", "\\", "' ", "'\n"}) : one(S, {"'", "''", "'''", "''''", "'$", "''$"}); break;
    case 5: R += hole(S, D); break;
    default: R += one(S, {"\r\n", "\r", "http://x.y/z", "${\"\"}", "\\\\${\"\"}"}); break;
    }
  }
  return R + (Ind ? "''" : "\"");
}
std::string program(Src &S) {
  if (S.chance(15)) {
    auto O = scopedOpts(S);
    O.Strings = true, O.Dups = false, O.Cr = S.chance(50);
    return gen::program(S, O);
  }
  auto L = [&] { return literal(S, 2, false); };
  switch (S.below(10)) {
  case 0: return L();
  case 1: return "{ a = " + L() + "; \"b\" = " + L() + "; ${" + L() + "} = 1; }";
  case 2: return "[ " + L() + one(S, {"", " "}) + L() + " (f " + L() + ") ]";
  case 3: return "f " + L() + L();
  case 4: return "a.${" + L() + "} or " + L();
  case 5: return "{ x ? " + L() + " }: x";
  case 6: return "let a = " + L() + "; in a + " + L();
  case 7: return "{ \"x${" + L() + "}\" = 1; }";
  case 8: return "a ? \"${" + L() + "}\" && " + L() + " == 1";
  default: return "./a${" + L() + "}/b";
  }
}
Sub Strings("strings", 6000, 200000, [](Ctx &C) {
  auto &S = C.S;
  auto T = program(S);
  C.show("text", T);
  ref::P Root;
  scopesOf(T, &Root);
  auto Before = meaning(T);
  if (!Before) throw Discard{};
  std::vector<ref::P> L;
  std::function<void(const ref::P &)> Go = [&](const ref::P &N) {
    if (N->K == ref::Str || N->K == ref::IndStr) L.push_back(N);
    for (auto &X : N->Ch) Go(X);
  };
  Go(Root);
  if (L.empty()) throw Discard{};
  auto &V = server();
  std::string U = "file:///t/str.nix";
  V.open(U, T);
  auto N = S.pick(L);
  size_t P = S.chance(60) ? N->B : N->B + S.below(N->E - N->B), Q = P;
  // Inside of an interpolation something else may be innermost.
  bool Inner = false;
  for (auto &X : N->Ch) Inner |= X->K != ref::Lit && X->B <= P && P <= X->E;
  if (S.chance(15)) P = N->B, Q = N->E, Inner = false;
  if (Q == P && P == N->B && P && !isspace((unsigned char)T[P - 1])) ++Q; // beside something else
  C.show("at", std::to_string(P) + "-" + std::to_string(Q));
  std::string Want = N->K == ref::Str ? "Convert to indented string" : "Convert to double-quoted string";
  unsigned K = 0;
  for (auto &A : actionsAt(V, U, T, P, Q)) {
    if (!A.titled("Convert to indented string") && !A.titled("Convert to double-quoted")) continue;
    ++K;
    check(A.is("refactor"), "kind", A.Title + " has kind " + A.Kind);
    if (!Inner) {
      check(A.Title == Want, "title", "`" + A.Title + "` for a string that needs `" + Want + "`");
      auto Now = after(A, U, T)[U];
      std::string Q = N->K == ref::Str ? "''" : "\"";
      size_t Tail = T.size() - N->E;
      check(Now.size() >= N->B + Tail + 2 && Now.compare(0, N->B, T, 0, N->B) == 0 && Now.compare(Now.size() - Tail, Tail, T, N->E, Tail) == 0 && llvm::StringRef(Now).drop_front(N->B).ltrim(' ').starts_with(Q), "edit",
            "the text around the string changes, or it is not converted:\n" + Now);
    }
    keepsMeaning(A, U, T, *Before);
    C.label(A.Title);
  }
  check(K == 1 || (Inner && K == 0), "offered", "the conversion is offered " + std::to_string(K) + " times");
  V.close(U);
  V.sync();
  V.forget();
  C.nontrivial(K);
});
}
