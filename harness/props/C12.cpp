// USES: lsp
#include "core/pbt.h"
#include "core/text.h"
#include <lspserver/Protocol.h>
#include <lspserver/URI.h>
using namespace pbt;
using namespace lspserver;

namespace {
bool ascii(const std::string &T) {
  return std::all_of(T.begin(), T.end(), [](unsigned char C) { return C > 0x20 && C < 0x7F; });
}
std::string component(Src &S) {
  std::string O;
  unsigned N = 1 + S.small(8, 75);
  for (unsigned I = 0; I < N; ++I) switch (S.weighted({8, 5, 2, 3})) {
    case 0: O += (char)('a' + S.below(26)); break;
    case 1: O += S.pick({'%', ' ', '?', '#', ':', '\\', '+', '.', '~', '-', '_', '@', '&', '=', '[', '"', '\n', '2', 'F'}); break;
    case 2: txt::put(O, S.pick<char32_t>({0xE9, 0x20AC, 0x1F600, 0x7F})); break;
    default: O += (char)(1 + S.below(255)); break;
    }
  for (char &X : O) if (X == '/' || !X) X = 'x';
  return O;
}
std::string path(Src &S) {
  if (S.chance(3)) return "/";
  std::string P;
  unsigned N = 1 + S.small(5, 60);
  for (unsigned I = 0; I < N; ++I) P += "/" + (S.chance(12) ? S.pick({std::string("c:"), std::string(".."), std::string("."), std::string("%41"), std::string("%2F"), std::string("%"), std::string("C:")}) : component(S));
  if (S.chance(8)) P += "/";
  return P;
}

/// Any spelling of a path as a URI: each character plain where RFC 3986 lets
/// it be, or percent-encoded with digits of either case.
std::string spell(Src &S, const std::string &P) {
  std::string O;
  for (size_t I = 0; I < P.size(); ++I) {
    unsigned char C = P[I];
    bool Plain = isalnum(C) || (C && strchr("-_.~!$&'()*+,;=:@", C));
    if (C == '/' ? !(I && S.chance(10)) : Plain && S.chance(75)) { O += (char)C; continue; }
    const char *D = S.chance(50) ? "0123456789abcdef" : "0123456789ABCDEF";
    O += '%'; O += D[C >> 4]; O += D[C & 15];
  }
  return O;
}

Sub RoundTrip("round-trip", 8000, 300000, [](Ctx &C) {
  Src &S = C.S;
  std::string P = path(S);
  C.show("path", P);
  C.nontrivial(P.size() > 2);
  for (char X : P) if (!isalnum((unsigned char)X) && X != '/') C.label("special");
  for (int Way = 0; Way < 3; ++Way) {
    std::string U;
    if (Way == 0) U = URI::createFile(P).toString();
    else if (Way == 1) {
      auto X = URI::create(P, "file");
      if (!X) fail("create", "no URI: " + llvm::toString(X.takeError()));
      U = X->toString();
    } else U = URI::create(P).toString();
    check(ascii(U), "not-ascii", "the URI is " + esc(U));
    check(U.rfind("file:///", 0) == 0, "scheme", "the URI is " + esc(U));
    auto R = URI::resolve(U);
    if (!R) fail("resolve", esc(U) + " does not resolve: " + llvm::toString(R.takeError()));
    check(*R == P, "path-differs", esc(U) + " is the path " + esc(*R));
    auto Parsed = URI::parse(U);
    if (!Parsed) fail("parse", esc(U));
    check(*Parsed == URI::createFile(P), "parse-differs", esc(U));
  }
  auto RP = URI::resolvePath(P);
  check(RP && *RP == P, "resolve-path", "resolves to another path");
});

Sub Spelling("spelling", 8000, 300000, [](Ctx &C) {
  Src &S = C.S;
  std::string P = path(S);
  std::string Q = S.chance(50) ? P : path(S);
  std::string U = "file://" + spell(S, P), V = "file://" + spell(S, Q);
  C.show("uri", U);
  C.show("other", V);
  C.nontrivial(U.find('%') != U.npos);
  URIForFile A, B;
  llvm::json::Path::Root R1, R2;
  check(fromJSON(llvm::json::Value(U), A, R1), "rejected", esc(U));
  check(fromJSON(llvm::json::Value(V), B, R2), "rejected", esc(V));
  check(A.file() == P, "path-differs", esc(U) + " is the path " + esc(A.file().str()) + ", not " + esc(P));
  check(B.file() == Q, "path-differs", esc(V) + " is the path " + esc(B.file().str()) + ", not " + esc(Q));
  // Two spellings name one document if and only if their paths are equal.
  check((A == B) == (P == Q), "identity", "two documents are one, or one is two");
  check(A.uri() == URI::createFile(P).toString(), "canonical", "the reply's URI is " + A.uri());
  auto J = toJSON(A);
  check(J.getAsString() && J.getAsString()->str() == A.uri(), "json", "another URI in JSON");
  URIForFile A2;
  llvm::json::Path::Root R3;
  check(fromJSON(J, A2, R3) && A2 == A, "json-round-trip", "the reply's URI names another document");
});

Sub Anything("any-text", 8000, 300000, [](Ctx &C) {
  Src &S = C.S;
  std::string T;
  unsigned N = S.small(20, 90);
  if (S.chance(50)) T = S.pick({std::string("file:"), std::string("file://"), std::string("file:///"), std::string("nix:/"), std::string("a+b://h/"), std::string("%66ile:///")});
  for (unsigned I = 0; I < N; ++I) switch (S.weighted({4, 4, 2})) {
    case 0: T += (char)('a' + S.below(26)); break;
    case 1: T += S.pick({'%', ':', '/', '?', '#', ' ', '4', 'F', '1', '2', '\\', '.'}); break;
    default: T += (char)S.below(256);
    }
  C.show("text", T);
  auto U = URI::parse(T);
  bool Ok = (bool)U;
  if (!U) { llvm::consumeError(U.takeError()); check(T.find(':') == T.npos || !isalpha((unsigned char)T[0]) || T.find_first_of("%") < T.find(':') || !std::all_of(T.begin(), T.begin() + T.find(':'), [](unsigned char X) { return isalnum(X) || X == '+' || X == '.' || X == '-'; }), "rejected", "a URI with a scheme is rejected"); return; }
  std::string Sch = U->scheme().str();
  check(Ok && !Sch.empty() && isalpha((unsigned char)Sch[0]), "scheme", "the scheme is " + esc(Sch));
  C.nontrivial();
  if (U->authority().contains('/')) return; // has no spelling of its own
  if (!U->body().empty() && !U->body().starts_with("/") && !U->authority().empty()) return;
  std::string Out = U->toString();
  if (Sch.find_first_of("+") != Sch.npos) return;
  check(ascii(Out) || Out.empty(), "not-ascii", esc(Out));
  if (U->authority().empty() && U->body().starts_with("//")) C.label("double-slash");
  auto V = URI::parse(Out);
  if (!V) fail("parse-again", esc(Out) + " does not parse");
  check(*U == *V, "not-stable", esc(T) + " prints as " + esc(Out) + ", which is another URI");
  auto R = URI::resolve(*U);
  if (!R) { llvm::consumeError(R.takeError()); check(Sch != "file" || !U->body().starts_with("/"), "resolve", "a file URI with an absolute path does not resolve"); return; }
  check(!R->empty() && (*R)[0] == '/', "relative", "resolves to the relative path " + esc(*R));
});
} // namespace
namespace pbt {
const char *Rule =
    "A case is an absolute path of any bytes but NUL (components with %, ?, #, :, backslash, blanks, `..`, non-ASCII and "
    "invalid UTF-8), a URI that spells such a path with any mix of plain and percent-encoded characters, or any text. "
    "Non-trivial: a path of more than two bytes, a URI with an encoded character, a text that parses as a URI.";
}
