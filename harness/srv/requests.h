// Random requests about a document.
#pragma once
#include "srv/server.h"

namespace srv {
inline const std::vector<const char *> &atMethods() {
  static std::vector<const char *> V{"textDocument/definition", "textDocument/references", "textDocument/documentHighlight", "textDocument/hover",
                                     "textDocument/completion", "textDocument/prepareRename", "textDocument/rename"};
  return V;
}
inline const std::vector<const char *> &docMethods() {
  static std::vector<const char *> V{"textDocument/documentSymbol", "textDocument/foldingRange", "textDocument/semanticTokens/full", "textDocument/documentLink"};
  return V;
}
/// A byte offset at a character boundary.
inline size_t anyOff(pbt::Src &S, const std::string &T) {
  size_t O = S.below(T.size() + 1);
  while (O < T.size() && (T[O] & 0xC0) == 0x80) ++O;
  return O;
}
/// A position, of the text or not.
inline Value anyPos(pbt::Src &S, const std::string &T, bool Wild) {
  if (Wild && S.chance(8))
    return pos(S.pick<int64_t>({0, 1, 2, 1000, -1, 2147483647}), S.pick<int64_t>({0, 1, 7, 100000, -1, 2147483647}));
  return posAt(T, anyOff(S, T));
}
inline Value anyRange(pbt::Src &S, const std::string &T, bool Wild) {
  if (Wild && S.chance(10)) return Object{{"start", anyPos(S, T, true)}, {"end", anyPos(S, T, true)}};
  size_t A = anyOff(S, T), B = S.chance(40) ? A : anyOff(S, T);
  if (A > B) std::swap(A, B);
  return Object{{"start", posAt(T, A)}, {"end", posAt(T, B)}};
}
struct Request {
  std::string Method;
  Object Params;
};
inline Request anyRequest(pbt::Src &S, const std::string &Uri, const std::string &T, bool Wild) {
  Object P{{"textDocument", doc(Uri)}};
  switch (S.weighted({8, 3, 5, 2})) {
  case 0: {
    std::string M = S.pick(atMethods());
    P["position"] = anyPos(S, T, Wild);
    if (M == "textDocument/rename") P["newName"] = Wild && S.chance(20) ? jg::str(S, 4) : std::string("renamed");
    if (M == "textDocument/completion") P["context"] = Object{{"triggerKind", 1}};
    return {M, std::move(P)};
  }
  case 1: return {S.pick(docMethods()), std::move(P)};
  case 2:
    P["range"] = anyRange(S, T, Wild);
    P["context"] = Object{{"diagnostics", Array{}}};
    return {"textDocument/codeAction", std::move(P)};
  default:
    P["range"] = anyRange(S, T, Wild);
    return {"textDocument/inlayHint", std::move(P)};
  }
}
} // namespace srv
