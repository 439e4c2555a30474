// Random valid programs with known scopes, opened in the shared server.
#pragma once
#include "gen/gen.h"
#include "ref/conv.h"
#include "ref/scope.h"
#include "srv/server.h"

namespace srv {
inline Opts plainOpts() {
  Opts O;
  O.Args = {"--semantic-tokens"};
  O.Caps = Object{{"workspace", Object{{"configuration", true}}},
                  {"textDocument", Object{{"completion", Object{{"completionItem", Object{{"snippetSupport", true}}}}}}}};
  return O;
}
inline gen::Opts scopedOpts(pbt::Src &S) {
  gen::Opts O;
  O.Scoped = true;
  O.Budget = 3 + S.below(30);
  O.Strings = S.chance(50);
  O.Unicode = S.chance(50);
  O.Paths = S.chance(20);
  O.Uris = false;
  O.Loose = S.chance(40);
  O.UndefPct = S.below(15);
  O.Dups = S.chance(15);
  O.Cr = S.chance(15);
  if (S.chance(50)) O.Names = {"a", "b", "c", "x"};
  return O;
}
/// Discards texts with any error about grammar or names (but undefined names).
inline ref::Scopes scopesOf(const std::string &T, ref::P *Root = nullptr, bool Env = false) {
  auto R = ref::parse(T);
  if (!R.ok() || !ref::outside(R.Root, T).empty()) throw pbt::Discard{};
  auto Sc = ref::resolve(R.Root, T, Env);
  if (Sc.anyError()) throw pbt::Discard{};
  if (Root) *Root = R.Root;
  return Sc;
}
using Rg = std::pair<size_t, size_t>;
inline std::string str(Rg R) { return std::to_string(R.first) + "-" + std::to_string(R.second); }
inline std::string strs(const std::multiset<Rg> &V) {
  std::string R;
  for (auto &X : V) R += (R.empty() ? "" : " ") + str(X);
  return R.empty() ? "nothing" : R;
}
/// A position at which the name [B, E) is meant: inside it, at its start (if
/// what touches it on the left is no name or literal), or at its end.
inline size_t cursorIn(pbt::Src &S, const std::string &T, size_t B, size_t E) {
  bool Start = B == 0 || strchr(" \t\r\n([{=:;,!+*<>&|@?", T[B - 1]);
  size_t P;
  switch (S.weighted({4, 3, 3})) {
  case 0: P = B; break;
  case 1: P = E; break;
  default: P = B + S.below(E - B + 1);
  }
  while (P < T.size() && (T[P] & 0xC0) == 0x80) ++P;
  if (P == B && !Start) P = E;
  return P;
}
} // namespace srv
