// Code actions of the running server, applied and compared by meaning.
#pragma once
#include "ref/core.h"
#include "srv/requests.h"
#include "srv/scoped.h"

namespace srv {
struct Act {
  std::string Title, Kind;
  bool Preferred = false;
  Object Raw;
  bool is(llvm::StringRef K) const { return llvm::StringRef(Kind).starts_with(K); }
  bool titled(llvm::StringRef T) const { return llvm::StringRef(Title).starts_with(T); }
};
inline std::vector<Act> actionsAt(Server &V, const std::string &U, const std::string &T, size_t B, size_t E) {
  auto R = V.call("textDocument/codeAction", Object{{"textDocument", doc(U)}, {"range", Object{{"start", posAt(T, B)}, {"end", posAt(T, E)}}}, {"context", Object{{"diagnostics", Array{}}}}});
  pbt::check(R.Ok && R.Result.getAsArray(), "code-action", jg::text(R.Result) + R.Msg);
  std::vector<Act> L;
  for (auto &X : *R.Result.getAsArray()) {
    auto *O = X.getAsObject();
    pbt::check(O && O->getString("title") && O->getString("kind"), "code-action", jg::text(X));
    L.push_back({O->getString("title")->str(), O->getString("kind")->str(), O->getBoolean("isPreferred").value_or(false), Object(*O)});
  }
  return L;
}
/// The texts after an action. Its document comes back as U; new files beside it.
inline std::map<std::string, std::string> after(const Act &A, const std::string &U, const std::string &T) {
  std::map<std::string, std::string> F{{U, T}};
  auto *E = A.Raw.get("edit");
  pbt::check(E && E->getAsObject(), "edit", "no edit in " + A.Title);
  applyWorkspaceEdit(*E, F);
  return F;
}
/// The last part of a URI, decoded.
inline std::string fileName(const std::string &U) { return U.substr(U.rfind('/') + 1); }
/// The text of a program as the oracle of meaning takes it.
inline std::optional<std::string> meaning(const std::string &T, const std::map<std::string, std::string> &Files = {}, bool InnermostWith = false) {
  ref::CoreOpts O;
  O.InnermostWith = InnermostWith;
  for (auto &[N, X] : Files) {
    auto R = ref::parse(X);
    pbt::check(R.ok(), "new-file", "the new file is not valid:\n" + X);
    ref::canon(R.Root);
    O.Files["./" + N] = R.Root;
  }
  return ref::coreOf(T, O);
}
/// Checks that an action leaves the meaning of a program as it was.
inline void keepsMeaning(const Act &A, const std::string &U, const std::string &T, const std::string &Before, bool InnermostWith = false) {
  auto F = after(A, U, T);
  auto Now = F[U];
  F.erase(U);
  std::map<std::string, std::string> New;
  std::string Show = "`" + A.Title + "` gives\n" + Now;
  for (auto &[N, X] : F) New[fileName(N)] = X, Show += "\n-- " + fileName(N) + ":\n" + X;
  pbt::check(ref::parse(Now).ok(), "syntax", Show);
  auto M = meaning(Now, New, InnermostWith);
  if (!M) return; // too big
  pbt::check(*M == Before, "meaning", Show + "\n-- meaning before:\n" + Before + "\n-- after:\n" + *M);
}
/// Offsets worth asking at: bounds and insides of nodes.
inline std::vector<Rg> nodesOf(const ref::P &Root, const std::string &) {
  std::vector<Rg> R;
  std::function<void(const ref::P &)> Go = [&](const ref::P &N) {
    if (N->E > N->B) R.push_back({N->B, N->E});
    for (auto &C : N->Ch) Go(C);
  };
  Go(Root);
  return R;
}
} // namespace srv
