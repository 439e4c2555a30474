// USES: server
#include "srv/actions.h"
#include <filesystem>
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>
using namespace pbt;
using namespace srv;
namespace fs = std::filesystem;
namespace pbt {
const char *Rule = "A case makes a random scratch directory (files, directories with and without default.nix, symbolic links to either, dangling ones) and a document in it with random path literals in every kind of place. "
                   "Document links and go-to-definition are compared with Nix's rule for paths, applied by an independent resolver. Non-trivial: documents with a path that exists.";
}
namespace {
std::string one(Src &S, std::initializer_list<const char *> L) { return *(L.begin() + S.below(L.size())); }
Server &server() { return shared(plainOpts); }
struct Scratch {
  std::string D;
  Scratch() {
    char B[] = "/tmp/pbt-path-XXXXXX";
    check(mkdtemp(B), "setup", "mkdtemp");
    D = fs::canonical(B).string();
  }
  ~Scratch() {
    std::error_code E;
    fs::remove_all(D, E);
  }
};
const char *Names[] = {"a", "b", "c.nix", "default.nix", "d", "x-y", "e+f", "_g", "default.nix.d"};
std::string name(Src &S) { return Names[S.below(std::size(Names))]; }
void fill(Ctx &C, const std::string &Root, const std::string &D, unsigned Depth) {
  auto &S = C.S;
  for (unsigned N = 1 + S.small(5, 70); N; --N) {
    auto P = D + "/" + name(S);
    std::error_code E;
    if (fs::symlink_status(P, E).type() != fs::file_type::not_found) continue;
    std::string What;
    switch (S.weighted({5, Depth ? 5u : 0u, 3})) {
    case 0: std::ofstream(P) << "1"; What = "file"; break;
    case 1: fs::create_directory(P); What = "directory"; break;
    default: {
      auto T = one(S, {"a", "b", "../a", "..", ".", "c.nix", "nowhere", "d", "../d/a", "default.nix"});
      if (S.chance(20)) T = Root + "/" + T;
      fs::create_symlink(T, P, E);
      What = "link to " + T;
    }
    }
    C.show(P.substr(Root.size()), What);
    if (What == "directory") fill(C, Root, P, Depth - 1);
  }
}
/// Nix's rule: the path is joined with the directory of the file and made
/// canonical by its text. A directory stands for its default.nix.
std::string resolve(const std::string &Dir, std::string Lit) {
  if (Lit[0] == '~' || Lit.size() > 4000) return "";
  std::string All = Lit[0] == '/' ? Lit : Dir + "/" + Lit;
  std::vector<std::string> Parts;
  size_t I = 0;
  while (I < All.size()) {
    size_t J = std::min(All.find('/', I), All.size());
    auto X = All.substr(I, J - I);
    I = J + 1;
    if (X.empty() || X == ".") continue;
    if (X == "..") { if (!Parts.empty()) Parts.pop_back(); continue; }
    Parts.push_back(X);
  }
  std::string P;
  for (auto &X : Parts) P += "/" + X;
  if (P.empty()) P = "/";
  struct stat St;
  if (stat(P.c_str(), &St)) return "";
  if (S_ISDIR(St.st_mode)) {
    P += "/default.nix";
    if (stat(P.c_str(), &St)) return "";
  }
  char *R = realpath(P.c_str(), nullptr);
  std::string Q = R ? R : "";
  free(R);
  return Q;
}
std::string unUri(const std::string &U) {
  check(llvm::StringRef(U).starts_with("file:///"), "uri", U);
  std::string R;
  for (size_t I = 7; I < U.size(); ++I) {
    if (U[I] != '%') { R += U[I]; continue; }
    check(I + 2 < U.size(), "uri", U);
    R += (char)std::stoi(U.substr(I + 1, 2), nullptr, 16), I += 2;
  }
  return R;
}
std::string real(const std::string &U) {
  auto P = unUri(U);
  char *R = realpath(P.c_str(), nullptr);
  check(R, "missing", "leads to " + P + ", which is not there");
  std::string Q = R;
  free(R);
  struct stat St;
  stat(Q.c_str(), &St);
  return Q;
}
std::string lit(Src &S, const std::string &Root) {
  std::string P = S.chance(12) ? Root + "/" : one(S, {"./", "./", "./", "../", "", "", "~/", "./../", ".././"});
  unsigned N = 1 + S.small(4, 50);
  for (unsigned I = 0; I < N; ++I) P += (I ? "/" : "") + (S.chance(20) ? one(S, {"..", ".", "nope"}) : name(S));
  if (P.find('/') == std::string::npos) P += "/" + name(S);
  if (S.chance(8)) P += "${x}";
  else if (S.chance(8)) P += "/${\"a\"}/b";
  return P;
}
/// A literal for something that is there, from the directory.
std::string known(Src &S, const std::string &Dir, const std::vector<std::string> &All) {
  std::string To = S.pick(All), P = S.chance(20) ? To : fs::path(To).lexically_relative(Dir).string();
  if (P[0] != '/' && P.substr(0, 3) != "../" && P != "." && P != ".." && (P.find('/') == std::string::npos || S.chance(70))) P = "./" + P;
  if (P == "." || P == "..") P += one(S, {"/.", "/./.", "/x/.."});
  for (unsigned N = S.small(2, 30); N; --N) { // detours
    size_t I = P.find('/', S.below(P.size()));
    if (I != std::string::npos) P.insert(I, one(S, {"/.", "/q/..", "/a/..", "/./."}));
  }
  if (S.chance(6)) P += "/.";
  else if (S.chance(4)) P += "/default.nix";
  return P;
}
std::string place(Src &S, const std::string &P) {
  switch (S.below(14)) {
  case 0: return "(import " + P + " { })";
  case 1: return "[ " + P + " ]";
  case 2: return "{ a.b = " + P + "; }";
  case 3: return "\"s${" + P + "}\"";
  case 4: return "{ inherit (import " + P + ") q; }";
  case 5: return "({ a ? " + P + " }: a)";
  case 6: return "(with import " + P + "; 1)";
  case 7: return "(let p = " + P + "; in p)";
  case 8: return "(a.b or " + P + ")";
  case 9: return "{ ${toString " + P + "} = 1; }";
  case 10: return "''\n  ${" + P + "}''";
  case 11: return "(if a ? x then " + P + " else " + P + ")";
  case 12: return "./z/${" + P + "}";
  default: return P + " ";
  }
}
Sub Paths("paths", 2500, 60000, [](Ctx &C) {
  auto &S = C.S;
  Scratch X;
  auto Sub = one(S, {"", "/d", "/d", "/a/b", "/\xc3\xa9 x"});
  fs::create_directories(X.D + Sub);
  fill(C, X.D, X.D, 2);
  if (!Sub.empty()) fill(C, X.D, X.D + Sub, 2);
  std::string Dir = X.D + Sub;
  std::string File = Dir + "/" + one(S, {"doc.nix", "doc.nix", "d o%c.nix", "unsaved.nix"});
  if (S.chance(70)) std::ofstream(File) << "1";
  std::vector<std::string> All;
  for (auto &E : fs::recursive_directory_iterator(X.D)) All.push_back(E.path().string());
  std::string T = S.chance(30) ? "# \xc3\xa9\xf0\x9f\x98\x80\n[ " : "[ ";
  for (unsigned N = 1 + S.small(4, 70); N; --N) {
    T += place(S, S.chance(60) ? known(S, Dir, All) : lit(S, X.D)) + one(S, {" ", "\n", " /* \xf0\x9f\x98\x80 */ "});
    if (S.chance(10)) T += one(S, {"<nixpkgs> ", "<a/b> ", "\"./a\" ", "http://a/b ", "/* ./a */ ", "# ./a\n"});
  }
  T += "]";
  C.show("file", File.substr(X.D.size()));
  C.show("text", T);
  auto R = ref::parse(T);
  if (!R.ok()) throw Discard{};
  std::vector<std::pair<Rg, std::string>> Want;
  std::vector<Rg> None;
  std::function<void(const ref::P &)> Go = [&](const ref::P &N) {
    bool Lit = N->K == ref::Path;
    for (auto &Y : N->Ch) Lit &= Y->K == ref::Lit;
    if (Lit || N->K == ref::SPath || N->K == ref::HomePath) {
      auto To = Lit ? resolve(Dir, T.substr(N->B, N->E - N->B)) : "";
      if (To.empty()) None.push_back({N->B, N->E});
      else Want.push_back({{N->B, N->E}, To});
    }
    for (auto &Y : N->Ch) Go(Y);
  };
  Go(R.Root);
  auto &V = server();
  auto U = uriOf(File);
  V.open(U, T);
  auto A = V.call("textDocument/documentLink", Object{{"textDocument", doc(U)}});
  check(A.Ok && A.Result.getAsArray(), "links", jg::text(A.Result) + A.Msg);
  std::set<std::pair<Rg, std::string>> Got, Need(Want.begin(), Want.end());
  for (auto &L : *A.Result.getAsArray()) {
    auto *O = L.getAsObject();
    auto *Rn = O ? O->get("range") : nullptr;
    auto To = O ? O->getString("target") : std::nullopt;
    check(Rn && To, "links", jg::text(L));
    check(Got.insert({rangeAt(T, *Rn), real(To->str())}).second, "twice", "linked twice: " + jg::text(L));
  }
  auto Show = [&](const std::set<std::pair<Rg, std::string>> &L) {
    std::string R;
    for (auto &[Rn, To] : L) R += "  " + T.substr(Rn.first, Rn.second - Rn.first) + " -> " + To + "\n";
    return R.empty() ? "  nothing\n" : R;
  };
  if (Got != Need) fail("links", "links\n" + Show(Got) + "instead of\n" + Show(Need));
  // Go to definition, on one that exists and one that does not.
  if (!Want.empty()) {
    auto &[Rn, To] = S.pick(Want);
    size_t At = Rn.first + 1 + (Rn.second - Rn.first > 2 ? S.below(Rn.second - Rn.first - 1) : 0);
    C.show("definition at", std::to_string(At));
    auto D = V.call("textDocument/definition", at(U, T, At));
    auto *O = D.Result.getAsObject();
    if (auto *L = D.Result.getAsArray(); L && L->size() == 1) O = L->front().getAsObject();
    check(D.Ok && O && O->getString("uri"), "definition", "of " + T.substr(Rn.first, Rn.second - Rn.first) + ": " + jg::text(D.Result) + D.Msg);
    check(real(O->getString("uri")->str()) == To, "definition", "of " + T.substr(Rn.first, Rn.second - Rn.first) + ": " + jg::text(D.Result) + " instead of " + To);
  }
  if (!None.empty()) {
    auto &Rn = S.pick(None);
    auto D = V.call("textDocument/definition", at(U, T, Rn.first + 1));
    check(!D.Ok || D.Result == Value(nullptr) || (D.Result.getAsArray() && D.Result.getAsArray()->empty()), "definition", "of " + T.substr(Rn.first, Rn.second - Rn.first) + " that leads nowhere: " + jg::text(D.Result));
  }
  V.close(U);
  V.sync();
  V.forget();
  C.label(Want.empty() ? "nothing to link" : "linked");
  C.nontrivial(!Want.empty());
});
}
