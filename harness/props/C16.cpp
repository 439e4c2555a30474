// USES: server
#include "srv/requests.h"
#include "srv/scoped.h"
#include "core/text.h"
using namespace pbt;
using namespace srv;
namespace pbt {
const char *Rule = "A case runs a random history over three documents (open, whole, incremental and batched changes, close, reopen, requests in flight, changed configuration) in one server. At random "
                   "points every document is compared with a second document freshly opened with the same text: diagnostics and answers must be equal. Non-trivial: distinct histories of three or more "
                   "changes of a document whose answers are not all empty.";
}
namespace {
std::string text(Src &S) {
  switch (S.weighted({6, 2, 1})) {
  case 0: {
    auto O = scopedOpts(S);
    O.UndefPct = 20;
    O.Dups = S.chance(30);
    return gen::program(S, O);
  }
  case 1: return llvm::json::fixUTF8(gen::anyText(S));
  default: return S.pick({"", " ", "{ }: 1", "let a = 1; in b", "with 1; a", "[", "x: y: x", "rec { }", "let x = 1; in\n\n\n x"});
  }
}
/// Random changes from T, and the text they lead to.
Array changes(Src &S, std::string &T) {
  Array R;
  for (unsigned N = 1 + (S.chance(30) ? S.below(3) : 0); N; --N) {
    if (S.chance(20)) {
      T = text(S);
      R.push_back(Object{{"text", T}});
      continue;
    }
    size_t A = anyOff(S, T), B = S.chance(40) ? A : anyOff(S, T);
    if (A > B) std::swap(A, B);
    if (B - A > 20 && S.chance(70)) { B = A; }
    std::string Ins = S.pick<std::string>({"", "a", " ", "\n", "é", "𝒳", "x = 1; ", "}", "{", "let a = 1; in ", "''", "\"", ";", "with x; ", "rec "});
    auto Rng = Object{{"start", posAt(T, A)}, {"end", posAt(T, B)}};
    T = T.substr(0, A) + Ins + T.substr(B);
    R.push_back(Object{{"range", std::move(Rng)}, {"text", Ins}});
  }
  return R;
}
std::string under(const Value &V, const std::string &U) { // without the name of the document
  auto T = jg::text(V);
  for (size_t P = 0; (P = T.find(U, P)) != std::string::npos;) T.replace(P, U.size(), "DOC");
  return T;
}
std::string shown(const Reply &R, const std::string &U) { return R.Ok ? under(R.Result, U) : "error: " + R.Msg; }
bool empty(const Reply &R, const std::string &U) {
  auto T = shown(R, U);
  return T == "null" || T == "[]" || T.starts_with("{\"data\":[]") || !R.Ok;
}
std::string diagsOf(Server &V, const std::string &U) {
  auto D = V.diags(U);
  if (!D) return "none";
  auto *O = D->getAsObject();
  check(O && O->getArray("diagnostics"), "diagnostics", jg::text(*D));
  return under(*O->get("diagnostics"), U);
}
struct Doc { std::string U, T; bool Open = false; int64_t Ver = 0; };
const char *Kinds[] = {"sema-undefined-variable", "sema-unused-def-let", "parse-expected", "sema-extra-with", "sema-duplicated-attrname", "sema-unused-def-lambda-noformal-arg", "no-such-kind"};
Value config(Src &S) {
  Array Sup;
  for (unsigned N = S.below(4); N; --N) Sup.push_back(S.pick(std::vector<std::string>(std::begin(Kinds), std::end(Kinds))));
  return Object{{"diagnostic", Object{{"suppress", std::move(Sup)}}}};
}
/// The state of D must be that of a fresh document with its text.
bool compare(Ctx &C, Server &V, Doc &D, bool Requests) {
  V.sync();
  auto &S = C.S;
  std::string F = D.U.substr(0, D.U.rfind('/')) + "/fresh.nix"; // links and new files are beside it
  if (!D.Open) {
    auto G = diagsOf(V, D.U);
    check(G == "none" || G == "[]", "closed", "diagnostics of a closed document: " + G);
    auto R = V.call(S.pick(docMethods()), Object{{"textDocument", doc(D.U)}});
    check(empty(R, D.U), "closed", "an answer about a closed document: " + shown(R, D.U));
    return false;
  }
  V.open(F, D.T, 1);
  V.sync();
  auto A = diagsOf(V, D.U), B = diagsOf(V, F);
  if (A != B) fail("diagnostics", "after its history the document has the diagnostics\n  " + A + "\nfreshly opened\n  " + B + "\ntext: " + D.T);
  if (auto X = V.diags(D.U)) {
    auto Ver = X->getAsObject()->getInteger("version");
    check(!Ver || *Ver == D.Ver, "version", "diagnostics of version " + std::to_string(Ver.value_or(-1)) + ", the document is at " + std::to_string(D.Ver));
  }
  bool Some = false;
  if (Requests) {
    std::vector<Request> Rs;
    for (auto *M : docMethods()) Rs.push_back({M, Object{}});
    for (unsigned N = 4; N; --N) Rs.push_back(anyRequest(S, D.U, D.T, false));
    for (auto &R : Rs) {
      Object P1 = R.Params, P2 = R.Params;
      P1["textDocument"] = doc(D.U), P2["textDocument"] = doc(F);
      int I1 = V.send(R.Method, std::move(P1)), I2 = V.send(R.Method, std::move(P2));
      auto A1 = shown(V.wait(I1), D.U), A2 = shown(V.wait(I2), F);
      if (A1 != A2) fail("answers", R.Method + " " + jg::text(Object(R.Params)) + ": after its history the document answers\n  " + A1 + "\nfreshly opened\n  " + A2 + "\ntext: " + D.T);
      Some |= A1.size() > 12;
    }
  }
  V.close(F);
  V.sync();
  auto G = diagsOf(V, F);
  check(G == "[]", "closed", "diagnostics after the document is closed: " + G);
  return Some;
}
void act(Ctx &C, Server &V, std::vector<Doc> &Ds, unsigned &Changes) {
  auto &S = C.S;
  auto &D = Ds[S.below(Ds.size())];
  if (!D.Open && S.chance(10)) { // nothing to change or close
    C.show("stray", D.U);
    if (S.below(2)) V.close(D.U);
    else V.change(D.U, Array{Object{{"text", text(S)}}}, 3);
    return;
  }
  if (!D.Open || S.chance(4)) {
    D.T = text(S);
    D.Open = true;
    D.Ver = S.chance(10) ? S.pick<int64_t>({255, 65535, 2147483000, 4294967295}) : S.below(5);
    C.show("open " + D.U, esc(D.T));
    V.open(D.U, D.T, D.Ver);
    return;
  }
  if (S.chance(12)) {
    C.show("close", D.U);
    V.close(D.U);
    D.Open = false;
    return;
  }
  if (S.chance(4) && !D.T.empty()) { // does not fit: the text stays, or the document is given up
    auto T = D.T;
    Array Ch;
    if (S.below(2)) Ch = changes(S, T);
    if (T.empty()) return;
    Ch.push_back(Object{{"range", Object{{"start", posAt(T, T.size())}, {"end", posAt(T, 0)}}}, {"text", "oops"}});
    if (S.below(2)) Ch.push_back(Object{{"text", text(S)}});
    C.show("misfit " + D.U, jg::text(Array(Ch)));
    V.change(D.U, std::move(Ch), D.Ver + 1);
    V.sync();
    auto G = diagsOf(V, D.U);
    D.Open = G != "none" && G != "[]";
    for (auto *M : docMethods()) D.Open |= !empty(V.call(M, Object{{"textDocument", doc(D.U)}}), D.U);
    C.label(D.Open ? "misfit kept" : "misfit closed");
    return;
  }
  auto Ch = changes(S, D.T);
  D.Ver += 1 + S.below(3);
  C.show("change " + D.U, jg::text(Array(Ch)));
  V.change(D.U, std::move(Ch), D.Ver);
  ++Changes;
}
std::vector<Doc> docs() { return {{"file:///t/one.nix"}, {"file:///t/two%20%C3%A9.nix"}, {"file:///t/d/one.nix"}}; }
void finish(Server &V, std::vector<Doc> &Ds) {
  for (auto &D : Ds) if (D.Open) V.close(D.U), D.Open = false;
  V.sync();
  V.forget();
}

Sub History("history", 450, 12000, [](Ctx &C) {
  auto &S = C.S;
  auto &V = shared(plainOpts);
  auto Ds = docs();
  unsigned Changes = 0;
  bool Some = false;
  for (unsigned N = 2 + S.below(14); N; --N) {
    act(C, V, Ds, Changes);
    auto &D = Ds[S.below(Ds.size())];
    if (S.chance(25)) { // it may be answered after the next change, but it is answered
      auto R = anyRequest(S, D.U, D.T, false);
      V.send(R.Method, std::move(R.Params));
    }
    if (S.chance(15)) {
      auto Cf = config(S);
      C.show("configuration", jg::text(Cf));
      V.configure(std::move(Cf));
    }
    if (S.chance(25)) Some |= compare(C, V, D, S.chance(50));
  }
  for (auto &D : Ds) Some |= compare(C, V, D, true);
  finish(V, Ds);
  C.nontrivial(Some && Changes >= 3);
});

// Changes of the configuration and of documents at the same time.
Sub Storm("configuration-at-any-time", 250, 8000, [](Ctx &C) {
  auto &S = C.S;
  auto &V = shared(plainOpts);
  auto Ds = docs();
  unsigned Changes = 0;
  std::string Probe = "file:///t/probe.nix";
  V.open(Probe, "1");
  // Publishing these takes a while.
  std::vector<std::string> Big{"file:///t/big1.nix", "file:///t/big2.nix", "file:///t/big3.nix"};
  for (auto &B : Big) {
    std::string T = "[";
    for (int I = 0; I < 60; ++I) T += " undefinedName";
    V.open(B, T + " ]");
  }
  V.sync();
  V.forget();
  size_t Rounds = 0, Before = V.published(Probe);
  auto Done = [&] { return V.published(Probe) >= Before + Rounds; };
  auto Wait = [&] {
    for (unsigned K = 0; K < 600000 && !Done(); ++K) usleep(100);
    check(Done(), "configuration", "a new configuration never came into force");
  };
  for (unsigned N = 4 + S.below(14); N; --N) {
    if (S.chance(40)) {
      Wait(); // one at a time: the server does not order them
      auto Cf = config(S);
      C.show("configuration", jg::text(Cf));
      V.config(std::move(Cf));
      V.notify("workspace/didChangeConfiguration", Object{{"settings", nullptr}});
      ++Rounds;
      for (unsigned N = S.below(25); N; --N) act(C, V, Ds, Changes);
    } else act(C, V, Ds, Changes);
    if (S.chance(10)) usleep(S.below(300));
  }
  V.sync();
  Wait();
  V.close(Probe);
  for (auto &B : Big) V.close(B);
  V.sync();
  for (auto &D : Ds) compare(C, V, D, false);
  finish(V, Ds);
  C.nontrivial(Rounds >= 1 && Changes >= 3);
});
const bool More = (Storm.Retries = 80, true);
}
