// USES: server
#include "srv/requests.h"
#include "gen/gen.h"
#include "core/text.h"
#include <set>
#include <unistd.h>
using namespace pbt;
using namespace srv;
namespace pbt {
const char *Rule = "a case opens a random text and sends random requests about it (and about other documents); non-trivial when the text has at least 4 bytes and at least "
                   "one request is answered with a non-empty result";
}
namespace {
Opts opts() {
  Opts O;
  O.Args = {"--semantic-tokens"};
  O.Caps = Object{{"workspace", Object{{"configuration", true}}},
                  {"textDocument", Object{{"completion", Object{{"completionItem", Object{{"snippetSupport", true}}}}}}}};
  return O;
}
std::string text(Src &S) {
  switch (S.weighted({5, 4, 2, 2})) {
  case 0: {
    gen::Opts O;
    O.Budget = 6 + S.below(30);
    O.Scoped = S.chance(70);
    O.Unicode = S.chance(50);
    O.NewLines = true;
    O.Shadow = S.chance(20);
    O.Dups = S.chance(20);
    if (S.chance(40)) O.Names = {"pkgs", "lib", "a", "b", "config", "x"};
    return gen::program(S, O);
  }
  case 1: return llvm::json::fixUTF8(gen::anyText(S));
  case 3: { // literals that may be cut off anywhere
    std::string T = S.pick<std::string>({"", "", "[ ", "{ a = ", "a ", "{ a.b = 1; c = "});
    int K = S.below(4);
    T += std::string(K == 0 ? "\"" : K == 1 ? "''" : K == 2 ? "./a" : "<a");
    for (unsigned N = S.small(6); N; --N) T += S.pick<std::string>({"a", "\xc3\xa9", "\xf0\x9d\x92\xb3", "\n", "  ", "'", "''", "$", "${x}", "${", "}", "\\", "\\n", "''\\", "''$", "\"", "/", "\r\n"});
    if (S.chance(30)) T += K == 0 ? "\"" : K == 1 ? "''" : K == 2 ? " " : ">";
    if (S.chance(20)) T += S.pick<std::string>({" ]", "; }", "}", "\n"});
    return T;
  }
  default: { // idioms of the providers and of the code actions
    std::string T;
    for (unsigned N = 1 + S.small(5); N; --N)
      T += S.pick({"{ pkgs, lib, ... }: ", "with pkgs; ", "with lib; ", "pkgs.", "lib.", "{ a.b = ", "config.x", "; }", "[ ", " ]", "inherit ", "(pkgs) ", "x = ", "let ", " in ", "\"a${x}b\"", "''\n  a\n''",
                   "{\"a\": [1, -2.5e3, null]}", "./a.nix", "rec { ", "} ", "pkgs.foo.bar", "lib.id", ".", "with ; ", "${x}", "\"\"", "a", "\n", "é", "𝒳", "foo = { bar = 1; };", "foo.bar = 1;", "foo = foo;", "foo = x.foo;"});
    return T;
  }
  }
}
Value world(Src &S) {
  Object Info{{"foo", Object{{"Meta", Object{{"Type", 3}, {"Location", nullptr}}}, {"PackageDesc", Object{{"Name", "foo"}, {"Version", "1.2"}, {"Description", "d"}, {"Position", S.pick({"/x/y.nix:3", "/x", ":", "a:b", "/x:99999999999999999999", ""})}}}, {"ValueDesc", nullptr}}}};
  return Object{{"info", std::move(Info)}};
}

Sub Any("requests", 4000, 60000, [](Ctx &C) {
  Src &S = C.S;
  static bool First = true;
  auto &V = shared(opts);
  First = false;
  std::string U = "file:///t/a.nix", T = text(S);
  C.show("text", esc(T));
  V.open(U, T);
  bool Some = false;
  struct Out { int Id; std::string D; };
  std::vector<Out> Sent;
  for (unsigned N = 3 + S.below(6); N; --N) {
    auto R = anyRequest(S, S.chance(4) ? "file:///t/none.nix" : U, T, true);
    std::string D = R.Method + " " + jg::text(Object(R.Params));
    C.show("req", D);
    Sent.push_back({V.send(R.Method, std::move(R.Params)), D});
    if (S.chance(40)) { // one at a time, or many at once
      for (auto &X : Sent) { auto A = V.wait(X.Id, 30000); Some |= A.Ok && A.Result != Value(nullptr) && A.Result != Value(Array{}); }
      Sent.clear();
    }
  }
  for (auto &X : Sent) { auto A = V.wait(X.Id, 30000); Some |= A.Ok && A.Result != Value(nullptr) && A.Result != Value(Array{}); }
  V.close(U);
  V.sync();
  C.nontrivial(Some && T.size() >= 4);
  if (Some) C.label("answered");
  V.forget();
});

/// Every position of a short text, and everything offered there is resolved.
Sub Every("every-position", 1500, 20000, [](Ctx &C) {
  Src &S = C.S;
  auto &V = shared(opts);
  std::string U = "file:///t/e.nix", T = text(S);
  if (T.size() > 60) {
    size_t B = S.below(T.size() - 40);
    T = llvm::json::fixUTF8(T.substr(B, 40));
  }
  C.show("text", esc(T));
  V.open(U, T);
  std::vector<int> Ids;
  std::vector<int> Acts, Compl;
  for (auto M : docMethods()) Ids.push_back(V.send(M, Object{{"textDocument", doc(U)}}));
  std::vector<size_t> Offs;
  for (size_t I = 0; I <= T.size(); ++I)
    if (I == T.size() || (T[I] & 0xC0) != 0x80) Offs.push_back(I);
  for (size_t I : Offs) {
    for (std::string M : atMethods()) {
      Object P{{"textDocument", doc(U)}, {"position", posAt(T, I)}};
      if (M == "textDocument/rename") P["newName"] = "renamed";
      Ids.push_back(V.send(M, std::move(P)));
      if (M == "textDocument/completion") Compl.push_back(Ids.back());
    }
    for (unsigned N = 0; N < 2; ++N) {
      size_t J = N ? S.pick(Offs) : I;
      Object P{{"textDocument", doc(U)}, {"range", Object{{"start", posAt(T, std::min(I, J))}, {"end", posAt(T, std::max(I, J))}}}, {"context", Object{{"diagnostics", Array{}}}}};
      Ids.push_back(V.send("textDocument/codeAction", std::move(P)));
      Acts.push_back(Ids.back());
    }
  }
  std::map<int, Reply> Rs;
  for (int I : Ids) Rs[I] = V.wait(I, 30000);
  std::vector<int> More;
  std::set<std::string> Seen;
  for (int I : Acts)
    if (auto *A = Rs[I].Result.getAsArray())
      for (auto &X : *A)
        if (Seen.insert(jg::text(X)).second && Seen.size() < 60) More.push_back(V.send("codeAction/resolve", X));
  for (int I : Compl)
    if (auto *O = Rs[I].Result.getAsObject())
      if (auto *A = O->getArray("items"))
        for (size_t K = 0; K < A->size() && K < 3; ++K)
          if (Seen.insert(jg::text((*A)[K])).second && Seen.size() < 90) More.push_back(V.send("completionItem/resolve", (*A)[K]));
  for (int I : More) V.wait(I, 30000);
  V.close(U);
  V.sync();
  V.forget();
  C.nontrivial(!More.empty());
});
/// Histories of a server of its own: before initialization, documents that
/// open, change and close under running requests, configurations that are
/// none, and parameters of every wrong shape.
Value damaged(Src &S, Value V, unsigned Depth = 0) {
  if (S.chance(25) || Depth > 4) return S.chance(40) ? jg::gen(S, 2) : Value(S.pick<int64_t>({-1, 0, 1, 2147483647, 4294967296ll, -9223372036854775807ll}));
  if (auto *O = V.getAsObject()) {
    if (O->empty()) return V;
    size_t I = S.below(O->size());
    bool Drop = S.chance(25);
    Object New; // erasing from an Object and copying it then is not safe in LLVM
    for (auto &[K, X] : *O)
      if (I-- != 0) New[K.str()] = X;
      else if (!Drop) New[K.str()] = damaged(S, X, Depth + 1);
    return New;
  } else if (auto *A = V.getAsArray()) {
    if (A->empty()) return V;
    auto &X = (*A)[S.below(A->size())];
    X = damaged(S, std::move(X), Depth + 1);
  } else return jg::gen(S, 1);
  return V;
}
Sub Sessions("sessions", 800, 10000, [](Ctx &C) {
  Src &S = C.S;
  Opts O = opts();
  O.Init = false;
  Server V(std::move(O));
  const std::vector<std::string> Us{"file:///t/a.nix", "file:///t/b.nix", "file:///t/c%20d.nix"};
  std::map<std::string, std::string> Docs;
  bool Ready = false;
  unsigned Version = 0, Answers = 0;
  std::vector<std::pair<int, std::string>> Ids;
  auto Send = [&](std::string M, Value P) {
    C.show("send", M + " " + jg::text(P).substr(0, 600));
    Ids.push_back({V.send(M, std::move(P)), M});
  };
  auto Tell = [&](std::string M, Value P) {
    C.show("tell", M + " " + jg::text(P).substr(0, 600));
    V.notify(M, std::move(P));
  };
  auto Wait = [&] {
    for (auto &[I, M] : Ids) {
      unsigned Ms = 30000;
      while (!V.poll(I) && Ms && !V.ended()) usleep(200), Ms -= Ms > 0;
      check(!V.ended(), "ended", "the server ended during " + M);
      auto A = V.poll(I);
      check(A.has_value(), "no-answer", "to " + M);
      Answers += A->Ok && A->Result != Value(nullptr) && A->Result != Value(Array{});
    }
    Ids.clear();
  };
  auto Initialize = [&] {
    Object P{{"processId", nullptr}, {"capabilities", Object{{"workspace", Object{{"configuration", S.chance(80)}}}, {"window", Object{{"workDoneProgress", S.chance(50)}}}}}};
    Send("initialize", std::move(P));
    if (S.chance(70)) Tell("initialized", Object{});
    Ready = true;
  };
  if (S.chance(75)) Initialize();
  for (unsigned N = 4 + S.below(26); N; --N) {
    auto U = S.pick(Us);
    auto D = Docs.find(U);
    switch (S.weighted({12, 4, 5, 2, 2, 2, 3, 1})) {
    case 0: {
      auto R = anyRequest(S, U, D == Docs.end() ? std::string("x") : D->second, true);
      Send(R.Method, std::move(R.Params));
      break;
    }
    case 1: {
      auto T = text(S);
      Docs[U] = T;
      Tell("textDocument/didOpen", Object{{"textDocument", Object{{"uri", U}, {"languageId", "nix"}, {"version", (int64_t)++Version}, {"text", T}}}});
      break;
    }
    case 2: {
      std::string Old = D == Docs.end() ? std::string("x") : D->second;
      Array L;
      for (unsigned K = 1 + S.small(3); K; --K) {
        auto T = S.chance(50) ? text(S).substr(0, 0) + S.pick<std::string>({"", "x", "\n", "{", "}", "''", "\"", "${", "\xc3\xa9"}) : text(S);
        if (S.chance(30)) L = Array{}, L.push_back(Object{{"text", T}}), Old = T;
        else {
          L.push_back(Object{{"range", anyRange(S, Old, S.chance(10))}, {"text", T}});
          break; // the ranges of later ones would need the text in between
        }
      }
      // The text is tracked roughly: positions of other texts are allowed too.
      if (D != Docs.end()) D->second = Old;
      Tell("textDocument/didChange", Object{{"textDocument", Object{{"uri", U}, {"version", (int64_t)++Version}}}, {"contentChanges", std::move(L)}});
      break;
    }
    case 3:
      Docs.erase(U);
      Tell("textDocument/didClose", Object{{"textDocument", doc(U)}});
      break;
    case 4: {
      Value Cfg = Array{Object{{"nixpkgs", Object{{"expr", jg::text(world(S))}}}, {"options", Object{{S.pick<std::string>({"nixos", "x", ""}), Object{{"expr", "{}"}}}}},
                                {"formatting", Object{{"command", Array{"cat"}}}}, {"diagnostic", Object{{"suppress", Array{"sema-undefined-variable"}}}}}};
      if (S.chance(60)) Cfg = damaged(S, std::move(Cfg));
      C.show("configuration", jg::text(Cfg).substr(0, 500));
      V.configAnswer(std::move(Cfg));
      Tell("workspace/didChangeConfiguration", Object{{"settings", nullptr}});
      break;
    }
    case 5: { // wrong parameters
      auto R = anyRequest(S, U, D == Docs.end() ? std::string("x") : D->second, true);
      Send(R.Method, damaged(S, std::move(R.Params)));
      break;
    }
    case 6: {
      switch (S.below(6)) {
      case 0: Send("textDocument/formatting", Object{{"textDocument", doc(U)}, {"options", Object{{"tabSize", 2}, {"insertSpaces", true}}}}); break;
      case 1: Send("completionItem/resolve", damaged(S, Object{{"label", "foo"}, {"kind", 5}, {"data", S.pick<std::string>({"", "x", "{}", "[]", "null", "{\"Scope\":[],\"Prefix\":\"f\"}", "{\"Scope\":[1],\"Prefix\":\"f\"}"})}})); break;
      case 2: Send("codeAction/resolve", damaged(S, Object{{"title", "x"}, {"kind", "refactor"}, {"data", Object{{"noogleUrl", S.pick<std::string>({"", "x", "https://noogle.dev/f/lib/id"})}}}})); break;
      case 3: Send(S.pick<std::string>({"workspace/symbol", "", "textDocument", "$/x", "initialized", "shutdown"}), jg::gen(S, 2)); break;
      case 4: Tell(S.pick<std::string>({"textDocument/didSave", "$/cancelRequest", "x", "textDocument/hover", "textDocument/didOpen", "textDocument/didChange", "textDocument/didClose"}), damaged(S, Object{{"textDocument", Object{{"uri", U}, {"version", 1}, {"text", "x"}}}, {"contentChanges", Array{Object{{"text", "y"}}}}})); break;
      default: Initialize();
      }
      break;
    }
    default: Wait();
    }
  }
  if (!Ready) Initialize();
  Wait();
  V.sync();
  std::string Why;
  check(!V.badFrames(Why), "frames", Why);
  // And it still works.
  V.open("file:///t/z.nix", "let a = 1; in a");
  auto R = V.call("textDocument/definition", at("file:///t/z.nix", "let a = 1; in a", 14));
  check(R.Ok && R.Result.getAsObject(), "degraded", jg::text(R.Result) + R.Msg);
  V.forget();
  C.nontrivial(Answers);
});
}
