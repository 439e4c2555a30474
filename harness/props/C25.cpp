// USES: server
#include "core/text.h"
#include "srv/actions.h"
#include <filesystem>
#include <fstream>
#include <nixf/Basic/Diagnostic.h>
#include <nixf/Parse/Parser.h>
#include <nixf/Sema/VariableLookup.h>
#include <sstream>
#include <unistd.h>
using namespace pbt;
using namespace srv;
namespace pbt {
const char *Rule = "Random valid and broken documents under random configurations in the running server. What is published and offered as quick fixes is compared, in order and in every field, with the diagnostics that the "
                   "analysis library gives for the text; fixes are applied; malformed configurations are mixed in; providers are followed by the evaluator's log. Non-trivial: cases with a diagnostic, a fix, "
                   "a documentation link or a configured provider.";
}
namespace {
std::string one(Src &S, std::initializer_list<const char *> L) { return *(L.begin() + S.below(L.size())); }
Server &server() { return shared(plainOpts); }
std::vector<nixf::Diagnostic> analyse(const std::string &T) {
  std::vector<nixf::Diagnostic> Ds;
  auto N = nixf::parse(T, Ds);
  if (N) {
    nixf::VariableLookupAnalysis A(Ds);
    A.runOnAST(*N);
  }
  return Ds;
}
Value range(const std::string &T, nixf::LexerCursorRange R) { return Object{{"start", posAt(T, R.lCur().offset())}, {"end", posAt(T, R.rCur().offset())}}; }
int severity(nixf::Diagnostic::DiagnosticKind K) {
  switch (nixf::Diagnostic::severity(K)) {
  case nixf::Diagnostic::DS_Fatal:
  case nixf::Diagnostic::DS_Error: return 1;
  case nixf::Diagnostic::DS_Warning: return 2;
  case nixf::Diagnostic::DS_Info: return 3;
  default: return 4;
  }
}
Array tags(const std::vector<nixf::DiagnosticTag> &Ts) {
  Array R;
  for (auto T : Ts) R.push_back(T == nixf::DiagnosticTag::Faded ? 1 : 2);
  return R;
}
Object diag(Value Range, int Sev, llvm::StringRef Code, std::string Msg, Array Tags) {
  Object O{{"range", std::move(Range)}, {"severity", Sev}, {"code", Code.str()}, {"source", "nixf"}, {"message", std::move(Msg)}};
  if (!Tags.empty()) O["tags"] = std::move(Tags);
  return O;
}
Object related(const std::string &U, Value Range, std::string Msg) { return Object{{"location", Object{{"uri", U}, {"range", std::move(Range)}}}, {"message", std::move(Msg)}}; }
/// What must be published.
Array wanted(const std::string &U, const std::string &T, const std::set<std::string> &Suppressed) {
  Array R;
  for (auto &D : analyse(T)) {
    if (Suppressed.count(D.sname())) continue;
    std::string M = D.format();
    if (D.fixes().size() == 1) M += " (fix available)";
    if (D.fixes().size() > 1) M += " (" + std::to_string(D.fixes().size()) + " fixes available)";
    auto O = diag(range(T, D.range()), severity(D.kind()), D.sname(), M, tags(D.tags()));
    Array Rel, Notes;
    for (auto &N : D.notes()) {
      Rel.push_back(related(U, range(T, N.range()), N.format()));
      auto NO = diag(range(T, N.range()), 4, N.sname(), N.format(), tags(N.tags()));
      NO["relatedInformation"] = Array{related(U, range(T, D.range()), "original diagnostic")};
      Notes.push_back(std::move(NO));
    }
    if (!Rel.empty()) O["relatedInformation"] = std::move(Rel);
    R.push_back(std::move(O));
    for (auto &N : Notes) R.push_back(N);
  }
  return R;
}
/// Sorted by position and content; without fields that say nothing.
std::vector<std::string> shown(const Array &A) {
  std::vector<std::string> R;
  for (Value V : A) {
    if (auto *O = V.getAsObject())
      for (const char *K : {"tags", "relatedInformation"})
        if (auto *X = O->getArray(K); X && X->empty()) O->erase(K);
    R.push_back(jg::text(V));
  }
  std::sort(R.begin(), R.end());
  return R;
}
std::string join(const std::vector<std::string> &L) {
  std::string R;
  for (auto &X : L) R += "  " + X + "\n";
  return R.empty() ? "  nothing\n" : R;
}
std::string program(Src &S) {
  std::string T;
  switch (S.weighted({4, 3, 2, 2})) {
  case 0: {
    auto O = scopedOpts(S);
    O.UndefPct = 20;
    O.Dups = S.chance(40);
    O.Shadow = S.chance(50);
    T = gen::program(S, O);
    break;
  }
  case 1: {
    auto O = gen::Opts();
    O.Budget = 4 + S.below(20);
    T = gen::damaged(S, O);
    break;
  }
  case 2: T = gen::anyText(S); break;
  default: T = one(S, {"let a = 1; b = 2; in b", "{ a, b ? 1, ... }@c: a", "with 1; 2", "rec { a = 1; }", "let x = y; in z", "{ a = 1; a = 2; b.c = 1; b = 2; }", "\xc3\xa9 let in", "let \xc3\xa9 = 1; in 1", "(1", "\"a\xf0\x9f\x98\x80${b", "{ x, x }: x", "a . b or", "[ 1 2", "f = 1", "if a then b", "x@{ ... }: 1", "let inherit (a) b c; in b", "http://a.b", "''\n \xf0\x9f\x98\x80 ${a", "let /* \xf0\x9f\x98\x80 */ a = 1; in /* \xc3\xa9 */ b"}); break;
  }
  return llvm::json::fixUTF8(T);
}
/// Every kind this version has.
const std::vector<std::string> &kinds() {
  static std::vector<std::string> V;
  if (V.empty()) {
    std::set<std::string> Seen;
    for (int K = 0; K < 200; ++K) {
      const char *N = nullptr;
      // Enumerators are dense; the last one is followed by nothing.
      if (K > nixf::Diagnostic::DK_ConstantOverridden) break;
      N = nixf::Diagnostic::sname((nixf::Diagnostic::DiagnosticKind)K);
      if (Seen.insert(N).second) V.push_back(N);
    }
  }
  return V;
}
std::set<std::string> suppression(Src &S, const std::string &T, Array &Out) {
  std::set<std::string> R;
  auto Ds = analyse(T);
  for (unsigned N = S.below(4); N; --N) {
    std::string K = !Ds.empty() && S.chance(70) ? S.pick(Ds).sname() : S.chance(70) ? S.pick(kinds()) : one(S, {"no-such-kind", "", "Sema-Unused-Def-Let", "sema", "sema-unused-def-let ", "note-prev", "to-match-this"});
    Out.push_back(K);
    R.insert(K);
  }
  return R;
}
const Array &published(Server &V, const std::string &U) {
  static Value Keep = nullptr;
  auto D = V.diags(U);
  check(D.has_value(), "published", "no diagnostics are published");
  Keep = *D;
  auto *O = Keep.getAsObject();
  check(O && O->getArray("diagnostics") && O->getString("uri") == U, "published", jg::text(Keep));
  return *O->getArray("diagnostics");
}
void compare(Server &V, const std::string &U, const std::string &T, const std::set<std::string> &Sup, const char *When) {
  auto Want = shown(wanted(U, T, Sup)), Got = shown(published(V, U));
  if (Want != Got) fail("published", std::string(When) + ": published\n" + join(Got) + "instead of\n" + join(Want));
}
void stop(Server &V, const std::string &U) {
  V.close(U);
  V.sync();
  V.forget();
}
Value broken(Src &S, bool &Whole) {
  Whole = S.chance(40);
  if (Whole)
    switch (S.below(5)) {
    case 0: return Array{};
    case 1: return nullptr;
    case 2: return Object{};
    case 3: return "x";
    default: return Array{Array{}};
    }
  switch (S.below(8)) {
  case 0: return Object{{"diagnostic", 5}};
  case 1: return Object{{"diagnostic", Object{{"suppress", "parse-expected"}}}};
  case 2: return Object{{"diagnostic", Object{{"suppress", Array{1}}}}};
  case 3: return Object{{"nixpkgs", Object{{"expr", 3}}}, {"diagnostic", Object{{"suppress", Array{}}}}};
  case 4: return Object{{"options", Array{}}, {"diagnostic", Object{{"suppress", Array{}}}}};
  case 5: return Object{{"options", Object{{"a", 1}}}, {"diagnostic", Object{{"suppress", Array{}}}}};
  case 6: return Object{{"formatting", Array{1, 2}}, {"diagnostic", Object{{"suppress", Array{}}}}};
  default: return true;
  }
}

Sub Published("published", 5000, 150000, [](Ctx &C) {
  auto &S = C.S;
  auto T = program(S);
  C.show("text", T);
  auto &V = server();
  std::string U = one(S, {"file:///t/diag.nix", "file:///t/d%20%C3%A9.nix"});
  Array L;
  auto Sup = suppression(S, T, L);
  C.show("suppress", jg::text(Value(Array(L))));
  bool Before = S.chance(50);
  auto Conf = [&] {
    Object O;
    if (!L.empty() || S.chance(50)) O["diagnostic"] = L.empty() && S.chance(30) ? Object{} : Object{{"suppress", Array(L)}};
    if (S.chance(20)) O["formatting"] = Object{{"command", S.chance(50) ? Array{"cat"} : Array{}}};
    if (S.chance(10)) O["unknown"] = 1;
    return O;
  };
  if (Before) V.configure(Conf());
  std::set<std::string> Now;
  if (Before) Now = Sup;
  V.open(U, T, 3);
  V.sync();
  if (Before) compare(V, U, T, Now, "after opening");
  if (!Before) {
    V.configure(Conf());
    compare(V, U, T, Sup, "after the configuration");
  }
  if (S.chance(15)) { // A configuration that cannot be read changes nothing.
    bool Whole;
    auto B = broken(S, Whole);
    C.show("broken", jg::text(B));
    if (Whole) V.configAnswer(std::move(B));
    else V.config(std::move(B));
    size_t Calls = V.calls("workspace/configuration").size();
    V.notify("workspace/didChangeConfiguration", Object{{"settings", nullptr}});
    for (int I = 0; I < 20000 && V.calls("workspace/configuration").size() == Calls; ++I) usleep(500);
    V.sync();
    usleep(3000);
    auto T2 = program(S);
    C.show("text", T2);
    V.change(U, Array{Object{{"text", T2}}}, 4);
    V.sync();
    compare(V, U, T2, Sup, "after a malformed configuration");
    C.label("malformed configuration");
    T = T2;
  }
  auto Ds = analyse(T);
  for (auto &D : Ds) C.label(D.sname());
  if (!Sup.empty()) C.label("suppressed");
  C.nontrivial(!Ds.empty());
  stop(V, U);
});

Sub Quick("quick-fixes", 5000, 150000, [](Ctx &C) {
  auto &S = C.S;
  auto T = program(S);
  C.show("text", T);
  auto &V = server();
  std::string U = "file:///t/diag.nix";
  auto Ds = analyse(T);
  V.open(U, T);
  size_t B = anyOff(S, T), E = B;
  if (!Ds.empty() && S.chance(70)) {
    auto &D = S.pick(Ds);
    B = D.range().lCur().offset(), E = D.range().rCur().offset();
    switch (S.below(4)) {
    case 0: E = B; break;
    case 1: B = E; break;
    case 2: B = 0, E = T.size(); break;
    default: break;
    }
  } else if (S.chance(50)) E = anyOff(S, T);
  if (B > E) std::swap(B, E);
  C.show("at", std::to_string(B) + "-" + std::to_string(E));
  // Positions of a text are compared as the editor has them.
  auto Key = [&](const Value &P) { return std::pair(*P.getAsObject()->getInteger("line"), *P.getAsObject()->getInteger("character")); };
  std::vector<std::string> Want, Got;
  std::map<std::string, std::string> Results;
  unsigned K = 0;
  for (auto &D : Ds) {
    auto R = range(T, D.range());
    auto &O = *R.getAsObject();
    if (!(Key(posAt(T, B)) <= Key(*O.get("end")) && Key(*O.get("start")) <= Key(posAt(T, E)))) continue;
    for (auto &F : D.fixes()) {
      Array Edits;
      for (auto &X : F.edits()) Edits.push_back(Object{{"range", range(T, X.oldRange())}, {"newText", std::string(X.newText())}});
      auto Es = shown(Edits);
      Want.push_back((llvm::StringRef(D.sname()) == "sema-unused-def-let" ? "preferred " : "") + F.message() + "\n" + join(Es));
      ++K;
      C.label(D.sname());
    }
  }
  for (auto &A : actionsAt(V, U, T, B, E)) {
    if (A.Kind != "quickfix") continue;
    auto *Ed = A.Raw.getObject("edit");
    auto *Ch = Ed ? Ed->getObject("changes") : nullptr;
    auto *L = Ch ? Ch->getArray(U) : nullptr;
    if (A.titled("add `") && llvm::StringRef(A.Title).ends_with("to formals")) continue; // of C23
    check(L && Ch->size() == 1, "edit", "`" + A.Title + "` has the edit " + (Ed ? jg::text(Value(Object(*Ed))) : "none"));
    Got.push_back((A.Preferred ? "preferred " : "") + A.Title + "\n" + join(shown(*L)));
    after(A, U, T);
  }
  std::sort(Want.begin(), Want.end());
  std::sort(Got.begin(), Got.end());
  if (Want != Got) fail("fixes", "offered:\n" + join(Got) + "instead of:\n" + join(Want));
  stop(V, U);
  C.nontrivial(K);
});

/// Percent-decodes, and checks that only characters of URLs are there.
std::string decoded(const std::string &X) {
  std::string R;
  for (size_t I = 0; I < X.size(); ++I) {
    check(isalnum((unsigned char)X[I]) || strchr("-._~!$&'()*+,;=:@%", X[I]), "url", "`" + X + "` is no part of a URL");
    if (X[I] != '%') { R += X[I]; continue; }
    check(I + 2 < X.size() && isxdigit((unsigned char)X[I + 1]) && isxdigit((unsigned char)X[I + 2]), "url", "`" + X + "` is no part of a URL");
    R += (char)std::stoi(X.substr(I + 1, 2), nullptr, 16);
    I += 2;
  }
  return R;
}
Sub Resolve("resolve", 3000, 80000, [](Ctx &C) {
  auto &S = C.S;
  auto Name = [&] { return S.chance(75) ? one(S, {"map", "strings", "concatStrings", "a", "lib", "optional'", "x-y", "_"}) : one(S, {"\"map\"", "\"a b\"", "\"a/b\"", "\"?x#\"", "\"\xc3\xa9\"", "\"%41\"", "${x}", "\"a${x}\"", "${\"map\"}", "\"\\n\"", "\"\"", "or"}); };
  std::string Base = one(S, {"lib", "lib", "lib", "lib", "libs", "(lib)", "pkgs", "pkgs.lib", "lib.x", "{ }"});
  std::string Path = Base, Tail;
  std::vector<std::string> Want{"lib"};
  bool Ok = Base == "lib" || Base == "lib.x";
  if (Base == "lib.x") Want.push_back("x");
  size_t From = std::string::npos, To = 0;
  for (unsigned N = 1 + S.small(3, 50); N; --N) {
    auto X = Name();
    Path += one(S, {".", ".", ".", " . ", "\n."});
    From = Path.size() + 1;
    if (X == "or") X = "orr";
    Path += X;
    To = Path.size() - 1;
    if (X[0] == '$' || X.find("${") != std::string::npos) Ok = Ok && X == "${\"map\"}", Want.push_back("map");
    else if (X[0] == '"') Want.push_back(X == "\"\\n\"" ? "\n" : X.substr(1, X.size() - 2));
    else Want.push_back(X);
  }
  bool Dyn = Path.find('$') != std::string::npos;
  if (S.chance(20)) Tail = " or 1";
  auto Pre = one(S, {"", "{ lib, x, ... }: ", "map (", "[ ", "/* \xf0\x9f\x98\x80 */ "});
  std::string T = Pre + Path + Tail + (Pre == "map (" ? ")" : Pre == "[ " ? " ]" : "");
  C.show("text", T);
  if (!ref::parse(T).ok()) throw Discard{};
  auto &V = server();
  std::string U = "file:///t/diag.nix";
  V.open(U, T);
  size_t At = Pre.size() + (Base[0] != '(' && Base[0] != '{' && S.chance(30) ? 1 : From + S.below(To > From ? To - From + 1 : 1));
  while (At < T.size() && (T[At] & 0xc0) == 0x80) ++At;
  if (Dyn) At = Pre.size() + 1; // not inside of an interpolation
  C.show("at", std::to_string(At));
  auto L = actionsAt(V, U, T, At, At);
  unsigned K = 0;
  for (auto &A : L) {
    V.forget();
    auto R = V.call("codeAction/resolve", Object(A.Raw));
    check(R.Ok, "resolve", R.Msg);
    check(R.Result == Value(Object(A.Raw)), "resolve", "resolves to\n" + jg::text(R.Result) + "\ninstead of\n" + jg::text(Value(Object(A.Raw))));
    bool Doc = A.titled("Open Noogle");
    if (!Doc) {
      auto *Ed = A.Raw.get("edit");
      check(Ed && Ed->getAsObject(), "edit", "`" + A.Title + "` does nothing");
    }
    V.sync();
    auto Calls = V.calls("window/showDocument");
    for (int I = 0; Doc && I < 20000 && Calls.empty(); ++I) usleep(200), Calls = V.calls("window/showDocument");
    check(Calls.size() == Doc, "show", "`" + A.Title + "` opens " + std::to_string(Calls.size()) + " documents");
    if (!Doc) continue;
    ++K;
    auto *O = Calls[0].getAsObject();
    auto Url = O ? O->getString("uri").value_or("").str() : "";
    check(O && O->getBoolean("external") == true, "show", jg::text(Calls[0]));
    check(llvm::StringRef(Url).starts_with("https://noogle.dev/f/"), "url", Url);
    std::vector<std::string> Got;
    std::stringstream SS(Url.substr(21));
    for (std::string X; std::getline(SS, X, '/');) Got.push_back(decoded(X));
    if (!Url.empty() && Url.back() == '/') Got.push_back("");
    check(Got == Want, "url", "`" + Path + "` opens " + Url);
    C.label("documentation");
  }
  check(K == (Ok ? 1 : 0) || (Dyn && K <= 1), "offered", "documentation is offered " + std::to_string(K) + " times for `" + Path + "`");
  stop(V, U);
  C.nontrivial(!L.empty());
});

std::string nixdExe() {
  char Self[4096];
  ssize_t N = readlink("/proc/self/exe", Self, sizeof Self - 1);
  std::string Exe(Self, N);
  setenv("NIXD_ATTRSET_EVAL", Exe.c_str(), 1);
  return Exe.substr(0, Exe.rfind('/')) + "/asan/nixd";
}
Sub Providers("providers", 60, 1500, [](Ctx &C) {
  auto &S = C.S;
  char Dir[] = "/tmp/pbt-conf-XXXXXX";
  check(mkdtemp(Dir), "setup", "mkdtemp");
  struct Rm { std::string D; ~Rm() { std::error_code E; std::filesystem::remove_all(D, E); } } Rm{Dir};
  unsigned Log = 0;
  std::vector<std::pair<std::string, std::string>> Expect; // log file, expression
  auto World = [&](Src &S) {
    Object W{{"log", std::string(Dir) + "/" + std::to_string(++Log)}};
    std::string N = "pkg" + std::to_string(S.below(3));
    W["complete"] = Object{{"", Array{N}}};
    auto T = jg::text(Value(std::move(W)));
    Expect.push_back({std::string(Dir) + "/" + std::to_string(Log), T});
    return T;
  };
  auto Config = [&] {
    Object O;
    if (S.chance(60)) O["nixpkgs"] = Object{{"expr", World(S)}};
    if (S.chance(60)) {
      Object L;
      for (unsigned N = 1 + S.below(3); N; --N) {
        auto Name = one(S, {"nixos", "home-manager", "a b", "\xc3\xa9"});
        if (!L.get(Name)) L[Name] = Object{{"expr", World(S)}};
      }
      O["options"] = std::move(L);
    }
    if (S.chance(40)) O["diagnostic"] = Object{{"suppress", Array{"sema-unused-def-let"}}};
    return O;
  };
  auto Check = [&](const char *When) {
    for (auto &[F, X] : Expect) {
      std::string Want = "attrset/evalExpr " + jg::text(Value(X)) + "\n", Got;
      for (int I = 0; I < 30000; ++I) {
        std::ifstream In(F);
        std::stringstream SS;
        SS << In.rdbuf();
        Got = SS.str();
        if (Got.size() >= Want.size()) break;
        usleep(1000);
      }
      check(Got == Want, "evaluated", std::string(When) + ": the provider saw\n" + Got + "instead of\n" + Want);
    }
    C.nontrivial(!Expect.empty());
    Expect.clear();
  };
  Opts O;
  auto First = Config();
  bool Capable = S.chance(70);
  O.Caps = Object{{"workspace", Object{{"configuration", Capable}}}, {"window", Object{{"workDoneProgress", true}}}};
  // Defaults and an initial configuration come from the command line.
  O.Args = {"--config=" + (First.empty() && S.chance(50) ? "" : jg::text(Value(Object(First)))), "--nixpkgs-expr=" + World(S), "--nixos-options-expr=" + World(S), "--semantic-tokens=false"};
  for (auto &A : O.Args) C.show("argument", A);
  O.Exe = nixdExe();
  Server V(std::move(O));
  std::string U = "file:///t/conf.nix", T = "let a = 1; in b";
  V.open(U, T);
  V.sync();
  std::set<std::string> Sup;
  if (First.get("diagnostic")) Sup.insert("sema-unused-def-let");
  if (!Capable) {
    Check("at the start");
    compare(V, U, T, Sup, "with the initial configuration");
    C.label("command line");
    return;
  }
  Check("at the start");
  for (unsigned N = 1 + S.below(3); N; --N) {
    auto X = Config();
    C.show("configuration", jg::text(Value(Object(X))));
    V.configure(Object(X));
    Sup.clear();
    if (X.get("diagnostic")) Sup.insert("sema-unused-def-let");
    Check("after a change");
    compare(V, U, T, Sup, "after a change");
    C.label("workspace");
  }
});
}
