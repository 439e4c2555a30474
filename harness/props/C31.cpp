// USES: server
#include "srv/requests.h"
#include "gen/gen.h"
#include "srv/scoped.h"
#include <dirent.h>
#include <atomic>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <map>
#include <set>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
using namespace pbt;
using namespace srv;
namespace pbt {
const char *Rule = "A case runs the server as a process on a random history of messages, in pieces, with evaluation workers that answer at once, slowly, never or die, and then ends it in a random way: exit, end of input (at the end or "
                   "inside a message), death of the client, or an output that is closed. It must end cleanly and in time, with every request answered, and leave no process. Non-trivial: cases with a request still open when the server was told to end.";
}
namespace {
std::string one(Src &S, std::initializer_list<const char *> L) { return *(L.begin() + S.below(L.size())); }
std::string selfExe() {
  char B[4096];
  ssize_t N = readlink("/proc/self/exe", B, sizeof B - 1);
  return std::string(B, N > 0 ? N : 0);
}
std::string nixdExe() {
  auto X = selfExe();
  return X.substr(0, X.rfind('/')) + "/asan/nixd";
}
/// Processes of a session.
std::set<pid_t> session(pid_t Sid, bool Zombies = false) {
  std::set<pid_t> R;
  DIR *D = opendir("/proc");
  while (auto *E = readdir(D)) {
    if (!isdigit((unsigned char)E->d_name[0])) continue;
    std::ifstream In(std::string("/proc/") + E->d_name + "/stat");
    std::string L;
    if (!std::getline(In, L)) continue;
    auto P = L.rfind(')');
    char St;
    int Pp, Pg, Se;
    if (P == std::string::npos || sscanf(L.c_str() + P + 1, " %c %d %d %d", &St, &Pp, &Pg, &Se) != 4) continue;
    if (Se == Sid && (Zombies ? St == 'Z' : St != 'Z' && St != 'X')) R.insert(atoi(E->d_name));
  }
  closedir(D);
  return R;
}
struct Proc {
  pid_t Pid = -1;
  int W = -1, R = -1;
  std::string Got;
  std::thread T;
  std::atomic<bool> Deaf = false;
  Proc(std::vector<std::string> Args, pid_t Client) {
    setenv("NIXD_ATTRSET_EVAL", selfExe().c_str(), 1);
    Args.insert(Args.begin(), nixdExe());
    if (Client > 0) Args.push_back("--clientProcessId=" + std::to_string(Client));
    std::vector<char *> V;
    for (auto &A : Args) V.push_back(A.data());
    V.push_back(nullptr);
    int P[2], Q[2];
    if (pipe2(P, O_CLOEXEC) || pipe2(Q, O_CLOEXEC)) fail("setup", "pipe");
    Pid = fork();
    if (!Pid) {
      setsid();
      dup2(P[0], 0), dup2(Q[1], 1);
      dup2(::open(getenv("PBT_INLINE") ? "/dev/stderr" : "/dev/null", O_WRONLY), 2);
      signal(SIGPIPE, SIG_DFL);
      execv(V[0], V.data());
      _exit(127);
    }
    ::close(P[0]), ::close(Q[1]);
    W = P[1], R = Q[0];
    T = std::thread([this] {
      char B[65536];
      ssize_t N;
      while ((N = read(R, B, sizeof B)) > 0 || (N < 0 && errno == EINTR)) {
        if (N > 0) Got.append(B, N);
        if (Deaf) break;
      }
      ::close(R);
    });
  }
  bool write(const std::string &X) {
    size_t I = 0;
    while (I < X.size()) {
      ssize_t N = ::write(W, X.data() + I, X.size() - I);
      if (N < 0 && errno == EINTR) continue;
      if (N <= 0) return false;
      I += N;
    }
    return true;
  }
  void end() {
    if (W >= 0) ::close(W);
    W = -1;
  }
  int wait(unsigned Ms, unsigned &Took) {
    int St;
    for (Took = 0; Took <= Ms; Took += 5) {
      if (waitpid(Pid, &St, WNOHANG) == Pid) {
        Done = true;
        return St;
      }
      usleep(5000);
    }
    return -1;
  }
  bool Done = false;
  ~Proc() {
    end();
    if (!Done) kill(Pid, SIGKILL), waitpid(Pid, nullptr, 0);
    for (pid_t X : session(Pid)) kill(X, SIGKILL);
    if (T.joinable()) T.join();
  }
};
std::string frame(const Value &V) {
  auto T = jg::text(V);
  return "Content-Length: " + std::to_string(T.size()) + "\r\n\r\n" + T;
}
const char *Calls[] = {"attrset/evalExpr", "attrset/attrpathInfo", "attrset/attrpathComplete", "attrset/optionInfo", "attrset/optionComplete"};
const char *Text = "{ pkgs, lib, config, ... }: {\n  x = pkgs.foo.bar;\n  y = with pkgs; [ foo foo ];\n  services.foo.enable = lib.mkIf true 1;\n}\n";

Sub Ends("ends", 250, 6000, [](Ctx &C) {
  Src &S = C.S;
  std::string Fault = S.chance(25) ? "none" : one(S, {"delay", "die", "hang", "error", "delay"});
  std::string At = Calls[S.below(5)];
  if (Fault == "hang") At = S.chance(70) ? "attrset/evalExpr" : "attrset/attrpathInfo";
  Object W{{"info", Object{{"foo", Object{{"Meta", Object{{"Type", 1}, {"Location", nullptr}}}, {"PackageDesc", Object{{"Version", "1"}, {"Name", "foo"}}}, {"ValueDesc", nullptr}}}}}, {"complete", Object{{"", Array{"foo"}}}}};
  if (Fault == "delay") W["delay"] = (int64_t)S.pick<int>({1, 20, 300});
  else if (Fault == "error") W["error"] = "broken";
  else if (Fault != "none") W[Fault] = At;
  auto World = jg::text(Value(std::move(W)));
  enum End { Exit, Shutdown, Eof, Inside, Client } How = S.pick<End>({Exit, Shutdown, Shutdown, Eof, Eof, Inside, Client});
  static const char *Names[] = {"exit", "shutdown and exit", "end of input", "end of input inside a message", "death of the client"};
  bool Deaf = S.chance(12);
  C.show("worker", Fault == "none" || Fault == "error" || Fault == "delay" ? Fault : Fault + " at " + At);
  C.show("end", std::string(Names[How]) + (Deaf ? ", output closed" : ""));
  // The messages.
  struct Msg { std::string M; int Id; Value P; };
  std::vector<Msg> Ms;
  int Id = 0;
  bool Init = !S.chance(8);
  auto Call = [&](std::string M, Value P) { Ms.push_back({std::move(M), ++Id, std::move(P)}); };
  auto Tell = [&](std::string M, Value P) { Ms.push_back({std::move(M), 0, std::move(P)}); };
  if (Init) {
    Call("initialize", Object{{"processId", nullptr}, {"capabilities", Object{{"window", Object{{"workDoneProgress", S.chance(30)}}}}}});
    if (S.chance(80)) Tell("initialized", Object{});
  }
  const std::string U = "file:///t/a.nix";
  std::string T = Text;
  if (S.chance(30)) T = gen::program(S, scopedOpts(S));
  if (S.chance(90)) Tell("textDocument/didOpen", Object{{"textDocument", Object{{"uri", U}, {"languageId", "nix"}, {"version", 1}, {"text", T}}}});
  for (unsigned N = S.below(12); N; --N) {
    if (S.chance(20)) {
      Tell("textDocument/didChange", Object{{"textDocument", Object{{"uri", U}, {"version", N}}}, {"contentChanges", Array{Object{{"text", T}}}}});
      continue;
    }
    auto R = anyRequest(S, U, T, false);
    if (T == Text && S.chance(50)) {
      auto Where = llvm::StringRef(Text).find(one(S, {"foo.bar", "foo foo", "foo ]", "enable"})) + S.below(3);
      R.Method = one(S, {"textDocument/hover", "textDocument/definition", "textDocument/completion"});
      R.Params = Object{{"textDocument", doc(U)}, {"position", posAt(T, Where)}};
    }
    Call(R.Method, std::move(R.Params));
  }
  std::vector<std::string> Pieces;
  for (auto &M : Ms) {
    C.show("message", M.M + " " + jg::text(M.P).substr(0, 300));
    Object O{{"jsonrpc", "2.0"}, {"method", M.M}, {"params", M.P}};
    if (M.Id) O["id"] = M.Id;
    Pieces.push_back(frame(std::move(O)));
  }
  int Down = 0;
  if (How == Shutdown) {
    Down = ++Id;
    Pieces.push_back(frame(Object{{"jsonrpc", "2.0"}, {"id", Down}, {"method", "shutdown"}}));
  }
  if (How == Exit || How == Shutdown) Pieces.push_back(frame(Object{{"jsonrpc", "2.0"}, {"method", "exit"}}));
  if (How == Inside) {
    auto F = frame(Object{{"jsonrpc", "2.0"}, {"id", 999}, {"method", "textDocument/hover"}, {"params", at(U, T, 0)}});
    Pieces.push_back(F.substr(0, 1 + S.below(F.size() - 1)));
  }
  unsigned Pause = S.chance(50) ? 0 : S.below(Pieces.size() + 1);
  pid_t Cl = -1;
  if (How == Client) {
    Cl = fork();
    if (!Cl) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      while (true) pause();
    }
  }
  struct Reap { pid_t P; ~Reap() { if (P > 0) kill(P, SIGKILL), waitpid(P, nullptr, 0); } } Cr{Cl};
  Proc P({"--log=error", "--nixpkgs-expr=" + World, "--nixos-options-expr=" + World, "--semantic-tokens"}, Cl);
  unsigned DeafAt = Deaf ? S.below(Pieces.size() + 1) : 0, I = 0;
  bool Written = true;
  for (auto &X : Pieces) {
    if (Deaf && I == DeafAt) P.Deaf = true;
    if (Pause && I++ >= Pause) usleep(2000);
    Written &= P.write(X);
  }
  if (Deaf) P.Deaf = true;
  check(Written, "input", "the server closed its input before it was told to end");
  if (How == Eof || How == Inside) P.end();
  if (How == Client) {
    if (S.chance(50)) usleep(20000);
    kill(Cl, SIGKILL), waitpid(Cl, nullptr, 0);
    Cr.P = -1;
  }
  unsigned Took;
  int St = P.wait(60000, Took);
  std::string Rest;
  if (St == -1) fail("no-end", "the server did not end within 60 s");
  check(WIFEXITED(St), "killed", "the server was ended by signal " + std::to_string(WTERMSIG(St)));
  check(WEXITSTATUS(St) == 0 || (Deaf && WEXITSTATUS(St) == 1), "status", "the server ended with status " + std::to_string(WEXITSTATUS(St)));
  unsigned Limit = Fault == "hang" ? 20000 : 8000; // workers of 300 ms, a dozen requests
  check(Took <= Limit, "late", "the server ended only after " + std::to_string(Took) + " ms");
  std::set<pid_t> Left;
  for (int K = 0; K < 400; ++K) {
    Left = session(P.Pid);
    if (Left.empty()) break;
    usleep(5000);
  }
  check(Left.empty(), "left-behind", std::to_string(Left.size()) + " processes of the server go on without it");
  if (P.T.joinable()) P.T.join();
  C.label(Names[How]);
  if (Deaf) { C.label("output closed"); C.nontrivial(true); return; }
  // Answers.
  std::multiset<int> Ids;
  size_t Pos = 0;
  auto &G = P.Got;
  while (Pos < G.size()) {
    size_t H = G.find("\r\n\r\n", Pos), L = 0;
    check(H != std::string::npos && sscanf(G.c_str() + Pos, "Content-Length: %zu", &L) == 1 && H + 4 + L <= G.size(), "frames", "the output ends inside a message: " + G.substr(Pos, 200));
    auto V = llvm::json::parse(llvm::StringRef(G).substr(H + 4, L));
    if (!V) { llvm::consumeError(V.takeError()); fail("frames", "no JSON: " + G.substr(H + 4, 200)); }
    Pos = H + 4 + L;
    auto *O = V->getAsObject();
    if (!O || O->get("method")) continue;
    int K = (int)O->getInteger("id").value_or(-1);
    Ids.insert(K);
    check(K >= 1 && K <= Id, "answers", "an answer to no request: " + jg::text(*V).substr(0, 300));
    if (!Init) check(O->get("error"), "uninitialized", "a request is served before initialization: " + jg::text(*V).substr(0, 300));
    else if (K == Down) check(O->get("result") && O->get("result")->kind() == Value::Null && !O->get("error"), "shutdown", "shutdown is answered by " + jg::text(*V).substr(0, 300));
    else if (K == 1) check(O->get("result") && O->get("result")->getAsObject(), "initialize", "initialize is answered by " + jg::text(*V).substr(0, 300));
  }
  for (int K = 1; K <= Id; ++K) {
    if (How == Client) check(Ids.count(K) <= 1, "twice", "an answer is sent twice"); // it may not be read any more
    else check(Ids.count(K) == 1, "answers", std::to_string(Ids.count(K)) + " answers to " + (K == Down ? "shutdown" : Ms[0].M) + " " + std::to_string(K) + " of " + std::to_string(Id) + " requests");
  }
  C.nontrivial(Id >= 2);
});

/// What the server offers is what it answers.
Sub Caps("advertised", 24, 200, [](Ctx &C) {
  Src &S = C.S;
  bool Tokens = S.chance(50), Hints = S.chance(50);
  Opts O;
  O.Exe = nixdExe();
  O.Args = {std::string("--semantic-tokens=") + (Tokens ? "true" : "false"), std::string("--inlay-hints=") + (Hints ? "true" : "false")};
  if (S.chance(50)) O.Args.push_back("--log=debug");
  for (auto &A : O.Args) C.show("argument", A);
  Server V(std::move(O));
  auto R = V.init();
  auto *Caps = R.getAsObject() ? R.getAsObject()->getObject("capabilities") : nullptr;
  check(Caps, "capabilities", jg::text(R));
  auto *Info = R.getAsObject()->getObject("serverInfo");
  check(Info && Info->getString("name") == llvm::StringRef("nixd"), "server-info", jg::text(R));
  std::string U = "file:///t/a.nix", T = "{ pkgs }: let a = pkgs.foo; in { b = a; c = { d = a; }; }";
  V.open(U, T);
  auto Sync = Caps->getObject("textDocumentSync");
  check(Sync && Sync->getInteger("change") == 2 && Sync->getBoolean("openClose") == true, "sync", "documents are not synchronised incrementally: " + jg::text(R));
  auto On = [&](const char *K, const char *Sub = nullptr) {
    auto *X = Caps->get(K);
    if (!X || *X == Value(false) || *X == Value(nullptr)) return false;
    if (!Sub) return true;
    return X->getAsObject() && X->getAsObject()->getBoolean(Sub).value_or(false);
  };
  struct Row { const char *Cap, *Sub, *Method; };
  static const Row Rows[] = {
      {"definitionProvider", nullptr, "textDocument/definition"}, {"referencesProvider", nullptr, "textDocument/references"}, {"documentHighlightProvider", nullptr, "textDocument/documentHighlight"},
      {"hoverProvider", nullptr, "textDocument/hover"}, {"completionProvider", nullptr, "textDocument/completion"}, {"completionProvider", "resolveProvider", "completionItem/resolve"},
      {"documentSymbolProvider", nullptr, "textDocument/documentSymbol"}, {"foldingRangeProvider", nullptr, "textDocument/foldingRange"}, {"inlayHintProvider", nullptr, "textDocument/inlayHint"},
      {"documentLinkProvider", nullptr, "textDocument/documentLink"}, {"codeActionProvider", nullptr, "textDocument/codeAction"}, {"codeActionProvider", "resolveProvider", "codeAction/resolve"},
      {"documentFormattingProvider", nullptr, "textDocument/formatting"}, {"renameProvider", nullptr, "textDocument/rename"}, {"renameProvider", "prepareProvider", "textDocument/prepareRename"},
      {"semanticTokensProvider", nullptr, "textDocument/semanticTokens/full"}, {"declarationProvider", nullptr, "textDocument/declaration"}, {"typeDefinitionProvider", nullptr, "textDocument/typeDefinition"},
      {"implementationProvider", nullptr, "textDocument/implementation"}, {"codeLensProvider", nullptr, "textDocument/codeLens"}, {"documentLinkProvider", "resolveProvider", "documentLink/resolve"},
      {"inlayHintProvider", "resolveProvider", "inlayHint/resolve"}, {"documentRangeFormattingProvider", nullptr, "textDocument/rangeFormatting"}, {"documentOnTypeFormattingProvider", nullptr, "textDocument/onTypeFormatting"},
      {"signatureHelpProvider", nullptr, "textDocument/signatureHelp"}, {"workspaceSymbolProvider", nullptr, "workspace/symbol"}, {"selectionRangeProvider", nullptr, "textDocument/selectionRange"},
      {"linkedEditingRangeProvider", nullptr, "textDocument/linkedEditingRange"}, {"callHierarchyProvider", nullptr, "textDocument/prepareCallHierarchy"}, {"colorProvider", nullptr, "textDocument/documentColor"},
      {"executeCommandProvider", nullptr, "workspace/executeCommand"}, {"diagnosticProvider", nullptr, "textDocument/diagnostic"}, {"semanticTokensProvider", "range", "textDocument/semanticTokens/range"}};
  std::set<std::string> Served;
  for (auto &W : Rows) {
    Object P{{"textDocument", doc(U)}, {"position", posAt(T, 20)}, {"range", Object{{"start", pos(0, 0)}, {"end", pos(0, 3)}}}, {"newName", "q"}, {"context", Object{{"diagnostics", Array{}}}},
             {"options", Object{{"tabSize", 2}, {"insertSpaces", true}}}, {"label", "x"}, {"title", "x"}, {"kind", 5}};
    if (llvm::StringRef(W.Method).starts_with("codeAction/")) P["kind"] = "refactor";
    auto A = V.call(W.Method, std::move(P));
    bool Off = On(W.Cap, W.Sub) == false, Missing = !A.Ok && A.Code == -32601;
    if (!Off) check(!Missing, "not-served", std::string(W.Cap) + " is advertised, but " + W.Method + " is not known");
    if (Off && llvm::StringRef(W.Cap) != "semanticTokensProvider") check(Missing, "not-advertised", std::string(W.Method) + " is served, but " + W.Cap + " is not advertised");
    if (!Missing) Served.insert(W.Method);
  }
  check(On("semanticTokensProvider") == Tokens, "tokens", "semantic tokens do not follow the command line");
  if (Tokens) check(Caps->getObject("semanticTokensProvider")->getObject("legend") && Caps->getObject("semanticTokensProvider")->getBoolean("full") == true, "legend", jg::text(R));
  auto *Tr = Caps->getObject("completionProvider") ? Caps->getObject("completionProvider")->getArray("triggerCharacters") : nullptr;
  check(Tr && std::find(Tr->begin(), Tr->end(), Value(".")) != Tr->end(), "trigger", "completion is not asked for after a dot");
  // A second initialization is refused and changes nothing.
  auto A = V.call("initialize", Object{{"processId", nullptr}, {"capabilities", Object{}}});
  check(!A.Ok, "twice", "a second initialization is accepted");
  check(V.call("textDocument/definition", at(U, T, 38)).Ok, "goes-on", "the server does not go on after a second initialization");
  check(WEXITSTATUS(V.finish()) == 0, "status", "the server does not end cleanly");
  C.nontrivial(Served.size() > 10);
});

/// Every provider that a configuration named runs once.
Sub Workers("workers", 40, 800, [](Ctx &C) {
  Src &S = C.S;
  char Dir[] = "/tmp/pbt-life-XXXXXX";
  check(mkdtemp(Dir), "setup", "mkdtemp");
  struct Rm { std::string D; ~Rm() { std::error_code E; std::filesystem::remove_all(D, E); } } Rm{Dir};
  Opts O;
  O.Exe = nixdExe();
  O.Caps = Object{{"workspace", Object{{"configuration", true}}}};
  setenv("NIXD_ATTRSET_EVAL", selfExe().c_str(), 1);
  O.Args = {"--log=error", "--nixpkgs-expr={}", "--nixos-options-expr={}"};
  Server V(std::move(O));
  pid_t Pid = V.pid();
  auto Children = [&](bool Zombie) {
    unsigned N = 0;
    DIR *D = opendir("/proc");
    while (auto *E = readdir(D)) {
      if (!isdigit((unsigned char)E->d_name[0])) continue;
      std::ifstream In(std::string("/proc/") + E->d_name + "/stat");
      std::string L;
      if (!std::getline(In, L)) continue;
      auto P = L.rfind(')');
      char St;
      int Pp;
      if (P != std::string::npos && sscanf(L.c_str() + P + 1, " %c %d", &St, &Pp) == 2 && Pp == Pid && (St == 'Z') == Zombie) ++N;
    }
    closedir(D);
    return N;
  };
  std::set<std::string> Now{"nixos"}, Sick;
  for (unsigned N = 2 + S.below(5); N; --N) {
    Object Opt, Cfg;
    std::set<std::string> Want;
    for (auto *X : {"nixos", "home-manager", "x y", "z"})
      if (S.chance(45)) {
        bool Die = S.chance(20);
        if (Die) Sick.insert(X);
        Opt[X] = Object{{"expr", Die ? "{\"die\":\"attrset/evalExpr\"}" : "{}"}}, Want.insert(X);
      }
    bool Any = !Opt.empty();
    if (Any) Cfg["options"] = std::move(Opt), Now.insert(Want.begin(), Want.end());
    if (S.chance(30)) Cfg["nixpkgs"] = Object{{"expr", "{}"}};
    C.show("configuration", jg::text(Value(Object(Cfg))));
    V.configure(std::move(Cfg));
  }
  // Settled: one process for packages and one per provider; nothing dead.
  unsigned Alive = 0, Dead = 0, Most = 1 + Now.size(), Least = Most;
  for (auto &X : Sick) Least -= Now.contains(X);
  for (int K = 0; K < 600; ++K) {
    Alive = Children(false), Dead = Children(true);
    if (Alive + Dead <= Most && Alive >= Least) break;
    usleep(5000);
  }
  check(Alive >= Least, "workers", "only " + std::to_string(Alive) + " workers for " + std::to_string(Least) + " providers");
  check(Alive + Dead <= Most, "workers", std::to_string(Alive) + " workers and " + std::to_string(Dead) + " dead ones for " + std::to_string(Now.size()) + " option providers and the packages");
  check(WEXITSTATUS(V.finish()) == 0, "status", "the server does not end cleanly");
  C.nontrivial(true);
});
}
