// USES: server
#include "srv/requests.h"
#include "gen/gen.h"
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace pbt;
using namespace srv;
namespace pbt {
const char *Rule = "a case starts a server whose evaluation workers fail in a chosen way (missing, dead at start, dying, answering garbage or errors, slow) at a chosen call, and sends requests before "
                   "and after; non-trivial when at least one request needed a worker that had failed";
}
namespace {
const char *Faults[] = {"none", "die", "garbage", "bad", "error"};
const char *Calls[] = {"attrset/evalExpr", "attrset/attrpathInfo", "attrset/attrpathComplete", "attrset/optionInfo", "attrset/optionComplete"};
const char *Text = "{ pkgs, lib, config, ... }: {\n"
                   "  x = pkgs.foo.bar;\n"
                   "  y = with pkgs; [ foo foo ];\n"
                   "  services.foo.enable = lib.mkIf true 1;\n"
                   "  z = let a = 1; in a + a;\n"
                   "}\n";
size_t find(const char *What, int Add = 0) { return llvm::StringRef(Text).find(What) + Add; }
struct Ask { const char *Method; size_t Off; bool Worker; };

void session(Ctx &C, std::string Exe) {
  Src &S = C.S;
  std::string F = Faults[S.below(5)], At = Calls[S.below(5)];
  bool Missing = !Exe.empty() && S.chance(25);
  auto World = [&] {
    Object W{{"info", Object{{"foo", Object{{"Meta", Object{{"Type", 1}, {"Location", nullptr}}}, {"PackageDesc", Object{{"Version", "1"}, {"Name", "foo"}}}, {"ValueDesc", nullptr}}}}}};
    if (F == "error") W["error"] = "broken";
    else if (F != "none") W[F] = At;
    return jg::text(Value(std::move(W)));
  };
  C.show("fault", F + " at " + At + (Missing ? ", no worker at all" : ""));
  Opts O;
  O.Exe = Exe;
  O.Caps = Object{{"workspace", Object{{"configuration", true}}}, {"window", Object{{"workDoneProgress", S.chance(50)}}}};
  if (!Exe.empty()) {
    char Self[4096];
    ssize_t N = readlink("/proc/self/exe", Self, sizeof Self - 1);
    setenv("NIXD_ATTRSET_EVAL", Missing ? "/nonexistent" : std::string(Self, N).c_str(), 1);
    if (S.chance(50)) O.Args = {"--nixpkgs-expr=" + World(), "--nixos-options-expr=" + World()}; // faulty from the start
  }
  Server V(std::move(O));
  std::string U = "file:///w/a.nix";
  V.open(U, Text);
  if (S.chance(80)) {
    Object Cfg{{"nixpkgs", Object{{"expr", World()}}}, {"options", Object{{"nixos", Object{{"expr", World()}}}}}};
    if (S.chance(30)) (*Cfg["options"].getAsObject())["more"] = Object{{"expr", World()}};
    V.configure(std::move(Cfg));
  }
  std::vector<Ask> Asks{{"textDocument/hover", find("pkgs.foo", 5), true}, {"textDocument/definition", find("pkgs.foo", 6), true}, {"textDocument/completion", find(".foo.bar", 3), true},
                        {"textDocument/hover", find("foo foo", 5), true}, {"textDocument/completion", find("foo foo", 2), true}, {"textDocument/definition", find("foo foo", 5), true},
                        {"textDocument/hover", find("foo.enable", 1), true}, {"textDocument/definition", find("foo.enable", 6), true}, {"textDocument/completion", find("foo.enable", 9), true},
                        {"textDocument/inlayHint", 0, true}, {"completionItem/resolve", 0, true},
                        {"textDocument/references", find("a + a"), false}, {"textDocument/documentSymbol", 0, false}, {"textDocument/definition", find("a + a", 4), false}};
  std::vector<std::pair<int, std::string>> Sent;
  bool Hit = false;
  for (unsigned N = 2 + S.below(8); N; --N) {
    auto &A = S.pick(Asks);
    C.show("ask", std::string(A.Method) + " " + std::to_string(A.Off));
    Value P = at(U, Text, A.Off);
    if (!strcmp(A.Method, "textDocument/inlayHint")) P = Object{{"textDocument", doc(U)}, {"range", Object{{"start", pos(0, 0)}, {"end", pos(9, 0)}}}};
    if (!strcmp(A.Method, "completionItem/resolve")) P = Object{{"label", "foo"}, {"kind", 5}, {"data", "{\"Scope\":[],\"Prefix\":\"f\"}"}};
    Hit |= A.Worker && (F != "none" || Missing);
    Sent.push_back({V.send(A.Method, std::move(P)), A.Method});
    if (S.chance(50)) V.wait(Sent.back().first, 30000);
  }
  for (auto &[Id, M] : Sent) {
    unsigned Ms = 30000;
    while (!V.poll(Id) && Ms && !V.ended()) usleep(1000), --Ms;
    check(!V.ended(), "server-ended", "the server ended while answering " + M);
    check(V.poll(Id).has_value(), "no-reply", "no answer to " + M);
  }
  // The rest of the server works as before.
  auto R = V.call("textDocument/references", at(U, Text, find("a = 1")));
  check(R.Ok && R.Result.getAsArray() && R.Result.getAsArray()->size() == 2, "degraded", "references: " + jg::text(R.Result) + R.Msg);
  R = V.call("textDocument/definition", at(U, Text, find("a + a", 4)));
  check(R.Ok && R.Result.getAsObject(), "degraded", "definition: " + jg::text(R.Result) + R.Msg);
  V.change(U, Array{Object{{"text", "[ undefinedName ]"}}}, 2);
  V.sync();
  auto D = V.diags(U);
  check(D && D->getAsObject()->getArray("diagnostics") && D->getAsObject()->getArray("diagnostics")->size() == 1, "degraded", "diagnostics");
  if (!Exe.empty()) {
    bool Bye = S.chance(50);
    if (Bye) { V.call("shutdown", nullptr); V.notify("exit", nullptr); }
    int St = V.finish();
    check(WIFEXITED(St) && WEXITSTATUS(St) == 0, "exit-status", "the server ended with status " + std::to_string(St));
  }
  C.nontrivial(Hit);
  C.label(F);
}
Sub Proc("process", 60, 2000, [](Ctx &C) {
  std::string Exe = std::string(getenv("VERIF_BUILD") ? getenv("VERIF_BUILD") : "/verif/build") + "/asan/nixd";
  session(C, Exe);
}, 120);
Sub In("in-process", 150, 4000, [](Ctx &C) { session(C, ""); }, 120);
}
