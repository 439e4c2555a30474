// USES: server
#include "srv/actions.h"
#include <filesystem>
#include <unistd.h>
using namespace pbt;
using namespace srv;
namespace pbt {
const char *Rule = "A case configures a formatter made of random pieces of shell (that copies, replaces, ignores, closes or slowly reads its input, prints before, while or after reading, on both outputs, in small or huge amounts, ends well, "
                   "badly or by a signal, or does not exist) and formats several documents at once while they change. Every answer is compared with what that command prints for that text. Non-trivial: cases where text was formatted.";
}
namespace {
std::string one(Src &S, std::initializer_list<const char *> L) { return *(L.begin() + S.below(L.size())); }
Server &server() { return shared(plainOpts); }
struct Formatter {
  Array Command;
  bool Fails = false;
  std::string Kind;
  std::function<std::string(const std::string &)> Out;
};
Array sh(std::string X) { return Array{"sh", "-c", std::move(X)}; }
std::string shQuoted(const std::string &X) {
  std::string R = "'";
  for (char C : X) R += C == '\'' ? std::string("'\\''") : std::string(1, C);
  return R + "'";
}
Formatter formatter(Src &S) {
  Formatter F;
  std::string Before, After;
  bool Noise = S.chance(25);
  std::string Kind;
  if (Noise) Kind = "stderr ", Before = S.chance(50) ? "head -c 200000 /dev/zero >&2; " : "echo warning >&2; ";
  if (S.chance(15)) Before += "sleep 0.02; ", Kind += "slow ";
  auto Text = one(S, {"{ }\n", "", "\xc3\xa9\xf0\x9f\x98\x80\n", "x", "a\r\nb", "\"\\\\\"", "\n\n"});
  switch (S.below(13)) {
  case 0: F.Kind = "copy", F.Command = S.chance(50) ? Array{"cat"} : sh(Before + "cat"), F.Out = [](const std::string &T) { return T; }; break;
  case 1:
    F.Kind = "replace", F.Command = sh(Before + "tr a q");
    F.Out = [](std::string T) {
      for (char &C : T) if (C == 'a') C = 'q';
      return T;
    };
    break;
  case 2: F.Kind = "replace all", F.Command = sh(Before + "cat >/dev/null; printf %s " + shQuoted(Text)), F.Out = [=](const std::string &) { return Text; }; break;
  case 3: F.Kind = "input not read", F.Command = sh(Before + "printf %s " + shQuoted(Text)), F.Out = [=](const std::string &) { return Text; }; break;
  case 4: F.Kind = "input closed", F.Command = sh("exec <&-; " + Before + "printf %s " + shQuoted(Text)), F.Out = [=](const std::string &) { return Text; }; break;
  case 5: {
    size_t N = S.pick<size_t>({1, 1000, 65536, 65537, 300000});
    F.Kind = "prints first", F.Command = sh(Before + "head -c " + std::to_string(N) + " /dev/zero | tr '\\0' x; cat"), F.Out = [=](const std::string &T) { return std::string(N, 'x') + T; };
    break;
  }
  case 6: F.Kind = "prints twice", F.Command = sh(Before + "tee /dev/stderr 2>/dev/null; echo end"), F.Out = [](const std::string &T) { return T + "end\n"; }; break;
  case 7: F.Kind = "fails", F.Command = sh(Before + "cat; exit " + std::to_string(1 + S.below(254))), F.Fails = true; break;
  case 8: F.Kind = "killed", F.Command = sh(Before + "kill -" + one(S, {"9", "15", "11", "PIPE"}) + " $$; sleep 5"), F.Fails = true; break;
  case 9: F.Kind = "missing", F.Command = S.chance(50) ? Array{"/nonexistent/formatter"} : S.chance(50) ? Array{"no-such-formatter", "-"} : Array{""}, F.Fails = true; break;
  case 10: F.Kind = "not UTF-8", F.Command = sh(Before + "cat >/dev/null; printf '\\377\\n'"), F.Fails = true; break;
  case 11: {
    auto A = one(S, {"a b", "", "\xc3\xa9", "$x", "\"'", "*", "-", "a\nb"}), B = one(S, {"1", "--flag=x y", "\\"});
    F.Kind = "arguments", F.Command = Array{"sh", "-c", "printf '%s|' \"$@\"", "sh", A, B}, F.Out = [=](const std::string &) { return A + "|" + B + "|"; };
    break;
  }
  default: F.Kind = "none", F.Fails = true, F.Command = Array{}; break;
  }
  F.Kind = Kind + F.Kind;
  return F;
}
std::string text(Src &S) {
  std::string T;
  if (S.chance(15)) return "";
  gen::Opts O = scopedOpts(S);
  T = gen::program(S, O);
  if (S.chance(20)) {
    size_t N = S.pick<size_t>({4096, 65536, 65537, 200000});
    T += "\n# ";
    while (T.size() < N) T += S.chance(1) ? "a\xc3\xa9" : "a b c d e f g ";
  }
  return T;
}
unsigned fds() {
  unsigned N = 0;
  for (auto &X : std::filesystem::directory_iterator("/proc/self/fd")) (void)X, ++N;
  return N;
}
unsigned children() { // of this process, ended and not waited for
  unsigned N = 0;
  for (auto &X : std::filesystem::directory_iterator("/proc")) {
    auto P = X.path().filename().string();
    if (!isdigit(P[0])) continue;
    FILE *F = fopen((X.path() / "stat").c_str(), "r");
    if (!F) continue;
    int Pid, PPid;
    char St;
    if (fscanf(F, "%d %*[^)]) %c %d", &Pid, &St, &PPid) == 3 && PPid == getpid() && St == 'Z') ++N;
    fclose(F);
  }
  return N;
}
Sub Format("format", 500, 12000, [](Ctx &C) {
  auto &S = C.S;
  auto &V = server();
  V.config(Object{});
  auto F = formatter(S);
  C.show("command", jg::text(Value(Array(F.Command))));
  C.label(F.Kind);
  // A single string is a command, too.
  Value Form = Object{{"command", Array(F.Command)}};
  if (F.Command.size() == 1 && S.chance(50)) Form = *F.Command[0].getAsString();
  unsigned Z = children();
  V.configure(Object{{"formatting", std::move(Form)}});
  struct D { std::string U, T; };
  std::vector<D> Ds;
  for (unsigned N = 1 + S.below(4); N; --N) {
    Ds.push_back({"file:///t/format" + std::to_string(N) + ".nix", text(S)});
    C.show("text", Ds.back().T.size() > 2000 ? Ds.back().T.substr(0, 500) + "..." + std::to_string(Ds.back().T.size()) : Ds.back().T);
    V.open(Ds.back().U, Ds.back().T);
  }
  V.sync();
  unsigned Open = fds();
  std::vector<std::pair<int, const D *>> Ids;
  Object Options{{"tabSize", 2}, {"insertSpaces", true}};
  for (unsigned N = 0; N < Ds.size(); ++N)
    for (unsigned K = 1 + S.below(2); K; --K) Ids.push_back({V.send("textDocument/formatting", Object{{"textDocument", doc(Ds[N].U)}, {"options", Object(Options)}}), &Ds[N]});
  bool Gone = S.chance(20);
  int Lost = Gone ? V.send("textDocument/formatting", Object{{"textDocument", doc("file:///t/not-open.nix")}, {"options", Object(Options)}}) : 0;
  unsigned Done = 0;
  for (auto &[Id, X] : Ids) {
    auto R = V.wait(Id);
    if (F.Fails) {
      check(!R.Ok, "failed-formatter", "the formatter fails, but the answer is " + jg::text(R.Result).substr(0, 300));
      check(!R.Msg.empty(), "message", "no message");
      continue;
    }
    auto Want = F.Out(X->T);
    check(R.Ok && R.Result.getAsArray(), "format", "the formatter succeeds, but the answer is " + jg::text(R.Result).substr(0, 300) + R.Msg.substr(0, 300));
    auto &L = *R.Result.getAsArray();
    if (Want == X->T) {
      check(L.empty(), "unchanged", "edits for what the formatter leaves as it is: " + jg::text(R.Result).substr(0, 300));
      continue;
    }
    ++Done;
    // The edits lead to the formatter's text. Lines beyond the end mean the end.
    Array Es = L;
    for (auto &E : Es) {
      auto *O = E.getAsObject();
      auto *Rn = O ? O->getObject("range") : nullptr;
      check(Rn, "format", jg::text(E).substr(0, 300));
      auto *P = Rn->getObject("end");
      auto EndP = posAt(X->T, X->T.size());
      if (P && P->getInteger("line").value_or(0) > *EndP.getAsObject()->getInteger("line")) (*Rn)["end"] = std::move(EndP);
    }
    auto Now = applyEdits(X->T, Es);
    if (Now != Want) {
      size_t I = 0;
      while (I < Now.size() && I < Want.size() && Now[I] == Want[I]) ++I;
      fail("format", "of " + std::to_string(X->T.size()) + " bytes gives " + std::to_string(Now.size()) + " bytes instead of " + std::to_string(Want.size()) + ", different from byte " + std::to_string(I) + ": " + Now.substr(I, 200) + " | " + Want.substr(I, 200));
    }
  }
  if (Gone) check(!V.wait(Lost).Ok, "not-open", "an answer for a document that is not open");
  // Nothing is left behind.
  V.sync();
  unsigned Now = fds();
  for (int I = 0; I < 200 && Now > Open; ++I) usleep(5000), Now = fds();
  check(Now <= Open, "descriptors", std::to_string(Ids.size()) + " formattings leave " + std::to_string((int)(Now - Open)) + " descriptors open");
  unsigned Y = children();
  for (int I = 0; I < 200 && Y > Z; ++I) usleep(5000), Y = children();
  check(Y <= Z, "zombies", "processes are not waited for");
  // And the server goes on.
  auto R = V.call("textDocument/documentSymbol", Object{{"textDocument", doc(Ds[0].U)}});
  check(R.Ok || Ds[0].T.find_first_not_of(" \n\t") == std::string::npos, "goes-on", R.Msg);
  for (auto &X : Ds) V.close(X.U);
  V.sync();
  V.forget();
  C.nontrivial(Done);
});
}
