// USES: lsp nixf
#include "core/jsongen.h"
#include "core/pbt.h"
#include "core/text.h"
#include "gen/gen.h"
#include "ref/conv.h"
#include <fcntl.h>
#include <nixf/Basic/Diagnostic.h>
#include <nixf/Parse/Parser.h>
#include <nixf/Sema/VariableLookup.h>
#include <poll.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace pbt;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;
namespace pbt {
const char *Rule = "Random valid, damaged and arbitrary texts, small and large, are piped into nixf-tidy in pieces under random arguments; the JSON it prints is compared, in order and in every field, with the diagnostics of "
                   "the library. Non-trivial: texts with at least one diagnostic.";
}
namespace {
std::string one(Src &S, std::initializer_list<const char *> L) { return *(L.begin() + S.below(L.size())); }
std::string exe() {
  char B[4096];
  ssize_t N = readlink("/proc/self/exe", B, sizeof B - 1);
  std::string X(B, N > 0 ? N : 0);
  return X.substr(0, X.rfind('/')) + "/asan/nixf-tidy";
}
struct Ran { int St; std::string Out, Err; };
Ran run(std::vector<std::string> Args, const std::string &In, size_t Piece) {
  Args.insert(Args.begin(), exe());
  std::vector<char *> V;
  for (auto &A : Args) V.push_back(A.data());
  V.push_back(nullptr);
  int I[2], O[2], E[2];
  if (pipe2(I, O_CLOEXEC) || pipe2(O, O_CLOEXEC) || pipe2(E, O_CLOEXEC)) fail("setup", "pipe");
  pid_t P = fork();
  if (!P) {
    dup2(I[0], 0), dup2(O[1], 1), dup2(E[1], 2);
    execv(V[0], V.data());
    _exit(127);
  }
  ::close(I[0]), ::close(O[1]), ::close(E[1]);
  fcntl(I[1], F_SETFL, O_NONBLOCK);
  Ran R;
  size_t At = 0;
  bool Open[3] = {true, true, true};
  if (In.empty()) ::close(I[1]), Open[0] = false;
  unsigned Idle = 0;
  while (Open[1] || Open[2]) {
    pollfd F[3] = {{Open[0] ? I[1] : -1, POLLOUT, 0}, {Open[1] ? O[0] : -1, POLLIN, 0}, {Open[2] ? E[0] : -1, POLLIN, 0}};
    int K = poll(F, 3, 1000);
    if (K == 0 && ++Idle > 60) {
      kill(P, SIGKILL), waitpid(P, nullptr, 0);
      fail("hang", "nixf-tidy does not end");
    }
    if (K <= 0) continue;
    if (F[0].revents) {
      ssize_t N = write(I[1], In.data() + At, std::min(In.size() - At, Piece));
      if (N > 0) At += N;
      if ((N < 0 && errno != EAGAIN && errno != EINTR) || At == In.size()) ::close(I[1]), Open[0] = false;
    }
    for (int J = 1; J < 3; ++J)
      if (F[J].revents) {
        char B[65536];
        ssize_t N = read(F[J].fd, B, sizeof B);
        if (N > 0) (J == 1 ? R.Out : R.Err).append(B, N);
        else ::close(F[J].fd), Open[J] = false;
      }
  }
  if (Open[0]) ::close(I[1]);
  waitpid(P, &R.St, 0);
  return R;
}
Value text(std::string_view T) { return Value(llvm::json::fixUTF8(llvm::StringRef(T.data(), T.size()))); }
Value cursor(nixf::LexerCursor C) { return Object{{"line", C.line()}, {"column", C.column()}, {"offset", (int64_t)C.offset()}}; }
Value range(nixf::LexerCursorRange R) { return Object{{"lCur", cursor(R.lCur())}, {"rCur", cursor(R.rCur())}}; }
template <class D> Object partial(const D &X) {
  Array Args, Tags;
  for (auto &A : X.args()) Args.push_back(text(A));
  for (auto T : X.tags()) Tags.push_back((int)T);
  return Object{{"args", std::move(Args)}, {"tag", std::move(Tags)}, {"range", range(X.range())}, {"kind", (int)X.kind()}, {"sname", X.sname()}, {"message", X.message()}};
}
Value wanted(const std::string &T, bool Names) {
  std::vector<nixf::Diagnostic> Ds;
  auto N = nixf::parse(T, Ds);
  if (N && Names) {
    nixf::VariableLookupAnalysis A(Ds);
    A.runOnAST(*N);
  }
  Array R;
  for (auto &D : Ds) {
    auto O = partial(D);
    O["severity"] = (int)nixf::Diagnostic::severity(D.kind());
    Array Notes, Fixes;
    for (auto &X : D.notes()) Notes.push_back(partial(X));
    for (auto &X : D.fixes()) {
      Array Es;
      for (auto &E : X.edits()) Es.push_back(Object{{"range", range(E.oldRange())}, {"newText", text(E.newText())}});
      Fixes.push_back(Object{{"edits", std::move(Es)}, {"message", text(X.message())}});
    }
    O["notes"] = std::move(Notes);
    O["fixes"] = std::move(Fixes);
    R.push_back(std::move(O));
  }
  return R;
}
/// Replaced bytes count as one, however many replacement characters stand for them.
std::string loose(const Value &V) {
  std::string T = jg::text(V), R;
  for (size_t I = 0; I < T.size(); ++I)
    if ((unsigned char)T[I] < 0x80) R += T[I];
    else if (R.empty() || R.back() != '?') R += '?';
  return R;
}
Sub Tidy("nixf-tidy", 1500, 40000, [](Ctx &C) {
  auto &S = C.S;
  std::string T;
  switch (S.weighted({4, 4, 2, 2, 1})) {
  case 0: T = gen::anyText(S); break;
  case 1: {
    gen::Opts O;
    O.Scoped = true;
    O.Budget = 3 + S.below(40);
    O.Unicode = S.chance(50);
    O.Dups = S.chance(60);
    O.UndefPct = S.below(30);
    if (S.chance(50)) O.Names = {"a", "b", "x"};
    T = gen::program(S, O);
    break;
  }
  case 2: { // names and texts of every byte
    auto B = one(S, {"\xff", "\xc3\xa9", "\xc3", "\xf0\x9f\x98", "\xed\xa0\x80", "\x01", "\\n", "\x7f", "\xe2\x80\xa8", "\\\"", "a"});
    auto Q = "\"" + B + "\"";
    T = one(S, {"{ ", "rec { ", "let "}) + Q + " = 1; " + Q + one(S, {" = 2; ", ".x = 3; ", " = { }; "}) + one(S, {"}", "in a", "} // x"});
    break;
  }
  case 3: { // every byte anywhere
    T = gen::anyText(S);
    for (unsigned N = 1 + S.small(4); N; --N) T.insert(S.below(T.size() + 1), 1, (char)S.below(256));
    break;
  }
  default: {
    auto P = one(S, {"[ a b ]\n", "x = y;\n", "{ a = 1; a = 2; }\n", "\"\xc3\xa9\" ", "''\n a ${b}\n''\n"});
    for (unsigned N = S.below(3000); N; --N) T += P;
  }
  }
  bool Pretty = S.chance(30), Names = S.chance(70);
  std::vector<std::string> Args;
  if (Pretty) Args.push_back("--pretty-print");
  if (Names) Args.insert(Args.begin() + (Args.empty() ? 0 : S.below(2)), "--variable-lookup");
  if (S.chance(10)) Args.push_back(one(S, {"--", "x", "--unknown"}));
  C.show("text", T.size() < 600 ? esc(T) : esc(T.substr(0, 200)) + " ... " + std::to_string(T.size()) + " bytes");
  for (auto &A : Args) C.show("argument", A);
  auto W = wanted(T, Names);
  auto R = run(Args, T, S.pick<size_t>({1u << 20, 65536, 7, 1000}));
  check(WIFEXITED(R.St) && WEXITSTATUS(R.St) == 0, "status", "nixf-tidy ends with " + std::to_string(R.St) + ": " + R.Err.substr(0, 300));
  check(R.Err.empty(), "stderr", R.Err.substr(0, 300));
  auto V = llvm::json::parse(R.Out);
  if (!V) fail("json", llvm::toString(V.takeError()) + " in " + esc(R.Out.substr(0, 300)));
  check(R.Out.find('\n') != std::string::npos && R.Out.back() == '\n', "line", "the output does not end with its line");
  if (!Pretty) check(R.Out.find('\n') == R.Out.size() - 1, "line", "the output is more than a line");
  if (!(*V == W) && loose(*V) != loose(W)) fail("diagnostics", jg::text(*V).substr(0, 1500) + "\ninstead of\n" + jg::text(W).substr(0, 1500));
  C.nontrivial(!W.getAsArray()->empty());
  if (Names) C.label("with names");
});
}
