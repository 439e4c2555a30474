// USES: lsp
// LINK: -Wl,--wrap=read -Wl,--wrap=poll
#include "core/jsongen.h"
#include <fcntl.h>
#include <lspserver/Connection.h>
#include <csignal>
#include <poll.h>
#include <thread>
using namespace pbt;
using namespace lspserver;
using namespace llvm::json;

// Injected faults: while Faults is on, read() may be interrupted or return
// less than asked, and poll() may be interrupted.
namespace {
thread_local bool Faults = false;
thread_local unsigned Rnd = 1;
thread_local unsigned Injected = 0;
unsigned rnd() { return Rnd = Rnd * 1664525u + 1013904223u, Rnd >> 8; }
} // namespace
extern "C" ssize_t __real_read(int, void *, size_t);
extern "C" int __real_poll(struct pollfd *, nfds_t, int);
extern "C" ssize_t __wrap_read(int Fd, void *B, size_t N) {
  if (Faults) {
    if (rnd() % 6 == 0) { ++Injected; errno = EINTR; return -1; }
    if (N > 1 && rnd() % 2) { ++Injected; N = 1 + rnd() % N; }
  }
  return __real_read(Fd, B, N);
}
extern "C" int __wrap_poll(struct pollfd *P, nfds_t N, int T) {
  if (Faults && rnd() % 8 == 0) { ++Injected; errno = EINTR; return -1; }
  return __real_poll(P, N, T);
}

namespace {
struct Event {
  char Kind; // n c r e
  std::string Method;
  std::string A, ID;
  bool operator==(const Event &) const = default;
  std::string str() const { return std::string(1, Kind) + " " + Method + " " + A + " #" + ID; }
};
struct Rec : MessageHandler {
  std::vector<Event> Ev;
  size_t StopAt = SIZE_MAX;
  bool go() { return Ev.size() < StopAt; }
  bool onNotify(llvm::StringRef M, Value P) override { Ev.push_back({'n', M.str(), jg::text(P), ""}); return go(); }
  bool onCall(llvm::StringRef M, Value P, Value ID) override { Ev.push_back({'c', M.str(), jg::text(P), jg::text(ID)}); return go(); }
  bool onReply(Value ID, llvm::Expected<Value> R) override {
    if (R) Ev.push_back({'r', "", jg::text(*R), jg::text(ID)});
    else {
      std::string Code = "-";
      std::string Msg;
      llvm::handleAllErrors(R.takeError(), [&](const LSPError &E) { Code = std::to_string((int)E.Code); Msg = E.Message; },
                            [&](const llvm::ErrorInfoBase &E) {
                              // LLVM puts a sentence of its own before the text
                              Msg = E.message();
                              if (auto P = Msg.find("Please file a bug."); P != Msg.npos) Msg = Msg.substr(std::min(P + 19, Msg.size()));
                            });
      Ev.push_back({'e', Code, Msg, jg::text(ID)});
    }
    return go();
  }
};

Value genId(Src &S) {
  switch (S.weighted({6, 3, 1})) {
  case 0: return (int64_t)S.below(100);
  case 1: return jg::str(S, 4);
  default: return nullptr;
  }
}
/// A message, and what the handler has to be told.
Value message(Src &S, Event &E) {
  Object O{{"jsonrpc", "2.0"}};
  E = {};
  if (S.chance(20)) O["x-extra"] = jg::gen(S, 1);
  auto Params = [&] {
    E.A = "null";
    if (S.chance(80)) {
      Value P = jg::gen(S);
      E.A = jg::text(P);
      O["params"] = std::move(P);
    }
  };
  switch (S.weighted({4, 4, 2, 2})) {
  case 0: E.Kind = 'n'; O["method"] = E.Method = jg::str(S, 4); Params(); break;
  case 1: {
    E.Kind = 'c';
    O["method"] = E.Method = jg::str(S, 4);
    Params();
    Value I = genId(S);
    E.ID = jg::text(I);
    O["id"] = std::move(I);
    break;
  }
  case 2: {
    E.Kind = 'r';
    Value I = genId(S);
    E.ID = jg::text(I);
    O["id"] = std::move(I);
    E.A = "null";
    if (S.chance(85)) { Value R = jg::gen(S); E.A = jg::text(R); O["result"] = std::move(R); }
    break;
  }
  default: {
    E.Kind = 'e';
    Value I = genId(S);
    E.ID = jg::text(I);
    O["id"] = std::move(I);
    Object Er;
    E.Method = "-";
    E.A = "Unspecified error";
    if (S.chance(80)) { int Code = S.pick({-32700, -32601, 0, 7, -1}); E.Method = std::to_string(Code); Er["code"] = Code; }
    if (S.chance(80)) Er["message"] = E.A = jg::str(S, 5);
    O["error"] = std::move(Er);
  }
  }
  return Value(std::move(O));
}

std::string frame(Src &S, const std::string &Body) {
  std::string NL = S.chance(70) ? "\r\n" : "\n";
  std::string H = "Content-Length: " + std::string(S.chance(10) ? "0" : "") + std::to_string(Body.size()) + std::string(S.chance(5) ? " " : "") + NL;
  if (S.chance(25)) {
    std::string X = S.pick({std::string("Content-Type: application/vscode-jsonrpc; charset=utf-8"), std::string("X-Y: Content-Length: 3"), std::string("content-type:x")}) + NL;
    H = S.chance(50) ? H + X : X + H;
  }
  return H + NL + Body;
}

/// Feeds bytes to the port from another thread, in chunks.
void feed(Src &S, const std::string &Bytes, bool CloseAtOnce, std::function<void(int)> Run) {
  int P[2];
  if (pipe(P)) throw Discard{};
  std::vector<size_t> Cuts;
  unsigned N = S.small(6, 70);
  for (unsigned I = 0; I < N; ++I) Cuts.push_back(S.below(Bytes.size() + 1));
  std::sort(Cuts.begin(), Cuts.end());
  Cuts.push_back(Bytes.size());
  std::vector<bool> Wait;
  for (size_t I = 0; I < Cuts.size(); ++I) Wait.push_back(S.chance(20));
  auto Put = [&] {
    size_t B = 0;
    for (size_t I = 0; I < Cuts.size(); ++I) {
      while (B < Cuts[I]) {
        ssize_t W = write(P[1], Bytes.data() + B, Cuts[I] - B);
        if (W <= 0) break;
        B += W;
      }
      if (Wait[I]) std::this_thread::sleep_for(std::chrono::microseconds(300));
    }
    close(P[1]);
  };
  if (CloseAtOnce && Bytes.size() < 3500) {
    Put();
    Run(P[0]);
  } else {
    signal(SIGPIPE, SIG_IGN);
    std::thread T(Put);
    Run(P[0]);
    // The reader may have stopped early: drain, so that the writer ends.
    char B[4096];
    while (__real_read(P[0], B, sizeof B) > 0) {}
    T.join();
  }
  close(P[0]);
}

std::string list(const std::vector<Event> &V) {
  std::string O;
  for (auto &E : V) O += "\n  " + esc(E.str(), 200);
  return O;
}

void stream(Ctx &C, bool Fault) {
  Src &S = C.S;
  std::vector<Event> Want;
  std::string Bytes;
  unsigned N = 1 + S.small(6, 75);
  std::vector<size_t> Ends;
  for (unsigned I = 0; I < N; ++I) {
    Event E;
    Value V = message(S, E);
    std::string Body = jg::spell(S, V);
    if (S.chance(4)) Body += std::string(S.below(70000), ' ');
    Bytes += frame(S, Body);
    Want.push_back(E);
    Ends.push_back(Bytes.size());
  }
  Rec H;
  if (S.chance(25)) {
    size_t Cut = S.below(Bytes.size() + 1);
    Bytes.resize(Cut);
    size_t K = 0;
    while (K < Ends.size() && Ends[K] <= Cut) ++K;
    Want.resize(K);
    C.label("cut");
  } else if (S.chance(15)) {
    H.StopAt = 1 + S.below(Want.size());
    Want.resize(H.StopAt);
    C.label("stop");
  }
  bool AtOnce = S.chance(50);
  C.show("bytes", Bytes.size() > 3000 ? Bytes.substr(0, 3000) : Bytes);
  C.show("writer", AtOnce ? "closes before the first read" : "concurrent");
  C.nontrivial(Want.size() > 1);
  unsigned Seed = S.below(1u << 30);
  feed(S, Bytes, AtOnce, [&](int Fd) {
    InboundPort P(Fd);
    Rnd = Seed;
    Injected = 0;
    Faults = Fault;
    P.loop(H);
    Faults = false;
  });
  if (Injected) C.label("faults");
  if (H.Ev != Want) fail("messages-differ", "sent:" + list(Want) + "\ndelivered:" + list(H.Ev));
}
Sub Stream("stream", 2500, 60000, [](Ctx &C) { stream(C, false); }, 40);
Sub StreamF("faults", 1500, 40000, [](Ctx &C) { stream(C, true); }, 40);

// Bytes that are no protocol at all: the messages before them are delivered,
// and the server stops or goes on, but neither crashes nor hangs.
Sub Bad("malformed", 1500, 40000, [](Ctx &C) {
  Src &S = C.S;
  std::vector<Event> Want;
  std::string Bytes;
  for (unsigned N = S.small(3, 60); N; --N) {
    Event E;
    Value V = message(S, E);
    Bytes += frame(S, jg::spell(S, V));
    Want.push_back(E);
  }
  std::string Junk;
  switch (S.weighted({2, 3, 2, 2, 2, 2})) {
  case 0: Junk = txt::bytes(S, 30); break;
  case 1: Junk = "Content-Length: " + S.pick({std::string("-1"), std::string("99999999999999999999999"), std::string("9223372036854775807"), std::string("18446744073709551615"), std::string("99999999999"), std::string("5000000000"), std::string("abc"), std::string(""), std::string("1e3"), std::string("0")}) + "\r\n\r\n{}"; break;
  case 2: Junk = frame(S, txt::bytes(S, 12)); break;
  case 3: Junk = "\r\n\r\n\r\n"; break;
  case 4: Junk = frame(S, jg::spell(S, jg::gen(S))); break;
  default: { std::string B = "{\"jsonrpc\":\"2.0\",\"method\":\"x\"}"; Junk = frame(S, B.substr(0, S.below(B.size()))); }
  }
  Bytes += Junk;
  C.show("bytes", Bytes);
  C.nontrivial();
  Rec H;
  feed(S, Bytes, S.chance(50), [&](int Fd) {
    InboundPort P(Fd);
    P.loop(H);
  });
  check(H.Ev.size() >= Want.size() && std::equal(Want.begin(), Want.end(), H.Ev.begin()), "messages-differ", "sent:" + list(Want) + "\ndelivered:" + list(H.Ev));
}, 40);

// What OutboundPort writes is what InboundPort, and a reader of our own, read.
Sub Out("outbound", 2500, 60000, [](Ctx &C) {
  Src &S = C.S;
  std::string Buf;
  llvm::raw_string_ostream OS(Buf);
  bool Pretty = S.chance(40);
  std::vector<Event> Want;
  std::vector<Value> Msgs;
  {
    OutboundPort O(OS, Pretty);
    unsigned N = 1 + S.small(6, 75);
    for (unsigned I = 0; I < N; ++I) {
      Value P = jg::gen(S), ID = genId(S);
      std::string M = jg::str(S, 5);
      switch (S.below(4)) {
      case 0: Want.push_back({'n', M, jg::text(P), ""}); O.notify(M, P); Msgs.push_back(Object{{"jsonrpc", "2.0"}, {"method", M}, {"params", P}}); break;
      case 1: Want.push_back({'c', M, jg::text(P), jg::text(ID)}); O.call(M, P, ID); Msgs.push_back(Object{{"jsonrpc", "2.0"}, {"method", M}, {"params", P}, {"id", ID}}); break;
      case 2: Want.push_back({'r', "", jg::text(P), jg::text(ID)}); O.reply(ID, P); Msgs.push_back(Object{{"jsonrpc", "2.0"}, {"result", P}, {"id", ID}}); break;
      default: {
        int Code = S.pick({-32601, -32602, -32800});
        bool Plain = S.chance(30);
        if (Plain) Code = (int)ErrorCode::UnknownErrorCode;
        Want.push_back({'e', std::to_string(Code), M, jg::text(ID)});
        if (Plain) O.reply(ID, llvm::make_error<llvm::StringError>(M, llvm::inconvertibleErrorCode()));
        else O.reply(ID, llvm::make_error<LSPError>(M, ErrorCode(Code)));
        Msgs.push_back(Object{{"jsonrpc", "2.0"}, {"error", Object{{"code", Code}, {"message", M}}}, {"id", ID}});
      }
      }
    }
  }
  OS.flush();
  C.show("bytes", Buf.substr(0, 4000));
  C.nontrivial(Want.size() > 1);
  auto Fr = jg::frames(Buf);
  check(Fr.size() == Msgs.size(), "count", "another number of messages");
  for (size_t I = 0; I < Fr.size(); ++I)
    check(Fr[I] == Msgs[I], "message-differs", "want " + esc(jg::text(Msgs[I])) + ", got " + esc(jg::text(Fr[I])));
  Rec H;
  feed(S, Buf, S.chance(50), [&](int Fd) {
    InboundPort P(Fd);
    P.loop(H);
  });
  if (H.Ev != Want) fail("messages-differ", "sent:" + list(Want) + "\ndelivered:" + list(H.Ev));
}, 40);

// Threads share one port: whole messages, each thread's in its order.
Sub Threads("threads", 60, 1500, [](Ctx &C) {
  Src &S = C.S;
  int P[2];
  if (pipe(P)) throw Discard{};
  unsigned T = 2 + S.below(5), K = 5 + S.below(60), Size = 1 + S.below(3000);
  bool Pretty = S.chance(30);
  C.show("threads", std::to_string(T) + " x " + std::to_string(K) + ", " + std::to_string(Size) + " bytes");
  C.nontrivial();
  std::string Buf;
  std::thread Reader([&] {
    char B[65536];
    ssize_t N;
    while ((N = __real_read(P[0], B, sizeof B)) > 0) Buf.append(B, N);
  });
  {
    llvm::raw_fd_ostream OS(P[1], true);
    OutboundPort O(OS, Pretty);
    std::vector<std::thread> Th;
    for (unsigned I = 0; I < T; ++I)
      Th.emplace_back([&, I] {
        for (unsigned J = 0; J < K; ++J) {
          Value V = Array{(int64_t)I, (int64_t)J, std::string(Size * (J % 3), 'a' + I)};
          if (J % 3 == 0) O.notify("m", V);
          else if (J % 3 == 1) O.call("m", V, (int64_t)J);
          else O.reply((int64_t)J, V);
        }
      });
    for (auto &X : Th) X.join();
  }
  Reader.join();
  close(P[0]);
  std::vector<int64_t> Next(T, 0);
  auto Fr = jg::frames(Buf);
  check(Fr.size() == T * K, "count", "some messages are lost");
  for (auto &F : Fr) {
    auto *O = F.getAsObject();
    auto *A = O->getArray("params");
    if (!A) A = O->getArray("result");
    check(A && A->size() == 3, "message", "a message is damaged");
    int64_t I = *(*A)[0].getAsInteger(), J = *(*A)[1].getAsInteger();
    check(Next[I]++ == J, "order", "a thread's messages are out of order");
    check((*A)[2].getAsString()->str() == std::string(Size * (J % 3), 'a' + I), "message", "a message is damaged");
  }
}, 40);

// The Markdown test format.
Sub Lit("lit-test", 1500, 30000, [](Ctx &C) {
  Src &S = C.S;
  std::string T;
  std::vector<Event> Want;
  unsigned N = 1 + S.small(5, 70);
  for (unsigned I = 0; I < N; ++I) {
    for (unsigned K = S.small(3, 50); K; --K) T += S.pick({std::string("\n"), std::string("# title\n"), std::string("<-- initialize(0)\n"), std::string("`x` {\"a\":1}\n"), std::string("```\n")});
    if (S.chance(25)) {
      std::string Uri = "file:///" + std::string(1 + S.below(5), 'n') + ".nix", Text;
      for (unsigned K = S.small(4, 70); K; --K) Text += S.pick({std::string("{ a = 1; }"), std::string("  x"), std::string("# not a comment"), std::string(""), std::string("\xc3\xa9  "), std::string("``")}) + "\n";
      T += "```nix " + Uri + "\n" + Text + "```\n";
      while (!Text.empty() && strchr(" \n\t\r", Text.back())) Text.pop_back();
      Want.push_back({'n', "textDocument/didOpen", jg::text(Object{{"textDocument", Object{{"uri", Uri}, {"languageId", "nix"}, {"version", 1}, {"text", Text}}}}), ""});
      C.label("nix-block");
      continue;
    }
    Event E;
    Value V = message(S, E);
    std::string Body;
    llvm::raw_string_ostream OS(Body);
    if (S.chance(70)) OS << llvm::formatv("{0:2}", V);
    else OS << V;
    OS.flush();
    T += "```json\n";
    llvm::SmallVector<llvm::StringRef, 8> Ls;
    llvm::StringRef(Body).split(Ls, '\n');
    for (auto L : Ls) {
      if (S.chance(10)) T += "# a comment\n";
      T += L.str() + "\n";
    }
    T += "```\n";
    Want.push_back(E);
  }
  C.show("text", T);
  C.nontrivial(Want.size() > 1);
  Rec H;
  feed(S, T, S.chance(50), [&](int Fd) {
    InboundPort P(Fd, JSONStreamStyle::LitTest);
    P.loop(H);
  });
  if (H.Ev != Want) fail("messages-differ", "sent:" + list(Want) + "\ndelivered:" + list(H.Ev));
}, 40);
} // namespace
namespace pbt {
const char *Rule =
    "A case is a sequence of JSON-RPC messages (random JSON values, spelled with any blanks and escapes), framed with CRLF "
    "or LF headers and other header fields, cut into chunks, possibly truncated, with injected short and interrupted reads; "
    "or messages sent by several threads; or a Markdown test file. Non-trivial: more than one message has to be delivered.";
}
