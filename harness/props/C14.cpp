// USES: lsp
#include "core/jsongen.h"
#include <lspserver/LSPServer.h>
#include <thread>
using namespace pbt;
using namespace lspserver;
using namespace llvm::json;

namespace {
struct Num { int64_t N = 0; std::string T; };
bool fromJSON(const Value &V, Num &R, llvm::json::Path P) {
  ObjectMapper O(V, P);
  return O && O.map("n", R.N) && O.mapOptional("t", R.T);
}
Value toJSON(const Num &R) { return Object{{"n", R.N}, {"t", R.T}}; }

struct Server : LSPServer {
  using CB = Callback<Value>;
  std::vector<CB> Later;
  std::vector<std::string> Notes;
  llvm::unique_function<void(const Num &, Callback<Num>)> Call;
  llvm::unique_function<void(const Num &)> Tell;
  Server(llvm::raw_ostream &OS) : LSPServer(std::make_unique<InboundPort>(-1), std::make_unique<OutboundPort>(OS)) {
    Registry.addMethod("now", this, &Server::now);
    Registry.addMethod("later", this, &Server::later);
    Registry.addMethod("fail", this, &Server::err);
    Registry.addMethod("calls", this, &Server::calls);
    Registry.addNotification("note", this, &Server::note);
    Call = mkOutMethod<Num, Num>("client/m");
    Tell = mkOutNotifiction<Num>("client/n");
  }
  void now(const Num &P, Callback<Num> R) { R(Num{P.N + 1, P.T}); }
  void later(const Num &P, Callback<Value> R) { Later.push_back(std::move(R)); }
  void err(const Num &P, Callback<Num> R) { R(llvm::make_error<LSPError>(P.T, ErrorCode::RequestCancelled)); }
  void calls(const Num &P, Callback<Num> R) { // forwards to the client
    Call(P, [R = std::move(R)](llvm::Expected<Num> A) mutable {
      if (!A) return R(A.takeError());
      R(Num{A->N, A->T});
    });
  }
  void note(const Num &P) { Notes.push_back(std::to_string(P.N) + P.T); }
  MessageHandler &h() { return *this; }
};

Value id(Src &S, int &Fresh) {
  ++Fresh;
  switch (S.weighted({5, 3, 1, 1})) {
  case 0: return (int64_t)Fresh;
  case 1: return "id" + std::to_string(Fresh) + jg::str(S, 2);
  case 2: return -(int64_t)Fresh;
  default: return 4294967296ll * 1000 + Fresh;
  }
}

// One history of requests, notifications, calls to the client and replies.
Sub History("history", 2500, 60000, [](Ctx &C) {
  Src &S = C.S;
  std::string Buf;
  llvm::raw_string_ostream OS(Buf);
  int Fresh = 0;
  // Outlives the server: a callback may run when the server is destroyed.
  struct CallRec { int Times = 0; std::string Got; bool Err = false; };
  std::map<int, CallRec> Calls; // by our own number
  Server Srv(OS);
  struct Pending { Value ID; };
  std::vector<std::string> WantNotes;
  std::vector<Value> Want;           // what has to be written, in order
  std::vector<Value> LaterIDs;       // requests a handler still holds
  std::map<int64_t, int> Open;       // wire id -> our number
  std::map<int64_t, Value> Forward;  // wire id -> the request that waits for it
  std::vector<int64_t> Used;
  int NextCall = 0;
  int64_t NextWire = 1;
  auto Err = [](int Code, std::optional<std::string> M) {
    Object O{{"code", Code}};
    if (M) O["message"] = *M;
    return Value(std::move(O));
  };
  // Opening a call may push out the oldest.
  std::function<void(int64_t)> Opened = [&](int64_t Wire) {
    if (Open.size() + Forward.size() <= 100) return;
    int64_t Oldest = INT64_MAX;
    if (!Open.empty()) Oldest = std::min(Oldest, Open.begin()->first);
    if (!Forward.empty()) Oldest = std::min(Oldest, Forward.begin()->first);
    if (auto It = Open.find(Oldest); It != Open.end()) {
      check(Calls[It->second].Times == 1 && Calls[It->second].Err, "forgotten", "the call pushed out got no error");
      Open.erase(It);
    } else {
      Want.push_back(Object{{"jsonrpc", "2.0"}, {"id", Forward.at(Oldest)}, {"error", Err((int)ErrorCode::UnknownErrorCode, std::nullopt)}});
      Forward.erase(Oldest);
    }
    C.label("forgotten");
  };
  bool Many = S.chance(6);
  unsigned N = Many ? 110 + S.below(40) : 2 + S.small(30, 93);
  for (unsigned I = 0; I < N; ++I) {
    Num P{(int64_t)S.below(50), jg::str(S, 3)};
    size_t K = Many ? S.weighted({1, 0, 0, 1, 0, 40, 2}) : S.weighted({5, 3, 2, 3, 2, 5, 6});
    switch (K) {
    case 0: { // a request
      Value ID = id(S, Fresh);
      std::string M = S.pick({std::string("now"), std::string("later"), std::string("fail"), std::string("none"), std::string("$/x"), std::string("now-bad"), std::string("note")});
      C.show("request", M + " " + jg::text(ID) + " " + jg::text(toJSON(P)));
      Value Par = toJSON(P);
      if (M == "now-bad") Par = S.pick<Value>({Value(nullptr), Value(3), Value(Object{}), Value(Object{{"n", "x"}}), Value(Array{})});
      bool Go = Srv.h().onCall(M == "now-bad" ? "now" : M, Par, ID);
      check(Go, "stopped", "a request stops the server");
      if (M == "now") Want.push_back(Object{{"jsonrpc", "2.0"}, {"id", ID}, {"result", Object{{"n", P.N + 1}, {"t", P.T}}}});
      else if (M == "later") LaterIDs.push_back(ID);
      else if (M == "fail") Want.push_back(Object{{"jsonrpc", "2.0"}, {"id", ID}, {"error", Err((int)ErrorCode::RequestCancelled, P.T)}});
      else if (M == "now-bad") Want.push_back(Object{{"jsonrpc", "2.0"}, {"id", ID}, {"error", Err((int)ErrorCode::InvalidParams, std::nullopt)}});
      else Want.push_back(Object{{"jsonrpc", "2.0"}, {"id", ID}, {"error", Err((int)ErrorCode::MethodNotFound, std::nullopt)}});
      C.label(M);
      break;
    }
    case 1: { // answer one that waits
      if (LaterIDs.empty()) break;
      size_t J = S.below(LaterIDs.size());
      C.show("answer", jg::text(LaterIDs[J]));
      auto CB = std::move(Srv.Later[J]);
      Srv.Later.erase(Srv.Later.begin() + J);
      if (S.chance(75)) {
        Value R = jg::gen(S, 2);
        Want.push_back(Object{{"jsonrpc", "2.0"}, {"id", LaterIDs[J]}, {"result", R}});
        CB(R);
      } else {
        Want.push_back(Object{{"jsonrpc", "2.0"}, {"id", LaterIDs[J]}, {"error", Err(7, P.T)}});
        CB(llvm::make_error<LSPError>(P.T, ErrorCode(7)));
      }
      if (J) C.label("out-of-order");
      LaterIDs.erase(LaterIDs.begin() + J);
      C.nontrivial();
      break;
    }
    case 2: { // a notification
      bool Bad = S.chance(25);
      std::string M = S.chance(70) ? "note" : S.pick({std::string("other"), std::string("$/cancelRequest"), std::string("now")});
      C.show("notify", M + (Bad ? " (bad)" : ""));
      bool Go = Srv.h().onNotify(M, Bad ? S.pick<Value>({Value(nullptr), Value("x"), Value(Object{{"n", nullptr}})}) : toJSON(P));
      check(Go, "stopped", "a notification stops the server");
      if (M == "note" && !Bad) WantNotes.push_back(std::to_string(P.N) + P.T);
      break;
    }
    case 3: // a notification to the client
      C.show("tell", std::to_string(P.N));
      Srv.Tell(P);
      Want.push_back(Object{{"jsonrpc", "2.0"}, {"method", "client/n"}, {"params", toJSON(P)}});
      break;
    case 4: { // a request that the server forwards to the client
      Value ID = id(S, Fresh);
      C.show("forward", jg::text(ID));
      int64_t W = NextWire++;
      Forward.insert({W, ID});
      Srv.h().onCall("calls", toJSON(P), ID);
      Opened(W);
      Want.push_back(Object{{"jsonrpc", "2.0"}, {"id", W}, {"method", "client/m"}, {"params", toJSON(P)}});
      break;
    }
    case 5: { // the server calls the client
      int Me = NextCall++;
      C.show("call", std::to_string(Me));
      bool Again = S.chance(15);
      int64_t W = NextWire++;
      Open.insert({W, Me});
      Srv.Call(P, [&Calls, Me, &Srv, Again, &Want, &NextWire, &Open, &NextCall](llvm::Expected<Num> R) {
        auto &X = Calls[Me];
        ++X.Times;
        if (R) X.Got = std::to_string(R->N) + R->T;
        else { X.Err = true; llvm::consumeError(R.takeError()); }
        if (Again && X.Times == 1) { // a callback may call again
          Num Q{Me, "again"};
          int Me2 = 100000 + Me;
          int64_t W2 = NextWire++;
          Open.insert({W2, Me2});
          Want.push_back(Object{{"jsonrpc", "2.0"}, {"id", W2}, {"method", "client/m"}, {"params", toJSON(Q)}});
          Srv.Call(Q, [&Calls, Me2](llvm::Expected<Num> R) {
            auto &X = Calls[Me2];
            ++X.Times;
            if (R) X.Got = std::to_string(R->N) + R->T;
            else { X.Err = true; llvm::consumeError(R.takeError()); }
          });
        }
      });
      // The order of the frames does not matter below.
      if (Open.size() + Forward.size() > 100) {
        Opened(W);
        while (Open.size() + Forward.size() > 100) Opened(W);
      }
      Want.push_back(Object{{"jsonrpc", "2.0"}, {"id", W}, {"method", "client/m"}, {"params", toJSON(P)}});
      break;
    }
    default: { // the client replies
      Value ID = nullptr;
      int64_t W = -1;
      bool Live = false;
      if (S.chance(70) && !(Open.empty() && Forward.empty())) {
        std::vector<int64_t> All;
        for (auto &[K, _] : Open) All.push_back(K);
        for (auto &[K, _] : Forward) All.push_back(K);
        W = S.pick(All);
        ID = W;
        Live = true;
        if (W != *std::min_element(All.begin(), All.end())) C.label("reply-out-of-order");
      } else { // no such call (any more)
        switch (S.below(6)) {
        case 0: if (!Used.empty()) ID = S.pick(Used); break;
        case 1: ID = NextWire + (int64_t)S.below(3); break;
        case 2: ID = std::to_string(NextWire - 1); break;
        case 3: ID = 4294967296ll + (NextWire > 1 ? NextWire - 1 : 0); break;
        case 4: ID = -4294967296ll + (NextWire > 1 ? NextWire - 1 : 0); break;
        default: ID = Object{{"a", 1}};
        }
        C.label("stray-reply");
      }
      bool Good = S.chance(60), Bad = !Good && S.chance(50);
      C.show("reply", jg::text(ID) + (Good ? " ok" : Bad ? " malformed" : " error"));
      bool Go = Good || Bad ? Srv.h().onReply(ID, Good ? toJSON(P) : Value("nonsense")) : Srv.h().onReply(ID, llvm::make_error<LSPError>(P.T, ErrorCode(7)));
      check(Go, "stopped", "a reply stops the server");
      if (!Live) break;
      C.nontrivial();
      Used.push_back(W);
      if (auto It = Open.find(W); It != Open.end()) {
        auto &X = Calls[It->second];
        check(X.Times == 1, "callback-times", "the callback of a call was called " + std::to_string(X.Times) + " times");
        check(X.Err == !Good, "callback-error", "success for failure, or the reverse");
        if (Good) check(X.Got == std::to_string(P.N) + P.T, "callback-value", "the callback has the reply to another call");
        Open.erase(It);
      } else {
        auto F = Forward.find(W);
        if (Good) Want.push_back(Object{{"jsonrpc", "2.0"}, {"id", F->second}, {"result", toJSON(P)}});
        else Want.push_back(Object{{"jsonrpc", "2.0"}, {"id", F->second}, {"error", Bad ? Err((int)ErrorCode::InvalidParams, std::nullopt) : Err(7, P.T)}});
        Forward.erase(F);
      }
    }
    }
    for (auto &[W, Me] : Open) check(Calls[Me].Times == 0, "early", "the callback of an open call was called");
    for (auto &[Me, X] : Calls) check(X.Times <= 1, "twice", "a callback was called twice");
  }
  check(Srv.Notes == WantNotes, "notifications", "other notifications were handled");
  OS.flush();
  auto Norm = [](Value V, bool Msg) {
    if (auto *E = V.getAsObject()->getObject("error"))
      if (!Msg) E->erase("message");
    return jg::text(V);
  };
  std::multiset<std::string> A, B;
  std::map<std::string, std::string> MsgOf;
  for (auto &V : Want) {
    auto *E = V.getAsObject()->getObject("error");
    if (E && E->get("message")) MsgOf[jg::text(*V.getAsObject()->get("id"))] = E->getString("message")->str();
    A.insert(Norm(V, false));
  }
  std::vector<std::string> Order;
  for (auto &V : jg::frames(Buf)) {
    auto *E = V.getAsObject()->getObject("error");
    if (E) {
      auto It = MsgOf.find(jg::text(*V.getAsObject()->get("id")));
      if (It != MsgOf.end()) check(E->getString("message") == llvm::StringRef(It->second), "error-message", "the error's text differs");
    }
    B.insert(Norm(V, false));
  }
  for (auto &X : A) if (!B.count(X)) fail("missing", "not written: " + esc(X));
  for (auto &X : B) if (!A.count(X)) fail("unexpected", "written: " + esc(X));
  check(A == B, "count", "a message is written twice, or once too few");
  if (!Srv.h().onNotify("exit", nullptr)) return;
  fail("exit", "the server goes on after `exit`");
}, 20);

// Calls from several threads while replies arrive.
Sub Threads("threads", 80, 2000, [](Ctx &C) {
  Src &S = C.S;
  struct Sink : llvm::raw_ostream { // counts bytes; frames are C13's concern
    uint64_t N = 0;
    std::string Buf;
    void write_impl(const char *P, size_t K) override { Buf.append(P, K); N += K; }
    uint64_t current_pos() const override { return N; }
    ~Sink() override { flush(); }
  } OS;
  unsigned T = 2 + S.below(4), K = 10 + S.below(80);
  C.show("threads", std::to_string(T) + " x " + std::to_string(K));
  C.nontrivial();
  std::vector<std::atomic<int>> Times(T * K);
  std::vector<std::atomic<int64_t>> Val(T * K);
  std::atomic<int64_t> Sent{0};
  Server Srv(OS);
  std::vector<std::thread> Th;
  std::atomic<bool> Stop{false};
  for (unsigned I = 0; I < T; ++I)
    Th.emplace_back([&, I] {
      auto Call = [&](int Me) {
        while (Sent.load() > 60 && !Stop) std::this_thread::yield();
        ++Sent;
        Srv.Call(Num{Me, ""}, [&, Me](llvm::Expected<Num> R) {
          ++Times[Me];
          --Sent;
          if (R) Val[Me] = R->N; else { Val[Me] = -7; llvm::consumeError(R.takeError()); }
        });
      };
      for (unsigned J = 0; J < K; ++J) Call(I * K + J);
    });
  // The client: replies to wire ids 1.. in a shuffled window.
  std::thread Client([&] {
    std::vector<int64_t> Ids;
    for (int64_t I = 1; I <= (int64_t)(T * K); ++I) Ids.push_back(I);
    unsigned R = 12345;
    for (size_t I = 0; I + 1 < Ids.size(); ++I) { R = R * 1103515245 + 12345; size_t J = I + (R >> 16) % std::min<size_t>(8, Ids.size() - I); std::swap(Ids[I], Ids[J]); }
    auto H = [&](int64_t W) { Srv.h().onReply(W, toJSON(Num{W, ""})); };
    std::set<int64_t> Left(Ids.begin(), Ids.end());
    auto Total = [&] { int N = 0; for (auto &X : Times) N += X; return N; };
    for (int Round = 0; Round < 20000 && Total() < (int)(T * K); ++Round) {
      for (auto W : Ids) if (Left.count(W)) { int B = Total(); H(W); if (Total() > B) Left.erase(W); if (W > 200 + (int64_t)B) break; }
    }
    Stop = true;
  });
  for (auto &X : Th) X.join();
  Client.join();
  std::set<int64_t> Seen;
  for (unsigned I = 0; I < T * K; ++I) {
    check(Times[I] == 1, "callback-times", "a callback was called " + std::to_string(Times[I]) + " times");
    check(Val[I] != -7 && Seen.insert(Val[I]).second, "shared-id", "two calls have one reply");
  }
  // The wire ties each id to the call that has its reply.
  std::map<int64_t, int64_t> Wire;
  for (auto &F : jg::frames(OS.Buf)) {
    auto *O = F.getAsObject();
    check(Wire.insert({*O->getInteger("id"), *O->getObject("params")->getInteger("n")}).second, "shared-id", "an id was used twice");
  }
  for (auto &[W, Me] : Wire) check(Val[Me] == W, "wrong-reply", "a call has the reply to another");
}, 40);
} // namespace
namespace pbt {
const char *Rule =
    "A case is a history of requests (known, unknown, with bad parameters, answered at once or later, forwarded to the "
    "client), notifications, calls to the client and its replies (in any order, repeated, stray, malformed), or calls from "
    "several threads. Non-trivial: a deferred request is answered or the client replies to an open call.";
}
