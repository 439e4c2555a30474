#include "srv/server.h"
#include <condition_variable>
#include <fcntl.h>
#include <llvm/Support/CommandLine.h>
#include <llvm/Support/raw_ostream.h>
#include <mutex>
#include <nixd/Controller/Controller.h>
#include <signal.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>

extern "C" int pbtWorkerMain();
namespace srv {
static bool Registered = (pbt::WorkerMain = pbtWorkerMain, true);
namespace {
class Sink : public llvm::raw_ostream {
  uint64_t Pos = 0;

public:
  std::function<void(const char *, size_t)> On;
  Sink() { SetUnbuffered(); }
  void write_impl(const char *P, size_t N) override {
    Pos += N;
    On(P, N);
  }
  uint64_t current_pos() const override { return Pos; }
};
} // namespace

struct Server::Impl {
  std::mutex M;
  std::condition_variable CV;
  std::string Buf;
  std::map<int, Reply> Replies;
  std::vector<std::pair<std::string, Value>> Notes, Calls;
  std::map<std::string, Value> Diags;
  size_t Published = 0;
  std::map<std::string, size_t> PublishedOf;
  Value Config = Array{};
  std::string Bad;
  bool Ended = false;
  int Next = 1;
  int W = -1, R = -1;
  std::mutex WM;
  Sink Out;
  std::unique_ptr<nixd::Controller> C;
  std::thread T;
  Value Init = nullptr;
  pid_t Pid = -1;
  int Status = -1;

  void write(llvm::StringRef S) {
    std::lock_guard G(WM);
    while (!S.empty()) {
      ssize_t N = ::write(W, S.data(), S.size());
      if (N < 0 && errno == EINTR) continue;
      if (N <= 0) pbt::fail("input-closed", "the server closed its input");
      S = S.drop_front(N);
    }
  }
  void send(Value V) {
    std::string T = jg::text(V);
    write("Content-Length: " + std::to_string(T.size()) + "\r\n\r\n" + T);
  }
  void sendAsync(Value V) { // from the output callback: never block there
    std::string T = jg::text(V);
    auto F = std::make_shared<std::string>("Content-Length: " + std::to_string(T.size()) + "\r\n\r\n" + T);
    std::thread([this, F] {
      std::lock_guard G(WM);
      llvm::StringRef S = *F;
      while (!S.empty()) {
        ssize_t N = ::write(W, S.data(), S.size());
        if (N < 0 && errno == EINTR) continue;
        if (N <= 0) return;
        S = S.drop_front(N);
      }
    }).detach();
  }
  void message(Value V) {
    auto *O = V.getAsObject();
    if (!O) { Bad = "not an object: " + jg::text(V); return; }
    auto Method = O->getString("method");
    if (Method && O->get("id")) {
      Calls.emplace_back(Method->str(), O->get("params") ? *O->get("params") : Value(nullptr));
      Value Res = nullptr;
      if (*Method == "workspace/configuration") Res = Config;
      if (*Method == "window/showDocument") Res = Object{{"success", true}};
      sendAsync(Object{{"jsonrpc", "2.0"}, {"id", *O->get("id")}, {"result", std::move(Res)}});
    } else if (Method) {
      Value P = O->get("params") ? *O->get("params") : Value(nullptr);
      if (*Method == "textDocument/publishDiagnostics") {
        ++Published;
        if (auto *PO = P.getAsObject())
          if (auto U = PO->getString("uri")) Diags.insert_or_assign(U->str(), P), ++PublishedOf[U->str()];
      }
      Notes.emplace_back(Method->str(), std::move(P));
    } else if (auto Id = O->getInteger("id")) {
      Reply Re;
      if (auto *E = O->getObject("error")) {
        Re.Code = E->getInteger("code").value_or(0);
        Re.Msg = E->getString("message").value_or("").str();
      } else if (auto *X = O->get("result")) {
        Re.Ok = true;
        Re.Result = *X;
      } else Bad = "neither result nor error: " + jg::text(V);
      if (!Replies.emplace((int)*Id, std::move(Re)).second) Bad = "answered twice: " + std::to_string(*Id);
    } else Bad = "unknown message: " + jg::text(V);
  }
  void onBytes(const char *P, size_t N) {
    std::lock_guard G(M);
    Buf.append(P, N);
    while (true) {
      size_t H = Buf.find("\r\n\r\n");
      if (H == std::string::npos) break;
      size_t L = 0;
      if (sscanf(Buf.c_str(), "Content-Length: %zu", &L) != 1) { Bad = "no Content-Length: " + Buf.substr(0, 60); break; }
      if (Buf.size() < H + 4 + L) break;
      auto V = llvm::json::parse(llvm::StringRef(Buf).substr(H + 4, L));
      if (!V) { Bad = "not JSON: " + Buf.substr(H + 4, L); llvm::consumeError(V.takeError()); }
      else message(*V);
      Buf.erase(0, H + 4 + L);
    }
    CV.notify_all();
  }
};

Server::Server(Opts O) : I(std::make_unique<Impl>()) {
  try { start(std::move(O)); } catch (...) { stop(); throw; }
}
void Server::start(Opts O) {
  signal(SIGPIPE, SIG_IGN);
  if (O.Exe.empty()) {
    static bool Once = [&] {
      static std::vector<std::string> A{"nixd"};
      for (auto &X : O.Args) A.push_back(X);
      std::vector<const char *> V;
      for (auto &X : A) V.push_back(X.c_str());
      llvm::cl::ParseCommandLineOptions(V.size(), V.data());
      return true;
    }();
    (void)Once;
  }
  if (!getenv("NIXD_ATTRSET_EVAL")) {
    char Exe[4096];
    ssize_t N = readlink("/proc/self/exe", Exe, sizeof Exe - 1);
    Exe[N > 0 ? N : 0] = 0;
    setenv("NIXD_ATTRSET_EVAL", Exe, 1);
  }
  int P[2];
  if (!O.Exe.empty()) {
    int Q[2];
    if (pipe2(P, O_CLOEXEC) || pipe2(Q, O_CLOEXEC)) abort();
    std::vector<const char *> V{O.Exe.c_str()};
    for (auto &X : O.Args) V.push_back(X.c_str());
    V.push_back(nullptr);
    I->Pid = fork();
    if (!I->Pid) {
      dup2(P[0], 0);
      dup2(Q[1], 1);
      int N = ::open(getenv("PBT_INLINE") ? "/dev/stderr" : "/dev/null", O_WRONLY);
      dup2(N, 2);
      signal(SIGPIPE, SIG_DFL);
      execv(O.Exe.c_str(), const_cast<char **>(V.data()));
      _exit(127);
    }
    ::close(P[0]);
    ::close(Q[1]);
    I->W = P[1];
    I->R = Q[0];
    I->T = std::thread([this] {
      char B[65536];
      ssize_t N;
      while ((N = read(I->R, B, sizeof B)) > 0 || (N < 0 && errno == EINTR))
        if (N > 0) I->onBytes(B, N);
      std::lock_guard G(I->M);
      I->Ended = true;
      I->CV.notify_all();
    });
    if (O.Init) {
      auto R = call("initialize", Object{{"processId", nullptr}, {"rootUri", nullptr}, {"capabilities", Value(std::move(O.Caps))}});
      if (!R.Ok) pbt::fail("initialize", R.Msg);
      I->Init = R.Result;
      notify("initialized", Object{});
    }
    return;
  }
  if (pipe2(P, O_CLOEXEC)) abort();
  I->R = P[0];
  I->W = P[1];
  I->Out.On = [this](const char *B, size_t N) { I->onBytes(B, N); };
  I->C = std::make_unique<nixd::Controller>(std::make_unique<lspserver::InboundPort>(I->R), std::make_unique<lspserver::OutboundPort>(I->Out));
  I->T = std::thread([this] {
    I->C->run();
    std::lock_guard G(I->M);
    I->Ended = true;
    I->CV.notify_all();
  });
  if (O.Init) {
    auto R = call("initialize", Object{{"processId", nullptr}, {"rootUri", nullptr}, {"capabilities", Value(std::move(O.Caps))}});
    if (!R.Ok) pbt::fail("initialize", R.Msg);
    I->Init = R.Result;
    notify("initialized", Object{});
  }
}
int Server::finish(unsigned Ms) {
  if (I->W >= 0) ::close(I->W);
  I->W = -1;
  for (unsigned K = 0; I->Status == -1; ++K) {
    int St;
    if (waitpid(I->Pid, &St, WNOHANG) == I->Pid) { I->Status = St; break; }
    if (K * 2 >= Ms) {
      kill(I->Pid, SIGKILL);
      waitpid(I->Pid, &St, 0);
      I->Status = St;
      pbt::fail("no-exit", "the server does not exit at the end of its input");
    }
    usleep(2000);
  }
  return I->Status;
}
int Server::pid() { return I->Pid; }
Server::~Server() { stop(); }
void Server::stop() {
  if (I->Pid > 0) {
    if (I->Status == -1) {
      kill(I->Pid, SIGKILL);
      waitpid(I->Pid, &I->Status, 0);
    }
    if (I->W >= 0) ::close(I->W);
    if (I->T.joinable()) I->T.join();
    ::close(I->R);
    return;
  }
  ::close(I->W);
  if (I->T.joinable()) I->T.join();
  I->C.reset();
  ::close(I->R);
}
int Server::send(llvm::StringRef Method, Value Params) {
  int Id = I->Next++;
  I->send(Object{{"jsonrpc", "2.0"}, {"id", Id}, {"method", Method}, {"params", std::move(Params)}});
  return Id;
}
Reply Server::wait(int Id, unsigned Ms) {
  std::unique_lock L(I->M);
  bool Got = I->CV.wait_for(L, std::chrono::milliseconds(Ms), [&] { return I->Replies.count(Id) || I->Ended || !I->Bad.empty(); });
  if (!I->Bad.empty()) pbt::fail("bad-message", I->Bad);
  if (!Got) pbt::fail("no-reply", "no answer within " + std::to_string(Ms) + " ms");
  auto It = I->Replies.find(Id);
  if (It == I->Replies.end()) pbt::fail("no-reply", "the server ended without an answer");
  Reply R = std::move(It->second);
  It->second = {};
  return R;
}
std::optional<Reply> Server::poll(int Id) {
  std::lock_guard G(I->M);
  auto It = I->Replies.find(Id);
  if (It == I->Replies.end()) return {};
  return It->second;
}
void Server::notify(llvm::StringRef Method, Value Params) {
  I->send(Object{{"jsonrpc", "2.0"}, {"method", Method}, {"params", std::move(Params)}});
}
void Server::raw(llvm::StringRef B) { I->write(B); }
void Server::open(llvm::StringRef Uri, llvm::StringRef Text, int64_t Version) {
  notify("textDocument/didOpen", Object{{"textDocument", Object{{"uri", Uri}, {"languageId", "nix"}, {"version", Version}, {"text", Text}}}});
}
void Server::change(llvm::StringRef Uri, Value Changes, int64_t Version) {
  notify("textDocument/didChange", Object{{"textDocument", Object{{"uri", Uri}, {"version", Version}}}, {"contentChanges", std::move(Changes)}});
}
void Server::close(llvm::StringRef Uri) { notify("textDocument/didClose", Object{{"textDocument", Object{{"uri", Uri}}}}); }
void Server::sync() { call("textDocument/foldingRange", Object{{"textDocument", doc("file:///no-such-document.nix")}}); }
std::optional<Value> Server::diags(llvm::StringRef Uri) {
  std::lock_guard G(I->M);
  auto It = I->Diags.find(Uri.str());
  if (It == I->Diags.end()) return {};
  return It->second;
}
size_t Server::published(llvm::StringRef U) { std::lock_guard G(I->M); return I->PublishedOf[U.str()]; }
size_t Server::published() { std::lock_guard G(I->M); return I->Published; }
static std::vector<Value> named(const std::vector<std::pair<std::string, Value>> &V, llvm::StringRef M) {
  std::vector<Value> R;
  for (auto &[N, P] : V) if (N == M) R.push_back(P);
  return R;
}
std::vector<Value> Server::notes(llvm::StringRef M) { std::lock_guard G(I->M); return named(I->Notes, M); }
std::vector<Value> Server::calls(llvm::StringRef M) { std::lock_guard G(I->M); return named(I->Calls, M); }
void Server::forget() {
  std::lock_guard G(I->M);
  I->Notes.clear();
  I->Calls.clear();
  I->Diags.clear();
  I->Replies.clear();
}
void Server::config(Value V) { std::lock_guard G(I->M); I->Config = Array{std::move(V)}; }
void Server::configAnswer(Value V) { std::lock_guard G(I->M); I->Config = std::move(V); }
void Server::configure(Value V) {
  // A probe document is published again as the last step of an update.
  config(std::move(V));
  std::string Probe = "file:///configuration-probe.nix";
  open(Probe, "1", 7);
  sync();
  auto Seen = [&] { return I->PublishedOf[Probe]; };
  size_t Before;
  { std::lock_guard G(I->M); Before = Seen(); }
  notify("workspace/didChangeConfiguration", Object{{"settings", nullptr}});
  {
    std::unique_lock L(I->M);
    if (!I->CV.wait_for(L, std::chrono::seconds(60), [&] { return Seen() > Before || I->Ended; }) || I->Ended)
      pbt::fail("configuration", "the new configuration never came into force");
  }
  close(Probe);
  sync();
}
bool Server::ended() { std::lock_guard G(I->M); return I->Ended; }
bool Server::badFrames(std::string &Why) { std::lock_guard G(I->M); Why = I->Bad; return !Why.empty(); }
Value Server::init() { return I->Init; }

Server &shared(Opts (*Make)()) {
  static Server *S = new Server(Make ? Make() : Opts{});
  return *S;
}

std::string uriOf(llvm::StringRef Path) {
  std::string R = "file://";
  for (unsigned char C : Path) {
    if (isalnum(C) || strchr("/-_.~", C)) R += C;
    else { char B[8]; snprintf(B, sizeof B, "%%%02X", C); R += B; }
  }
  return R;
}
Value pos(int64_t L, int64_t C) { return Object{{"line", L}, {"character", C}}; }
static size_t units(unsigned char C) { return (C & 0xC0) == 0x80 ? 0 : C >= 0xF0 ? 2 : 1; }
Value posAt(llvm::StringRef T, size_t Off) {
  int64_t L = 0, C = 0;
  for (size_t I = 0; I < Off && I < T.size(); ++I) {
    if (T[I] == '\n') ++L, C = 0;
    else C += units(T[I]);
  }
  return pos(L, C);
}
size_t offAt(llvm::StringRef T, const Value &P) {
  auto *O = P.getAsObject();
  auto L = O ? O->getInteger("line") : std::nullopt, C = O ? O->getInteger("character") : std::nullopt;
  if (!L || !C) pbt::fail("not-a-position", jg::text(P));
  size_t I = 0;
  for (int64_t N = *L; N > 0; --N) {
    I = T.find('\n', I);
    if (I == llvm::StringRef::npos) pbt::fail("outside-text", "line " + std::to_string(*L) + " does not exist");
    ++I;
  }
  int64_t U = *C;
  while (U > 0 && I < T.size() && T[I] != '\n') {
    U -= units(T[I]);
    ++I;
    while (I < T.size() && (T[I] & 0xC0) == 0x80) ++I;
  }
  if (U || *L < 0 || *C < 0) pbt::fail("outside-text", "position " + jg::text(P) + " is not in the text");
  return I;
}
std::pair<size_t, size_t> rangeAt(llvm::StringRef T, const Value &R) {
  auto *O = R.getAsObject();
  if (!O || !O->get("start") || !O->get("end")) pbt::fail("not-a-range", jg::text(R));
  size_t A = offAt(T, *O->get("start")), B = offAt(T, *O->get("end"));
  if (A > B) pbt::fail("range-reversed", jg::text(R));
  return {A, B};
}
Value doc(llvm::StringRef Uri) { return Object{{"uri", Uri.str()}}; }
Value at(llvm::StringRef Uri, llvm::StringRef T, size_t Off) { return Object{{"textDocument", doc(Uri)}, {"position", posAt(T, Off)}}; }
std::string applyEdits(llvm::StringRef T, const Array &Edits) {
  struct E { size_t A, B, I; std::string S; };
  std::vector<E> V;
  for (auto &X : Edits) {
    auto *O = X.getAsObject();
    if (!O || !O->get("range") || !O->getString("newText")) pbt::fail("not-an-edit", jg::text(X));
    auto [A, B] = rangeAt(T, *O->get("range"));
    V.push_back({A, B, V.size(), O->getString("newText")->str()});
  }
  std::stable_sort(V.begin(), V.end(), [](auto &X, auto &Y) { return X.A != Y.A ? X.A < Y.A : X.B < Y.B; });
  std::string R;
  size_t P = 0;
  for (auto &X : V) {
    if (X.A < P) pbt::fail("edits-overlap", jg::text(Array(Edits)));
    R += T.substr(P, X.A - P);
    R += X.S;
    P = X.B;
  }
  return R + T.substr(P).str();
}
void applyWorkspaceEdit(const Value &Edit, std::map<std::string, std::string> &Files) {
  auto *O = Edit.getAsObject();
  if (!O) pbt::fail("not-an-edit", jg::text(Edit));
  auto Apply = [&](std::string U, const Array *A) {
    auto It = Files.find(U);
    if (It == Files.end()) pbt::fail("edits-unknown-file", U);
    if (!A) pbt::fail("not-an-edit", jg::text(Edit));
    It->second = applyEdits(It->second, *A);
  };
  if (auto *DC = O->getArray("documentChanges")) {
    for (auto &X : *DC) {
      auto *D = X.getAsObject();
      if (!D) pbt::fail("not-an-edit", jg::text(Edit));
      auto Kind = D->getString("kind");
      auto Uri = D->getString("uri");
      if (!Kind) {
        auto *TD = D->getObject("textDocument");
        Apply(TD && TD->getString("uri") ? TD->getString("uri")->str() : "", D->getArray("edits"));
      } else if (*Kind == "create" && Uri) {
        auto *Op = D->getObject("options");
        bool Ow = Op && Op->getBoolean("overwrite").value_or(false), Ig = Op && Op->getBoolean("ignoreIfExists").value_or(false);
        if (!Files.count(Uri->str()) || Ow) Files[Uri->str()] = "";
        else if (!Ig) pbt::fail("creates-existing", Uri->str());
      } else pbt::fail("not-an-edit", jg::text(Edit));
    }
    return;
  }
  if (auto *Ch = O->getObject("changes"))
    for (auto &[U, A] : *Ch) Apply(U.str(), A.getAsArray());
}
} // namespace srv
