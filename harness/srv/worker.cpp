// The fake evaluator: answers as nixd-attrset-eval would, from a JSON world
// given as the evaluated "expression". Runs when this binary is started under
// the name nixd-attrset-eval.
//
// world: {"info": {"a.b": response | {"!": "error"}}, "complete": {"a.b": [names]},
//         "option": {...}, "options": {"scope": [fields]}, "die": "method", "hang": "method",
//         "garbage": "method", "delay": ms}
#include "core/jsongen.h"
#include <fstream>
#include <signal.h>
#include <unistd.h>
using namespace llvm::json;

extern "C" int pbtWorkerMain() {
  signal(SIGPIPE, SIG_DFL);
  Object World;
  std::string Buf;
  char Tmp[65536];
  auto Write = [](const std::string &S) {
    size_t I = 0;
    while (I < S.size()) {
      ssize_t N = write(1, S.data() + I, S.size() - I);
      if (N <= 0) _exit(0);
      I += N;
    }
  };
  auto Key = [](const Value *V) {
    std::string K;
    if (V && V->getAsArray())
      for (auto &X : *V->getAsArray()) { if (!K.empty()) K += '.'; K += X.getAsString().value_or("?").str(); }
    return K;
  };
  while (true) {
    ssize_t N = read(0, Tmp, sizeof Tmp);
    if (N < 0 && errno == EINTR) continue;
    if (N <= 0) _exit(0);
    Buf.append(Tmp, N);
    size_t H;
    while ((H = Buf.find("\r\n\r\n")) != std::string::npos) {
      size_t L = 0;
      if (sscanf(Buf.c_str(), "Content-Length: %zu", &L) != 1) _exit(1);
      if (Buf.size() < H + 4 + L) break;
      auto V = parse(llvm::StringRef(Buf).substr(H + 4, L));
      Buf.erase(0, H + 4 + L);
      if (!V) { llvm::consumeError(V.takeError()); _exit(1); }
      auto *O = V->getAsObject();
      if (!O) _exit(1);
      auto M = O->getString("method").value_or("").str();
      if (M == "exit") _exit(0);
      auto *Id = O->get("id");
      auto *P = O->get("params");
      if (!Id) continue;
      if (M == "attrset/evalExpr") {
        World = {};
        if (auto E = P ? P->getAsString() : std::nullopt) {
          auto W = parse(*E);
          if (W && W->getAsObject()) World = *W->getAsObject();
          else if (!W) llvm::consumeError(W.takeError());
        }
      }
      if (auto Log = World.getString("log")) {
        std::ofstream(Log->str(), std::ios::app) << M << ' ' << (P ? jg::text(*P) : "") << '\n';
      }
      auto Is = [&](const char *K) { auto X = World.getString(K); return X && *X == M; };
      if (Is("die")) _exit(3);
      if (Is("hang")) { sleep(3600); _exit(0); }
      if (Is("garbage")) { Write("Content-Length: 3\r\n\r\n{x}"); continue; }
      if (Is("bad")) { Write("Content-Length: " + std::to_string(jg::text(*Id).size() + 28) + "\r\n\r\n{\"jsonrpc\":\"2.0\",\"id\":" + jg::text(*Id) + ",\"result\":7}   "); continue; }
      if (auto D = World.getInteger("delay")) usleep(*D * 1000);
      Value Res = nullptr;
      std::string Err;
      auto Look = [&](const char *Table, std::string K) {
        auto *T = World.getObject(Table);
        auto *X = T ? T->get(K) : nullptr;
        if (!X) { Err = "attribute '" + K + "' not found"; return; }
        if (auto *XO = X->getAsObject()) if (auto E = XO->getString("!")) { Err = E->str(); return; }
        Res = *X;
      };
      if (M == "attrset/evalExpr") {
        if (auto E = World.getString("error")) Err = E->str();
      } else if (M == "attrset/attrpathInfo") Look("info", Key(P));
      else if (M == "attrset/optionInfo") Look("option", Key(P));
      else if (M == "attrset/attrpathComplete" || M == "attrset/optionComplete") {
        auto *PO = P ? P->getAsObject() : nullptr;
        std::string Pre = PO ? PO->getString("Prefix").value_or("").str() : "";
        Look(M == "attrset/optionComplete" ? "options" : "complete", PO ? Key(PO->get("Scope")) : "");
        if (auto *A = Res.getAsArray()) {
          Array R;
          bool Opt = M == "attrset/optionComplete";
          for (auto &X : *A) {
            auto Name = X.getAsString() ? X.getAsString() : X.getAsObject() ? X.getAsObject()->getString("Name") : std::nullopt;
            if (!Name || !Name->starts_with(Pre)) continue;
            R.push_back(X);
            if (R.size() >= (Opt ? 30u : 31u)) break;
          }
          Res = std::move(R);
        }
      } else Err = "unknown method";
      Object Re{{"jsonrpc", "2.0"}, {"id", *Id}};
      if (!Err.empty()) Re["error"] = Object{{"code", -32001}, {"message", Err}};
      else Re["result"] = std::move(Res);
      std::string T = jg::text(Value(std::move(Re)));
      Write("Content-Length: " + std::to_string(T.size()) + "\r\n\r\n" + T);
    }
  }
}
