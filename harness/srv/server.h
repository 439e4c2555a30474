// Drives a real nixd::Controller in this process, as an editor would: JSON-RPC
// frames in through a pipe, frames out through a stream.
#pragma once
#include "core/jsongen.h"
#include "core/pbt.h"
#include <memory>
#include <optional>

namespace srv {
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

struct Reply {
  bool Ok = false;
  Value Result = nullptr;
  int64_t Code = 0;
  std::string Msg;
};

struct Opts {
  bool Init = true;      ///< send initialize (starts the evaluation workers)
  Object Caps;           ///< client capabilities
  std::vector<std::string> Args; ///< command line
  std::string Exe;       ///< run this binary instead of a controller in this process
};

class Server {
  struct Impl;
  std::unique_ptr<Impl> I;
  void start(Opts O);
  void stop();

public:
  explicit Server(Opts O);
  ~Server();
  int send(llvm::StringRef Method, Value Params);
  Reply wait(int Id, unsigned TimeoutMs = 60000);
  /// Reply of the request if it is there.
  std::optional<Reply> poll(int Id);
  Reply call(llvm::StringRef Method, Value Params) { return wait(send(Method, std::move(Params))); }
  void notify(llvm::StringRef Method, Value Params);
  void raw(llvm::StringRef Bytes);

  void open(llvm::StringRef Uri, llvm::StringRef Text, int64_t Version = 1);
  void change(llvm::StringRef Uri, Value Changes, int64_t Version);
  void close(llvm::StringRef Uri);
  /// Waits until every notification sent so far is processed.
  void sync();
  /// Last published diagnostics (the notification's params).
  std::optional<Value> diags(llvm::StringRef Uri);
  size_t published(llvm::StringRef Uri); ///< number of publishDiagnostics of a document so far
  size_t published(); ///< number of publishDiagnostics so far
  std::vector<Value> notes(llvm::StringRef Method); ///< params of notifications
  std::vector<Value> calls(llvm::StringRef Method); ///< params of requests from the server
  void forget(); ///< drops recorded notifications and calls
  /// Answer to workspace/configuration.
  void config(Value V);
  void configAnswer(Value V); ///< the same, but the whole answer
  /// Sets the configuration and waits until it is in force.
  void configure(Value V);
  /// Ends the input and returns how the process ended (Exe only).
  int finish(unsigned TimeoutMs = 60000);
  int pid(); ///< of the process (Exe only)
  bool ended(); ///< the reader loop has returned
  bool badFrames(std::string &Why); ///< anything that is not a frame was written
  Value init(); ///< result of initialize
};

/// The world the fake evaluator answers from is the JSON text given as the
/// expression of the provider; see worker.cpp.
Server &shared(Opts (*Make)() = nullptr);

std::string uriOf(llvm::StringRef Path);
Value pos(int64_t L, int64_t C);
/// UTF-16 position of a byte offset.
Value posAt(llvm::StringRef Text, size_t Off);
size_t offAt(llvm::StringRef Text, const Value &P); ///< fails when P is not a position of Text
std::pair<size_t, size_t> rangeAt(llvm::StringRef Text, const Value &R);
Value doc(llvm::StringRef Uri);
Value at(llvm::StringRef Uri, llvm::StringRef Text, size_t Off);
/// Applies LSP text edits; fails when they are outside the text or overlap.
std::string applyEdits(llvm::StringRef Text, const Array &Edits);
/// Applies the workspace edit to the documents; other files must be in Files.
void applyWorkspaceEdit(const Value &Edit, std::map<std::string, std::string> &Files);
} // namespace srv
