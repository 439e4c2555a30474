// Random JSON values and texts, and a JSON-RPC frame reader of our own.
#pragma once
#include "core/pbt.h"
#include "core/text.h"
#include <llvm/Support/JSON.h>

namespace jg {
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;
inline std::string str(pbt::Src &S, unsigned Max = 8) { return txt::utf8(txt::gen(S, Max)); }
inline Value gen(pbt::Src &S, int Depth = 3) {
  switch (S.weighted({3, 3, 2, 2, Depth ? 3u : 0u, Depth ? 3u : 0u, 1})) {
  case 0: return (int64_t)S.below(1000);
  case 1: return str(S);
  case 2: return nullptr;
  case 3: return S.chance(50);
  case 4: {
    Array A;
    for (unsigned N = S.small(4); N; --N) A.push_back(gen(S, Depth - 1));
    return A;
  }
  case 5: {
    Object O;
    for (unsigned N = S.small(4); N; --N) O[str(S, 5)] = gen(S, Depth - 1);
    return O;
  }
  default: return S.pick<int64_t>({-1, 2147483647, -2147483648ll, 4294967296ll, 9007199254740993ll, INT64_MIN, INT64_MAX});
  }
}
inline std::string text(const Value &V) {
  std::string O;
  llvm::raw_string_ostream(O) << V;
  return O;
}
/// One of the many texts of the value: blanks anywhere, \u escapes.
inline void spellStr(pbt::Src &S, llvm::StringRef T, std::string &O) {
  O += '"';
  for (size_t I = 0; I < T.size();) {
    unsigned char C = T[I];
    size_t N = C < 0x80 ? 1 : C < 0xE0 ? 2 : C < 0xF0 ? 3 : 4;
    char32_t V = N == 1 ? C : C & (0x7F >> N);
    for (size_t J = 1; J < N; ++J) V = V << 6 | (T[I + J] & 63);
    char B[16];
    if (C < 0x20 || C == '"' || C == '\\' || C == 0x7F || (V < 0x20000 && S.chance(10))) { // LLVM's parser mangles pairs beyond plane 1
      if (V > 0xFFFF) snprintf(B, sizeof B, "\\u%04x\\u%04X", 0xD800 + ((unsigned)(V - 0x10000) >> 10), 0xDC00 + ((unsigned)(V - 0x10000) & 1023));
      else snprintf(B, sizeof B, "\\u%04x", (unsigned)V);
      O += B;
    } else O += T.substr(I, N).str();
    I += N;
  }
  O += '"';
}
inline void spell(pbt::Src &S, const Value &V, std::string &O, const char *Blank) {
  auto W = [&] {
    for (unsigned N = *Blank ? S.small(2, 15) : 0; N; --N) O += Blank[S.below(strlen(Blank))];
  };
  W();
  if (auto *A = V.getAsArray()) {
    O += '[';
    W();
    for (size_t I = 0; I < A->size(); ++I) { if (I) O += ','; spell(S, (*A)[I], O, Blank); }
    O += ']';
  } else if (auto *B = V.getAsObject()) {
    O += '{';
    W();
    bool First = true;
    for (auto &[K, X] : *B) {
      if (!First) O += ',';
      First = false;
      W();
      spellStr(S, K, O);
      W();
      O += ':';
      spell(S, X, O, Blank);
    }
    O += '}';
  } else if (auto T = V.getAsString()) spellStr(S, *T, O);
  else O += text(V);
  W();
}
inline std::string spell(pbt::Src &S, const Value &V, const char *Blank = " \t\r\n") {
  std::string O;
  spell(S, V, O, Blank);
  return O;
}

/// Reads strict frames; throws pbt::Fail when the stream is not a sequence of
/// `Content-Length: N\r\n\r\n` and N bytes of JSON.
inline std::vector<Value> frames(llvm::StringRef T) {
  std::vector<Value> R;
  while (!T.empty()) {
    if (!T.consume_front("Content-Length: ")) pbt::fail("frame", "no header at " + pbt::esc(T.take_front(60).str()));
    unsigned long long N;
    if (T.consumeInteger(10, N)) pbt::fail("frame", "no length");
    if (!T.consume_front("\r\n\r\n")) pbt::fail("frame", "header not ended by an empty line");
    if (N > T.size()) pbt::fail("frame", "the message is shorter than its length");
    if (!txt::validUtf8(T.take_front(N))) pbt::fail("utf8", "the message is not UTF-8");
    auto V = llvm::json::parse(T.take_front(N));
    if (!V) pbt::fail("frame-json", llvm::toString(V.takeError()) + ": " + pbt::esc(T.take_front(N).str()));
    R.push_back(std::move(*V));
    T = T.drop_front(N);
  }
  return R;
}
} // namespace jg
