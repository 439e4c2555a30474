// USES: lsp
#include "core/pbt.h"
#include "core/text.h"
#include <lspserver/DraftStore.h>
#include <lspserver/Logger.h>
#include <lspserver/SourceCode.h>
#include <thread>
using namespace pbt;
using namespace lspserver;

// The model of a document is a vector of Unicode code points; positions count
// UTF-16 units in it. Nothing here looks at UTF-8 bytes.
namespace {
using txt::U32;

Position posOf(const U32 &T, size_t I) {
  Position P{0, 0};
  for (size_t J = 0; J < I; ++J) {
    if (T[J] == '\n') { ++P.line; P.character = 0; }
    else P.character += T[J] > 0xFFFF ? 2 : 1;
  }
  return P;
}
int lines(const U32 &T) { return std::count(T.begin(), T.end(), U'\n'); }
/// Index of line L's first code point and of its end.
std::pair<size_t, size_t> lineAt(const U32 &T, int L) {
  size_t I = 0;
  for (; L; ++I)
    if (T[I] == '\n') --L;
  size_t E = I;
  while (E < T.size() && T[E] != '\n') ++E;
  return {I, E};
}
int units(const U32 &T, size_t B, size_t E) {
  int N = 0;
  for (; B < E; ++B) N += T[B] > 0xFFFF ? 2 : 1;
  return N;
}
std::string show(const Position &P) { return std::to_string(P.line) + ":" + std::to_string(P.character); }

Sub Apply("apply", 6000, 200000, [](Ctx &C) {
  Src &S = C.S;
  U32 M = txt::gen(S, 12);
  std::string T = txt::utf8(M);
  C.show("start", T);
  unsigned N = 1 + S.small(8, 75);
  for (unsigned I = 0; I < N; ++I) {
    U32 Ins = txt::gen(S, 6);
    TextDocumentContentChangeEvent Ev;
    Ev.text = txt::utf8(Ins);
    switch (S.weighted({70, 8, 22})) {
    case 0: { // a valid edit
      size_t A = S.below(M.size() + 1), B = S.below(M.size() + 1);
      if (A > B) std::swap(A, B);
      if (S.chance(20)) B = A;
      Ev.range = Range{posOf(M, A), posOf(M, B)};
      if (S.chance(50)) Ev.rangeLength = units(M, A, B);
      C.show("edit", show(Ev.range->start) + "-" + show(Ev.range->end) + " len " +
                         (Ev.rangeLength ? std::to_string(*Ev.rangeLength) : "-") + " := " + Ev.text);
      M.replace(A, B - A, Ins);
      auto Err = applyChange(T, Ev);
      if (Err) fail("rejected", "a valid edit is rejected: " + llvm::toString(std::move(Err)));
      if (M.size() > 1) C.nontrivial();
      C.label(A == B ? "insert" : Ins.empty() ? "delete" : "replace");
      break;
    }
    case 1:
      C.show("full", Ev.text);
      M = Ins;
      if (auto Err = applyChange(T, Ev)) fail("rejected", "a full replacement is rejected: " + llvm::toString(std::move(Err)));
      C.label("full");
      break;
    default: { // an edit the document does not have
      size_t A = S.below(M.size() + 1), B = S.below(M.size() + 1);
      if (A > B) std::swap(A, B);
      Position PA = posOf(M, A), PB = posOf(M, B);
      U32 Alt = M; // what clamping to the line would give
      bool CanClamp = false;
      size_t K = S.weighted({3, 3, 3, 3, 3, 2});
      if (K == 0) {
        PB.line = lines(M) + 1 + (int)S.below(3);
        PB.character = 1 + (int)S.below(3);
        C.label("bad-line");
      } else if (K == 1) {
        auto [L0, L1] = lineAt(M, PB.line);
        PB.character = units(M, L0, L1) + 1 + (int)S.below(3);
        size_t B2 = L1;
        CanClamp = true;
        Alt = M.substr(0, A) + Ins + M.substr(B2);
        C.label("beyond-line");
      } else if (K == 2) { // inside a surrogate pair
        std::vector<size_t> Big;
        for (size_t J = 0; J < M.size(); ++J) if (M[J] > 0xFFFF) Big.push_back(J);
        if (Big.empty()) continue;
        A = S.pick(Big);
        PA = posOf(M, A);
        ++PA.character;
        PB = posOf(M, M.size());
        C.label("mid-surrogate");
      } else if (K == 3) { // reversed
        if (A == B) continue;
        std::swap(PA, PB);
        C.label("reversed");
      } else if (K == 4) { // the client's text is another one
        Ev.rangeLength = units(M, A, B) + (S.chance(50) ? 1 : -1) * (1 + (int)S.below(3));
        C.label("wrong-length");
      } else {
        (S.chance(50) ? PA.line : PA.character) = -1 - (int)S.below(3);
        C.label("negative");
      }
      Ev.range = Range{PA, PB};
      std::string T2 = T;
      C.show("bad-edit", show(PA) + "-" + show(PB) + " := " + Ev.text);
      auto Err = applyChange(T2, Ev);
      if (!Err) {
        // LSP: a character beyond the line is the end of the line.
        if (CanClamp && T2 == txt::utf8(Alt)) break;
        fail("accepted", "an edit that the document does not have is accepted; now " + esc(T2));
      }
      llvm::consumeError(std::move(Err));
      C.nontrivial();
      break;
    }
    }
    check(T == txt::utf8(M), "text-differs", "the editor has " + esc(txt::utf8(M)) + ", the server " + esc(T));
  }
});

// Several servers' clients put the caret on the line after a text without a
// final newline; the server then infers the newline.
Sub Quirk("infer-newline", 600, 10000, [](Ctx &C) {
  Src &S = C.S;
  U32 M = txt::gen(S, 8);
  if (!M.empty() && M.back() == '\n') M.pop_back();
  if (!M.empty() && M.back() == '\n') throw Discard{};
  U32 Ins = txt::gen(S, 5);
  size_t A = S.below(M.size() + 1);
  TextDocumentContentChangeEvent Ev;
  Position Last{lines(M) + 1, 0};
  bool Both = S.chance(50);
  Ev.range = Range{Both ? Last : posOf(M, A), Last};
  Ev.text = txt::utf8(Ins);
  std::string T = txt::utf8(M);
  C.show("text", T);
  C.show("edit", show(Ev.range->start) + "-" + show(Ev.range->end) + " := " + Ev.text);
  C.nontrivial();
  U32 Want = Both ? M + U"\n" + Ins : M.substr(0, A) + Ins;
  auto Err = applyChange(T, Ev);
  if (Err) { llvm::consumeError(std::move(Err)); return; }
  check(T == txt::utf8(Want), "text-differs", "want " + esc(txt::utf8(Want)) + ", got " + esc(T));
});

Sub Positions("positions", 6000, 200000, [](Ctx &C) {
  Src &S = C.S;
  U32 M = txt::gen(S, 20);
  std::string T = txt::utf8(M);
  C.show("text", T);
  check((int)lspLength(T) == units(M, 0, M.size()), "length", "lspLength is " + std::to_string(lspLength(T)));
  size_t Off = 0;
  for (size_t I = 0; I <= M.size(); ++I) {
    Position P = posOf(M, I);
    Position Q = offsetToPosition(T, Off);
    check(P == Q, "offset-to-position", "byte " + std::to_string(Off) + " is at " + show(Q) + ", not " + show(P));
    for (bool Allow : {true, false}) {
      auto R = positionToOffset(T, P, Allow);
      if (!R) fail("position-to-offset", "no offset for " + show(P) + ": " + llvm::toString(R.takeError()));
      check(*R == Off, "position-to-offset", show(P) + " is byte " + std::to_string(*R) + ", not " + std::to_string(Off));
    }
    if (I < M.size() && M[I] > 0xFFFF) {
      C.nontrivial();
      Position Mid = P;
      ++Mid.character;
      auto R = positionToOffset(T, Mid, false);
      check(!R, "mid-surrogate", "a position inside a character is accepted");
      llvm::consumeError(R.takeError());
      auto R2 = positionToOffset(T, Mid, true);
      check(R2 && (*R2 == Off || *R2 == Off + 4), "mid-surrogate", "not next to the character");
    }
    if (I < M.size()) Off += txt::width(M[I]);
  }
  for (int L = 0; L <= lines(M); ++L) {
    auto [B, E] = lineAt(M, L);
    Position P{L, units(M, B, E) + 1 + (int)S.below(4)};
    auto R = positionToOffset(T, P, false);
    check(!R, "beyond-line", show(P) + " is beyond the line and accepted");
    llvm::consumeError(R.takeError());
    auto R2 = positionToOffset(T, P, true);
    size_t Want = txt::utf8(M.substr(0, E)).size();
    check(R2 && *R2 == Want, "beyond-line", show(P) + " is not clamped to the end of its line");
  }
  auto R = positionToOffset(T, Position{lines(M) + 1 + (int)S.below(3), (int)S.below(3)}, true);
  check(!R, "bad-line", "a line the text does not have is accepted");
  llvm::consumeError(R.takeError());
  if (lines(M) > 0 && M.size() > 3) C.nontrivial();
});

Sub Garbage("bytes", 4000, 100000, [](Ctx &C) {
  Src &S = C.S;
  std::string T = txt::bytes(S, 24);
  C.show("text", T);
  C.nontrivial(T.size() > 2);
  for (size_t O = 0; O <= T.size() + 2; ++O) {
    Position P = offsetToPosition(T, O);
    check(P.line >= 0 && P.character >= 0, "negative", show(P));
    check(P.line <= std::count(T.begin(), T.end(), '\n'), "line", show(P));
    check(P.character <= (int)T.size() + 1, "character", show(P)); // a cut-off character may count as two
  }
  for (int I = 0; I < 6; ++I) {
    Position P{(int)S.range(-1, 4), (int)S.range(-1, 12)};
    auto R = positionToOffset(T, P, S.chance(50));
    if (R) check(*R <= T.size(), "outside", show(P) + " is byte " + std::to_string(*R));
    else llvm::consumeError(R.takeError());
    TextDocumentContentChangeEvent Ev;
    Ev.text = txt::bytes(S, 5);
    Position Q{(int)S.range(-1, 4), (int)S.range(-1, 12)};
    Ev.range = Range{P, Q};
    std::string T2 = T;
    if (auto Err = applyChange(T2, Ev)) { llvm::consumeError(std::move(Err)); continue; }
    // The result is the old text with one span replaced.
    if (T.size() < 200) {
      bool Ok = false;
      for (const std::string &Base : {T, T + "\n"})
        for (size_t A = 0; A <= Base.size() && !Ok; ++A)
          if (T2.compare(0, A, Base, 0, A) == 0 && T2.compare(A, Ev.text.size(), Ev.text) == 0 && T2.size() >= A + Ev.text.size()) {
            size_t Rest = T2.size() - A - Ev.text.size();
            if (Rest <= Base.size() - A && T2.compare(A + Ev.text.size(), Rest, Base, Base.size() - Rest, Rest) == 0) Ok = true;
          }
      check(Ok, "not-a-replacement", esc(T) + " became " + esc(T2));
    }
    T = T2;
  }
});

struct Doc { std::string Text, Version; };
std::string next(std::string V) {
  // "" and versions without a number get a number; others count up.
  size_t I = V.size();
  while (I > 0 && isdigit((unsigned char)V[I - 1])) --I;
  if (I == V.size()) return V + "0";
  std::string D = V.substr(I);
  size_t J = D.size();
  while (J > 0 && D[J - 1] == '9') D[--J] = '0';
  if (J == 0) D = "1" + D; else ++D[J - 1];
  return V.substr(0, I) + D;
}

Sub Drafts("drafts", 2500, 60000, [](Ctx &C) {
  Src &S = C.S;
  DraftStore St;
  std::map<std::string, Doc> M;
  struct Snap { std::string File; std::shared_ptr<const std::string> P; std::string Want; };
  std::vector<Snap> Old;
  llvm::IntrusiveRefCntPtr<llvm::vfs::FileSystem> FS;
  std::map<std::string, Doc> FSWant;
  std::vector<std::string> Files{"/a", "/a/b.nix", "/b", "/c d", "/e\xc3\xa9"};
  unsigned N = 3 + S.small(25, 90);
  for (unsigned I = 0; I < N; ++I) {
    std::string F = S.pick(Files);
    switch (S.weighted({6, 2, 3, 1, 1})) {
    case 0: {
      std::string V = S.chance(40) ? "" : S.chance(80) ? DraftStore::encodeVersion((int64_t)S.pick<int64_t>({0, 1, 2, 9, 10, 99, -1, 4294967296, 9223372036854775807}))
                                         : S.pick({std::string("x"), std::string("v9"), std::string("1.99")});
      std::string T = txt::utf8(txt::gen(S, 5));
      C.show("add", F + " version '" + V + "': " + T);
      auto G = St.addDraft(F, V, T);
      auto &D = M[F];
      std::string Want = V.empty() ? next(D.Version) : V;
      D = {T, Want};
      check(G == Want, "version", F + " has version " + G + ", not " + Want);
      break;
    }
    case 1:
      C.show("remove", F);
      St.removeDraft(F);
      M.erase(F);
      break;
    case 2: {
      C.show("get", F);
      auto D = St.getDraft(F);
      check(D.has_value() == (M.count(F) != 0), "presence", F);
      if (D) { Old.push_back({F, D->Contents, M[F].Text}); C.nontrivial(); }
      break;
    }
    case 3:
      C.show("vfs", "");
      // `/a` cannot be both a file and a directory
      if (M.count("/a") && M.count("/a/b.nix")) break;
      FS = St.asVFS();
      FSWant = M;
      break;
    default: {
      auto A = St.getActiveFiles();
      std::set<std::string> X(A.begin(), A.end()), Y;
      for (auto &[K, _] : M) Y.insert(K);
      check(X == Y && A.size() == Y.size(), "active-files", "the open files differ");
    }
    }
    for (auto &F : Files) {
      auto D = St.getDraft(F);
      auto It = M.find(F);
      check(D.has_value() == (It != M.end()), "presence", F);
      if (!D) continue;
      check(*D->Contents == It->second.Text, "content", F + " has another content");
      check(D->Version == It->second.Version, "version", F + " has version " + D->Version + ", not " + It->second.Version);
    }
    for (auto &O : Old) check(*O.P == O.Want, "snapshot", "an earlier snapshot of " + O.File + " changed");
    if (FS)
      for (auto &F : Files) {
        auto B = FS->getBufferForFile(F);
        auto It = FSWant.find(F);
        check((bool)B == (It != FSWant.end()), "vfs", F);
        if (B) check((*B)->getBuffer() == It->second.Text, "vfs", F + " has another content");
      }
  }
});

Sub Versions("versions", 2000, 20000, [](Ctx &C) {
  Src &S = C.S;
  int64_t V = S.chance(50) ? (int64_t)S.below(2000) - 1000 : (int64_t)(S.below(1ull << 63) * 2 + S.below(2));
  C.show("version", std::to_string(V));
  C.nontrivial();
  auto E = DraftStore::encodeVersion(V);
  check(DraftStore::decodeVersion(E) == std::optional<int64_t>(V), "round-trip", E);
  check(DraftStore::encodeVersion(std::nullopt).empty(), "none", "no version is not empty");
  check(!DraftStore::decodeVersion(""), "none", "an empty version is one");
});

Sub Threads("threads", 60, 1500, [](Ctx &C) {
  Src &S = C.S;
  DraftStore St;
  unsigned T = 2 + S.below(4), K = 20 + S.below(60);
  C.show("threads", std::to_string(T) + " x " + std::to_string(K));
  C.nontrivial();
  std::vector<std::vector<std::string>> Got(T);
  std::vector<std::thread> Th;
  std::atomic<int> Bad{0};
  for (unsigned I = 0; I < T; ++I)
    Th.emplace_back([&, I] {
      for (unsigned J = 0; J < K; ++J) {
        Got[I].push_back(St.addDraft("/f", "", std::string(1 + J % 50, 'a' + I)));
        auto D = St.getDraft("/f");
        if (!D) { ++Bad; continue; }
        for (char X : *D->Contents)
          if (X != D->Contents->front()) ++Bad;
        St.addDraft("/g" + std::to_string(I), "", "x");
        if (J % 7 == 0) St.getActiveFiles();
        if (J % 5 == 0) St.removeDraft("/g" + std::to_string(I));
      }
    });
  for (auto &X : Th) X.join();
  std::set<std::string> All;
  for (auto &G : Got)
    for (size_t J = 0; J < G.size(); ++J) {
      check(All.insert(G[J]).second, "lost-update", "version " + G[J] + " was given twice");
      check(!J || std::stoi(G[J - 1]) < std::stoi(G[J]), "order", "versions went back");
    }
  check(Bad == 0, "torn", "a snapshot mixes two contents");
});
} // namespace
namespace pbt {
const char *Rule =
    "A case is a Unicode text (ASCII, two-, three- and four-byte characters, CRLF and LF lines) with a sequence of edits, "
    "or a history of document-store operations. Non-trivial: an edit of a text with more than one character, a rejected "
    "edit, a text with an astral character or several lines, a history that reads a document.";
}
