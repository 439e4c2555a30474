// USES: nixf
#include "core/nixutil.h"
#include "gen/gen.h"
#include "ref/conv.h"
using namespace pbt;

namespace {
struct Lines {
  std::vector<size_t> Start{0};
  explicit Lines(const std::string &S) {
    for (size_t I = 0; I < S.size(); ++I)
      if (S[I] == '\n') Start.push_back(I + 1);
  }
  std::pair<size_t, size_t> at(size_t Off) const {
    size_t L = std::upper_bound(Start.begin(), Start.end(), Off) - Start.begin() - 1;
    return {L, Off - Start[L]};
  }
};

std::string nm(const nixf::Node *N) { return std::string(nixf::Node::name(N->kind())) + "@" + nu::rangeStr(N->range()); }

void cursor(const Lines &L, const std::string &Src, nixf::LexerCursor C, const nixf::Node *N) {
  check(C.offset() <= Src.size(), "outside", nm(N) + " reaches outside the text");
  auto [Ln, Col] = L.at(C.offset());
  if ((size_t)C.line() != Ln || (size_t)C.column() != Col)
    fail("line-column", nm(N) + ": offset " + std::to_string(C.offset()) + " is at line " + std::to_string(Ln) + " column " + std::to_string(Col) +
         ", the node says " + std::to_string(C.line()) + ":" + std::to_string(C.column()));
}

void tree(const std::string &Src, const nixf::Node *Root, bool Valid, Ctx &C) {
  Lines L(Src);
  nixf::ParentMapAnalysis PM;
  PM.runOnAST(*Root);
  std::vector<std::pair<const nixf::Node *, const nixf::Node *>> All;
  nu::walk(Root, [&](const nixf::Node *N, const nixf::Node *Up) { All.push_back({N, Up}); });
  std::map<const nixf::Node *, std::set<const nixf::Node *>> Parents;
  for (auto [N, Up] : All) Parents[N].insert(Up);
  for (auto [N, Up] : All) {
    if (Parents[N].size() > 1 && *Parents[N].begin() == nullptr) fail("cycle", nm(N));
    cursor(L, Src, N->lCur(), N);
    cursor(L, Src, N->rCur(), N);
    size_t B = N->lCur().offset(), E = N->rCur().offset();
    check(B <= E, "inverted", nm(N) + " ends before it begins");
    check(N->src(Src) == std::string_view(Src).substr(B, E - B), "src", nm(N) + ": src() is not the text of the range");
    // The keyword of a let doubles as the `rec` of the set of its bindings.
    bool LetKw = Up && Up->kind() == nixf::Node::NK_ExprAttrs && N->kind() == nixf::Node::NK_Misc && N->src(Src) == "let";
    if (Up && !LetKw) check(B >= Up->lCur().offset() && E <= Up->rCur().offset(), "not-nested", nm(N) + " is not inside its parent " + nm(Up));
    // The parent map is the tree's own edges. A node may be listed by two
    // parents only if it is shared.
    auto *Q = PM.query(*N);
    check(Up ? Parents[N].count(Q) > 0 : Q == Root, "parent", "the parent of " + nm(N) + " should be " + nm(Up ? Up : Root) + ", is " + (Q ? nm(Q) : "missing"));
    check(PM.isRoot(*N) == !Up, "is-root", nm(N) + ": isRoot");
    // The attribute set of a legacy let starts at its `let` by design.
    if (Valid && N->kind() != nixf::Node::NK_ExprLegacyLet) {
      // siblings do not overlap
      const nixf::Node *Prev = nullptr;
      std::vector<const nixf::Node *> Ch;
      for (auto *X : N->children())
        if (X) Ch.push_back(X);
      std::stable_sort(Ch.begin(), Ch.end(), [](auto *A, auto *B) { return A->lCur().offset() < B->lCur().offset(); });
      for (auto *X : Ch) {
        if (Prev) check(Prev->rCur().offset() <= X->lCur().offset(), "overlap", nm(Prev) + " overlaps its sibling " + nm(X));
        Prev = X;
      }
    }
  }
  // Climbing finds the nearest enclosing node.
  std::map<const nixf::Node *, const nixf::Node *> Par;
  for (auto [N, Up] : All) Par[N] = Up ? PM.query(*N) : nullptr;
  for (unsigned K = 0; K < 6 && !All.empty(); ++K) {
    auto *N = All[C.S.below(All.size())].first;
    auto *X = N;
    while (X && !nixf::Expr::isExpr(X->kind())) X = Par[X];
    check(PM.upExpr(*N) == X, "up-expr", "the nearest expression around " + nm(N) + " is not " + (PM.upExpr(*N) ? nm(PM.upExpr(*N)) : "none"));
    auto Kind = All[C.S.below(All.size())].first->kind();
    X = N;
    while (X && X->kind() != Kind) X = Par[X];
    check(PM.upTo(*N, Kind) == X, "up-to", "the nearest " + std::string(nixf::Node::name(Kind)) + " around " + nm(N) + " is wrong");
    if (!Valid) continue;
    // The smallest node that has a range.
    size_t B = N->lCur().offset(), E = N->rCur().offset();
    if (B == E) continue;
    if (C.S.chance(50)) {
      B += C.S.below(E - B);
      E = B + 1 + C.S.below(E - B);
    }
    auto [L1, C1] = L.at(B);
    auto [L2, C2] = L.at(E);
    auto *D = Root->descend({{(int64_t)L1, (int64_t)C1}, {(int64_t)L2, (int64_t)C2}});
    size_t Best = SIZE_MAX;
    for (auto [Y, _] : All)
      if (Y->lCur().offset() <= B && Y->rCur().offset() >= E) Best = std::min(Best, Y->rCur().offset() - Y->lCur().offset());
    if (Best == SIZE_MAX) continue;
    check(D != nullptr, "descend", "no node for " + std::to_string(B) + "-" + std::to_string(E));
    check(D->lCur().offset() <= B && D->rCur().offset() >= E && D->rCur().offset() - D->lCur().offset() == Best, "descend",
          "the smallest node with " + std::to_string(B) + "-" + std::to_string(E) + " has " + std::to_string(Best) + " bytes, got " + nm(D));
  }
  C.nontrivial(All.size() >= 8 && L.Start.size() > 1);
}

Sub Valid("valid-programs", 20000, 600000, [](Ctx &C) {
  gen::Opts O;
  O.Budget = 4 + C.S.below(40);
  O.Loose = C.S.chance(40);
  O.Unicode = C.S.chance(40);
  O.Cr = C.S.chance(25);
  auto Src = gen::program(C.S, O);
  C.show("text", Src);
  auto R = ref::parse(Src);
  if (!R.ok() || !ref::outside(R.Root, Src).empty()) throw Discard{};
  std::vector<nixf::Diagnostic> Ds;
  auto N = nixf::parse(Src, Ds);
  check(N != nullptr, "no-tree", "no tree");
  ref::canon(R.Root);
  auto D = ref::diff(R.Root, ref::fromNixf(N.get(), Src), true);
  if (!D.empty()) fail("reference-range", D);
  tree(Src, N.get(), true, C);
});

Sub Any("any-text", 30000, 900000, [](Ctx &C) {
  auto Src = gen::anyText(C.S);
  C.show("text", Src);
  std::vector<nixf::Diagnostic> Ds;
  auto N = nixf::parse(Src, Ds);
  if (!N) throw Discard{};
  tree(Src, N.get(), false, C);
});
} // namespace
namespace pbt {
const char *Rule = "Random programs (ranges compared with an independent parser; nesting, disjointness, parent map and smallest-node queries compared with brute force) and "
  "random broken texts (bounds, nesting, line/column, parent map). Non-trivial: distinct multi-line texts with at least 8 nodes.";
}
