// USES: nixf
#include "core/nixutil.h"
#include "gen/gen.h"
#include "ref/conv.h"
#include <chrono>
using namespace pbt;

namespace {
struct Out {
  std::string Tree, Diags;
  size_t Nodes = 0, ND = 0;
  bool Clean = false;
};

// The whole front end: tree, diagnostics, variable lookup, parent map, and
// every query on every node.
Out run(const std::string &Src) {
  Out O;
  std::vector<nixf::Diagnostic> Ds;
  auto N = nixf::parse(Src, Ds);
  size_t ParseDiags = Ds.size();
  nixf::VariableLookupAnalysis V(Ds);
  nixf::ParentMapAnalysis PM;
  if (N) {
    V.runOnAST(*N);
    PM.runOnAST(*N);
    nu::walk(N.get(), [&](const nixf::Node *X, const nixf::Node *) {
      ++O.Nodes;
      (void)X->name(X->kind());
      (void)X->src(Src);
      (void)N->descend(X->positionRange());
      PM.query(*X);
      if (PM.query(*X)) {
        PM.upExpr(*X);
        PM.upTo(*X, nixf::Node::NK_ExprAttrs);
        PM.isRoot(*X);
      }
      V.toDef(*X);
      V.env(X);
      if (X->kind() == nixf::Node::NK_ExprVar) {
        auto R = V.query(static_cast<const nixf::ExprVar &>(*X));
        V.getWithScopes(static_cast<const nixf::ExprVar &>(*X));
        O.Diags += std::to_string((int)R.Kind);
      }
    });
    // offsets make both runs comparable
    std::string T;
    nu::walk(N.get(), [&](const nixf::Node *X, const nixf::Node *) {
      T += std::string(nixf::Node::name(X->kind())) + "@" + std::to_string(X->lCur().offset()) + "-" + std::to_string(X->rCur().offset()) + " ";
    });
    O.Tree = T;
  }
  O.ND = Ds.size();
  O.Clean = ParseDiags == 0;
  for (auto &D : Ds) O.Diags += nu::diagStr(D) + "\n";
  return O;
}

void total(Ctx &C, const std::string &Src) {
  C.show("text", Src);
  auto A = run(Src);
  // On a copy at another address: same result.
  std::string Copy;
  Copy.reserve(Src.size() + 7);
  Copy = Src;
  auto B = run(Copy);
  check(A.Tree == B.Tree, "tree-differs", "analysing the same text twice gives two trees:\n  " + A.Tree + "\n  " + B.Tree);
  check(A.Diags == B.Diags, "diagnostics-differ", "analysing the same text twice gives different results:\n" + A.Diags + "\n---\n" + B.Diags);
  C.label(A.Clean ? "no syntax diagnostics" : "syntax diagnostics");
  C.nontrivial(A.Nodes >= 3 && !A.Clean);
}

Sub Any("any-text", 30000, 1200000, [](Ctx &C) {
  std::string K;
  auto T = gen::anyText(C.S, &K);
  C.label(K);
  total(C, T);
}, 60);
Sub Bytes("bytes", 25000, 1200000, [](Ctx &C) {
  total(C, C.S.chance(50) ? gen::byteSoup(C.S, 40) : gen::tokenSoup(C.S, 24));
}, 60);
Sub Prefix("truncated-programs", 15000, 600000, [](Ctx &C) {
  gen::Opts O;
  O.Budget = 4 + C.S.below(30);
  O.Loose = C.S.chance(40);
  O.Unicode = C.S.chance(40);
  auto T = gen::program(C.S, O);
  if (!T.empty()) {
    size_t B = C.S.chance(30) ? C.S.below(T.size()) : 0;
    T = T.substr(B, C.S.below(T.size() - B + 1));
  }
  total(C, T);
}, 60);
Sub Deep("nesting", 600, 6000, [](Ctx &C) {
  unsigned N = 1 + C.S.below(C.S.chance(30) ? 400 : 60);
  total(C, gen::deep(C.S, N));
}, 60);

// Work stays near linear: a text of n repeated pieces must not take wildly
// longer per piece when n grows.
Sub Growth("growth", 60, 400, [](Ctx &C) {
  std::string Piece;
  switch (C.S.below(8)) {
  case 0: Piece = gen::tokenSoup(C.S, 4); break;
  case 1: Piece = "a = 1; "; break;
  case 2: Piece = "inherit (x) y; "; break;
  case 3: Piece = "\"${"; break;
  case 4: Piece = "x: "; break;
  case 5: Piece = "/* a */ "; break;
  case 6: Piece = "${"; break;
  default: Piece = gen::byteSoup(C.S, 5);
  }
  std::string Head = C.S.pick({"", "{ ", "let ", "[ ", "rec { "}), Tail = C.S.pick({"", " }", " in 1", " ]"});
  C.show("piece", Piece);
  C.show("head", Head);
  C.show("tail", Tail);
  auto Time = [&](unsigned N) {
    std::string T = Head;
    for (unsigned I = 0; I < N; ++I) T += Piece;
    T += Tail;
    auto B = std::chrono::steady_clock::now();
    std::vector<nixf::Diagnostic> Ds;
    auto R = nixf::parse(T, Ds);
    if (R) {
      nixf::VariableLookupAnalysis V(Ds);
      V.runOnAST(*R);
    }
    return std::chrono::duration<double>(std::chrono::steady_clock::now() - B).count();
  };
  double S = Time(100), L = Time(300);
  C.note("seconds", std::to_string(S) + " " + std::to_string(L));
  // Three times the text. Quadratic would be 9 times. The bound only catches
  // exponential or stuck behaviour: 300 pieces never take longer than 20 s.
  check(L < 20, "slow", "300 pieces take " + std::to_string(L) + " s, 100 pieces " + std::to_string(S) + " s");
  C.nontrivial();
}, 100);
} // namespace
namespace pbt {
const char *Rule = "Texts: grammar derivations, damaged and truncated programs, token and byte soups, deep nesting, repetition; every analysis and every node query runs "
  "twice under ASan/UBSan with assertions on. Non-trivial: distinct texts that give at least 3 nodes and at least one syntax diagnostic (error recovery ran).";
}
