// USES: nixf
#include "core/pbt.h"
#include "gen/gen.h"
#include "nixf/Basic/Diagnostic.h"
#include "nixf/Parse/Parser.h"
#include "ref/conv.h"
using namespace pbt;

namespace {
bool isError(const nixf::Diagnostic &D) {
  auto S = nixf::Diagnostic::severity(D.kind());
  return S == nixf::Diagnostic::DS_Error || S == nixf::Diagnostic::DS_Fatal;
}
// errors that are about names, not about the grammar
bool semantic(const nixf::Diagnostic &D) {
  using K = nixf::Diagnostic;
  switch (D.kind()) {
  case K::DK_DuplicatedAttrName: case K::DK_DynamicInherit: case K::DK_DuplicatedFormal: case K::DK_DuplicatedFormalToArg: case K::DK_LetDynamic:
    return true;
  default: return false;
  }
}

void structure(Ctx &C, const std::string &Src) {
  C.show("text", Src);
  auto R = ref::parse(Src);
  if (!R.ok()) {
    C.label("rejected by the grammar: " + R.Err.Class);
    throw Discard{};
  }
  auto Out = ref::outside(R.Root, Src);
  if (!Out.empty()) {
    C.label("outside: " + Out);
    throw Discard{};
  }
  std::vector<nixf::Diagnostic> Ds;
  auto N = nixf::parse(Src, Ds);
  for (auto &D : Ds)
    if (isError(D) && !semantic(D))
      fail("valid-rejected", "a valid Nix expression gets the error '" + D.format() + "' (" + D.sname() + ") at " +
           std::to_string(D.range().lCur().offset()) + "\n  reference tree " + ref::sexpr(R.Root));
  check(N != nullptr, "no-tree", "a valid Nix expression has no tree");
  auto Got = ref::fromNixf(N.get(), Src);
  ref::canon(R.Root);
  auto D = ref::diff(R.Root, Got, false);
  if (!D.empty()) fail("structure", D);
  unsigned Nodes = 0, Ops = 0;
  ref::walk(R.Root, [&](const ref::P &X) { ++Nodes; if (X->K == ref::Bin || X->K == ref::Un || X->K == ref::HasAttr) ++Ops; C.label(ref::kindName(X->K)); });
  C.nontrivial(Nodes >= 5);
}

Sub Programs("programs", 30000, 900000, [](Ctx &C) {
  gen::Opts O;
  O.Budget = 4 + C.S.below(50);
  O.Loose = C.S.chance(30);
  O.Unicode = C.S.chance(30);
  O.Cr = C.S.chance(20);
  structure(C, gen::program(C.S, O));
});

// Long operator chains: every pair of operators side by side.
Sub Chains("operators", 30000, 900000, [](Ctx &C) {
  static const std::vector<std::string> Ops = {"+", "-", "*", "/", "++", "//", "==", "!=", "<", "<=", ">", ">=", "&&", "||", "->"};
  std::string T;
  unsigned N = 2 + C.S.below(6);
  for (unsigned I = 0; I < N; ++I) {
    if (I) T += " " + C.S.pick(Ops) + " ";
    for (unsigned K = C.S.small(2, 25); K; --K) T += C.S.pick({"! ", "- "});
    switch (C.S.below(6)) {
    case 0: T += "f x"; break;
    case 1: T += "a.b"; break;
    case 2: T += "a ? b"; break;
    default: T += C.S.pick(std::vector<std::string>{"a", "b", "c", "d"});
    }
  }
  structure(C, T);
});
} // namespace
namespace pbt {
const char *Rule = "Random derivations of the Nix grammar (all expression kinds, random trivia, adjacent tokens) and random operator chains; kept when an "
  "independent reference parser accepts the text. Non-trivial: distinct texts whose tree has at least 5 nodes.";
}
