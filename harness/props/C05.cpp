// USES: nixf
#include "core/nixutil.h"
#include "gen/gen.h"
#include "ref/conv.h"
using namespace pbt;

namespace {
void reported(Ctx &C, const std::string &Src) {
  C.show("text", Src);
  // libnixf's own tests pin vertical tab and form feed as blanks.
  if (Src.find_first_of(std::string("\0\v\f", 3)) != std::string::npos) throw Discard{};
  auto R = ref::parse(Src);
  if (R.ok()) {
    C.label("valid");
    throw Discard{};
  }
  C.label("rejected: " + R.Err.Class);
  if (R.Err.Class == "or-identifier" || R.Err.Class == "too-deep") throw Discard{};
  try {
    // A text of blanks and comments is not a program yet.
    if (ref::lex(Src).size() <= 1) throw Discard{};
  } catch (const ref::SyntaxError &) {
  }
  std::vector<nixf::Diagnostic> Ds;
  auto N = nixf::parse(Src, Ds);
  bool Any = false;
  for (auto &D : Ds) Any |= nu::isError(D);
  C.nontrivial(R.Err.Off > 0);
  if (Any) return;
  auto Tree = ref::fromNixf(N.get(), Src);
  bool NoPath = false, Zeros = false;
  ref::walk(Tree, [&](const ref::P &X) {
    // Documented extension: [0-9]+\\.[0-9]* is a float.
    if (X->K == ref::Float && Src[X->B] == '0' && !(X->B + 2 < Src.size() && Src[X->B + 1] == '.' && isdigit((unsigned char)Src[X->B + 2]))) Zeros = true;
  });
  if (Zeros) {
    C.label("float extension");
    throw Discard{};
  }
  ref::walk(Tree, [&](const ref::P &X) { NoPath |= X->K == ref::HasAttr && X->Ch[1]->S == "<missing>"; });
  if (NoPath) return C.known("hasattr-without-path", "accepted", "`a ?` without an attribute path gets no error");
  fail("accepted", "Nix rejects this text (" + R.Err.Msg + " at " + std::to_string(R.Err.Off) + "), no error is reported\n  tree " +
       ref::sexpr(ref::fromNixf(N.get(), Src)));
}

Sub Damaged("damaged-programs", 60000, 1800000, [](Ctx &C) {
  gen::Opts O;
  O.Budget = 3 + C.S.below(30);
  O.Loose = C.S.chance(30);
  O.Plain = C.S.chance(60);
  reported(C, gen::damaged(C.S, O));
});
Sub Soup("token-soup", 60000, 1800000, [](Ctx &C) { reported(C, gen::tokenSoup(C.S, 12)); });
Sub Bytes("byte-soup", 40000, 1200000, [](Ctx &C) { reported(C, gen::byteSoup(C.S, 20)); });
Sub Trunc("truncated", 20000, 600000, [](Ctx &C) {
  gen::Opts O;
  O.Budget = 3 + C.S.below(20);
  auto T = gen::program(C.S, O);
  reported(C, T.substr(0, C.S.below(T.size() + 1)));
});
} // namespace
namespace pbt {
const char *Rule = "Damaged and truncated programs, token and byte soups that an independent strict parser of the Nix grammar rejects. Non-trivial: distinct texts "
  "whose first error is not at the very beginning.";
}
