// Coverage-guided fuzzing of the whole front end (C01). Oracle: no crash, hang,
// sanitizer report or failed assertion; every node inside its parent; every
// diagnostic inside the text; the same text analysed twice gives the same result.
#include "nixf/Basic/Diagnostic.h"
#include "nixf/Basic/Nodes/Basic.h"
#include "nixf/Basic/Nodes/Lambda.h"
#include "nixf/Basic/Nodes/Simple.h"
#include "nixf/Parse/Parser.h"
#include "nixf/Sema/ParentMap.h"
#include "nixf/Sema/VariableLookup.h"
#include <cstdio>
#include <cstdlib>
#include <string>
using namespace nixf;
namespace {
[[noreturn]] void die(const char *M) {
  fprintf(stderr, "ORACLE: %s\n", M);
  abort();
}
struct R { std::string T; };
void walk(const Node &N, const std::string &Src, std::string &Out, VariableLookupAnalysis &V, ParentMapAnalysis &PM) {
  size_t B = N.lCur().offset(), E = N.rCur().offset();
  if (B > E || E > Src.size()) die("node outside the text");
  Out += std::to_string((int)N.kind()) + ":" + std::to_string(B) + "-" + std::to_string(E) + ";";
  (void)N.src(Src);
  V.toDef(N);
  V.env(&N);
  PM.query(N);
  if (N.kind() == Node::NK_ExprVar) {
    auto Q = V.query(static_cast<const ExprVar &>(N));
    Out += std::to_string((int)Q.Kind);
    V.getWithScopes(static_cast<const ExprVar &>(N));
  }
  for (const Node *Ch : N.children())
    if (Ch) {
      if (Ch->kind() != Node::NK_Misc && (Ch->lCur().offset() < B || Ch->rCur().offset() > E)) die("child outside its parent");
      walk(*Ch, Src, Out, V, PM);
    }
}
std::string run(const std::string &Src) {
  std::vector<Diagnostic> Ds;
  auto N = parse(Src, Ds);
  VariableLookupAnalysis V(Ds);
  ParentMapAnalysis PM;
  std::string Out;
  if (N) {
    V.runOnAST(*N);
    PM.runOnAST(*N);
    walk(*N, Src, Out, V, PM);
  }
  for (auto &D : Ds) {
    Out += std::to_string((int)D.kind()) + "@" + std::to_string(D.range().lCur().offset()) + "-" + std::to_string(D.range().rCur().offset());
    if (D.range().rCur().offset() > Src.size()) die("diagnostic outside the text");
    (void)D.format();
    for (auto &F : D.fixes())
      for (auto &E : F.edits())
        if (E.oldRange().rCur().offset() > Src.size() || E.oldRange().lCur().offset() > E.oldRange().rCur().offset()) die("edit outside the text");
    for (auto &No : D.notes()) (void)No.format();
  }
  return Out;
}
} // namespace
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *D, size_t N) {
  std::string Src(reinterpret_cast<const char *>(D), N);
  // nesting deeper than any real program exhausts the stack of a sanitized build
  size_t Open = 0;
  for (char C : Src) Open += C == '(' || C == '[' || C == '{' || C == '!' || C == '-' || C == '$';
  if (Open > 300) return 0;
  std::string A = run(Src), B = run(std::string(Src));
  if (A != B) die("analysing the same text twice differs");
  return 0;
}
