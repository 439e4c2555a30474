// USES: nixf
#include "core/nixutil.h"
#include "gen/gen.h"
#include "ref/conv.h"
#include "ref/core.h"
#include "ref/scope.h"
using namespace pbt;

namespace {
std::vector<nixf::Diagnostic> diagnose(const std::string &Src, bool Vla = true) {
  std::vector<nixf::Diagnostic> Ds;
  auto N = nixf::parse(Src, Ds);
  if (N && Vla) {
    nixf::VariableLookupAnalysis A(Ds);
    A.runOnAST(*N);
  }
  return Ds;
}

void wellFormed(const std::string &Src, const std::vector<nixf::Diagnostic> &Ds) {
  auto In = [&](nixf::LexerCursorRange R, const char *Key, const std::string &What) {
    check(R.lCur().offset() <= R.rCur().offset() && R.rCur().offset() <= Src.size(), Key, What + " is not inside the text");
    for (auto C : {R.lCur(), R.rCur()}) {
      size_t Ln = std::count(Src.begin(), Src.begin() + C.offset(), '\n');
      size_t Nl = C.offset() ? Src.rfind('\n', C.offset() - 1) : std::string::npos;
      size_t Col = Nl == std::string::npos ? C.offset() : C.offset() - Nl - 1;
      check((size_t)C.line() == Ln && (size_t)C.column() == Col, "line-column", What + ": line and column do not belong to the offset");
    }
  };
  std::set<std::string> Seen;
  for (auto &D : Ds) {
    auto S = nu::diagStr(D);
    In(D.range(), "range", S);
    auto Text = D.format();
    std::string Msg = D.message();
    size_t Holes = 0;
    for (size_t P = 0; (P = Msg.find("{}", P)) != std::string::npos; P += 2) ++Holes;
    check(Holes == D.args().size(), "arguments", S + ": the message has " + std::to_string(Holes) + " placeholders and " + std::to_string(D.args().size()) + " values");
    check(!Text.empty(), "message", S);
    // Several tokens can be missing at one place.
    if (D.kind() != nixf::Diagnostic::DK_Expected) check(Seen.insert(S).second, "reported-twice", S);
    for (auto &N : D.notes()) In(N.range(), "note-range", S);
    for (auto &F : D.fixes()) {
      check(!F.edits().empty(), "empty-fix", S);
      for (auto &E : F.edits()) In(E.oldRange(), "edit-range", S);
      std::vector<std::pair<size_t, size_t>> Rs;
      for (auto &E : F.edits()) Rs.push_back({E.oldRange().lCur().offset(), E.oldRange().rCur().offset()});
      std::sort(Rs.begin(), Rs.end());
      for (size_t I = 1; I < Rs.size(); ++I) check(Rs[I - 1].second <= Rs[I].first, "edits-overlap", S);
    }
  }
}

Sub Any("well-formed", 40000, 900000, [](Ctx &C) {
  std::string Kind;
  auto Src = gen::anyText(C.S, &Kind);
  C.show("text", Src);
  auto Ds = diagnose(Src);
  wellFormed(Src, Ds);
  for (auto &D : Ds) C.label(D.sname());
  C.nontrivial(Ds.size() >= 2);
});

/// Edits offered for warnings keep the meaning.
void preserve(Ctx &C, const std::string &Src) {
  C.show("text", Src);
  auto R = ref::parse(Src);
  if (!R.ok() || !ref::outside(R.Root, Src).empty()) throw Discard{};
  auto Sc = ref::resolve(R.Root, Src);
  if (Sc.anyError()) throw Discard{};
  ref::canon(R.Root);
  auto Before = ref::core(R.Root);
  if (!Before) throw Discard{};
  auto Ds = diagnose(Src);
  wellFormed(Src, Ds);
  C.note("meaning", *Before);
  for (auto &D : Ds) {
    bool Needs = D.kind() == nixf::Diagnostic::DK_PrimOpNeedsPrefix;
    if (nu::isError(D) && !Needs) continue;
    for (auto &F : D.fixes()) {
      auto New = nu::applyFix(Src, F);
      auto R2 = ref::parse(New);
      auto S = nu::diagStr(D) + "\n  gives " + New;
      C.note("edited", S);
      if (!R2.ok()) fail("fix-breaks-syntax", S + "\n  which is not an expression: " + R2.Err.Msg);
      C.label(D.sname());
      if (Needs) {
        unsigned Had = 0, Has = 0;
        for (auto &X : Ds) Had += X.kind() == D.kind();
        for (auto &X : diagnose(New)) Has += X.kind() == D.kind();
        check(Has + 1 == Had, "fix-does-not-help", S);
        C.nontrivial();
        continue;
      }
      ref::canon(R2.Root);
      auto After = ref::core(R2.Root);
      if (!After) throw Discard{};
      if (*Before != *After) fail("fix-changes-meaning", S + "\n  before " + *Before + "\n  after  " + *After);
      unsigned Errs = 0, Errs2 = 0, Had = 0, Has = 0;
      for (auto &X : Ds) Errs += nu::isError(X), Had += X.kind() == D.kind();
      for (auto &X : diagnose(New)) Errs2 += nu::isError(X) && X.kind() != nixf::Diagnostic::DK_PrimOpUnknown, Has += X.kind() == D.kind();
      // A removed `with` or binding may take errors with it.
      if (ref::outside(R2.Root, New).empty()) check(Errs2 <= Errs, "fix-adds-errors", S);
      C.nontrivial();
    }
  }
}
Sub Warn("fixes-keep-meaning", 40000, 900000, [](Ctx &C) {
  gen::Opts O;
  O.Scoped = true;
  O.Budget = 2 + C.S.below(24);
  O.Loose = C.S.chance(40);
  O.Shadow = C.S.chance(30);
  O.UndefPct = C.S.chance(30) ? 10 : 0;
  if (C.S.chance(40)) O.BuiltinPct = 20;
  if (C.S.chance(50)) O.Paths = false;
  preserve(C, gen::program(C.S, O));
});

std::string glue(Src &S, unsigned D) {
  // Small expressions without blanks: token boundaries matter.
  auto E = [&] { return glue(S, D + 1); };
  if (D > 3) return S.pick({"a", "b", "1", "2.5", "\"s\"", "./p", "{}", "[]", "x:x", "http://e.x/y", "<n>", "-1", ".5", "/r", "''i''", "or", "~/h"});
  switch (S.below(13)) {
  case 0: return S.pick({"a", "b", "1", "2.5", "\"s\"", "./p", "{}", "[]", "http://e.x/y", "builtins.map", "builtins.true", "map"});
  case 1: case 2: case 3: return "(" + E() + ")";
  case 4: return E() + S.pick({"", " "}) + "(" + E() + ")";
  case 5: return "(" + E() + ")" + S.pick({"", " "}) + E();
  case 6: return "[" + E() + S.pick({"", " "}) + "(" + E() + ")" + S.pick({"", " "}) + E() + "]";
  case 7: return "(" + E() + ")" + S.pick({"+", "-", "/", "*", "//", "++", "?", "->", "<", "==", ".", " .", ". "}) + S.pick({"a", "(a)", "b.c", "(1)"});
  case 8: return S.pick({"if(", "assert(", "with("}) + E() + S.pick({")then ", ");", ");"}) + E() + (S.chance(40) ? " else(" + E() + ")" : "");
  case 9: return "let a=" + E() + ";b=(" + E() + ");in(" + E() + ")";
  case 10: return "{a=(" + E() + ");inherit(" + E() + ")c;}";
  case 11: return S.pick({"x:", "{a}:", "a@{b}:", "!", "-"}) + ("(" + E() + ")");
  default: return "\"${(" + E() + ")}\"";
  }
}
Sub Glue("fixes-without-blanks", 30000, 600000, [](Ctx &C) { preserve(C, glue(C.S, 0)); });
/// A program with one token missing or one in excess: an edit offered for the
/// only syntax error repairs the text.
Sub OneFault("fixes-help", 30000, 600000, [](Ctx &C) {
  gen::Opts O;
  O.Budget = 2 + C.S.below(20);
  O.Plain = true;
  gen::G G(C.S, O);
  G.expr();
  auto &T = G.T;
  if (T.size() < 2) throw Discard{};
  auto Base = G.render();
  {
    auto R = ref::parse(Base);
    if (!R.ok() || !ref::outside(R.Root, Base).empty()) throw Discard{};
    for (auto &D : diagnose(Base, false)) if (nu::isError(D)) throw Discard{};
  }
  size_t I = C.S.below(T.size());
  bool Del = C.S.chance(70);
  std::string Tok;
  if (Del) {
    Tok = T[I].S;
    T.erase(T.begin() + I);
  } else {
    Tok = C.S.pick({";", ")", "}", "]", ",", ".", "@", "=", "then", "in", "or"});
    T.insert(T.begin() + I, {Tok, false});
  }
  auto Src = G.render();
  C.show("text", Src);
  C.show("fault", (Del ? "without " : "with extra ") + Tok);
  auto Ds = diagnose(Src, false);
  unsigned Errs = 0;
  const nixf::Diagnostic *The = nullptr;
  for (auto &D : Ds)
    if (nu::isError(D)) ++Errs, The = &D;
  if (Errs != 1) throw Discard{};
  for (auto &F : The->fixes()) {
    auto New = nu::applyFix(Src, F);
    auto S = nu::diagStr(*The) + "\n  gives " + New;
    auto Ds2 = diagnose(New, false);
    unsigned N = 0;
    std::string L;
    for (auto &D : Ds2)
      if (nu::isError(D)) ++N, L += "\n   " + nu::diagStr(D);
    C.label(std::string(The->sname()) + ": " + F.message());
    // Where exactly one token fits, adding it back is the repair. (A lost `;`
    // or `.` can make an application of what follows, for instance.)
    static const std::set<std::string> Exact{")", "}", "]", "=", "then", "in", ","};
    if (N && Del && Exact.contains(Tok)) fail("fix-does-not-help", S + L);
    C.nontrivial();
  }
});
} // namespace
namespace pbt {
const char *Rule = "Random texts (every diagnostic in range, formatted, reported once, edits disjoint) and random programs where every edit offered for a warning is applied and the result "
  "compared in a meaning-only normal form. Non-trivial: distinct texts with at least two diagnostics, or with an edit that was applied.";
}
