// USES: nixf
#include "core/nixutil.h"
#include "gen/gen.h"
#include <cmath>
#include <cstring>
using namespace pbt;

namespace {
using Parts = std::vector<std::pair<bool, std::string>>; // (is an interpolation, text or variable name)

std::string str(const Parts &P) {
  std::string R;
  for (auto &[I, T] : P) R += I ? "${" + T + "}" : "<" + esc(T) + ">";
  return R;
}
void merge(Parts &P) {
  Parts R;
  for (auto &X : P) {
    if (!X.first && X.second.empty()) continue;
    if (!X.first && !R.empty() && !R.back().first) R.back().second += X.second;
    else R.push_back(X);
  }
  P = R;
}

Parts parsed(const nixf::InterpolatedParts &Ps) {
  Parts R;
  for (auto &F : Ps.fragments()) {
    if (F.kind() == nixf::InterpolablePart::SPK_Escaped) R.push_back({false, F.escaped()});
    else {
      auto *E = F.interpolation().expr();
      R.push_back({true, E && E->kind() == nixf::Node::NK_ExprVar ? static_cast<const nixf::ExprVar *>(E)->id().name() : "?"});
    }
  }
  merge(R);
  return R;
}

/// Parses and requires no error at all.
std::shared_ptr<nixf::Node> ok(const std::string &Src, nixf::Node::NodeKind K) {
  std::vector<nixf::Diagnostic> Ds;
  auto N = nixf::parse(Src, Ds);
  for (auto &D : Ds)
    if (nu::isError(D)) fail("valid-rejected", "a valid literal gets the error " + nu::diagStr(D));
  check(N != nullptr, "no-tree", "no tree");
  check(N->kind() == K, "kind", std::string("the literal is parsed as ") + nixf::Node::name(N->kind()));
  check(N->lCur().offset() == 0 && N->rCur().offset() == Src.size(), "range", "the literal's range is " + nu::rangeStr(N->range()));
  return N;
}

std::string value(Src &S) {
  std::string R;
  for (unsigned N = S.below(9); N; --N) {
    switch (S.below(12)) {
    case 0: R += "$"; break;
    case 1: R += "{"; break;
    case 2: R += "\""; break;
    case 3: R += "\\"; break;
    case 4: R += "'"; break;
    case 5: R += S.pick({"\n", "\t", "\r"}); break;
    case 6: R += " "; break;
    case 7: R += gen::utf8(S.pick<char32_t>({0xe9, 0x3b1, 0x20ac, 0x4e2d, 0x1f600, 0x10ffff, 0x7f})); break;
    case 8: R += "${"; break;
    case 9: R += "''"; break;
    default: R += (char)('a' + S.below(26));
    }
  }
  return R;
}

// A value, written as "..." with a random choice among the spellings.
Sub Quoted("quoted-strings", 40000, 1200000, [](Ctx &C) {
  Parts Want;
  for (unsigned N = 1 + C.S.below(4); N; --N) {
    if (C.S.chance(30)) Want.push_back({true, C.S.pick({"x", "a", "foo-bar"})});
    else Want.push_back({false, value(C.S)});
  }
  merge(Want);
  std::string T = "\"";
  bool Special = false;
  for (auto &[I, V] : Want) {
    if (I) {
      T += "${" + std::string(C.S.chance(30) ? " " : "") + V + "}";
      continue;
    }
    for (size_t K = 0; K < V.size(); ++K) {
      char X = V[K];
      bool Esc = C.S.chance(50);
      switch (X) {
      case '"': case '\\': T += '\\'; T += X; Special = true; break;
      case '\n': T += Esc ? "\\n" : "\n"; Special |= Esc; break;
      case '\t': T += Esc ? "\\t" : "\t"; Special |= Esc; break;
      case '\r': T += "\\r"; Special = true; break; // a raw CR is normalised by Nix
      case '$': {
        // Raw only where it cannot pair up with what follows.
        bool Next = K + 1 < V.size() ? V[K + 1] == '{' || V[K + 1] == '$' : true;
        T += Next || Esc ? "\\$" : "$";
        Special = true;
        break;
      }
      default:
        if (Esc && strchr("'{} xyzabq", X) && X) { T += '\\'; Special = true; }
        T += X;
      }
    }
  }
  T += "\"";
  C.show("text", T);
  auto N = ok(T, nixf::Node::NK_ExprString);
  auto Got = parsed(static_cast<const nixf::ExprString &>(*N).parts());
  check(Got == Want, "value", "the string should be " + str(Want) + " but is read as " + str(Got));
  C.nontrivial(Special);
});

// Indented strings; the content is compared before indentation is stripped,
// which libnixf leaves to the evaluator.
Sub Indented("indented-strings", 40000, 1200000, [](Ctx &C) {
  Parts Want;
  for (unsigned N = 1 + C.S.below(4); N; --N) {
    if (C.S.chance(30)) Want.push_back({true, C.S.pick({"x", "a", "foo-bar"})});
    else Want.push_back({false, value(C.S)});
  }
  merge(Want);
  std::string T = "''";
  bool Special = false;
  for (size_t P = 0; P < Want.size(); ++P) {
    auto &[I, V] = Want[P];
    if (I) {
      T += "${" + V + "}";
      continue;
    }
    for (size_t K = 0; K < V.size(); ++K) {
      char X = V[K];
      bool Last = K + 1 == V.size();
      bool Esc = C.S.chance(50);
      switch (X) {
      case '\'':
        if (!Last && V[K + 1] == '\'') {
          T += "'''";
          ++K;
          Special = true;
          // an odd quote after "'''" would merge with it
          if (K + 1 < V.size() && V[K + 1] == '\'') { T += "''\\'"; ++K; }
          else if (K + 1 == V.size() && P + 1 == Want.size()) {}
        } else if (Last && P + 1 == Want.size()) { T += "''\\'"; Special = true; }
        else {
          // a lone quote: next must not be a quote or an escape
          T += "''\\'";
          Special = true;
        }
        break;
      case '$': {
        bool Next = !Last ? V[K + 1] == '{' || V[K + 1] == '$' : true;
        T += Next || Esc ? (C.S.chance(50) ? "''$" : "''\\$") : "$";
        Special = true;
        break;
      }
      case '\n': T += Esc ? "''\\n" : "\n"; Special |= Esc; break;
      case '\t': T += Esc ? "''\\t" : "\t"; Special |= Esc; break;
      case '\r': T += "''\\r"; Special = true; break;
      default: T += X;
      }
    }
  }
  T += "''";
  C.show("text", T);
  auto N = ok(T, nixf::Node::NK_ExprString);
  auto Got = parsed(static_cast<const nixf::ExprString &>(*N).parts());
  check(Got == Want, "value", "the string should be " + str(Want) + " but is read as " + str(Got));
  C.nontrivial(Special);
});

Sub Ints("integers", 10000, 300000, [](Ctx &C) {
  uint64_t V = 0;
  switch (C.S.below(4)) {
  case 0: V = C.S.below(100); break;
  case 1: V = (1ull << C.S.below(64)) - C.S.below(2); break;
  case 2: V = INT64_MAX - C.S.below(3); break;
  default: V = C.S.below(UINT64_MAX);
  }
  std::string T = std::string(C.S.chance(20) ? C.S.below(4) : 0, '0') + std::to_string(V);
  if (C.S.chance(10)) T += std::to_string(C.S.below(1000));
  C.show("text", T);
  errno = 0;
  long long Want = strtoll(T.c_str(), nullptr, 10);
  bool Big = errno == ERANGE;
  std::vector<nixf::Diagnostic> Ds;
  auto N = nixf::parse(T, Ds);
  check(N && N->kind() == nixf::Node::NK_ExprInt, "kind", "not an integer");
  bool Said = false;
  for (auto &D : Ds) {
    Said |= D.kind() == nixf::Diagnostic::DK_IntTooBig;
    check(D.kind() == nixf::Diagnostic::DK_IntTooBig, "extra", nu::diagStr(D));
  }
  check(Said == Big, "range-diagnostic", Big ? "an integer that does not fit in 64 bits is accepted" : "a 64-bit integer is refused");
  if (!Big) check(static_cast<const nixf::ExprInt &>(*N).value() == Want, "value", "read as " + std::to_string(static_cast<const nixf::ExprInt &>(*N).value()));
  C.nontrivial(T.size() > 3);
});

Sub Floats("floats", 20000, 600000, [](Ctx &C) {
  std::string T;
  auto Digits = [&](unsigned Max) {
    std::string R;
    for (unsigned N = 1 + C.S.below(Max); N; --N) R += (char)('0' + C.S.below(10));
    return R;
  };
  bool Lead = true;
  switch (C.S.below(3)) {
  case 0: T = std::string(1, '1' + C.S.below(9)) + (C.S.chance(60) ? Digits(20) : "") + "." + (C.S.chance(70) ? Digits(20) : ""); break;
  case 1: T = "0." + Digits(20); break;
  default: T = "." + Digits(20);
  }
  (void)Lead;
  if (C.S.chance(60)) T += std::string(C.S.pick({"e", "E"})) + C.S.pick({"", "+", "-"}) + std::to_string(C.S.below(C.S.chance(20) ? 400 : 30));
  C.show("text", T);
  auto N = ok(T, nixf::Node::NK_ExprFloat);
  double W = strtod(T.c_str(), nullptr), G = static_cast<const nixf::ExprFloat &>(*N).value();
  char Buf[128];
  snprintf(Buf, sizeof Buf, "should be %.17g but is read as %.17g", W, G);
  check(memcmp(&W, &G, 8) == 0, "value", Buf);
  C.nontrivial(T.size() > 4);
});

Sub Paths("paths", 20000, 600000, [](Ctx &C) {
  auto Seg = [&] {
    std::string R;
    for (unsigned N = 1 + C.S.below(5); N; --N) R += C.S.pick({"a", "b", "z", "A", "Z", "0", "9", ".", "_", "-", "+", ".."});
    return R;
  };
  Parts Want;
  std::string T;
  bool Home = C.S.chance(15);
  std::string Lit = Home ? "~/" + Seg() : (C.S.pick<std::string>({"", ".", "..", Seg()}) + "/" + Seg());
  // `a/b` where the first segment is not empty is a path as well
  auto Flush = [&] {
    if (!Lit.empty()) Want.push_back({false, Lit});
    T += Lit;
    Lit.clear();
  };
  bool AfterInterp = false;
  for (unsigned N = C.S.below(4); N; --N) {
    if (C.S.chance(40)) {
      if (C.S.chance(50)) Lit += "/";
      Flush();
      T += "${x}";
      Want.push_back({true, "x"});
      AfterInterp = true;
    } else if (AfterInterp && C.S.chance(40)) Lit += Seg();
    else Lit += "/" + Seg();
  }
  Flush();
  C.show("text", T);
  merge(Want);
  auto N = ok(T, nixf::Node::NK_ExprPath);
  auto Got = parsed(static_cast<const nixf::ExprPath &>(*N).parts());
  check(Got == Want, "value", "the path should be " + str(Want) + " but is read as " + str(Got));
  C.nontrivial(Want.size() > 1 || Lit.size() > 6);
});

Sub UriSearch("uris-and-search-paths", 10000, 300000, [](Ctx &C) {
  if (C.S.chance(50)) {
    std::string T = C.S.pick({"http", "a", "git+ssh", "x-y.z", "B2"});
    T += ":";
    for (unsigned N = 1 + C.S.below(10); N; --N) T += C.S.pick({"a", "Z", "0", "%", "/", "?", ":", "@", "&", "=", "+", "$", ",", "-", "_", ".", "!", "~", "*", "'"});
    C.show("text", T);
    auto N = ok(T, nixf::Node::NK_ExprString);
    auto &S = static_cast<const nixf::ExprString &>(*N);
    check(S.isLiteral() && S.literal() == T, "value", "the URI reads as " + (S.isLiteral() ? S.literal() : "a dynamic string"));
    C.nontrivial(T.size() > 6);
  } else {
    std::string V;
    for (unsigned K = 1 + C.S.below(3); K; --K) {
      for (unsigned N = 1 + C.S.below(4); N; --N) V += C.S.pick({"a", "Z", "0", ".", "_", "-", "+"});
      if (K > 1) V += "/";
    }
    C.show("text", "<" + V + ">");
    auto N = ok("<" + V + ">", nixf::Node::NK_ExprSPath);
    check(static_cast<const nixf::ExprSPath &>(*N).text() == V, "value", "the search path reads as " + static_cast<const nixf::ExprSPath &>(*N).text());
    C.nontrivial(V.size() > 3);
  }
});
} // namespace
namespace pbt {
const char *Rule = "A random value (string parts, integer, float, path, URI, search path) is encoded as a literal with a random spelling; the parsed literal must be "
  "that value and span the text. Non-trivial: distinct texts that need escapes, several parts, or several digits.";
}
