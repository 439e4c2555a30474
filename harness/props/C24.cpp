// USES: server
#include "srv/actions.h"
#include <cmath>
#include <cstring>
using namespace pbt;
using namespace srv;
namespace pbt {
const char *Rule = "Random JSON texts (every kind of value, number and escape, in every layout) selected in random surroundings in the running server, and texts that are almost JSON; the offered conversion is applied and the "
                   "result read back with an independent parser for Nix and compared with the JSON value. Non-trivial: distinct converted values.";
}
namespace {
std::string one(Src &S, std::initializer_list<const char *> L) { return *(L.begin() + S.below(L.size())); }
Server &server() { return shared(plainOpts); }

struct J {
  char K = 'n'; ///< n t f # " [ {
  std::string S; ///< number as written, string value
  std::vector<J> L;
  std::vector<std::string> Keys;
};
std::string number(Src &S) {
  switch (S.below(8)) {
  case 0: return std::to_string(S.below(20));
  case 1: return "-" + std::to_string(S.below(20));
  case 2: return one(S, {"9223372036854775807", "-9223372036854775808", "-9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "-9223372036854775809", "9007199254740993", "-9007199254740993", "123456789012345678901234567890", "2147483648", "4294967296"});
  case 3: return one(S, {"0.1", "-0.5", "1.5", "100.0", "-2.0", "0.0", "-0.0", "-0", "3.141592653589793", "1.0000000000000002"});
  case 4: return one(S, {"", "-"}) + one(S, {"1", "2.5", "9", "1.7976931348623157", "2.2250738585072014", "5", "123"}) + one(S, {"e", "E"}) + one(S, {"", "+", "-"}) + one(S, {"0", "1", "5", "05", "7", "16", "17", "20", "22", "100", "300"});
  case 5: return one(S, {"1e20", "1e19", "1e-5", "1e-7", "1e16", "1e17", "1e18", "5e-324", "1E5", "1e300", "123e15", "1e15"});
  case 6: return std::to_string((int64_t)((uint64_t)S.below(1ull << 32) << S.below(33)) * (S.chance(50) ? 1 : -1));
  default: return std::to_string(S.below(1000)) + "." + std::to_string(S.below(100000));
  }
}
std::string text(Src &S) {
  std::string R;
  for (unsigned N = S.small(6, 65); N; --N)
    R += one(S, {"a", "b", "key", " ", "\"", "\\", "$", "${", "}", "$$", "$${", "\\${", "{", "''", "'", "\n", "\r", "\r\n", "\t", "\b", "\f", "\x01", "\x1f", "\x7f", "/", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "-", "_", ".", "0", "#", "/*", "\xef\xbf\xbd", "\\n"});
  return R;
}
std::string key(Src &S) {
  if (S.chance(20)) return one(S, {"if", "then", "else", "assert", "with", "let", "in", "rec", "inherit", "or", "true", "false", "null", "__functor", "_", "a'", "a-b", "-a", "1a", "a.b", "", "A9", "'", "a b", "import", "a/b", "\xc3\xa9", "${a}", "__curPos"});
  return S.chance(60) ? one(S, {"a", "b", "c", "d", "foo", "bar", "x1", "y-z", "q_", "Z"}) : text(S);
}
J value(Src &S, unsigned D) {
  J V;
  switch (S.weighted({2, 2, 2, 6, 6, D ? 5u : 0u, D ? 6u : 0u})) {
  case 0: V.K = 'n'; break;
  case 1: V.K = 't'; break;
  case 2: V.K = 'f'; break;
  case 3: V.K = '#', V.S = number(S); break;
  case 4: V.K = '"', V.S = text(S); break;
  case 5:
    V.K = '[';
    for (unsigned N = S.small(6, 70); N; --N) V.L.push_back(value(S, D - 1));
    break;
  default:
    V.K = '{';
    for (unsigned N = S.small(6, 70); N; --N) {
      auto K = key(S);
      if (std::find(V.Keys.begin(), V.Keys.end(), K) != V.Keys.end()) continue;
      V.Keys.push_back(K), V.L.push_back(value(S, D - 1));
    }
  }
  return V;
}
std::string ws(Src &S) { return one(S, {"", "", " ", "\n", "  ", "\t", "\r\n"}); }
void put(Src &S, const std::string &X, std::string &O) {
  O += '"';
  char B[16];
  for (size_t I = 0; I < X.size();) {
    unsigned char C = X[I];
    unsigned N = C < 0x80 ? 1 : C < 0xe0 ? 2 : C < 0xf0 ? 3 : 4;
    uint32_t P = N == 1 ? C : C & (0xff >> (N + 1));
    for (unsigned K = 1; K < N; ++K) P = P << 6 | (X[I + K] & 0x3f);
    bool Must = C < 0x20 || C == '"' || C == '\\';
    const char *Short = strchr("\"\\/\b\f\n\r\t", C), *Name = "\"\\/bfnrt";
    if (Must || S.chance(12)) {
      if (Short && C && S.chance(70)) O += '\\', O += Name[Short - "\"\\/\b\f\n\r\t"];
      else if (P >= 0x10000) snprintf(B, sizeof B, "\\u%04x\\u%04X", 0xd800 + ((P - 0x10000) >> 10), 0xdc00 + ((P - 0x10000) & 0x3ff)), O += B;
      else snprintf(B, sizeof B, S.chance(50) ? "\\u%04x" : "\\u%04X", P), O += B;
    } else O += X.substr(I, N);
    I += N;
  }
  O += '"';
}
void put(Src &S, const J &V, std::string &O) {
  switch (V.K) {
  case 'n': O += "null"; return;
  case 't': O += "true"; return;
  case 'f': O += "false"; return;
  case '#': O += V.S; return;
  case '"': put(S, V.S, O); return;
  default:
    O += V.K;
    for (size_t I = 0; I < V.L.size(); ++I) {
      if (I) O += ',';
      O += ws(S);
      if (V.K == '{') put(S, V.Keys[I], O), O += ws(S) + ":" + ws(S);
      put(S, V.L[I], O);
      O += ws(S);
    }
    if (V.L.empty()) O += ws(S);
    O += V.K == '[' ? ']' : '}';
  }
}
std::string str(const J &V) {
  std::string R;
  switch (V.K) {
  case '#': return V.S;
  case '"': return '"' + esc(V.S) + '"';
  case '[':
    for (auto &X : V.L) R += str(X) + " ";
    return "[ " + R + "]";
  case '{':
    for (size_t I = 0; I < V.L.size(); ++I) R += '"' + esc(V.Keys[I]) + "\": " + str(V.L[I]) + " ";
    return "{ " + R + "}";
  default: return std::string(1, V.K);
  }
}
bool finite(const J &V) {
  if (V.K == '#' && !std::isfinite(strtod(V.S.c_str(), nullptr))) return false;
  for (auto &X : V.L)
    if (!finite(X)) return false;
  return true;
}
/// Is the Nix expression that value?
bool equal(const J &V, const ref::P &N, bool Neg, std::string &Why);
bool differ(const J &V, const ref::P &N, std::string &Why) {
  if (Why.empty()) Why = "`" + str(V) + "` became " + ref::sexpr(N);
  return false;
}
bool string(const ref::P &N, const std::string &S) {
  std::string R;
  for (auto &X : N->Ch) {
    if (X->K != ref::Lit) return false;
    R += X->S;
  }
  return R == S;
}
bool equal(const J &V, const ref::P &N, bool Neg, std::string &Why) {
  if (N->K == ref::Paren) return equal(V, N->Ch[0], Neg, Why);
  auto Bad = [&] { return differ(V, N, Why); };
  switch (V.K) {
  case 'n': return (N->K == ref::Var && N->S == "null") || Bad();
  case 't': return (N->K == ref::Var && N->S == "true") || Bad();
  case 'f': return (N->K == ref::Var && N->S == "false") || Bad();
  case '#': {
    if (N->K == ref::Un && N->S == "-" && !Neg) return equal(V, N->Ch[0], true, Why);
    double D = strtod(V.S.c_str(), nullptr);
    errno = 0;
    char *End;
    long long I = strtoll(V.S.c_str(), &End, 10);
    bool IsInt = !*End && !errno;
    if (N->K == ref::Int) {
      errno = 0;
      long long X = strtoll(N->S.c_str(), nullptr, 10);
      if (errno) return Bad();
      if (Neg) X = -X;
      return (IsInt ? X == I : (long double)X == (long double)D) || Bad();
    }
    if (N->K != ref::Float) return Bad();
    double X = strtod(N->S.c_str(), nullptr) * (Neg ? -1 : 1);
    // A number that Nix can write as an integer stays one.
    return ((!IsInt || I == INT64_MIN) && X == D) || Bad();
  }
  case '"': return (N->K == ref::Str && string(N, V.S)) || Bad();
  case '[':
    if (N->K != ref::List || N->Ch.size() != V.L.size()) return Bad();
    for (size_t I = 0; I < V.L.size(); ++I)
      if (!equal(V.L[I], N->Ch[I], false, Why)) return Bad();
    return true;
  default:
    if (N->K != ref::Attrs || N->Ch.size() != V.L.size()) return Bad();
    for (size_t I = 0; I < V.L.size(); ++I) {
      const ref::Node *B = nullptr;
      for (auto &X : N->Ch) {
        if (X->K != ref::Bind || X->Ch[0]->Ch.size() != 1) return Bad();
        auto &Name = X->Ch[0]->Ch[0];
        if (Name->K == ref::NId ? Name->S == V.Keys[I] : Name->K == ref::NStr && string(Name, V.Keys[I])) B = X.get();
      }
      if (!B || !equal(V.L[I], B->Ch[1], false, Why)) return Bad();
    }
    return true;
  }
}
struct Around {
  std::string Before, After;
  bool Nix;
};
Around around(Src &S) {
  switch (S.below(9)) {
  case 0: return {"", "", true};
  case 1: return {"{ x = ", "; }", true};
  case 2: return {"[ ", " ]", true};
  case 3: return {"f ", " a", true};
  case 4: return {"/* \xf0\x9f\x98\x80 \xc3\xa9 */ ", " # \xe2\x82\xac\n", true};
  case 5: return {"\n\n  ", "\n", true};
  case 6: return {"let a = 1;\r\n in ", "", true};
  case 7: return {"# ", "", false};
  default: return {"{ = (", "\n", false};
  }
}
std::optional<std::string> convert(const std::string &U, const Around &A, const std::string &X, std::string *Title = nullptr) {
  auto &V = server();
  auto T = A.Before + X + A.After;
  V.open(U, T);
  std::optional<std::string> R;
  unsigned K = 0;
  for (auto &Y : actionsAt(V, U, T, A.Before.size(), A.Before.size() + X.size())) {
    if (!Y.titled("Convert JSON")) continue;
    check(!K++, "twice", "the conversion is offered twice");
    check(Y.is("refactor"), "kind", Y.Kind);
    auto F = after(Y, U, T);
    check(F.size() == 1, "files", "other files change");
    auto &Now = F[U];
    check(Now.size() >= A.Before.size() + A.After.size() && Now.compare(0, A.Before.size(), A.Before) == 0 && Now.compare(Now.size() - A.After.size(), std::string::npos, A.After) == 0, "edit", "more than the selection changes:\n" + Now);
    R = Now.substr(A.Before.size(), Now.size() - A.Before.size() - A.After.size());
  }
  V.close(U);
  V.sync();
  V.forget();
  return R;
}

Sub Values("values", 6000, 200000, [](Ctx &C) {
  auto &S = C.S;
  J V;
  V.K = S.chance(60) ? '{' : '[';
  for (unsigned N = S.small(6, 75), D = S.small(4, 60); N; --N) {
    auto K = key(S);
    if (V.K == '{' && std::find(V.Keys.begin(), V.Keys.end(), K) != V.Keys.end()) continue;
    if (V.K == '{') V.Keys.push_back(K);
    V.L.push_back(value(S, D));
  }
  std::string X;
  put(S, V, X);
  X += ws(S);
  auto A = around(S);
  C.show("text", A.Before + "<<" + X + ">>" + A.After);
  auto R = convert("file:///t/json.nix", A, X);
  bool Fin = finite(V);
  if (!R) {
    check(V.L.empty() || !Fin, "offered", "the conversion is not offered");
    C.label("declined");
    return;
  }
  C.note("result", *R);
  check(Fin, "infinite", "a number that is too large becomes " + *R);
  auto N = ref::parse(*R);
  check(N.ok(), "syntax", "not Nix:\n" + *R);
  std::string Why;
  check(equal(V, N.Root, false, Why), "value", Why + "\n" + *R);
  if (A.Nix) check(ref::parse(A.Before + *R + A.After).ok(), "around", "not Nix:\n" + A.Before + *R + A.After);
  C.label(A.Nix ? "in Nix" : "elsewhere");
  C.nontrivial();
});

/// JSON, where a number is any word of the characters of numbers.
struct Reader {
  std::string_view T;
  size_t I = 0;
  bool Nul = false;
  void ws() {
    while (I < T.size() && strchr(" \t\r\n", T[I]) && T[I]) ++I;
  }
  bool eat(std::string_view W) {
    if (T.substr(I, W.size()) != W) return false;
    I += W.size();
    return true;
  }
  bool str() {
    if (!eat("\"")) return false;
    while (I < T.size() && T[I] != '"') {
      if ((unsigned char)T[I] < 0x20) return false;
      if (T[I++] != '\\') continue;
      if (I >= T.size()) return false;
      char C = T[I++];
      if (C == 'u') {
        for (int K = 0; K < 4; ++K, ++I)
          if (I >= T.size() || !isxdigit((unsigned char)T[I])) return false;
        Nul |= T.substr(I - 4, 4) == "0000";
      } else if (!strchr("\"\\/bfnrt", C) || !C) return false;
    }
    return eat("\"");
  }
  bool val() {
    ws();
    if (I >= T.size()) return false;
    if (T[I] == '"') return str();
    if (T[I] == '[' || T[I] == '{') {
      bool O = T[I++] == '{';
      char E = O ? '}' : ']';
      ws();
      if (I < T.size() && T[I] == E) return ++I;
      for (;;) {
        ws();
        if (O && (!str() || (ws(), !eat(":")))) return false;
        if (!val()) return false;
        ws();
        if (I >= T.size()) return false;
        if (T[I] == E) return ++I;
        if (T[I++] != ',') return false;
      }
    }
    if (eat("null") || eat("true") || eat("false")) return true;
    size_t B = I;
    while (I < T.size() && strchr("0123456789+-.eE", T[I]) && T[I]) ++I;
    return I > B;
  }
  bool all() {
    bool R = val();
    ws();
    return R && I == T.size();
  }
};
Sub Others("other-texts", 4000, 120000, [](Ctx &C) {
  auto &S = C.S;
  std::string X;
  if (S.chance(60)) {
    auto V = value(S, 1 + S.small(3, 60));
    put(S, V, X);
    for (unsigned N = 1 + S.small(3, 40); N; --N) {
      size_t I = S.below(X.size() + 1), L = std::min<size_t>(S.small(4, 40), X.size() - I);
      while (I && I < X.size() && (X[I] & 0xc0) == 0x80) --I;
      while (I + L < X.size() && (X[I + L] & 0xc0) == 0x80) ++L;
      if (I + L > X.size()) L = X.size() - I;
      X.replace(I, L, one(S, {"", ",", "]", "}", "[", "{", ":", "\"", "=", ";", " ", "a", "\\u0000", "'", "//", "null", "1", "-", "\\", "\\x", "\\u12"}));
    }
  } else {
    auto O = gen::Opts();
    O.Budget = 12;
    X = gen::program(S, O);
  }
  if (X.empty()) throw Discard{};
  auto A = around(S);
  C.show("text", A.Before + "<<" + X + ">>" + A.After);
  auto R = convert("file:///t/json.nix", A, X);
  Reader P{X};
  bool Ok = P.all() && (X[0] == '[' || X[0] == '{');
  if (R) {
    check(Ok, "not-json", "offered for a text that is not JSON, to become\n" + *R);
    check(!P.Nul, "nul", "a string with a NUL character becomes\n" + *R);
    check(ref::parse(*R).ok(), "syntax", "not Nix:\n" + *R);
    C.label("json");
  } else C.label(Ok ? "declined" : "not json");
  C.nontrivial();
});

Sub Deep("large", 60, 600, [](Ctx &C) {
  auto &S = C.S;
  // Nested or wide beyond what is converted: answered, and converted exactly or not at all.
  unsigned N = S.below(4) ? 1 + S.below(S.chance(30) ? 300000 : 300) : 9990 + S.below(20);
  std::string X;
  bool Wide = S.chance(50), Open = S.chance(20);
  if (Wide) {
    X = "[";
    for (unsigned I = 0; I < N; ++I) X += (I ? "," : "") + std::to_string(I % 10);
    X += "]";
  } else {
    auto B = one(S, {"[", "{\"a\":"});
    std::string E = B == "[" ? "]" : "}";
    for (unsigned I = 0; I < N; ++I) X += B;
    X += "1";
    if (!Open) for (unsigned I = 0; I < N; ++I) X += E;
  }
  C.show("kind", (Wide ? "wide " : Open ? "open " : "deep ") + std::to_string(N) + X.substr(0, 3));
  Around A{"", "", true};
  // Nesting of Nix itself is not the subject here.
  if (!Wide && N > 300) A = {"# ", "", false};
  auto R = convert("file:///t/json.nix", A, X);
  check(!R || Wide || !Open, "not-json", "offered for a text that is not JSON");
  if (N <= 50) check(R || (Open && !Wide), "offered", "the conversion is not offered");
  if (R) {
    std::string F;
    for (char Ch : *R) if (!isspace((unsigned char)Ch)) F += Ch;
    std::string Want;
    for (char Ch : X) if (Ch != ',' && Ch != '"') Want += Ch;
    std::string W2;
    for (char Ch : Want) W2 += Ch == ':' ? '=' : Ch;
    std::string W3;
    for (size_t I = 0; I < W2.size(); ++I) W3 += W2[I] == '}' ? ";}" : std::string(1, W2[I]);
    check(F == W3, "value", "changed: " + F.substr(0, 300) + " for " + W3.substr(0, 300));
    C.label("converted");
  } else C.label("declined");
  C.nontrivial();
});
}
