#include "ref/refnix.h"
#include <cctype>
#include <functional>
#include <map>
#include <set>

namespace ref {

const char *kindName(Kind K) {
  static const char *N[] = {"int", "float", "str", "indstr", "path", "homepath", "spath", "uri", "var", "paren", "list",
    "attrs", "rec", "select", "select-or", "call", "lambda", "let", "legacy-let", "with", "if", "assert", "un", "bin",
    "has-attr", "lit", "interp", "attrpath", "id", "strname", "dyn", "bind", "inherit", "inherit-from", "formal",
    "formal-default", "ellipsis", "formals"};
  return N[K];
}

P mk(Kind K, size_t B, size_t E, std::string S, std::vector<P> Ch) {
  auto N = std::make_shared<Node>();
  N->K = K;
  N->B = B;
  N->E = E;
  N->S = std::move(S);
  N->Ch = std::move(Ch);
  return N;
}

// ------------------------------------------------------------------- lexer
namespace {
bool isAl(char C) { return (C >= 'a' && C <= 'z') || (C >= 'A' && C <= 'Z'); }
bool isDi(char C) { return C >= '0' && C <= '9'; }
bool pathCh(char C) { return isAl(C) || isDi(C) || C == '.' || C == '_' || C == '-' || C == '+'; }
bool idCh(char C) { return isAl(C) || isDi(C) || C == '_' || C == '\'' || C == '-'; }
bool uriCh(char C) { return isAl(C) || isDi(C) || (C && std::string_view("%/?:@&=+$,-_.!~*'").find(C) != std::string_view::npos); }
const std::set<std::string> KW = {"if", "then", "else", "assert", "with", "let", "in", "rec", "inherit", "or"};

struct Lexer {
  std::string_view S;
  size_t P = 0;
  std::vector<Token> Out;
  enum St { Initial, Default, String, IndString, InPath, InPathSlash };
  std::vector<St> Stack{Initial};

  char at(size_t I) const { return I < S.size() ? S[I] : '\0'; }
  bool has(size_t I) const { return I < S.size(); }
  void emit(std::string K, size_t L, std::string V = "") {
    Out.push_back({std::move(K), P, P + L, std::move(V)});
    P += L;
  }

  // Lengths of the longest match of each rule at P (0: none).
  size_t mId() {
    if (!(isAl(at(P)) || at(P) == '_')) return 0;
    size_t I = P + 1;
    while (has(I) && idCh(S[I])) ++I;
    return I - P;
  }
  size_t mInt() {
    size_t I = P;
    while (has(I) && isDi(S[I])) ++I;
    return I - P;
  }
  size_t mFloat() {
    // (([1-9][0-9]*\.[0-9]*)|(0?\.[0-9]+))([Ee][+-]?[0-9]+)?
    size_t I = P;
    if (isDi(at(I)) && at(I) != '0') {
      while (has(I) && isDi(S[I])) ++I;
      if (at(I) != '.') return 0;
      ++I;
      while (has(I) && isDi(S[I])) ++I;
    } else {
      if (at(I) == '0') ++I;
      if (at(I) != '.' || !isDi(at(I + 1))) return 0;
      ++I;
      while (has(I) && isDi(S[I])) ++I;
    }
    size_t J = I;
    if (at(J) == 'e' || at(J) == 'E') {
      ++J;
      if (at(J) == '+' || at(J) == '-') ++J;
      if (isDi(at(J))) {
        while (has(J) && isDi(S[J])) ++J;
        I = J;
      }
    }
    return I - P;
  }
  // {PATH_CHAR}*(\/{PATH_CHAR}+)+\/?   from position I
  size_t mPathFrom(size_t Start) {
    size_t I = Start;
    while (has(I) && pathCh(S[I])) ++I;
    bool Any = false;
    while (at(I) == '/' && has(I + 1) && pathCh(S[I + 1])) {
      ++I;
      while (has(I) && pathCh(S[I])) ++I;
      Any = true;
    }
    if (!Any) return 0;
    if (at(I) == '/') ++I;
    return I - Start;
  }
  size_t mHPath() {
    if (at(P) != '~' || at(P + 1) != '/' || !has(P + 2) || !pathCh(S[P + 2])) return 0;
    size_t I = P + 1;
    while (at(I) == '/' && has(I + 1) && pathCh(S[I + 1])) {
      ++I;
      while (has(I) && pathCh(S[I])) ++I;
    }
    if (at(I) == '/') ++I;
    return I - P;
  }
  // {PATH_SEG}\$\{ : length of the PATH_SEG part if `${` follows
  size_t mPathSegDollar() {
    size_t I = P;
    while (has(I) && pathCh(S[I])) ++I;
    if (at(I) == '/' && at(I + 1) == '$' && at(I + 2) == '{') return I + 1 - P;
    return 0;
  }
  size_t mHPathStartDollar() {
    return at(P) == '~' && at(P + 1) == '/' && at(P + 2) == '$' && at(P + 3) == '{' ? 2 : 0;
  }
  size_t mSPath() {
    if (at(P) != '<') return 0;
    size_t I = P + 1;
    size_t B = I;
    while (has(I) && pathCh(S[I])) ++I;
    if (I == B) return 0;
    while (at(I) == '/') {
      size_t C = I + 1;
      while (has(C) && pathCh(S[C])) ++C;
      if (C == I + 1) return 0;
      I = C;
    }
    return at(I) == '>' ? I + 1 - P : 0;
  }
  size_t mUri() {
    if (!isAl(at(P))) return 0;
    size_t I = P + 1;
    while (has(I) && (isAl(S[I]) || isDi(S[I]) || S[I] == '+' || S[I] == '-' || S[I] == '.')) ++I;
    if (at(I) != ':' || !has(I + 1) || !uriCh(S[I + 1])) return 0;
    ++I;
    while (has(I) && uriCh(S[I])) ++I;
    return I - P;
  }

  void lexDefault() {
    char C = S[P];
    if (C == ' ' || C == '\t' || C == '\r' || C == '\n') {
      ++P;
      return;
    }
    if (C == '#') {
      while (has(P) && S[P] != '\n' && S[P] != '\r') ++P;
      return;
    }
    if (C == '/' && at(P + 1) == '*') {
      size_t E = S.find("*/", P + 2);
      if (E == std::string_view::npos) throw SyntaxError{P, "unterminated-comment", "unterminated comment"};
      P = E + 2;
      return;
    }
    struct M {
      size_t L;
      const char *K;
    };
    size_t SegD = mPathSegDollar();
    // In order of the rules; a later rule wins only if strictly longer.
    M Best{0, ""};
    auto Cand = [&](size_t L, const char *K) {
      if (L > Best.L) Best = {L, K};
    };
    Cand(mId(), "id");
    Cand(mInt(), "int");
    Cand(mFloat(), "float");
    // With `${` the rule matches two characters more.
    if (SegD) Cand(SegD + 2, "pathseg");
    if (mHPathStartDollar()) Cand(4, "hpathseg");
    Cand(mPathFrom(P), "path");
    Cand(mHPath(), "hpath");
    Cand(mSPath(), "spath");
    Cand(mUri(), "uri");
    static const char *Ops[] = {"...", "==", "!=", "<=", ">=", "&&", "||", "->", "//", "++", "<|", "|>", "${", "''"};
    for (auto *O : Ops)
      if (S.substr(P, std::string_view(O).size()) == O) Cand(std::string_view(O).size(), O);
    if (Best.L == 0) Best = {1, "char"};
    std::string K = Best.K;
    if (K == "id") {
      std::string T(S.substr(P, Best.L));
      emit(KW.count(T) ? T : "id", Best.L, T);
    } else if (K == "pathseg" || K == "hpathseg") {
      size_t L = Best.L - 2;
      emit(K == "pathseg" ? "path" : "hpath", L, std::string(S.substr(P, L)));
      Stack.push_back(InPathSlash);
    } else if (K == "path" || K == "hpath") {
      bool Slash = S[P + Best.L - 1] == '/';
      emit(K, Best.L, std::string(S.substr(P, Best.L)));
      Stack.push_back(Slash ? InPathSlash : InPath);
    } else if (K == "${") {
      Stack.push_back(Default);
      emit("${", 2);
    } else if (K == "''") {
      Stack.push_back(IndString);
      emit("''", 2);
    } else if (K == "char") {
      if (C == '"') {
        Stack.push_back(String);
        emit("\"", 1);
        return;
      }
      if (C == '{') Stack.push_back(Default);
      if (C == '}' && Stack.size() > 1) Stack.pop_back();
      emit(std::string(1, C), 1);
    } else
      emit(K, Best.L, std::string(S.substr(P, Best.L)));
  }

  void lexString() {
    // Accumulate one maximal literal.
    size_t B = P;
    std::string V;
    auto Flush = [&] {
      if (P > B) Out.push_back({"str", B, P, V});
    };
    while (has(P)) {
      char C = S[P];
      if (C == '"') {
        Flush();
        emit("\"", 1);
        Out.back().K = "\"end";
        Stack.pop_back();
        return;
      }
      if (C == '$' && at(P + 1) == '{') {
        Flush();
        Stack.push_back(Default);
        emit("${", 2);
        return;
      }
      if (C == '\\') {
        if (!has(P + 1)) break;
        char D = S[P + 1];
        V += D == 'n' ? '\n' : D == 'r' ? '\r' : D == 't' ? '\t' : D;
        P += 2;
        continue;
      }
      if (C == '$' && has(P + 1) && S[P + 1] != '"' && S[P + 1] != '\\' && S[P + 1] != '\r') {
        // `$x` is one unit, so that `$$` hides the second `$`.
        V += C;
        V += S[P + 1];
        P += 2;
        continue;
      }
      if (C == '\r') { // CR and CRLF read as LF
        V += '\n';
        P += at(P + 1) == '\n' ? 2 : 1;
        continue;
      }
      V += C;
      ++P;
    }
    throw SyntaxError{B, "unterminated-string", "unterminated string"};
  }

  void lexIndString() {
    size_t B = P;
    std::string V;
    std::vector<std::pair<std::string, bool>> Segs;
    bool InRun = false;
    auto Run = [&](std::string_view X) {
      if (!InRun) Segs.push_back({"", true});
      InRun = true;
      Segs.back().first += X;
      V += X;
    };
    auto Esc = [&](std::string X) {
      InRun = false;
      V += X;
      Segs.push_back({std::move(X), false});
    };
    auto Flush = [&] {
      if (P > B) Out.push_back({"str", B, P, V, Segs});
    };
    while (has(P)) {
      char C = S[P];
      if (C == '\'' && at(P + 1) == '\'') {
        char D = at(P + 2);
        if (D == '$') {
          Esc("$");
          P += 3;
          continue;
        }
        if (D == '\'') {
          Esc("''");
          P += 3;
          continue;
        }
        if (D == '\\' && has(P + 3)) {
          char X = S[P + 3];
          Esc(std::string(1, X == 'n' ? '\n' : X == 'r' ? '\r' : X == 't' ? '\t' : X));
          P += 4;
          continue;
        }
        Flush();
        emit("''end", 2);
        Stack.pop_back();
        return;
      }
      if (C == '$' && at(P + 1) == '{') {
        Flush();
        Stack.push_back(Default);
        emit("${", 2);
        return;
      }
      if (C == '$' && has(P + 1) && S[P + 1] != '\'') {
        Run(S.substr(P, 2));
        P += 2;
        continue;
      }
      if (C == '\'' && has(P + 1) && S[P + 1] != '\'' && S[P + 1] != '$') {
        Run(S.substr(P, 2));
        P += 2;
        continue;
      }
      if (C == '$' || C == '\'') Esc(std::string(1, C));
      else Run(S.substr(P, 1));
      ++P;
    }
    throw SyntaxError{B, "unterminated-string", "unterminated indented string"};
  }

  void lexPath() {
    if (at(P) == '$' && at(P + 1) == '{') {
      Stack.back() = InPath;
      Stack.push_back(Default);
      emit("${", 2);
      return;
    }
    size_t I = P;
    while (has(I) && (pathCh(S[I]) || S[I] == '/')) ++I;
    if (I > P) {
      bool Slash = S[I - 1] == '/';
      Stack.back() = Slash ? InPathSlash : InPath;
      emit("str", I - P, std::string(S.substr(P, I - P)));
      return;
    }
    if (Stack.back() == InPathSlash) throw SyntaxError{P, "trailing-slash", "path has a trailing slash"};
    Stack.pop_back();
    emit("pathend", 0);
  }

  void run() {
    while (true) {
      St T = Stack.back();
      if (T == InPath || T == InPathSlash) {
        lexPath();
        continue;
      }
      if (!has(P)) break;
      if (T == Default || T == Initial) lexDefault();
      else if (T == String) lexString();
      else lexIndString();
    }
    if (Stack.back() == String || Stack.back() == IndString)
      throw SyntaxError{P, "unterminated-string", "unterminated string"};
    emit("eof", 0);
  }
};

// ------------------------------------------------------------------ parser
struct Parser {
  std::string_view Src;
  std::vector<Token> T;
  size_t I = 0;
  unsigned Depth = 0;

  const Token &cur() const { return T[I]; }
  bool is(const char *K) const { return T[I].K == K; }
  bool isAt(size_t N, const char *K) const { return I + N < T.size() && T[I + N].K == K; }
  size_t last() const { return I ? T[I - 1].E : 0; }
  [[noreturn]] void err(std::string M, const char *Class = "grammar") { throw SyntaxError{cur().B, Class, std::move(M)}; }
  Token eat(const char *K) {
    if (!is(K)) err(std::string("expected ") + K + ", found " + cur().K);
    return T[I++];
  }

  struct DepthGuard {
    unsigned &D;
    DepthGuard(Parser &P) : D(P.Depth) {
      if (++D > 2000) throw SyntaxError{P.cur().B, "too-deep", "too deep"};
    }
    ~DepthGuard() { --D; }
  };

  P expr() { return exprFunction(); }

  P exprFunction() {
    DepthGuard G(*this);
    size_t B = cur().B;
    if (is("id") && (isAt(1, ":") || isAt(1, "@"))) return lambdaId();
    if (is("{")) {
      size_t Save = I;
      if (looksLikeFormals()) {
        I = Save;
        return lambdaFormals();
      }
      I = Save;
    }
    if (is("assert")) {
      ++I;
      auto C = expr();
      eat(";");
      auto Bo = exprFunction();
      return mk(Assert, B, Bo->E, "", {C, Bo});
    }
    if (is("with")) {
      ++I;
      auto C = expr();
      eat(";");
      auto Bo = exprFunction();
      return mk(With, B, Bo->E, "", {C, Bo});
    }
    if (is("let") && !isAt(1, "{")) {
      ++I;
      auto Bs = binds();
      eat("in");
      auto Bo = exprFunction();
      Bs.push_back(Bo);
      return mk(Let, B, Bo->E, "", Bs);
    }
    if (is("if")) {
      ++I;
      auto C = expr();
      eat("then");
      auto X = expr();
      eat("else");
      auto Y = expr();
      return mk(If, B, Y->E, "", {C, X, Y});
    }
    return exprPipe();
  }

  // `{` formals `}` followed by `:` or `@`?
  bool looksLikeFormals() {
    size_t N = 1;
    if (isAt(N, "}")) return isAt(N + 1, ":") || isAt(N + 1, "@");
    if (isAt(N, "...")) return true;
    if (!isAt(N, "id")) return false;
    if (isAt(N + 1, ",") || isAt(N + 1, "?")) return true;
    if (isAt(N + 1, "}")) return isAt(N + 2, ":") || isAt(N + 2, "@");
    return false;
  }

  P formals() {
    size_t B = cur().B;
    eat("{");
    std::vector<P> F;
    if (!is("}")) {
      while (true) {
        if (is("...")) {
          F.push_back(mk(Ellipsis, cur().B, cur().E));
          ++I;
          break;
        }
        Token Id = eat("id");
        if (is("?")) {
          ++I;
          auto D = expr();
          F.push_back(mk(FormalDef, Id.B, D->E, Id.V, {D}));
        } else
          F.push_back(mk(Formal, Id.B, Id.E, Id.V));
        if (is(",")) {
          ++I;
          if (is("}")) break; // trailing comma
          continue;
        }
        break;
      }
    }
    size_t E = eat("}").E;
    return mk(Formals, B, E, "", F);
  }

  P lambdaId() {
    Token Id = eat("id");
    if (is(":")) {
      ++I;
      auto Bo = exprFunction();
      auto N = mk(Lambda, Id.B, Bo->E, Id.V, {Bo});
      N->HasArg = true;
      N->ArgB = Id.B, N->ArgE = Id.E;
      return N;
    }
    eat("@");
    auto F = formals();
    eat(":");
    auto Bo = exprFunction();
    auto N = mk(Lambda, Id.B, Bo->E, Id.V, {F, Bo});
    N->HasArg = N->HasFormals = N->ArgFirst = true;
    N->ArgB = Id.B, N->ArgE = Id.E;
    return N;
  }
  P lambdaFormals() {
    size_t B = cur().B;
    auto F = formals();
    std::string Arg;
    bool HasArg = false;
    Token At{};
    if (is("@")) {
      ++I;
      At = eat("id");
      Arg = At.V;
      HasArg = true;
    }
    eat(":");
    auto Bo = exprFunction();
    auto N = mk(Lambda, B, Bo->E, Arg, {F, Bo});
    N->HasFormals = true;
    N->HasArg = HasArg;
    N->ArgB = At.B, N->ArgE = At.E;
    return N;
  }

  P exprPipe() {
    auto L = exprOp(0);
    if (is("<|")) {
      ++I;
      // right associative
      std::vector<P> Xs{L, exprOp(0)};
      while (is("<|")) {
        ++I;
        Xs.push_back(exprOp(0));
      }
      if (is("|>")) err("mixed pipes");
      P R = Xs.back();
      for (size_t K = Xs.size() - 1; K-- > 0;) R = mk(Bin, Xs[K]->B, R->E, "<|", {Xs[K], R});
      return R;
    }
    while (is("|>")) {
      ++I;
      auto R = exprOp(0);
      L = mk(Bin, L->B, R->E, "|>", {L, R});
      if (is("<|")) err("mixed pipes");
    }
    return L;
  }

  struct OpInfo {
    int Prec;
    char Assoc;
  };
  static const OpInfo *op(const std::string &K) {
    static const std::map<std::string, OpInfo> M = {
        {"->", {1, 'r'}}, {"||", {2, 'l'}}, {"&&", {3, 'l'}}, {"==", {4, 'n'}}, {"!=", {4, 'n'}},
        {"<", {5, 'n'}},  {">", {5, 'n'}},  {"<=", {5, 'n'}}, {">=", {5, 'n'}}, {"//", {6, 'r'}},
        // NOT 7
        {"+", {8, 'l'}},  {"-", {8, 'l'}},  {"*", {9, 'l'}},  {"/", {9, 'l'}},  {"++", {10, 'r'}},
        // ? 11, NEGATE 12
    };
    auto It = M.find(K);
    return It == M.end() ? nullptr : &It->second;
  }

  // Yacc precedence climbing: operators of precedence >= Min are taken.
  P exprOp(int Min) {
    DepthGuard G(*this);
    P L;
    size_t B = cur().B;
    if (is("!")) {
      ++I;
      auto X = exprOp(8);
      L = mk(Un, B, X->E, "!", {X});
    } else if (is("-")) {
      ++I;
      auto X = exprOp(13);
      L = mk(Un, B, X->E, "-", {X});
    } else
      L = exprApp();
    int NonAssocSeen = -1; // precedence of the non-associative operator just taken
    while (true) {
      if (is("?")) {
        if (11 < Min) return L;
        if (NonAssocSeen == 11) err("operator ? is not associative", "nonassoc");
        ++I;
        auto Pa = attrpath();
        L = mk(HasAttr, L->B, Pa->E, "", {L, Pa});
        NonAssocSeen = 11;
        continue;
      }
      auto *O = op(cur().K);
      if (!O || O->Prec < Min) return L;
      if (O->Assoc == 'n' && NonAssocSeen == O->Prec) err("operator is not associative", "nonassoc");
      std::string Name = cur().K;
      ++I;
      auto R = exprOp(O->Assoc == 'r' ? O->Prec : O->Prec + 1);
      L = mk(Bin, L->B, R->E, Name, {L, R});
      NonAssocSeen = O->Assoc == 'n' ? O->Prec : -1;
    }
  }

  bool startsSimple() {
    static const std::set<std::string> St = {"id", "int", "float", "\"", "''", "path", "hpath", "spath", "uri", "(", "let", "rec", "{", "["};
    if (!St.count(cur().K)) return false;
    if (is("let")) return isAt(1, "{");
    return true;
  }

  P exprApp() {
    auto F = exprSelect();
    std::vector<P> Ch{F};
    while (startsSimple()) Ch.push_back(exprSelect());
    if (Ch.size() == 1) return F;
    size_t E = Ch.back()->E;
    return mk(Call, F->B, E, "", Ch);
  }

  P exprSelect() {
    auto S = exprSimple();
    if (is(".")) {
      ++I;
      auto Pa = attrpath();
      if (is("or")) {
        ++I;
        auto D = exprSelect();
        return mk(SelectOr, S->B, D->E, "", {S, Pa, D});
      }
      return mk(Select, S->B, Pa->E, "", {S, Pa});
    }
    if (is("or")) err("or used as an identifier", "or-identifier");
    return S;
  }

  P interp() {
    size_t B = cur().B;
    eat("${");
    auto X = expr();
    size_t E = eat("}").E;
    return mk(Interp, B, E, "", {X});
  }
  // String body up to the closing token
  std::vector<P> parts(const char *End) {
    std::vector<P> R;
    while (!is(End)) {
      if (is("str")) {
        R.push_back(mk(Lit, cur().B, cur().E, cur().V));
        R.back()->Segs = cur().Segs;
        ++I;
      } else if (is("${"))
        R.push_back(interp());
      else
        err("unexpected token in string");
    }
    return R;
  }

  P exprSimple() {
    DepthGuard G(*this);
    Token C = cur();
    const std::string &K = C.K;
    if (K == "id") { ++I; return mk(Var, C.B, C.E, C.V); }
    if (K == "int") { ++I; return mk(Int, C.B, C.E, C.V); }
    if (K == "float") { ++I; return mk(Float, C.B, C.E, C.V); }
    if (K == "spath") { ++I; return mk(SPath, C.B, C.E, C.V.substr(1, C.V.size() - 2)); }
    if (K == "uri") { ++I; return mk(Uri, C.B, C.E, C.V); }
    if (K == "\"") {
      ++I;
      auto Ps = parts("\"end");
      size_t E = T[I++].E;
      return mk(Str, C.B, E, "", Ps);
    }
    if (K == "''") {
      ++I;
      auto Ps = parts("''end");
      size_t E = T[I++].E;
      return mk(IndStr, C.B, E, "", Ps);
    }
    if (K == "path" || K == "hpath") {
      std::vector<P> Ps{mk(Lit, C.B, C.E, C.V)};
      ++I;
      auto Rest = parts("pathend");
      for (auto &R : Rest) {
        if (R->K == Lit && Ps.back()->K == Lit && Ps.back()->E == R->B) {
          Ps.back()->S += R->S;
          Ps.back()->E = R->E;
        } else
          Ps.push_back(R);
      }
      ++I;
      size_t E = Ps.back()->E;
      return mk(K == "path" ? Path : HomePath, C.B, E, "", Ps);
    }
    if (K == "(") {
      ++I;
      auto X = expr();
      size_t E = eat(")").E;
      return mk(Paren, C.B, E, "", {X});
    }
    if (K == "let" && isAt(1, "{")) {
      I += 2;
      auto Bs = binds();
      size_t E = eat("}").E;
      return mk(LegacyLet, C.B, E, "", Bs);
    }
    if (K == "rec" || K == "{") {
      if (K == "rec") ++I;
      eat("{");
      auto Bs = binds();
      size_t E = eat("}").E;
      return mk(K == "rec" ? RecAttrs : Attrs, C.B, E, "", Bs);
    }
    if (K == "[") {
      ++I;
      std::vector<P> Xs;
      while (!is("]")) {
        if (!startsSimple()) err("unexpected token in list");
        Xs.push_back(exprSelect());
      }
      size_t E = T[I++].E;
      return mk(List, C.B, E, "", Xs);
    }
    err("unexpected " + K);
  }

  P attrName() {
    Token C = cur();
    if (is("id") || is("or")) {
      ++I;
      return mk(NId, C.B, C.E, C.V);
    }
    if (is("\"")) {
      ++I;
      auto Ps = parts("\"end");
      size_t E = T[I++].E;
      return mk(NStr, C.B, E, "", Ps);
    }
    if (is("${")) {
      auto X = interp();
      return mk(NDyn, C.B, X->E, "", {X->Ch[0]});
    }
    err("expected an attribute name");
  }
  P attrpath() {
    std::vector<P> N{attrName()};
    while (is(".")) {
      ++I;
      N.push_back(attrName());
    }
    size_t B = N[0]->B, E = N.back()->E;
    return mk(AttrPath, B, E, "", N);
  }

  std::vector<P> binds() {
    std::vector<P> R;
    while (true) {
      if (is("inherit")) {
        size_t B = cur().B;
        ++I;
        std::vector<P> Ch;
        bool From = false;
        if (is("(")) {
          ++I;
          Ch.push_back(expr());
          eat(")");
          From = true;
        }
        while (is("id") || is("or") || is("\"") || is("${")) Ch.push_back(attrName());
        size_t E = eat(";").E;
        R.push_back(mk(From ? InheritFrom : Inherit, B, E, "", Ch));
        continue;
      }
      if (is("id") || is("or") || is("\"") || is("${")) {
        auto Pa = attrpath();
        eat("=");
        auto X = expr();
        size_t E = eat(";").E;
        R.push_back(mk(Bind, Pa->B, E, "", {Pa, X}));
        continue;
      }
      return R;
    }
  }
};
} // namespace

std::vector<Token> lex(std::string_view Src) {
  Lexer L{Src};
  L.run();
  return L.Out;
}

ParseResult parse(std::string_view Src) {
  try {
    Parser Ps{Src, lex(Src)};
    auto R = Ps.expr();
    if (!Ps.is("eof")) Ps.err("unexpected text: " + Ps.cur().K);
    return {R, {}};
  } catch (const SyntaxError &E) {
    return {nullptr, E};
  }
}

static std::string q(const std::string &S) {
  std::string R = "\"";
  for (unsigned char C : S) {
    if (C == '"' || C == '\\') R += '\\';
    if (C == '\n') R += "\\n";
    else if (C == '\r') R += "\\r";
    else R += C;
  }
  return R + "\"";
}

std::string sexpr(const P &N, bool Ranges) {
  if (!N) return "<null>";
  std::string R = "(";
  R += kindName(N->K);
  if (Ranges) R += "@" + std::to_string(N->B) + "-" + std::to_string(N->E);
  if (N->K == Lambda) R += std::string(N->HasArg ? " arg=" + N->S : "") + (N->ArgFirst ? " first" : "");
  else if (!N->S.empty()) R += " " + q(N->S);
  for (auto &C : N->Ch) R += " " + sexpr(C, Ranges);
  return R + ")";
}

std::string diff(const P &A, const P &B, bool Ranges) {
  if (!A || !B) return A || B ? "one side has no node: want " + sexpr(A) + " got " + sexpr(B) : "";
  auto Msg = [&](const std::string &W) { return W + "\n  want " + sexpr(A, Ranges) + "\n  got  " + sexpr(B, Ranges); };
  if (A->K != B->K) return Msg("node kind differs");
  if (A->S != B->S) return Msg("value differs");
  if (A->HasArg != B->HasArg || A->HasFormals != B->HasFormals || A->ArgFirst != B->ArgFirst) return Msg("lambda argument differs");
  if (A->Ch.size() != B->Ch.size()) return Msg("number of children differs");
  for (size_t I = 0; I < A->Ch.size(); ++I) {
    auto D = diff(A->Ch[I], B->Ch[I], Ranges);
    if (!D.empty()) return D;
  }
  if (Ranges && A->K != Lit && (A->B != B->B || A->E != B->E)) return Msg("source range differs");
  return "";
}
} // namespace ref
