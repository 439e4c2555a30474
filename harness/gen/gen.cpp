#include "gen/gen.h"
#include <cstring>
#include <string>

namespace gen {

std::string utf8(char32_t C) {
  std::string R;
  if (C < 0x80) R += (char)C;
  else if (C < 0x800) { R += (char)(0xc0 | C >> 6); R += (char)(0x80 | (C & 63)); }
  else if (C < 0x10000) { R += (char)(0xe0 | C >> 12); R += (char)(0x80 | (C >> 6 & 63)); R += (char)(0x80 | (C & 63)); }
  else { R += (char)(0xf0 | C >> 18); R += (char)(0x80 | (C >> 12 & 63)); R += (char)(0x80 | (C >> 6 & 63)); R += (char)(0x80 | (C & 63)); }
  return R;
}

static const std::vector<std::string> BuiltinNames = {"true", "null", "builtins", "map", "toString", "import", "throw", "removeAttrs", "__add", "false"};

std::string G::name() {
  if (O.Shadow && S.chance(6)) return S.pick(std::vector<std::string>{"map", "toString", "builtins", "true", "import", "derivation"});
  if (BigLeft && S.chance(1)) return "n" + std::string(S.pick({30, 63, 64, 127, 256, 300}), 'm');
  return S.pick(O.Names);
}

std::string G::varName() {
  if (O.BuiltinPct && S.chance(O.BuiltinPct))
    return S.pick(std::vector<std::string>{"map", "attrNames", "builtins", "fetchurl", "length", "__length", "currentSystem", "derivation", "import", "langVersion", "toJSON", "true"});
  if (O.Scoped) {
    if (!Env.empty() && !S.chance(O.UndefPct + (O.Builtins ? 8 : 0))) return Env[Env.size() - 1 - S.below(Env.size())];
    if (O.Builtins && S.chance(50)) return S.pick(BuiltinNames);
    return S.pick(O.Names);
  }
  if (O.Builtins && S.chance(10)) return S.pick(BuiltinNames);
  return S.pick(O.Names);
}

std::string G::text() {
  std::string R;
  unsigned N = S.small(6, 65);
  if (big()) R += std::string(S.pick({31, 64, 100, 127, 255, 256, 1023, 1024, 4096}), 'q'), N += S.below(200);
  for (unsigned I = 0; I < N; ++I) {
    switch (S.weighted({60, 12, 6, 4, (unsigned)(O.Unicode ? 18 : 0)})) {
    case 0: R += S.pick({'a', 'b', 'z', 'A', '0', '7', '-', '_', '.', '/', ':', ';', '=', '(', '}', '{', ']', '#', '@', '*', '%', ','}); break;
    case 1: R += ' '; break;
    case 2: R += S.pick(std::vector<std::string>{"let", "in", "rec", "foo", "/*", "http://"}); break;
    case 3: R += '!'; break;
    case 4: R += utf8(S.pick({0xe9u, 0x3bbu, 0x65e5u, 0x1f600u, 0x10ffffu, 0x7ffu, 0x800u, 0xffffu, 0x10000u})); break;
    }
  }
  return R;
}

void G::number() {
  if (O.Floats && S.chance(30)) {
    tok(S.pick(std::vector<std::string>{"1.5", "0.25", "3.", "10.0e3", "1.0E-2", "2.5e+10", "123456789.123456789", "0.1", ".5", "1.e3", "0.1e1"}));
    return;
  }
  switch (S.weighted({60, 20, 10, 10})) {
  case 0: tok(std::to_string(S.below(10))); break;
  case 1: tok(std::to_string(S.below(100000))); break;
  case 2: tok(S.pick(std::vector<std::string>{"9223372036854775807", "0", "007", "4294967296", "2147483648", "1000000000000"})); break;
  case 3: tok(std::to_string(S.below(1ull << 62))); break;
  }
}

void G::str() {
  tok("\"");
  unsigned N = S.small(4, 60);
  for (unsigned I = 0; I < N; ++I) {
    switch (S.weighted({50, 18, 14, 6, 6, 6})) {
    case 0: tok(text(), true); break;
    case 1: tok(S.pick(std::vector<std::string>{"\\n", "\\t", "\\\"", "\\\\", "\\${", "\\r", "\\x", "\\$", "\\'"}), true); break;
    case 2:
      if (Left > 0) {
        tok("${", true);
        expr();
        tok("}");
      }
      break;
    case 3: tok(S.pick(std::vector<std::string>{"$$", "$", "$${", "$$$"}), true); tok("a", true); break;
    case 4: tok("'", true); break;
    case 5: tok(O.Cr && S.chance(30) ? S.pick(std::vector<std::string>{"\r\n", "\r", "$\r\n", "\\\r\n"}) : S.pick(std::vector<std::string>{"\n", "''", "\n  "}), true); break;
    }
  }
  tok("\"", true);
}

void G::indString() {
  tok("''");
  unsigned N = S.small(5, 65);
  for (unsigned I = 0; I < N; ++I) {
    switch (S.weighted({44, 16, 14, 8, 6, 12})) {
    case 0: tok(text(), true); break;
    case 1: tok(S.pick(std::vector<std::string>{"'''", "''$", "''\\n", "''\\t", "''\\x", "''\\\\", "''${"}), true); tok("q", true); break;
    case 2:
      if (Left > 0) {
        tok("${", true);
        expr();
        tok("}");
      }
      break;
    case 3: tok(S.pick(std::vector<std::string>{"$$", "$", "$${", "\\", "\"", "$$$"}), true); tok("a", true); break;
    case 4: tok("'", true); tok("a", true); break;
    case 5: tok(O.Cr && S.chance(30) ? S.pick(std::vector<std::string>{"\r\n", "\r", "\r\n  "}) : S.pick(std::vector<std::string>{"\n", "\n  ", "\n    ", "\n\n", "\t", "  "}), true); break;
    }
  }
  tok(T.back().S.empty() || T.back().S.back() != '\'' || T.back().S == "''" ? "" : " ", true);
  tok("''", true);
}

void G::path() {
  switch (S.weighted({40, 12, 12, 10, 26})) {
  case 0: tok(S.pick(std::vector<std::string>{"./a", "./foo/bar.nix", "../x", "/abs/p", "a/b", "./.", "./a-b_c+d", "x/y/z", "1/2", "./a//b", "-a/b"})); break;
  case 1: tok(S.pick(std::vector<std::string>{"~/x", "~/foo/bar", "~/a.b"})); break;
  case 2: tok(S.pick(std::vector<std::string>{"<nixpkgs>", "<nixpkgs/lib>", "<a.b>"})); break;
  case 3:
    if (O.Uris) {
      tok(S.pick(std::vector<std::string>{"http://a.b/c", "x:y", "git+ssh://h/p?q=1&r=2", "mailto:a@b"}));
      break;
    }
    [[fallthrough]];
  case 4: {
    if (Left <= 0) { tok("./a"); break; }
    tok(S.pick(std::vector<std::string>{"./", "./a/", "/", "~/", "./a", "x/", "../"}));
    bool NeedSlash = T.back().S.back() != '/';
    if (NeedSlash) tok("/", true);
    unsigned N = 1 + S.small(2, 40);
    for (unsigned I = 0; I < N; ++I) {
      tok("${", true);
      expr();
      tok("}");
      if (S.chance(50)) tok(S.pick(std::vector<std::string>{"b", "/c", ".nix", "/d/e", "-1"}), true);
    }
    break;
  }
  }
}

void G::attrname(bool AllowDyn) {
  switch (S.weighted({78, 14, (unsigned)(AllowDyn && O.Dynamic && Left > 0 ? 6 : 0), 2})) {
  case 0: tok(name()); break;
  case 1:
    if (S.chance(80)) {
      std::string N = name();
      if (S.chance(30)) N += S.pick(std::vector<std::string>{" ", ".", "@", "1x", "/"});
      else if (S.chance(10)) N = "";
      else if (S.chance(6)) N = S.pick(std::vector<std::string>{"if", "rec", "in", "or", "inherit"});
      tok("\"" + N + "\"");
    } else if (AllowDyn && O.Dynamic)
      str();
    else
      tok(name());
    break;
  case 2:
    tok("${");
    expr();
    tok("}");
    break;
  case 3: tok(name()); break;
  }
}

void G::attrpath(unsigned MaxExtra, bool AllowDyn) {
  attrname(AllowDyn);
  unsigned N = S.small(MaxExtra, 35);
  for (unsigned I = 0; I < N; ++I) {
    tok(".");
    attrname(AllowDyn);
  }
}

void G::binds(bool Rec, bool LetDyn, unsigned Max) {
  // Which names: chosen first, so that recursive scopes can use them.
  struct B { int Kind; std::vector<std::string> Path; };
  unsigned N = S.small(Max, 70);
  bool Many = Max > 2 && big();
  if (Many) N += 5 + S.below(90);
  std::vector<B> Bs;
  std::vector<std::string> Used;
  size_t Mark = Env.size();
  for (unsigned I = 0; I < N; ++I) {
    B X;
    X.Kind = S.weighted({70, 12, 10, (unsigned)(LetDyn ? 6 : 0)});
    if (X.Kind == 0) {
      std::string F = name();
      bool Rep = false;
      for (auto &U : Used) Rep |= U == F;
      if (Rep && !((O.Dups && !Many) || S.chance(Many ? 0 : 5))) {
        F += std::to_string(I);
      }
      Used.push_back(F);
      X.Path.push_back(F);
      unsigned E = S.small(2, O.Dups ? 60 : 25);
      for (unsigned K = 0; K < E; ++K) X.Path.push_back(name());
    } else if (X.Kind == 1) {
      unsigned K = S.small(3, 75);
      for (unsigned J = 0; J < K; ++J) {
        std::string F = O.Scoped && !Env.empty() && S.chance(90) ? Env[Env.size() - 1 - S.below(Env.size())] : name();
        bool Rep = false;
        for (auto &U : Used) Rep |= U == F;
        if (Rep && !O.Dups) continue;
        Used.push_back(F);
        X.Path.push_back(F);
      }
    } else if (X.Kind == 2) {
      unsigned K = S.small(3, 75);
      for (unsigned J = 0; J < K; ++J) {
        std::string F = name();
        bool Rep = false;
        for (auto &U : Used) Rep |= U == F;
        if (Rep && !O.Dups) continue;
        Used.push_back(F);
        X.Path.push_back(F);
      }
    }
    Bs.push_back(X);
  }
  if (Rec)
    for (auto &U : Used) Env.push_back(U);
  auto Spell = [&](const std::string &N) {
    if (S.chance(8)) tok("\"" + N + "\"");
    else if (O.Dynamic && S.chance(2)) {
      bool Par = S.chance(20);
      tok("${");
      if (Par) tok("(");
      tok("\"" + N + "\"");
      if (Par) tok(")");
      tok("}");
    } else tok(N);
  };
  for (auto &X : Bs) {
    switch (X.Kind) {
    case 0:
      for (size_t I = 0; I < X.Path.size(); ++I) {
        if (I) tok(".");
        if (I && LetDyn && O.Dynamic && Left > 0 && S.chance(4)) {
          tok("${");
          expr();
          tok("}");
        } else
          Spell(X.Path[I]);
      }
      tok("=");
      if (O.Dups && S.chance(45)) {
        bool Par = S.chance(12);
        if (Par) tok("(");
        attrs();
        if (Par) tok(")");
      } else
        expr();
      tok(";");
      break;
    case 1:
      tok("inherit");
      for (auto &F : X.Path) Spell(F);
      tok(";");
      break;
    case 2:
      tok("inherit");
      tok("(");
      if (O.BuiltinPct && S.chance(O.BuiltinPct * 2)) tok("builtins");
      else expr();
      tok(")");
      for (auto &F : X.Path) Spell(F);
      tok(";");
      break;
    case 3:
      tok("${");
      expr();
      tok("}");
      if (S.chance(20)) {
        tok(".");
        tok(name());
      }
      tok("=");
      expr();
      tok(";");
      break;
    }
  }
  if (!Rec) Env.resize(Mark);
}

void G::attrs() {
  bool Rec = S.chance(25);
  if (Rec) tok("rec");
  tok("{");
  size_t M = Env.size();
  binds(Rec, true);
  Env.resize(M);
  tok("}");
}

void G::legacyLet() {
  tok("let");
  tok("{");
  size_t M = Env.size();
  binds(true, false, 2);
  tok("body");
  tok("=");
  expr();
  tok(";");
  Env.resize(M);
  tok("}");
}

void G::list() {
  tok("[");
  unsigned N = S.small(4, 65);
  if (big()) N += 5 + S.below(120);
  for (unsigned I = 0; I < N; ++I) select();
  tok("]");
}

void G::simple() {
  --Left;
  if (Left <= 0 || Depth > 30) {
    if (S.chance(70)) tok(varName());
    else tok(std::to_string(S.below(10)));
    return;
  }
  ++Depth;
  switch (S.weighted({34, 10, (unsigned)(O.Strings ? 10 : 0), (unsigned)(O.Strings ? 5 : 0), (unsigned)(O.Paths ? 6 : 0), 12, 8, 14,
                      (unsigned)(O.LegacyLet ? 2 : 0)})) {
  case 0: tok(varName()); break;
  case 1: number(); break;
  case 2: str(); break;
  case 3: indString(); break;
  case 4: path(); break;
  case 5: tok("("); expr(); tok(")"); break;
  case 6: list(); break;
  case 7: attrs(); break;
  case 8: legacyLet(); break;
  }
  --Depth;
}

void G::select() {
  if (O.BuiltinPct && S.chance(O.BuiltinPct)) {
    tok("builtins");
    tok(".");
    std::string N = S.pick(std::vector<std::string>{"map", "attrNames", "true", "nope", "toString", "currentSystem", "__length", "derivation", "import", "null", "removeAttrs"});
    tok(S.chance(15) ? "\"" + N + "\"" : N);
    if (S.chance(10)) {
      tok(".");
      attrpath();
    }
    if (S.chance(15)) {
      tok("or");
      select();
    }
    return;
  }
  simple();
  if (S.chance(18)) {
    tok(".");
    attrpath();
    if (S.chance(20)) {
      tok("or");
      select();
    }
  }
}

void G::app() {
  if (S.chance(16) && Left > 0) {
    // callee: something that can be a function
    if (S.chance(75)) tok(varName());
    else {
      tok("(");
      expr();
      tok(")");
    }
    unsigned N = 1 + S.small(2, 30);
    if (big()) N += 5 + S.below(40);
    for (unsigned I = 0; I < N; ++I) select();
    return;
  }
  select();
}

void G::op() {
  unsigned N = 1 + (Left > 0 ? S.small(4, 30) : 0);
  if (big()) N += 5 + S.below(60);
  if (O.Pipes && Left > 0 && S.chance(3)) {
    app();
    tok(S.pick(std::vector<std::string>{"|>", "<|"}));
    app();
    return;
  }
  for (unsigned I = 0; I < N; ++I) {
    if (I) {
      tok(S.pick(std::vector<std::string>{"+", "-", "*", "/", "++", "//", "==", "!=", "<", "<=", ">", ">=", "&&", "||", "->"}));
    }
    unsigned U = S.small(2, 12);
    for (unsigned K = 0; K < U; ++K) tok(S.pick(std::vector<std::string>{"!", "-"}));
    app();
    if (S.chance(6)) {
      tok("?");
      attrpath();
    }
  }
}

void G::lambda() {
  size_t M = Env.size();
  switch (S.weighted({50, 25, 15, 10})) {
  case 0: {
    std::string A = name();
    tok(A);
    tok(":");
    Env.push_back(A);
    break;
  }
  default: {
    bool First = S.chance(15), Last = !First && S.chance(20);
    std::string A = name();
    std::vector<std::string> Fs;
    unsigned N = S.small(4, 65);
    bool Many = big();
    if (Many) N += 5 + S.below(60);
    for (unsigned I = 0; I < N; ++I) {
      std::string F = name();
      if (Many && I > 3) F += std::to_string(I);
      bool Rep = (First || Last) && F == A;
      for (auto &U : Fs) Rep |= U == F;
      if (Rep && !(O.Dups && S.chance(20))) continue;
      Fs.push_back(F);
    }
    for (auto &F : Fs) Env.push_back(F);
    if (First || Last) Env.push_back(A);
    if (First) {
      tok(A);
      tok("@");
    }
    tok("{");
    for (size_t I = 0; I < Fs.size(); ++I) {
      if (I) tok(",");
      tok(Fs[I]);
      if (S.chance(30) && Left > 0) {
        tok("?");
        expr();
      }
    }
    if (S.chance(35)) {
      if (!Fs.empty()) tok(",");
      tok("...");
    } else if (!Fs.empty() && S.chance(10))
      tok(",");
    tok("}");
    if (Last) {
      tok("@");
      tok(A);
    }
    tok(":");
  }
  }
  expr();
  Env.resize(M);
}

void G::let() {
  tok("let");
  size_t M = Env.size();
  binds(true, false);
  tok("in");
  expr();
  Env.resize(M);
}

void G::with_() {
  tok("with");
  expr();
  tok(";");
  expr();
}
void G::ifExpr() {
  tok("if");
  expr();
  tok("then");
  expr();
  tok("else");
  expr();
}
void G::assertExpr() {
  tok("assert");
  expr();
  tok(";");
  expr();
}

void G::expr() {
  --Left;
  if (Left <= 0 || Depth > 30) {
    simple();
    return;
  }
  ++Depth;
  switch (S.weighted({58, 12, 14, (unsigned)(O.With ? 5 : 0), 6, 3})) {
  case 0: op(); break;
  case 1: lambda(); break;
  case 2: let(); break;
  case 3: with_(); break;
  case 4: ifExpr(); break;
  case 5: assertExpr(); break;
  }
  --Depth;
}

static bool wordish(char C) { return isalnum((unsigned char)C) || strchr("_'-.+/~:$*%?&<>=|!\"\\#@", C); }

std::string G::render() {
  std::string R;
  // A file may begin with trivia.
  auto Trivia = [&](bool Need) {
    if (O.Plain) {
      R += ' ';
      return;
    }
    if (big()) {
      unsigned N = S.pick({20, 80, 127, 128, 255, 256, 257, 600, 1025});
      switch (S.below(4)) {
      case 0: R += std::string(N, ' '); return;
      case 1: R += std::string(N, O.NewLines ? '\n' : ' '); return;
      case 2: R += O.NewLines ? " # " + std::string(N, 'c') + "\n" : " "; return;
      default: R += " /* " + std::string(N, O.NewLines ? '\n' : 'c') + " */ "; return;
      }
    }
    switch (S.weighted({62, 12, 12, 4, 4, 3, 3, 2, O.Cr ? 2u : 0u})) {
    case 0: R += ' '; break;
    case 1:
      if (!Need) break;
      R += ' ';
      break;
    case 2: R += O.NewLines ? (O.Cr && S.chance(60) ? "\r\n" : "\n") : " "; R += std::string(S.below(5), ' '); break;
    case 3: R += O.NewLines ? " # " + text() + (O.Cr && S.chance(60) ? "\r\n" : "\n") : " "; break;
    case 4: R += " /* " + text() + " */ "; break;
    case 5: R += "\t"; break;
    case 6: R += "   "; break;
    case 7: R += O.NewLines ? " /* " + text() + "\n  " + text() + S.pick(std::vector<std::string>{"*/", "**/", " */", "\n*/ "}) : " "; break;
    case 8: R += S.pick(std::vector<std::string>{"\r", " \r ", "\n\r", "#c\r"}); break;
    }
  };
  auto Safe = [](char A, char B) {
    if (strchr("()[];,{}", A) || strchr("()[];,}", B)) return true;
    if (B == '{') return A != '$';
    return !(wordish(A) && wordish(B)) && !(wordish(A) && (unsigned char)B >= 0x80);
  };
  bool First = true;
  for (auto &X : T) {
    if (First) {
      First = false;
      if (!O.Plain && S.chance(10)) Trivia(false);
    } else if (!X.Glue && !X.S.empty()) {
      bool Need = R.empty() || !Safe(R.back(), X.S[0]);
      if (O.Loose && S.chance(10)) Need = false;
      Trivia(Need);
    }
    R += X.S;
  }
  if (!O.Plain && S.chance(15)) {
    Trivia(false);
    if (S.chance(20)) R += O.NewLines ? " # " + text() : "";
  }
  return R;
}

std::string program(pbt::Src &S, const Opts &O) {
  G g(S, O);
  if (O.Big && S.chance(5)) g.BigLeft = 1 + S.below(3);
  g.expr();
  return g.render();
}

static const std::vector<std::string> Lexemes = {
    "if", "then", "else", "assert", "with", "let", "in", "rec", "inherit", "or", "a", "b", "foo", "x'", "_", "1", "0", "42", "1.5", "00.5",
    "1.5e", "99999999999999999999", ".5", "\"", "''", "\"a\"", "\"${a}\"", "''b''", "'''", "\\", "$", "${", "$${", "{", "}", "(", ")", "[", "]", "<nixpkgs>",
    "<a", "./a", "./${a}", "./a/", "/b", "~/c", "~", "a/b", "http://x", "a:b", ":", "@", "?", ";", "=", ",", ".", "..", "...", "+", "-", "*", "/",
    "++", "//", "==", "!=", "<", "<=", ">", ">=", "&&", "||", "->", "!", "<|", "|>", "|", "&", "%", "^", "`", "#c\n", "/*c*/", "/*", "*/", "\n", " ", "\t",
    "''$", "''\\n", "\\n", "\"\\", "''\\", "\xc3\xa9", "\xf0\x9f\x98\x80", "\xff", "builtins", "true", "body", "{ }: a", "{ a, ... }@b: a", "let { body = 1; }"};

std::string tokenSoup(pbt::Src &S, unsigned Max) {
  std::string R;
  unsigned N = S.below(Max + 1);
  for (unsigned I = 0; I < N; ++I) {
    R += S.pick(Lexemes);
    if (S.chance(55)) R += ' ';
  }
  return R;
}

std::string byteSoup(pbt::Src &S, unsigned Max) {
  std::string R;
  unsigned N = S.below(Max + 1);
  static const char Hot[] = "\"'${}\\/~.a0 \n\r;:=@?#*<>|&!-+[]()";
  for (unsigned I = 0; I < N; ++I) {
    if (S.chance(75)) R += Hot[S.below(sizeof(Hot) - 1)];
    else R += (char)S.below(256);
  }
  return R;
}

std::string damaged(pbt::Src &S, const Opts &O) {
  G g(S, O);
  g.expr();
  unsigned K = 1 + S.small(3, 40);
  for (unsigned I = 0; I < K && !g.T.empty(); ++I) {
    size_t P = S.below(g.T.size());
    switch (S.weighted({35, 10, 15, 20, 10})) {
    case 0: g.T.erase(g.T.begin() + P); break;
    case 1: { auto X = g.T[P]; g.T.insert(g.T.begin() + P, X); break; }
    case 2: { size_t Q = S.below(g.T.size()); std::swap(g.T[P], g.T[Q]); break; }
    case 3: g.T.insert(g.T.begin() + P, Tok{S.pick(Lexemes), false}); break;
    case 4: g.T[P].S = S.pick(Lexemes); break;
    }
  }
  std::string R = g.render();
  if (S.chance(25) && !R.empty()) {
    switch (S.below(4)) {
    case 0: R.erase(S.below(R.size())); break; // truncate
    case 1: R.erase(S.below(R.size()), 1 + S.below(5)); break;
    case 2: R.insert(S.below(R.size() + 1), 1, (char)S.below(256)); break;
    case 3: R[S.below(R.size())] = (char)S.below(256); break;
    }
  }
  return R;
}

std::string deep(pbt::Src &S, unsigned N) {
  static const std::vector<std::pair<const char *, const char *>> Pairs = {
      {"(", ")"}, {"[", "]"}, {"{a=", ";}"}, {"let a=", "; in a"}, {"x: ", ""}, {"if a then b else ", ""}, {"!", ""}, {"-", ""}, {"\"${", "}\""},
      {"''${", "}''"}, {"with a; ", ""}, {"{a?", "}: a"}, {"rec {", "}"}, {"a.b or ", ""}, {"a -> ", ""}, {"a ++ ", ""}, {"(", ""}, {"{", ""}, {"\"${", ""}, {"[", ""},
      {"./${", "}"}, {"a // ", ""}, {"assert a; ", ""}, {"let {body=", ";}"}, {"{inherit (", ") a;}"}};
  auto &Pr = S.pick(Pairs);
  std::string R;
  for (unsigned I = 0; I < N; ++I) R += Pr.first;
  R += "a";
  for (unsigned I = 0; I < N; ++I) R += Pr.second;
  return R;
}

std::string anyText(pbt::Src &S, std::string *Kind) {
  Opts O;
  O.Unicode = S.chance(30);
  O.Loose = S.chance(50);
  O.Dups = S.chance(30);
  O.Cr = S.chance(20);
  O.Scoped = S.chance(50);
  O.Shadow = S.chance(20);
  O.Budget = 5 + S.below(60);
  auto K = [&](const char *N) { if (Kind) *Kind = N; };
  switch (S.weighted({25, 40, 20, 12, 3})) {
  case 0: K("program"); return program(S, O);
  case 1: K("damaged"); return damaged(S, O);
  case 2: K("tokens"); return tokenSoup(S, 30);
  case 3: K("bytes"); return byteSoup(S, 60);
  default: K("deep"); return deep(S, 1 + S.below(120));
  }
}

std::string unicodeText(pbt::Src &S, unsigned Max) {
  std::string R;
  unsigned N = S.below(Max + 1);
  for (unsigned I = 0; I < N; ++I) {
    switch (S.weighted({45, 12, 12, 10, 9, 6, 6})) {
    case 0: R += (char)('a' + S.below(26)); break;
    case 1: R += '\n'; break;
    case 2: R += utf8(S.pick({0xe9u, 0x80u, 0x7ffu, 0x3b1u})); break;
    case 3: R += utf8(S.pick({0x65e5u, 0x800u, 0xffffu, 0xd7ffu, 0xe000u})); break;
    case 4: R += utf8(S.pick({0x1f600u, 0x10000u, 0x10ffffu})); break;
    case 5: R += "\r\n"; break;
    case 6: R += S.pick({' ', '\t', '0', '\r'}); break;
    }
  }
  return R;
}
} // namespace gen
