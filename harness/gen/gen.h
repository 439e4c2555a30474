// Generators of Nix programs over a choice tape.
#pragma once
#include "core/pbt.h"
#include <string>
#include <vector>

namespace gen {

struct Opts {
  unsigned Budget = 40;    ///< number of expression nodes, roughly
  bool Scoped = false;     ///< variables come mostly from what is in scope
  unsigned UndefPct = 8;   ///< Scoped: unbound names
  bool Unicode = false;    ///< non-ASCII text in strings and comments
  bool Loose = false;      ///< separators between tokens may be missing anywhere
  bool Paths = true, Uris = true, Pipes = true, LegacyLet = true, Strings = true, Floats = true, With = true, Dynamic = true;
  bool Builtins = true;    ///< use names of builtins
  unsigned BuiltinPct = 0; ///< how much to use builtins in all spellings
  bool Shadow = false;     ///< bind names of builtins
  bool Plain = false;      ///< one space between tokens (no comments)
  bool NewLines = true;
  bool Dups = false;       ///< attribute sets like to repeat and nest the same names
  bool Big = true;         ///< sometimes much more of one thing
  bool Cr = false;         ///< CRLF line ends in the trivia
  std::vector<std::string> Names = {"a", "b", "c", "x", "y", "foo", "bar", "foo-bar", "x'", "_u"};
};

struct Tok {
  std::string S;
  bool Glue = false; ///< no separator before
};

class G {
public:
  pbt::Src &S;
  Opts O;
  int Left;
  std::vector<Tok> T;
  std::vector<std::string> Env;
  unsigned Depth = 0;
  unsigned BigLeft = 0; ///< how many big things are still to come

  G(pbt::Src &S, Opts O) : S(S), O(std::move(O)), Left(this->O.Budget) {}

  void tok(std::string X, bool Glue = false) { T.push_back({std::move(X), Glue}); }

  /// Whether this is the place for something big.
  bool big() {
    if (!BigLeft || !S.chance(15)) return false;
    --BigLeft;
    return true;
  }
  std::string name();        ///< a name to bind
  std::string varName();     ///< a name to use
  void expr();
  void op();
  void app();
  void select();
  void simple();
  void lambda();
  void let();
  void with_();
  void ifExpr();
  void assertExpr();
  void attrs();
  void legacyLet();
  void list();
  void str();
  void indString();
  void path();
  void number();
  void attrpath(unsigned MaxExtra = 2, bool AllowDyn = true);
  void attrname(bool AllowDyn = true);
  void binds(bool Rec, bool LetDyn, unsigned Max = 4);
  std::string text();  ///< random text without quote, dollar, backslash
  std::string render();
};

std::string program(pbt::Src &S, const Opts &O);

/// Text that is mostly a program, with tokens dropped, doubled, swapped or
/// replaced, and sometimes raw byte edits.
std::string damaged(pbt::Src &S, const Opts &O);
/// Random tokens of the language.
std::string tokenSoup(pbt::Src &S, unsigned MaxTokens);
/// Random bytes, with a bias towards bytes that matter to the lexer.
std::string byteSoup(pbt::Src &S, unsigned MaxLen);
/// A text of one of the kinds above.
std::string anyText(pbt::Src &S, std::string *Kind = nullptr);
/// Random well-formed Unicode text with all UTF-8 lengths and line ends.
std::string unicodeText(pbt::Src &S, unsigned MaxLen);
/// Deep nesting of one construct, N levels.
std::string deep(pbt::Src &S, unsigned N);

std::string utf8(char32_t C);
} // namespace gen
