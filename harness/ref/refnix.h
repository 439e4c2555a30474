// Reference front end for the Nix language, written from the Nix grammar
// (lexer.l / parser.y of Nix), independent of libnixf. It accepts exactly the
// Nix language (minus what is said at parse()), and is strict: no recovery.
#pragma once
#include <cstdint>
#include <functional>
#include <memory>
#include <string>
#include <string_view>
#include <vector>

namespace ref {

enum Kind {
  Int, Float, Str, IndStr, Path, HomePath, SPath, Uri, Var, Paren, List, Attrs, RecAttrs,
  Select, SelectOr, Call, Lambda, Let, LegacyLet, With, If, Assert, Un, Bin, HasAttr,
  // helpers
  Lit, Interp, AttrPath, NId, NStr, NDyn, Bind, Inherit, InheritFrom, Formal, FormalDef, Ellipsis, Formals
};
const char *kindName(Kind K);

struct Node;
using P = std::shared_ptr<Node>;

struct Node {
  Kind K;
  size_t B = 0, E = 0; ///< byte range in the source
  std::string S;       ///< name, operator, decoded literal, number text
  std::vector<P> Ch;
  bool ArgFirst = false; ///< Lambda: `x @ { }` (and not `{ } @ x`)
  bool HasArg = false, HasFormals = false;
  size_t ArgB = 0, ArgE = 0; ///< Lambda: range of the argument name
  /// Lit of an indented string: the tokens of Nix, and whether they count as indentation.
  std::vector<std::pair<std::string, bool>> Segs;
};

P mk(Kind K, size_t B, size_t E, std::string S = "", std::vector<P> Ch = {});

struct SyntaxError {
  size_t Off;
  std::string Class, Msg;
};

struct ParseResult {
  P Root; ///< null if there is a syntax error
  SyntaxError Err;
  bool ok() const { return Root != nullptr; }
};

/// Parses a whole text as one expression. Errors that Nix reports while parsing
/// but that are not about the grammar (duplicated attributes or formals,
/// dynamic names in let) are not looked for.
ParseResult parse(std::string_view Src);

/// S-expression, for comparison and messages. With ranges if asked.
std::string sexpr(const P &N, bool Ranges = false);

/// First difference of two trees as a message, or empty.
std::string diff(const P &Want, const P &Got, bool Ranges);

struct Token {
  std::string K; ///< "id", "int", "float", "uri", "spath", "path", "hpath", "str", "pathend", keyword or symbol, "eof"
  size_t B, E;
  std::string V; ///< decoded text for str
  std::vector<std::pair<std::string, bool>> Segs = {};
};
/// Tokens of a text, throws SyntaxError for lexical errors.
std::vector<Token> lex(std::string_view Src);

} // namespace ref
