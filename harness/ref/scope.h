// Reference semantics of names: how attribute sets merge, and which binding a
// variable refers to. Written from the Nix language, on reference trees.
#pragma once
#include "ref/refnix.h"
#include <array>
#include <map>
#include <set>

namespace ref {

struct Set;
struct Attr {
  std::string Name;
  size_t KB = 0, KE = 0;              ///< the key, where it appears first
  enum { Plain, Inh, InhFrom } Kind = Plain;
  P Value;                            ///< Plain: expression (null: implied set). InhFrom: the source expression
  std::shared_ptr<Set> Sub;           ///< the value is a set: its merged attributes
};
struct Dyn {
  P Name;                             ///< NDyn or NStr node
  P Value;
  std::shared_ptr<Set> Sub;
};
struct Set {
  bool Rec = false;
  P Node;                             ///< null for an implied set
  std::map<std::string, Attr> Static;
  std::vector<Dyn> Dynamic;
  bool DynInherit = false;            ///< has `inherit ${x};`
};
struct Dup {
  std::string Name;
  size_t B, E, PrevB, PrevE;
};

/// The static name of an attribute name node, if it is static.
bool staticName(const P &N, std::string &Out);

/// Merged attributes of binds. Duplicates go to Dups (the first definition
/// stays). Nix stops at the first one.
std::shared_ptr<Set> lowerBinds(const std::vector<P> &Binds, bool Rec, const P &Node, std::vector<Dup> &Dups);

/// Global names of Nix: usable without a prefix / only behind `builtins.`.
bool isGlobal(const std::string &N);
bool isPrefixOnly(const std::string &N);
bool isGlobalPrimOp(const std::string &N);
bool isConstant(const std::string &N);

enum class Source { Let, Rec, Arg, FormalNoArg, FormalWithArg, ArgWithFormals, With };

struct Def {
  std::string Name;
  size_t B, E; ///< range of the key, or of the `with` keyword
  Source Src;
  std::vector<size_t> Uses; ///< indexes into Scopes::Vars
  bool FromBuiltins = false; ///< inherited from `builtins`
  size_t Scope = 0;          ///< which scope it belongs to
  P At;                      ///< Let/Rec/Lambda/With node
};
struct VarUse {
  std::string Name;
  size_t B, E;
  enum { Undefined, Builtin, Defined, FromWith } Kind = Undefined;
  int Def = -1;            ///< Defined: index into Defs
  std::vector<int> Withs;  ///< FromWith: innermost first
  bool Inherited = false;  ///< names an `inherit x;`
  std::map<std::string, int> Env; ///< visible lexical names (only if asked)
};
struct ScopeInfo {
  size_t B, E;            ///< range of the scope's node
  enum { Let, Rec, Lambda, With, LegacyLet } Kind;
  size_t RecB = 0, RecE = 0;
  std::vector<int> Defs;
};
struct Scopes {
  std::vector<Def> Defs;
  std::vector<VarUse> Vars;
  std::vector<ScopeInfo> Of;
  std::vector<Dup> Dups;
  std::vector<std::array<size_t, 4>> DupFormals; ///< B E PrevB PrevE
  std::vector<std::array<size_t, 4>> DupArgs;
  std::vector<std::pair<size_t, size_t>> DynInherit, LetDyn;
  bool anyError() const { return !Dups.empty() || !DupFormals.empty() || !DupArgs.empty() || !DynInherit.empty() || !LetDyn.empty(); }
};

Scopes resolve(const P &Root, std::string_view Src, bool WithEnv = false);
} // namespace ref
