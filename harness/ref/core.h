// A normal form of Nix programs that depends only on what they mean: names
// resolved, `let` and `rec` unfolded, attribute sets merged, parentheses and
// spelling gone. Two programs with the same normal form evaluate alike. Used as
// the oracle for edits that have to preserve the meaning of a program.
#pragma once
#include "ref/refnix.h"
#include <map>
#include <optional>

namespace ref {
struct CoreOpts {
  size_t MaxSize = 60000;
  /// Contents of files that `import ./path` may refer to.
  std::map<std::string, P> Files;
  /// Names under several `with` come from the innermost one.
  bool InnermostWith = false;
};
/// Nullopt if the form is too big.
std::optional<std::string> core(const P &Root, const CoreOpts &O = {});
/// Parses too. Nullopt for syntax errors and big forms.
std::optional<std::string> coreOf(std::string_view Src, const CoreOpts &O = {});
} // namespace ref
