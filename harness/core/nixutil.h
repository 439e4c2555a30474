// Helpers over libnixf used by several properties.
#pragma once
#include "core/pbt.h"
#include <algorithm>
#include "nixf/Basic/Diagnostic.h"
#include "nixf/Basic/Nodes/Attrs.h"
#include "nixf/Basic/Nodes/Expr.h"
#include "nixf/Basic/Nodes/Lambda.h"
#include "nixf/Basic/Nodes/Op.h"
#include "nixf/Basic/Nodes/Simple.h"
#include "nixf/Parse/Parser.h"
#include "nixf/Sema/ParentMap.h"
#include "nixf/Sema/VariableLookup.h"

namespace nu {
using nixf::Diagnostic;
inline bool isError(const Diagnostic &D) {
  auto S = Diagnostic::severity(D.kind());
  return S == Diagnostic::DS_Error || S == Diagnostic::DS_Fatal;
}
/// Errors that are about names, not about the grammar.
inline bool semantic(const Diagnostic &D) {
  switch (D.kind()) {
  case Diagnostic::DK_DuplicatedAttrName: case Diagnostic::DK_DynamicInherit: case Diagnostic::DK_DuplicatedFormal:
  case Diagnostic::DK_DuplicatedFormalToArg: case Diagnostic::DK_LetDynamic: case Diagnostic::DK_UndefinedVariable:
  case Diagnostic::DK_PrimOpUnknown: case Diagnostic::DK_PrimOpNeedsPrefix:
    return true;
  default: return false;
  }
}
inline bool syntaxError(const Diagnostic &D) { return isError(D) && !semantic(D); }

inline std::string rangeStr(nixf::LexerCursorRange R) {
  return std::to_string(R.lCur().offset()) + "-" + std::to_string(R.rCur().offset());
}
inline std::string diagStr(const Diagnostic &D) {
  std::string R = std::string(D.sname()) + "@" + rangeStr(D.range()) + " '" + D.format() + "'";
  for (auto &N : D.notes()) R += " note@" + rangeStr(N.range()) + " '" + N.format() + "'";
  for (auto &F : D.fixes()) {
    R += " fix '" + F.message() + "'";
    for (auto &E : F.edits()) R += " " + rangeStr(E.oldRange()) + "->'" + std::string(E.newText()) + "'";
  }
  return R;
}

/// Every node below N (with N), preorder, with its parent.
inline void walk(const nixf::Node *N, const std::function<void(const nixf::Node *, const nixf::Node *)> &F, const nixf::Node *Up = nullptr) {
  if (!N) return;
  F(N, Up);
  for (auto *C : N->children()) walk(C, F, N);
}

/// Text with the edits of a fix applied (edits must not overlap).
inline std::string applyFix(const std::string &Src, const nixf::Fix &F) {
  std::vector<const nixf::TextEdit *> Es;
  for (auto &E : F.edits()) Es.push_back(&E);
  std::stable_sort(Es.begin(), Es.end(), [](auto *A, auto *B) { return A->oldRange().lCur().offset() < B->oldRange().lCur().offset(); });
  std::string R;
  size_t At = 0;
  for (auto *E : Es) {
    size_t B = E->oldRange().lCur().offset(), En = E->oldRange().rCur().offset();
    if (B < At || En < B || En > Src.size()) return "<bad edits>";
    R += Src.substr(At, B - At);
    R += E->newText();
    At = En;
  }
  return R + Src.substr(At);
}
} // namespace nu
