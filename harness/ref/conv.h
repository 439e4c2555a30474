// libnixf's tree as a reference tree, so that both can be compared.
#pragma once
#include "nixf/Basic/Nodes/Attrs.h"
#include "nixf/Basic/Nodes/Expr.h"
#include "nixf/Basic/Nodes/Lambda.h"
#include "nixf/Basic/Nodes/Op.h"
#include "nixf/Basic/Nodes/Simple.h"
#include "ref/refnix.h"

namespace ref {
/// Nullptr (as a node of kind NId named "<missing>") for absent children.
P fromNixf(const nixf::Node *N, std::string_view Src);

/// Numbers in a canonical form, so that values and not spellings are compared.
void canon(const P &N);

/// Has the tree a construct outside the compared language? Says which.
/// - application of a literal (libnixf refuses it by design)
/// - chained pipes (libnixf's own tests pin the opposite associativity)
/// - `0.` and `00.5`, floats by a documented extension
std::string outside(const P &N, std::string_view Src);

/// Every node of the tree, preorder.
void walk(const P &N, const std::function<void(const P &)> &F);
} // namespace ref
