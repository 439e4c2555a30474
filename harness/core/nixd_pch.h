#pragma once
#include "lsp_pch.h"
#include <boost/asio/post.hpp>
#include <boost/asio/thread_pool.hpp>
#include <llvm/Support/CommandLine.h>
#include <nixf/Basic/Nodes/Attrs.h>
#include <nixf/Basic/Nodes/Expr.h>
#include <nixf/Basic/Nodes/Lambda.h>
#include <nixf/Basic/Nodes/Simple.h>
#include <nixf/Sema/ParentMap.h>
#include <nixf/Sema/VariableLookup.h>
#include <nixd/Controller/Controller.h>
