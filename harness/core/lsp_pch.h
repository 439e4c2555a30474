#pragma once
#include <llvm/ADT/StringRef.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/FormatVariadic.h>
#include <llvm/Support/Error.h>
#include <llvm/ADT/FunctionExtras.h>
#include <map>
#include <string>
#include <vector>
#include <functional>
#include <optional>
#include <mutex>
#include <lspserver/LSPServer.h>
#include <lspserver/Protocol.h>
