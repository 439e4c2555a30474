"""The properties, and what each check of one runs. meta.py writes
properties.jsonl, bin/checks.json and MANIFEST.json from this."""

P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None,
         tech="", note="", more=None, fuzz=None, tools=None, assume=None, limit=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, state=state or [], observe=observe or [], tech=tech, note=note,
                  more=more or [], fuzz=fuzz or [], tools=tools or [], assume=assume or [], limit=limit))


L = "libnixf/src/"
PARSE = [L + "Parse/Lexer.cpp", L + "Parse/ParseExpr.cpp", L + "Parse/ParseOp.cpp",
         L + "Parse/ParseAttrs.cpp", L + "Parse/ParseSimple.cpp", L + "Parse/ParseStrings.cpp", L + "Parse/ParseSupport.cpp",
         L + "Parse/ParseLambda.cpp"]

prop("C01", "Analysis terminates cleanly on every text",
     "For every text, parsing and every later analysis of it (lowering, name resolution, parent links, position queries) returns without "
     "crashing, hanging, reading outside the text, breaking an internal assertion or taking time out of proportion to the text. "
     "Running the same analysis twice gives the same tree and diagnostics.",
     ["inputs"], "every byte string: valid programs, truncated and damaged ones, token soups, arbitrary bytes, deep nesting",
     "The unit tests parse about two hundred fixed snippets; an editor sends every half-typed intermediate text, so error recovery must be total.",
     PARSE + [L + "Sema/ParentMap.cpp", L + "Sema/SemaActions.cpp", L + "Sema/VariableLookup.cpp"],
     [{"name": "error recovery", "where": L + "Parse/ParseSupport.cpp"}, {"name": "lexer state stack", "where": L + "Parse/Lexer.cpp"}],
     tech="grammar-based and mutational random generation plus coverage-guided fuzzing (libFuzzer) under ASan/UBSan with assertions on",
     note="random derivations, damage, soups, nesting and growth families; each text is analysed twice and compared; time is bounded relative to size",
     fuzz=[{"target": "fuzz_parse", "quick_s": 12, "thorough_s": 900, "max_len": 400}])

prop("C02", "Valid Nix is accepted and parsed with Nix's structure",
     "A text that the Nix grammar accepts is parsed without any error, and the tree has the structure that grammar gives it: the same constructs, "
     "operator precedence and associativity, operands, attribute paths, formals and interpolations.",
     ["programs"], "every program derivable from the Nix expression grammar, with any blanks and comments between tokens",
     "Tests fix a few trees; precedence and token adjacency combine without bound.",
     PARSE, [{"name": "recursive descent and Pratt operator parser", "where": L + "Parse/ParseOp.cpp"}, {"name": "contextual lexer", "where": L + "Parse/Lexer.cpp"}],
     tech="differential testing: random grammar derivations and operator chains against an independent reference parser",
     note="structural equality with a hand-written recursive-descent parser of the documented grammar; pipes only where the pinned associativity agrees",
     assume=["mixed chains of the experimental pipe operators are outside: the repository's tests pin their grouping"])

prop("C03", "Literals decode to the value Nix gives them",
     "A string, indented string, number, path, search path or URI literal denotes exactly the value Nix gives it: escapes, dollar signs, quotes, interpolations, "
     "integer and floating-point values are decoded exactly, and the literal spans exactly its text.",
     ["inputs"], "every literal of each kind, with every escape and split into parts",
     "Tests decode about forty literals; the escape states of the two string kinds interact for every character sequence.",
     [L + "Parse/ParseStrings.cpp", L + "Parse/Lexer.cpp", L + "Parse/ParseSimple.cpp"],
     [{"name": "string lexing", "where": L + "Parse/Lexer.cpp (lexString, lexIndString)"}, {"name": "number parsing", "where": L + "Parse/ParseSimple.cpp"}],
     tech="round-trip testing: random values are encoded by an independent encoder and the parsed literal compared with the value",
     note="every literal kind; encoder picks random spellings of each character")

prop("C04", "Every node's range is exact and positions map to the right node",
     "Every node of a tree lies inside its parent, siblings do not overlap, offsets, lines and columns agree with the text, and on valid text a node spans exactly its first to last token. "
     "The smallest node at a position and the parent of a node are what this nesting says.",
     ["inputs"], "every text (nesting, bounds, line/column) and every valid program (exact spans)",
     "Tests check a few ranges on one-line inputs; every editor feature maps cursor positions through these ranges.",
     PARSE + ["libnixf/include/nixf/Basic/Range.h", "libnixf/src/Sema/ParentMap.cpp", "libnixf/include/nixf/Basic/Nodes/Basic.h"],
     [{"name": "cursor arithmetic", "where": L + "Parse/Lexer.cpp (consume)"}, {"name": "descend", "where": "libnixf/src/Basic/Nodes.cpp"},
      {"name": "parent map", "where": L + "Sema/ParentMap.cpp"}],
     tech="differential and invariant testing over random texts: spans against a reference parser, nesting and queries against brute force",
     note="multi-line texts with comments, carriage returns and Unicode")

prop("C05", "Every syntax error is reported",
     "A text that is not a Nix expression always gets at least one error; it is never silently accepted or silently repaired.",
     ["inputs"], "every text outside the Nix grammar",
     "Tests list some fifty broken inputs; what error recovery swallows silently shows only on inputs nobody wrote down.",
     PARSE, [{"name": "diagnostics at recovery", "where": L + "Parse/ParseSupport.cpp"}, {"name": "non-associative operators", "where": L + "Parse/ParseOp.cpp"}],
     tech="differential testing of damaged programs and token/byte soups against an independent strict parser",
     note="any error-severity diagnostic counts; texts on which the reference is deliberately lenient are skipped",
     assume=["`a ?` without a path is a recorded known finding"])

prop("C06", "Diagnostics are well-formed and their fixes are right",
     "Every diagnostic points inside the text, is reported once, formats to a message with all its arguments, and its edits are inside the text and do not overlap. "
     "Applying a fix offered for a warning keeps the meaning of the program and removes that warning, and applying a fix for a one-token syntax fault or rejected construct does not add errors.",
     ["inputs", "programs"], "every text; every program for which a warning offers an edit",
     "Tests apply no fix to anything; a fix is correct only if it is correct in every context (joined tokens, parentheses, shadowing, inherit).",
     PARSE + [L + "Sema/VariableLookup.cpp", L + "Sema/SemaActions.cpp", "libnixf/src/Basic/diagnostic.py", "libnixf/include/nixf/Basic/Diagnostic.h"],
     [{"name": "fix-its", "where": "libnixf/include/nixf/Basic/Diagnostic.h"}],
     tech="metamorphic testing: each offered edit is applied to random programs and the result compared in a meaning-only normal form",
     note="normal form from an independent parser that unfolds let/rec, merges sets and resolves names")

prop("C07", "Attribute sets merge and clash exactly as in Nix",
     "The bindings of a set, let or rec set, with nested paths, repeated sets and inherits, are merged into the sets Nix builds from them, and exactly the definitions Nix rejects "
     "as duplicates (or dynamic attributes where forbidden) are reported, each against the earlier definition.",
     ["programs"], "every combination of binding forms over shared names, in any order and nesting",
     "Tests cover a dozen orders of two or three bindings; merging depends on the whole sequence.",
     [L + "Sema/SemaActions.cpp", "libnixf/include/nixf/Basic/Nodes/Attrs.h"],
     [{"name": "lowering of bindings", "where": L + "Sema/SemaActions.cpp"}], [{"name": "static and dynamic attributes", "meaning": "the merged set", "where": "libnixf/include/nixf/Basic/Nodes/Attrs.h (SemaAttrs)"}],
     tech="model-based testing of random binding sequences against a reference model of Nix's merge rules",
     note="names are drawn from a small pool so that paths collide often")

prop("C08", "Names resolve as in Nix",
     "Every name use resolves to the definition Nix would use (innermost let, rec, function argument or formal first, then builtins, then enclosing withs, innermost first), every definition lists exactly its uses, "
     "and the names and withs reported in scope at a node are those Nix has there.",
     ["programs"], "every nesting of scopes, shadowing, inherit and with",
     "Tests resolve about thirty fixed programs; scoping must hold for every nesting and for every definition and use.",
     [L + "Sema/VariableLookup.cpp", "libnixf/include/nixf/Sema/VariableLookup.h"],
     [{"name": "environment chain", "where": L + "Sema/VariableLookup.cpp (EnvNode)"}],
     tech="model-based testing of random scoped programs against a reference resolver",
     note="every variable, definition, with and environment of each program is compared")

prop("C09", "Name diagnostics are exact",
     "Undefined names, unused definitions, formals and withs, needless rec sets, overridden builtins, and misspelt, missing or superfluous builtin prefixes are reported exactly where Nix's scoping says so: "
     "never on a name that is defined or used, and never missed on one that is not.",
     ["programs"], "every program over user names and builtins",
     "Tests pin some forty snippets; an unused-name warning is right only with respect to all uses in all scopes.",
     [L + "Sema/VariableLookup.cpp", "libnixf/include/nixf/Sema/VariableLookup.h", "libnixf/include/nixf/Sema/PrimOpInfo.h"],
     [{"name": "liveness and undefined-name diagnosis", "where": L + "Sema/VariableLookup.cpp"}],
     tech="model-based testing: the exact set of diagnostics of random programs against a reference model",
     note="set equality of (kind, range) over each program")

S = "nixd/lspserver/src/"
I = "nixd/lspserver/include/lspserver/"

prop("C11", "The server's copy of a document always equals the editor's",
     "After any sequence of opens, full and incremental changes and closes, the stored text of every document is exactly the editor's, byte for byte, counted in UTF-16 units, "
     "and its version grows with every change; concurrent readers see one complete state. "
     "A change that does not fit the text is rejected and leaves text and version alone; positions and offsets convert back and forth exactly.",
     ["histories", "inputs"], "every sequence of LSP document events over any Unicode text and any line endings",
     "Not one test applies a sequence of edits; a single wrong unit desynchronises every later answer.",
     [S + "DraftStore.cpp", S + "SourceCode.cpp", I + "DraftStore.h", I + "SourceCode.h"],
     [{"name": "incremental edits", "where": S + "SourceCode.cpp (applyChange)"}, {"name": "UTF-16 columns", "where": S + "SourceCode.cpp (iterateCodepoints, positionToOffset)"},
      {"name": "draft store lock and versions", "where": S + "DraftStore.cpp"}],
     [{"name": "draft", "meaning": "text and version of an open document", "where": I + "DraftStore.h"}],
     tech="stateful model-based testing against a UTF-16 reference editor, plus threads that read while others write",
     note="random edit histories over Unicode texts; offsets and positions against a brute-force reference; invalid UTF-8 for robustness",
     assume=["a position beyond the end of a line may be clamped (LSP) or rejected"])

prop("C12", "File paths and URIs convert back and forth without loss",
     "Every absolute path becomes a valid percent-encoded file URI that resolves to the same path, every spelling of such a URI resolves to one path, and parsing and printing a URI agree. "
     "A text that is not a URI is rejected without crashing.",
     ["inputs"], "every absolute path of any bytes; every URI spelling; every text",
     "A file name with a space, percent sign, colon or non-ASCII letter must reach the same document every time; tests cover none.",
     [S + "URI.cpp", I + "URI.h", S + "Protocol.cpp"],
     [{"name": "percent coding", "where": S + "URI.cpp (percentEncode, percentDecode)"}, {"name": "file scheme", "where": S + "URI.cpp (FileSystemScheme)"}],
     tech="round-trip and metamorphic testing of random paths and URI spellings against a reference of RFC 3986",
     note="any byte in paths; alternative percent spellings; arbitrary texts for rejection")

prop("C13", "Messages are framed and read exactly, whatever the pipe does",
     "Every well-formed message in the input is delivered exactly once, in order and unaltered, however the stream is cut, interrupted or ended; everything written is one valid, complete frame per message even when many threads write. "
     "A malformed header or body never crashes, hangs or corrupts later messages.",
     ["fault_sequences", "inputs", "schedules"], "every stream of messages, every split into reads and interruption, every damage, every thread interleaving of writers",
     "Tests feed whole files; a real pipe delivers arbitrary fragments and EINTR.",
     [S + "Connection.cpp", I + "Connection.h"],
     [{"name": "inbound frames", "where": S + "Connection.cpp (InboundPort)"}, {"name": "outbound lock", "where": S + "Connection.cpp (OutboundPort)"}],
     tech="round-trip testing with injected faults: random message streams through pipes cut at random points with interrupting signals",
     note="reference frame reader; delimited and lit-test modes; stress of concurrent writers",
     assume=["strings whose JSON escapes LLVM itself decodes wrongly (surrogate pairs beyond plane 1) are outside"])

prop("C14", "Every request gets exactly one answer, to the right caller",
     "Each request received is answered exactly once with its own id, by a result or an error, including unknown methods and malformed parameters; notifications are never answered. "
     "Each reply from the peer reaches exactly the callback of the call with that id, once; stray, duplicate and malformed replies change nothing.",
     ["histories", "schedules"], "every sequence of requests, notifications, replies and outgoing calls, in any order and from any thread",
     "An unanswered request blocks the editor and a misrouted reply corrupts state; tests run one request at a time.",
     [S + "LSPServer.cpp", I + "LSPServer.h", I + "LSPBinder.h"],
     [{"name": "dispatch", "where": S + "LSPServer.cpp (onCall, onNotify, onReply)"}, {"name": "pending calls", "where": S + "LSPServer.cpp (bindReply)"},
      {"name": "method registry", "where": I + "LSPBinder.h"}],
     [{"name": "PendingCalls", "meaning": "outgoing calls awaiting a reply", "where": I + "LSPServer.h"}],
     tech="stateful model-based testing of random message histories against a model of the dispatcher, and stress with threads",
     note="the model predicts every frame written and every callback made")

prop("C15", "Protocol messages are read and written without loss",
     "Every protocol structure the server exchanges is written as JSON that reads back equal, and parameters written as the LSP specification allows are read with exactly the values sent, optional fields and alternatives included. "
     "Malformed JSON parameters are rejected without crashing.",
     ["inputs"], "every value of each protocol structure; every JSON value as parameters",
     "Hundreds of fields are mapped by hand; a field read under the wrong name or left uninitialised shows only on messages that carry it.",
     [S + "Protocol.cpp", I + "Protocol.h", "nixd/lib/Protocol/AttrSet.cpp", "nixd/lib/Protocol/Protocol.cpp"],
     [{"name": "JSON mapping", "where": S + "Protocol.cpp (fromJSON, toJSON)"}, {"name": "worker protocol", "where": "nixd/lib/Protocol/AttrSet.cpp"}],
     tech="round-trip testing of random values of each structure and mutation of their JSON",
     note="generated from the LSP text, independent of the C++ structures; damage at every place of the JSON")

N = "nixd/lib/"
CT = N + "Controller/"

prop("C17", "Navigation agrees with Nix's scoping",
     "At every name of a document, go-to-definition leads exactly to the place Nix binds it (or to a `with` it may come from, or nowhere), "
     "and references and highlights list every use of the same binding and nothing else, wherever in the name the cursor is. "
     "All ranges are exact in UTF-16 units.",
     ["programs"], "every program with let, rec, lambdas, formals, inherit, with and merged sets; every cursor position on a name",
     "The server tests hold about thirty one-line documents; shadowing, quoting, merging and wide characters combine freely.",
     [CT + "Definition.cpp", CT + "FindReferences.cpp", CT + "DocumentHighlight.cpp", CT + "AST.cpp", CT + "Convert.cpp", L + "Sema/VariableLookup.cpp", L + "Basic/Nodes.cpp"],
     [{"name": "definition", "where": CT + "Definition.cpp"}, {"name": "references", "where": CT + "FindReferences.cpp"}, {"name": "descend", "where": L + "Basic/Nodes.cpp"}],
     tech="differential testing: random scoped programs in the running server, every name queried and compared with a reference model of Nix scoping",
     note="whole server in process over pipes; cursor at the start, inside and at the end of each name")

prop("C18", "Rename changes exactly one binding and keeps the meaning",
     "Renaming any renameable binding to a fresh name edits exactly its definition and uses, so that the program means the same up to that name, stays valid, and renaming back restores the text. "
     "Prepare-rename agrees with rename, and a name that cannot be renamed safely is refused instead of being damaged.",
     ["programs"], "every program with lexical bindings; every name and cursor position; plain and quoted new names",
     "A rename edits many places at once; inherit, quoted names, merged sets and shadowing need different edits, and tests try a handful.",
     [CT + "Rename.cpp", CT + "Definition.cpp", CT + "FindReferences.cpp"],
     [{"name": "edits of a rename", "where": CT + "Rename.cpp"}],
     tech="metamorphic testing: the edit is applied to random programs and the result compared in a meaning-only normal form and by its scopes",
     note="normal form by an independent parser and resolver; the rename is also undone")

prop("C26", "A failing evaluator never takes the server down",
     "Whatever the evaluation workers do - are missing, die at any call, answer garbage, errors or slowly - the server keeps running, answers every request, "
     "and all answers that need no evaluator stay right. It also shuts down cleanly.",
     ["fault_sequences"], "every fault (missing, dead at start, dying, garbage, wrong answers, errors) at every call of the worker protocol, in every order with requests",
     "The tests never let a worker fail, yet evaluating user configuration fails all the time.",
     [N + "Eval/AttrSetClient.cpp", N + "Eval/Launch.cpp", N + "Support/StreamProc.cpp", CT + "LifeTime.cpp", CT + "Configuration.cpp"],
     [{"name": "worker processes", "where": N + "Eval/Launch.cpp"}, {"name": "callbacks of a dead worker", "where": N + "Eval/AttrSetClient.cpp"}],
     tech="random fault injection: a scripted worker speaks the worker protocol and fails at a chosen call while random requests run",
     note="both the real nixd binary with worker processes and the controller in process; liveness, answers and exit status are checked",
     tools=["asan/nixd"])

prop("C27", "The server survives every document and every request",
     "For every document and every sequence of requests about it, at any position or range, each request is answered and the server neither crashes, hangs nor breaks an internal assertion.",
     ["inputs", "histories"], "every text, half-typed and damaged ones included; every request with any position, in or out of the text; many requests in flight",
     "An editor sends requests at every keystroke on half-typed text; tests ask one question about valid text.",
     [CT + f for f in ["Completion.cpp", "Hover.cpp", "Definition.cpp", "CodeAction.cpp", "DocumentSymbol.cpp", "SemanticTokens.cpp", "InlayHints.cpp", "FoldingRange.cpp", "Rename.cpp", "TextDocumentSync.cpp", "Configuration.cpp"]],
     [{"name": "request handlers", "where": CT}],
     tech="random stateful testing of the running server under ASan/UBSan with assertions on",
     note="valid programs, damaged texts and mixes of the idioms that providers and code actions look for; wild positions and names")

prop("C16", "Answers and diagnostics depend only on the current text",
     "Whatever the history of opens, changes and closes, of requests in flight and of configuration changes, every document's published diagnostics and all answers about it "
     "equal those of a fresh document with the same text. A closed document has no diagnostics and no answers.",
     ["histories", "schedules"], "every history of document events, requests and configuration changes over several documents, under any timing",
     "Tests open one document and never change it; stale trees, drafts and diagnostics only show after a history.",
     [CT + "TextDocumentSync.cpp", CT + "Support.cpp", CT + "Diagnostics.cpp", CT + "Configuration.cpp", CT + "NixTU.cpp", S + "DraftStore.cpp"],
     [{"name": "translation units and their lock", "where": CT + "Support.cpp (actOnDocumentAdd)"}, {"name": "suppressed kinds", "where": CT + "Diagnostics.cpp"}],
     tech="stateful metamorphic testing: random histories compared with a fresh document; changes race with configuration updates",
     note="three documents, eight server workers; batched incremental edits with UTF-16 ranges; races are confirmed by repetition",
     assume=["two configuration changes at once are not ordered by the server; the check waits for one before the next"])

prop("C19", "Outline, folds, highlighting and hints are exact",
     "Semantic tokens are sorted, do not overlap and mark exactly the names and strings of the text with the kind Nix's scoping gives them; document symbols list exactly the document's "
     "attributes, values and functions with names and consistent ranges; folding ranges are exactly its multi-line constructs. "
     "Inlay hints stand exactly at the packages that come from `with pkgs`, inside the requested range.",
     ["programs"], "every valid program over any lines and characters; every requested range",
     "Each feature walks the whole tree with cases per construct; tests show one snippet for each.",
     [CT + "SemanticTokens.cpp", CT + "DocumentSymbol.cpp", CT + "FoldingRange.cpp", CT + "InlayHints.cpp", CT + "AST.cpp", CT + "Convert.cpp"],
     [{"name": "token encoding", "where": CT + "SemanticTokens.cpp"}, {"name": "outline", "where": CT + "DocumentSymbol.cpp"}],
     tech="differential testing: answers of the running server about random programs against models on an independent parse",
     note="tokens inside interpolations of strings, inherits and formals' defaults are optional; merged sets show each name where it stands first")

prop("C20", "Completion offers exactly what can be written at the cursor",
     "At a variable, completion offers exactly the visible names, each once, and the packages that `with` provides there; after a dot the members of the selected package set; "
     "at an attribute name the options under its path. Every item begins with what is typed, replaces exactly the typed name by valid Nix meaning that name, and longer lists are cut at the limit and marked incomplete.",
     ["programs", "inputs"], "every program and every cursor on a name; every set of names, options and values the providers may answer",
     "Shadowing, names that need quotes, snippets, limits and several providers combine; tests show one item for each.",
     [CT + "Completion.cpp", CT + "AST.cpp", CT + "CodeActions/Utils.cpp", N + "Protocol/AttrSet.cpp"],
     [{"name": "items", "where": CT + "Completion.cpp"}, {"name": "idioms and option paths", "where": CT + "AST.cpp"}],
     tech="differential testing: completion lists of the running server with scripted providers against a model of scoping, idioms and option paths",
     note="half-typed names, trailing dots, snippets and plain text; items resolved in full; texts of items parsed by an independent parser")

prop("C29", "Hover and definition ask the providers for the right path",
     "Hover and go-to-definition on `pkgs`, `lib`, names from `with` and selections of them show what the package provider knows of exactly that path, and nothing else; "
     "on attribute names they show what the option providers know of the option that nested and dotted names spell. Where no provider knows, there is no hover and no foreign location.",
     ["programs", "configurations"], "every program and every name; every shape of provider answers, of one or several providers",
     "The path depends on nesting, with, shadowing and dots; tests show a few fixed one-line programs with a real evaluator.",
     [CT + "Hover.cpp", CT + "Definition.cpp", CT + "AST.cpp", N + "Protocol/AttrSet.cpp"],
     [{"name": "idioms and option paths", "where": CT + "AST.cpp"}, {"name": "locations", "where": CT + "Definition.cpp"}],
     tech="differential testing: answers of the running server with scripted providers against a model of paths on an independent parse",
     note="lines of package positions are taken as the server's tests have them (not shifted)")

prop("C21", "Refactorings of sets and names keep the meaning",
     "Every offered action that quotes or unquotes an attribute name, converts to or from `inherit`, flattens a nested set or packs dotted paths rewrites a valid program into a valid program of the same meaning. "
     "Plain cases are offered. The documented exception is `x = x;` in a recursive set, which becomes `inherit x;`.",
     ["programs"], "every program and every place where such an action is offered",
     "Merged, recursive, dynamic, quoted and inherited attributes combine; the tests compare the text of one small edit each.",
     [CT + "CodeActions/AttrName.cpp", CT + "CodeActions/ConvertToInherit.cpp", CT + "CodeActions/InheritToBinding.cpp", CT + "CodeActions/FlattenAttrs.cpp", CT + "CodeActions/PackAttrs.cpp", CT + "CodeActions/Utils.cpp"],
     [{"name": "edits", "where": CT + "CodeActions/"}],
     tech="metamorphic testing: every offered action of the running server is applied, and the program before and after compared in a normal form of meaning",
     note="the normal form resolves names, flattens and merges sets, and does not evaluate; programs too large for it are skipped")

prop("C22", "Conversions of string syntax keep the value",
     "At every string literal that is an expression, the action to convert it to the other syntax is offered, once, and rewrites exactly that literal to the other syntax with the same value: "
     "the same text after escapes, line ends and indentation, and the same interpolations.",
     ["programs", "inputs"], "every string literal, in every context",
     "Escapes, dollars, quotes, indentation and neighbours interact; the tests convert a few short strings.",
     [CT + "CodeActions/RewriteString.cpp", CT + "CodeActions/Utils.cpp", L + "Parse/ParseStrings.cpp"],
     [{"name": "escapes and indentation", "where": CT + "CodeActions/RewriteString.cpp"}],
     tech="metamorphic testing: the offered conversion is applied, and the program compared by an independent implementation of Nix's string rules",
     note="literals of up to 70 pieces, nested through interpolations, mixed from everything that is special in either syntax")

prop("C23", "Actions about names and scopes keep the meaning",
     "Converting `with` to `let inherit` and extracting an expression to a new file (read back through `import`) leave a valid program with the same meaning; adding an undefined name to the formals makes exactly that name an argument of the innermost function. "
     "Plain cases are offered, and nothing is offered where it does not apply. As documented, a name under several `with` is taken to come from the innermost.",
     ["programs"], "every program and every place where such an action is offered",
     "Shadowing, merging, precedence, `with` and neighbouring tokens interact; tests check a few titles and short texts.",
     [CT + "CodeActions/WithToLet.cpp", CT + "CodeActions/ExtractToFile.cpp", CT + "CodeActions/AddToFormals.cpp", L + "Sema/VariableLookup.cpp"],
     [{"name": "free variables", "where": CT + "CodeActions/ExtractToFile.cpp"}, {"name": "with scopes", "where": CT + "CodeActions/WithToLet.cpp"}],
     tech="metamorphic testing: every offered action is applied, with the new files, and the program before and after compared in a normal form of meaning",
     note="the new file is inlined where it is imported; names that two `with` may give cannot be extracted and are refused")

prop("C24", "JSON converts to the same value in Nix",
     "Selecting a JSON array or object, anywhere in a document, and applying the offered conversion replaces exactly the selection with a Nix expression of the same value: the same strings, numbers, keys and order of elements. "
     "It is offered for every JSON array or object that is not empty, not extremely deep or wide, and that Nix can represent, and never for a selection that is not JSON.",
     ["inputs"], "every selection in every text",
     "Exponents, huge and negative numbers, escapes, keywords as keys and dollars interact with Nix's lexer; the tests convert a few short documents.",
     [CT + "CodeActions/JsonToNix.cpp", CT + "CodeActions/Utils.cpp"],
     [{"name": "numbers, strings and keys", "where": CT + "CodeActions/JsonToNix.cpp"}],
     tech="round-trip testing: random JSON values, written in every way, are converted by the running server, and the Nix text is read back with an independent parser",
     note="lone surrogates and duplicated keys are not generated; nesting up to 300 levels in Nix itself, and up to 300000 in comments")

prop("C25", "Diagnostics and configuration reach the client as decided",
     "What is published for a document is what the analysis finds in its text: every diagnostic that the configuration does not suppress, in order, with its range, severity, code, message, tags, notes and fixes. "
     "Quick fixes carry the analysis' edits, a documentation link leads to the selected name, and options, packages and suppressions come from the command line at first and then from the client's latest configuration. "
     "A malformed configuration is reported and changes nothing.",
     ["configurations", "inputs"], "every document, with every configuration given at the start or changed later",
     "Tests use a few fixed configurations and one diagnostic at a time; suppression, relations, tags, character counts and the order of updates combine.",
     [CT + "Diagnostics.cpp", CT + "Configuration.cpp", CT + "LifeTime.cpp", CT + "CodeAction.cpp", CT + "CodeActions/NoogleDoc.cpp"],
     [{"name": "conversion of diagnostics", "where": CT + "Diagnostics.cpp"}, {"name": "configuration", "where": CT + "Configuration.cpp"}],
     tech="differential testing of the running server against the analysis library under random configurations, with a stand-in evaluator that logs what it is asked",
     note="the analysis itself is checked by C01-C09", tools=["asan/nixd"],
     assume=["the stand-in evaluator replaces the one that links Nix"])

prop("C28", "Paths lead to the files that Nix would read",
     "A path in a document is a link, and go-to-definition on it leads, to exactly the file that Nix reads for it: resolved from the document's directory, with `..` removed by its text and a directory standing for its default.nix. "
     "Nothing is linked when there is no such file or when the path is computed, looked up or in the home directory.",
     ["inputs", "configurations"], "every path literal in every document, over every tree of files, directories and symbolic links",
     "Links, dots, missing files and nested expressions combine; the tests resolve two or three plain paths.",
     [CT + "DocumentLink.cpp", CT + "Definition.cpp", CT + "PathResolve.h"],
     [{"name": "path resolution", "where": CT + "PathResolve.h"}],
     tech="model-based testing over random directory trees and documents: the running server's links and definitions against an independent resolver",
     note="files do not change while a document is asked about")

prop("C30", "Formatting gives the formatter's output",
     "When the configured formatter succeeds, the edits turn the document's current text into exactly what the formatter prints for it; when it fails, is missing or prints invalid text, the client gets an error and the document stays. "
     "This holds whatever order the formatter reads, prints and ends in and however many run at once, and leaves no process or descriptor behind.",
     ["schedules", "fault_sequences", "inputs"], "every text, every formatter command and every way of reading, writing and ending, with several at a time",
     "The tests run one formatter on one text; pipes fill, formatters stop reading, die or do not start, and requests overlap.",
     [CT + "Format.cpp", N + "Support/ForkPiped.cpp", "nixd/include/nixd/Support/ForkPiped.h"],
     [{"name": "pipes of the formatter", "where": N + "Support/ForkPiped.cpp"}],
     observe=["edits or error of each request", "open descriptors and child processes"],
     tech="stateful property-based testing of the running server with random formatters made of pieces of shell, against a model of what each prints",
     note="a formatter that never ends is not generated")

prop("C31", "The server starts, serves what it offers and ends cleanly",
     "Before initialization every request is refused; after it the server serves exactly what it advertised, as set by the command line, and runs one worker per provider. "
     "After exit, the end of input or the death of the client, whatever is in flight, it answers every request it has read, ends with a clean status within bounded time and leaves no process behind.",
     ["histories", "crash_points", "fault_sequences", "schedules"], "every history of messages, cut off anywhere, with workers that answer, stall, fail or never answer",
     "Tests end each session at rest with healthy workers; editors kill servers at any moment, while evaluations run.",
     [CT + "LifeTime.cpp", CT + "Support.cpp", N + "Eval/AttrSetClient.cpp", "nixd/lspserver/src/LSPServer.cpp", "nixd/lspserver/src/Connection.cpp", "nixd/tools/nixd.cpp"],
     [{"name": "life cycle", "where": CT + "LifeTime.cpp"}, {"name": "workers", "where": N + "Eval/AttrSetClient.cpp"}],
     observe=["output frames", "exit status and time", "processes of the server's session"],
     tech="stateful testing of the server process with random histories, worker faults and ways to end, against a model of the life cycle; shrunk histories are replayed",
     note="exit without shutdown ends with status 0, as the repository's tests expect; when the client has died or closed the output, answers are not counted", tools=["asan/nixd"],
     assume=["the stand-in evaluator replaces the one that links Nix", "workers that never answer are waited for up to 10 s at the end"])

prop("C10", "nixf-tidy prints the diagnostics as JSON",
     "For every input, of any bytes and size, nixf-tidy ends with status 0 and prints one JSON array that holds exactly the library's diagnostics, in order, with their kinds, severities, arguments, tags, positions, notes and fixes. "
     "Diagnostics about names are there exactly when they are asked for, and pretty printing changes nothing but blanks.",
     ["inputs", "configurations"], "every byte string and every set of arguments",
     "Names of any bytes, many diagnostics and input in pieces occur in CI use; no test runs the tool.",
     ["libnixf/tools/nixf-tidy.cpp", L + "Basic/JSONDiagnostic.cpp", L + "Basic/Diagnostic.cpp"],
     [{"name": "JSON of diagnostics", "where": L + "Basic/JSONDiagnostic.cpp"}],
     tech="differential testing of the tool, run as a process on random texts, against the diagnostics of the library",
     note="bytes that are not UTF-8 may be replaced in the output; the diagnostics themselves are checked by C05-C07 and C09", tools=["asan/nixf-tidy"])
