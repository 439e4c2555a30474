// USES: nixd
#include "core/jsongen.h"
#include <lspserver/Protocol.h>
#include <nixd/Protocol/AttrSet.h>
#include <nixd/Protocol/Protocol.h>
using namespace pbt;
using namespace lspserver;
using namespace llvm::json;

namespace {
// Generators of LSP JSON, from the protocol's text.
int64_t uint(Src &S) { return S.chance(85) ? (int64_t)S.below(40) : S.pick<int64_t>({0, 65536, 2147483647}); }
std::string str(Src &S) { return S.chance(10) ? "" : jg::str(S, 6); }
Value uri(Src &S) { return S.pick({std::string("file:///"), std::string("file:///a/b.nix"), std::string("file:///c%20d"), std::string("file:///%C3%A9.nix")}); }
Value pos(Src &S) { return Object{{"line", uint(S)}, {"character", uint(S)}}; }
Value range(Src &S) { return Object{{"start", pos(S)}, {"end", pos(S)}}; }
Value loc(Src &S) { return Object{{"uri", uri(S)}, {"range", range(S)}}; }
bool opt(Src &S) { return S.chance(55); }
Value list(Src &S, Value (*G)(Src &)) {
  Array A;
  for (unsigned N = S.small(3); N; --N) A.push_back(G(S));
  return A;
}
Value text(Src &S) { return str(S); }
std::string nonEmpty(Src &S) { return "x" + str(S); }
Value edit(Src &S) {
  Object O{{"range", range(S)}, {"newText", str(S)}};
  if (S.chance(20)) O["annotationId"] = nonEmpty(S);
  return O;
}
Value doc(Src &S) { return Object{{"uri", uri(S)}}; }
Value vdoc(Src &S) {
  Object O{{"uri", uri(S)}};
  if (opt(S)) O["version"] = S.chance(80) ? uint(S) : S.pick<int64_t>({-1, INT64_MAX, 4294967296ll});
  return O;
}
void flags(Src &S, Object &O, std::initializer_list<const char *> Names) {
  if (!opt(S)) return;
  Object P;
  for (auto N : Names) if (opt(S)) P[N] = S.chance(50);
  O["options"] = std::move(P);
}
Value change(Src &S) {
  switch (S.weighted({4, 2, 2, 2})) {
  case 0: return Object{{"textDocument", vdoc(S)}, {"edits", list(S, edit)}};
  case 1: { Object O{{"kind", "create"}, {"uri", uri(S)}}; flags(S, O, {"overwrite", "ignoreIfExists"}); if (S.chance(20)) O["annotationId"] = str(S); return O; }
  case 2: { Object O{{"kind", "rename"}, {"oldUri", uri(S)}, {"newUri", uri(S)}}; flags(S, O, {"overwrite", "ignoreIfExists"}); if (S.chance(20)) O["annotationId"] = str(S); return O; }
  default: { Object O{{"kind", "delete"}, {"uri", uri(S)}}; flags(S, O, {"recursive", "ignoreIfNotExists"}); if (S.chance(20)) O["annotationId"] = str(S); return O; }
  }
}
Value annot(Src &S) {
  Object O{{"label", str(S)}};
  if (opt(S)) O["needsConfirmation"] = S.chance(50);
  if (opt(S)) O["description"] = nonEmpty(S);
  return O;
}
Value wsEdit(Src &S) {
  Object O;
  if (opt(S)) {
    Object C;
    for (unsigned N = S.small(3); N; --N) C[uri(S).getAsString()->str()] = list(S, edit);
    O["changes"] = std::move(C);
  }
  if (opt(S)) O["documentChanges"] = list(S, change);
  if (S.chance(25)) O["changeAnnotations"] = Object{{nonEmpty(S), annot(S)}};
  return O;
}
Value diag(Src &S) {
  Object O{{"range", range(S)}, {"message", str(S)}, {"severity", (int64_t)(1 + S.below(4))}};
  if (opt(S)) { if (S.chance(70)) O["code"] = nonEmpty(S); else O["code"] = (int64_t)S.below(3000); }
  if (opt(S)) O["source"] = nonEmpty(S);
  if (S.chance(20)) O["data"] = Object{{nonEmpty(S), jg::gen(S, 2)}};
  if (S.chance(20)) O["category"] = str(S);
  return O;
}
Value command(Src &S) {
  Object O{{"title", str(S)}, {"command", str(S)}};
  if (opt(S)) O["arguments"] = Array{Object{{"a", jg::gen(S, 1)}}};
  return O;
}
Value action(Src &S) {
  Object O{{"title", str(S)}};
  if (opt(S)) O["kind"] = str(S);
  if (S.chance(30)) O["diagnostics"] = list(S, diag);
  if (opt(S)) O["isPreferred"] = true;
  if (S.chance(70)) O["edit"] = wsEdit(S);
  if (S.chance(20)) O["command"] = command(S);
  if (S.chance(30)) O["data"] = jg::gen(S, 2);
  return O;
}
Value markup(Src &S) { return Object{{"kind", S.chance(50) ? "plaintext" : "markdown"}, {"value", nonEmpty(S)}}; }
Value item(Src &S) {
  Object O{{"label", nonEmpty(S)}};
  if (opt(S)) O["kind"] = (int64_t)(1 + S.below(25));
  for (auto F : {"detail", "sortText", "filterText", "insertText"}) if (opt(S)) O[F] = nonEmpty(S);
  if (opt(S)) O["documentation"] = markup(S);
  if (opt(S)) O["insertTextFormat"] = (int64_t)(1 + S.below(2));
  if (opt(S)) O["textEdit"] = edit(S);
  if (opt(S)) { Value L = list(S, edit); if (!L.getAsArray()->empty()) O["additionalTextEdits"] = std::move(L); }
  if (opt(S)) O["data"] = str(S);
  return O;
}
Value tweak(Src &S) { return Object{{"tweakID", str(S)}, {"selection", range(S)}, {"file", uri(S)}}; }
Value enc(Src &S) { return S.pick({std::string("utf-8"), std::string("utf-16"), std::string("utf-32")}); }
void optStr(Src &S, Object &O, std::initializer_list<const char *> F) { for (auto X : F) if (opt(S)) O[X] = str(S); }
Value pkg(Src &S) { Object O; optStr(S, O, {"Name", "PName", "Version", "Description", "LongDescription", "Position", "Homepage"}); return O; }
Value meta(Src &S) { Object O{{"Type", (int64_t)S.below(12)}}; if (opt(S)) O["Location"] = loc(S); return O; }
Value vdesc(Src &S) { return Object{{"doc", str(S)}, {"arity", (int64_t)S.below(9)}, {"args", list(S, text)}}; }
Value info(Src &S) { Object O{{"Meta", meta(S)}, {"PackageDesc", pkg(S)}}; if (opt(S)) O["ValueDesc"] = vdesc(S); return O; }
Value acomp(Src &S) { return Object{{"Scope", list(S, text)}, {"Prefix", str(S)}}; }
Value otype(Src &S) { Object O; optStr(S, O, {"Description", "Name"}); return O; }
Value odesc(Src &S) {
  Object O{{"Declarations", list(S, loc)}, {"Definitions", list(S, loc)}};
  optStr(S, O, {"Description", "Example", "Default"});
  if (opt(S)) O["Type"] = otype(S);
  return O;
}
Value ofield(Src &S) { Object O{{"Name", str(S)}}; if (opt(S)) O["Description"] = odesc(S); return O; }
Value bc(Src &S) { return Object{{"Shm", str(S)}, {"BasePath", str(S)}, {"CachePath", str(S)}, {"Size", uint(S)}}; }
Value exprv(Src &S) { return Object{{"ExprID", uint(S)}}; }
Value exprr(Src &S) { return Object{{"ResultKind", uint(S)}, {"ValueID", uint(S)}, {"ValueKind", uint(S)}}; }
Value symbol(Src &S) {
  return Object{{"name", str(S)}, {"kind", (int64_t)(1 + S.below(26))}, {"range", range(S)}, {"selectionRange", range(S)}, {"uri", uri(S)}};
}

// Absent and null are one.
Value prune(const Value &V) {
  if (auto *O = V.getAsObject()) {
    Object R;
    for (auto &[K, X] : *O) if (!X.getAsNull()) R[K] = prune(X);
    return R;
  }
  if (auto *A = V.getAsArray()) {
    Array R;
    for (auto &X : *A) R.push_back(prune(X));
    return R;
  }
  return V;
}

struct Type {
  const char *Name;
  Value (*Gen)(Src &);
  bool (*RoundTrip)(const Value &In, Value &Out);
};
template <class T> bool rt(const Value &In, Value &Out) {
  // Fields that the text does not set have to have their defaults: the
  // object's memory is not zero before.
  alignas(T) char Mem[sizeof(T)];
  memset(Mem, 0x5A, sizeof Mem);
  T *P = new (Mem) T();
  llvm::json::Path::Root R;
  bool Ok = fromJSON(In, *P, R);
  if (!Ok) (void)llvm::toString(R.getError());
  else Out = toJSON(*P);
  P->~T();
  return Ok;
}
template <class T> bool in(const Value &In, Value &Out) {
  T X;
  llvm::json::Path::Root R;
  Out = nullptr;
  bool Ok = fromJSON(In, X, R);
  if (!Ok) (void)llvm::toString(R.getError());
  return Ok;
}
const std::vector<Type> Types{
    {"Position", pos, rt<Position>}, {"Range", range, rt<Range>}, {"Location", loc, rt<Location>},
    {"TextDocumentIdentifier", doc, rt<TextDocumentIdentifier>}, {"VersionedTextDocumentIdentifier", vdoc, rt<VersionedTextDocumentIdentifier>},
    {"TextEdit", edit, rt<TextEdit>}, {"ChangeAnnotation", annot, rt<ChangeAnnotation>},
    {"DocumentChange", change, rt<DocumentChange>}, {"WorkspaceEdit", wsEdit, rt<WorkspaceEdit>},
    {"Diagnostic", diag, rt<Diagnostic>}, {"CodeAction", action, rt<CodeAction>},
    {"MarkupContent", markup, rt<MarkupContent>}, {"CompletionItem", item, rt<CompletionItem>}, {"TweakArgs", tweak, rt<TweakArgs>},
    {"OffsetEncoding", enc, rt<OffsetEncoding>},
    {"PackageDescription", pkg, rt<nixd::PackageDescription>}, {"ValueMeta", meta, rt<nixd::ValueMeta>}, {"ValueDescription", vdesc, rt<nixd::ValueDescription>},
    {"AttrPathInfoResponse", info, rt<nixd::AttrPathInfoResponse>}, {"AttrPathCompleteParams", acomp, rt<nixd::AttrPathCompleteParams>},
    {"OptionType", otype, rt<nixd::OptionType>}, {"OptionDescription", odesc, rt<nixd::OptionDescription>}, {"OptionField", ofield, rt<nixd::OptionField>},
    {"RegisterBCParams", bc, rt<nixd::rpc::RegisterBCParams>}, {"ExprValueParams", exprv, rt<nixd::rpc::ExprValueParams>}, {"ExprValueResponse", exprr, rt<nixd::rpc::ExprValueResponse>},
    {"TypeHierarchyItem", symbol, rt<TypeHierarchyItem>}, {"CallHierarchyItem", symbol, rt<CallHierarchyItem>},
};
void stringCodes(Value &V) { // LSP: a code is a string or a number; the server keeps it as text
  if (auto *O = V.getAsObject()) {
    if (O->get("message") && O->get("range"))
      if (auto I = O->getInteger("code")) (*O)["code"] = std::to_string(*I);
    for (auto &[K, X] : *O) stringCodes(X);
  } else if (auto *A = V.getAsArray()) for (auto &X : *A) stringCodes(X);
}
/// What the server adds by itself.
void defaults(const std::string &T, Value &V) {
  auto *O = V.getAsObject();
  if (!O) return;
  if (T == "CompletionItem") { O->erase("score"); if (O->getString("data") == llvm::StringRef("")) O->erase("data"); }
  if (T == "TypeHierarchyItem") O->erase("data");
}
/// Unknown fields, and null for absent ones.
void noise(Src &S, Value &V) {
  if (auto *O = V.getAsObject()) {
    for (auto &[K, X] : *O) if (K != "changes" && K != "changeAnnotations" && K != "data" && K != "arguments") noise(S, X);
    if (S.chance(20) && !O->get("changes")) (*O)["zz-unknown"] = jg::gen(S, 1);
  } else if (auto *A = V.getAsArray()) for (auto &X : *A) noise(S, X);
}

Sub RoundTrip("round-trip", 8000, 300000, [](Ctx &C) {
  Src &S = C.S;
  const Type &T = S.pick(Types);
  Value V = T.Gen(S);
  C.label(T.Name);
  C.show("type", T.Name);
  Value In = V;
  if (S.chance(30)) { noise(S, In); C.label("unknown-fields"); }
  C.show("json", jg::text(In));
  C.nontrivial(jg::text(V).size() > 20);
  Value Out = nullptr;
  if (!T.RoundTrip(In, Out)) fail(std::string("rejected-") + T.Name, "the value is rejected");
  Value Want = prune(V), Got = prune(Out);
  stringCodes(Want);
  defaults(T.Name, Want);
  defaults(T.Name, Got);
  check(Want == Got, (std::string("differs-") + T.Name).c_str(), "in " + jg::text(Want) + "\nout " + jg::text(Got));
});

// Parameters that the server only reads.
#define FIELD(X, Y) check((X) == (Y), "field", std::string(M) + ": " #X " differs")
template <class T> T read(const char *M, const Value &V) {
  T R;
  llvm::json::Path::Root Root;
  if (!fromJSON(V, R, Root)) fail("rejected", std::string(M) + ": " + llvm::toString(Root.getError()));
  return R;
}
Position P(const Value &V) { return {*V.getAsObject()->getInteger("line"), *V.getAsObject()->getInteger("character")}; }
Range R(const Value &V) { return {P(*V.getAsObject()->get("start")), P(*V.getAsObject()->get("end"))}; }
std::string path(const Value &U) { return llvm::cantFail(URI::resolve(*U.getAsString())); }
Sub Params("params", 5000, 150000, [](Ctx &C) {
  Src &S = C.S;
  Value U = uri(S), PP = pos(S), RR = range(S);
  Value Doc = Object{{"uri", U}};
  auto Maybe = [&](Value V) { if (S.chance(30)) noise(S, V); C.show("json", jg::text(V)); return V; };
  switch (S.below(11)) {
  case 0: {
    const char *M = "didOpen";
    std::string T = str(S);
    int64_t Ver = uint(S);
    auto D = read<DidOpenTextDocumentParams>(M, Maybe(Object{{"textDocument", Object{{"uri", U}, {"languageId", "nix"}, {"version", Ver}, {"text", T}}}}));
    FIELD(D.textDocument.uri.file(), llvm::StringRef(path(U)));
    FIELD(D.textDocument.text, T);
    FIELD(D.textDocument.version, std::optional<int64_t>(Ver));
    FIELD(D.textDocument.languageId, "nix");
    break;
  }
  case 1: {
    const char *M = "didChange";
    Array Ch;
    struct W { std::optional<Range> R; std::optional<int> L; std::string T; };
    std::vector<W> Ws;
    for (unsigned N = S.small(4); N; --N) {
      W X;
      X.T = str(S);
      Object O{{"text", X.T}};
      if (opt(S)) { Value Y = range(S); X.R = R(Y); O["range"] = std::move(Y); if (opt(S)) { X.L = (int)S.below(50); O["rangeLength"] = *X.L; } }
      Ch.push_back(std::move(O));
      Ws.push_back(X);
    }
    int64_t Ver = uint(S);
    auto D = read<DidChangeTextDocumentParams>(M, Maybe(Object{{"textDocument", Object{{"uri", U}, {"version", Ver}}}, {"contentChanges", std::move(Ch)}}));
    FIELD(D.textDocument.version, std::optional<int64_t>(Ver));
    FIELD(D.textDocument.uri.file(), llvm::StringRef(path(U)));
    FIELD(D.contentChanges.size(), Ws.size());
    for (size_t I = 0; I < Ws.size(); ++I) {
      FIELD(D.contentChanges[I].range, Ws[I].R);
      FIELD(D.contentChanges[I].rangeLength, Ws[I].L);
      FIELD(D.contentChanges[I].text, Ws[I].T);
    }
    C.nontrivial(Ws.size() > 1);
    break;
  }
  case 2: { const char *M = "didClose"; auto D = read<DidCloseTextDocumentParams>(M, Maybe(Object{{"textDocument", Doc}})); FIELD(D.textDocument.uri.file(), llvm::StringRef(path(U))); break; }
  case 3: {
    const char *M = "position";
    auto D = read<TextDocumentPositionParams>(M, Maybe(Object{{"textDocument", Doc}, {"position", PP}}));
    FIELD(D.position, P(PP));
    FIELD(D.textDocument.uri.file(), llvm::StringRef(path(U)));
    break;
  }
  case 4: {
    const char *M = "completion";
    Object O{{"textDocument", Doc}, {"position", PP}};
    bool Ctx = opt(S);
    int K = 1 + S.below(3);
    if (Ctx) { Object X{{"triggerKind", K}}; if (K == 2) X["triggerCharacter"] = "."; O["context"] = std::move(X); }
    auto D = read<CompletionParams>(M, Maybe(std::move(O)));
    FIELD(D.position, P(PP));
    if (Ctx) { FIELD((int)D.context.triggerKind, K); FIELD(D.context.triggerCharacter, (K == 2 ? "." : "")); }
    break;
  }
  case 5: {
    const char *M = "references";
    Object O{{"textDocument", Doc}, {"position", PP}};
    bool Ctx = opt(S), Incl = S.chance(50);
    if (Ctx) O["context"] = Object{{"includeDeclaration", Incl}};
    auto D = read<ReferenceParams>(M, Maybe(std::move(O)));
    FIELD(D.position, P(PP));
    if (Ctx) FIELD(D.context.includeDeclaration, Incl);
    break;
  }
  case 6: {
    const char *M = "rename";
    std::string N = str(S);
    auto D = read<RenameParams>(M, Maybe(Object{{"textDocument", Doc}, {"position", PP}, {"newName", N}}));
    FIELD(D.position, P(PP));
    FIELD(D.newName, N);
    break;
  }
  case 7: {
    const char *M = "codeAction";
    Value Ds = list(S, diag);
    Object Ctx{{"diagnostics", Ds}};
    std::vector<std::string> Only;
    if (opt(S)) { Array A; for (unsigned N = S.small(3); N; --N) { Only.push_back(str(S)); A.push_back(Only.back()); } Ctx["only"] = std::move(A); }
    if (opt(S)) Ctx["triggerKind"] = 1;
    auto D = read<CodeActionParams>(M, Maybe(Object{{"textDocument", Doc}, {"range", RR}, {"context", std::move(Ctx)}}));
    FIELD(D.range, R(RR));
    FIELD(D.context.diagnostics.size(), Ds.getAsArray()->size());
    FIELD(D.context.only, Only);
    C.nontrivial(!D.context.diagnostics.empty());
    break;
  }
  case 8: {
    const char *M = "inlayHint";
    auto D = read<InlayHintsParams>(M, Maybe(Object{{"textDocument", Doc}, {"range", RR}}));
    FIELD(D.range, std::optional<Range>(R(RR)));
    break;
  }
  case 9: { // requests that carry a document only
    const char *M = "document";
    Value V = Maybe(Object{{"textDocument", Doc}, {"options", Object{{"tabSize", 2}}}});
    FIELD(read<DocumentSymbolParams>(M, V).textDocument.uri.file(), llvm::StringRef(path(U)));
    FIELD(read<FoldingRangeParams>(M, V).textDocument.uri.file(), llvm::StringRef(path(U)));
    FIELD(read<SemanticTokensParams>(M, V).textDocument.uri.file(), llvm::StringRef(path(U)));
    FIELD(read<DocumentLinkParams>(M, V).textDocument.uri.file(), llvm::StringRef(path(U)));
    FIELD(read<DocumentFormattingParams>(M, V).textDocument.uri.file(), llvm::StringRef(path(U)));
    break;
  }
  default: {
    const char *M = "initialize";
    bool Conf = S.chance(50), Prog = S.chance(50);
    Object Caps, Win, Ws;
    int HasC = S.below(3), HasP = S.below(3);
    if (HasC) Ws["configuration"] = Conf;
    if (HasP) Win["workDoneProgress"] = Prog;
    if (HasC == 2) Ws["workspaceEdit"] = Object{{"documentChanges", true}};
    if (S.chance(70)) Caps["textDocument"] = Object{{"completion", Object{{"completionItem", Object{{"snippetSupport", true}}}, {"completionItemKind", Object{{"valueSet", Array{1, 2, 25, 26, 99}}}}}}, {"hover", Object{{"contentFormat", Array{"other", "markdown", "plaintext"}}}}};
    Caps["workspace"] = std::move(Ws);
    Caps["window"] = std::move(Win);
    Object O{{"capabilities", std::move(Caps)}};
    if (opt(S)) O["processId"] = S.pick<Value>({Value(nullptr), Value(123), Value("bad")});
    if (opt(S)) O["rootUri"] = S.pick<Value>({Value(nullptr), uri(S), Value("untitled:x"), Value(3)});
    if (opt(S)) O["rootPath"] = S.pick<Value>({Value(nullptr), Value("/x")});
    if (opt(S)) O["trace"] = S.pick<Value>({Value("off"), Value("verbose"), Value("x")});
    if (opt(S)) O["initializationOptions"] = jg::gen(S, 2);
    Value V(std::move(O));
    C.show("json", jg::text(V));
    auto D = read<InitializeParams>(M, V);
    FIELD(D.capabilities.WorkspaceConfiguration, (HasC ? Conf : false));
    FIELD(D.capabilities.WorkDoneProgress, (HasP ? Prog : false));
    C.nontrivial();
  }
  }
});

// No JSON value makes a decoder crash, whatever it is said to be.
const std::vector<std::pair<const char *, bool (*)(const Value &, Value &)>> Readers{
    {"DidOpen", in<DidOpenTextDocumentParams>}, {"DidChange", in<DidChangeTextDocumentParams>}, {"DidClose", in<DidCloseTextDocumentParams>},
    {"Position", in<TextDocumentPositionParams>}, {"Completion", in<CompletionParams>}, {"Reference", in<ReferenceParams>}, {"Rename", in<RenameParams>},
    {"CodeActionParams", in<CodeActionParams>}, {"InlayHints", in<InlayHintsParams>}, {"DocumentSymbol", in<DocumentSymbolParams>},
    {"FoldingRange", in<FoldingRangeParams>}, {"SemanticTokens", in<SemanticTokensParams>}, {"DocumentLink", in<DocumentLinkParams>},
    {"Formatting", in<DocumentFormattingParams>}, {"Initialize", in<InitializeParams>}, {"DidChangeConfiguration", in<DidChangeConfigurationParams>},
    {"CodeAction", in<CodeAction>}, {"CompletionItem", in<CompletionItem>}, {"WorkspaceEdit", in<WorkspaceEdit>}, {"DocumentChange", in<DocumentChange>},
    {"ShowDocumentResult", in<ShowDocumentResult>}, {"AttrPathInfo", in<nixd::AttrPathInfoResponse>}, {"OptionDescription", in<nixd::OptionDescription>},
    {"OptionField", in<nixd::OptionField>}, {"MarkupContent", in<MarkupContent>}, {"Command", in<Command>},
};
Value *somewhere(Src &S, Value &V, int Depth, Object **Parent, std::string *Key) {
  if (Depth == 0) return &V;
  if (auto *O = V.getAsObject(); O && !O->empty()) {
    auto It = O->begin();
    std::vector<ObjectKey> Ks;
    for (auto &[K, X] : *O) Ks.push_back(K);
    std::sort(Ks.begin(), Ks.end(), [](const ObjectKey &A, const ObjectKey &B) { return llvm::StringRef(A) < llvm::StringRef(B); });
    const ObjectKey &K = Ks[S.below(Ks.size())];
    *Parent = O;
    *Key = llvm::StringRef(K).str();
    return somewhere(S, *O->get(K), Depth - 1, Parent, Key);
  }
  if (auto *A = V.getAsArray(); A && !A->empty()) return somewhere(S, (*A)[S.below(A->size())], Depth - 1, Parent, Key);
  return &V;
}
Sub Mutate("malformed", 8000, 300000, [](Ctx &C) {
  Src &S = C.S;
  static const std::vector<Value (*)(Src &)> Gens{pos, range, loc, doc, vdoc, edit, change, wsEdit, diag, command, action, markup, item, info, odesc, ofield, symbol,
      [](Src &S) { return Value(Object{{"textDocument", vdoc(S)}, {"position", pos(S)}, {"context", Object{{"triggerKind", 1}, {"includeDeclaration", true}, {"diagnostics", list(S, diag)}}}, {"range", range(S)}, {"newName", "x"}, {"contentChanges", Array{Object{{"text", "x"}, {"range", range(S)}}}}}); },
      [](Src &S) { return Value(Object{{"capabilities", Object{{"textDocument", Object{{"completion", Object{{"completionItemKind", Object{{"valueSet", Array{1, 2}}}}}}}}, {"workspace", Object{{"configuration", true}}}}}, {"trace", "off"}}); }};
  Value V = Gens[S.below(Gens.size())](S);
  unsigned N = S.small(4, 60);
  for (unsigned I = 0; I < N; ++I) {
    Object *Par = nullptr;
    std::string Key;
    Value *X = somewhere(S, V, S.below(5), &Par, &Key);
    if (Par && S.chance(40)) Par->erase(Key);
    else *X = S.chance(70) ? S.pick<Value>({Value(nullptr), Value(-1), Value(1.5), Value("x"), Value(""), Value(Array{}), Value(Object{}), Value(true), Value(INT64_MAX), Value("file://x"), Value("markdown")}) : jg::gen(S, 2);
  }
  C.show("json", jg::text(V));
  C.nontrivial(N > 0);
  Value Out = nullptr;
  for (auto &[Name, F] : Readers) {
    C.note("type", Name);
    F(V, Out);
  }
});
} // namespace
namespace pbt {
const char *Rule =
    "A case is a JSON value of one of 28 protocol types generated from the protocol's text (optional fields present or not, "
    "unknown fields added), the parameters of a request or notification, or such a value with fields deleted or replaced. "
    "Non-trivial: a value of more than 20 bytes, several changes, diagnostics in the context, at least one mutation.";
}
