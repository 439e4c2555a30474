// USES: server
#include "srv/requests.h"
#include "srv/select.h"
using namespace pbt;
using namespace srv;
namespace pbt {
const char *Rule = "Random programs in the running server with scripted package and option providers; at random names (cut to a prefix) the completion list is compared with a model: visible names by the "
                   "reference resolver, packages by the idioms `pkgs`, `lib` and `with`, options by the path of nested sets. Items are applied to the text. Non-trivial: distinct requests with two or more "
                   "expected items.";
}
namespace {
Array names(std::initializer_list<const char *> L, const std::string &Tag) {
  Array R;
  for (auto *N : L) R.push_back(N);
  R.push_back("foo-" + Tag);
  R.push_back("a_" + Tag);
  return R;
}
const Object &completeWorld() {
  static const Object W = [] {
    Object C;
    Array Many;
    for (int I = 0; I < 40; ++I) Many.push_back("f" + std::to_string(I));
    Many.push_back("foobar");
    C[""] = names({"foo", "fo", "foo2", "a", "ab", "fo o", "f\"q", "fif", "lib", "abort2", "a'-b"}, "top");
    C["lib"] = names({"foo", "foo.bar", "fold", "a", "if", "a${b}", "f", ""}, "lib");
    C["a"] = names({"foo", "f", "a", "in"}, "a");
    C["foo"] = std::move(Many);
    C["fo"] = names({"é", "aé", "a\\", "f-1"}, "fo");
    C["lib.foo"] = names({"a", "foo", "f"}, "lib.foo");
    C["lib.a"] = names({"a", "pkgs", "lib"}, "lib.a");
    C["a.f"] = names({"a", "foo"}, "a.f");
    return C;
  }();
  return W;
}
Object field(std::string Name) { return Object{{"Name", Name}, {"Description", nullptr}}; }
Object field(std::string Name, Value Ex, Value Def, Value Doc = nullptr, Value Type = nullptr) {
  return Object{{"Name", Name}, {"Description", Object{{"Description", std::move(Doc)}, {"Declarations", Array{}}, {"Definitions", Array{}}, {"Example", std::move(Ex)}, {"Default", std::move(Def)}, {"Type", std::move(Type)}}}};
}
const Object &optionWorld(int I) {
  static const std::array<Object, 2> W = [] {
    Object A, B;
    A[""] = Array{field("foo"), field("fo", "1", "2"), field("config"), field("a", "[ ]", "[ ]"), field("f", nullptr, nullptr), field("fo o"), field("f.x", "\"a\\\"${b}\"", nullptr), field("ff", nullptr, "a } $ \\ b")};
    A["foo"] = Array{field("foo", "{\n a = 1;\n}", "{ }", "the *doc*", Object{{"Name", "bool"}, {"Description", "a bool"}}), field("fa"), field("if", "1", nullptr), field("fq$\"", "1", nullptr)};
    A["a"] = Array{field("f"), field(""), field("foo"), field("a", nullptr, "''x''", nullptr, Object{{"Name", nullptr}, {"Description", "d"}})};
    Array Many;
    for (int I = 0; I < 20; ++I) Many.push_back(field("f" + std::to_string(I), "1", I % 3 ? Value("1") : Value("2")));
    A["fo"] = std::move(Many);
    A["a.f"] = Array{field("a"), field("foo", "1", nullptr)};
    B[""] = Array{field("foo", nullptr, "x"), field("a")};
    B["foo"] = Array{field("fb")};
    B["fo"] = Array{field("f"), field("f-2"), field("f3"), field("f4"), field("f5"), field("f6"), field("f7"), field("f8"), field("f9")};
    B["foo.a"] = Array{field("fo", nullptr, nullptr), field("a")};
    return std::array<Object, 2>{std::move(A), std::move(B)};
  }();
  return W[I];
}
const Object &infoWorld() {
  static const Object W = [] {
    Object R;
    auto Put = [&](const char *K, Value V, Value D, Value L) {
      R[K] = Object{{"Meta", Object{{"Type", 1}, {"Location", nullptr}}}, {"PackageDesc", Object{{"Name", K}, {"Version", std::move(V)}, {"Description", std::move(D)}, {"LongDescription", std::move(L)}}}, {"ValueDesc", nullptr}};
    };
    Put("foo", "1.0", "short", "long");
    Put("lib.foo", nullptr, "of lib", nullptr);
    Put("a.foo", "2", nullptr, nullptr);
    Put("fo.f-1", "3", nullptr, "l");
    return R;
  }();
  return W;
}
Server &server() {
  auto &V = shared(plainOpts);
  static bool Done = false;
  if (!Done) {
    Done = true;
    V.configure(Object{{"nixpkgs", Object{{"expr", jg::text(Object{{"complete", Object(completeWorld())}, {"info", Object(infoWorld())}})}}},
                       {"options", Object{{"home", Object{{"expr", jg::text(Object{{"options", Object(optionWorld(0))}})}}}, {"nixos", Object{{"expr", jg::text(Object{{"options", Object(optionWorld(1))}})}}}}}});
  }
  return V;
}
/// One expected item: the label, what it writes in place of the typed name, and more.
struct Item {
  std::string Label, Writes, Rest;
  bool Snippet = false, Whole = true; ///< Whole: Writes is the name, spelled somehow
  auto operator<=>(const Item &) const = default;
};
/// The text a snippet writes when nothing is changed in it.
std::string unsnippet(const std::string &T) {
  std::string R;
  bool In = false;
  for (size_t I = 0; I < T.size(); ++I) {
    if (T[I] == '\\' && I + 1 < T.size() && strchr("\\$}", T[I + 1])) { R += T[++I]; continue; }
    if (!In && T.compare(I, 4, "${1:") == 0) { In = true; I += 3; continue; }
    if (In && T[I] == '}') { In = false; continue; }
    check(T[I] != '$', "snippet", "a `$` that is no placeholder in the snippet " + T);
    R += T[I];
  }
  check(!In, "snippet", "a placeholder does not end in the snippet " + T);
  return R;
}
struct Got {
  std::vector<std::pair<std::string, const Object *>> Vars, Packages, Options;
  bool Incomplete;
  Value Hold = nullptr;
};
Got ask(Server &V, const std::string &U, const std::string &T, size_t P, size_t B, size_t E) {
  auto Q = at(U, T, P);
  (*Q.getAsObject())["context"] = Object{{"triggerKind", 1}};
  auto R = V.call("textDocument/completion", std::move(Q));
  check(R.Ok && R.Result.getAsObject() && R.Result.getAsObject()->getArray("items"), "completion", jg::text(R.Result) + R.Msg);
  Got G;
  G.Hold = std::move(R.Result);
  auto *O = G.Hold.getAsObject();
  G.Incomplete = O->getBoolean("isIncomplete").value_or(false);
  auto &Is = *O->getArray("items");
  check(Is.size() <= 30 && (!G.Incomplete || Is.size() == 30), "limit", std::to_string(Is.size()) + " items, incomplete: " + std::to_string(G.Incomplete));
  for (auto &X : Is) {
    auto *I = X.getAsObject();
    check(I && I->getString("label") && I->getInteger("kind"), "completion", jg::text(X));
    auto L = I->getString("label")->str();
    check(!L.empty(), "label", "an item without a label");
    if (L == "\"\"") L = ""; // the empty name needs some label
    if (auto *TE = I->getObject("textEdit")) {
      check(TE->get("range") && TE->getString("newText"), "completion", jg::text(X));
      auto R = rangeAt(T, *TE->get("range"));
      check(R == Rg{B, E}, "edit-range", "the item `" + L + "` replaces " + str(R) + ", the name is at " + str({B, E}));
    }
    auto K = *I->getInteger("kind");
    if (K == 5) G.Packages.push_back({L, I});
    else if (K == 4 || K == 7) G.Options.push_back({L, I});
    else if (K == 6 || K == 14) G.Vars.push_back({L, I});
    else fail("kind", "an item of kind " + std::to_string(K) + ": " + L);
  }
  return G;
}
const std::set<std::string> &globals() {
  static const std::set<std::string> W = [] {
    std::set<std::string> R;
    for (auto *N : {"abort", "baseNameOf", "break", "builtins", "derivation", "derivationStrict", "dirOf", "false", "fetchGit", "fetchMercurial", "fetchTarball", "fetchTree", "fromTOML", "import", "isNull", "map",
                    "null", "placeholder", "removeAttrs", "scopedImport", "throw", "toString", "true"})
      R.insert(N);
    return R;
  }();
  return W;
}
template <class A, class B> std::string listing(const A &Have, const B &Want) {
  std::string R = "offered:";
  for (auto &X : Have) R += " `" + X.first + "`";
  R += "; expected:";
  for (auto &X : Want) R += " `" + X + "`";
  return R;
}
void checkVars(const Got &G, const ref::VarUse &X, const std::string &Typed) {
  std::map<std::string, int> Want;
  for (auto &N : globals()) if (N.starts_with(Typed)) Want[N] = 14;
  for (auto &[N, D] : X.Env) if (N.starts_with(Typed) && !N.starts_with("__") && isIdent(N)) Want[N] = 6;
  std::set<std::string> Names, Seen;
  for (auto &[N, K] : Want) Names.insert(N);
  for (auto &[L, I] : G.Vars) {
    if (L.starts_with("__")) continue;
    auto Li = listing(G.Vars, Names);
    check(Want.contains(L), "variables", "`" + L + "` is not visible at `" + Typed + "`; " + Li);
    check(Seen.insert(L).second, "twice", "`" + L + "` is offered twice; " + Li);
    check(*I->getInteger("kind") == Want[L], "kind", "`" + L + "` has kind " + std::to_string(*I->getInteger("kind")));
    auto Ins = I->getString("insertText");
    check(!Ins || *Ins == L, "variables", "`" + L + "` inserts " + Ins.value_or("").str());
  }
  if (!G.Incomplete)
    for (auto &[N, K] : Want) check(Seen.contains(N), "variables", "`" + N + "` is visible at `" + Typed + "` but not offered; " + listing(G.Vars, Names));
}
void checkPackages(Ctx &C, Server &V, const Got &G, const Place &X, const std::string &Typed, unsigned &Count) {
  std::set<std::string> Want;
  std::string Scope;
  // The bare `pkgs` or `lib` is completed as a variable.
  if (X.Known && !X.Path.empty()) {
    Sel S = X.Path;
    S.pop_back();
    Scope = joined(S);
    if (auto *A = completeWorld().getArray(Scope))
      for (auto &N : *A) {
        auto Nm = N.getAsString()->str();
        if (Nm.starts_with(X.Path.back()) && (!X.IsVar || isIdent(Nm))) Want.insert(Nm);
      }
  }
  std::set<std::string> Seen;
  for (auto &[L, I] : G.Packages) {
    check(Want.contains(L), "packages", "`" + L + "` is offered at `" + Typed + "`, asking for `" + joined(X.Path) + "`; " + listing(G.Packages, Want));
    check(Seen.insert(L).second, "twice", "`" + L + "` is offered twice");
    auto *TE = I->getObject("textEdit");
    check(TE, "packages", "no edit for `" + L + "`");
    auto New = TE->getString("newText")->str();
    check(X.IsVar ? New == L : spells(New, L), "spelling", "the package `" + L + "` is written " + New);
  }
  if (!G.Incomplete)
    for (auto &N : Want) check(Seen.contains(N), "packages", "`" + N + "` is not offered at `" + Typed + "`; " + listing(G.Packages, Want));
  Count += Want.size();
  if (!G.Packages.empty() && C.S.chance(30)) { // the item in full
    auto &[L, I] = G.Packages[C.S.below(G.Packages.size())];
    auto R = V.call("completionItem/resolve", Object(*I));
    check(R.Ok && R.Result.getAsObject(), "resolve", jg::text(R.Result) + R.Msg);
    auto *O = R.Result.getAsObject();
    check(O->getString("label") == I->getString("label"), "resolve", "another item came back: " + jg::text(R.Result));
    check(O->get("textEdit") && *O->get("textEdit") == *I->get("textEdit"), "resolve", "the edit changed");
    auto *W = infoWorld().getObject((Scope.empty() ? "" : Scope + ".") + L);
    std::string Det = "?", Doc;
    if (W) {
      auto *D = W->getObject("PackageDesc");
      Det = D->getString("Version").value_or("?").str();
      Doc = D->getString("Description").value_or("").str() + "\n\n" + D->getString("LongDescription").value_or("").str();
      C.label("resolved");
    }
    check(O->getString("detail") == llvm::StringRef(Det), "resolve", "detail of " + L + " of " + Scope + ": " + jg::text(R.Result));
    if (W) {
      auto *M = O->getObject("documentation");
      check(M && M->getString("value") == llvm::StringRef(Doc), "resolve", "documentation: " + jg::text(R.Result));
    }
  }
}
void over(Server &V, const std::string &U) {
  V.close(U);
  V.sync();
  V.forget();
}

Sub Names("names", 2600, 80000, [](Ctx &C) {
  auto &S = C.S;
  auto T = idiomProgram(S);
  ref::P Root;
  auto Sc = scopesOf(T, &Root, true);
  auto Ps = Idioms(Sc).places(Root);
  if (Ps.empty()) throw Discard{};
  auto Pick = Ps[S.below(Ps.size())];
  if (Pick.E - Pick.B > 1 && S.chance(40)) { // half typed
    size_t N = 1 + S.below(Pick.E - Pick.B - 1);
    T.erase(Pick.B + N, Pick.E - Pick.B - N);
    Sc = scopesOf(T, &Root, true);
    Ps = Idioms(Sc).places(Root);
  }
  C.show("text", T);
  const Place *X = nullptr;
  for (auto &Q : Ps) if (Q.B == Pick.B) X = &Q;
  if (!X) throw Discard{};
  std::string Typed = T.substr(X->B, X->E - X->B);
  size_t P = cursorIn(S, T, X->B, X->E);
  C.show("cursor", std::to_string(P));
  auto &V = server();
  std::string U = "file:///t/comp.nix";
  V.open(U, T);
  auto G = ask(V, U, T, P, X->B, X->E);
  check(G.Options.empty(), "options", "options are offered in an expression");
  unsigned N = 0;
  if (X->IsVar) {
    for (auto &Use : Sc.Vars) if (Use.B == X->B && !Use.Inherited) {
      checkVars(G, Use, Typed);
      N += G.Vars.size();
    }
  } else check(G.Vars.empty(), "variables", "variables are offered in a selection");
  unsigned Pk = 0;
  checkPackages(C, V, G, *X, Typed, Pk);
  if (Pk) C.label(X->Many ? "packages, several with" : "packages");
  over(V, U);
  C.nontrivial(N + Pk >= 2);
});

Sub Dots("after-a-dot", 900, 25000, [](Ctx &C) {
  auto &S = C.S;
  static const std::vector<std::pair<const char *, std::optional<Sel>>> Heads{
      {"pkgs.", Sel{}}, {"lib.", Sel{"lib"}}, {"pkgs.foo.", Sel{"foo"}}, {"lib.foo.", Sel{"lib", "foo"}}, {"with pkgs; a.", Sel{"a"}}, {"with lib; a.", Sel{"lib", "a"}}, {"a.", {}}, {"(pkgs).", {}},
      {"{ pkgs, ... }: pkgs.", Sel{}}, {"lib.a.", Sel{"lib", "a"}}, {"pkgs.a.f.", Sel{"a", "f"}}, {"pkgs.\"fo\".", Sel{"fo"}}, {"pkgs.${a}.", {}}};
  auto &[H, Scope] = S.pick(Heads);
  static const std::vector<std::pair<const char *, const char *>> Around{{"", ""}, {"[ (", ") ]"}, {"{ x = ", "; }"}, {"let y = ", "; in y"}, {"\"${", "}\""}, {"/*é*/ x: ", "\n"}, {"(", ")"}, {"f: f (", " )"}};
  auto &[Be, Af] = S.pick(Around);
  std::string T = std::string(Be) + H;
  size_t P = T.size();
  T += Af;
  C.show("text", T);
  C.show("cursor", std::to_string(P));
  auto &V = server();
  std::string U = "file:///t/comp.nix";
  V.open(U, T);
  auto G = ask(V, U, T, P, P, P);
  Place X{P, P};
  if (Scope) {
    X.Known = true;
    X.Path = *Scope;
    X.Path.push_back("");
  }
  unsigned N = 0;
  checkPackages(C, V, G, X, "", N);
  check(G.Vars.empty() && G.Options.empty(), "dot", "something else is offered after a dot");
  over(V, U);
  C.nontrivial(N >= 2);
});

Sub Options("options", 2200, 60000, [](Ctx &C) {
  auto &S = C.S;
  auto T = optionProgram(S);
  C.show("text", T);
  ref::P Root;
  scopesOf(T, &Root);
  auto Ps = optionPlaces(Root);
  if (Ps.empty()) throw Discard{};
  auto X = Ps[S.below(Ps.size())];
  size_t P = cursorIn(S, T, X.B, X.E);
  C.show("cursor", std::to_string(P));
  auto &V = server();
  std::string U = "file:///t/comp.nix";
  V.open(U, T);
  auto G = ask(V, U, T, P, X.B, X.E);
  check(G.Vars.empty() && G.Packages.empty(), "options", "variables or packages are offered at the name of an attribute");
  struct Want { std::string Origin, Label, Name; std::optional<std::string> Val; bool Leaf; const Object *F; bool Used = false; };
  std::vector<Want> Ws;
  if (X.Known) {
    Sel Sc = X.Path;
    Sc.pop_back();
    for (int I = 0; I < 2; ++I)
      if (auto *A = optionWorld(I).getArray(joined(Sc)))
        for (auto &F : *A) {
          auto *O = F.getAsObject();
          auto Nm = O->getString("Name")->str();
          if (!Nm.starts_with(X.Path.back())) continue;
          std::string Or = I ? "nixos" : "home";
          auto *D = O->getObject("Description");
          if (!D) { Ws.push_back({Or, Nm, Nm, {}, false, O}); continue; }
          auto Ex = D->getString("Example"), De = D->getString("Default");
          bool Both = Ex && De && *Ex != *De;
          if (Ex) Ws.push_back({Or, Both ? Nm + " (example)" : Nm, Nm, Ex->str(), true, D});
          if (De && (!Ex || Both)) Ws.push_back({Or, Both ? Nm + " (default)" : Nm, Nm, De->str(), true, D});
          if (!Ex && !De) Ws.push_back({Or, Nm, Nm, "", true, D});
        }
  }
  for (auto &[L, I] : G.Options) {
    auto Det = I->getString("detail").value_or("");
    auto It = std::find_if(Ws.begin(), Ws.end(), [&](auto &W) { return !W.Used && W.Label == L && Det.starts_with(W.Origin) && W.Leaf == (*I->getInteger("kind") == 4); });
    check(It != Ws.end(), "options", "`" + L + "` of " + Det.str() + " is offered at `" + joined(X.Path) + "`");
    It->Used = true;
    auto *TE = I->getObject("textEdit");
    check(TE, "options", "no edit for `" + L + "`");
    auto New = TE->getString("newText")->str();
    bool Snip = I->getInteger("insertTextFormat").value_or(1) == 2;
    if (Snip) New = unsnippet(New);
    if (!It->Leaf) { check(spells(New, It->Name), "spelling", "the option `" + It->Name + "` is written " + New); continue; }
    std::string End = " = " + *It->Val + ";";
    check(New.size() > End.size() && New.ends_with(End) && spells(New.substr(0, New.size() - End.size()), It->Name), "spelling", "the option `" + It->Name + "` with the value `" + *It->Val + "` is written " + New);
    if (auto Ft = I->getString("filterText")) check(Ft->starts_with(X.Path.back()), "filter", "`" + L + "` is filtered by " + Ft->str());
    auto *Ty = It->F->getObject("Type");
    std::string Want = It->Origin + " | " + (Ty ? Ty->getString("Name").value_or("").str() + " (" + Ty->getString("Description").value_or("").str() + ")" : "? (missing type)");
    check(Det == Want, "detail", "`" + L + "` has the detail " + Det.str() + ", expected " + Want);
    auto *M = I->getObject("documentation");
    check((M ? M->getString("value").value_or("").str() : "") == It->F->getString("Description").value_or("").str(), "documentation", jg::text(Object(*I)));
  }
  if (!G.Incomplete)
    for (auto &W : Ws) check(W.Used, "options", "`" + W.Label + "` of " + W.Origin + " is not offered at `" + joined(X.Path) + "`");
  over(V, U);
  C.nontrivial(Ws.size() >= 2);
});

/// Where no name, member or option can be written, nothing is offered.
Sub Elsewhere("elsewhere", 1200, 30000, [](Ctx &C) {
  auto &S = C.S;
  auto T = idiomProgram(S);
  C.show("text", T);
  ref::P Root;
  auto Sc = scopesOf(T, &Root, true);
  std::vector<std::pair<size_t, const char *>> Ps;
  auto Inside = [&](size_t B, size_t E, const char *W) { // offsets strictly inside a token
    for (size_t P = B + 1; P < E; ++P) if ((T[P] & 0xC0) != 0x80) Ps.push_back({P, W});
  };
  std::function<void(const ref::P &)> Go = [&](const ref::P &N) {
    using namespace ref;
    switch (N->K) {
    case Int: case Float: Inside(N->B, N->E, "number"); break;
    case Uri: case SPath: Inside(N->B, N->E, "uri"); break;
    case Lit: Inside(N->B, N->E, "string"); break;
    case If: case With: case Assert: case Let: Inside(N->B, N->B + (N->K == If ? 2 : N->K == With ? 4 : N->K == Assert ? 6 : 3), "keyword"); break;
    case RecAttrs: Inside(N->B, N->B + 3, "keyword"); break;
    case Inherit: case InheritFrom: Inside(N->B, N->B + 7, "keyword"); break;
    case Bind: { // around `=`
      auto Gap = T.substr(N->Ch[0]->E, N->Ch[1]->B - N->Ch[0]->E);
      size_t Q = N->Ch[0]->E + Gap.find('=');
      if (Gap.find_first_of("#*") == Gap.npos && Q < N->Ch[1]->B && N->Ch[0]->E < Q && Q + 1 < N->Ch[1]->B) {
        Ps.push_back({Q, "equals"});
        Ps.push_back({Q + 1, "equals"});
      }
      break;
    }
    case Bin:
      if (N->Ch.size() == 2 && T.substr(N->Ch[0]->E, N->Ch[1]->B - N->Ch[0]->E).find_first_of("#*(") == std::string::npos)
        for (size_t Q = N->Ch[0]->E + 1; Q < N->Ch[1]->B; ++Q) if (strchr("+*/<>&|=-!", T[Q]) && strchr("+*/<>&|=-!", T[Q - 1])) Ps.push_back({Q, "operator"});
      break;
    default: break;
    }
    for (auto &C : N->Ch) if (N->K != NStr && N->K != Path) Go(C);
  };
  Go(Root);
  if (Ps.empty()) throw Discard{};
  auto &V = server();
  std::string U = "file:///t/comp.nix";
  V.open(U, T);
  for (unsigned K = 4; K--;) {
    auto [P, W] = Ps[S.below(Ps.size())];
    auto Q = at(U, T, P);
    (*Q.getAsObject())["context"] = Object{{"triggerKind", 1}};
    auto R = V.call("textDocument/completion", std::move(Q));
    check(R.Ok, "completion", R.Msg);
    auto *O = R.Result.getAsObject();
    check(!O || !O->getArray("items") || O->getArray("items")->empty(), "elsewhere", std::string("items are offered inside a ") + W + " at " + std::to_string(P) + ": " + jg::text(R.Result).substr(0, 300));
    C.label(W);
  }
  over(V, U);
  C.nontrivial();
});
}
