// USES: server
#include "srv/requests.h"
#include "srv/select.h"
using namespace pbt;
using namespace srv;
namespace pbt {
const char *Rule = "Random programs in the running server with scripted package and option providers. At random names, hover and go-to-definition are compared with what the providers know of the path that a model of "
                   "the idioms `pkgs`, `lib`, `with` and of nested option names asks for. Non-trivial: distinct requests where a provider knows something.";
}
namespace {
Object loc(const std::string &File, int L, int Ch = 0) {
  Object P{{"line", L}, {"character", Ch}};
  return Object{{"uri", "file://" + File}, {"range", Object{{"start", Object(P)}, {"end", std::move(P)}}}};
}
struct Pkg {
  std::optional<std::string> Name, Desc, Long, Home, Pos, Doc;
  std::vector<std::string> Args;
  std::optional<Object> Loc;
  std::optional<std::pair<std::string, int>> Where; ///< the expected location
};
const std::map<std::string, Pkg> &packages() {
  static const auto W = [] {
    std::map<std::string, Pkg> R;
    R["foo"] = {"foo-1.0", "the *foo*", "long text", "https://foo.example", "/nix/foo.nix:12", {}, {}, {}, {{"/nix/foo.nix", 12}}};
    R["fo"] = {"fo", {}, {}, {}, "/nix/fo.nix", {}, {}, {}, {{"/nix/fo.nix", 0}}};
    R["a"] = {{}, {}, {}, {}, {}, "a set", {}, loc("/nix/a.nix", 3, 7), {{"/nix/a.nix", 3}}};
    R["a.f"] = {"af", "a f", {}, {}, "/nix/af.nix:7", "docs of a.f", {"x", "y"}, loc("/nix/other.nix", 1), {{"/nix/af.nix", 7}}};
    R["f"] = {};
    R["lib"] = {{}, {}, {}, {}, {}, {}, {}, loc("/nix/lib/default.nix", 0), {{"/nix/lib/default.nix", 0}}};
    R["lib.foo"] = {{}, {}, {}, {}, {}, "the `foo` of lib\n\nmore", {"f", "xs"}, loc("/nix/lib/foo.nix", 40, 2), {{"/nix/lib/foo.nix", 40}}};
    R["lib.a"] = {{}, {}, {}, {}, "/nix/lib/a.nix:1", {}, {"one"}, {}, {{"/nix/lib/a.nix", 1}}};
    R["lib.f"] = {};
    R["lib.foo.a"] = {"deep", {}, {}, "https://deep.example", {}, {}, {}, {}, {}};
    R["lib.foo.fo"] = {{}, {}, {}, {}, {}, "innermost", {}, loc("/nix/deep.nix", 9), {{"/nix/deep.nix", 9}}};
    R["foo.a"] = {"fa", "d1", "l1", {}, "/nix/fa.nix:100", {}, {}, {}, {{"/nix/fa.nix", 100}}};
    R["foo.foo"] = {"ff", "d2", {}, {}, {}, {}, {}, loc("/nix/ff.nix", 5), {{"/nix/ff.nix", 5}}};
    R["fo.f"] = {"fof", {}, {}, {}, "/nix/with space.nix:2", {}, {}, {}, {{"/nix/with space.nix", 2}}};
    R["pkgs"] = {"the pkgs of pkgs", {}, {}, {}, {}, {}, {}, loc("/nix/pkgs.nix", 2), {{"/nix/pkgs.nix", 2}}};
    R["a.lib"] = {"alib", {}, {}, {}, "/nix/alib.nix:77", {}, {}, {}, {{"/nix/alib.nix", 77}}};
    R[""] = {{}, {}, {}, {}, {}, {}, {}, loc("/nix/top.nix", 0), {{"/nix/top.nix", 0}}};
    return R;
  }();
  return W;
}
Value orNull(const std::optional<std::string> &X) { return X ? Value(*X) : Value(nullptr); }
Object infoWorld() {
  Object R;
  for (auto &[K, P] : packages()) {
    Object D{{"Name", orNull(P.Name)}, {"Description", orNull(P.Desc)}, {"LongDescription", orNull(P.Long)}, {"Homepage", orNull(P.Home)}, {"Position", orNull(P.Pos)}};
    Object O{{"Meta", Object{{"Type", 1}, {"Location", P.Loc ? Value(Object(*P.Loc)) : Value(nullptr)}}}, {"PackageDesc", std::move(D)}};
    if (P.Doc || !P.Args.empty()) {
      Array A;
      for (auto &X : P.Args) A.push_back(X);
      O["ValueDesc"] = Object{{"doc", P.Doc.value_or("")}, {"arity", (int64_t)P.Args.size()}, {"args", std::move(A)}};
    } else O["ValueDesc"] = nullptr;
    R[K] = std::move(O);
  }
  return R;
}
struct Opt {
  std::optional<std::string> Desc, Type, TypeDesc;
  bool HasType = false;
  std::vector<std::pair<std::string, int>> Decls;
};
const std::map<std::string, Opt> &options(int I) {
  static const std::array<std::map<std::string, Opt>, 2> W = [] {
    std::map<std::string, Opt> A, B;
    A["foo"] = {"option *foo*", "bool", "boolean", true, {{"/o/foo.nix", 1}}};
    A["a"] = {{}, "attrs", {}, true, {}};
    A["a.f"] = {"af", {}, {}, false, {{"/o/af.nix", 8}, {"/o/af2.nix", 9}}};
    A["fo.a"] = {"foa", {}, "some type", true, {{"/o/foa.nix", 0}}};
    A["foo.foo"] = {"both", "int", "an int", true, {{"/o/ff.nix", 4}}};
    A["a.f.foo"] = {"deep", "str", "a string", true, {{"/o/deep.nix", 44}}};
    A["config"] = {"itself", "x", "y", true, {{"/o/config.nix", 3}}};
    B["foo.foo"] = {"second", "nat", "n", true, {{"/p/ff.nix", 5}}};
    B["f"] = {"only f", "nat", "n", true, {{"/p/f.nix", 6}}};
    B["foo.a"] = {{}, {}, {}, false, {{"/p/fa.nix", 2}}};
    B["fo"] = {"fo!", "t", "td", true, {}};
    B["f.a"] = {"f.a", "t", "td", true, {{"/p/f a.nix", 1}}};
    return std::array{A, B};
  }();
  return W[I];
}
Object optWorld(int I) {
  Object R;
  for (auto &[K, X] : options(I)) {
    Array D;
    for (auto &[F, L] : X.Decls) D.push_back(loc(F, L));
    R[K] = Object{{"Description", orNull(X.Desc)}, {"Declarations", std::move(D)}, {"Definitions", Array{loc("/o/def.nix", 1)}}, {"Example", nullptr}, {"Default", "1"},
                  {"Type", X.HasType ? Value(Object{{"Name", orNull(X.Type)}, {"Description", orNull(X.TypeDesc)}}) : Value(nullptr)}};
  }
  return R;
}
Server &server() {
  auto &V = shared(plainOpts);
  static bool Done = false;
  if (!Done) {
    Done = true;
    V.configure(Object{{"nixpkgs", Object{{"expr", jg::text(Object{{"info", infoWorld()}})}}},
                       {"options", Object{{"home", Object{{"expr", jg::text(Object{{"option", optWorld(0)}})}}}, {"nixos", Object{{"expr", jg::text(Object{{"option", optWorld(1)}})}}}}}});
  }
  return V;
}
/// The texts of a hover, in order; empty: there is no hover.
std::vector<std::string> texts(const Pkg &P) {
  std::vector<std::string> R;
  if (P.Name) R.push_back("`" + *P.Name + "`");
  if (P.Home) R.push_back("[homepage](" + *P.Home + ")");
  if (P.Desc) R.push_back(*P.Desc);
  if (P.Desc && P.Long) R.push_back(*P.Long);
  if (P.Doc) R.push_back(*P.Doc);
  if (!P.Args.empty()) {
    R.push_back(std::to_string(P.Args.size()));
    for (auto &A : P.Args) R.push_back("`" + A + "`");
  }
  return R;
}
std::vector<std::string> texts(const Opt &O) {
  std::vector<std::string> R;
  R.push_back(O.HasType ? O.Type.value_or("") + " (" + O.TypeDesc.value_or("") + ")" : "missing type");
  if (O.Desc) R.push_back(*O.Desc);
  return R;
}
void checkHover(const Value &Res, const std::vector<std::string> &Want, const std::string &T, const std::vector<Rg> &Ranges, const std::string &Asked) {
  if (Want.empty()) return check(Res.getAsNull().has_value(), "hover", "nothing is known of `" + Asked + "`, hover: " + jg::text(Res));
  auto *O = Res.getAsObject();
  auto *C = O ? O->getObject("contents") : nullptr;
  check(C && C->getString("value") && C->getString("kind") == llvm::StringRef("markdown"), "hover", "hover of `" + Asked + "`: " + jg::text(Res));
  auto V = C->getString("value")->str();
  size_t At = 0;
  for (auto &W : Want) {
    auto I = V.find(W, At);
    check(I != std::string::npos, "hover", "hover of `" + Asked + "` does not tell `" + W + "`: " + V);
    At = I + W.size();
  }
  for (auto &[K, P] : packages())
    for (auto &X : texts(P)) if (X.size() > 6 && std::find(Want.begin(), Want.end(), X) == Want.end() && V.find(X) != std::string::npos) {
      bool Part = false;
      for (auto &W : Want) Part |= W.find(X) != std::string::npos;
      check(Part, "hover", "hover of `" + Asked + "` tells `" + X + "`: " + V);
    }
  check(O->get("range"), "hover", "no range");
  auto R = rangeAt(T, *O->get("range"));
  check(std::find(Ranges.begin(), Ranges.end(), R) != Ranges.end(), "hover-range", "hover of `" + Asked + "` at " + str(R) + ", expected " + str(Ranges[0]));
}
std::vector<std::string> locs(const Value &V) {
  std::vector<std::string> R;
  auto One = [&](const Value &X) {
    auto *O = X.getAsObject();
    check(O && O->getString("uri") && O->getObject("range"), "definition", jg::text(X));
    R.push_back(O->getString("uri")->str() + ":" + std::to_string(O->getObject("range")->getObject("start")->getInteger("line").value_or(-1)));
  };
  if (auto *A = V.getAsArray()) for (auto &X : *A) One(X);
  else if (!V.getAsNull()) One(V);
  return R;
}
std::string uriFor(std::string F) {
  std::string R = "file://";
  for (char C : F) if (C == ' ') R += "%20"; else R += C;
  return R;
}
std::string lines(const std::vector<std::string> &L) {
  std::string R = "[";
  for (auto &X : L) R += " " + X;
  return R + " ]";
}
void over(Server &V, const std::string &U) {
  V.close(U);
  V.sync();
  V.forget();
}
/// Selections: the whole of it is asked for at every name of its path.
struct Sele { size_t B, E, PB, PE; Sel Path; bool Known; std::vector<Rg> Names; };
std::vector<Sele> selections(const Idioms &Id, const ref::P &Root) {
  std::vector<Sele> R;
  std::function<void(const ref::P &)> Go = [&](const ref::P &N) {
    if (N->K == ref::Select || N->K == ref::SelectOr) {
      Sele X{N->B, N->E, N->Ch[1]->B, N->Ch[1]->E};
      std::optional<Sel> S;
      if (N->Ch[0]->K == ref::Var) S = Id.of(N->Ch[0]);
      for (auto &C : N->Ch[1]->Ch) {
        std::string Nm;
        if (ref::staticName(C, Nm)) {
          if (S) S->push_back(Nm);
          if (C->K == ref::NId) X.Names.push_back({C->B, C->E});
        } else S = {};
      }
      if ((X.Known = !!S)) X.Path = *S;
      if (!X.Names.empty()) R.push_back(X);
    }
    for (auto &C : N->Ch) if (C->K != ref::Lit) Go(C);
  };
  Go(Root);
  return R;
}
Value ask(Server &V, const char *M, const std::string &U, const std::string &T, size_t P) {
  auto R = V.call(M, at(U, T, P));
  check(R.Ok, M, R.Msg);
  return std::move(R.Result);
}
const Pkg *known(const Sel &S) {
  auto It = packages().find(joined(S));
  return It == packages().end() ? nullptr : &It->second;
}

Sub Packages("packages", 2600, 80000, [](Ctx &C) {
  auto &S = C.S;
  auto T = idiomProgram(S);
  C.show("text", T);
  ref::P Root;
  auto Sc = scopesOf(T, &Root, true);
  Idioms Id(Sc);
  auto &V = server();
  std::string U = "file:///t/hov.nix";
  auto Se = selections(Id, Root);
  std::vector<const ref::VarUse *> Vars;
  for (auto &X : Sc.Vars) Vars.push_back(&X);
  if (Se.empty() && Vars.empty()) throw Discard{};
  V.open(U, T);
  unsigned N = 0;
  for (unsigned K = 2; K--;) {
    if (!Se.empty() && (Vars.empty() || S.chance(50))) {
      auto &X = S.pick(Se);
      auto [B, E] = S.pick(X.Names);
      size_t P = cursorIn(S, T, B, E);
      // A name right after the base, or before the default.
      if (P == E && E < T.size() && T[E] != ' ') P = B;
      auto *I = X.Known ? known(X.Path) : nullptr;
      auto Asked = joined(X.Path) + "` at `" + T.substr(X.B, X.E - X.B);
      checkHover(ask(V, "textDocument/hover", U, T, P), I ? texts(*I) : std::vector<std::string>{}, T, {{X.B, X.E}}, Asked);
      auto L = locs(ask(V, "textDocument/definition", U, T, P));
      std::vector<std::string> Want;
      if (I && I->Where) Want.push_back(uriFor(I->Where->first) + ":" + std::to_string(I->Where->second));
      check(L == Want, "definition", "of `" + Asked + "`: " + lines(L) + ", expected " + lines(Want));
      if (I) ++N, C.label("selection");
    } else {
      auto &X = *S.pick(Vars);
      size_t P = X.Inherited ? X.B + (X.E - X.B > 1) : cursorIn(S, T, X.B, X.E);
      auto Path = Id.of(X);
      auto *I = Path ? known(*Path) : nullptr;
      auto Asked = (Path ? joined(*Path) : "?") + "` at `" + T.substr(X.B, X.E - X.B);
      if (!X.Inherited) checkHover(ask(V, "textDocument/hover", U, T, P), I ? texts(*I) : std::vector<std::string>{}, T, {{X.B, X.E}}, Asked);
      auto L = locs(ask(V, "textDocument/definition", U, T, P));
      std::vector<std::string> Want;
      bool Local = X.Kind == ref::VarUse::FromWith || X.Kind == ref::VarUse::Defined;
      if (Local && I && I->Where) Want.push_back(uriFor(I->Where->first) + ":" + std::to_string(I->Where->second));
      std::erase_if(L, [&](auto &Y) { return Y.starts_with(U); }); // its own definition is the matter of C17
      check(L == Want, "definition", "of `" + Asked + "`: " + lines(L) + ", expected " + lines(Want));
      if (I) ++N, C.label(X.Inherited ? "inherited" : "variable");
    }
  }
  over(V, U);
  C.nontrivial(N);
});

Sub Options("options", 2200, 60000, [](Ctx &C) {
  auto &S = C.S;
  auto T = optionProgram(S);
  C.show("text", T);
  ref::P Root;
  scopesOf(T, &Root);
  auto Ps = optionPlaces(Root);
  if (Ps.empty()) throw Discard{};
  auto &V = server();
  std::string U = "file:///t/hov.nix";
  V.open(U, T);
  unsigned N = 0;
  for (unsigned K = 2; K--;) {
    auto &X = S.pick(Ps);
    size_t P = cursorIn(S, T, X.B, X.E);
    auto J = joined(X.Path);
    std::vector<std::string> Tx, Want;
    for (int I = 0; I < 2; ++I) {
      auto It = options(I).find(J);
      if (!X.Known || It == options(I).end()) continue;
      ++N;
      if (Tx.empty()) Tx = texts(It->second);
      for (auto &[F, L] : It->second.Decls) Want.push_back(uriFor(F) + ":" + std::to_string(L));
    }
    checkHover(ask(V, "textDocument/hover", U, T, P), Tx, T, {{X.B, X.E}}, J);
    auto L = locs(ask(V, "textDocument/definition", U, T, P));
    check(L == Want, "definition", "of the option `" + J + "`: " + lines(L) + ", expected " + lines(Want));
  }
  over(V, U);
  C.nontrivial(N);
});
}
