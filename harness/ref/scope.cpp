#include <array>
#include "ref/scope.h"
#include <functional>

namespace ref {

bool staticName(const P &N, std::string &Out) {
  if (N->K == NId) {
    Out = N->S;
    return true;
  }
  P X = N;
  if (N->K == NDyn) {
    // `${"a"}` is `a`
    X = N->Ch[0];
    while (X->K == Paren) X = X->Ch[0];
    if (X->K == Uri) {
      Out = X->S;
      return true;
    }
    if (X->K != Str && X->K != IndStr) return false;
  } else if (N->K != NStr) return false;
  std::string R;
  for (auto &C : X->Ch) {
    if (C->K != Lit) return false;
    R += C->S;
  }
  Out = R;
  return true;
}

namespace {
std::shared_ptr<Set> setOf(P V, std::vector<Dup> &Dups) {
  while (V->K == Paren) V = V->Ch[0]; // they leave no trace in the tree of Nix
  if (V->K == Attrs || V->K == RecAttrs) return lowerBinds(V->Ch, V->K == RecAttrs, V, Dups);
  return nullptr;
}

void addAttr(const std::shared_ptr<Set> &Top, const P &Path, const P &V, std::vector<Dup> &Dups) {
  // The value is parsed before it is added.
  auto VSet = setOf(V, Dups);
  auto S = Top;
  auto &Ns = Path->Ch;
  for (size_t I = 0; I + 1 < Ns.size(); ++I) {
    std::string Nm;
    auto &N = Ns[I];
    if (staticName(N, Nm)) {
      auto It = S->Static.find(Nm);
      if (It != S->Static.end()) {
        if (It->second.Kind != Attr::Plain || !It->second.Sub) {
          Dups.push_back({Nm, N->B, N->E, It->second.KB, It->second.KE});
          return;
        }
        S = It->second.Sub;
      } else {
        auto Sub = std::make_shared<Set>();
        S->Static[Nm] = Attr{Nm, N->B, N->E, Attr::Plain, nullptr, Sub};
        S = Sub;
      }
    } else {
      auto Sub = std::make_shared<Set>();
      S->Dynamic.push_back({N, nullptr, Sub});
      S = Sub;
    }
  }
  auto &N = Ns.back();
  std::string Nm;
  if (!staticName(N, Nm)) {
    S->Dynamic.push_back({N, V, VSet});
    return;
  }
  auto It = S->Static.find(Nm);
  if (It == S->Static.end()) {
    S->Static[Nm] = Attr{Nm, N->B, N->E, Attr::Plain, V, VSet};
    return;
  }
  if (It->second.Kind == Attr::Plain && It->second.Sub && VSet) {
    auto &J = *It->second.Sub;
    for (auto &[K, A] : VSet->Static) {
      auto It2 = J.Static.find(K);
      if (It2 != J.Static.end()) Dups.push_back({K, A.KB, A.KE, It2->second.KB, It2->second.KE});
      else J.Static[K] = A;
    }
    for (auto &D : VSet->Dynamic) J.Dynamic.push_back(D);
    return;
  }
  Dups.push_back({Nm, N->B, N->E, It->second.KB, It->second.KE});
}
} // namespace

std::shared_ptr<Set> lowerBinds(const std::vector<P> &Binds, bool Rec, const P &Node, std::vector<Dup> &Dups) {
  auto S = std::make_shared<Set>();
  S->Rec = Rec;
  S->Node = Node;
  for (auto &B : Binds) {
    if (B->K == Bind) {
      addAttr(S, B->Ch[0], B->Ch[1], Dups);
    } else if (B->K == Inherit || B->K == InheritFrom) {
      bool From = B->K == InheritFrom;
      for (size_t I = From; I < B->Ch.size(); ++I) {
        auto &N = B->Ch[I];
        std::string Nm;
        if (!staticName(N, Nm)) {
          S->DynInherit = true;
          continue;
        }
        auto It = S->Static.find(Nm);
        if (It != S->Static.end()) Dups.push_back({Nm, N->B, N->E, It->second.KB, It->second.KE});
        else S->Static[Nm] = Attr{Nm, N->B, N->E, From ? Attr::InhFrom : Attr::Inh, From ? B->Ch[0] : nullptr, nullptr};
      }
    }
  }
  return S;
}

// Names of the global scope of Nix.
static const std::set<std::string> &globalPrimOps() {
  static const std::set<std::string> S = [] {
    std::set<std::string> R = {"abort", "baseNameOf", "break", "derivationStrict", "dirOf", "fetchGit", "fetchMercurial", "fetchTarball", "fetchTree",
      "fromTOML", "import", "isNull", "map", "placeholder", "removeAttrs", "scopedImport", "throw", "toString"};
    for (auto *N : {"add", "addDrvOutputDependencies", "addErrorContext", "all", "any", "appendContext", "attrNames", "attrValues", "bitAnd", "bitOr", "bitXor",
      "catAttrs", "ceil", "compareVersions", "concatLists", "concatMap", "concatStringsSep", "convertHash", "deepSeq", "div", "elem", "elemAt", "fetchurl",
      "filter", "filterSource", "findFile", "floor", "foldl'", "fromJSON", "functionArgs", "genList", "genericClosure", "getAttr", "getContext", "getEnv",
      "groupBy", "hasAttr", "hasContext", "hashFile", "hashString", "head", "intersectAttrs", "isAttrs", "isBool", "isFloat", "isFunction", "isInt", "isList",
      "isPath", "isString", "length", "lessThan", "listToAttrs", "mapAttrs", "match", "mul", "outputOf", "parseDrvName", "parseFlakeRef", "partition", "path",
      "pathExists", "readDir", "readFile", "readFileType", "replaceStrings", "seq", "sort", "split", "splitVersion", "storePath", "stringLength", "sub",
      "substring", "tail", "toFile", "toJSON", "toPath", "toXML", "trace", "traceVerbose", "tryEval", "typeOf", "unsafeDiscardOutputDependency",
      "unsafeDiscardStringContext", "unsafeGetAttrPos", "warn", "zipAttrsWith", "flakeRefToString", "getFlake"})
      R.insert(std::string("__") + N);
    return R;
  }();
  return S;
}
static const std::set<std::string> ConstantNames = {"true", "false", "null", "__currentTime", "__currentSystem", "__nixVersion", "__storeDir",
  "__langVersion", "__importNative", "__traceVerbose", "__nixPath", "derivation"};

bool isConstant(const std::string &N) { return ConstantNames.contains(N); }
bool isGlobalPrimOp(const std::string &N) { return globalPrimOps().contains(N) && !isConstant(N); }
bool isGlobal(const std::string &N) { return N == "builtins" || N == "__curPos" || isConstant(N) || globalPrimOps().contains(N); }
bool isPrefixOnly(const std::string &N) { return !isGlobal(N) && globalPrimOps().contains("__" + N); }

namespace {
struct Env {
  std::shared_ptr<Env> Up;
  std::map<std::string, int> Names;
  int With = -1; ///< definition index of the with
};
using E = std::shared_ptr<Env>;

struct Resolver {
  Scopes R;
  std::string_view Src;
  bool WantEnv;

  void use(const std::string &N, size_t B, size_t En, const E &Ev, bool Inherited = false) {
    VarUse V{N, B, En};
    V.Inherited = Inherited;
    for (auto C = Ev; C; C = C->Up) {
      if (auto It = C->Names.find(N); It != C->Names.end()) {
        V.Kind = VarUse::Defined;
        V.Def = It->second;
        V.Withs.clear();
        break;
      }
      if (C->With >= 0) V.Withs.push_back(C->With);
    }
    if (V.Def < 0) {
      if (isGlobal(N)) {
        V.Kind = VarUse::Builtin;
        V.Withs.clear();
      } else if (!V.Withs.empty()) V.Kind = VarUse::FromWith;
    }
    if (WantEnv)
      for (auto C = Ev; C; C = C->Up)
        for (auto &[K, D] : C->Names) V.Env.insert({K, D});
    int Id = R.Vars.size();
    if (V.Def >= 0) R.Defs[V.Def].Uses.push_back(Id);
    for (int W : V.Withs) R.Defs[W].Uses.push_back(Id);
    R.Vars.push_back(std::move(V));
  }

  int def(std::string N, size_t B, size_t En, Source S, size_t Scope, const P &At) {
    R.Defs.push_back({std::move(N), B, En, S, {}, false, Scope, At});
    int Id = R.Defs.size() - 1;
    R.Of[Scope].Defs.push_back(Id);
    return Id;
  }


  E setImpl(const Set &S, const E &Ev, Source Kind, int SK, const P &At) {
    E In = Ev;
    if (S.Rec) {
      In = std::make_shared<Env>();
      In->Up = Ev;
      size_t Sc = R.Of.size();
      ScopeInfo SI{};
      SI.B = At->B, SI.E = At->E;
      SI.Kind = (decltype(SI.Kind))SK;
      R.Of.push_back(SI);
      for (auto &[N, A] : S.Static) {
        int D = def(N, A.KB, A.KE, Kind, Sc, At);
        R.Defs[D].FromBuiltins = A.Kind == Attr::InhFrom && A.Value->K == Var && A.Value->S == "builtins";
        In->Names[N] = D;
      }
    }
    std::set<const Node *> Seen;
    for (auto &[N, A] : S.Static) {
      if (A.Kind == Attr::Inh) use(N, A.KB, A.KE, Ev, true);
      else if (A.Kind == Attr::InhFrom) {
        if (Seen.insert(A.Value.get()).second) go(A.Value, In);
      } else if (A.Sub) sub(*A.Sub, In);
      else go(A.Value, In);
    }
    for (auto &D : S.Dynamic) {
      name(D.Name, In);
      if (D.Sub) sub(*D.Sub, In);
      else go(D.Value, In);
    }
    return In;
  }
  void sub(const Set &S, const E &Ev) {
    if (S.DynInherit) R.DynInherit.push_back({0, 0});
    setImpl(S, Ev, Source::Rec, ScopeInfo::Rec, S.Node);
  }
  void name(const P &N, const E &Ev) {
    for (auto &C : N->Ch) {
      if (C->K == Lit) continue;
      if (C->K == Interp) go(C->Ch[0], Ev);
      else go(C, Ev);
    }
  }

  void go(const P &N, const E &Ev) {
    switch (N->K) {
    case Var: return use(N->S, N->B, N->E, Ev);
    case Attrs: case RecAttrs: {
      auto S = lowerBinds(N->Ch, N->K == RecAttrs, N, R.Dups);
      sub(*S, Ev);
      return;
    }
    case LegacyLet: {
      auto S = lowerBinds(N->Ch, true, N, R.Dups);
      if (S->DynInherit) R.DynInherit.push_back({0, 0});
      setImpl(*S, Ev, Source::Rec, ScopeInfo::LegacyLet, N);
      return;
    }
    case Let: {
      std::vector<P> Bs(N->Ch.begin(), N->Ch.end() - 1);
      auto S = lowerBinds(Bs, true, N, R.Dups);
      if (S->DynInherit) R.DynInherit.push_back({0, 0});
      for (auto &D : S->Dynamic) R.LetDyn.push_back({D.Name->B, D.Name->E});
      auto In = setImpl(*S, Ev, Source::Let, ScopeInfo::Let, N);
      go(N->Ch.back(), In);
      return;
    }
    case With: {
      go(N->Ch[0], Ev);
      auto In = std::make_shared<Env>();
      In->Up = Ev;
      ScopeInfo SI{};
      SI.B = N->B, SI.E = N->E;
      SI.Kind = ScopeInfo::With;
      R.Of.push_back(SI);
      In->With = def("with", N->B, N->B + 4, Source::With, R.Of.size() - 1, N);
      go(N->Ch[1], In);
      return;
    }
    case Lambda: {
      auto In = std::make_shared<Env>();
      In->Up = Ev;
      ScopeInfo SI{};
      SI.B = N->B, SI.E = N->E;
      SI.Kind = ScopeInfo::Lambda;
      size_t Sc = R.Of.size();
      R.Of.push_back(SI);
      P F = N->HasFormals ? N->Ch[0] : nullptr;
      if (F)
        for (auto &X : F->Ch) {
          if (X->K == Ellipsis) continue;
          auto It = In->Names.find(X->S);
          if (It != In->Names.end()) {
            R.DupFormals.push_back({X->B, X->B + X->S.size(), R.Defs[It->second].B, R.Defs[It->second].E});
            continue;
          }
          In->Names[X->S] = def(X->S, X->B, X->B + X->S.size(), N->HasArg ? Source::FormalWithArg : Source::FormalNoArg, Sc, N);
        }
      if (N->HasArg) {
        auto It = In->Names.find(N->S);
        if (It != In->Names.end()) R.DupArgs.push_back({N->ArgB, N->ArgE, R.Defs[It->second].B, R.Defs[It->second].E});
        else In->Names[N->S] = def(N->S, N->ArgB, N->ArgE, F ? Source::ArgWithFormals : Source::Arg, Sc, N);
      }
      if (F)
        for (auto &X : F->Ch)
          if (X->K == FormalDef) go(X->Ch[0], In);
      go(N->Ch.back(), In);
      return;
    }
    case Inherit: case InheritFrom: case Bind: return; // in sets
    case AttrPath:
      for (auto &C : N->Ch) name(C, Ev);
      return;
    default:
      for (auto &C : N->Ch)
        if (C->K != Lit) go(C, Ev);
    }
  }
};
} // namespace

Scopes resolve(const P &Root, std::string_view Src, bool WithEnv) {
  Resolver Rs;
  Rs.Src = Src;
  Rs.WantEnv = WithEnv;
  Rs.go(Root, nullptr);
  return std::move(Rs.R);
}
} // namespace ref
