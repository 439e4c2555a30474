// What the providers are asked about a place in a text: a model of the idioms
// `pkgs`, `lib`, `with` and of option paths, on reference trees.
#pragma once
#include "srv/scoped.h"

namespace srv {
using Sel = std::vector<std::string>;
struct Place {
  size_t B, E;        ///< the name
  bool IsVar = false; ///< a variable, or a name of a selection's path
  Sel Path;           ///< what is asked, the name itself included
  bool Known = false; ///< there is something to ask
  bool Many = false;  ///< several `with` may provide it
};
class Idioms {
  const ref::Scopes &Sc;
  std::map<Rg, const ref::VarUse *> Uses;

public:
  explicit Idioms(const ref::Scopes &Sc) : Sc(Sc) {
    for (auto &X : Sc.Vars) if (!X.Inherited) Uses[{X.B, X.E}] = &X;
  }
  const ref::VarUse *use(const ref::P &V) const {
    auto It = Uses.find({V->B, V->E});
    return It == Uses.end() ? nullptr : It->second;
  }
  std::optional<Sel> of(const ref::VarUse &X) const {
    if (X.Kind == ref::VarUse::FromWith) {
      auto S = of(Sc.Defs[X.Withs.front()].At->Ch[0]);
      if (S) S->push_back(X.Name);
      return S;
    }
    if (X.Name == "pkgs") return Sel{};
    if (X.Name == "lib") return Sel{"lib"};
    return {};
  }
  std::optional<Sel> of(const ref::P &N) const {
    if (N->K == ref::Var) {
      auto *X = use(N);
      if (!X) return {};
      return of(*X);
    }
    if (N->K == ref::Select) {
      if (N->Ch[0]->K != ref::Var) return {};
      auto S = of(N->Ch[0]);
      if (!S) return {};
      for (auto &C : N->Ch[1]->Ch) {
        std::string Nm;
        if (!ref::staticName(C, Nm)) return {};
        S->push_back(Nm);
      }
      return S;
    }
    return {};
  }
  /// Every variable and every plain name of a selection.
  std::vector<Place> places(const ref::P &Root) const {
    std::vector<Place> R;
    std::function<void(const ref::P &)> Go = [&](const ref::P &N) {
      if (N->K == ref::Var) {
        Place X{N->B, N->E, true};
        if (auto S = of(N)) X.Path = *S, X.Known = true;
        if (auto *U = use(N)) X.Many = U->Withs.size() > 1;
        R.push_back(X);
      }
      if (N->K == ref::Select || N->K == ref::SelectOr) {
        std::optional<Sel> S;
        bool Many = false;
        if (N->Ch[0]->K == ref::Var) {
          S = of(N->Ch[0]);
          if (auto *U = use(N->Ch[0])) Many = U->Withs.size() > 1;
        }
        for (auto &C : N->Ch[1]->Ch) {
          std::string Nm;
          if (ref::staticName(C, Nm)) { if (S) S->push_back(Nm); }
          else S = {};
          if (C->K != ref::NId) continue;
          Place X{C->B, C->E};
          if (S) X.Path = *S, X.Known = true;
          X.Many = Many;
          R.push_back(X);
        }
      }
      for (auto &C : N->Ch) if (C->K != ref::Lit) Go(C);
    };
    Go(Root);
    return R;
  }
};
/// Names of bindings, with the path of options they stand for.
inline std::vector<Place> optionPlaces(const ref::P &Root) {
  std::vector<Place> R;
  // Path: names above, if known. Sure: the place is of attribute sets only.
  std::function<void(const ref::P &, const std::optional<Sel> &, bool)> Go = [&](const ref::P &N, const std::optional<Sel> &Above, bool Sure) {
    switch (N->K) {
    case ref::Attrs: case ref::RecAttrs: case ref::Let: case ref::LegacyLet: {
      bool Ok = N->K == ref::Attrs || N->K == ref::RecAttrs;
      for (auto &B : N->Ch) {
        if (B->K != ref::Bind) continue; // nothing is offered inside of `inherit (...)`
        auto Path = Above;
        for (auto &C : B->Ch[0]->Ch) {
          std::string Nm;
          if (ref::staticName(C, Nm)) { if (Path) Path->push_back(Nm); }
          else Path = {};
          if (C->K == ref::NId && Ok && Sure) {
            Place X{C->B, C->E};
            if (Path) {
              X.Path = *Path;
              X.Known = true;
              if (X.Path.size() > 1 && X.Path[0] == "config") X.Path.erase(X.Path.begin());
            }
            R.push_back(X);
          }
          for (auto &D : C->Ch) if (D->K != ref::Lit) Go(D, Sel{}, true);
        }
        auto &V = B->Ch[1];
        if (V->K == ref::Attrs || V->K == ref::RecAttrs) Go(V, Path, Ok && Sure);
        else Go(V, Sel{}, true);
      }
      return;
    }
    default:
      for (auto &C : N->Ch) if (C->K != ref::Lit) Go(C, Sel{}, true);
    }
  };
  Go(Root, Sel{}, true);
  return R;
}
inline std::string joined(const Sel &S) {
  std::string R;
  for (auto &X : S) { if (!R.empty()) R += '.'; R += X; }
  return R;
}
inline bool isIdent(const std::string &N) {
  if (N.empty() || !(isalpha((unsigned char)N[0]) || N[0] == '_')) return false;
  for (unsigned char C : N) if (!isalnum(C) && !strchr("_'-", C)) return false;
  static const std::set<std::string> Kw{"if", "then", "else", "assert", "with", "let", "in", "rec", "inherit", "or"};
  return !Kw.contains(N);
}
/// Does Text, written as an attribute name, mean Name?
inline bool spells(const std::string &Text, const std::string &Name) {
  auto R = ref::parse("{ " + Text + " = 1; }");
  if (!R.ok() || R.Root->K != ref::Attrs || R.Root->Ch.size() != 1 || R.Root->Ch[0]->K != ref::Bind) return false;
  auto &Pa = R.Root->Ch[0]->Ch[0]->Ch;
  std::string N;
  return Pa.size() == 1 && ref::staticName(Pa[0], N) && N == Name;
}
/// Programs full of idioms.
inline std::string idiomProgram(pbt::Src &S) {
  auto O = scopedOpts(S);
  O.With = true;
  O.UndefPct = 35;
  O.Dups = false;
  O.Budget = 4 + S.below(24);
  O.Names = {"pkgs", "foo", "fo", "a", "lib", "f"};
  std::string T;
  for (unsigned N = S.below(4); N; --N)
    T += S.pick({"with pkgs; ", "{ pkgs, lib, ... }: ", "with lib; ", "pkgs: ", "with pkgs.a; ", "with lib.foo; ", "let x = pkgs.foo.a; in ", "[ pkgs.fo.f lib.a ] ++ ", "with (pkgs); ", "with pkgs.a.\"f\"; ", "[ fo a f ] ++ ", "lib.fo.a (f) "});
  return T + gen::program(S, O);
}
inline std::string optionProgram(pbt::Src &S) {
  auto O = scopedOpts(S);
  O.UndefPct = 20;
  O.Dups = false;
  O.Budget = 4 + S.below(24);
  O.Names = {"config", "foo", "fo", "a", "f"};
  std::string T, End;
  for (unsigned N = S.below(4); N; --N) {
    T += S.pick({"{ config.foo = ", "{ a = ", "{ fo.a = ", "{ ${foo} = ", "rec { \"f\" = ", "{ config = ", "{ lib, ... }: { a.f = 1; foo = ", "{ f.${\"a\"} = "});
    End = "; }" + End;
  }
  return T + gen::program(S, O) + End;
}
} // namespace srv
