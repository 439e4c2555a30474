#include "ref/core.h"
#include "ref/conv.h"
#include "ref/scope.h"
#include <functional>

namespace ref {
namespace {
struct TooBig {};
struct Env;
using E = std::shared_ptr<Env>;

/// What a name stands for.
struct Ent {
  std::string Text;                       ///< variables of lambdas
  std::shared_ptr<std::function<std::string(int)>> F; ///< unfolded where used
  int Id = 0;                             ///< identity of the binding
};
struct Env {
  E Up;
  std::map<std::string, Ent> Names;
  bool IsWith = false;
  std::function<std::string(int)> With;
};

struct Core {
  const CoreOpts &O;
  size_t Work = 0;
  int Ids = 0;
  std::vector<int> Stack;       ///< bindings being unfolded
  std::map<int, bool> Recursed; ///< unfolded within themselves

  explicit Core(const CoreOpts &O) : O(O) {}

  static std::string q(const std::string &S) {
    std::string R = "\"";
    for (char C : S) {
      if (C == '"' || C == '\\') R += '\\';
      R += C;
    }
    return R + "\"";
  }
  std::string cap(std::string S) {
    Work += S.size() + 1;
    if (Work > O.MaxSize * 4 || S.size() > O.MaxSize) throw TooBig{};
    return S;
  }

  std::string unfold(const Ent &X, int Lv) {
    if (!X.F) return X.Text;
    for (int I : Stack)
      if (I == X.Id) {
        Recursed[I] = true;
        return "<rec:" + std::to_string(I) + ">";
      }
    if (Stack.size() > 200) throw TooBig{};
    Stack.push_back(X.Id);
    auto R = (*X.F)(Lv);
    Stack.pop_back();
    if (Recursed[X.Id] && R.find("<rec:" + std::to_string(X.Id) + ">") != std::string::npos) R = "(mu <rec:" + std::to_string(X.Id) + "> " + R + ")";
    return cap(std::move(R));
  }

  std::string var(const std::string &N, const E &Ev, int Lv) {
    std::string Withs;
    int NW = 0;
    std::string Last;
    for (auto C = Ev; C; C = C->Up) {
      if (auto It = C->Names.find(N); It != C->Names.end()) return unfold(It->second, Lv);
      if (C->IsWith && !isGlobal(N) && !(NW && O.InnermostWith)) {
        Last = C->With(Lv);
        Withs += " " + Last;
        ++NW;
      }
    }
    if (isGlobal(N)) return N == "builtins" ? "builtins" : "(builtin " + N + ")";
    if (NW == 1) return sel(Last, q(N));
    if (NW) return cap("(from-with " + q(N) + Withs + ")");
    return "(undefined " + q(N) + ")";
  }

  static std::string sel(const std::string &Of, const std::string &Attr) {
    if (Of == "builtins" && Attr.size() > 2) {
      std::string N = Attr.substr(1, Attr.size() - 2);
      if (N == "builtins") return Of;
      if (isGlobal(N) && !N.starts_with("__")) return "(builtin " + N + ")";
      if (isGlobal("__" + N)) return "(builtin __" + N + ")";
    }
    return "(. " + Of + " " + Attr + ")";
  }

  std::string parts(const P &N, const E &Ev, int Lv) {
    std::string R, L;
    auto Flush = [&] {
      if (!L.empty()) R += " " + q(L);
      L.clear();
    };
    for (auto &C : N->Ch) {
      if (C->K == Lit) L += C->S;
      else {
        Flush();
        R += " (interp " + go(C->Ch[0], Ev, Lv) + ")";
      }
    }
    Flush();
    return R;
  }
  /// An indented string as Nix strips it.
  std::string indParts(const P &N, const E &Ev, int Lv) {
    struct Item { std::string T; bool Ind; P X; };
    std::vector<Item> L;
    for (auto &C : N->Ch) {
      if (C->K != Lit) L.push_back({"", false, C});
      else
        for (auto &[T, I] : C->Segs) L.push_back({T, I, nullptr});
    }
    if (!L.empty() && L[0].Ind) { // the opening line
      size_t K = L[0].T.find_first_not_of(' ');
      if (K != std::string::npos && L[0].T[K] == '\n') L[0].T.erase(0, K + 1);
      if (L[0].T.empty()) L.erase(L.begin());
    }
    bool Start = true;
    size_t Min = 1000000, Cur = 0;
    for (auto &I : L) {
      if (!I.Ind) {
        if (Start) Start = false, Min = std::min(Min, Cur);
        continue;
      }
      for (char C : I.T) {
        if (!Start) { if (C == '\n') Start = true, Cur = 0; }
        else if (C == ' ') ++Cur;
        else if (C == '\n') Cur = 0;
        else Start = false, Min = std::min(Min, Cur);
      }
    }
    std::string R, Lit;
    auto Flush = [&] {
      if (!Lit.empty()) R += " " + q(Lit);
      Lit.clear();
    };
    Start = true;
    size_t Dropped = 0;
    for (size_t K = 0; K < L.size(); ++K) {
      if (L[K].X) {
        Start = false, Dropped = 0;
        Flush();
        R += " (interp " + go(L[K].X->Ch[0], Ev, Lv) + ")";
        continue;
      }
      std::string T;
      for (char C : L[K].T) {
        if (Start && C == ' ') { if (Dropped++ >= Min) T += C; continue; }
        Dropped = 0;
        Start = C == '\n';
        T += C;
      }
      if (K + 1 == L.size())
        if (auto Q = T.rfind('\n'); Q != std::string::npos && T.find_first_not_of(' ', Q + 1) == std::string::npos) T.resize(Q + 1);
      Lit += T;
    }
    Flush();
    return R;
  }
  // A computed name that is constant all the same, e.g. ${with 1; "a"}: whether
  // it is static is only a matter of spelling.
  static std::string dyn(const std::string &X) {
    if (X.starts_with("(str") && X.find("(interp ") == std::string::npos) throw TooBig{};
    return "(dyn " + X + ")";
  }
  std::string name(const P &N, const E &Ev, int Lv) {
    std::string S;
    if (staticName(N, S)) return q(S);
    if (N->K == NDyn) {
      auto &X = N->Ch[0];
      P Y = X;
      while (Y->K == Paren) Y = Y->Ch[0];
      return dyn(go(X, Ev, Lv));
    }
    return dyn("(str" + parts(N, Ev, Lv) + ")");
  }

  /// Adds the names of a recursive set to an environment.
  E recEnv(const std::shared_ptr<Set> &S, const E &Ev) {
    auto In = std::make_shared<Env>();
    In->Up = Ev;
    // The environment refers to itself: the whole structure lives as long as
    // the run.
    Keep.push_back(In);
    std::weak_ptr<Env> W = In;
    for (auto &[N, A] : S->Static) {
      const Attr *At = &A;
      Ent X;
      X.Id = ++Ids;
      X.F = std::make_shared<std::function<std::string(int)>>([this, At, W, Ev, S](int Lv) { return attr(*At, W.lock(), Ev, Lv); });
      In->Names[N] = X;
    }
    return In;
  }
  std::vector<E> Keep;
  std::string attr(const Attr &A, const E &In, const E &Out, int Lv) {
    if (A.Kind == Attr::Inh) return var(A.Name, Out, Lv);
    if (A.Kind == Attr::InhFrom) return sel(go(A.Value, In, Lv), q(A.Name));
    if (A.Sub) return set(A.Sub, In, Lv);
    return go(A.Value, In, Lv);
  }

  std::string set(const std::shared_ptr<Set> &S, const E &Ev, int Lv) {
    E In = S->Rec ? recEnv(S, Ev) : Ev;
    std::string R = "{";
    for (auto &[N, A] : S->Static) {
      R += " " + q(N) + "=";
      R += S->Rec ? unfold(In->Names[N], Lv) : attr(A, In, Ev, Lv);
      R += ";";
      cap(R);
    }
    for (auto &D : S->Dynamic) {
      R += " " + name(D.Name, In, Lv) + "=";
      R += D.Sub ? set(D.Sub, In, Lv) : go(D.Value, In, Lv);
      R += ";";
      cap(R);
    }
    return R + " }";
  }

  std::string go(const P &N, const E &Ev, int Lv) {
    std::vector<Dup> Ds;
    switch (N->K) {
    case Paren: return go(N->Ch[0], Ev, Lv);
    case Var: return var(N->S, Ev, Lv);
    case Int: case Float: return N->S;
    case Uri: return "(str " + q(N->S) + ")";
    case Str: return cap("(str" + parts(N, Ev, Lv) + ")");
    case IndStr: return cap("(str" + indParts(N, Ev, Lv) + ")");
    case Path: case HomePath: return cap(std::string(N->K == Path ? "(path" : "(hpath") + parts(N, Ev, Lv) + ")");
    case SPath: return "(spath " + q(N->S) + ")";
    case Attrs: case RecAttrs: return set(lowerBinds(N->Ch, N->K == RecAttrs, N, Ds), Ev, Lv);
    case LegacyLet: {
      auto S = lowerBinds(N->Ch, true, N, Ds);
      auto In = recEnv(S, Ev);
      auto It = In->Names.find("body");
      return It == In->Names.end() ? "(no-body)" : unfold(It->second, Lv);
    }
    case Let: {
      auto S = lowerBinds(std::vector<P>(N->Ch.begin(), N->Ch.end() - 1), true, N, Ds);
      return go(N->Ch.back(), recEnv(S, Ev), Lv);
    }
    case With: {
      auto In = std::make_shared<Env>();
      In->Up = Ev;
      In->IsWith = true;
      P W = N->Ch[0];
      In->With = [this, W, Ev](int L) { return go(W, Ev, L); };
      return go(N->Ch[1], In, Lv);
    }
    case Lambda: {
      auto In = std::make_shared<Env>();
      In->Up = Ev;
      std::string L = std::to_string(Lv);
      P F = N->HasFormals ? N->Ch[0] : nullptr;
      if (N->HasArg) In->Names[N->S] = {"$" + L};
      std::map<std::string, P> Fs;
      bool Ell = false;
      if (F)
        for (auto &X : F->Ch) {
          if (X->K == Ellipsis) Ell = true;
          else {
            In->Names[X->S] = {"$" + L + "." + q(X->S)};
            Fs[X->S] = X;
          }
        }
      std::string R = "(fn";
      if (F) {
        R += " [";
        for (auto &[Nm, X] : Fs) {
          R += " " + q(Nm);
          if (X->K == FormalDef) R += "?" + go(X->Ch[0], In, Lv + 1);
        }
        R += Ell ? " ...]" : "]";
      }
      return cap(R + " " + go(N->Ch.back(), In, Lv + 1) + ")");
    }
    case Select: case SelectOr: {
      std::string Of = go(N->Ch[0], Ev, Lv);
      auto &Ns = N->Ch[1]->Ch;
      if (N->K == Select) {
        for (auto &X : Ns) Of = sel(Of, name(X, Ev, Lv));
        return cap(Of);
      }
      std::string R = "(or " + Of;
      for (auto &X : Ns) R += " " + name(X, Ev, Lv);
      return cap(R + " else " + go(N->Ch[2], Ev, Lv) + ")");
    }
    case HasAttr: {
      std::string R = "(? " + go(N->Ch[0], Ev, Lv);
      for (auto &X : N->Ch[1]->Ch) R += " " + name(X, Ev, Lv);
      return cap(R + ")");
    }
    case Call: {
      std::string F = go(N->Ch[0], Ev, Lv);
      for (size_t I = 1; I < N->Ch.size(); ++I) {
        auto &A = N->Ch[I];
        if (F == "(builtin import)" && A->K == Path && A->Ch.size() == 1) {
          auto It = O.Files.find(A->Ch[0]->S);
          if (It != O.Files.end()) {
            F = imported(It->second, I + 1 < N->Ch.size() ? N->Ch[I + 1] : nullptr, Ev, Lv, I);
            continue;
          }
        }
        F = "(" + F + " " + go(A, Ev, Lv) + ")";
      }
      return cap(F);
    }
    default: {
      std::string R = std::string("(") + kindName(N->K) + (N->S.empty() ? "" : " " + N->S);
      for (auto &C : N->Ch) R += " " + go(C, Ev, Lv);
      return cap(R + ")");
    }
    }
  }

  /// `import ./f.nix { inherit a; b = e; }` where the file is a function of a
  /// set without defaults: its body with the names bound.
  std::string imported(const P &File, const P &Arg, const E &Ev, int Lv, size_t &I) {
    P F = File;
    while (F->K == Paren) F = F->Ch[0];
    if (F->K != Lambda || !F->HasFormals || F->HasArg || !Arg) return go(File, nullptr, Lv);
    P A = Arg;
    while (A->K == Paren) A = A->Ch[0];
    if (A->K != Attrs) return go(File, nullptr, Lv);
    std::vector<Dup> Ds;
    auto S = lowerBinds(A->Ch, false, A, Ds);
    if (!S->Dynamic.empty() || !Ds.empty()) return go(File, nullptr, Lv);
    auto In = std::make_shared<Env>();
    size_t Have = 0;
    for (auto &X : F->Ch[0]->Ch) {
      if (X->K == Ellipsis) continue;
      if (X->K == FormalDef) return go(File, nullptr, Lv);
      auto It = S->Static.find(X->S);
      if (It == S->Static.end()) return "(missing-argument " + X->S + ")";
      ++Have;
      const Attr *At = &It->second;
      Ent En;
      En.Id = ++Ids;
      En.F = std::make_shared<std::function<std::string(int)>>([this, At, Ev, S](int L) { return attr(*At, Ev, Ev, L); });
      In->Names[X->S] = En;
    }
    if (Have != S->Static.size()) return "(unexpected-argument)";
    ++I;
    return go(F->Ch.back(), In, Lv);
  }
};

/// Names the fixed points by their order.
std::string renumber(const std::string &S) {
  std::string R;
  std::map<std::string, std::string> Names;
  size_t At = 0;
  for (;;) {
    size_t P = S.find("<rec:", At);
    if (P == std::string::npos) return R + S.substr(At);
    size_t Q = S.find('>', P);
    auto K = S.substr(P, Q - P);
    auto It = Names.insert({K, "<r" + std::to_string(Names.size()) + ">"}).first;
    R += S.substr(At, P - At) + It->second;
    At = Q + 1;
  }
}
} // namespace

std::optional<std::string> core(const P &Root, const CoreOpts &O) {
  Core C(O);
  try {
    return renumber(C.go(Root, nullptr, 0));
  } catch (TooBig &) {
    return std::nullopt;
  }
}
std::optional<std::string> coreOf(std::string_view Src, const CoreOpts &O) {
  auto R = parse(Src);
  if (!R.ok()) return std::nullopt;
  canon(R.Root);
  return core(R.Root, O);
}
} // namespace ref
