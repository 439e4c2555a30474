// Property-based testing engine.
//
// A property is a function over a choice tape (Src). Every random decision a
// generator takes is one recorded number, so a failing case is its tape:
// shrinking edits the tape and runs the same generator again, and a replay file
// holds the tape. Cases run in forked workers, so a crash, a failed assertion,
// a sanitizer report or a hang is one failing case.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <string_view>
#include <vector>

namespace pbt {

struct Discard {};

/// A violated property. Key names the kind of the violation (shrinking keeps
/// it), Msg says what was expected and seen.
struct Fail {
  std::string Key, Msg;
};

[[noreturn]] void fail(std::string Key, std::string Msg);
#define PBT_STR2(x) #x
#define PBT_STR(x) PBT_STR2(x)
inline void check(bool Ok, const char *Key, const std::string &Msg) {
  if (!Ok)
    fail(Key, Msg);
}

/// Is this a finding recorded in known-findings.json?
bool listed(const std::string &Id);

class Src {
  std::vector<uint64_t> Tape;
  size_t Pos = 0;
  bool Replay = false;
  uint64_t State;
  uint64_t next();

public:
  explicit Src(uint64_t Seed) : State(Seed) {}
  explicit Src(std::vector<uint64_t> T) : Tape(std::move(T)), Replay(true) {}
  /// 0 <= r < n; the shrinker moves r towards 0.
  uint64_t below(uint64_t N);
  int64_t range(int64_t Lo, int64_t Hi) { return Lo + (int64_t)below(Hi - Lo + 1); }
  /// True with probability P percent. Shrinks to false.
  bool chance(unsigned P) { return below(100) >= 100 - P; }
  template <class T> const T &pick(const std::vector<T> &V) { return V[below(V.size())]; }
  template <class T> T pick(std::initializer_list<T> V) { return V.begin()[below(V.size())]; }
  /// Index chosen with the given weights. Shrinks to 0.
  size_t weighted(std::initializer_list<unsigned> W);
  /// Small number, geometric. Shrinks to 0.
  unsigned small(unsigned Max, unsigned ContinuePct = 60);
  const std::vector<uint64_t> &tape() const { return Tape; }
  size_t used() const { return Pos; }
};

/// What one case did: for the evidence, and for the replay file.
class Ctx {
public:
  Src &S;
  std::set<std::string> Labels;
  std::vector<std::pair<std::string, std::string>> Shown;
  bool NonTrivial = false;
  std::string Finger; ///< distinctness key of the case
  explicit Ctx(Src &S) : S(S) {}
  void label(std::string L) { Labels.insert(std::move(L)); }
  void nontrivial(bool B = true) { NonTrivial |= B; }
  /// Record generated input. Also goes in the distinctness key. It survives a
  /// crash of the case.
  void show(const std::string &Name, const std::string &Value);
  /// A violation that may be a recorded finding: it fails unless Id is listed.
  void known(const std::string &Id, const std::string &Key, const std::string &Msg) {
    if (!listed(Id))
      fail(Key, Msg);
    label("KNOWN:" + Id);
  }
  /// Record observed output (for the replay file only).
  void note(const std::string &Name, const std::string &Value) { Shown.emplace_back(Name, Value); }
};

using Prop = std::function<void(Ctx &)>;

/// Registers a sub-property. Quick and Thorough are numbers of cases.
struct Sub {
  const char *Name;
  unsigned Quick, Thorough;
  Prop P;
  unsigned TimeoutSec = 120;
  unsigned Retries = 10; ///< a failure that does not come back at once is tried so often
  Sub(const char *Name, unsigned Quick, unsigned Thorough, Prop P, unsigned TimeoutSec = 120);
};

/// Escapes bytes so that a text is readable in a message.
std::string esc(std::string_view S, size_t Max = 4000);
uint64_t hash(std::string_view S, uint64_t H = 1469598103934665603ull);

/// The property's text, for the evidence: how cases are made, what counts as
/// non-trivial.
extern const char *Rule;

/// What this binary does when it is started as the evaluation worker.
extern int (*WorkerMain)();

/// Remaining arguments of the driver (after --).
extern std::vector<std::string> Extra;
} // namespace pbt
