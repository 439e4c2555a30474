#include "core/pbt.h"
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <nlohmann/json.hpp>
#include <poll.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

using nlohmann::json;

extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:exitcode=99:allocator_may_return_null=1:"
         "detect_stack_use_after_return=0:handle_abort=0:symbolize=0:"
         "malloc_context_size=4:quarantine_size_mb=16:print_legend=0:"
         "log_to_syslog=0:hard_rss_limit_mb=3500";
}
extern "C" const char *__ubsan_default_options() {
  return "print_stacktrace=0:halt_on_error=1:exitcode=99:symbolize=0";
}

namespace pbt {


std::vector<std::string> Extra;

void fail(std::string Key, std::string Msg) { throw Fail{std::move(Key), std::move(Msg)}; }

static uint64_t mix(uint64_t Z) {
  Z = (Z ^ (Z >> 30)) * 0xbf58476d1ce4e5b9ull;
  Z = (Z ^ (Z >> 27)) * 0x94d049bb133111ebull;
  return Z ^ (Z >> 31);
}
uint64_t hash(std::string_view S, uint64_t H) {
  for (unsigned char C : S)
    H = (H ^ C) * 1099511628211ull;
  return mix(H);
}

uint64_t Src::next() { return mix(State += 0x9e3779b97f4a7c15ull); }

uint64_t Src::below(uint64_t N) {
  if (N <= 1)
    return 0;
  if (Replay) {
    uint64_t V = Pos < Tape.size() ? Tape[Pos] : 0;
    ++Pos;
    return V < N ? V : V % N;
  }
  uint64_t V = next() % N;
  Tape.push_back(V);
  ++Pos;
  return V;
}

size_t Src::weighted(std::initializer_list<unsigned> W) {
  unsigned T = 0;
  for (unsigned X : W)
    T += X;
  uint64_t R = below(T);
  size_t I = 0;
  for (unsigned X : W) {
    if (R < X)
      return I;
    R -= X;
    ++I;
  }
  return 0;
}

unsigned Src::small(unsigned Max, unsigned P) {
  unsigned N = 0;
  while (N < Max && chance(P))
    ++N;
  return N;
}

std::string esc(std::string_view S, size_t Max) {
  std::string R;
  size_t N = 0;
  for (unsigned char C : S) {
    if (N++ >= Max) {
      R += "...";
      break;
    }
    if (C == '\n')
      R += "\\n";
    else if (C == '\r')
      R += "\\r";
    else if (C == '\t')
      R += "\\t";
    else if (C == '\\')
      R += "\\\\";
    else if (C < 0x20 || C >= 0x7f) {
      char B[8];
      snprintf(B, sizeof B, "\\x%02x", C);
      R += B;
    } else
      R += (char)C;
  }
  return R;
}

// ---------------------------------------------------------------- registry

static std::vector<Sub *> &subs() {
  static std::vector<Sub *> V;
  return V;
}
Sub::Sub(const char *Name, unsigned Quick, unsigned Thorough, Prop P, unsigned T)
    : Name(Name), Quick(Quick), Thorough(Thorough), P(std::move(P)), TimeoutSec(T) {
  subs().push_back(this);
}

/// A region shared with the parent, holding what the current case showed.
struct Shared {
  volatile uint64_t Case;
  volatile uint32_t Sub;
  volatile uint32_t Active;
  volatile uint32_t Len;
  char Text[1 << 16];
};
static Shared *Sh = nullptr;

void Ctx::show(const std::string &Name, const std::string &Value) {
  Shown.emplace_back(Name, Value);
  Finger += Name + "\x01" + Value + "\x02";
  if (Sh) {
    std::string T = Name + ": " + esc(Value, 8000) + "\n";
    size_t L = Sh->Len;
    if (L + T.size() < sizeof(Sh->Text)) {
      memcpy(Sh->Text + L, T.data(), T.size());
      Sh->Len = L + T.size();
    }
  }
}

static Shared *mapShared() {
  void *P = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (P == MAP_FAILED) {
    perror("mmap");
    _exit(2);
  }
  return (Shared *)P;
}

static void armTimer(unsigned Sec) {
  struct itimerval T {};
  T.it_value.tv_sec = Sec;
  setitimer(ITIMER_REAL, &T, nullptr);
}
static void onAlarm(int) { _exit(97); }

struct Outcome {
  int Kind = 0; ///< 0 pass, 1 fail, 2 crash, 3 hang, 4 discard
  std::string Key, Msg, Text;
};

/// Runs one case in this process.
static Outcome runHere(Sub &P, Src &S, Ctx &C) {
  Outcome O;
  try {
    P.P(C);
  } catch (const Discard &) {
    O.Kind = 4;
  } catch (const Fail &F) {
    O.Kind = 1;
    O.Key = F.Key;
    O.Msg = F.Msg;
  } catch (const std::exception &E) {
    O.Kind = 1;
    O.Key = "exception";
    O.Msg = std::string("exception escaped: ") + E.what();
  }
  return O;
}

static std::string slurpFd(int FD) {
  std::string R;
  char B[4096];
  lseek(FD, 0, SEEK_SET);
  ssize_t N;
  while ((N = read(FD, B, sizeof B)) > 0)
    R.append(B, N);
  return R;
}

/// What killed the process: the line that says so, without addresses.
static std::string crashKey(const std::string &Err, int Status) {
  std::istringstream I(Err);
  std::string L;
  auto clean = [](std::string S) {
    std::string R;
    for (size_t I = 0; I < S.size(); ++I) {
      if (S.compare(I, 2, "0x") == 0) {
        R += "ADDR";
        I += 2;
        while (I < S.size() && isxdigit((unsigned char)S[I]))
          ++I;
        --I;
      } else
        R += S[I];
    }
    return R;
  };
  while (std::getline(I, L)) {
    size_t P;
    if ((P = L.find("Assertion `")) != std::string::npos)
      return "assert:" + clean(L.substr(P));
    if ((P = L.find("runtime error:")) != std::string::npos) {
      auto M = clean(L.substr(P));
      std::string R;
      for (char C : M) if (!isdigit((unsigned char)C)) R += C;
      return "ubsan:" + R;
    }
    if ((P = L.find("AddressSanitizer:")) != std::string::npos) {
      std::istringstream W(L.substr(P));
      std::string A, B;
      W >> A >> B;
      return "asan:" + B;
    }
    if ((P = L.find("terminate called")) != std::string::npos || (P = L.find("terminating")) != std::string::npos)
      return "terminate";
  }
  if (WIFSIGNALED(Status))
    return "signal:" + std::to_string(WTERMSIG(Status));
  return "exit:" + std::to_string(WEXITSTATUS(Status));
}

static int makeTmp() {
  int FD = memfd_create("pbt", 0);
  if (FD < 0) {
    perror("memfd_create");
    _exit(2);
  }
  return FD;
}

/// Runs one tape in a forked child.
static Outcome runForked(Sub &P, const std::vector<uint64_t> &Tape, std::vector<uint64_t> *UsedTape = nullptr) {
  static Shared *Mine = mapShared();
  Mine->Len = 0;
  int Out = makeTmp(), Err = makeTmp();
  fflush(stdout);
  pid_t Pid = fork();
  if (Pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    Sh = Mine;
    dup2(Err, 2);
    signal(SIGALRM, onAlarm);
    armTimer(P.TimeoutSec);
    Src S(Tape);
    Ctx C(S);
    Outcome O = runHere(P, S, C);
    json J{{"kind", O.Kind}, {"key", O.Key}, {"msg", O.Msg}, {"used", S.used()}, {"shown", json::array()}};
    for (auto &[N, V] : C.Shown)
      J["shown"].push_back(N + ": " + esc(V, 8000));
    std::string T = J.dump(-1, ' ', false, json::error_handler_t::replace);
    (void)!write(Out, T.data(), T.size());
    _exit(0);
  }
  int St = 0;
  waitpid(Pid, &St, 0);
  Outcome O;
  std::string R = slurpFd(Out), E = slurpFd(Err);
  close(Out);
  close(Err);
  if (WIFEXITED(St) && WEXITSTATUS(St) == 0 && !R.empty()) {
    json J = json::parse(R);
    O.Kind = J["kind"];
    O.Key = J["key"];
    O.Msg = J["msg"];
    for (auto &X : J["shown"])
      O.Text += X.get<std::string>() + "\n";
    if (UsedTape) {
      *UsedTape = Tape;
      if (J["used"].get<size_t>() < UsedTape->size())
        UsedTape->resize(J["used"]);
    }
  } else if (WIFEXITED(St) && WEXITSTATUS(St) == 97) {
    O.Kind = 3;
    O.Key = "hang";
    O.Msg = "the case did not finish within " + std::to_string(P.TimeoutSec) + " s";
    O.Text.assign(Mine->Text, Mine->Len);
  } else {
    O.Kind = 2;
    O.Key = crashKey(E, St);
    O.Msg = "the process died: " + O.Key + "\n" + E.substr(0, 3000);
    O.Text.assign(Mine->Text, Mine->Len);
  }
  return O;
}

static std::string sameKey(const Outcome &O) { return std::to_string(O.Kind == 3 ? 3 : 1) + O.Key; }

/// Tape-level shrinking: drop chunks, zero, then lower single choices.
static std::vector<uint64_t> shrink(Sub &P, std::vector<uint64_t> T, Outcome &Last, double Budget) {
  auto Start = std::chrono::steady_clock::now();
  auto Over = [&] {
    return std::chrono::duration<double>(std::chrono::steady_clock::now() - Start).count() > Budget;
  };
  std::string Key = sameKey(Last);
  auto Try = [&](const std::vector<uint64_t> &C) {
    std::vector<uint64_t> U;
    Outcome O = runForked(P, C, &U);
    if (O.Kind == 0 || O.Kind == 4 || sameKey(O) != Key)
      return false;
    T = U.empty() ? C : U;
    Last = O;
    return true;
  };
  if (Last.Kind == 3)
    Budget = std::min(Budget, 3.0 * P.TimeoutSec);
  bool Progress = true;
  while (Progress && !Over()) {
    Progress = false;
    for (size_t L = std::max<size_t>(T.size() / 2, 1); L >= 1 && !Over(); L /= 2) {
      for (size_t I = 0; I + L <= T.size() && !Over();) {
        auto C = T;
        C.erase(C.begin() + I, C.begin() + I + L);
        if (Try(C))
          Progress = true;
        else
          I += std::max<size_t>(L, 1);
      }
    }
    for (size_t L = 8; L >= 1 && !Over(); L /= 2)
      for (size_t I = 0; I + L <= T.size() && !Over(); I += L) {
        auto C = T;
        bool Any = false;
        for (size_t K = I; K < I + L; ++K) {
          Any |= C[K] != 0;
          C[K] = 0;
        }
        if (Any && Try(C))
          Progress = true;
      }
    for (size_t I = 0; I < T.size() && !Over(); ++I) {
      uint64_t Lo = 0, Hi = T[I];
      while (Lo < Hi && !Over()) {
        uint64_t M = Lo + (Hi - Lo) / 2;
        auto C = T;
        if (I >= C.size())
          break;
        C[I] = M;
        if (Try(C)) {
          Progress = true;
          Hi = I < T.size() ? std::min<uint64_t>(T[I], M) : 0;
        } else
          Lo = M + 1;
      }
    }
  }
  return T;
}

static void writeReplay(const std::string &Path, const std::string &Id, Sub &P, uint64_t Seed, uint64_t Case,
                        const std::vector<uint64_t> &T, const Outcome &O) {
  json J{{"property", Id}, {"sub", P.Name}, {"seed", Seed},        {"case", Case},
         {"tape", T},      {"key", O.Key},  {"violation", O.Msg}, {"input", json::array()}};
  std::istringstream I(O.Text);
  std::string L;
  while (std::getline(I, L))
    J["input"].push_back(L);
  std::ofstream(Path) << J.dump(1, ' ', false, json::error_handler_t::replace) << "\n";
}

static std::set<std::string> KnownIds;
bool listed(const std::string &Id) { return KnownIds.contains(Id); }

static int mainImpl(int Argc, char **Argv) {
  std::string Tier = "quick", OutPath, ReplayDir = "/tmp", Replay, Id = "?", Only;
  uint64_t Seed = 1;
  unsigned Jobs = 8;
  double Scale = 1, Limit = 1e9;
  for (int I = 1; I < Argc; ++I) {
    std::string A = Argv[I];
    auto Val = [&]() -> std::string { return ++I < Argc ? Argv[I] : ""; };
    if (A == "--tier") Tier = Val();
    else if (A == "--seed") Seed = strtoull(Val().c_str(), nullptr, 10);
    else if (A == "--out") OutPath = Val();
    else if (A == "--replay-dir") ReplayDir = Val();
    else if (A == "--replay") Replay = Val();
    else if (A == "--id") Id = Val();
    else if (A == "--jobs") Jobs = atoi(Val().c_str());
    else if (A == "--only") Only = Val();
    else if (A == "--known") {
      std::ifstream F(Val());
      json J = json::parse(F);
      for (auto &X : J["findings"]) KnownIds.insert(X["id"].get<std::string>());
    }
    else if (A == "--scale") Scale = atof(Val().c_str());
    else if (A == "--limit") Limit = atof(Val().c_str());
    else if (A == "--") { for (++I; I < Argc; ++I) Extra.push_back(Argv[I]); }
    else { fprintf(stderr, "unknown argument %s\n", A.c_str()); return 2; }
  }
  signal(SIGPIPE, SIG_IGN);
  auto T0 = std::chrono::steady_clock::now();
  auto Elapsed = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); };

  if (!Replay.empty()) {
    std::ifstream F(Replay);
    json J = json::parse(F);
    for (Sub *P : subs())
      if (P->Name == J["sub"].get<std::string>()) {
        if (getenv("PBT_INLINE")) { // for debugging: run in this process
          Src S(J["tape"].get<std::vector<uint64_t>>());
          Ctx C(S);
          P->P(C);
          return 0;
        }
        Outcome O = runForked(*P, J["tape"].get<std::vector<uint64_t>>());
        printf("%s\n%s\n", O.Text.c_str(), O.Kind == 0 ? "PASS" : O.Kind == 4 ? "DISCARD" : ("FAIL " + O.Key + "\n" + O.Msg).c_str());
        return O.Kind == 0 || O.Kind == 4 ? 0 : 1;
      }
    fprintf(stderr, "no such sub-property\n");
    return 2;
  }

  json Stats{{"subs", json::array()}, {"rule", Rule}};
  uint64_t TotEval = 0, TotNT = 0;
  json Samples = json::array();
  std::string ReplayPath;
  json Viol = json::array();

  for (size_t SI = 0; SI < subs().size(); ++SI) {
    Sub &P = *subs()[SI];
    if (!Only.empty() && Only != P.Name)
      continue;
    uint64_t N = (uint64_t)((Tier == "thorough" ? P.Thorough : P.Quick) * Scale);
    if (N == 0)
      continue;
    unsigned J = (unsigned)std::min<uint64_t>(Jobs, N);
    uint64_t SubSeed = hash(P.Name, mix(Seed + 0x1234567));
    struct W {
      pid_t Pid;
      int Out, Err;
      Shared *Sh;
      bool Done = false;
      int St = 0;
    };
    std::vector<W> Ws(J);
    for (unsigned K = 0; K < J; ++K) {
      W &X = Ws[K];
      X.Out = makeTmp();
      X.Err = makeTmp();
      X.Sh = mapShared();
      fflush(stdout);
      X.Pid = fork();
      if (X.Pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        Sh = X.Sh;
        dup2(X.Err, 2);
        signal(SIGALRM, onAlarm);
        uint64_t Eval = 0, Disc = 0;
        std::map<std::string, uint64_t> Lab;
        std::set<uint64_t> NT;
        json Samp = json::array();
        json Bad;
        for (uint64_t I = K; I < N; I += J) {
          if (Elapsed() > Limit)
            break;
          Sh->Case = I;
          Sh->Len = 0;
          Sh->Active = 1;
          armTimer(P.TimeoutSec);
          Src S(mix(SubSeed ^ mix(I + 1)));
          Ctx C(S);
          Outcome O = runHere(P, S, C);
          Sh->Active = 0;
          if (O.Kind == 4) {
            ++Disc;
            continue;
          }
          ++Eval;
          for (auto &L : C.Labels)
            ++Lab[L];
          if (C.NonTrivial && NT.insert(hash(C.Finger)).second && (NT.size() == 1 + 3 * K || NT.size() == 40 + K) && Samp.size() < 2) {
            std::string T;
            for (auto &[A, B] : C.Shown)
              T += A + ": " + esc(B, 600) + " | ";
            Samp.push_back(T.substr(0, 1500));
          }
          if (O.Kind == 1) {
            Bad = json{{"case", I}, {"key", O.Key}, {"msg", O.Msg}, {"tape", S.tape()}};
            break;
          }
        }
        armTimer(0);
        json R{{"eval", Eval}, {"disc", Disc}, {"lab", Lab}, {"nt", NT}, {"samp", Samp}, {"bad", Bad}};
        std::string T = R.dump(-1, ' ', false, json::error_handler_t::replace);
        size_t Off = 0;
        while (Off < T.size()) {
          ssize_t M = write(X.Out, T.data() + Off, T.size() - Off);
          if (M <= 0)
            _exit(96);
          Off += M;
        }
        _exit(0);
      }
    }
    uint64_t Eval = 0, Disc = 0;
    std::map<std::string, uint64_t> Lab;
    std::unordered_set<uint64_t> NT;
    uint64_t BadCase = UINT64_MAX;
    bool BadCrash = false;
    std::vector<uint64_t> BadTape;
    std::string BadMsg;
    for (auto &X : Ws) {
      waitpid(X.Pid, &X.St, 0);
      std::string R = slurpFd(X.Out);
      close(X.Out);
      if (WIFEXITED(X.St) && WEXITSTATUS(X.St) == 0 && !R.empty()) {
        json A = json::parse(R);
        Eval += A["eval"].get<uint64_t>();
        Disc += A["disc"].get<uint64_t>();
        for (auto &[L, C] : A["lab"].items())
          Lab[L] += C.get<uint64_t>();
        for (auto &H : A["nt"])
          NT.insert(H.get<uint64_t>());
        for (auto &S : A["samp"])
          if (Samples.size() < 24)
            Samples.push_back(std::string(P.Name) + " | " + S.get<std::string>());
        if (!A["bad"].is_null() && A["bad"]["case"].get<uint64_t>() < BadCase) {
          BadCase = A["bad"]["case"];
          BadCrash = false;
          BadTape = A["bad"]["tape"].get<std::vector<uint64_t>>();
          BadMsg = A["bad"]["msg"].get<std::string>();
        }
      } else {
        // The worker died: the current case did it.
        if (!X.Sh->Active) {
          fprintf(stderr, "worker died outside a case: %s\n", slurpFd(X.Err).substr(0, 2000).c_str());
          return 2;
        }
        Eval += X.Sh->Case / J;
        if (X.Sh->Case < BadCase) {
          BadCase = X.Sh->Case;
          BadCrash = true;
        }
      }
      close(X.Err);
      munmap(X.Sh, sizeof(Shared));
    }
    TotEval += Eval;
    TotNT += NT.size();
    json SJ{{"name", P.Name}, {"evaluations", Eval}, {"discarded", Disc}, {"distinct_nontrivial", NT.size()}, {"labels", Lab}};
    if (BadCase != UINT64_MAX) {
      if (BadCrash) {
        // Regenerate the tape: run the generator in a child that streams its
        // choices to us.
        int Fd = makeTmp();
        size_t Cap = 1 << 22;
        (void)!ftruncate(Fd, (Cap + 1) * 8);
        // Src records in memory; replay by running with the same seed and
        // dumping the tape from a shared mapping.
        uint64_t *M = (uint64_t *)mmap(nullptr, (Cap + 1) * 8, PROT_READ | PROT_WRITE, MAP_SHARED, Fd, 0);
        pid_t Pid = fork();
        if (Pid == 0) {
          prctl(PR_SET_PDEATHSIG, SIGKILL);
          int Null = open("/dev/null", O_WRONLY);
          dup2(Null, 2);
          signal(SIGALRM, onAlarm);
          armTimer(P.TimeoutSec);
          static Src *Live;
          Src S(mix(SubSeed ^ mix(BadCase + 1)));
          Live = &S;
          static uint64_t *MM;
          static size_t CC;
          MM = M;
          CC = Cap;
          auto Dump = [] {
            size_t N = std::min(Live->tape().size(), CC);
            for (size_t I = 0; I < N; ++I)
              MM[I + 1] = Live->tape()[I];
            MM[0] = N;
          };
          static void (*DumpP)();
          DumpP = +Dump;
          auto H = [](int) {
            DumpP();
            _exit(0);
          };
          for (int Sg : {SIGABRT, SIGALRM, SIGFPE, SIGTERM})
            signal(Sg, H);
          extern void setDeathCallback(void (*)());
          setDeathCallback(+Dump);
          Ctx C(S);
          runHere(P, S, C);
          Dump();
          _exit(0);
        }
        int St;
        waitpid(Pid, &St, 0);
        BadTape.assign(M + 1, M + 1 + M[0]);
        munmap(M, (Cap + 1) * 8);
        close(Fd);
      }
      Outcome O = runForked(P, BadTape);
      unsigned Again = O.Kind == 1 || O.Kind == 2 || O.Kind == 3;
      if (!Again) {
        // Not reproducible from its tape: try a few times, then report that
        // the case could not be confirmed (no violation is claimed).
        for (unsigned K = 0; K < P.Retries && !Again; ++K) {
          O = runForked(P, BadTape);
          Again = O.Kind != 0 && O.Kind != 4;
        }
      }
      if (!Again) {
        fprintf(stderr, "%s/%s: case %llu failed once and not again; not reported: %s\n", Id.c_str(), P.Name,
                (unsigned long long)BadCase, BadMsg.substr(0, 600).c_str());
        SJ["unconfirmed"] = BadCase;
      } else {
        auto T = shrink(P, BadTape, O, Tier == "thorough" ? 120 : 60);
        unsigned Conf = 0;
        Outcome Best = O;
        for (int K = 0; K < 3; ++K) {
          Outcome Q = runForked(P, T);
          if (Q.Kind != 0 && Q.Kind != 4) {
            ++Conf;
            Best = Q;
          }
        }
        if (Conf == 0) {
          T = BadTape;
          Best = O;
        }
        ReplayPath = ReplayDir + "/" + Id + "-" + P.Name + ".json";
        mkdir(ReplayDir.c_str(), 0777);
        writeReplay(ReplayPath, Id, P, Seed, BadCase, T, Best);
        fprintf(stderr, "---- %s/%s case %llu (reproduced %u/3)\n%s%s: %s\n----\n", Id.c_str(), P.Name,
                (unsigned long long)BadCase, Conf, Best.Text.c_str(), Best.Key.c_str(), Best.Msg.c_str());
        Viol.push_back({{"sub", P.Name}, {"key", Best.Key}, {"msg", Best.Msg.substr(0, 2000)}, {"input", Best.Text.substr(0, 4000)}, {"replay", ReplayPath}});
        Stats["subs"].push_back(SJ);
        break;
      }
    }
    Stats["subs"].push_back(SJ);
  }
  Stats["evaluations"] = TotEval;
  Stats["distinct_nontrivial"] = TotNT;
  Stats["samples"] = Samples;
  Stats["violations"] = Viol;
  Stats["wall_s"] = Elapsed();
  if (!OutPath.empty())
    std::ofstream(OutPath) << Stats.dump(1, ' ', false, json::error_handler_t::replace) << "\n";
  else {
    printf("%s: evaluations=%llu nontrivial=%llu wall=%.1fs\n", Id.c_str(), (unsigned long long)TotEval,
           (unsigned long long)TotNT, Elapsed());
    for (auto &S : Stats["subs"])
      printf("  %s\n", S.dump().c_str());
    if (getenv("SAMPLES"))
      for (auto &S : Samples)
        printf("  * %s\n", S.get<std::string>().c_str());
  }
  return Viol.empty() ? 0 : 1;
}
} // namespace pbt

extern "C" void __sanitizer_set_death_callback(void (*)(void));
namespace pbt {
int (*WorkerMain)() = nullptr;
void setDeathCallback(void (*F)()) { __sanitizer_set_death_callback(F); }
} // namespace pbt

int main(int Argc, char **Argv) {
  if (pbt::WorkerMain && Argc > 0 && strcmp(Argv[0], "nixd-attrset-eval") == 0)
    return pbt::WorkerMain();
  return pbt::mainImpl(Argc, Argv);
}
