// Small choice-sequence property-based testing engine (Hypothesis style).
//
// A property is a set of sub-properties; each is a function of a choice source
// `Src& g` (every random decision is a recorded bounded integer) and a context
// `Ctx& c` (labels, non-trivial mark, description).  Cases run in forked
// workers; choices live in shared memory so that crashes, failed asserts and
// sanitizer aborts are failures with a known input as well.  A failing choice
// sequence is shrunk, replayed three times, saved and reported.
#pragma once
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace pbt {

typedef uint64_t u64;

inline u64 mix(u64 x) {
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}
inline u64 fnv(const std::string& s) {
  u64 h = 1469598103934665603ULL;
  for (unsigned char ch : s) { h ^= ch; h *= 1099511628211ULL; }
  return h;
}

struct Fail { std::string msg; };
struct Discard {};

const size_t MAXC = 1 << 15;
const size_t MAXLAB = 64;
const size_t MAXHASH = 1 << 18;
const size_t MAXSAMPLE = 6;
const size_t SAMPLELEN = 1200;
const size_t MAXSUB = 24;

struct Shared {
  volatile u64 cur_sub, cur_case;
  volatile u64 nch;
  u64 ch[MAXC];
  u64 evals[MAXSUB], nontriv[MAXSUB], discards[MAXSUB];
  struct { char name[48]; u64 n; } lab[MAXLAB];
  u64 nhash; u64 hash[MAXHASH];
  u64 nsample; char sample[MAXSAMPLE][SAMPLELEN];
  volatile int failed;  // 1: property failure reported by oracle
  char msg[4096];
};

// ------------------------------------------------------------------ choices
class Src {
 public:
  enum Mode { Random, Replay, Bytes };
  Mode mode = Random;
  u64 state = 0;
  const std::vector<u64>* rep = nullptr;
  const uint8_t* data = nullptr; size_t dsize = 0, dpos = 0;
  size_t pos = 0;
  Shared* sh = nullptr;

  u64 below(u64 n) {  // uniform in [0,n), n>=1
    u64 v = 0;
    if (mode == Random) {
      if (n > 1) { state = mix(state + pos + 1); v = state % n; }
    } else if (mode == Replay) {
      v = pos < rep->size() ? (*rep)[pos] : 0;
      if (v >= n) v = n - 1;
    } else {
      if (n > 1) {
        u64 lim = n - 1; int nb = 0; while (lim) { ++nb; lim >>= 8; }
        for (int i = 0; i < nb; ++i) v = (v << 8) | (dpos < dsize ? data[dpos++] : 0);
        v %= n;
      }
    }
    if (pos < MAXC) { sh->ch[pos] = v; sh->nch = pos + 1; }
    ++pos;
    return v;
  }
  // integer in [lo,hi], shrinks to lo
  long long in(long long lo, long long hi) { return lo + (long long)below((u64)(hi - lo) + 1); }
  // integer in [lo,hi], shrinks to the value nearest 0
  long long sym(long long lo, long long hi) {
    if (lo >= 0) return in(lo, hi);
    if (hi <= 0) return -in(-hi, -lo);
    bool neg = below(2);
    return neg ? -in(0, -lo) : in(0, hi);
  }
  bool chance(int num, int den) { return (int)below(den) >= den - num; }  // shrinks to false
  bool flip() { return below(2) == 1; }
  double unit() { return (double)below(1ULL << 30) / (double)(1ULL << 30); }  // [0,1)
  double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
  // log-uniform positive number between 10^lo and 10^hi, shrinks to 10^lo
  double logreal(double lo, double hi) { return std::pow(10.0, real(lo, hi)); }
  // positive rate; often "nice" values (equal rates, powers of ten)
  double rate(double dec) {
    switch (below(4)) {
      case 0: return (double)in(1, 10);
      case 1: return std::pow(10.0, (double)sym(-(long long)dec, (long long)dec));
      default: return std::pow(10.0, real(-dec, dec));
    }
  }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
  unsigned long seed32() { return chance(1, 8) ? (unsigned long)pick(std::vector<u64>{0, 1, 2, 5489, 0x7fffffffULL, 0x80000000ULL, 0xffffffffULL}) : (unsigned long)below(1ULL << 32); }
  std::vector<int> perm(int n) {
    std::vector<int> p(n);
    for (int i = 0; i < n; ++i) p[i] = i;
    for (int i = n - 1; i > 0; --i) std::swap(p[i], p[i - (int)below(i + 1)]);
    return p;
  }
  // n distinct ints; ids is a mix of small, negative and extreme values
  std::vector<int> ids(int n, bool nonneg = false) {
    std::vector<int> v; std::set<int> seen;
    int style = (int)below(3);
    while ((int)v.size() < n) {
      long long x;
      if (style == 0) x = (long long)v.size();
      else if (style == 1) x = nonneg ? in(0, 60) : sym(-40, 60);
      else x = nonneg ? in(0, 2147483000LL) : sym(-2147483000LL, 2147483000LL);
      int k = (int)x;
      while (seen.count(k)) ++k;
      if (nonneg && k < 0) k = (int)v.size() + 100;
      while (seen.count(k)) ++k;
      seen.insert(k); v.push_back(k);
    }
    return v;
  }
};

class Ctx {
 public:
  bool nontriv = false;
  bool replaying = false;
  std::vector<std::string> labels;
  std::ostringstream d;  // description of the generated case
  void nontrivial(bool b = true) { nontriv = nontriv || b; }
  void label(const std::string& s) { labels.push_back(s); }
  void label_if(bool b, const std::string& s) { if (b) labels.push_back(s); }
};

struct Sub { std::string name; u64 quick, thorough; void (*fn)(Src&, Ctx&); };
struct Registry {
  std::string id, rule;
  std::vector<std::string> assumptions;
  std::vector<Sub> subs;
  static Registry& get() { static Registry r; return r; }
};
struct RegProp {
  RegProp(const char* id, const char* rule, std::vector<std::string> as = {}) {
    Registry::get().id = id; Registry::get().rule = rule; Registry::get().assumptions = as;
  }
};
struct RegSub {
  RegSub(const char* n, u64 q, u64 t, void (*f)(Src&, Ctx&)) { Registry::get().subs.push_back({n, q, t, f}); }
};
#define PROPERTY(id, rule, ...) static pbt::RegProp pbt_prop_(id, rule, ##__VA_ARGS__);
#define SUB(name, q, t)                                   \
  static void name(pbt::Src& g, pbt::Ctx& c);             \
  static pbt::RegSub reg_##name(#name, q, t, name);       \
  static void name(pbt::Src& g, pbt::Ctx& c)
#define REQUIRE(cond, text)                                                    \
  do {                                                                         \
    if (!(cond)) {                                                             \
      std::ostringstream os_; os_.precision(17);                               \
      os_ << __func__ << ":" << __LINE__ << ": " << text;                      \
      throw pbt::Fail{os_.str()};                                              \
    }                                                                          \
  } while (0)
#define FAIL(text) REQUIRE(false, text)
// statement must throw exactly (a class derived from) type
#define MUST_THROW(type, text, ...)                                            \
  do {                                                                         \
    int how_ = 0; std::string w_;                                              \
    try { __VA_ARGS__; }                                                       \
    catch (pbt::Fail&) { throw; }                                              \
    catch (const type&) { how_ = 1; }                                          \
    catch (const std::exception& e_) { how_ = 2; w_ = e_.what(); }             \
    catch (...) { how_ = 2; w_ = "unknown exception"; }                        \
    REQUIRE(how_ != 0, text << " was accepted instead of refused with " #type);\
    REQUIRE(how_ == 1, text << " was refused with another error than " #type ": " << w_); \
  } while (0)
// statement must not throw
#define MUST_ACCEPT(text, ...)                                                 \
  do {                                                                         \
    try { __VA_ARGS__; }                                                       \
    catch (pbt::Fail&) { throw; }                                              \
    catch (const std::exception& e_) { FAIL(text << " was refused: " << e_.what()); } \
    catch (...) { FAIL(text << " was refused (unknown exception)"); }          \
  } while (0)

inline bool near(double a, double b, double rel, double abs = 0) {
  if (a == b) return true;
  if (!(std::isfinite(a) && std::isfinite(b))) return false;
  return std::fabs(a - b) <= rel * std::max(std::fabs(a), std::fabs(b)) + abs;
}

// ------------------------------------------------- rigorous sampling bounds
// exponent of the Chernoff bound; P(deviation) <= 2*exp(-value)
inline double binomial_exponent(u64 k, u64 n, double p) {
  if (n == 0) return 0;
  double q = (double)k / n;
  if (p <= 0) return k == 0 ? 0 : 1e9;
  if (p >= 1) return k == n ? 0 : 1e9;
  double kl = 0;
  if (q > 0) kl += q * std::log(q / p);
  if (q < 1) kl += (1 - q) * std::log((1 - q) / (1 - p));
  return n * kl;
}
inline double gamma_exponent(double sum, u64 n, double mean) {
  double r = sum / n / mean;
  if (!(r > 0)) return 1e9;
  return n * (r - 1 - std::log(r));
}
// DKW exponent of the distance to Exp(mean)
inline double exp_ks_exponent(std::vector<double> v, double mean) {
  std::sort(v.begin(), v.end());
  double n = v.size(), D = 0;
  for (size_t i = 0; i < v.size(); ++i) {
    double F = 1 - std::exp(-v[i] / mean);
    D = std::max(D, std::max(std::fabs(F - i / n), std::fabs(F - (i + 1) / n)));
  }
  return 2 * n * D * D;
}
const double STAT = 27.0;  // 2*exp(-27) ~ 4e-12 per comparison

// ------------------------------------------------------------------- running
inline std::string escape(const std::string& s) {
  std::string o;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch == '\n') o += "\\n";
    else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
    else o += ch;
  }
  return o;
}
inline double now() {
  struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}
inline void arm(int cpu_s) {
  struct itimerval it; memset(&it, 0, sizeof it);
  it.it_value.tv_sec = cpu_s;
  setitimer(ITIMER_PROF, &it, nullptr);  // CPU time, not wall clock
}
const int CPU_LIMIT = 60;

inline Shared* new_shared() {
  void* m = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (m == MAP_FAILED) { perror("mmap"); exit(2); }
  return (Shared*)m;
}
inline void setmsg(Shared* sh, const std::string& s) {
  snprintf(sh->msg, sizeof sh->msg, "%s", s.c_str());
  sh->failed = 1;
}
// returns 0 ok, 1 fail, 2 discard
inline int run_one(const Sub& sub, Src& g, Ctx& c, Shared* sh) {
  sh->nch = 0;
  g.sh = sh; g.pos = 0;
  try { sub.fn(g, c); return 0; }
  catch (Discard&) { return 2; }
  catch (Fail& f) { setmsg(sh, sub.name + ": " + f.msg); return 1; }
  catch (std::exception& e) { setmsg(sh, sub.name + ": unexpected exception from a valid call: " + e.what()); return 1; }
  catch (...) { setmsg(sh, sub.name + ": unexpected unknown exception from a valid call"); return 1; }
}
inline u64 hash_choices(const Shared* sh, u64 sub) {
  u64 h = mix(sub + 77);
  for (u64 i = 0; i < sh->nch && i < MAXC; ++i) h = mix(h ^ sh->ch[i]);
  return h;
}
inline void quiet(int errfd) {
  int nul = open("/dev/null", O_WRONLY);
  dup2(nul, 1);
  dup2(errfd >= 0 ? errfd : nul, 2);
}
struct Outcome { bool fail = false; std::string msg, desc, err; std::vector<u64> ch; };

inline std::string read_fd(int fd) {
  std::string s; char b[4096]; ssize_t n; off_t o = 0;
  while ((n = pread(fd, b, sizeof b, o)) > 0) { s.append(b, n); o += n; if (s.size() > 200000) break; }
  return s;
}
inline std::string died(int st, const std::string& err) {
  std::ostringstream o;
  if (WIFSIGNALED(st)) {
    int sig = WTERMSIG(st);
    if (sig == SIGPROF) o << "case did not finish within " << CPU_LIMIT << " s of CPU time";
    else o << "process died with signal " << sig << " (" << strsignal(sig) << ")";
  } else o << "process exited with status " << WEXITSTATUS(st);
  // interesting line of stderr
  std::istringstream is(err); std::string l, pick;
  while (std::getline(is, l))
    if (l.find("Assertion") != std::string::npos || l.find("runtime error") != std::string::npos ||
        l.find("ERROR: AddressSanitizer") != std::string::npos) { pick = l; break; }
  if (!pick.empty()) o << ": " << pick;
  return o.str();
}
// run a choice sequence in a child process
inline Outcome exec_child(const Sub& sub, const std::vector<u64>& ch, Shared* sh) {
  char nm[] = "/tmp/pbt_err_XXXXXX"; int fd = mkstemp(nm); unlink(nm);
  sh->failed = 0; sh->nch = 0; sh->msg[0] = 0; sh->nsample = 0;
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) {
    quiet(fd); arm(CPU_LIMIT);
    Src g; g.mode = Src::Replay; g.rep = &ch; Ctx c; c.replaying = true;
    int r = run_one(sub, g, c, sh);
    snprintf(sh->sample[0], SAMPLELEN, "%s", c.d.str().c_str()); sh->nsample = 1;
    _exit(r == 1 ? 9 : 0);
  }
  int st = 0; waitpid(p, &st, 0);
  Outcome o;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { close(fd); return o; }
  o.fail = true;
  o.err = read_fd(fd); close(fd);
  if (sh->failed) o.msg = sh->msg; else o.msg = sub.name + ": " + died(st, o.err);
  if (sh->nsample) o.desc = sh->sample[0];
  o.ch.assign(sh->ch, sh->ch + std::min<u64>((u64)sh->nch, MAXC));
  return o;
}
inline Outcome shrink(const Sub& sub, Outcome best, double budget_s) {
  Shared* sh = new_shared();
  double t0 = now(); int tries = 0;
  auto better = [&](const std::vector<u64>& a, const std::vector<u64>& b) {
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b;
  };
  auto attempt = [&](const std::vector<u64>& cand) {
    if (now() - t0 > budget_s || tries > 6000) return false;
    ++tries;
    Outcome o = exec_child(sub, cand, sh);
    if (!o.fail) return false;
    std::vector<u64> norm = o.ch.size() <= cand.size() ? o.ch : cand;
    while (!norm.empty() && norm.back() == 0) norm.pop_back();
    if (!better(norm, best.ch)) return false;
    o.ch = norm; best = o; return true;
  };
  while (!best.ch.empty() && best.ch.back() == 0) best.ch.pop_back();
  bool prog = true;
  while (prog && now() - t0 < budget_s) {
    prog = false;
    for (size_t len = best.ch.size() / 2; len >= 1; len /= 2) {
      std::vector<u64> cnd(best.ch.begin(), best.ch.begin() + len);
      if (attempt(cnd)) { prog = true; break; }
    }
    for (size_t k : {32, 8, 4, 3, 2, 1})
      for (size_t i = best.ch.size(); i-- > 0;) {
        if (i + k > best.ch.size()) continue;
        std::vector<u64> cnd = best.ch;
        cnd.erase(cnd.begin() + i, cnd.begin() + i + k);
        if (attempt(cnd)) { prog = true; continue; }
        // deleting an element of a list usually needs the count lowered too
        for (size_t j = i; j-- > 0 && i - j <= 4;)
          if (best.ch[j] > 0 && i + k <= best.ch.size()) {
            std::vector<u64> c2 = best.ch;
            c2.erase(c2.begin() + i, c2.begin() + i + k); c2[j]--;
            if (attempt(c2)) { prog = true; break; }
          }
        if (now() - t0 > budget_s) break;
      }
    for (size_t i = 0; i < best.ch.size(); ++i) {
      if (best.ch[i] == 0) continue;
      std::vector<u64> cnd = best.ch; cnd[i] = 0;
      if (attempt(cnd)) { prog = true; continue; }
      u64 lo = 0;  // binary search for a smaller failing value
      for (int it = 0; it < 34 && i < best.ch.size() && best.ch[i] > lo + 1; ++it) {
        u64 mid = lo + (best.ch[i] - lo) / 2;
        cnd = best.ch; cnd[i] = mid;
        if (attempt(cnd)) prog = true; else lo = mid;
      }
      if (now() - t0 > budget_s) break;
    }
  }
  munmap(sh, sizeof(Shared));
  return best;
}

// A failure that needs state left behind by earlier cases of the same process
// is replayed as the sequence of case numbers that worker had run.
struct History { u64 seed = 0, start = 0, step = 1, end = 0; bool use = false; };
inline u64 case_state(u64 seed, const Sub& sub, u64 i) {
  return mix(mix(seed) ^ fnv(Registry::get().id + "/" + sub.name) ^ mix(i * 2654435761ULL + 11));
}
inline Outcome exec_history(const Sub& sub, const History& h, Shared* sh) {
  char nm[] = "/tmp/pbt_err_XXXXXX"; int fd = mkstemp(nm); unlink(nm);
  sh->failed = 0; sh->nch = 0; sh->msg[0] = 0; sh->nsample = 0;
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) {
    quiet(fd);
    for (u64 i = h.start; i <= h.end; i += h.step) {
      arm(CPU_LIMIT);
      Src g; g.mode = Src::Random; g.state = case_state(h.seed, sub, i);
      Ctx c; int r = run_one(sub, g, c, sh);
      snprintf(sh->sample[0], SAMPLELEN, "%s", c.d.str().c_str()); sh->nsample = 1;
      if (r == 1) _exit(9);
    }
    _exit(0);
  }
  int st = 0; waitpid(p, &st, 0);
  Outcome o;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { close(fd); return o; }
  o.fail = true; o.err = read_fd(fd); close(fd);
  if (sh->failed) o.msg = sh->msg; else o.msg = sub.name + ": " + died(st, o.err);
  if (sh->nsample) o.desc = sh->sample[0];
  o.ch.assign(sh->ch, sh->ch + std::min<u64>((u64)sh->nch, MAXC));
  return o;
}

inline std::string save_replay(const std::string& dir, const Sub& sub, const Outcome& o, const History& h = History()) {
  Registry& R = Registry::get();
  mkdir(dir.c_str(), 0755);
  std::ostringstream nm; nm << dir << "/" << R.id << "-" << sub.name << "-" << std::hex;
  u64 hv = 1; for (u64 x : o.ch) hv = mix(hv ^ x);
  nm << (hv & 0xffffff) << ".replay";
  std::ofstream f(nm.str());
  f << "property " << R.id << "\nsub " << sub.name << "\n";
  if (h.use) f << "history " << h.seed << " " << h.start << " " << h.step << " " << h.end;
  else { f << "choices"; for (u64 x : o.ch) f << " " << x; }
  f << "\n# " << o.msg << "\n";
  std::istringstream is(o.desc); std::string l;
  while (std::getline(is, l)) f << "# " << l << "\n";
  return nm.str();
}

struct Args {
  std::string tier = "quick", evidence, replays = "replays", replay, sub;
  u64 seed = 1; int jobs = 8; double budget = 600; double scale = 1; bool noshrink = false;
};

inline int do_replay(const Args& a) {
  std::ifstream f(a.replay); std::string l, sub; std::vector<u64> ch; bool any = false; History h;
  while (std::getline(f, l)) {
    std::istringstream is(l); std::string k; is >> k;
    if (k == "sub") is >> sub;
    if (k == "history") { is >> h.seed >> h.start >> h.step >> h.end; h.use = any = true; }
    if (k == "choices") { u64 x; any = true; while (is >> x) ch.push_back(x); }
  }
  if (!any) { std::cerr << "not a replay file: " << a.replay << "\n"; return 2; }
  Registry& R = Registry::get();
  for (auto& s : R.subs) if (s.name == sub) {
    Shared* sh = new_shared(); int bad = 0; Outcome last;
    for (int i = 0; i < 3; ++i) { Outcome o = h.use ? exec_history(s, h, sh) : exec_child(s, ch, sh); if (o.fail) { ++bad; last = o; } }
    if (bad == 0) { std::cout << "replay passes: " << a.replay << "\n"; return 0; }
    std::cout << last.msg << "\n" << last.desc << "\n";
    std::cout << "VIOLATION property=" << R.id << " replay=" << a.replay << "\n";
    return 1;
  }
  std::cerr << "unknown sub-property " << sub << "\n"; return 2;
}

inline int run_all(const Args& a) {
  Registry& R = Registry::get();
  double t0 = now();
  std::vector<Shared*> sh; for (int w = 0; w < a.jobs; ++w) sh.push_back(new_shared());
  size_t ns = R.subs.size();
  std::vector<Outcome> fails; std::vector<size_t> fsub; std::vector<History> fhist;
  bool truncated = false;
  std::vector<int> errfd(a.jobs, -1);
  for (size_t s = 0; s < ns && fails.empty(); ++s) {
    const Sub& sub = R.subs[s];
    if (!a.sub.empty() && a.sub != sub.name) continue;
    u64 total = (u64)((a.tier == "thorough" ? sub.thorough : sub.quick) * a.scale);
    if ((a.tier == "thorough" ? sub.thorough : sub.quick) == 0) continue;
    if (total < 8 && sub.quick) total = 8;  // (0, n): a few long cases, thorough tier only
    std::vector<pid_t> pid(a.jobs, -1);
    fflush(nullptr); std::cout.flush();
    for (int w = 0; w < a.jobs; ++w) {
      char nm[] = "/tmp/pbt_err_XXXXXX"; errfd[w] = mkstemp(nm); unlink(nm);
      pid_t p = fork();
      if (p == 0) {
        quiet(errfd[w]);
        std::unordered_set<u64> seen;
        Shared* S = sh[w]; S->failed = 0;
        std::map<std::string, u64> labs;
        for (u64 i = w; i < total; i += a.jobs) {
          if (now() - t0 > a.budget) break;
          if ((i / a.jobs) % 64 == 0) { if (ftruncate(errfd[w], 0) == 0) lseek(errfd[w], 0, SEEK_SET); }
          S->cur_sub = s; S->cur_case = i;
          arm(CPU_LIMIT);
          Src g; g.mode = Src::Random; g.state = case_state(a.seed, sub, i);
          Ctx c; int r = run_one(sub, g, c, S);
          if (r == 2) { S->discards[s]++; continue; }
          S->evals[s]++;
          for (auto& l : c.labels) {
            for (size_t k = 0; k < MAXLAB; ++k) {
              if (S->lab[k].name[0] == 0) snprintf(S->lab[k].name, 48, "%s", l.c_str());
              if (!strncmp(S->lab[k].name, l.c_str(), 47)) { S->lab[k].n++; break; }
            }
          }
          if (c.nontriv) {
            S->nontriv[s]++;
            u64 h = hash_choices(S, s);
            if (seen.insert(h).second && S->nhash < MAXHASH) S->hash[S->nhash++] = h;
            if (S->nsample < MAXSAMPLE && (w == (int)(s % a.jobs)) && S->evals[s] <= 2) {
              snprintf(S->sample[S->nsample], SAMPLELEN, "[%s] %s", sub.name.c_str(), c.d.str().c_str());
              S->nsample++;
            }
          }
          if (r == 1) _exit(9);
        }
        arm(0);
        _exit(0);
      }
      pid[w] = p;
    }
    int left = a.jobs; bool killed = false;
    while (left > 0) {
      int st; pid_t p = waitpid(-1, &st, 0);
      if (p < 0) break;
      for (int w = 0; w < a.jobs; ++w) if (pid[w] == p) {
        --left; pid[w] = -1;
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) && !killed) {
          Outcome o; o.fail = true;
          o.ch.assign(sh[w]->ch, sh[w]->ch + std::min<u64>((u64)sh[w]->nch, MAXC));
          o.msg = sh[w]->failed ? std::string(sh[w]->msg) : sub.name + ": " + died(st, read_fd(errfd[w]));
          fails.push_back(o); fsub.push_back(s);
          History h; h.seed = a.seed; h.start = w; h.step = a.jobs; h.end = sh[w]->cur_case; fhist.push_back(h);
          killed = true;
          for (int v = 0; v < a.jobs; ++v) if (pid[v] > 0) kill(pid[v], SIGKILL);
        }
      }
    }
    for (int w = 0; w < a.jobs; ++w) close(errfd[w]);
    if (now() - t0 > a.budget) { truncated = true; break; }
  }
  // merge statistics
  u64 ev = 0, nt = 0, di = 0; std::unordered_set<u64> all; std::map<std::string, u64> labs;
  std::ostringstream per;
  for (size_t s = 0; s < ns; ++s) {
    u64 e = 0, n = 0, d = 0;
    for (auto* S : sh) { e += S->evals[s]; n += S->nontriv[s]; d += S->discards[s]; }
    ev += e; nt += n; di += d;
    per << (s ? "," : "") << "\"" << R.subs[s].name << "\":{\"evaluations\":" << e << ",\"nontrivial\":" << n << ",\"discarded\":" << d << "}";
  }
  for (auto* S : sh) {
    for (u64 i = 0; i < S->nhash; ++i) all.insert(S->hash[i]);
    for (size_t k = 0; k < MAXLAB && S->lab[k].name[0]; ++k) labs[S->lab[k].name] += S->lab[k].n;
  }
  int viol = 0; std::string vmsg, vpath;
  for (size_t k = 0; k < fails.size(); ++k) {
    const Sub& sub = R.subs[fsub[k]];
    Shared* x = new_shared();
    Outcome o = exec_child(sub, fails[k].ch, x);
    if (!o.fail) {  // state left by earlier cases of the worker mattered
      History h = fhist[k];
      o = exec_history(sub, h, x);
      for (u64 span = 1; o.fail && span < (h.end - h.start) / h.step; span *= 4) {
        History s2 = h; s2.start = h.end - span * h.step;
        if (exec_history(sub, s2, x).fail) { h = s2; break; }
      }
      int bad = 0; Outcome fin = o;
      for (int i = 0; i < 3 && o.fail; ++i) { Outcome q = exec_history(sub, h, x); if (q.fail) { ++bad; fin = q; } }
      for (int i = 0; i < 20 && bad == 0; ++i) { Outcome q = exec_history(sub, fhist[k], x); if (q.fail) { ++bad; fin = q; h = fhist[k]; } }
      if (bad == 0) {
        std::cout << "UNREPRODUCED " << fails[k].msg << "\n";
        std::cerr << "failure did not reproduce from its choices or its history\n";
        return 2;
      }
      h.use = true; ++viol; vmsg = fin.msg; vpath = save_replay(a.replays, sub, fin, h);
      std::cout << fin.msg << "\n" << fin.desc << "\n";
      continue;
    }
    Outcome first = o;
    if (!a.noshrink) o = shrink(sub, o, a.tier == "thorough" ? 120 : 45);
    int bad = 0; Outcome fin = o;
    for (int i = 0; i < 3; ++i) { Outcome q = exec_child(sub, o.ch, x); if (q.fail) { ++bad; fin.msg = q.msg; fin.desc = q.desc; } }
    if (bad == 0) { fin = first; std::cerr << "shrunk failure is flaky; reporting the unshrunk one, which failed twice\n"; }
    ++viol; vmsg = fin.msg; vpath = save_replay(a.replays, sub, fin);
    std::cout << fin.msg << "\n" << fin.desc << "\n";
  }
  double wall = now() - t0;
  if (!a.evidence.empty()) {
    std::ofstream f(a.evidence);
    f << "{\"property\":\"" << R.id << "\",\"tier\":\"" << a.tier << "\",\"seed\":" << a.seed
      << ",\"level\":\"exploration\",\"coverage\":{\"evaluations\":" << ev << ",\"distinct_nontrivial\":" << all.size()
      << ",\"nontrivial\":" << nt << ",\"discarded\":" << di << ",\"truncated_by_time_budget\":" << (truncated ? "true" : "false")
      << ",\"rule\":\"" << escape(R.rule) << "\",\"sub_properties\":{" << per.str() << "},\"labels\":{";
    bool first = true;
    for (auto& l : labs) { f << (first ? "" : ",") << "\"" << escape(l.first) << "\":" << l.second; first = false; }
    f << "},\"samples\":["; first = true;
    for (auto* S : sh) for (u64 i = 0; i < S->nsample; ++i) { f << (first ? "" : ",") << "\"" << escape(S->sample[i]) << "\""; first = false; }
    if (viol) { f << (first ? "" : ",") << "\"VIOLATION " << escape(vmsg) << "\""; first = false; }
    f << "]},\"assumptions\":["; first = true;
    for (auto& s : R.assumptions) { f << (first ? "" : ",") << "\"" << escape(s) << "\""; first = false; }
    f << "],\"wall_s\":" << wall << ",\"violations\":" << viol << "}\n";
  }
  std::cout << R.id << " " << a.tier << " seed=" << a.seed << " evaluations=" << ev << " distinct_nontrivial=" << all.size()
            << " discarded=" << di << " wall_s=" << wall << (truncated ? " (time budget reached)" : "") << "\n";
  for (auto& l : labs) std::cout << "  label " << l.first << ": " << l.second << "\n";
  if (viol) { std::cout << "VIOLATION property=" << R.id << " replay=" << vpath << "\n"; return 1; }
  return 0;
}

}  // namespace pbt

#ifdef PBT_FUZZ
extern "C" void __sanitizer_set_death_callback(void (*)(void));
namespace pbt {
inline Shared*& fz_sh() { static Shared* s = nullptr; return s; }
inline void fz_dump() {
  const char* out = getenv("PBT_FUZZ_OUT");
  Shared* sh = fz_sh();
  if (!out || !sh) return;
  FILE* f = fopen(out, "w"); if (!f) return;
  fprintf(f, "property %s\nsub %s\nchoices", Registry::get().id.c_str(), Registry::get().subs[sh->cur_sub].name.c_str());
  for (u64 i = 0; i < sh->nch && i < MAXC; ++i) fprintf(f, " %llu", (unsigned long long)sh->ch[i]);
  fprintf(f, "\n# %s\n", sh->msg);
  fclose(f);
}
inline void fz_sig(int s) { fz_dump(); signal(s, SIG_DFL); raise(s); }
}
extern "C" int LLVMFuzzerInitialize(int*, char***) {
  pbt::fz_sh() = pbt::new_shared();
  __sanitizer_set_death_callback(pbt::fz_dump);
  signal(SIGABRT, pbt::fz_sig);
  return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n) {
  using namespace pbt;
  if (n < 1) return 0;
  Registry& R = Registry::get();
  Shared* sh = fz_sh();
  size_t usable = 0; while (usable < R.subs.size() && R.subs[usable].quick) ++usable;  // the long cases come last
  if (!usable) return 0;
  sh->cur_sub = d[0] % usable; sh->failed = 0; sh->msg[0] = 0;
  Src g; g.mode = Src::Bytes; g.data = d + 1; g.dsize = n - 1;
  Ctx c;
  int r = run_one(R.subs[sh->cur_sub], g, c, sh);
  if (r == 1) { fprintf(stderr, "PROPERTY FAILED %s\n", sh->msg); fz_dump(); abort(); }
  return 0;
}
#else
int main(int argc, char** argv) {
  pbt::Args a;
  for (int i = 1; i < argc; ++i) {
    std::string k = argv[i];
    auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (k == "--noshrink") a.noshrink = true;
    else if (k == "--tier") a.tier = nx();
    else if (k == "--seed") a.seed = strtoull(nx().c_str(), nullptr, 10);
    else if (k == "--jobs") a.jobs = atoi(nx().c_str());
    else if (k == "--evidence") a.evidence = nx();
    else if (k == "--replays") a.replays = nx();
    else if (k == "--replay") a.replay = nx();
    else if (k == "--sub") a.sub = nx();
    else if (k == "--budget") a.budget = atof(nx().c_str());
    else if (k == "--scale") a.scale = atof(nx().c_str());
    else { std::cerr << "unknown argument " << k << "\n"; return 2; }
  }
  if (!a.replay.empty()) return pbt::do_replay(a);
  return pbt::run_all(a);
}
#endif
