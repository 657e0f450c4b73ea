// Small property-based testing engine (choice-sequence based, in the style of
// Hypothesis): every random decision of a case is an integer drawn from a
// recorded sequence, so any failing case can be shrunk and replayed exactly.
// Cases run in forked workers, so crashes, sanitizer aborts and hangs of the
// code under test are ordinary, shrinkable failures.
#pragma once
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <cmath>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace pbt {

static const size_t kMaxChoices = 1 << 16;

struct Failure {
  std::string key, msg;
};
struct Discard {
};

struct Slot {  // one per worker, in shared memory
  volatile uint64_t index;  // index of the case being run
  volatile uint64_t evals, nontrivial, discards;
  volatile int state;  // 0 running, 1 done, 2 failure recorded, 3 hang
  volatile uint64_t n_choices;
  char key[256];
  char msg[8192];
  char note[16384];
  uint64_t choices[kMaxChoices];
};

struct Case {
  // --- choice source
  const std::vector<uint64_t>* fixed = nullptr;  // replay / shrink
  uint64_t rng = 0;
  Slot* slot = nullptr;
  size_t n = 0;
  bool verbose = false;
  bool thorough = false;
  bool is_nontrivial = false;
  std::vector<const char*> labels;
  std::ostringstream notes;

  uint64_t next()
  {
    uint64_t z = (rng += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  // uniform in [0,bound)
  uint64_t draw(uint64_t bound)
  {
    if (n >= kMaxChoices)
      throw Discard();
    uint64_t v;
    if (fixed)
      v = n < fixed->size() ? (*fixed)[n] : 0;
    else
      v = next();
    if (bound != 0) {
      if (fixed)
        v = v < bound ? v : bound - 1;
      else
        v = static_cast<uint64_t>(
            (static_cast<unsigned __int128>(v) * bound) >> 64);
    }
    slot->choices[n++] = v;
    slot->n_choices = n;
    return v;
  }
  // --- generators; the all-zero sequence is the simplest case
  int64_t range(int64_t lo, int64_t hi)  // inclusive, shrinks towards lo
  {
    return lo + static_cast<int64_t>(draw(static_cast<uint64_t>(hi - lo) + 1));
  }
  int64_t around(int64_t lo, int64_t hi)  // shrinks towards 0
  {
    int64_t z = std::min(std::max<int64_t>(0, lo), hi);
    uint64_t k = draw(static_cast<uint64_t>(hi - lo) + 1);
    // zig-zag from z
    int64_t left = z - lo, right = hi - z;
    int64_t m = std::min(left, right);
    if (k <= static_cast<uint64_t>(2 * m)) {
      int64_t s = static_cast<int64_t>((k + 1) / 2);
      return (k % 2) ? z + s : z - s;
    }
    int64_t rest = static_cast<int64_t>(k) - m;
    return left > right ? z - rest : z + rest;
  }
  bool coin(unsigned percent = 50)  // shrinks towards false
  {
    return draw(100) >= 100 - percent;
  }
  double unit()  // [0,1)
  {
    return static_cast<double>(draw(1ULL << 32)) / 4294967296.0;
  }
  // real number in [lo,hi]: mixes nice values, a coarse lattice, uniform
  // values and the end points
  double real(double lo, double hi)
  {
    double v = 0;
    switch (draw(8)) {
      case 0: {  // small integers around zero
        int64_t k = around(-4, 4);
        v = static_cast<double>(k);
        break;
      }
      case 1: {
        int64_t k = around(-64, 64);
        v = static_cast<double>(k) / 8.0;
        break;
      }
      case 2:
        v = lo + (hi - lo) * static_cast<double>(draw(33)) / 32.0;
        break;
      default: {
        v = lo + (hi - lo) * unit();
        break;
      }
    }
    return std::min(std::max(v, lo), hi);
  }
  double uniform(double lo, double hi)
  {
    return lo + (hi - lo) * unit();
  }
  // positive real, log-uniform
  double logreal(double lo, double hi)
  {
    return std::exp(std::log(lo) + (std::log(hi) - std::log(lo)) * unit());
  }
  // roughly normal
  double gauss()
  {
    double s = 0;
    for (int i = 0; i < 4; ++i)
      s += unit() - 0.5;
    return s * 1.7320508075688772;
  }
  double angle()  // (-pi, pi], special values included
  {
    static const double pi = 3.14159265358979323846;
    switch (draw(6)) {
      case 0: {
        static const double sp[] = {0.0, pi / 2, -pi / 2, pi / 4,
                                    -pi / 4, 3 * pi / 4, -3 * pi / 4, 1e-9,
                                    -1e-9};
        return sp[draw(9)];
      }
      case 1: {
        static const double sp[] = {3.0, -3.0, 3.14, -3.14, pi - 1e-6,
                                    -pi + 1e-6};
        return sp[draw(6)];
      }
      default:
        return uniform(-pi + 1e-9, pi - 1e-9);
    }
  }
  template <typename T>
  const T& pick(const std::vector<T>& v)
  {
    return v[draw(v.size())];
  }
  size_t weighted(std::initializer_list<int> w)
  {
    int64_t tot = 0;
    for (int x : w)
      tot += x;
    int64_t d = static_cast<int64_t>(draw(static_cast<uint64_t>(tot)));
    size_t i = 0;
    for (int x : w) {
      if (d < x)
        return i;
      d -= x;
      ++i;
    }
    return 0;
  }
  // --- bookkeeping
  void assume(bool ok)
  {
    if (!ok)
      throw Discard();
  }
  void nontrivial(bool b = true)
  {
    is_nontrivial = is_nontrivial || b;
  }
  void label(const char* l)
  {
    for (auto x : labels)
      if (x == l)
        return;
    labels.push_back(l);
  }
  template <typename... A>
  void note(const A&... a)
  {
    if (!verbose)
      return;
    notes.precision(17);
    int dummy[] = {0, ((notes << a), 0)...};
    (void)dummy;
    notes << "\n";
    std::string s = notes.str();
    size_t off = s.size() < sizeof(slot->note) - 1 ? 0 : 0;
    strncpy(slot->note, s.c_str() + off, sizeof(slot->note) - 1);
  }
};

template <typename... A>
inline std::string cat(const A&... a)
{
  std::ostringstream os;
  os.precision(17);
  int dummy[] = {0, ((os << a), 0)...};
  (void)dummy;
  return os.str();
}

#define PBT_STR2(x) #x
#define PBT_STR(x) PBT_STR2(x)
// PBT_REQUIRE(key, condition, message parts...)
#define PBT_REQUIRE(key_, cond_, ...)                                          \
  do {                                                                         \
    if (!(cond_))                                                              \
      throw pbt::Failure{key_, pbt::cat("[", key_, "] ", #cond_, " : ",        \
                                        __VA_ARGS__)};                         \
  } while (0)

struct Test {
  const char* name;
  void (*fn)(Case&);
  uint64_t quick, thorough;
  const char* variant;  // "both", "san", "opt"
  bool known = false;    // demonstrates a recorded finding: expected to fail
};
inline std::vector<Test>& tests()
{
  static std::vector<Test> t;
  return t;
}
struct Registrar {
  Registrar(const char* n, void (*f)(Case&), uint64_t q, uint64_t t,
            const char* v = "both", bool known = false)
  {
    tests().push_back(Test{n, f, q, t, v, known});
  }
};
#define PBT_TEST(name_, quick_, thorough_)                                     \
  static void name_(pbt::Case& c);                                             \
  static pbt::Registrar reg_##name_(#name_, name_, quick_, thorough_);         \
  static void name_(pbt::Case& c)

// a fixed case that shows a recorded, unrepaired finding
#define PBT_KNOWN(name_)                                                       \
  static void name_(pbt::Case& c);                                             \
  static pbt::Registrar reg_##name_(#name_, name_, 1, 1, "both", true);        \
  static void name_(pbt::Case& c)

inline Slot* mapSlots(size_t k)
{
  void* p = mmap(nullptr, sizeof(Slot) * k, PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    exit(3);
  }
  return static_cast<Slot*>(p);
}

inline Slot*& currentSlot()
{
  static Slot* s = nullptr;
  return s;
}
static const int kHangExit = 77;
inline void onProf(int)
{
  if (currentSlot())
    currentSlot()->state = 3;
  _exit(kHangExit);
}
inline void arm(int seconds)
{
  struct itimerval it;
  memset(&it, 0, sizeof(it));
  it.it_value.tv_sec = seconds;
  setitimer(ITIMER_PROF, &it, nullptr);
}

// CPU seconds a single case may use; ordinary cases take milliseconds
inline int& hangCpuSeconds()
{
  static int s = 30;
  return s;
}

enum Outcome { PASS, FAIL, CRASH, HANG, DISCARD };

inline uint64_t hash64(const uint64_t* p, size_t n)
{
  uint64_t h = 1469598103934665603ULL;
  for (size_t i = 0; i < n; ++i) {
    h ^= p[i];
    h *= 1099511628211ULL;
    h ^= h >> 29;
  }
  return h;
}
inline uint64_t hashStr(const char* s)
{
  uint64_t h = 1469598103934665603ULL;
  for (; *s; ++s) {
    h ^= static_cast<unsigned char>(*s);
    h *= 1099511628211ULL;
  }
  return h;
}

// runs one case inside the current process
inline Outcome runHere(const Test& t, Case& c)
{
  Slot* s = c.slot;
  s->n_choices = 0;
  try {
    t.fn(c);
  } catch (const Discard&) {
    return DISCARD;
  } catch (const Failure& f) {
    strncpy(s->key, f.key.c_str(), sizeof(s->key) - 1);
    strncpy(s->msg, f.msg.c_str(), sizeof(s->msg) - 1);
    return FAIL;
  } catch (const std::exception& e) {
    strncpy(s->key, "unexpected-exception", sizeof(s->key) - 1);
    std::string m = std::string("unexpected exception: ") + e.what();
    strncpy(s->msg, m.c_str(), sizeof(s->msg) - 1);
    return FAIL;
  } catch (...) {
    strncpy(s->key, "unexpected-exception", sizeof(s->key) - 1);
    strncpy(s->msg, "unexpected non-standard exception", sizeof(s->msg) - 1);
    return FAIL;
  }
  return PASS;
}

struct Result {
  Outcome out = PASS;
  std::string key, msg, note;
  std::vector<uint64_t> choices;
};

inline void quiet(const std::string& log)
{
  int fd = open(log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd >= 0) {
    dup2(fd, 1);
    dup2(fd, 2);
    close(fd);
  }
}

struct Options {
  uint64_t seed = 1;
  bool thorough = false;
  int jobs = 8;
  double scale = 1.0;
  double max_seconds = 120;
  std::string out, variant = "san", property = "X", replay_dir = ".", tmp = "/tmp";
  std::string replay, only, known;
  int list = 0;
};

inline std::string tailOf(const std::string& path, size_t maxlen)
{
  std::ifstream f(path);
  std::stringstream ss;
  ss << f.rdbuf();
  std::string s = ss.str();
  // keep the most informative piece of a sanitizer report
  size_t p = s.find("ERROR: AddressSanitizer");
  if (p == std::string::npos)
    p = s.find("runtime error");
  if (p == std::string::npos)
    p = s.find("Assertion");
  if (p != std::string::npos) {
    size_t b = s.rfind('\n', p);
    s = s.substr(b == std::string::npos ? 0 : b + 1);
    return s.substr(0, maxlen);
  }
  return s.size() > maxlen ? s.substr(s.size() - maxlen) : s;
}

// forks, runs a fixed choice list, reports what happened
inline Result runForked(const Test& t, const std::vector<uint64_t>& ch,
                        Slot* slot, const Options& o, bool verbose)
{
  memset(slot->key, 0, sizeof(slot->key));
  memset(slot->msg, 0, sizeof(slot->msg));
  memset(slot->note, 0, sizeof(slot->note));
  slot->state = 0;
  slot->n_choices = 0;
  std::string log = o.tmp + "/child.log";
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    quiet(log);
    currentSlot() = slot;
    signal(SIGPROF, onProf);
    arm(hangCpuSeconds());
    Case c;
    c.fixed = &ch;
    c.slot = slot;
    c.verbose = verbose;
    c.thorough = o.thorough;
    Outcome r = runHere(t, c);
    _exit(r == PASS ? 0 : r == FAIL ? 11 : 12);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  Result res;
  res.choices.assign(slot->choices, slot->choices + slot->n_choices);
  res.note = slot->note;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
    res.out = PASS;
  else if (WIFEXITED(st) && WEXITSTATUS(st) == 12)
    res.out = DISCARD;
  else if (WIFEXITED(st) && WEXITSTATUS(st) == 11) {
    res.out = FAIL;
    res.key = slot->key;
    res.msg = slot->msg;
  } else if (WIFEXITED(st) && WEXITSTATUS(st) == kHangExit) {
    res.out = HANG;
    res.key = "hang";
    res.msg = cat("the case used more than ", hangCpuSeconds(),
                  " s of CPU time (does not terminate)");
  } else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
    res.out = CRASH;
    res.key = "crash";
    res.msg = "killed (out of memory?)";
  } else {
    res.out = CRASH;
    res.key = "crash";
    res.msg = cat("abnormal end (",
                  WIFSIGNALED(st) ? cat("signal ", WTERMSIG(st)) :
                                    cat("exit ", WEXITSTATUS(st)),
                  "): ", tailOf(log, 1500));
  }
  return res;
}

inline double now()
{
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return static_cast<double>(ts.tv_sec) + 1e-9 * static_cast<double>(ts.tv_nsec);
}

inline Result shrink(const Test& t, Result best, Slot* slot, const Options& o)
{
  double deadline = now() + (best.out == HANG ? 100 : 40);
  int budget = best.out == HANG ? 3 : 2500;
  auto attempt = [&](const std::vector<uint64_t>& ch) -> bool {
    if (budget-- <= 0 || now() > deadline)
      return false;
    Result r = runForked(t, ch, slot, o, false);
    if ((r.out == FAIL || r.out == CRASH || r.out == HANG) &&
        r.key == best.key) {
      // r.choices is the normalised sequence actually consumed
      if (r.choices.size() < best.choices.size() ||
          (r.choices.size() == best.choices.size() &&
           r.choices < best.choices)) {
        best = r;
        return true;
      }
    }
    return false;
  };
  bool progress = true;
  while (progress && budget > 0 && now() < deadline) {
    progress = false;
    // delete blocks
    for (size_t k = std::min<size_t>(64, best.choices.size()); k >= 1; k = k > 8 ? k / 2 : k - 1) {
      for (size_t i = best.choices.size(); i-- > 0;) {
        if (i + k > best.choices.size())
          continue;
        std::vector<uint64_t> ch = best.choices;
        ch.erase(ch.begin() + static_cast<long>(i),
                 ch.begin() + static_cast<long>(i + k));
        if (attempt(ch)) {
          progress = true;
        } else {
          // delete the block and lower a preceding counter (list lengths)
          if (i > 0 && best.choices[i - 1] > 0 && k <= 8) {
            ch = best.choices;
            ch.erase(ch.begin() + static_cast<long>(i),
                     ch.begin() + static_cast<long>(i + k));
            ch[i - 1] -= 1;
            if (attempt(ch))
              progress = true;
          }
        }
        if (budget <= 0 || now() > deadline)
          return best;
      }
    }
    // zero / minimise single choices
    for (size_t i = 0; i < best.choices.size(); ++i) {
      if (best.choices[i] == 0)
        continue;
      std::vector<uint64_t> ch = best.choices;
      ch[i] = 0;
      if (attempt(ch)) {
        progress = true;
        continue;
      }
      uint64_t lo = 0, hi = i < best.choices.size() ? best.choices[i] : 0;
      while (lo + 1 < hi && budget > 0 && now() < deadline) {
        uint64_t mid = lo + (hi - lo) / 2;
        ch = best.choices;
        if (i >= ch.size())
          break;
        ch[i] = mid;
        if (attempt(ch)) {
          progress = true;
          hi = i < best.choices.size() ? best.choices[i] : 0;
        } else
          lo = mid;
      }
    }
  }
  return best;
}

inline std::string jsonEscape(const std::string& s)
{
  std::string o;
  for (unsigned char ch : s) {
    switch (ch) {
      case '"': o += "\\\""; break;
      case '\\': o += "\\\\"; break;
      case '\n': o += "\\n"; break;
      case '\t': o += "\\t"; break;
      default:
        if (ch < 0x20 || ch >= 0x7f) {
          char b[8];
          snprintf(b, sizeof(b), "\\u%04x", ch);
          o += b;
        } else
          o += static_cast<char>(ch);
    }
  }
  return o;
}

inline int runTest(const Test& t, const Options& o, std::ostream& js,
                   bool& first)
{
  uint64_t total = o.thorough ? t.thorough : t.quick;
  total = static_cast<uint64_t>(static_cast<double>(total) * o.scale);
  if (total < 1)
    total = 1;
  int W = o.jobs;
  Slot* slots = mapSlots(static_cast<size_t>(W) + 1);
  volatile int* stop = static_cast<volatile int*>(
      mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS,
           -1, 0));
  *stop = 0;
  uint64_t base = o.seed * 0x9e3779b97f4a7c15ULL ^ hashStr(t.name) ^
                  (hashStr(o.variant.c_str()) << 1);
  double t0 = now();
  double deadline = t0 + o.max_seconds;
  std::vector<pid_t> pids(static_cast<size_t>(W));
  fflush(stdout);
  fflush(stderr);
  for (int w = 0; w < W; ++w) {
    pid_t pid = fork();
    if (pid == 0) {
      quiet(o.tmp + "/w" + std::to_string(w) + ".log");
      Slot* s = &slots[w];
      currentSlot() = s;
      signal(SIGPROF, onProf);
      std::unordered_set<uint64_t> seen;
      std::map<std::string, uint64_t> labels;
      std::vector<std::string> samples;
      int code = 0;
      for (uint64_t i = static_cast<uint64_t>(w); i < total;
           i += static_cast<uint64_t>(W)) {
        if (*stop || now() > deadline)
          break;
        s->index = i;
        Case c;
        c.slot = s;
        c.rng = base + i * 0xd1342543de82ef95ULL;
        c.next();
        c.thorough = o.thorough;
        c.verbose = samples.size() < 2 && i / static_cast<uint64_t>(W) < 40;
        if (c.verbose)
          s->note[0] = 0;
        arm(hangCpuSeconds());
        Outcome r = runHere(t, c);
        if (r == DISCARD) {
          s->discards = s->discards + 1;
          continue;
        }
        s->evals = s->evals + 1;
        if (r == FAIL) {
          s->state = 2;
          *stop = 1;
          code = 11;
          break;
        }
        for (auto l : c.labels)
          labels[l]++;
        if (c.is_nontrivial) {
          if (seen.insert(hash64(s->choices, s->n_choices)).second)
            s->nontrivial = s->nontrivial + 1;
          if (c.verbose && s->note[0])
            samples.push_back(s->note);
        }
      }
      arm(0);
      std::ofstream f(o.tmp + "/w" + std::to_string(w) + ".stats",
                      std::ios::binary);
      f << seen.size() << "\n";
      for (uint64_t h : seen)
        f.write(reinterpret_cast<const char*>(&h), 8);
      f << labels.size() << "\n";
      for (auto& l : labels)
        f << l.first << "\n" << l.second << "\n";
      f << samples.size() << "\n";
      for (auto& x : samples) {
        f << x.size() << "\n";
        f.write(x.data(), static_cast<long>(x.size()));
      }
      f.close();
      if (code == 0)
        s->state = 1;
      _exit(code);
    }
    pids[static_cast<size_t>(w)] = pid;
  }
  struct Fail {
    uint64_t index;
    int w;
  };
  std::vector<Fail> fails;
  for (int k = 0; k < W; ++k) {
    int st = 0;
    pid_t p;
    while ((p = waitpid(-1, &st, 0)) < 0 && errno == EINTR) {
    }
    int w = -1;
    for (int j = 0; j < W; ++j)
      if (pids[static_cast<size_t>(j)] == p)
        w = j;
    if (w < 0) {
      --k;
      continue;
    }
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
      *stop = 1;
      fails.push_back(Fail{slots[w].index, w});
    }
  }
  double explore_s = now() - t0;
  uint64_t evals = 0, nont = 0, disc = 0;
  std::unordered_set<uint64_t> all;
  std::map<std::string, uint64_t> labels;
  std::vector<std::string> samples;
  for (int w = 0; w < W; ++w) {
    evals += slots[w].evals;
    disc += slots[w].discards;
    std::string fn = o.tmp + "/w" + std::to_string(w) + ".stats";
    std::ifstream f(fn, std::ios::binary);
    if (f) {
      size_t n = 0;
      f >> n;
      f.get();
      for (size_t i = 0; i < n; ++i) {
        uint64_t h;
        f.read(reinterpret_cast<char*>(&h), 8);
        all.insert(h);
      }
      size_t m = 0;
      f >> m;
      f.get();
      for (size_t i = 0; i < m; ++i) {
        std::string l, v;
        std::getline(f, l);
        std::getline(f, v);
        labels[l] += std::stoull(v);
      }
      f >> m;
      f.get();
      for (size_t i = 0; i < m; ++i) {
        size_t len = 0;
        f >> len;
        f.get();
        std::string x(len, ' ');
        f.read(&x[0], static_cast<long>(len));
        if (samples.size() < 3)
          samples.push_back(x);
      }
    }
    f.close();
    unlink(fn.c_str());
  }
  nont = all.size();
  int violations = 0;
  std::string vmsg, vreplay, flaky;
  if (!fails.empty()) {
    std::sort(fails.begin(), fails.end(),
              [](const Fail& a, const Fail& b) { return a.index < b.index; });
    for (auto& fl : fails) {
      std::vector<uint64_t> ch(slots[fl.w].choices,
                               slots[fl.w].choices + slots[fl.w].n_choices);
      Slot* ss = &slots[W];
      Result r = runForked(t, ch, ss, o, false);
      if (r.out == PASS || r.out == DISCARD) {
        // a second chance: replays must be reliable
        flaky += cat("case ", fl.index, " failed in a worker (",
                     slots[fl.w].msg, " / ",
                     tailOf(o.tmp + "/w" + std::to_string(fl.w) + ".log", 1500),
                     ") but its replay passed; ");
        continue;
      }
      Result best = shrink(t, r, ss, o);
      int again = 0;
      Result last;
      for (int k = 0; k < 3; ++k) {
        last = runForked(t, best.choices, ss, o, true);
        if (last.out != PASS && last.out != DISCARD)
          ++again;
        else
          break;
      }
      if (again < 3) {
        best = r;
        again = 0;
        for (int k = 0; k < 3; ++k) {
          last = runForked(t, best.choices, ss, o, true);
          if (last.out != PASS && last.out != DISCARD)
            ++again;
        }
      }
      if (again < 3) {
        flaky += cat("case ", fl.index, " did not fail on 3 replays: ", r.msg);
        continue;
      }
      violations = 1;
      vmsg = last.msg;
      vreplay = cat(o.replay_dir, "/", o.property, "-", t.name, "-", o.variant,
                    ".replay");
      std::ofstream f(vreplay);
      f << "property " << o.property << "\n";
      f << "test " << t.name << "\n";
      f << "variant " << o.variant << "\n";
      f << "choices " << last.choices.size();
      for (auto x : last.choices)
        f << " " << x;
      f << "\n# --- what failed\n" << last.msg << "\n# --- case\n"
        << last.note << "\n";
      f.close();
      break;
    }
  }
  if (violations) {
    printf("FAIL %s/%s [%s]: %s\n", o.property.c_str(), t.name,
           o.variant.c_str(), vmsg.c_str());
    printf("VIOLATION property=%s replay=%s\n", o.property.c_str(),
           vreplay.c_str());
  }
  if (!flaky.empty())
    printf("UNREPRODUCIBLE %s/%s [%s]: %s\n", o.property.c_str(), t.name,
           o.variant.c_str(), flaky.c_str());
  printf("  %-34s %-4s evals=%llu nontrivial=%llu discards=%llu %.1fs%s\n",
         t.name, o.variant.c_str(), (unsigned long long)evals,
         (unsigned long long)nont, (unsigned long long)disc, explore_s,
         evals + disc < total && !violations ? " (time cap reached)" : "");
  fflush(stdout);
  js << (first ? "" : ",\n") << "{\"test\":\"" << t.name << "\",\"variant\":\""
     << o.variant << "\",\"requested\":" << total << ",\"evaluations\":" << evals
     << ",\"distinct_nontrivial\":" << nont << ",\"discarded\":" << disc
     << ",\"wall_s\":" << explore_s << ",\"violations\":" << violations
     << ",\"message\":\"" << jsonEscape(vmsg) << "\",\"replay\":\""
     << jsonEscape(vreplay) << "\",\"unreproducible\":\"" << jsonEscape(flaky)
     << "\",\"classes\":{";
  bool fl = true;
  for (auto& l : labels) {
    js << (fl ? "" : ",") << "\"" << jsonEscape(l.first) << "\":" << l.second;
    fl = false;
  }
  js << "},\"samples\":[";
  fl = true;
  for (auto& x : samples) {
    js << (fl ? "" : ",") << "\""
       << jsonEscape(x.size() > 1500 ? x.substr(0, 1500) + "..." : x) << "\"";
    fl = false;
  }
  js << "]}";
  first = false;
  munmap(slots, sizeof(Slot) * (static_cast<size_t>(W) + 1));
  munmap(const_cast<int*>(stop), 4096);
  return violations;
}

inline int replayMain(const Options& o)
{
  std::ifstream f(o.replay);
  std::string line, test;
  std::vector<uint64_t> ch;
  while (std::getline(f, line)) {
    std::istringstream is(line);
    std::string k;
    is >> k;
    if (k == "test")
      is >> test;
    else if (k == "choices") {
      size_t n = 0;
      is >> n;
      uint64_t v;
      while (is >> v)
        ch.push_back(v);
      break;
    }
  }
  for (auto& t : tests()) {
    if (test != t.name)
      continue;
    Slot* s = mapSlots(1);
    Result r = runForked(t, ch, s, o, true);
    printf("%s\n", r.note.c_str());
    if (r.out == PASS || r.out == DISCARD) {
      printf("REPLAY passes\n");
      return 0;
    }
    printf("REPLAY fails: %s\n", r.msg.c_str());
    return 1;
  }
  printf("no such test: %s\n", test.c_str());
  return 2;
}

inline int mainImpl(int argc, char** argv)
{
  Options o;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--seed")
      o.seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--thorough")
      o.thorough = true;
    else if (a == "--jobs")
      o.jobs = atoi(val().c_str());
    else if (a == "--scale")
      o.scale = atof(val().c_str());
    else if (a == "--max-seconds")
      o.max_seconds = atof(val().c_str());
    else if (a == "--out")
      o.out = val();
    else if (a == "--variant")
      o.variant = val();
    else if (a == "--property")
      o.property = val();
    else if (a == "--replay-dir")
      o.replay_dir = val();
    else if (a == "--tmp")
      o.tmp = val();
    else if (a == "--replay")
      o.replay = val();
    else if (a == "--only")
      o.only = val();
    else if (a == "--known")
      o.known = "," + val() + ",";
  }
  if (!o.replay.empty())
    return replayMain(o);
  std::ostringstream js;
  bool first = true;
  int v = 0;
  js << "[";
  for (auto& t : tests()) {
    if (!o.only.empty() && o.only != t.name)
      continue;
    if (std::string(t.variant) != "both" && o.variant != t.variant)
      continue;
    if (t.known && o.known.find("," + std::string(t.name) + ",") !=
                       std::string::npos) {
      // listed as a known finding: run its one case, never an alarm
      Slot* s = mapSlots(1);
      Result r = runForked(t, {}, s, o, true);
      bool hit = r.out != PASS && r.out != DISCARD;
      js << (first ? "" : ",\n") << "{\"test\":\"" << t.name
         << "\",\"variant\":\"" << o.variant
         << "\",\"requested\":1,\"evaluations\":1,\"distinct_nontrivial\":0,"
            "\"discarded\":0,\"wall_s\":0,\"violations\":0,\"message\":\""
         << jsonEscape(r.msg)
         << "\",\"replay\":\"\",\"unreproducible\":\"\",\"classes\":{},"
            "\"samples\":[],\"known\":true,\"known_hit\":"
         << (hit ? "true" : "false") << "}";
      first = false;
      continue;
    }
    v += runTest(t, o, js, first);
  }
  js << "]\n";
  if (!o.out.empty()) {
    std::ofstream f(o.out);
    f << js.str();
  }
  return v ? 1 : 0;
}

// reproducible floating-point comparison
inline bool close(double a, double b, double abs_tol, double rel_tol = 0)
{
  if (std::isnan(a) || std::isnan(b))
    return false;
  if (a == b)
    return true;
  double d = std::fabs(a - b);
  return d <= abs_tol + rel_tol * std::max(std::fabs(a), std::fabs(b));
}
inline double wrapPi(double a)
{
  return std::atan2(std::sin(a), std::cos(a));
}
inline double angDist(double a, double b)
{
  return std::fabs(wrapPi(a - b));
}

}  // namespace pbt

#define PBT_MAIN()                                                             \
  int main(int argc, char** argv)                                              \
  {                                                                            \
    return pbt::mainImpl(argc, argv);                                          \
  }
