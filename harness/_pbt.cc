#include "pbt.hh"
#include "Error.hh"
#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <errno.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_set>

#if defined(__SANITIZE_ADDRESS__)
#define PBT_ASAN 1
extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:detect_container_overflow=0:new_delete_type_mismatch=0:alloc_dealloc_mismatch=0";
}
#else
#define PBT_ASAN 0
#endif

namespace pbt {

void Src::reseed(uint64_t z) {
  for (int i = 0; i < 4; i++) {
    z += 0x9e3779b97f4a7c15ULL;
    uint64_t x = z;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    m_s[i] = x ^ (x >> 31);
  }
}
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
uint64_t Src::next() {
  uint64_t r = rotl(m_s[1] * 5, 7) * 9, t = m_s[1] << 17;
  m_s[2] ^= m_s[0]; m_s[3] ^= m_s[1]; m_s[1] ^= m_s[2]; m_s[0] ^= m_s[3];
  m_s[2] ^= t; m_s[3] = rotl(m_s[3], 45);
  return r;
}
long Src::draw(long lo, long hi) {
  if (hi < lo) hi = lo;
  uint64_t span = (uint64_t)hi - (uint64_t)lo;
  uint64_t v;
  if (m_live) {
    uint64_t r = next();
    v = span == UINT64_MAX ? r : (uint64_t)(((unsigned __int128)r * (span + 1)) >> 64);
  } else {
    v = m_pos < m_tape.size() ? m_tape[m_pos] : 0;
    m_pos++;
    if (v > span) v = span;
  }
  m_out.push_back(v);
  return (long)((uint64_t)lo + v);
}
long Src::geo(long max) {
  long n = 0;
  while (n < max && chance(2, 3)) n++;
  return n;
}
size_t Src::weighted(std::initializer_list<int> w) {
  long t = 0;
  for (int x : w) t += x;
  long r = draw(0, t - 1);
  size_t i = 0;
  for (int x : w) { if (r < x) return i; r -= x; i++; }
  return 0;
}
uint64_t Src::hash() const {
  uint64_t h = 1469598103934665603ULL;
  for (uint64_t v : m_out) { h ^= v + 0x9e3779b97f4a7c15ULL; h *= 1099511628211ULL; h ^= h >> 29; }
  return h;
}

void fail(const std::string& m, const std::string& sig) { throw Fail{m, sig}; }

struct RegE { std::string prop, sub; PropFn fn; Opts o; };
struct PinE { std::string prop, sig; void (*fn)(); };
struct RuleE { std::string text; std::vector<std::string> assume; };
static std::vector<RegE>& regs() { static std::vector<RegE> r; return r; }
static std::vector<PinE>& pins() { static std::vector<PinE> r; return r; }
static std::map<std::string, RuleE>& rules() { static std::map<std::string, RuleE> r; return r; }
Reg::Reg(const char* p, const char* s, PropFn fn, Opts o) { regs().push_back({p, s, fn, o}); }
Pinned::Pinned(const char* p, const char* sig, void (*fn)()) { pins().push_back({p, sig, fn}); }
Rule::Rule(const char* p, const char* t, std::vector<std::string> a) { rules()[p] = {t, a}; }

static double now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

enum Outcome { OK = 0, DISCARDED = 1, FAILED = 2, CRASHED = 3, HUNG = 4, KNOWN = 5 };

struct Shared {  // one per worker, in shared memory
  volatile long cur;       // case index being run
  volatile int outcome;
  char sig[128];
  char msg[8192];
  char note[65536];
  volatile uint32_t ntape;
  uint64_t tape[1 << 17];
};
static Shared* newShared() {
  void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
  return (Shared*)p;
}
static void put(char* dst, size_t n, const std::string& s) {
  size_t k = std::min(n - 1, s.size());
  memcpy(dst, s.data(), k);
  dst[k] = 0;
}

static std::string clean(const std::string& s) {
  std::string o;
  for (unsigned char c : s) o += (c == '\n' || (c >= 32 && c < 127)) ? (char)c : '?';
  return o;
}

// Run one property case in this process.
static Outcome runHere(const RegE& r, Src& s, std::string& msg, std::string& sig) {
  try {
    r.fn(s);
    return OK;
  } catch (const Discard&) {
    return DISCARDED;
  } catch (const Fail& f) {
    msg = f.msg; sig = f.sig;
  } catch (const Error& e) {
    std::ostringstream o;
    o << "unexpected EUROPA error: " << e.getMsg() << " [" << e.getCondition() << " at " << e.getFile() << "]";
    msg = o.str();
  } catch (const std::bad_alloc&) {
    msg = "out of memory (bad_alloc)";
  } catch (const std::exception& e) {
    msg = std::string("unexpected exception: ") + typeid(e).name() + ": " + e.what();
  } catch (const std::string& e) {
    msg = "unexpected string exception: " + e;
  } catch (const char* e) {
    msg = std::string("unexpected exception: ") + e;
  } catch (...) {
    msg = "unexpected exception of unknown type";
  }
  return FAILED;
}

static void setLimits(int cpu) {
  struct itimerval tv;
  memset(&tv, 0, sizeof tv);
  tv.it_value.tv_sec = cpu;
  setitimer(ITIMER_PROF, &tv, nullptr);
}
static void childSetup(const std::string& errfileIn) {
  std::string errfile = errfileIn;
  if (const char* d = getenv("PBT_ERR")) { errfile = d; Error::doDisplayErrors(); }  // for looking into a replay by hand
  int fd = open(errfile.empty() ? "/dev/null" : errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (fd >= 0) { dup2(fd, 1); dup2(fd, 2); close(fd); }
#if !PBT_ASAN
  struct rlimit rl = {3UL << 30, 3UL << 30};
  setrlimit(RLIMIT_AS, &rl);
#endif
  struct rlimit rc = {0, 0};
  setrlimit(RLIMIT_CORE, &rc);
  // a deep but finite stack, so that runaway recursion is found quickly
}

static std::string tailOf(const std::string& f, size_t n) {
  std::ifstream i(f, std::ios::binary);
  std::stringstream ss; ss << i.rdbuf();
  std::string t = ss.str();
  size_t p = t.find("ERROR: AddressSanitizer");
  if (p != std::string::npos) return t.substr(p, n);
  return t.size() > n ? t.substr(t.size() - n) : t;
}

// Run a list of tapes in one forked child; the last one decides.
static std::string g_errfile;
static Outcome runTapes(const RegE& r, const std::vector<std::vector<uint64_t>>& tapes, Shared* sh,
                        std::string& msg, std::string& sig, std::string& note, std::vector<uint64_t>* used = nullptr) {
  sh->outcome = CRASHED;
  sh->msg[0] = sh->sig[0] = sh->note[0] = 0;
  sh->ntape = 0;
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    childSetup(g_errfile);
    for (size_t i = 0; i < tapes.size(); i++) {
      Src s(tapes[i]);
      std::string m, g;
      setLimits(r.o.cpuLimit);
      Outcome o = runHere(r, s, m, g);
      bool last = i + 1 == tapes.size();
      if (last || o == FAILED) {
        put(sh->msg, sizeof sh->msg, m);
        put(sh->sig, sizeof sh->sig, g);
        put(sh->note, sizeof sh->note, s.noteText());
        size_t k = std::min<size_t>(s.consumed().size(), sizeof sh->tape / 8);
        memcpy(sh->tape, s.consumed().data(), k * 8);
        sh->ntape = k;
        sh->outcome = o;
        break;
      }
    }
    _exit(0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  Outcome o = (Outcome)sh->outcome;
  if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0)) {
    std::ostringstream m;
    if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGPROF || WTERMSIG(st) == SIGXCPU)) {
      o = HUNG; m << "no answer within " << r.o.cpuLimit << " s of CPU time";
    } else {
      o = CRASHED;
      if (WIFSIGNALED(st)) m << "killed by signal " << WTERMSIG(st); else m << "exited with status " << WEXITSTATUS(st);
      m << "; last output: " << clean(tailOf(g_errfile, 1500));
    }
    msg = m.str();
    note = sh->note;
    return o;
  }
  msg = sh->msg; sig = sh->sig; note = sh->note;
  if (used) used->assign(sh->tape, sh->tape + sh->ntape);
  return o;
}

static std::set<std::string> g_known;  // signatures listed for this property
static std::map<std::string, std::string> g_knownText;
static bool bad(Outcome o, const std::string& sig) {
  if (o == OK || o == DISCARDED) return false;
  if (o == FAILED && !sig.empty() && g_known.count(sig)) return false;
  return true;
}

static std::vector<uint64_t> shrink(const RegE& r, std::vector<uint64_t> t, Shared* sh, double budget) {
  double t0 = now();
  long tries = 0;
  auto test = [&](const std::vector<uint64_t>& c, std::vector<uint64_t>& used) {
    if (now() - t0 > budget) return false;
    tries++;
    std::string m, g, n;
    used.clear();
    Outcome o = runTapes(r, {c}, sh, m, g, n, &used);
    if (!bad(o, g)) return false;
    if (o != FAILED || used.empty()) used = c;
    while (!used.empty() && used.back() == 0) used.pop_back();
    return true;
  };
  auto less = [](const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b;
  };
  std::vector<uint64_t> used;
  bool progress = true;
  while (progress && now() - t0 < budget) {
    progress = false;
    for (size_t len = std::max<size_t>(1, t.size() / 2); len >= 1; len /= 2) {
      for (size_t i = 0; i + len <= t.size() && now() - t0 < budget;) {
        std::vector<uint64_t> c(t);
        c.erase(c.begin() + i, c.begin() + i + len);
        if (test(c, used) && less(used, t)) { t = used; progress = true; }
        else i += len;
      }
      if (len == 1) break;
    }
    for (size_t len = std::max<size_t>(1, t.size() / 4); len >= 2; len /= 2) {
      for (size_t i = 0; i + len <= t.size() && now() - t0 < budget; i += len) {
        std::vector<uint64_t> c(t);
        bool z = true;
        for (size_t k = i; k < i + len; k++) { if (c[k]) z = false; c[k] = 0; }
        if (z) continue;
        if (test(c, used) && less(used, t)) { t = used; progress = true; }
      }
    }
    for (size_t i = 0; i < t.size() && now() - t0 < budget; i++) {
      if (!t[i]) continue;
      uint64_t lo = 0, hi = t[i];
      std::vector<uint64_t> c(t);
      c[i] = 0;
      if (test(c, used) && less(used, t)) { t = used; progress = true; continue; }
      int guard = 0;
      while (hi - lo > 1 && guard++ < 24) {
        uint64_t mid = lo + (hi - lo) / 2;
        c = t; if (i >= c.size()) break;
        c[i] = mid;
        if (test(c, used) && less(used, t)) { t = used; progress = true; hi = mid; if (i >= t.size()) break; }
        else lo = mid;
      }
    }
  }
  return t;
}

static std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}

static uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t z = a * 0x9e3779b97f4a7c15ULL + b + 0x632be59bd9b4e019ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
static uint64_t shash(const std::string& s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
  return h;
}

struct Agg {
  long evals = 0, discards = 0, known = 0;
  std::unordered_set<uint64_t> distinct;
  std::map<std::string, long> labels;
  std::vector<std::string> samples;
};

struct Batch { long b, e; };

static std::string writeReplay(const std::string& dir, const RegE& r, const std::vector<std::vector<uint64_t>>& tapes,
                               const std::string& msg, const std::string& note) {
  mkdir(dir.c_str(), 0755);
  std::ostringstream name;
  name << dir << "/" << r.prop << "-" << r.sub << ".replay";
  std::ofstream f(name.str());
  f << "property " << r.prop << "\nsub " << r.sub << "\n";
  for (auto& t : tapes) {
    f << "tape";
    for (uint64_t v : t) f << " " << v;
    f << "\n";
  }
  f << "message " << clean(msg) << "\n---- case ----\n" << note << "\n";
  return name.str();
}

static int runMain(int argc, char** argv) {
  std::string prop, tier = "quick", evidence, replayDir = "/tmp", replayFile, knownFile, only, variant = "";
  uint64_t seed = 1;
  double seconds = 0, scale = 1;
  int jobs = (int)sysconf(_SC_NPROCESSORS_ONLN);
  bool one = false; long oneIdx = 0;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() -> std::string { return ++i < argc ? argv[i] : ""; };
    if (a == "--property") prop = val();
    else if (a == "--tier") tier = val();
    else if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--seconds") seconds = atof(val().c_str());
    else if (a == "--scale") scale = atof(val().c_str());
    else if (a == "--evidence") evidence = val();
    else if (a == "--replaydir") replayDir = val();
    else if (a == "--replay") replayFile = val();
    else if (a == "--known") knownFile = val();
    else if (a == "--only") only = val();
    else if (a == "--variant") variant = val();
    else if (a == "-j") jobs = atoi(val().c_str());
    else if (a == "--case") { one = true; oneIdx = atol(val().c_str()); }
    else { std::cerr << "unknown argument " << a << "\n"; return 2; }
  }
  if (prop.empty() && replayFile.empty()) { std::cerr << "--property needed\n"; return 2; }
  if (jobs < 1) jobs = 1;
  Error::doThrowExceptions();
  Error::doNotDisplayErrors();
  Error::doNotDisplayWarnings();
  char tmpl[] = "/tmp/pbt.XXXXXX";
  std::string tmp = mkdtemp(tmpl);
  g_errfile = tmp + "/err";
  struct Cleanup { std::string d; pid_t p; ~Cleanup() { if (getpid() != p) return; for (const char* f : {"err"}) unlink((d + "/" + f).c_str()); for (int i = 0; i < 256; i++) unlink((d + "/w" + std::to_string(i)).c_str()); rmdir(d.c_str()); } } cl{tmp, getpid()};

  if (!replayFile.empty()) {
    std::ifstream f(replayFile);
    std::string line, p, sub;
    std::vector<std::vector<uint64_t>> tapes;
    while (std::getline(f, line)) {
      if (line.compare(0, 9, "property ") == 0) p = line.substr(9);
      else if (line.compare(0, 4, "sub ") == 0) sub = line.substr(4);
      else if (line.compare(0, 4, "tape") == 0) {
        std::istringstream is(line.substr(4));
        std::vector<uint64_t> t; uint64_t v;
        while (is >> v) t.push_back(v);
        tapes.push_back(t);
      } else if (line.compare(0, 4, "----") == 0) break;
    }
    for (auto& r : regs()) if (r.prop == p && r.sub == sub) {
      Shared* sh = newShared();
      std::string m, g, n;
      Outcome o = runTapes(r, tapes, sh, m, g, n);
      std::cout << "outcome " << o << " (0 ok 1 discard 2 fail 3 crash 4 hang) sig=" << g << "\n" << clean(m) << "\n---- case ----\n" << n << "\n";
      if (bad(o, g)) { std::cout << "VIOLATION property=" << p << " replay=" << replayFile << "\n"; return 1; }
      return 0;
    }
    std::cerr << "no such property/sub in this binary\n";
    return 2;
  }

  if (!knownFile.empty()) {
    // lines: finding: property=<id> sig=<signature> <text>
    std::ifstream f(knownFile);
    std::string line;
    while (std::getline(f, line)) {
      std::istringstream is(line);
      std::string w, p, s;
      is >> w >> p >> s;
      if (w == "finding:" && p == "property=" + prop && s.compare(0, 4, "sig=") == 0) {
        std::string rest; std::getline(is, rest);
        g_known.insert(s.substr(4));
        g_knownText[s.substr(4)] = rest;
      }
    }
  }

  std::vector<RegE> todo;
  for (auto& r : regs()) if (r.prop == prop && (only.empty() || only == r.sub)) todo.push_back(r);
  if (todo.empty()) { std::cerr << "no such property here: " << prop << "\n"; return 2; }

  if (one) {
    for (auto& r : todo) {
      Src s(mix(mix(seed, shash(r.prop + "/" + r.sub)), oneIdx));
      std::string m, g;
      Outcome o = runHere(r, s, m, g);
      std::cout << r.sub << " #" << oneIdx << " outcome " << o << " " << m << " sig=" << g << "\n" << s.noteText() << "\n";
    }
    return 0;
  }

  double t0 = now();
  double cap = seconds > 0 ? seconds : (tier == "thorough" ? 3600 : 240);
  std::map<std::string, Agg> agg;
  int violations = 0;
  std::vector<std::string> violationLines;

  // pinned inputs of listed findings
  std::set<std::string> pinnedSeen;
  for (auto& p : pins()) if (p.prop == prop && only.empty()) {
    static PinE* cur; cur = &p;
    RegE r{prop, "pinned-" + p.sig, [](Src&) { cur->fn(); }, Opts()};
    Shared* sh = newShared();
    std::string m, g, n;
    Outcome o = runTapes(r, {{}}, sh, m, g, n);
    if (o != OK && o != DISCARDED) {
      if (g_known.count(p.sig)) {
        std::cout << "KNOWN-FINDING: property=" << prop << " sig=" << p.sig << g_knownText[p.sig] << "\n";
        pinnedSeen.insert(p.sig);
      } else {
        std::string path = writeReplay(replayDir, r, {{}}, m, n);
        std::cout << "pinned case " << p.sig << ": " << clean(m) << "\n";
        violationLines.push_back("VIOLATION property=" + prop + " replay=" + path);
        violations++;
      }
    }
  }

  struct W { pid_t pid; Shared* sh; size_t sub; Batch b; };
  std::vector<W> ws(jobs);
  for (auto& w : ws) { w.pid = 0; w.sh = newShared(); }
  std::vector<long> nextIdx(todo.size(), 0), total(todo.size());
  for (size_t k = 0; k < todo.size(); k++)
    total[k] = std::max<long>(1, (long)(todo[k].o.quick * scale * (tier == "thorough" ? todo[k].o.thoroughFactor : 1)));
  bool stop = false;
  long failIdx = -1; size_t failSub = 0; Batch failB{0, 0};
  long unstable = 0;
  auto seedOf = [&](size_t k, long i) { return mix(mix(seed, shash(todo[k].prop + "/" + todo[k].sub)), i); };
  auto harvest = [&](int wi) {
    std::string fn = tmp + "/w" + std::to_string(wi);
    std::ifstream f(fn, std::ios::binary);
    Agg& a = agg[todo[ws[wi].sub].sub];
    std::string tag;
    while (f >> tag) {
      if (tag == "C") { long ev, d, kn; f >> ev >> d >> kn; a.evals += ev; a.discards += d; a.known += kn; }
      else if (tag == "H") { uint64_t h; f >> h; a.distinct.insert(h); }
      else if (tag == "L") { long n; f >> n; std::string l; f.get(); std::getline(f, l); a.labels[l] += n; }
      else if (tag == "S") { size_t n; f >> n; f.get(); std::string s(n, 0); f.read(&s[0], n); if (a.samples.size() < 3) a.samples.push_back(s); }
    }
    f.close();
    unlink(fn.c_str());
  };
  size_t rr = 0;
  while (true) {
    // launch
    for (int wi = 0; wi < jobs; wi++) {
      W& w = ws[wi];
      if (w.pid || stop || now() - t0 > cap) continue;
      size_t k = todo.size();
      // keep sub-properties progressing in proportion
      double best = 2;
      for (size_t j = 0; j < todo.size(); j++) {
        double frac = (double)nextIdx[j] / total[j];
        if (nextIdx[j] < total[j] && frac < best) { best = frac; k = j; }
      }
      if (k == todo.size()) continue;
      w.sub = k;
      w.b.b = nextIdx[k];
      w.b.e = std::min(total[k], w.b.b + todo[k].o.batch);
      nextIdx[k] = w.b.e;
      w.sh->cur = -1;
      w.sh->outcome = CRASHED;
      fflush(stdout);
      pid_t p = fork();
      if (p == 0) {
        childSetup("");
        const RegE& r = todo[k];
        std::ofstream f(tmp + "/w" + std::to_string(wi), std::ios::binary);
        long ev = 0, disc = 0, kn = 0, nsamp = 0;
        std::map<std::string, long> labels;
        bool failed = false;
        for (long i = w.b.b; i < w.b.e && !failed; i++) {
          w.sh->cur = i;
          Src s(seedOf(k, i));
          std::string m, g;
          setLimits(r.o.cpuLimit);
          Outcome o = runHere(r, s, m, g);
          ev++;
          if (o == DISCARDED) { disc++; continue; }
          if (o == FAILED) {
            if (!bad(o, g)) { kn++; labels["known:" + g]++; break; /* leave this process: state may be off */ }
            put(w.sh->msg, sizeof w.sh->msg, m);
            put(w.sh->note, sizeof w.sh->note, s.noteText());
            failed = true;
          }
          for (auto& l : s.labels()) labels[l.first] += l.second;
          if (s.isNontrivial()) {
            f << "H " << s.hash() << "\n";
            if (nsamp < 1 && w.b.b / std::max(1, r.o.batch) < 3) {
              std::string t = clean(s.noteText());
              if (!t.empty()) { if (t.size() > 1500) t = t.substr(0, 1500) + "..."; f << "S " << t.size() << " " << t << "\n"; nsamp++; }
            }
          }
        }
        setLimits(0);
        f << "C " << ev << " " << disc << " " << kn << "\n";
        for (auto& l : labels) f << "L " << l.second << " " << l.first << "\n";
        f.close();
        w.sh->outcome = failed ? FAILED : OK;
        _exit(0);
      }
      w.pid = p;
    }
    bool any = false;
    for (auto& w : ws) any = any || w.pid;
    if (!any) break;
    int st;
    pid_t p = waitpid(-1, &st, 0);
    if (p < 0) { if (errno == EINTR) continue; break; }
    for (int wi = 0; wi < jobs; wi++) {
      W& w = ws[wi];
      if (w.pid != p) continue;
      w.pid = 0;
      harvest(wi);
      bool clean_ = WIFEXITED(st) && WEXITSTATUS(st) == 0 && w.sh->outcome == OK;
      if (!clean_ && failIdx < 0 && w.sh->cur >= 0) {
        // confirm alone, in fresh processes
        const RegE& r = todo[w.sub];
        long idx = w.sh->cur;
        Shared* sh = newShared();
        auto tapeOf = [&](long i, std::vector<uint64_t>& t) {
          // regenerate the tape by running in a child that publishes what it drew
          sh->ntape = 0; sh->outcome = CRASHED;
          fflush(stdout);
          pid_t c = fork();
          if (c == 0) {
            childSetup(g_errfile);
            struct Pub : Src { using Src::Src; };
            Src s(seedOf(w.sub, i));
            std::string m, g;
            // publish on crash/hang too
            static Src* gs; static Shared* gsh; gs = &s; gsh = sh;
            auto pub = +[](int sig) {
              size_t k = std::min<size_t>(gs->consumed().size(), sizeof gsh->tape / 8);
              memcpy(gsh->tape, gs->consumed().data(), k * 8);
              gsh->ntape = k;
              put(gsh->note, sizeof gsh->note, gs->noteText());
              _exit(sig == SIGPROF ? 98 : 97);
            };
            static char alt[1 << 16];
            stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0;
            sigaltstack(&ss, nullptr);
            struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = pub; sa.sa_flags = SA_ONSTACK;
            for (int q : {SIGPROF, SIGABRT, SIGFPE, SIGILL}) sigaction(q, &sa, nullptr);
#if !PBT_ASAN
            for (int q : {SIGSEGV, SIGBUS}) sigaction(q, &sa, nullptr);
#endif
            static void (*pubc)() = nullptr;
            atexit([] {});
            (void)pubc;
            setLimits(r.o.cpuLimit);
            Outcome o = runHere(r, s, m, g);
            size_t k = std::min<size_t>(s.consumed().size(), sizeof sh->tape / 8);
            memcpy(sh->tape, s.consumed().data(), k * 8);
            sh->ntape = k;
            put(sh->note, sizeof sh->note, s.noteText());
            put(sh->msg, sizeof sh->msg, m);
            put(sh->sig, sizeof sh->sig, g);
            sh->outcome = o;
            _exit(0);
          }
          int s2; waitpid(c, &s2, 0);
          t.assign(sh->tape, sh->tape + sh->ntape);
          if (WIFEXITED(s2) && WEXITSTATUS(s2) == 0) return bad((Outcome)sh->outcome, sh->sig);
          return true;
        };
        std::vector<uint64_t> t;
        int reproduced = 0;
        for (int rep = 0; rep < 3; rep++) if (tapeOf(idx, t)) reproduced++;
        std::string firstMsg = sh->msg, firstNote = sh->note;
        std::vector<std::vector<uint64_t>> tapes;
        std::string msg, sig, note;
        bool confirmed = false;
        if (reproduced == 3) {
          if (t.empty()) {  // asan abort: no tape published; fall back to a drawn prefix
            std::cout << "note: tape not captured, replay by case index " << idx << "\n";
          }
          std::vector<uint64_t> small = shrink(r, t, sh, 45);
          std::vector<uint64_t> used;
          Outcome o = runTapes(r, {small}, sh, msg, sig, note, &used);
          if (!bad(o, sig)) { small = t; o = runTapes(r, {small}, sh, msg, sig, note); }
          if (msg.empty()) msg = firstMsg;
          if (note.empty()) note = firstNote;
          if (note.empty() && !bad(o, sig)) note = firstNote;
          tapes = {small};
          confirmed = true;
        } else {
          // depends on what ran before in the same process: replay the batch prefix
          std::vector<std::vector<uint64_t>> all;
          int again = 0;
          for (int rep = 0; rep < 2; rep++) {
            sh->outcome = CRASHED; sh->msg[0] = 0; sh->ntape = 0;
            fflush(stdout);
            pid_t c = fork();
            if (c == 0) {
              childSetup(g_errfile);
              Outcome o = OK; std::string m, g;
              for (long i = w.b.b; i <= idx; i++) {
                Src s(seedOf(w.sub, i));
                setLimits(r.o.cpuLimit);
                o = runHere(r, s, m, g);
                if (bad(o, g)) { put(sh->msg, sizeof sh->msg, m); put(sh->note, sizeof sh->note, s.noteText()); break; }
              }
              sh->outcome = bad(o, g) ? FAILED : OK;
              _exit(0);
            }
            int s2; waitpid(c, &s2, 0);
            if (!(WIFEXITED(s2) && WEXITSTATUS(s2) == 0) || sh->outcome == FAILED) again++;
          }
          if (again == 2) {
            for (long i = w.b.b; i <= idx; i++) { std::vector<uint64_t> ti; tapeOf(i, ti); all.push_back(ti); }
            // drop predecessors that are not needed
            double s0 = now();
            for (size_t len = std::max<size_t>(1, all.size() / 2); len >= 1; len /= 2) {
              for (size_t i = 0; i + len < all.size() && now() - s0 < 45;) {
                auto c2 = all;
                c2.erase(c2.begin() + i, c2.begin() + i + len);
                std::string m, g, n;
                if (bad(runTapes(r, c2, sh, m, g, n), g)) all = c2; else i += len;
              }
              if (len == 1) break;
            }
            Outcome o = runTapes(r, all, sh, msg, sig, note);
            (void)o;
            tapes = all;
            confirmed = true;
          } else unstable++;
        }
        if (confirmed) {
          failIdx = idx; failSub = w.sub; failB = w.b;
          stop = true;
          std::string path = writeReplay(replayDir, r, tapes, msg, note);
          std::cout << "property " << prop << "/" << r.sub << " case " << idx << " seed " << seed << ": " << clean(msg) << "\n";
          std::string n2 = clean(note);
          if (n2.size() > 3000) n2 = n2.substr(0, 3000) + "...";
          std::cout << "---- minimised case ----\n" << n2 << "\n------------------------\n";
          violationLines.push_back("VIOLATION property=" + prop + " replay=" + path);
          violations++;
          for (auto& w2 : ws) if (w2.pid) kill(w2.pid, SIGKILL);
        }
        munmap(sh, sizeof(Shared));
      }
    }
  }
  (void)rr; (void)failSub; (void)failB;

  double wall = now() - t0;
  long ev = 0, nt = 0, disc = 0, kn = 0;
  for (auto& a : agg) { ev += a.second.evals; nt += a.second.distinct.size(); disc += a.second.discards; kn += a.second.known; }
  std::ostringstream j;
  j << "{\"property\":" << jstr(prop) << ",\"tier\":" << jstr(tier) << ",\"seed\":" << seed
    << ",\"level\":\"exploration\",\"coverage\":{\"evaluations\":" << ev << ",\"distinct_nontrivial\":" << nt
    << ",\"discarded\":" << disc << ",\"known_finding_hits\":" << kn << ",\"unreproducible\":" << unstable
    << ",\"build\":" << jstr(PBT_ASAN ? "address-sanitized" : "plain")
    << ",\"rule\":" << jstr(rules()[prop].text) << ",\"per_check\":{";
  bool first = true;
  for (auto& a : agg) {
    if (!first) j << ",";
    first = false;
    j << jstr(a.first) << ":{\"evaluations\":" << a.second.evals << ",\"distinct_nontrivial\":" << a.second.distinct.size() << ",\"labels\":{";
    bool f2 = true;
    int n = 0;
    for (auto& l : a.second.labels) { if (n++ > 60) break; if (!f2) j << ","; f2 = false; j << jstr(l.first) << ":" << l.second; }
    j << "}}";
  }
  j << "},\"samples\":[";
  first = true;
  size_t room = 12000;
  for (auto& a : agg) for (auto& s : a.second.samples) {
    if (s.size() > room) continue;
    room -= s.size();
    if (!first) j << ",";
    first = false;
    j << jstr(a.first + ": " + s);
  }
  j << "]},\"assumptions\":[";
  first = true;
  for (auto& s : rules()[prop].assume) { if (!first) j << ","; first = false; j << jstr(s); }
  j << "],\"wall_s\":" << wall << ",\"violations\":" << violations << "}\n";
  if (!evidence.empty()) { std::ofstream f(evidence); f << j.str(); }
  std::cout << prop << ": " << ev << " cases, " << nt << " distinct non-trivial, " << disc << " discarded, "
            << kn << " known-finding hits, " << unstable << " unreproducible, " << wall << " s\n";
  for (auto& a : agg) {
    std::cout << "  " << a.first << ": " << a.second.evals << " / " << a.second.distinct.size();
    for (auto& l : a.second.labels) std::cout << "  " << l.first << "=" << l.second;
    std::cout << "\n";
  }
  for (auto& l : violationLines) std::cout << l << "\n";
  fflush(stdout);
  return violations ? 1 : 0;
}

}  // namespace pbt

int main(int argc, char** argv) { return pbt::runMain(argc, argv); }
