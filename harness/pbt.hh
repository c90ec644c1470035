// A small property-based testing engine: choice-tape generation, forked
// workers, crash/hang detection, tape shrinking, evidence counters.
#ifndef VERIF_PBT_HH
#define VERIF_PBT_HH
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Fail {
  std::string msg;
  std::string sig;  // names a listed known finding when non-empty
};
struct Discard {};

class Src {
public:
  explicit Src(uint64_t seed) : m_live(true), m_pos(0) { reseed(seed); }
  explicit Src(const std::vector<uint64_t>& tape) : m_live(false), m_pos(0), m_tape(tape) { reseed(0); }
  long draw(long lo, long hi);                       // uniform, shrinks to lo
  size_t idx(size_t n) { return (size_t)draw(0, (long)n - 1); }
  bool chance(int num, int den) { return draw(0, den - 1) >= den - num; }  // shrinks to false
  bool flip() { return draw(0, 1) == 1; }
  long geo(long max);                                // mostly small
  template <class C> const typename C::value_type& pick(const C& c) { return c[idx(c.size())]; }
  template <class T> T oneof(std::initializer_list<T> l) { return *(l.begin() + idx(l.size())); }
  size_t weighted(std::initializer_list<int> w);     // index by weight
  // bookkeeping
  void nontrivial() { m_nontrivial = true; }
  void label(const std::string& s) { m_labels[s]++; }
  std::ostringstream& note() { return m_note; }
  bool isNontrivial() const { return m_nontrivial; }
  const std::map<std::string, int>& labels() const { return m_labels; }
  std::string noteText() const { return m_note.str(); }
  const std::vector<uint64_t>& consumed() const { return m_out; }
  uint64_t hash() const;
private:
  void reseed(uint64_t s);
  uint64_t next();
  bool m_live;
  size_t m_pos;
  std::vector<uint64_t> m_tape, m_out;
  uint64_t m_s[4];
  bool m_nontrivial = false;
  std::map<std::string, int> m_labels;
  std::ostringstream m_note;
};

typedef void (*PropFn)(Src&);

struct Opts {
  long quick = 20000;      // number of cases at quick tier
  double thoroughFactor = 30;
  int batch = 400;         // cases per forked batch
  int cpuLimit = 20;       // CPU seconds for one case
};

struct Reg {
  Reg(const char* prop, const char* sub, PropFn fn, Opts o = Opts());
};
// A pinned input for a listed finding: throws Fail while the defect is there.
struct Pinned {
  Pinned(const char* prop, const char* sig, void (*fn)());
};
struct Rule {
  Rule(const char* prop, const char* text, std::vector<std::string> assumptions = {});
};

[[noreturn]] void fail(const std::string& m, const std::string& sig = "");

}  // namespace pbt

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PBT_PROP(prop, sub, fn, ...) static pbt::Reg PBT_CAT(s_reg_, __LINE__)(prop, sub, fn, pbt::Opts{__VA_ARGS__})
#define PBT_PINNED(prop, sig, fn) static pbt::Pinned PBT_CAT(s_pin_, __LINE__)(prop, sig, fn)
#define PBT_RULE(prop, ...) static pbt::Rule PBT_CAT(s_rule_, __LINE__)(prop, __VA_ARGS__)
#define REQUIRE(c, m) do { if (!(c)) { std::ostringstream o_; o_ << m; pbt::fail(o_.str()); } } while (0)
#endif
