// R01: consequences of model rules against a reference interpreter of the same rules.
#include "nddlenv.hh"
#include <memory>
using namespace pbt;
using namespace EUROPA;

PBT_RULE("R01", "models with nested guards, else branches, loops, subgoals and inherited rules, driven by histories of creating, activating, cancelling, deleting and merging "
         "tokens and specifying and resetting their variables, contradictions included; after each change subgoals, bounds and local variables are compared with a reference "
         "interpreter of the rules, and at the end the number of constraints and variables with a fresh engine; non-trivial when a branch was withdrawn by its guard",
         {"a guard holds once every variable it mentions is specified, has a one-value base domain, or is derived (a field of an object) and down to one value, and the expression is true",
          "while the plan is inconsistent only changes that take something back are made"});

namespace {
typedef std::string S;
enum { NG = 3 };  // values 0..2 of the guard parameters
const char* COL[3] = {"red", "green", "blue"};
struct GE {  // guard expression
  enum K { CMP_CONST, CMP_VAR, BOOLV, COLOR, MEMBER, COLSET, FIELD, AND, OR, SUM } k;
  S a, b, op;
  int c = 0;
  std::vector<int> set;
  std::shared_ptr<GE> l, r;
};
struct St {
  enum K { SUB, LE, GE_, SUBLE, SUBREL, LOCAL, IF, LOOP } k;
  int n = 0;      // unique number
  S var, var2, pred, form;
  int c = 0;
  bool loopVal = false;
  GE g;
  std::vector<St> a, b;
};
struct RuleM { S cls, pred; std::vector<St> body; };
struct Model { std::vector<RuleM> rules; int nC, nD, nT; std::vector<int> m; };

S num(long v) { return std::to_string(v); }
S text(const GE& g) {
  switch (g.k) {
    case GE::CMP_CONST: return g.a + " " + g.op + " " + num(g.c);
    case GE::CMP_VAR: return g.a + " " + g.op + " " + g.b;
    case GE::BOOLV: return g.op.empty() ? g.a : g.a + " " + g.op + " " + (g.c ? "true" : "false");
    case GE::COLOR: return g.a + " " + g.op + " " + COL[g.c];
    case GE::MEMBER: return g.a + " " + g.op + " [" + num(g.set[0]) + " " + num(g.set[1]) + "]";
    case GE::COLSET: return g.a + " " + g.op + " {" + COL[g.set[0]] + ", " + COL[g.set[1]] + "}";
    case GE::FIELD: return g.a + ".m " + g.op + " " + num(g.c);
    case GE::AND: return "(" + text(*g.l) + ") && (" + text(*g.r) + ")";
    case GE::OR: return "(" + text(*g.l) + ") || (" + text(*g.r) + ")";
    case GE::SUM: return "(" + g.a + " + " + g.b + ") " + g.op + " " + num(g.c);
  }
  return "";
}
void emit(std::ostream& o, const std::vector<St>& b, int ind) {
  S p(ind, ' ');
  for (auto& s : b) switch (s.k) {
      case St::SUB:
        o << p << "any(" << s.form << s.pred << " s" << s.n << "); eq(s" << s.n << ".tag, " << s.n << ");";
        if (!s.var.empty()) o << " eq(s" << s.n << ".lt, " << s.var << ".id);";
        else o << " eq(s" << s.n << ".lt, 0);";
        o << "\n";
        break;
      case St::LE: o << p << (s.c % 2 ? s.var + " <= " + num(s.c) + ";\n" : "leq(" + s.var + ", " + num(s.c) + ");\n"); break;
      case St::GE_: o << p << (s.c % 2 ? s.var + " >= " + num(s.c) + ";\n" : "leq(" + num(s.c) + ", " + s.var + ");\n"); break;
      case St::SUBLE: o << p << "leq(s" << s.n << ".x, " << (s.var.empty() ? num(s.c) : s.var + ".m") << ");\n"; break;
      case St::SUBREL: o << p << "leq(s" << s.n << ".x, s" << s.c << ".x);\n"; break;
      case St::LOCAL: o << p << "G v" << s.n << ";\n"; break;
      case St::IF:
        o << p << "if (" << text(s.g) << ") {\n";
        emit(o, s.a, ind + 1);
        o << p << "}" << (s.b.empty() ? "\n" : " else {\n");
        if (!s.b.empty()) { emit(o, s.b, ind + 1); o << p << "}\n"; }
        break;
      case St::LOOP:
        o << p << "T ts" << s.n << ";\n" << p << "foreach (t" << s.n << " in ts" << s.n << ") {\n";
        emit(o, s.a, ind + 1);
        o << p << "}\n";
        break;
    }
}
S program(const Model& m) {
  std::ostringstream o;
  o << "typedef int [0 2] G;\ntypedef int [0 100] E;\ntypedef int [1 1] ONE;\nenum Col {red, green, blue};\n";
  o << "class T { int m; int id; T(int x, int i) { m = x; id = i; } }\n";
  o << "class C {\n int m;\n C(int x) { m = x; }\n";
  o << " predicate p { G a; G b; bool f; Col c; T o; ONE k; E e0; E e1; }\n";
  for (int q = 0; q < 3; q++) o << " predicate q" << q << " { E x; int tag; int lt; G g; }\n";
  o << "}\nclass D extends C { D(int x) { super(x); } }\n";
  for (auto& r : m.rules) { o << r.cls << "::" << r.pred << " {\n"; emit(o, r.body, 1); o << "}\n"; }
  for (int i = 0; i < m.nC; i++) o << "C c" << i << " = new C(" << i << ");\n";
  for (int i = 0; i < m.nD; i++) o << "D d" << i << " = new D(" << i << ");\n";
  for (int i = 0; i < m.nT; i++) o << "T o" << i << " = new T(" << m.m[i] << ", " << i + 1 << ");\n";
  o << "close();\n";
  return o.str();
}

struct Gen {
  Src& s;
  int counter = 0;
  bool hasD = false;
  explicit Gen(Src& s_) : s(s_) {}
  struct Scope { std::vector<int> subs; std::vector<S> locals; S loop; bool isP; int depth; std::vector<int> qlevels; int lvl; };
  GE guard(const Scope& sc, int d = 0) {
    GE g;
    std::vector<S> ints;
    if (sc.isP) { ints.push_back("a"); ints.push_back("b"); ints.push_back("a"); ints.push_back("b"); ints.push_back("k"); } else ints.push_back("g");
    for (int n : sc.subs) ints.push_back("s" + num(n) + ".g");
    for (auto& l : sc.locals) ints.push_back(l);
    if (!sc.loop.empty()) ints.push_back(sc.loop + ".m");
    size_t w = d < 2 ? s.weighted({5, 2, 2, 2, 2, 1, 2, 2, 2, 1}) : s.weighted({5, 2, 2, 2, 2, 1, 2});
    g.k = (GE::K)w;
    g.op = s.oneof<const char*>({"==", "!=", "<", "<=", ">", ">="});
    S eq = s.flip() ? "==" : "!=";
    if (d > 0 && (g.k == GE::MEMBER || g.k == GE::COLSET)) g.k = GE::CMP_CONST;  // see the known finding
    if (!sc.isP && (g.k == GE::BOOLV || g.k == GE::COLOR || g.k == GE::COLSET || g.k == GE::FIELD)) g.k = GE::CMP_CONST;
    switch (g.k) {
      case GE::CMP_CONST: g.a = s.pick(ints); g.c = (int)s.draw(0, NG - 1); break;
      case GE::CMP_VAR: g.a = s.pick(ints); g.b = s.pick(ints); break;
      case GE::BOOLV: g.a = "f"; g.c = (int)s.draw(0, 1); g.op = s.flip() ? "" : eq; break;
      case GE::COLOR: g.a = "c"; g.c = (int)s.draw(0, 2); g.op = eq; break;
      case GE::MEMBER: g.a = s.pick(ints); g.set.push_back((int)s.draw(0, 1)); g.set.push_back(2 - (g.set[0] == 0 ? (int)s.draw(0, 1) : 0)); if (g.set[0] == g.set[1]) g.set[0]--; g.op = eq; break;
      case GE::COLSET: g.a = "c"; g.set.push_back((int)s.draw(0, 1)); g.set.push_back(2); g.op = eq; break;
      case GE::FIELD: g.a = s.flip() ? "o" : "object"; g.c = (int)s.draw(0, 2); break;
      case GE::AND: case GE::OR: g.l.reset(new GE(guard(sc, d + 1))); g.r.reset(new GE(guard(sc, d + 1))); break;
      case GE::SUM: g.a = s.pick(ints); g.b = s.pick(ints); g.c = (int)s.draw(0, 4); break;
    }
    return g;
  }
  std::vector<St> body(Scope sc) {
    std::vector<St> r;
    for (long i = 0; i == 0 || (i < 4 && s.chance(sc.depth == 0 ? 2 : 1, sc.depth == 0 ? 3 : 2)); i++) {
      St t;
      size_t w = s.weighted({4, 3, 2, 2, 2, 2, sc.depth < 4 ? 6 : 0, sc.depth < 2 && sc.loop.empty() ? 2 : 0});
      t.k = (St::K)w;
      if ((t.k == St::SUBLE && sc.subs.empty()) || (t.k == St::SUBREL && sc.subs.size() < 2)) t.k = St::SUB;
      if (t.k == St::SUB && (sc.lvl >= 3 || counter > 24)) t.k = St::LE;
      switch (t.k) {
        case St::SUB: {
          t.n = ++counter;
          int lo = sc.lvl;
          t.pred = "q" + num(s.draw(lo, 2));
          size_t f = s.weighted({2, 2, 2, hasD ? 1 : 0});
          t.form = f == 0 ? "C." : f == 1 ? "object." : f == 2 ? "" : "D.";
          t.var = sc.loop;
          r.push_back(t);
          sc.subs.push_back(t.n);
          continue;
        }
        case St::LE: t.var = sc.isP ? (s.chance(1, 6) ? (s.flip() ? "a" : "b") : s.flip() ? "e0" : "e1") : (s.chance(1, 6) ? "g" : "x"); t.c = t.var[0] == 'e' || t.var == "x" ? (int)s.draw(50, 99) : (int)s.draw(1, 2); break;
        case St::GE_: t.var = sc.isP ? (s.chance(1, 6) ? (s.flip() ? "a" : "b") : s.flip() ? "e0" : "e1") : (s.chance(1, 6) ? "g" : "x"); t.c = t.var[0] == 'e' || t.var == "x" ? (int)s.draw(1, 49) : (int)s.draw(0, 1); break;
        case St::SUBLE: t.n = s.pick(sc.subs); t.c = (int)s.draw(50, 99); break;
        case St::SUBREL: t.n = s.pick(sc.subs); t.c = s.pick(sc.subs); if (t.n == t.c) { t.k = St::SUBLE; t.c = 60; } break;
        case St::LOCAL: if (!sc.loop.empty()) { t.k = St::LE; t.var = sc.isP ? "e0" : "x"; t.c = 77; break; } t.n = ++counter; sc.locals.push_back("v" + num(t.n)); break;
        case St::IF: {
          t.g = guard(sc);
          Scope in = sc; in.depth++;
          t.a = body(in);
          if (s.chance(1, 2)) t.b = body(in);
          break;
        }
        case St::LOOP: {
          t.n = ++counter;
          Scope in = sc; in.depth++; in.loop = "t" + num(t.n);
          t.a = body(in);
          break;
        }
      }
      r.push_back(t);
    }
    return r;
  }
};

struct R { long lo, hi; };
struct MTok;
typedef std::shared_ptr<MTok> MT;
struct MTok {
  TokenId id;
  S cls, pred;
  bool active = false;
  MT mergedInto;
  std::vector<MT> merged;
  std::map<S, long> spec;                   // by variable; objects and colours by index
  std::map<std::pair<long, long>, MT> subs; // by tag and loop id
  std::map<S, long> localSpec;
};
struct Effects {
  std::map<S, R> bound;                                   // own variables
  std::map<std::pair<long, long>, std::pair<S, S>> subs;  // tag, loop -> class prefix as written, predicate
  std::map<std::pair<long, long>, R> subBound;
  std::vector<std::pair<std::pair<long, long>, std::pair<long, long>>> rel;
  std::set<S> locals;
  std::vector<S> trace;
};
struct World {
  Src& s;
  Model m;
  std::unique_ptr<nddl::Env> e;
  std::vector<MT> roots;
  int counter = 0;
  explicit World(Src& s_) : s(s_) {}

  // value of a variable in a guard: known and what
  bool value(const MTok& t, const S& v, const std::map<S, std::pair<long, long>>& slaveKey, int loop, long& out) {
    if (v == "k") { out = 1; return true; }
    if (loop >= 0 && v[0] == 't' && v.find(".m") != S::npos) { out = m.m[loop]; return true; }
    if (v[0] == 's' && v.find('.') != S::npos) {
      S n = v.substr(0, v.find('.'));
      auto k = slaveKey.find(n);
      REQUIRE(k != slaveKey.end(), "model: slave " << n << " out of scope");
      auto it = t.subs.find(k->second);
      if (it == t.subs.end()) return false;
      return valueOf(*it->second, v.substr(v.find('.') + 1), out);
    }
    if (v[0] == 'v') { auto it = t.localSpec.find(v); if (it == t.localSpec.end()) return false; out = it->second; return true; }
    return valueOf(t, v, out);
  }
  bool valueOf(const MTok& t, const S& v, long& out) {
    auto it = t.spec.find(v);
    if (it != t.spec.end()) { out = it->second; return true; }
    for (auto& g : t.merged) { auto jt = g->spec.find(v); if (jt != g->spec.end()) { out = jt->second; return true; } }
    return false;
  }
  static bool cmp(long a, const S& op, long b) {
    return op == "==" ? a == b : op == "!=" ? a != b : op == "<" ? a < b : op == "<=" ? a <= b : op == ">" ? a > b : a >= b;
  }
  // 1 true, 0 false, -1 undecided
  int eval(const MTok& t, const GE& g, const std::map<S, std::pair<long, long>>& sk, int loop) {
    long x, y;
    switch (g.k) {
      case GE::CMP_CONST: return value(t, g.a, sk, loop, x) ? cmp(x, g.op, g.c) : -1;
      case GE::CMP_VAR: return value(t, g.a, sk, loop, x) && value(t, g.b, sk, loop, y) ? cmp(x, g.op, y) : -1;
      case GE::BOOLV: return value(t, g.a, sk, loop, x) ? (g.op.empty() ? x == 1 : cmp(x, g.op, g.c)) : -1;
      case GE::COLOR: return value(t, g.a, sk, loop, x) ? cmp(x, g.op, g.c) : -1;
      case GE::MEMBER: return value(t, g.a, sk, loop, x) ? ((x >= g.set[0] && x <= g.set[1]) == (g.op == "==")) : -1;
      case GE::COLSET: return value(t, g.a, sk, loop, x) ? ((x == g.set[0] || x == g.set[1]) == (g.op == "==")) : -1;
      case GE::FIELD: {
        const std::vector<long> dom = g.a == "o" ? tValues() : cValues(t);
        if (value(t, g.a, sk, loop, x)) return cmp(g.a == "o" ? m.m[x] : fieldOf(x), g.op, g.c);
        // the field may be the same for every object
        for (long v : dom) if (v != dom[0]) return -1;
        return cmp(dom[0], g.op, g.c);
      }
      case GE::AND: { int p = eval(t, *g.l, sk, loop), q = eval(t, *g.r, sk, loop); return p < 0 || q < 0 ? -1 : p && q; }
      case GE::OR: { int p = eval(t, *g.l, sk, loop), q = eval(t, *g.r, sk, loop); return p < 0 || q < 0 ? -1 : p || q; }
      case GE::SUM: return value(t, g.a, sk, loop, x) && value(t, g.b, sk, loop, y) ? cmp(x + y, g.op, g.c) : -1;
    }
    return -1;
  }
  std::vector<long> tValues() { std::vector<long> r; for (int i = 0; i < m.nT; i++) r.push_back(m.m[i]); return r; }
  // objects are numbered C first, then D
  long fieldOf(long obj) { return obj < m.nC ? obj : obj - m.nC; }
  std::vector<long> cValues(const MTok& t) {
    std::vector<long> r;
    if (t.cls == "C") for (int i = 0; i < m.nC; i++) r.push_back(i);
    for (int i = 0; i < m.nD; i++) r.push_back(i);
    return r;
  }
  static void meet(std::map<S, R>& b, const S& v, long lo, long hi) {
    auto it = b.find(v);
    if (it == b.end()) b[v] = {lo, hi};
    else { it->second.lo = std::max(it->second.lo, lo); it->second.hi = std::min(it->second.hi, hi); }
  }
  void run(const MTok& t, const std::vector<St>& b, std::map<S, std::pair<long, long>> sk, int loop, Effects& e) {
    for (auto& x : b) switch (x.k) {
        case St::SUB: {
          std::pair<long, long> key(x.n, x.var.empty() ? 0 : loop + 1);
          e.subs[key] = {x.form, x.pred};
          sk["s" + num(x.n)] = key;
          break;
        }
        case St::LE: meet(e.bound, x.var, 0, x.c); break;
        case St::GE_: meet(e.bound, x.var, x.c, 100); break;
        case St::SUBLE: {
          auto k = sk["s" + num(x.n)];
          auto it = e.subBound.find(k);
          if (it == e.subBound.end()) e.subBound[k] = {0, x.c}; else it->second.hi = std::min(it->second.hi, (long)x.c);
          break;
        }
        case St::SUBREL: e.rel.push_back({sk["s" + num(x.n)], sk["s" + num(x.c)]}); break;
        case St::LOCAL: e.locals.insert("v" + num(x.n)); break;
        case St::IF: {
          int v = eval(t, x.g, sk, loop);
          e.trace.push_back(text(x.g) + (v < 0 ? "?" : v ? " yes" : " no"));
          if (v == 1) run(t, x.a, sk, loop, e);
          else if (v == 0) run(t, x.b, sk, loop, e);
          break;
        }
        case St::LOOP:
          for (int i = 0; i < m.nT; i++) run(t, x.a, sk, i, e);
          break;
      }
  }
  Effects effects(const MTok& t) {
    Effects e;
    if (t.active)
      for (auto& r : m.rules)
        if (r.pred == t.pred && (r.cls == t.cls || (r.cls == "C" && t.cls == "D"))) run(t, r.body, {}, -1, e);
    return e;
  }
  bool consistent = true;
  int withdrawn = 0;

  static R meetR(R a, R b) { return {std::max(a.lo, b.lo), std::min(a.hi, b.hi)}; }
  // Brings the subgoals of the model up to date; needs several passes as guards may refer to subgoals.
  void settle(MT t) {
    for (int pass = 0; pass < 6; pass++) {
      Effects e = effects(*t);
      bool change = false;
      for (auto it = t->subs.begin(); it != t->subs.end();)
        if (!e.subs.count(it->first)) { it = t->subs.erase(it); change = true; withdrawn++; } else ++it;
      for (auto& k : e.subs)
        if (!t->subs.count(k.first)) {
          MT n(new MTok);
          n->cls = k.second.first == "C." ? "C" : k.second.first == "D." ? "D" : t->cls;
          n->pred = k.second.second;
          t->subs[k.first] = n;
          change = true;
        }
      for (auto it = t->localSpec.begin(); it != t->localSpec.end();)
        if (!e.locals.count(it->first)) { it = t->localSpec.erase(it); change = true; withdrawn++; } else ++it;
      if (!change) break;
    }
    for (auto& k : t->subs) settle(k.second);
  }
  R base(const S& v) { return v == "k" ? R{1, 1} : v[0] == 'e' || v == "x" ? R{0, 100} : R{0, 2}; }
  std::vector<S> numVars(const MTok& t) { return t.pred == "p" ? std::vector<S>{"a", "b", "k", "e0", "e1"} : std::vector<S>{"x", "g"}; }
  // Expected bounds of every token of a family; false when some are empty.
  typedef std::map<const MTok*, std::map<S, R>> Bounds;
  bool bounds(const MT& root, Bounds& out) {
    std::vector<MT> all;
    collect(root, all);
    std::vector<std::pair<std::pair<const MTok*, S>, std::pair<const MTok*, S>>> leq;
    for (auto& t : all) {
      Effects e = effects(*t);
      for (auto& v : numVars(*t)) {
        R r = base(v);
        if (out[t.get()].count(v)) r = out[t.get()][v];
        auto it = e.bound.find(v);
        if (it != e.bound.end()) r = meetR(r, it->second);
        long sp;
        if (valueOf(*t, v, sp)) r = meetR(r, {sp, sp});
        for (auto& g : t->merged) { auto jt = g->spec.find(v); if (jt != g->spec.end()) r = meetR(r, {jt->second, jt->second}); }
        out[t.get()][v] = r;
      }
      for (auto& k : e.subBound) { auto* q = t->subs[k.first].get(); if (!out[q].count("x")) out[q]["x"] = base("x"); out[q]["x"] = meetR(out[q]["x"], k.second); }
      for (auto& k : e.rel) leq.push_back({{t->subs[k.first].get(), "x"}, {t->subs[k.second].get(), "x"}});
    }
    for (bool ch = true; ch;) {
      ch = false;
      for (auto& l : leq) {
        R &a = out[l.first.first]["x"], &b = out[l.second.first]["x"];
        if (a.hi > b.hi) { a.hi = b.hi; ch = true; }
        if (b.lo < a.lo) { b.lo = a.lo; ch = true; }
        if (a.lo > a.hi || b.lo > b.hi) return false;
      }
    }
    for (auto& t : out) for (auto& v : t.second) if (v.second.lo > v.second.hi) return false;
    // objects and colours of merged tokens agree by construction
    return true;
  }
  static void collect(const MT& t, std::vector<MT>& out) { out.push_back(t); for (auto& k : t->subs) collect(k.second, out); }
  S show(const MTok& t) {
    std::ostringstream o;
    o << t.cls << "." << t.pred << (t.active ? " active" : "");
    for (auto& k : t.spec) o << " " << k.first << "=" << k.second;
    for (auto& k : t.localSpec) o << " " << k.first << "=" << k.second;
    for (auto& g : t.merged) { o << " merged("; for (auto& k : g->spec) o << k.first << "=" << k.second << " "; o << ")"; }
    return o.str();
  }
  void compareToken(const MT& t, const Bounds& b) {
    Effects e = effects(*t);
    S at = show(*t) + ": ";
    TokenSet sl = t->id->slaves();
    std::map<std::pair<long, long>, TokenId> found;
    for (auto it = sl.begin(); it != sl.end(); ++it) {
      const Domain& tag = (*it)->getVariable("tag")->lastDomain();
      const Domain& lt = (*it)->getVariable("lt")->lastDomain();
      REQUIRE(tag.isSingleton() && lt.isSingleton(), at << "a subgoal " << (*it)->getPredicateName() << " whose tag is " << tag.toString() << " / " << lt.toString() << ": its constraints are missing");
      std::pair<long, long> k((long)cast_int(tag.getSingletonValue()), (long)cast_int(lt.getSingletonValue()));
      REQUIRE(!found.count(k), at << "subgoal " << k.first << "/" << k.second << " exists twice");
      found[k] = *it;
    }
    std::ostringstream tr;
    for (auto& x : e.trace) tr << " {" << x << "}";
    for (auto& k : e.subs) REQUIRE(found.count(k.first), at << "subgoal " << k.first.first << "/" << k.first.second << " of a branch that holds is missing; guards" << tr.str());
    for (auto& k : found) REQUIRE(e.subs.count(k.first), at << "subgoal " << k.first.first << "/" << k.first.second << " of a branch that does not hold is present; guards" << tr.str());
    for (auto& k : found) {
      MT c = t->subs[k.first];
      if (c->id.isNoId()) c->id = k.second;
      REQUIRE(c->id == k.second, at << "subgoal " << k.first.first << " was replaced though its branch kept holding");
      REQUIRE(k.second->getPredicateName() == c->cls + "." + c->pred, at << "subgoal " << k.first.first << " has type " << k.second->getPredicateName() << " instead of " << c->cls << "." << c->pred);
      REQUIRE(k.second->master() == t->id, at << "master of subgoal");
      REQUIRE(k.second->isActive() == c->active, at << "state of subgoal " << k.first.first);
    }
    for (auto& v : b.find(t.get())->second) {
      const Domain& d = t->id->getVariable(v.first)->lastDomain();
      REQUIRE(d.getLowerBound() == v.second.lo && d.getUpperBound() == v.second.hi,
              at << v.first << " is " << d.toString() << " instead of [" << v.second.lo << " " << v.second.hi << "]; guards" << tr.str());
    }
    const ConstrainedVariableSet lv = t->id->getLocalVariables();
    std::set<S> names;
    for (auto& v : lv) if (v->getName().size() > 1 && v->getName()[0] == 'v' && isdigit(v->getName()[1])) REQUIRE(names.insert(v->getName()).second, at << "local variable " << v->getName() << " twice");
    REQUIRE(names == e.locals, at << names.size() << " local variables instead of " << e.locals.size() << "; guards" << tr.str());
    for (auto& k : t->subs) compareToken(k.second, b);
  }
  void compare() {
    size_t total = 0;
    for (auto& r : roots) {
      std::vector<MT> all;
      collect(r, all);
      total += all.size();
      Bounds b;
      bounds(r, b);
      if (!r->mergedInto) compareToken(r, b);
    }
    REQUIRE(e->db().getTokens().size() == total, e->db().getTokens().size() << " tokens in the plan instead of " << total);
  }
  void after() {
    bool real = e->ce().propagate();
    for (auto& r : roots) settle(r);
    consistent = true;
    for (auto& r : roots) { Bounds b; if (!bounds(r, b)) consistent = false; }
    s.note() << (real ? "" : "   inconsistent") << "\n";
    REQUIRE(real == consistent, "the plan is " << (real ? "consistent" : "inconsistent") << " but the rules in force make it " << (consistent ? "consistent" : "inconsistent"));
    if (consistent) compare();
  }
  edouble code(const MTok& t, const S& v, long x) {
    if (v == "c") return edouble(LabelStr(COL[x]));
    if (v == "o") return e->db().getObject("o" + num(x))->getKey();
    if (v == "object") return e->db().getObject(x < m.nC ? "c" + num(x) : "d" + num(x - m.nC))->getKey();
    return edouble((double)x);
  }
  long draw(const MTok& t, const S& v) {
    if (v == "f") return s.draw(0, 1);
    if (v == "c") return s.draw(0, 2);
    if (v == "o") return s.draw(0, m.nT - 1);
    if (v == "object") return t.cls == "C" ? s.draw(0, m.nC + m.nD - 1) : s.draw(m.nC, m.nC + m.nD - 1);
    if (v[0] == 'e' || v == "x") return s.draw(0, 100);
    return s.draw(0, NG - 1);
  }
  ConstrainedVariableId local(const MT& t, const S& n) {
    const ConstrainedVariableSet lv = t->id->getLocalVariables();
    for (auto& v : lv) if (v->getName() == n) return v;
    return ConstrainedVariableId::noId();
  }
  std::vector<S> specVars(const MTok& t) {
    if (t.pred != "p") return {"x", "g", "g"};
    std::vector<S> r{"a", "b", "a", "b", "f", "c", "o", "e0", "e1"};
    return r;
  }
  void step() {
    DbClientId cl = e->db().getClient();
    std::vector<MT> all;
    for (auto& r : roots) if (!r->mergedInto) collect(r, all); else all.push_back(r);
    if (!consistent) {
      std::vector<std::pair<MT, S>> sp;
      for (auto& r : roots) if (!r->mergedInto) for (auto& k : r->spec) sp.push_back({r, k.first});
      if (!sp.empty() && s.chance(3, 5)) {
        auto p = s.pick(sp);
        s.note() << "  reset " << p.second << " of " << show(*p.first);
        p.first->spec.erase(p.second);
        cl->reset(p.first->id->getVariable(p.second));
        s.label("reset inconsistent");
      } else {
        std::vector<MT> c;
        for (auto& r : roots) if (r->active || r->mergedInto) c.push_back(r);
        if (c.empty()) throw Discard();
        cancel(s.pick(c));
        s.label("cancel inconsistent");
      }
      return;
    }
    switch (s.weighted({roots.size() < 3 ? 2 : 0, 4, 1, 1, 9, 5, 2, 2})) {
      case 0: create(); break;
      case 1: {
        std::vector<MT> c;
        for (auto& t : all) if (!t->active && !t->mergedInto) c.push_back(t);
        if (c.empty()) { create(); break; }
        MT t = s.pick(c);
        s.note() << "  activate " << show(*t);
        t->active = true;
        cl->activate(t->id);
        s.label("activate");
        break;
      }
      case 2: {
        std::vector<MT> c;
        for (auto& t : all) if (t->active || t->mergedInto) c.push_back(t);
        if (c.empty()) { create(); break; }
        cancel(s.pick(c));
        s.label("cancel");
        break;
      }
      case 3: {
        std::vector<MT> c;
        for (auto& r : roots) if (!r->active && !r->mergedInto) c.push_back(r);
        if (c.empty()) { create(); break; }
        MT t = s.pick(c);
        s.note() << "  delete " << show(*t);
        cl->deleteToken(t->id);
        roots.erase(std::find(roots.begin(), roots.end(), t));
        s.label("delete");
        break;
      }
      case 4: {
        if (all.empty()) { create(); break; }
        std::vector<MT> free;
        for (auto& t : all) if (!t->mergedInto) free.push_back(t);
        if (free.empty()) { create(); break; }
        MT t = s.pick(free);
        Effects ef = effects(*t);
        std::vector<S> vs = specVars(*t);
        for (auto& l : ef.locals) { vs.push_back(l); vs.push_back(l); }
        S v = s.pick(vs);
        bool isLocal = v[0] == 'v';
        if (isLocal ? t->localSpec.count(v) : t->spec.count(v)) {  // change the value
          s.note() << "  reset " << v << " of " << show(*t);
          if (isLocal) { t->localSpec.erase(v); cl->reset(local(t, v)); } else { t->spec.erase(v); cl->reset(t->id->getVariable(v)); }
          s.label("reset");
          break;
        }
        long x = draw(*t, v);
        long y;
        if (!isLocal && valueOf(*t, v, y)) x = y;  // a merged token already says
        // an immediate contradiction within the variable itself is refused by the interface
        ConstrainedVariableId var = isLocal ? local(t, v) : t->id->getVariable(v);
        REQUIRE(!var.isNoId(), "local variable " << v << " not found");
        if (!isLocal) t->spec[v] = x; else t->localSpec[v] = x;
        s.note() << "  specify " << v << " := " << x << " of " << show(*t);
        cl->specify(var, isLocal ? edouble((double)x) : code(*t, v, x));
        s.label(isLocal ? "specify local" : "specify");
        break;
      }
      case 5: {
        std::vector<std::pair<MT, S>> sp;
        for (auto& t : all) if (!t->mergedInto) for (auto& k : t->spec) sp.push_back({t, k.first});
        if (sp.empty()) { create(); break; }
        auto p = s.pick(sp);
        s.note() << "  reset " << p.second << " of " << show(*p.first);
        p.first->spec.erase(p.second);
        cl->reset(p.first->id->getVariable(p.second));
        s.label("reset");
        break;
      }
      case 6: {
        // merge an inactive root with an active one
        std::vector<std::pair<MT, MT>> c;
        for (auto& a : roots) for (auto& b : roots)
          if (a != b && !a->active && !a->mergedInto && b->active && a->cls == b->cls && a->pred == b->pred) {
            bool ok = true;
            for (auto& k : a->spec) { long y; if (valueOf(*b, k.first, y) && y != k.second) ok = false; }
            Bounds bb;
            bounds(b, bb);
            for (auto& k : a->spec) if (bb[b.get()].count(k.first)) { R r = bb[b.get()][k.first]; if (k.second < r.lo || k.second > r.hi) ok = false; }
            if (ok) c.push_back({a, b});
          }
        if (c.empty()) { create(); break; }
        auto p = s.pick(c);
        s.note() << "  merge " << show(*p.first) << " onto " << show(*p.second);
        p.first->mergedInto = p.second;
        p.second->merged.push_back(p.first);
        cl->merge(p.first->id, p.second->id);
        s.label("merge");
        break;
      }
      case 7: {
        // several changes at once, without propagation in between
        std::vector<MT> c;
        for (auto& r : roots) if (r->pred == "p" && !r->mergedInto && r->merged.empty()) c.push_back(r);
        if (c.empty()) { create(); break; }
        e->ce().setAutoPropagation(false);
        long n = s.draw(2, 4);
        for (long i = 0; i < n; i++) {
          MT t = s.pick(c);
          S v = s.pick(specVars(*t));
          if (t->spec.count(v)) {
            s.note() << "  (reset " << v << " of " << show(*t) << ")";
            t->spec.erase(v);
            cl->reset(t->id->getVariable(v));
          } else {
            long x = draw(*t, v);
            const Domain& d = t->id->getVariable(v)->lastDomain();
            if (!d.isMember(code(*t, v, x))) continue;
            t->spec[v] = x;
            s.note() << "  (specify " << v << " := " << x << " of " << show(*t) << ")";
            cl->specify(t->id->getVariable(v), code(*t, v, x));
          }
        }
        e->ce().setAutoPropagation(true);
        s.label("several");
        break;
      }
    }
  }
  void create() {
    MT t(new MTok);
    t->cls = m.nD > 0 && s.chance(1, 3) ? "D" : "C";
    t->pred = s.chance(1, 6) ? "q" + num(s.draw(0, 1)) : "p";
    s.note() << "  create " << t->cls << "." << t->pred;
    t->id = e->db().getClient()->createToken(t->cls + "." + t->pred, "", false, false);
    roots.push_back(t);
    s.label("create");
  }
  void cancel(MT t) {
    s.note() << "  cancel " << show(*t);
    DbClientId cl = e->db().getClient();
    if (t->mergedInto) {
      auto& g = t->mergedInto->merged;
      g.erase(std::find(g.begin(), g.end(), t));
      t->mergedInto.reset();
    } else {
      t->active = false;
      for (auto& g : t->merged) g->mergedInto.reset();
      t->merged.clear();
      if (!t->subs.empty()) withdrawn++;
    }
    cl->cancel(t->id);
  }
  std::map<S, int> census() {
    std::map<S, int> r;
    const ConstraintSet& cs = e->ce().getConstraints();
    // a field may be represented once or several times in nested branches, depending on when they were entered
    for (auto it = cs.begin(); it != cs.end(); ++it) if ((*it)->getName() != "proxyRelation") r["constraint " + (*it)->getName()]++;
    const ConstrainedVariableSet& vs = e->ce().getVariables();
    for (auto it = vs.begin(); it != vs.end(); ++it) if ((*it)->parent().isId() && (*it)->getName().find('.') == S::npos) r["variable"]++;
    r["rule instances"] = (int)e->rules().getRuleInstances().size();
    return r;
  }
};
}  // namespace

static void rules(Src& s) {
  World w(s);
  Gen g(s);
  w.m.nC = (int)s.draw(1, 3);
  w.m.nD = (int)s.draw(0, 2);
  w.m.nT = (int)s.draw(1, 3);
  g.hasD = w.m.nD > 0;
  for (int i = 0; i < w.m.nT; i++) w.m.m.push_back((int)s.draw(0, 2));
  long nr = s.draw(1, 3);
  for (long i = 0; i < nr; i++) {
    RuleM r;
    r.cls = w.m.nD > 0 && s.chance(1, 4) ? "D" : "C";
    size_t q = i == 0 ? 0 : s.weighted({2, 2, 2});
    r.pred = q == 0 ? "p" : q == 1 ? "q0" : "q1";
    Gen::Scope sc;
    sc.isP = q == 0;
    sc.depth = 0;
    sc.lvl = (int)q;  // q0 may lead to q1, q1 to q2
    r.body = g.body(sc);
    w.m.rules.push_back(r);
  }
  S prog = program(w.m);
  s.note() << prog;
  w.e.reset(new nddl::Env());
  S err = w.e->run(prog);
  REQUIRE(err.empty(), "the model is not accepted: " << err);
  w.create();
  w.after();
  long n = s.draw(2, 24);
  for (long i = 0; i < n; i++) { w.step(); w.after(); }
  if (w.withdrawn > 0) s.nontrivial();
  if (!w.consistent) return;
  // The same state reached directly must have the same constraints and variables.
  if (s.chance(1, 3)) {
    std::map<S, int> before = w.census();
    for (auto& r : w.roots) if (r->mergedInto || !r->merged.empty()) return;
    std::vector<MT> roots = w.roots;
    World f(s);
    f.m = w.m;
    f.e.reset(new nddl::Env());
    f.e->run(prog);
    DbClientId cl = f.e->db().getClient();
    for (auto& r : roots) {
      MT t(new MTok);
      t->cls = r->cls; t->pred = r->pred;
      t->id = cl->createToken(r->cls + "." + r->pred, "", false, false);
      f.roots.push_back(t);
    }
    f.e->ce().propagate();
    for (size_t i = 0; i < roots.size(); i++) {
      std::vector<std::pair<MT, MT>> todo(1, {roots[i], f.roots[i]});
      while (!todo.empty()) {
        MT from = todo.back().first, to = todo.back().second;
        todo.pop_back();
        for (auto& k : from->spec) { to->spec[k.first] = k.second; cl->specify(to->id->getVariable(k.first), f.code(*to, k.first, k.second)); }
        if (from->active) { to->active = true; cl->activate(to->id); }
        f.e->ce().propagate();
        // locals, then subgoals, whose guards may enable more of them
        for (int pass = 0; pass < 6; pass++) {
          f.settle(to);
          for (auto& k : from->localSpec) if (!to->localSpec.count(k.first)) { ConstrainedVariableId v = f.local(to, k.first); if (v.isNoId()) continue; to->localSpec[k.first] = k.second; cl->specify(v, edouble((double)k.second)); f.e->ce().propagate(); }
          f.settle(to);
          TokenSet sl = to->id->slaves();
          for (auto it = sl.begin(); it != sl.end(); ++it) {
            std::pair<long, long> k((long)cast_int((*it)->getVariable("tag")->lastDomain().getSingletonValue()), (long)cast_int((*it)->getVariable("lt")->lastDomain().getSingletonValue()));
            if (!to->subs.count(k) || !to->subs[k]->id.isNoId()) continue;
            to->subs[k]->id = *it;
            MT a = from->subs[k], b = to->subs[k];
            if (!a) continue;
            for (auto& q : a->spec) { b->spec[q.first] = q.second; cl->specify(b->id->getVariable(q.first), f.code(*b, q.first, q.second)); }
            f.e->ce().propagate();
          }
        }
        for (auto& k : from->subs) if (to->subs.count(k.first)) {
          MT b = to->subs[k.first];
          todo.push_back({k.second, b});
        }
      }
    }
    f.e->ce().propagate();
    std::map<S, int> fresh = f.census();
    s.label("fresh");
    for (auto& k : fresh) REQUIRE(before[k.first] == k.second, "after the history there are " << before[k.first] << " of " << k.first << ", reaching the same state directly gives " << k.second);
    for (auto& k : before) REQUIRE(fresh[k.first] == k.second, "after the history there are " << k.second << " of " << k.first << ", reaching the same state directly gives " << fresh[k.first]);
  }
}

// A comparison with a set inside a compound guard.
static void nestedMembership() {
  nddl::Env e;
  S err = e.run("typedef int [0 2] G;\nclass C { C(int x) { } predicate p { G a; G b; } predicate q { } }\n"
                "C::p { if ((a != [1 2]) && (b == 0)) { any(C.q s); } }\nC c = new C(0);\nclose();\n");
  REQUIRE(err.empty(), err);
  DbClientId cl = e.db().getClient();
  TokenId t = cl->createToken("C.p", "", false, false);
  cl->activate(t);
  cl->specify(t->getVariable("a"), 0);
  cl->specify(t->getVariable("b"), 0);
  e.ce().propagate();
  REQUIRE(t->slaves().size() == 1, "the guard (a != [1 2]) && (b == 0) holds for a = b = 0, but the plan has " << t->slaves().size() << " subgoals");
}
PBT_PINNED("R01", "set-comparison-inside-a-compound-guard", nestedMembership);
PBT_PROP("R01", "rules", rules, 40000, 20, 200, 30);
