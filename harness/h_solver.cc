// V01, V02, V03: the solver on finite constraint and planning problems, against an independent search and validator.
#include "nddlenv.hh"
#include "Solver.hh"
#include "SolverDecisionPoint.hh"
#include "FlawManager.hh"
#include "Context.hh"
#include "XMLUtils.hh"
#include "tinyxml.h"
#include <algorithm>
#include <functional>
#include <memory>
#include "PSEngine.hh"
#include "PSEngineImpl.hh"
#include <sys/wait.h>
#include <unistd.h>
#include <fstream>
using namespace pbt;
using namespace EUROPA;
using SOLVERS::Solver;

PBT_RULE("V01", "random constraint and planning problems (timelines, plain objects, rules with subgoals and guards, facts, goals, rejectable goals, relations) solved in one or several "
         "limited runs under random configurations; every plan the solver reports is checked by an independent validator of the problem's text, and the decision stack against the plan; "
         "non-trivial when the plan needed two or more decisions",
         {"the times of a plan whose times are not to be decided are judged at their lower bounds, the earliest schedule"});
PBT_RULE("V02", "random finite constraint and planning problems under random configurations (managers in any order, priorities, value and choice orders, preset filters) against an exhaustive "
         "reference search: a plan is found exactly when one exists; on constraint problems the plans obtained by backjumping one decision after each plan are exactly the solutions, each once; "
         "non-trivial when the search had to backtrack or there is more than one plan",
         {"problems whose search needs more than 1500 steps are not judged", "the solver is started on a plan that is consistent or not propagated yet"});
PBT_RULE("V03", "histories of stepping, limited solving, backjumping, resetting by a depth, resetting and clearing on random problems: after each the plan (tokens, states, merges, orderings, "
         "every domain, numbers of variables and constraints) equals the one recorded when the decision stack was last that deep, limits are respected, and a second run from the start repeats "
         "the first's outcome, steps and plan; non-trivial when at least two decisions were undone",
         {"a backjump while a flaw is only half explored prunes that flaw's remaining choices, after which exhaustion is not judged"});

PBT_RULE("E01", "two to four jobs (a random problem and solver configuration; a script of loading, stepping, solving, backjumping, resetting, clearing, changing and destroying; run through "
         "the component interface or through PSEngine), each run alone in its own process first and then interleaved with the others in one process, with engines created and destroyed "
         "in any order and the heap disturbed: after every operation each job reports the same plan, outcome, steps and depth as alone; entities are gone when all engines are; "
         "non-trivial when three engines were alive at once or an engine was destroyed while a solver of another had decisions in force",
         {"no random value order", "names occur in the same order in every run (symbols are ordered by first use in the process)"});

// The random value order seeds itself from the clock; cases must repeat.
extern "C" void srand(unsigned) noexcept {}

namespace {
typedef std::string S;
S num(long v) { return std::to_string(v); }

// ---------------------------------------------------------------- problems
struct CVar { int kind; int lo, hi; };  // kind 0 int, 1 bool, 2 colour, 3 object
struct CCon { int k; std::vector<int> v; };
enum { EQ, NEQ, LT, LEQ, ADD, ALLDIFF, SUM, TESTEQ, TESTLEQ, MULT, CONDALLDIFF, FIELDLEQ, NCON };
struct Csp {
  std::vector<CVar> vars; std::vector<CCon> cons; std::vector<int> m;
  S name(int i) const { return "v" + num(i); }
  bool holds(const CCon& c, const std::vector<int>& x) const {
    auto v = [&](size_t i) { return x[c.v[i]]; };
    auto diff = [&](size_t from) { for (size_t i = from; i < c.v.size(); i++) for (size_t j = i + 1; j < c.v.size(); j++) if (v(i) == v(j)) return false; return true; };
    switch (c.k) {
      case EQ: return v(0) == v(1);
      case NEQ: return v(0) != v(1);
      case LT: return v(0) < v(1);
      case LEQ: return v(0) <= v(1);
      case ADD: return v(0) + v(1) == v(2);
      case ALLDIFF: return diff(0);
      case SUM: { int t = 0; for (size_t i = 1; i < c.v.size(); i++) t += v(i); return t == v(0); }
      case TESTEQ: return (v(0) == 1) == (v(1) == v(2));
      case TESTLEQ: return (v(0) == 1) == (v(1) <= v(2));
      case MULT: return v(0) * v(1) == v(2);
      case CONDALLDIFF: return (v(0) == 1) == diff(1);
      case FIELDLEQ: return m[v(0)] <= v(1);
    }
    return true;
  }
  S text() const {
    std::ostringstream o;
    static const char* names[] = {"eq", "neq", "lt", "leq", "addEq", "allDiff", "eqSum", "testEq", "testLeq", "multEq", "condAllDiff", "leq"};
    o << "enum Col {red, green, blue};\nclass T { int m; T(int x) { m = x; } }\n";
    for (size_t i = 0; i < m.size(); i++) o << "T o" << i << " = new T(" << m[i] << ");\n";
    for (size_t i = 0; i < vars.size(); i++) {
      const CVar& v = vars[i];
      if (v.kind == 0) o << "typedef int [" << v.lo << " " << v.hi << "] G" << i << ";\nG" << i << " v" << i << ";\n";
      else o << (v.kind == 1 ? "bool v" : v.kind == 2 ? "Col v" : "T v") << i << ";\n";
    }
    for (auto& c : cons) {
      o << names[c.k] << "(";
      for (size_t i = 0; i < c.v.size(); i++) o << (i ? ", v" : "v") << c.v[i] << (c.k == FIELDLEQ && i == 0 ? ".m" : "");
      o << ");\n";
    }
    o << "close();\n";
    return o.str();
  }
};
Csp genCsp(Src& s, bool confluent) {
  Csp c;
  long no = 1 + s.geo(2);
  for (long i = 0; i < no; i++) c.m.push_back((int)s.draw(0, 2));
  long nv = 2 + s.geo(3);
  double prod = 1;
  for (long i = 0; i < nv; i++) {
    CVar v;
    v.kind = (int)s.weighted({5, 2, 2, 1});
    v.lo = v.kind == 0 ? (int)s.draw(-1, 1) : 0;
    v.hi = v.kind == 0 ? v.lo + (int)s.draw(0, 3) : v.kind == 1 ? 1 : v.kind == 2 ? 2 : (int)no - 1;
    prod *= v.hi - v.lo + 1;
    if (prod > 300) break;
    c.vars.push_back(v);
  }
  // distinct variables: a constraint does not react to its own changes, so one with a repeated variable may be found violated later than it is
  auto pickKind = [&](int kind, const std::vector<int>& used, int& out) {
    std::vector<int> r;
    for (size_t i = 0; i < c.vars.size(); i++) if (c.vars[i].kind == kind && !std::count(used.begin(), used.end(), (int)i)) r.push_back((int)i);
    if (r.empty()) return false;
    out = s.pick(r);
    return true;
  };
  long nc = s.geo(8);
  for (long i = 0; i < nc; i++) {
    CCon k;
    k.k = (int)s.draw(0, NCON - 1);
    if (confluent && (k.k == NEQ || k.k == ALLDIFF || k.k == SUM || k.k == MULT || k.k == CONDALLDIFF)) k.k = s.flip() ? LEQ : ADD;
    if (k.k == FIELDLEQ && (no > 1 || i > 0)) k.k = LEQ;
    int kind = (k.k == EQ || k.k == NEQ || k.k == ALLDIFF || k.k == TESTEQ || k.k == CONDALLDIFF) && s.chance(1, 3) ? 2 : 0;
    int n = k.k == ADD || k.k == MULT || k.k == TESTEQ || k.k == TESTLEQ ? 3 : k.k == SUM || k.k == CONDALLDIFF ? 3 + (int)s.geo(1) : k.k == ALLDIFF ? 2 + (int)s.geo(2) : 2;
    bool ok = true;
    for (int a = 0; a < n && ok; a++) {
      int w = kind, x = 0;
      if (a == 0 && (k.k == TESTEQ || k.k == TESTLEQ || k.k == CONDALLDIFF)) w = 1;
      if (a == 0 && k.k == FIELDLEQ) w = 3;
      ok = pickKind(w, k.v, x);
      k.v.push_back(x);
    }
    if (ok) c.cons.push_back(k);
  }
  return c;
}
// all solutions, each a vector of values
std::set<std::vector<int>> solutions(const Csp& c) {
  std::set<std::vector<int>> r;
  std::vector<int> x(c.vars.size());
  std::function<void(size_t)> rec = [&](size_t i) {
    if (i == x.size()) { for (auto& k : c.cons) if (!c.holds(k, x)) return; r.insert(x); return; }
    for (int v = c.vars[i].lo; v <= c.vars[i].hi; v++) { x[i] = v; rec(i + 1); }
  };
  rec(0);
  return r;
}

const char* REL[] = {"any", "before", "after", "meets", "met_by", "contains", "contained_by", "equals", "starts", "ends"};
struct Sub { int pred, rel, eqA; bool sameObj; int guard; bool inElse; };  // eqA: 0 none 1 eq 2 neq 3 leq
struct Pred { int cls; int dkind; std::vector<Sub> subs; int local; };       // dkind 0: 1, 1: 2, 2: 1..2, 3: a+1; local: 0 none 1 neq(a,b) 2 leq(a,b)
struct Init { int pred, kind; int a, start, obj; };                         // kind 0 goal 1 rejectable 2 fact
struct Pair { int i, j, rel, eqA; };
struct Plan {
  int H, A, nT, nO;
  std::vector<Pred> preds; std::vector<Init> init; std::vector<Pair> pairs; bool g;  // g: a global variable tied to the first token
  S cls(int p) const { return preds[p].cls == 0 ? "TL" : "OB"; }
  S text() const {
    std::ostringstream o;
    o << "typedef int [0 " << A << "] G;\n";
    for (int c = 0; c < 2; c++) {
      o << "class " << (c == 0 ? "TL extends Timeline" : "OB") << " {\n";
      for (size_t p = 0; p < preds.size(); p++) if (preds[p].cls == c) o << " predicate p" << p << " { G a; G b; }\n";
      o << "}\n";
    }
    for (size_t p = 0; p < preds.size(); p++) {
      const Pred& P = preds[p];
      o << cls((int)p) << "::p" << p << " {\n leq(0, start); leq(end, " << H << ");\n";
      if (P.dkind < 2) o << " eq(duration, " << P.dkind + 1 << ");\n";
      else if (P.dkind == 2) o << " leq(1, duration); leq(duration, 2);\n";
      else o << " addEq(a, 1, duration);\n";
      if (P.local) o << (P.local == 1 ? " neq(a, b);\n" : " leq(a, b);\n");
      for (size_t k = 0; k < P.subs.size(); k++) {
        const Sub& q = P.subs[k];
        if (q.guard >= 0) o << " if (a == " << q.guard << ") {" << (q.inElse ? " } else {" : "");
        o << " " << REL[q.rel] << "(" << cls(q.pred) << ".p" << q.pred << " s" << k << ");";
        if (q.eqA) o << (q.eqA == 1 ? " eq(s" : q.eqA == 2 ? " neq(s" : " leq(s") << k << ".a, a);";
        if (q.sameObj) o << " eq(s" << k << ".object, object);";
        o << (q.guard >= 0 ? " }\n" : "\n");
      }
      o << "}\n";
    }
    for (int i = 0; i < nT; i++) o << "TL tl" << i << " = new TL();\n";
    for (int i = 0; i < nO; i++) o << "OB ob" << i << " = new OB();\n";
    if (g) o << "G g0;\n";
    o << "close();\n";
    for (size_t i = 0; i < init.size(); i++) {
      const Init& t = init[i];
      o << (t.kind == 0 ? "goal(" : t.kind == 1 ? "rejectable(" : "fact(") << cls(t.pred) << ".p" << t.pred << " t" << i << ");\n";
      if (t.a >= 0) o << "eq(t" << i << ".a, " << t.a << ");\n";
      if (t.start >= 0) o << "eq(t" << i << ".start, " << t.start << ");\n";
      if (t.obj >= 0) o << "eq(t" << i << ".object, " << (preds[t.pred].cls == 0 ? "tl" : "ob") << t.obj << ");\n";
    }
    for (auto& p : pairs) {
      if (p.rel) o << "t" << p.i << " " << REL[p.rel] << " t" << p.j << ";\n";
      if (p.eqA) o << (p.eqA == 1 ? "eq(t" : p.eqA == 2 ? "neq(t" : "leq(t") << p.i << ".a, t" << p.j << ".a);\n";
    }
    if (g) o << "leq(t0.a, g0);\n";
    return o.str();
  }
};
struct Val { int obj = 0, st = 0, en = 0, a = 0, b = 0; };
bool related(int rel, const Val& x, const Val& y) {
  switch (rel) {
    case 0: return true;
    case 1: return x.en <= y.st;
    case 2: return y.en <= x.st;
    case 3: return x.en == y.st;
    case 4: return y.en == x.st;
    case 5: return x.st <= y.st && y.en <= x.en;
    case 6: return y.st <= x.st && x.en <= y.en;
    case 7: return x.st == y.st && x.en == y.en;
    case 8: return x.st == y.st;
    case 9: return x.en == y.en;
  }
  return true;
}
bool cmpA(int k, int x, int y) { return k == 0 || (k == 1 ? x == y : k == 2 ? x != y : x <= y); }
bool wanted(const Sub& q, int a) { return q.guard < 0 || ((a == q.guard) != q.inElse); }
bool subOk(const Sub& q, const Val& master, const Val& sub) {
  return related(q.rel, master, sub) && cmpA(q.eqA, sub.a, master.a) && (!q.sameObj || sub.obj == master.obj);
}
bool ruleOk(const Plan& P, const Pred& p, const Val& v) {
  int d = v.en - v.st;
  if (v.st < 0 || v.en > P.H) return false;
  if (p.dkind == 0 ? d != 1 : p.dkind == 1 ? d != 2 : p.dkind == 2 ? d < 1 || d > 2 : d != v.a + 1) return false;
  return p.local == 0 || (p.local == 1 ? v.a != v.b : v.a <= v.b);
}
bool initOk(const Init& t, const Val& v) { return (t.a < 0 || v.a == t.a) && (t.start < 0 || v.st == t.start) && (t.obj < 0 || v.obj == t.obj); }

Plan genPlan(Src& s) {
  Plan p;
  p.H = 2 + (int)s.geo(4);
  p.A = (int)s.draw(1, 2);
  p.nT = 1 + (int)s.chance(1, 3); p.nO = 1 + (int)s.chance(1, 3);
  p.g = s.chance(1, 4);
  int np = 1 + (int)s.geo(2);
  for (int i = 0; i < np; i++) { Pred q; q.cls = (int)s.chance(2, 5); q.dkind = (int)s.weighted({4, 3, 2, 2}); q.local = (int)s.weighted({3, 1, 1}); p.preds.push_back(q); }
  std::vector<int> weight(np, 1);
  for (int i = np - 1; i >= 0; i--)
    for (int k = 0; k < 2 && i + 1 < np && s.chance(1, 2); k++) {
      Sub q;
      q.pred = (int)s.draw(i + 1, np - 1);
      if (weight[i] + weight[q.pred] > 4) break;
      weight[i] += weight[q.pred];
      q.rel = (int)s.draw(0, 9);
      q.eqA = (int)s.weighted({3, 2, 1, 1});
      q.sameObj = p.preds[q.pred].cls == p.preds[i].cls && s.chance(1, 3);
      q.guard = s.chance(1, 3) ? (int)s.draw(0, p.A) : -1;
      q.inElse = q.guard >= 0 && s.chance(1, 3);
      p.preds[i].subs.push_back(q);
    }
  if (s.chance(1, 5)) {
    // the first tokens leave no room on their timeline, so that the others have to be merged with them
    p.nT = 1; p.g = false;
    p.preds[0].cls = 0; p.preds[0].dkind = (int)s.draw(0, 1); p.preds[0].subs.clear();
    int d = p.preds[0].dkind + 1, blocks = 2 + (int)s.geo(1), more = 1 + (int)s.geo(2);
    p.H = blocks * d;
    for (int i = 0; i < blocks; i++) p.init.push_back({0, s.chance(1, 5) ? 2 : 0, s.chance(2, 3) ? (int)s.draw(0, p.A) : -1, s.chance(3, 4) ? i * d : -1, -1});
    for (int i = 0; i < more && blocks + i < 6; i++) p.init.push_back({0, 0, s.chance(1, 5) ? (int)s.draw(0, p.A) : -1, -1, -1});
    for (int k = 0; k < 3 && s.chance(2, 3); k++) {
      Pair q;
      q.i = (int)s.draw(blocks, (long)p.init.size() - 1); q.j = (int)s.draw(0, (long)p.init.size() - 1);
      if (q.i == q.j) continue;
      if (s.flip()) std::swap(q.i, q.j);
      q.rel = s.flip() ? (int)s.draw(1, 9) : 0;
      q.eqA = q.rel && s.flip() ? 0 : (int)s.draw(1, 3);
      p.pairs.push_back(q);
    }
    return p;
  }
  int total = 0;
  for (int i = 0; i < 5 && (i == 0 || s.chance(2, 3)); i++) {
    Init t;
    t.pred = (int)s.draw(0, np - 1);
    total += weight[t.pred];
    if (i > 0 && total > 5) break;
    t.kind = (int)s.weighted({5, 2, 2});
    t.a = s.chance(1, 3) ? (int)s.draw(0, p.A) : -1;
    t.start = s.chance(1, 4) ? (int)s.draw(0, p.H - 1) : -1;
    int no = p.preds[t.pred].cls == 0 ? p.nT : p.nO;
    t.obj = no > 1 && s.chance(1, 3) ? (int)s.draw(0, no - 1) : -1;
    p.init.push_back(t);
  }
  if (p.init[0].kind == 1) p.g = false;
  for (int k = 0; k < 2 && p.init.size() > 1 && s.chance(1, 3); k++) {
    Pair q;
    q.i = (int)s.draw(0, (long)p.init.size() - 1); q.j = (int)s.draw(0, (long)p.init.size() - 1);
    if (q.i == q.j || p.init[q.i].kind == 1 || p.init[q.j].kind == 1) continue;
    q.rel = s.flip() ? (int)s.draw(1, 9) : 0;
    q.eqA = q.rel && s.flip() ? 0 : (int)s.draw(1, 3);
    p.pairs.push_back(q);
  }
  return p;
}
// exhaustive search over grounded plans: 1 exists, 0 none, -1 budget exceeded
struct Ref {
  const Plan& P; bool mutex;
  long budget = 400000;
  struct RTok { int pred, init, master, sub; int state = 0; int target = -1; Val v; };  // state 0 undecided 1 active 2 merged 3 rejected
  std::vector<RTok> t;
  Ref(const Plan& p, bool m) : P(p), mutex(m) {}
  int solve() {
    for (int pass = 0; pass < 2; pass++)
      for (size_t i = 0; i < P.init.size(); i++)
        if ((P.init[i].kind == 2) == (pass == 0)) t.push_back({P.init[i].pred, (int)i, -1, -1, 0, -1, Val()});
    return rec(0);
  }
  const Val* valueOf(int init) {
    for (auto& x : t) if (x.init == init) return x.state == 1 ? &x.v : x.state == 2 ? &t[x.target].v : nullptr;
    return nullptr;
  }
  bool fits(const RTok& x, const Val& v) {
    if (x.init >= 0 && !initOk(P.init[x.init], v)) return false;
    if (x.master >= 0 && !subOk(P.preds[t[x.master].pred].subs[x.sub], t[x.master].v, v)) return false;
    if (x.init >= 0)
      for (auto& p : P.pairs) {
        if (p.i != x.init && p.j != x.init) continue;
        const Val* a = p.i == x.init ? &v : valueOf(p.i);
        const Val* b = p.j == x.init ? &v : valueOf(p.j);
        if (a && b && !(related(p.rel, *a, *b) && cmpA(p.eqA, a->a, b->a))) return false;
      }
    return true;
  }
  int rec(size_t k) {
    if (--budget < 0) return -1;
    if (k == t.size()) return 1;
    RTok x = t[k];
    bool over = false;
    if (x.init >= 0 && P.init[x.init].kind == 1) { t[k].state = 3; int r = rec(k + 1); if (r == 1) return 1; if (r < 0) return -1; t[k].state = 0; }
      for (size_t j = 0; j < k; j++) {
        if (t[j].state != 1 || t[j].pred != x.pred || !fits(x, t[j].v)) continue;
        t[k].state = 2; t[k].target = (int)j;
        int r = rec(k + 1); if (r == 1) return 1; if (r < 0) return -1;
        t[k].state = 0;
      }
    const Pred& p = P.preds[x.pred];
    int no = p.cls == 0 ? P.nT : P.nO;
    Val v;
    for (v.obj = 0; v.obj < no; v.obj++)
      for (v.st = 0; v.st < P.H; v.st++)
        for (int d = 1; d <= 3; d++)
          for (v.a = 0; v.a <= P.A; v.a++) {
            v.en = v.st + d;
            bool done = false;  // b matters only to the rule's own constraint
            for (v.b = 0; v.b <= P.A && !done; v.b++) {
              if (--budget < 0) return -1;
              if (!ruleOk(P, p, v)) continue;
              done = true;
              if (!fits(x, v)) continue;
              if (mutex && p.cls == 0) {
                bool clash = false;
                for (size_t j = 0; j < k; j++) if (t[j].state == 1 && P.preds[t[j].pred].cls == 0 && t[j].v.obj == v.obj && v.st < t[j].v.en && t[j].v.st < v.en) clash = true;
                if (clash) continue;
              }
              size_t n = t.size();
              t[k].state = 1; t[k].v = v;
              for (size_t q = 0; q < p.subs.size(); q++) if (wanted(p.subs[q], v.a)) t.push_back({p.subs[q].pred, -1, (int)k, (int)q, 0, -1, Val()});
              int r = rec(k + 1);
              if (r == 1) return 1;
              if (r < 0) over = true;
              t.resize(n);
              t[k].state = 0;
              if (over) return -1;
            }
          }
    return 0;
  }
};

// ---------------------------------------------------------------- configurations
struct Config { S xml; bool threats = false, times = true, filtered = false, random = false; std::set<S> off; };
S prio(Src& s) { return s.chance(1, 2) ? " priority=\"" + num(s.draw(1, 9)) + "\"" : ""; }
Config genConfig(Src& s, const Plan* p, const Csp* c, bool allowRandom) {
  Config g;
  std::vector<S> parts;
  static const char* VALS[] = {"StandardVariableHandler", "Min", "Max", "Random"};
  auto val = [&]() { int k = (int)s.draw(0, allowRandom ? 3 : 2); if (k == 3) g.random = true; return S(VALS[k]); };
  std::ostringstream u;
  u << " <UnboundVariableManager" << (s.chance(1, 4) ? " defaultPriority=\"" + num(s.draw(1, 9)) + "\"" : "") << ">\n";
  std::vector<S> names;
  if (c) for (size_t i = 0; i < c->vars.size(); i++) names.push_back(c->name((int)i));
  else names = {"a", "b", "start", "end", "duration", "object", "g0"};
  if (c) {
    if (s.chance(1, 5)) { g.off.insert(s.pick(names)); g.filtered = true; }
  } else if (s.flip()) { g.times = false; g.off = {"start", "end", "duration"}; }
  for (auto& n : g.off) u << "  <FlawFilter var-match=\"" << n << "\"/>\n";
  for (auto& n : names)
    if (s.chance(1, 3)) {
      // a value order that lists every value
      size_t idx = c ? (size_t)atoi(n.c_str() + 1) : 0;
      if (c && c->vars[idx].kind != 3 && s.chance(1, 3)) {
        u << "  <FlawHandler var-match=\"" << n << "\" component=\"ValEnum\"" << prio(s) << ">\n";
        std::vector<int> vs;
        for (int v = c->vars[idx].lo; v <= c->vars[idx].hi; v++) vs.push_back(v);
        for (size_t i = vs.size(); i > 1; i--) std::swap(vs[i - 1], vs[(size_t)s.draw(0, (long)i - 1)]);
        static const char* COL[] = {"red", "green", "blue"};
        for (int v : vs) u << "   <Value val=\"" << (c->vars[idx].kind == 2 ? S(COL[v]) : c->vars[idx].kind == 1 && s.flip() ? S(v ? "true" : "false") : num(v)) << "\"/>\n";
        u << "  </FlawHandler>\n";
      } else u << "  <FlawHandler var-match=\"" << n << "\" component=\"" << val() << "\"" << prio(s) << "/>\n";
    }
  u << "  <FlawHandler component=\"" << val() << "\"" << prio(s) << "/>\n </UnboundVariableManager>\n";
  parts.push_back(u.str());
  if (p) {
    g.threats = s.chance(4, 5);
    static const char* ORD[] = {"early", "late", "ascendingKey"};
    std::ostringstream o, h;
    o << " <OpenConditionManager>\n";
    int k = (int)s.draw(0, g.threats ? 3 : 1);
    if (k == 0) o << "  <FlawHandler component=\"StandardOpenConditionHandler\"" << prio(s) << "/>\n";
    else if (k == 1) o << "  <FlawHandler component=\"BasicOpenConditionHandler\"" << prio(s) << "/>\n";
    else o << "  <FlawHandler component=\"HSTSOpenConditionDecisionPoint\" choice=\"" << (k == 2 ? "mergeFirst" : "activateFirst") << "\" order=\"" << ORD[s.draw(0, 2)] << "\"" << prio(s) << "/>\n";
    if (s.chance(1, 3)) { int q = (int)s.draw(0, (long)p->preds.size() - 1); o << "  <FlawHandler class-match=\"" << p->cls(q) << "\" predicate-match=\"p" << q << "\" component=\"BasicOpenConditionHandler\"" << prio(s) << "/>\n"; }
    o << " </OpenConditionManager>\n";
    parts.push_back(o.str());
    if (g.threats) {
      h << " <ThreatManager>\n  <FlawHandler component=\"";
      if (s.flip()) h << "StandardThreatHandler\"" << prio(s) << "/>\n";
      else h << "HSTSThreatDecisionPoint\" order=\"" << ORD[s.draw(0, 2)] << "\"" << prio(s) << "/>\n";
      h << " </ThreatManager>\n";
      parts.push_back(h.str());
    }
  }
  for (size_t i = parts.size(); i > 1; i--) std::swap(parts[i - 1], parts[(size_t)s.draw(0, (long)i - 1)]);
  g.xml = "<Solver name=\"TheSolver\">\n";
  for (auto& x : parts) g.xml += x;
  g.xml += "</Solver>\n";
  return g;
}

// ---------------------------------------------------------------- one problem
S domKey(const Domain& d) {
  std::ostringstream o;
  if (!d.isOpen() && d.isEmpty()) return "empty";
  if (d.isInterval()) o << "[" << d.getLowerBound() + edouble(0.0) << "," << d.getUpperBound() + edouble(0.0) << "]";
  else { std::list<edouble> l; d.getValues(l); std::set<edouble> x(l.begin(), l.end()); o << (d.isOpen() ? "open{" : "{"); for (auto e : x) o << " " << e; o << "}"; }
  return o.str();
}
struct Case {
  Src& s;
  bool csp;
  Csp c; Plan p; Config cfg;
  std::unique_ptr<nddl::Env> e;
  std::unique_ptr<TiXmlElement> xml;
  std::unique_ptr<Solver> sol;
  explicit Case(Src& s_) : s(s_) {}
  void build(bool isCsp, bool confluent, bool allowRandom) {
    srandom(7);
    csp = isCsp;
    if (csp) c = genCsp(s, confluent); else p = genPlan(s);
    if (csp && c.vars.empty()) throw Discard();
    cfg = genConfig(s, csp ? nullptr : &p, csp ? &c : nullptr, allowRandom);
    S text = csp ? c.text() : p.text();
    s.note() << text << "\n" << cfg.xml;
    e.reset(new nddl::Env(true));
    e->ce().setAutoPropagation(s.flip());
    S err = e->run(text);
    REQUIRE(err.empty(), "the program was not accepted: " << err);
    // a solver started on a plan already known to be inconsistent keeps to that level of conflict, by design
    if (e->ce().getViolation() > 0) { REQUIRE(truth() <= 0, "the initial plan is reported inconsistent though a plan exists"); throw Discard(); }
    S x = cfg.xml;
    xml.reset(initXml(x));
    sol.reset(new Solver(e->db().getId(), *xml));
    sol->getContext()->put("horizonStart", 0);
    sol->getContext()->put("horizonEnd", 1000);
  }
  ~Case() { sol.reset(); xml.reset(); e.reset(); }
  // ------------------------------------------------------------ validation
  bool off(const S& n) { return cfg.off.count(n) != 0; }
  void checkStack() {
    const SOLVERS::DecisionStack& st = sol->getDecisionStack();
    REQUIRE(st.size() == sol->getDepth(), "depth " << sol->getDepth() << " but " << st.size() << " decisions on the stack");
    std::map<long, int> seen;
    for (size_t i = 0; i < st.size(); i++) {
      SOLVERS::DecisionPointId d = st[i];
      REQUIRE(d.isValid(), "decision " << i << " on the stack is gone");
      REQUIRE(d->isExecuted(), "decision " << i << " on the stack is not in force");
      EntityId en = Entity::getEntity(d->getFlawedEntityKey());
      REQUIRE(en.isId(), "decision " << i << " is about an entity that is gone");
      S what = d->toShortString();
      if (ConstrainedVariableId::convertable(en)) REQUIRE(ConstrainedVariableId(en)->isSpecified(), "decision " << i << " (" << what << ") on the stack, but the variable is not specified");
      else REQUIRE(!TokenId(en)->isInactive(), "decision " << i << " (" << what << ") on the stack, but the token is inactive");
    }
  }
  int flawsLeft() {
    IteratorId it = sol->createIterator();
    int n = 0;
    while (!it->done()) { it->next(); n++; }
    delete static_cast<Iterator*>(it);
    return n;
  }
  std::vector<int> assignment() {
    std::vector<int> x;
    for (size_t i = 0; i < c.vars.size(); i++) {
      ConstrainedVariableId v = e->db().getGlobalVariable(c.name((int)i));
      if (!v->isSpecified()) { x.push_back(-99); continue; }
      x.push_back(valueOf(v, c.vars[i].kind));
    }
    return x;
  }
  int valueOf(ConstrainedVariableId v, int kind) {
    edouble d = v->getSpecifiedValue();
    static const char* COL[] = {"red", "green", "blue"};
    if (kind == 2) { for (int k = 0; k < 3; k++) if (LabelStr(d).toString() == COL[k]) return k; return -98; }
    if (kind == 3) { ObjectId o = Entity::getTypedEntity<Object>(d); return atoi(o->getName().c_str() + 1); }
    return (int)cast_int(d);
  }
  void validateCsp() {
    std::vector<int> x = assignment();
    for (size_t i = 0; i < x.size(); i++) {
      if (x[i] == -99) { REQUIRE(off(c.name((int)i)), "plan found but " << c.name((int)i) << " is not decided"); continue; }
      REQUIRE(x[i] >= c.vars[i].lo && x[i] <= c.vars[i].hi, c.name((int)i) << " was given " << x[i] << ", outside its domain");
    }
    for (auto& k : c.cons) {
      bool all = true;
      for (int v : k.v) if (x[v] == -99) all = false;
      if (all) REQUIRE(c.holds(k, x), "plan found but constraint " << k.k << " on" << [&] { S r; for (int v : k.v) r += " " + c.name(v) + "=" + num(x[v]); return r; }() << " does not hold");
    }
  }
  // values of an active token; times at their lower bounds
  Val val(TokenId t) {
    Val v;
    auto one = [&](const char* n) {
      const Domain& d = t->getVariable(n)->lastDomain();
      REQUIRE(!d.isEmpty(), "plan found but " << n << " of " << t->toString() << " is empty");
      return (int)cast_int(d.getLowerBound());
    };
    v.st = one("start"); v.en = one("end"); v.a = one("a"); v.b = one("b");
    ObjectId o = Entity::getTypedEntity<Object>(t->getObject()->lastDomain().getSingletonValue());
    v.obj = atoi(o->getName().c_str() + 2);
    return v;
  }
  int predOf(TokenId t) { const S n = t->getUnqualifiedPredicateName(); return atoi(n.c_str() + 1); }
  static TokenId resolve(TokenId t) { return t->isMerged() ? t->getActiveToken() : t; }
  void validatePlan() {
    TokenSet all = e->db().getTokens();
    std::map<TokenId, Val> v;
    for (TokenId t : all) {
      REQUIRE(!t->isInactive(), "plan found but " << t->toString() << " is inactive");
      if (!t->isActive()) continue;
      for (const ConstrainedVariableId& x : t->getVariables()) {
        if (x == t->getState()) continue;
        REQUIRE(off(x->getName()) || x->isSpecified(), "plan found but " << x->toLongString() << " is not decided");
      }
      v[t] = val(t);
    }
    for (auto& k : v) {
      const Pred& P = p.preds[predOf(k.first)];
      const Val& x = k.second;
      std::ostringstream at;
      at << "plan found but for " << k.first->toString() << " (object " << x.obj << " times " << x.st << ".." << x.en << " a " << x.a << " b " << x.b << ") ";
      REQUIRE(ruleOk(p, P, x), at.str() << "its rule's constraints do not hold");
      const Domain& d = k.first->duration()->lastDomain();
      REQUIRE(d.isMember(x.en - x.st), at.str() << "the duration is " << d.toString());
      std::vector<const Sub*> want;
      for (auto& q : P.subs) if (wanted(q, x.a)) want.push_back(&q);
      TokenSet sl = k.first->slaves();
      REQUIRE(sl.size() == want.size(), at.str() << "there are " << sl.size() << " subgoals instead of " << want.size());
      std::vector<TokenId> s2(sl.begin(), sl.end());
      std::sort(s2.begin(), s2.end());
      bool match = false;
      do {
        bool ok = true;
        for (size_t i = 0; i < want.size() && ok; i++) {
          TokenId r = resolve(s2[i]);
          ok = predOf(s2[i]) == want[i]->pred && v.count(r) && predOf(r) == want[i]->pred && subOk(*want[i], x, v[r]);
        }
        if (ok) { match = true; break; }
      } while (std::next_permutation(s2.begin(), s2.end()));
      REQUIRE(match, at.str() << "its subgoals do not stand in the relations its rule asks for");
      if (cfg.threats && P.cls == 0)
        for (auto& k2 : v)
          if (!(k2.first == k.first) && p.preds[predOf(k2.first)].cls == 0 && k2.second.obj == x.obj)
            REQUIRE(x.en <= k2.second.st || k2.second.en <= x.st, at.str() << "it overlaps " << k2.first->toString() << " (times " << k2.second.st << ".." << k2.second.en << ") on the same timeline");
    }
    if (cfg.threats) {
      REQUIRE(e->db().getTokensToOrder().empty(), "plan found but tokens remain to be ordered");
      for (int i = 0; i < p.nT; i++) {
        TimelineId tl = e->db().getObject("tl" + num(i));
        size_t n = 0;
        for (auto& k : v) if (p.preds[predOf(k.first)].cls == 0 && k.second.obj == i) n++;
        REQUIRE(tl->getTokenSequence().size() == n, "plan found but tl" << i << " sequences " << tl->getTokenSequence().size() << " tokens instead of " << n);
      }
    }
    for (size_t i = 0; i < p.init.size(); i++) {
      TokenId t = e->db().getGlobalToken("t" + num((long)i));
      REQUIRE(t.isId(), "plan found but t" << i << " is no longer in it");
      if (t->isRejected()) { REQUIRE(p.init[i].kind == 1, "plan found but t" << i << ", which is not rejectable, was rejected"); continue; }
      if (p.init[i].kind == 2) REQUIRE(t->isActive() || t->isMerged(), "plan found but fact t" << i << " is not in it");
      REQUIRE(predOf(resolve(t)) == p.init[i].pred, "t" << i << " stands merged with a token of another predicate");
      REQUIRE(initOk(p.init[i], v[resolve(t)]), "plan found but the constraints of t" << i << " do not hold");
    }
    for (auto& q : p.pairs) {
      const Val &a = v[resolve(e->db().getGlobalToken("t" + num(q.i)))], &b = v[resolve(e->db().getGlobalToken("t" + num(q.j)))];
      REQUIRE(related(q.rel, a, b) && cmpA(q.eqA, a.a, b.a), "plan found but t" << q.i << " and t" << q.j << " do not stand in their relation");
    }
    if (p.g) {
      ConstrainedVariableId g = e->db().getGlobalVariable("g0");
      REQUIRE(g->isSpecified(), "plan found but g0 is not decided");
      REQUIRE(v[resolve(e->db().getGlobalToken("t0"))].a <= g->getSpecifiedValue(), "plan found but leq(t0.a, g0) does not hold");
    }
  }
  void validate(bool stepped = false) {
    REQUIRE(e->ce().propagate(), "plan found but the plan is inconsistent");
    REQUIRE(!sol->isExhausted() && (stepped || !sol->isTimedOut()), "plan found, yet exhausted or timed out is reported");
    int left = flawsLeft();
    REQUIRE(left == 0, "plan found but " << left << " flaws are left");
    if (csp) validateCsp(); else validatePlan();
    checkStack();
  }
  // 1 a plan exists, 0 none, -1 unknown
  int truth() {
    if (csp) return !solutions(c).empty();
    Ref r(p, cfg.threats);
    return r.solve();
  }
  // the plan, in full
  S dump() {
    bool ok = e->ce().propagate();
    std::ostringstream o;
    o << (ok ? "" : "inconsistent ") << e->ce().getVariables().size() << " variables " << e->ce().getConstraints().size() << " constraints\n";
    if (!ok) return o.str();
    std::map<long, TokenId> ts;
    for (TokenId t : e->db().getTokens()) ts[(long)cast_int(t->getKey())] = t;
    auto var = [&](ConstrainedVariableId v) {
      o << " " << v->getName() << (v->isSpecified() ? "=" : ":") << domKey(v->lastDomain()) << "<" << domKey(v->baseDomain());
    };
    for (auto& k : ts) {
      TokenId t = k.second;
      o << k.first << " " << t->getPredicateName() << (t->isActive() ? " active" : t->isMerged() ? " merged onto " : t->isRejected() ? " rejected" : " inactive");
      if (t->isMerged()) o << t->getActiveToken()->getKey();
      if (t->master().isId()) o << " of " << t->master()->getKey();
      if (!t->isMerged()) for (const ConstrainedVariableId& v : t->getVariables()) var(v);
      o << " locals";
      for (const ConstrainedVariableId& v : t->getLocalVariables()) var(v);
      o << "\n";
    }
    for (const ConstrainedVariableId& v : e->db().getGlobalVariables()) var(v);
    o << "\n";
    if (!csp)
      for (int i = 0; i < p.nT; i++) {
        TimelineId tl = e->db().getObject("tl" + num(i));
        o << "tl" << i << ":";
        for (TokenId t : tl->getTokenSequence()) o << " " << t->getKey();
        o << " free:";
        std::vector<TokenId> fr;
        tl->getTokensToOrder(fr);
        std::sort(fr.begin(), fr.end(), [](TokenId x, TokenId y) { return x->getKey() < y->getKey(); });
        for (TokenId t : fr) o << " " << t->getKey();
        o << "\n";
      }
    return o.str();
  }
};

void plans(Src& s) {
  Case k(s);
  k.build(s.chance(1, 4), false, true);
  int rounds = 1 + (int)s.geo(3);
  unsigned long steps = 0;
  for (int r = 0; r < rounds && steps < 600; r++) {
    bool limited = s.chance(1, 2);
    unsigned lim = limited ? 1 + (unsigned)s.geo(20) : 400;
    bool found = k.sol->solve(lim);
    steps += k.sol->getStepCount();
    if (found) {
      k.validate();
      s.label("plan");
      if (k.sol->getDepth() > 1) s.nontrivial();
      if (s.flip()) { k.sol->reset(); continue; }
      if (k.sol->getDepth() == 0) break;
      k.sol->backjump(1 + (unsigned long)s.draw(0, (long)std::min<unsigned long>(3, k.sol->getDepth() - 1)));
    }
    if (k.sol->isExhausted()) { s.label("exhausted"); break; }
  }
}
void cspSearch(Src& s) {
  Case k(s);
  k.build(true, false, true);
  std::set<std::vector<int>> want = solutions(k.c);
  if (want.size() > 60) throw Discard();
  bool first = true;
  std::set<std::vector<int>> got;
  unsigned long backs = 0;
  for (;;) {
    bool found = k.sol->solve(3000);
    REQUIRE(!k.sol->isTimedOut(), "3000 steps on a problem with at most 300 assignments");
    if (!found) { REQUIRE(k.sol->isExhausted(), "neither plan, exhaustion nor time-out reported"); break; }
    if (k.sol->getStepCount() > k.sol->getDepth()) backs++;
    k.validate();
    if (k.cfg.filtered) break;
    std::vector<int> x = k.assignment();
    REQUIRE(want.count(x), "a plan that is no solution");
    REQUIRE(got.insert(x).second, "the same solution was found twice");
    first = false;
    if (k.sol->getDepth() == 0) break;
    k.sol->backjump(1);
    if (k.sol->isExhausted()) break;
  }
  if (k.cfg.filtered) { if (!want.empty()) REQUIRE(k.sol->noMoreFlaws() && !k.sol->isExhausted(), "solutions exist but the search reported that none does"); }
  else REQUIRE(got.size() == want.size(), got.size() << " of " << want.size() << " solutions were found");
  (void)first;
  s.label(want.empty() ? "unsolvable" : want.size() == 1 ? "one" : "several");
  if (want.size() > 1 || backs) s.nontrivial();
}
void planSearch(Src& s) {
  Case k(s);
  k.build(false, false, true);
  int want = k.truth();
  if (want < 0) throw Discard();
  bool found = k.sol->solve(1500);
  if (k.sol->isTimedOut()) { s.label("limit"); return; }
  REQUIRE(found || k.sol->isExhausted(), "neither plan, exhaustion nor time-out reported");
  s.label(want ? "plan" : "none");
  if (found) k.validate();
  REQUIRE(!found || want, "a plan was found though none exists");
  REQUIRE(found || !want, "exhaustion was reported though a plan exists");
  if (k.sol->getStepCount() > k.sol->getDepth()) s.nontrivial();
}
void history(Src& s) {
  Case k(s);
  bool isCsp = s.chance(1, 2);
  k.build(isCsp, true, false);
  int want = k.truth();
  if (isCsp && k.cfg.filtered && want == 0) want = -1;
  std::vector<S> dumps{k.dump()};
  if (dumps[0].compare(0, 5, "incon") == 0) throw Discard();
  Solver& v = *k.sol;
  bool active = false, pruned = false, cleared = false, over = false;
  unsigned long undone = 0;
  auto same = [&](const S& what) {
    REQUIRE(v.getDepth() < dumps.size(), "after " << what << " the depth is " << v.getDepth() << ", deeper than the last known " << dumps.size() - 1);
    S now = k.dump();
    if (now != dumps[v.getDepth()]) pbt::fail("after " + what + " at depth " + num((long)v.getDepth()) + " the plan is\n" + now + "instead of\n" + dumps[v.getDepth()]);
    undone += dumps.size() - 1 - v.getDepth();
    dumps.resize(v.getDepth() + 1);
    k.checkStack();
  };
  auto terminal = [&](bool found, bool stepped = false) {
    if (found) { k.validate(stepped); if (want == 0) pbt::fail("a plan was found though none exists"); }
    if (v.isExhausted()) {
      REQUIRE(v.getDepth() == 0, "exhausted at depth " << v.getDepth());
      if (!pruned && !cleared && want == 1) pbt::fail("exhaustion was reported though a plan exists");
    }
  };
  int ops = 0, total = 0;
  while (ops++ < 60 && s.chance(14, 15) && total < 300) {
    size_t op = s.weighted({over ? 0 : 12, over ? 0 : 3, 3, 1, over ? 0 : 3, 1});
    unsigned long d0 = v.getDepth();
    s.note() << "\ndepth " << d0 << ": ";
    if (op == 0) {
      s.note() << "step";
      unsigned c0 = v.getStepCount();
      v.setMaxSteps(1000000); v.setMaxDepth(1000000);  // the limits of an earlier run stay in force
      bool was = v.isTimedOut();
      v.step();
      total++;
      REQUIRE(v.isTimedOut() == was, "a single step was refused as timed out");
      if (v.getDepth() > d0) {
        REQUIRE(v.getDepth() == d0 + 1 && v.getStepCount() == c0 + 1, "a step took the depth from " << d0 << " to " << v.getDepth());
        dumps.push_back(k.dump());
        k.checkStack();
        active = false;
      } else if (v.isExhausted()) { same("a step that exhausted the search"); over = true; active = false; terminal(false); }
      else if (v.noMoreFlaws() && v.getStepCount() == c0 && k.flawsLeft() == 0) { same("a step on a complete plan"); over = true; active = false; terminal(true, true); }
      else { same("a step that failed"); active = true; }
    } else if (op == 1) {
      unsigned lim = (unsigned)s.geo(12), depth = s.chance(1, 3) ? (unsigned)s.geo(5) : 100000;
      // the intermediate stacks are not known: only the part up to the current depth may be compared afterwards
      s.note() << "solve " << lim << " " << depth;
      bool found = v.solve(lim, depth);
      bool to = v.isTimedOut();
      total += (int)lim;
      REQUIRE(found + to + v.isExhausted() == 1, "a run reported plan " << found << ", time-out " << to << ", exhausted " << v.isExhausted());
      REQUIRE(v.getDepth() <= d0 + depth + 1 || !to, "depth " << v.getDepth() << " after a run limited to " << depth << " more than " << d0);
      active = to;
      over = !to;
      s.label(found ? "solved" : to ? "limit" : "none");
      if (v.getDepth() >= dumps.size()) {
        // rebuild what is known by undoing to a known depth
        k.checkStack();
        if (found) terminal(true);
        unsigned long more = v.getDepth() - (unsigned long)s.draw(0, (long)std::min<unsigned long>(v.getDepth(), dumps.size() - 1));
        // decisions made earlier may have been revised by the run: only depth 0 is certain
        v.reset(more);
        undone += more;
        if (v.getDepth() > 0) { unsigned long rest = v.getDepth(); v.reset(); undone += rest; }
        same("undoing a run");
        over = false; active = false; pruned = cleared;
        continue;
      }
      terminal(found);
      if (v.getDepth() == 0) same("a run");
      else {
        // maybe other decisions than before
        v.reset();
        same("undoing a run");
        over = false; active = false; pruned = cleared;
      }
    } else if (op == 2) {
      unsigned long n = d0 == 0 ? 0 : (unsigned long)s.draw(0, (long)d0);
      if (active && n < d0) pruned = true;
      s.note() << "reset " << n;
      v.reset(n);
      REQUIRE(v.getDepth() == d0 - n, "reset(" << n << ") took the depth from " << d0 << " to " << v.getDepth());
      REQUIRE(!v.isExhausted() && !v.isTimedOut() && v.getStepCount() == 0, "after a reset");
      same("reset(" + num((long)n) + ")");
      active = false; over = false;
      if (v.getDepth() == 0) pruned = cleared;
    } else if (op == 3) {
      s.note() << "reset";
      v.reset();
      REQUIRE(v.getDepth() == 0 && !v.isExhausted() && !v.isTimedOut() && v.getStepCount() == 0, "after reset()");
      same("reset()");
      active = false; over = false; pruned = cleared;
    } else if (op == 4) {
      unsigned long hi = d0 + (active ? 1 : 0);
      if (d0 == 0 || hi == 0) continue;
      unsigned long n = 1 + (unsigned long)s.draw(0, (long)hi - 1);
      unsigned long gone = std::max(1ul, n - (active ? 1 : 0));
      pruned = true;
      s.note() << "backjump " << n;
      bool ex = v.backjump(n);
      REQUIRE(ex == v.isExhausted(), "what backjump returns");
      REQUIRE(v.getDepth() + gone <= d0, "backjump(" << n << ") took the depth from " << d0 << " only to " << v.getDepth());
      same("backjump(" + num((long)n) + ")");
      active = !ex; over = ex;
      if (ex) terminal(false);
    } else {
      if (s.chance(2, 3)) continue;
      S before = k.dump();
      s.note() << "clear";
      v.clear();
      S after = k.dump();
      REQUIRE(v.getDepth() == 0 && v.getStepCount() == 0, "after clear()");
      if (before != after) pbt::fail("clear() changed the plan from\n" + before + "to\n" + after);
      dumps.clear(); dumps.push_back(after);
      active = false; over = false; cleared = pruned = true;
    }
  }
  // a second run from the start repeats the first
  if (v.getDepth() || active || over) { v.reset(); if (v.getDepth()) pbt::fail("reset"); same("the final reset()"); }
  unsigned long dep[2]; unsigned st[2]; bool f[2], ex[2]; S pl[2];
  for (int r = 0; r < 2; r++) {
    f[r] = v.solve(300);
    ex[r] = v.isExhausted();
    dep[r] = v.getDepth(); st[r] = v.getStepCount();
    if (f[r]) { k.validate(); std::ostringstream o; if (isCsp) for (int x : k.assignment()) o << x << " "; else for (TokenId t : k.e->db().getTokens()) if (t->isActive()) { Val y = k.val(t); o << t->getPredicateName() << " " << y.obj << " " << y.st << " " << y.en << " " << y.a << " " << y.b << "\n"; } pl[r] = o.str(); }
    undone += v.getDepth();
    v.reset();
    same("reset() after a full run");
  }
  REQUIRE(f[0] == f[1] && ex[0] == ex[1], "a second run from the start reported " << (f[1] ? "a plan" : ex[1] ? "exhaustion" : "a time-out") << " instead of " << (f[0] ? "a plan" : ex[0] ? "exhaustion" : "a time-out"));
  REQUIRE(st[0] == st[1] && dep[0] == dep[1], "a second run from the start took " << st[1] << " steps to depth " << dep[1] << " instead of " << st[0] << " and " << dep[0]);
  REQUIRE(pl[0] == pl[1], "a second run from the start found the plan\n" << pl[1] << "instead of\n" << pl[0]);
  if (undone >= 2) s.nontrivial();
}

// ---------------------------------------------------------------- E01: several engines
struct Job {
  bool csp, ps, autop, withSolver;
  S text, xml, file;
  std::vector<std::pair<char, int> > ops;
  std::vector<S> expect;
  S show() const {
    std::ostringstream o;
    o << (ps ? "PSEngine" : "components") << (autop ? " auto" : "") << " ops ";
    for (auto& x : ops) o << x.first << x.second << " ";
    o << "\n" << text << "\n" << xml << "\n";
    return o.str();
  }
};
struct PubEngine : PSEngineImpl { EngineComponent* comp(const char* n) { return getComponent(n); } };
struct Live {
  const Job& j;
  std::unique_ptr<nddl::Env> env;
  std::unique_ptr<PubEngine> ps;
  std::unique_ptr<TiXmlElement> xml;
  Solver* sol = NULL;
  PSSolver* pss = NULL;
  size_t next = 0;
  bool gone = false;
  explicit Live(const Job& j_) : j(j_) {}
  ~Live() { destroy(); }
  ConstraintEngine& ce() { return *boost::polymorphic_cast<ConstraintEngine*>(env ? env->getComponent("ConstraintEngine") : ps->comp("ConstraintEngine")); }
  PlanDatabase& db() { return *boost::polymorphic_cast<PlanDatabase*>(env ? env->getComponent("PlanDatabase") : ps->comp("PlanDatabase")); }
  void drop() { delete sol; sol = NULL; if (pss) { pss->destroy(); delete pss; pss = NULL; } xml.reset(); }
  void destroy() { drop(); env.reset(); ps.reset(); gone = true; }
  S run(const S& t) {
    try { if (env) return env->run(t); return ps->executeScript("nddl", t, false); }
    catch (PSLanguageExceptionList& e) { S s_; for (int i = 0; i < e.getExceptionCount(); i++) s_ += e.getException(i).asString() + "\n"; return s_; }
  }
  static S val(const Domain& d, edouble v) {
    EntityId en;
    if (dynamic_cast<const ObjectDomain*>(&d)) return Entity::getTypedEntity<Object>(eint(v))->getName();
    if (d.isSymbolic() && LabelStr::isString(v)) return LabelStr(v).toString();
    std::ostringstream o; o << v + edouble(0.0); return o.str();
  }
  static S dom(const Domain& d) {
    std::ostringstream o;
    if (!d.isOpen() && d.isEmpty()) return "empty";
    if (d.isInterval()) o << "[" << d.getLowerBound() + edouble(0.0) << "," << d.getUpperBound() + edouble(0.0) << "]";
    else { std::list<edouble> l; d.getValues(l); o << (d.isOpen() ? "open{" : "{"); for (auto e : l) o << " " << val(d, e); o << "}"; }
    return o.str();
  }
  S dump() {
    std::ostringstream o;
    bool ok = ce().propagate();
    o << (ok ? "" : "inconsistent ") << ce().getVariables().size() << " variables " << ce().getConstraints().size() << " constraints; ";
    if (sol) o << "steps " << sol->getStepCount() << " depth " << sol->getDepth() << (sol->isExhausted() ? " exhausted" : "") << (sol->isTimedOut() ? " timed out" : "") << (ok && sol->noMoreFlaws() ? " done" : "");
    if (pss) o << "steps " << pss->getStepCount() << " depth " << pss->getDepth() << (pss->isExhausted() ? " exhausted" : "") << (pss->isTimedOut() ? " timed out" : "") << (ok && !pss->hasFlaws() ? " done" : "")
               << " open " << (ok ? pss->getOpenDecisionCnt() : -1);
    o << "\n";
    if (!ok) return o.str();
    std::map<PSEntityKey, int> rank;
    std::map<eint, TokenId> ts;
    for (TokenId t : db().getTokens()) ts[t->getKey()] = t;
    for (auto& k : ts) { int n = (int)rank.size(); rank[k.second->getEntityKey()] = n; }
    for (auto& k : ts) {
      TokenId t = k.second;
      o << rank[t->getEntityKey()] << " " << t->getPredicateName() << (t->isActive() ? " active" : t->isMerged() ? " merged onto " : t->isRejected() ? " rejected" : " inactive");
      if (t->isMerged()) o << rank[t->getActiveToken()->getEntityKey()];
      if (t->master().isId()) o << " of " << rank[t->master()->getEntityKey()];
      if (!t->isMerged()) for (const ConstrainedVariableId& v : t->getVariables()) o << " " << v->getName() << (v->isSpecified() ? "=" : ":") << dom(v->lastDomain()) << "<" << dom(v->baseDomain());
      o << "\n";
    }
    for (const ConstrainedVariableId& v : db().getGlobalVariables()) o << " " << (v->isInternal() ? S("internal") : v->getName()) << (v->isSpecified() ? "=" : ":") << dom(v->lastDomain());
    o << "\n";
    for (const ObjectId& ob : db().getObjects()) {
      o << ob->getName() << ":";
      for (const ConstrainedVariableId& v : ob->getVariables()) o << " " << dom(v->lastDomain());
      if (TimelineId::convertable(ob)) { for (TokenId t : TimelineId(ob)->getTokenSequence()) o << " " << rank[t->getEntityKey()]; }
      o << "\n";
    }
    Schema& sch = *boost::polymorphic_cast<Schema*>(env ? env->getComponent("Schema") : ps->comp("Schema"));
    for (const S& t : sch.getAllObjectTypes()) {
      o << t << ":";
      for (const S& a : sch.getAllObjectTypes(t)) o << " " << a;
      std::set<S> pr;
      sch.getPredicates(t, pr);
      for (const S& a : pr) o << " ." << a << (sch.isPredicate(t + "." + a) ? "" : "?");
      for (int k = 0; k < 4; k++) if (sch.hasMember(t, "m" + num((long)k))) o << " " << sch.getMemberType(t, "m" + num((long)k)) << " m" << k;
      o << "\n";
    }
    if (sch.isEnum("Shade")) { o << "Shade"; std::set<S> sh; for (edouble v : sch.getEnumValues("Shade")) sh.insert(LabelStr(v).toString()); for (auto& x : sh) o << " " << x; o << "\n"; }
    if (ps) {
      PSList<PSToken*> l = ps->getTokens();
      std::map<PSEntityKey, PSToken*> m;
      for (int i = 0; i < l.size(); i++) m[l.get(i)->getEntityKey()] = l.get(i);
      for (auto& k : m) {
        PSToken* t = k.second;
        o << rank[k.first] << " " << t->getFullTokenType() << " " << t->getTokenState() << (t->isFact() ? " fact" : "");
        if (t->getMaster()) o << " of " << rank[t->getMaster()->getEntityKey()];
        if (t->getActive()) o << " onto " << rank[t->getActive()->getEntityKey()];
        if (t->getOwner()) o << " on " << t->getOwner()->getEntityName();
        o << " slaves " << t->getSlaves().size() << " merged " << t->getMerged().size() << "\n";
      }
    }
    return o.str();
  }
  S op(char c, int n) {
    S r;
    switch (c) {
      case 'C':
        if (j.ps) { ps.reset(new PubEngine()); ps->start(); ps->setAutoPropagation(j.autop); } else { env.reset(new nddl::Env(true)); ce().setAutoPropagation(j.autop); }
        break;
      case 'T': r = run(j.text); break;
      case 'A': r = run(n % 3 == 0 ? "int extra" + num(n) + " = [0 " + num(n) + "];" : n % 3 == 1 ? "class Late" + num(n) + " { int m; Late" + num(n) + "(int x) { m = x; } } Late" + num(n) + " late" + num(n) + " = new Late" + num(n) + "(3);"
                                     : "nonsense " + num(n) + " = ;"); break;
      case 'S':
        if (ce().getViolation() > 0 || !ce().propagate()) { r = "no solver"; break; }
        if (j.ps) { pss = ps->createSolver(j.file); pss->configure(0, 1000); }
        else { S x = j.xml; xml.reset(initXml(x)); sol = new Solver(db().getId(), *xml); sol->getContext()->put("horizonStart", 0); sol->getContext()->put("horizonEnd", 1000); }
        break;
      case 's': for (int i = 0; i < n; i++) { if (sol && !sol->isExhausted() && !sol->noMoreFlaws()) sol->step(); if (pss && !pss->isExhausted() && pss->hasFlaws()) pss->step(); } break;
      case 'v': if (sol) r = sol->solve((unsigned)n * 10, 1000) ? "solved" : "not"; if (pss) r = pss->solve(n * 10, 1000) ? "solved" : "not"; break;
      case 'b':
        if (sol && sol->getDepth() > 0 && !sol->isExhausted()) r = sol->backjump(1 + (unsigned)n % (unsigned)sol->getDepth()) ? "back" : "no";
        if (pss && pss->getDepth() > 0 && !pss->isExhausted()) r = pss->backjump(1 + (unsigned)n % (unsigned)pss->getDepth()) ? "back" : "no";
        break;
      case 'r': if (sol) sol->reset((unsigned)n % (unsigned)(sol->getDepth() + 1)); if (pss) pss->reset((unsigned)n % (unsigned)(pss->getDepth() + 1)); break;
      case 'R': if (sol) sol->reset(); if (pss) pss->reset(); break;
      case 'D': drop(); break;
      case 'X': destroy(); return "destroyed";
    }
    return r + "\n" + dump();
  }
  bool decided() { return (sol && sol->getDepth() > 0) || (pss && pss->getDepth() > 0); }
  S step() { std::pair<char, int> x = j.ops[next++]; try { return op(x.first, x.second); } catch (Error& e) { return "error"; } }
  bool more() const { return next < j.ops.size(); }
};
// declarations whose names mean something else in every job
S genTypes(Src& s) {
  std::ostringstream o;
  int n = 2 + (int)s.geo(2);
  std::vector<int> parent, preds;
  std::vector<S> shades{"pale", "dark", "dull", "warm"};
  for (int i = 3; i > 0; i--) std::swap(shades[i], shades[(size_t)s.draw(0, i)]);
  shades.resize(1 + (size_t)s.draw(1, 3));
  o << "enum Shade {";
  for (size_t i = 0; i < shades.size(); i++) o << (i ? ", " : " ") << shades[i];
  o << "};\ntypedef int [" << s.draw(-2, 0) << " " << s.draw(1, 4) << "] Range;\n";
  for (int i = 0; i < n; i++) {
    parent.push_back(i == 0 ? -1 : (int)s.draw(-1, i - 1));
    preds.push_back((int)s.chance(1, 2));
    o << "class K" << i;
    if (parent[i] >= 0) o << " extends K" << parent[i];
    int m = (int)s.draw(0, 2);
    o << " { ";
    if (m) o << (m == 1 ? "int" : "Shade") << " m" << i << "; ";
    o << "K" << i << "() { ";
    if (parent[i] >= 0) o << "super(); ";
    if (m) o << "m" << i << " = " << (m == 1 ? num(s.draw(0, 3)) : S(shades[s.idx(shades.size())])) << "; ";
    o << "} ";
    if (preds[i]) { o << "predicate q" << (s.chance(1, 10) ? 0 : i) << " { Range x; }"; }
    o << " }\n";
  }
  for (int i = 0; i < n; i++) for (long k = s.draw(0, 2); k > 0; k--) o << "K" << i << " k" << i << "_" << k << " = new K" << i << "();\n";
  if (s.chance(1, 3)) o << "Range range = [0 " << s.draw(0, 2) << "];\n";
  return o.str();
}
S alone(const Job& j) {
  int p[2];
  if (pipe(p)) pbt::fail("pipe");
  fflush(NULL);
  pid_t pid = fork();
  if (pid == 0) {
    close(p[0]);
    S out;
    { Live l(j); while (l.more()) { S r = l.step(); out += num((long)r.size()) + "\n" + r; } }
    for (size_t k = 0; k < out.size();) { ssize_t n = write(p[1], out.data() + k, out.size() - k); if (n <= 0) break; k += (size_t)n; }
    _exit(0);
  }
  close(p[1]);
  S all; char buf[65536]; ssize_t n;
  while ((n = read(p[0], buf, sizeof buf)) > 0) all.append(buf, (size_t)n);
  close(p[0]);
  int stt; waitpid(pid, &stt, 0);
  REQUIRE(WIFEXITED(stt) && WEXITSTATUS(stt) == 0, "the job run alone ended badly:\n" << j.show());
  return all;
}
void engines(Src& s) {
  std::vector<Job> jobs;
  int n = (int)s.draw(2, 4);
  static int serial = 0;
  std::vector<S> files;
  struct Rm { std::vector<S>& f; ~Rm() { for (auto& x : f) unlink(x.c_str()); } } rm{files};
  size_t distinct = 0;
  for (int i = 0; i < n; i++) {
    if (i && s.chance(1, 4)) { jobs.push_back(jobs[s.idx(jobs.size())]); continue; }   // the same job twice
    Job j;
    j.csp = s.flip(); j.ps = s.chance(1, 3); j.autop = s.flip();
    Csp c; Plan p;
    if (j.csp) c = genCsp(s, false); else p = genPlan(s);
    if (j.csp && c.vars.empty()) throw Discard();
    Config cfg = genConfig(s, j.csp ? nullptr : &p, j.csp ? &c : nullptr, false);
    j.text = (s.chance(2, 3) ? genTypes(s) : S()) + (j.csp ? c.text() : p.text());
    j.xml = cfg.xml;
    if (j.ps) {
      j.file = "/tmp/e01-" + num((long)getpid()) + "-" + num(serial++) + ".xml";
      std::ofstream(j.file.c_str()) << j.xml;
      files.push_back(j.file);
    }
    j.ops = {{'C', 0}, {'T', 0}};
    if (s.chance(1, 6)) j.ops.push_back({'A', (int)s.draw(0, 8)});
    j.ops.push_back({'S', 0});
    int more = 0;
    while (s.chance(6, 7) && more++ < 10) {
      static const char k[] = "svbrRAD";
      char x = k[s.weighted({8, 4, 3, 2, 1, 1, 1})];
      j.ops.push_back({x, (int)s.draw(1, x == 'v' ? 10 : 6)});
      if (x == 'D') { if (s.flip()) j.ops.push_back({'S', 0}); else break; }
    }
    if (s.chance(3, 4)) j.ops.push_back({'X', 0});
    jobs.push_back(j);
    distinct++;
  }
  for (auto& j : jobs) s.note() << j.show();
  for (auto& j : jobs) {
    S all = alone(j);
    size_t k = 0;
    while (k < all.size()) {
      size_t e = all.find('\n', k);
      size_t len = (size_t)atol(all.substr(k, e - k).c_str());
      j.expect.push_back(all.substr(e + 1, len));
      k = e + 1 + len;
    }
    REQUIRE(j.expect.size() == j.ops.size(), "the job run alone ended early:\n" << j.show());
  }
  std::set<EntityId> ents;
  Entity::getEntities(ents);
  size_t before = ents.size();
  std::vector<std::unique_ptr<Live> > live;
  for (auto& j : jobs) live.emplace_back(new Live(j));
  std::vector<void*> junk;
  size_t alive = 0, most = 0;
  bool shot = false;
  for (;;) {
    std::vector<size_t> can;
    for (size_t i = 0; i < live.size(); i++) if (live[i]->more()) can.push_back(i);
    if (can.empty()) break;
    size_t i = s.pick(can);
    if (s.chance(1, 3)) { for (long k = s.draw(1, 20); k > 0; k--) junk.push_back(malloc((size_t)s.draw(8, 300))); }
    if (s.chance(1, 4)) while (!junk.empty() && s.chance(4, 5)) { size_t q = s.idx(junk.size()); free(junk[q]); junk.erase(junk.begin() + (long)q); }
    for (long burst = s.draw(1, 3); burst > 0 && live[i]->more(); burst--) {
      std::pair<char, int> o = jobs[i].ops[live[i]->next];
      if (o.first == 'X') for (size_t q = 0; q < live.size(); q++) if (q != i && !live[q]->gone && live[q]->decided()) shot = true;
      S r = live[i]->step();
      if (r != jobs[i].expect[live[i]->next - 1])
        pbt::fail("job " + num((long)i) + " after operation " + S(1, o.first) + num(o.second) + " (number " + num((long)live[i]->next) + ") reports\n" + r + "and alone\n" + jobs[i].expect[live[i]->next - 1]);
      alive = 0;
      for (auto& q : live) if (!q->gone && q->next > 0) alive++;
      most = std::max(most, alive);
    }
  }
  while (!live.empty()) { size_t i = s.idx(live.size()); live.erase(live.begin() + (long)i); }
  for (void* q : junk) free(q);
  ents.clear();
  Entity::getEntities(ents);
  REQUIRE(ents.size() == before, "all engines are gone but " << (long)ents.size() - (long)before << " of their entities are left");
  if (most >= 3) s.label("three engines alive");
  if (shot) s.label("destroyed beside a deciding solver");
  if (most >= 3 || shot) s.nontrivial();
}
}  // namespace
PBT_PROP("V01", "plans", plans, 16000);
PBT_PROP("V02", "csp", cspSearch, 16000);
PBT_PROP("V02", "planning", planSearch, 14000);
PBT_PROP("V03", "history", history, 16000);
PBT_PROP("E01", "engines", engines, 4000, 30, 50, 60);
