// T03, T04: tokens and time variables in an engine with the temporal network, against shortest paths over the same constraints.
#include "pbt.hh"
#include "Engine.hh"
#include "ModuleConstraintEngine.hh"
#include "ModulePlanDatabase.hh"
#include "ModuleRulesEngine.hh"
#include "ModuleTemporalNetwork.hh"
#include "ConstraintEngine.hh"
#include "Constraint.hh"
#include "PlanDatabase.hh"
#include "Schema.hh"
#include "Timeline.hh"
#include "IntervalToken.hh"
#include "TokenVariable.hh"
#include "TemporalAdvisor.hh"
#include "TemporalPropagator.hh"
#include "Variable.hh"
#include "Domains.hh"
#include "Error.hh"
#include <boost/cast.hpp>
#include <algorithm>
using namespace pbt;
using namespace EUROPA;

PBT_RULE("T03", "histories over up to six tokens and free time and distance variables: creating and discarding them, posting and removing "
         "temporalDistance, precedes, strictlyPrecedes and concurrent constraints, specifying, resetting and restricting variables, with propagation at "
         "random moments; non-trivial when at a settled moment a bound came from two or more constraints, or the plan was inconsistent, after something "
         "had been retracted",
         {"a distance variable is narrowed by the difference of the bounds of its end points (when they are finite), not by every path between them, as the propagator's comments say",
          "while the plan is inconsistent only the verdict is compared"});
PBT_RULE("T04", "the same histories; at every consistent settled moment the advisor is asked about random tokens and time variables and each answer is "
         "compared with shortest paths; non-trivial when the answer depended on a constraint between time points and not on their bounds alone",
         {"a positive answer of canFitBetween is not judged: it is an approximation by the least duration", "canPrecede may say yes although a chain of constraints rules it out: the search behind it is an approximation by its own comments; bounds and single constraints must not be missed",
          "canBeConcurrent is a statement about starts and about ends, each by itself"});

namespace {
const long INF = 1L << 55;
std::string st(long v) { return v >= INF ? "inf" : v <= -INF ? "-inf" : std::to_string(v); }
std::string st(long a, long b) { return "[" + st(a) + ", " + st(b) + "]"; }
edouble ed(long v) { return v >= INF ? edouble(PLUS_INFINITY) : v <= -INF ? edouble(MINUS_INFINITY) : edouble((double)v); }
eint ei(long v) { return v >= INF ? PLUS_INFINITY : v <= -INF ? MINUS_INFINITY : eint(v); }
long un(edouble v) { return v >= edouble(PLUS_INFINITY) ? INF : v <= edouble(MINUS_INFINITY) ? -INF : (long)cast_double(v); }
long un(eint v) { return v >= PLUS_INFINITY ? INF : v <= MINUS_INFINITY ? -INF : (long)cast_long(v); }
long plus(long a, long b) { if (a >= INF || b >= INF) return INF; if (a <= -INF || b <= -INF) return -INF; return a + b; }

struct TEngine : EngineBase {
  explicit TEngine(bool stn) {
    if (!stn) getConfig()->setProperty("TemporalNetwork.useTemporalPropagator", "N");
    addModule((new ModuleConstraintEngine())->getId());
    addModule((new ModuleConstraintLibrary())->getId());
    addModule((new ModulePlanDatabase())->getId());
    addModule((new ModuleRulesEngine())->getId());
    addModule((new ModuleTemporalNetwork())->getId());
    doStart();
    Schema* schema = boost::polymorphic_cast<Schema*>(getComponent("Schema"));
    schema->addObjectType("Objects");
    schema->addPredicate("Objects.Predicate");
  }
  ~TEngine() { doShutdown(); }
  ConstraintEngine& ce() { return *boost::polymorphic_cast<ConstraintEngine*>(getComponent("ConstraintEngine")); }
  PlanDatabase& db() { return *boost::polymorphic_cast<PlanDatabase*>(getComponent("PlanDatabase")); }
};
struct V { ConstrainedVariableId id; bool time; long lb, ub; bool spec; long val; int tok; std::string name; };
struct T { TokenId id; int s, d, e; };
enum K { DIST, PREC, SPREC, CONC };
struct C { ConstraintId id; K k; int a, d, b; };
struct Sys {
  TEngine en;
  std::vector<V> v; std::vector<T> t; std::vector<C> c;
  explicit Sys(bool stn) : en(stn) {
    en.ce().setAutoPropagation(false);
    (new Timeline(en.db().getId(), "Objects", "o"));
    en.db().close();
  }
};
struct Ref { bool ok; std::vector<std::vector<long>> d; std::vector<long> lo, hi; bool joined; bool bounded; };
// tightest bounds over starts, ends and free times; distances are narrowed by the bounds of their ends
// mode 0: distances keep their own domains, 1: they are narrowed, 2: they are what the engine has now
Ref solve(const Sys& y, int mode) {
  size_t n = y.v.size() + 1;
  Ref r; r.joined = false; r.bounded = true;
  r.lo.resize(y.v.size()); r.hi.resize(y.v.size());
  for (size_t i = 0; i < y.v.size(); i++) { auto& x = y.v[i]; r.lo[i] = x.spec ? std::max(x.val, x.lb) : x.lb; r.hi[i] = x.spec ? std::min(x.val, x.ub) : x.ub;
    if (mode == 2 && x.tok != -2 && !x.time) { r.lo[i] = un(x.id->lastDomain().getLowerBound()); r.hi[i] = un(x.id->lastDomain().getUpperBound()); } }
  std::vector<C> cs = y.c;
  for (auto& t : y.t) if (t.s >= 0) cs.push_back({ConstraintId::noId(), DIST, t.s, t.d, t.e});
  r.ok = true;
  for (size_t i = 0; i < y.v.size(); i++) if (y.v[i].tok != -2 && r.lo[i] > r.hi[i]) { r.ok = false; return r; }
  for (int round = 0; ; round++) {
    if (round > 400) { r.bounded = false; return r; }
    r.d.assign(n, std::vector<long>(n, INF));
    for (size_t i = 0; i < n; i++) r.d[i][i] = 0;
    auto edge = [&](int a, int b, long lb, long ub) { r.d[a][b] = std::min(r.d[a][b], ub); if (lb > -INF) r.d[b][a] = std::min(r.d[b][a], lb >= INF ? -INF : -lb); };
    for (size_t i = 0; i < y.v.size(); i++) if (y.v[i].tok != -2 && y.v[i].time) edge(0, (int)i + 1, r.lo[i], r.hi[i]);
    for (auto& c : cs) switch (c.k) {
      case DIST: edge(c.a + 1, c.b + 1, r.lo[c.d], r.hi[c.d]); break;
      case PREC: edge(c.a + 1, c.b + 1, 0, INF); break;
      case SPREC: edge(c.a + 1, c.b + 1, 1, INF); break;
      case CONC: edge(c.a + 1, c.b + 1, 0, 0); break;
      }
    for (size_t k = 0; k < n; k++) for (size_t i = 0; i < n; i++) if (r.d[i][k] < INF) for (size_t j = 0; j < n; j++)
      if (r.d[k][j] < INF && r.d[i][k] + r.d[k][j] < r.d[i][j]) { if (i && j && k && i != j) r.joined = true; r.d[i][j] = std::max(-INF + 1, r.d[i][k] + r.d[k][j]); }
    for (size_t i = 0; i < n; i++) if (r.d[i][i] < 0) { r.ok = false; return r; }
    for (size_t i = 0; i < y.v.size(); i++) if (y.v[i].tok != -2 && y.v[i].time) { r.hi[i] = r.d[0][i + 1]; r.lo[i] = r.d[i + 1][0] >= INF ? -INF : -r.d[i + 1][0]; }
    bool again = false;
    if (mode != 1) return r;
    for (auto& c : cs) if (c.k == DIST) {
      if (r.lo[c.a] <= -INF || r.hi[c.a] >= INF || r.lo[c.b] <= -INF || r.hi[c.b] >= INF) continue;
      long mn = r.lo[c.b] - r.hi[c.a], mx = r.hi[c.b] - r.lo[c.a];
      if (mn > r.lo[c.d]) { r.lo[c.d] = mn; again = true; }
      if (mx < r.hi[c.d]) { r.hi[c.d] = mx; again = true; }
      if (r.lo[c.d] > r.hi[c.d]) { r.ok = false; return r; }
    }
    if (!again) return r;
  }
}
long val(Src& s, int scale) { return scale == 3 ? s.draw(0, 2) : scale == 0 ? s.draw(-2, 6) : scale == 1 ? s.draw(-10, 40) : s.draw(-300000, 1000000); }
// bounds consistency alone need not converge over unbounded domains
bool g_finite = false;
void dom(Src& s, int scale, bool dist, long& lb, long& ub) {
  lb = val(s, scale); ub = val(s, scale);
  if (lb > ub) std::swap(lb, ub);
  switch (s.weighted({4, 2, 2, 1, 2})) {
  case 0: break;
  case 1: ub = INF; break;
  case 2: lb = -INF; break;
  case 3: ub = lb; break;
  default: lb = -INF; ub = INF; break;
  }
  if (dist && s.chance(2, 3) && lb < 0) { lb = s.draw(0, 1); if (ub < lb) ub = lb + s.draw(0, 5); }
  if (g_finite) { lb = std::max(lb, -60L); ub = std::min(ub, 90L); }
}
IntervalIntDomain mk(long lb, long ub) { return IntervalIntDomain(ei(lb), ei(ub)); }
int addVar(Sys& y, ConstrainedVariableId id, bool time, long lb, long ub, int tok, const std::string& name) {
  V x; x.id = id; x.time = time; x.lb = lb; x.ub = ub; x.spec = lb == ub; x.val = lb; x.tok = tok; x.name = name;
  y.v.push_back(x);
  return (int)y.v.size() - 1;
}
void addToken(Src& s, Sys& y, int scale) {
  long a[3], b[3];
  dom(s, scale, false, a[0], b[0]); dom(s, scale, false, a[1], b[1]); dom(s, scale, true, a[2], b[2]);
  if (a[2] < 1) a[2] = 1;   // a duration is positive
  if (b[2] < a[2]) b[2] = a[2] + (s.flip() ? 0 : 4);
  if (s.chance(1, 3)) { a[0] = a[1] = scale == 2 ? 0 : -5; b[0] = b[1] = scale == 2 ? 1000000 : 50; a[2] = 1; b[2] = s.flip() && !g_finite ? INF : 10; }
  int n = (int)y.t.size();
  s.note() << "token t" << n << " start " << st(a[0], b[0]) << " duration " << st(a[2], b[2]) << " end " << st(a[1], b[1]) << "\n";
  TokenId id = (new IntervalToken(y.en.db().getId(), "Objects.Predicate", true, false, mk(a[0], b[0]), mk(a[1], b[1]), mk(a[2], b[2])))->getId();
  T t; t.id = id;
  std::string p = "t" + std::to_string(n);
  t.s = addVar(y, id->start(), true, a[0], b[0], n, p + ".start");
  t.d = addVar(y, id->duration(), false, a[2], b[2], n, p + ".duration");
  t.e = addVar(y, id->end(), true, a[1], b[1], n, p + ".end");
  y.t.push_back(t);
}
std::vector<int> which(const Sys& y, bool time) { std::vector<int> r; for (size_t i = 0; i < y.v.size(); i++) if (y.v[i].tok != -2 && y.v[i].time == time) r.push_back((int)i); return r; }
void dropConstraintsOn(Sys& y, int x) { for (size_t i = 0; i < y.c.size();) if (y.c[i].a == x || y.c[i].b == x || y.c[i].d == x) y.c.erase(y.c.begin() + i); else i++; }
// relax: only changes which can make an inconsistent plan consistent
void addPoint(Src& s, Sys& y, int scale) {
  long lb, ub; dom(s, scale, false, lb, ub);
  std::string nm = "v" + std::to_string(y.v.size());
  s.note() << "variable " << nm << " " << st(lb, ub) << "\n";
  addVar(y, (new Variable<IntervalIntDomain>(y.en.ce().getId(), mk(lb, ub), false, true, nm.c_str()))->getId(), true, lb, ub, -1, nm);
}
void change(Src& s, Sys& y, int scale, bool relax, bool& retracted) {
  static const char* NAMES[] = {"temporalDistance", "precedes", "strictlyPrecedes", "concurrent"};
  int op = relax ? (int)s.pick(std::vector<int>{3, 3, 5, 5, 7, 8}) : (int)s.weighted({10, 3, 3, 5, 6, 4, 4, 1, 1});
  switch (op) {
  case 0: {
    std::vector<int> tv = which(y, true), dv = which(y, false);
    if (tv.size() < 2) return;
    C c; c.k = (K)s.weighted({3, 4, 2, 2}); size_t ia = s.idx(tv.size()); c.a = tv[ia]; c.b = tv[(ia + 1 + s.idx(tv.size() - 1)) % tv.size()];
    // two different variables may still be tied already, which is fine
    c.d = -1;
    std::vector<ConstrainedVariableId> sc;
    sc.push_back(y.v[c.a].id);
    if (c.k == DIST) {
      if (dv.empty() || s.chance(2, 3)) {
        long lb, ub; dom(s, scale, true, lb, ub);
        std::string nm = "d" + std::to_string(y.v.size());
        ConstrainedVariableId id = (new Variable<IntervalIntDomain>(y.en.ce().getId(), mk(lb, ub), false, true, nm.c_str()))->getId();
        s.note() << "variable " << nm << " " << st(lb, ub) << "\n";
        c.d = addVar(y, id, false, lb, ub, -1, nm);
      } else c.d = s.pick(dv);
      sc.push_back(y.v[c.d].id);
    }
    sc.push_back(y.v[c.b].id);
    s.note() << NAMES[c.k]; for (auto& x : sc) for (auto& w : y.v) if (w.tok != -2 && w.id == x) s.note() << " " << w.name;
    s.note() << "\n";
    c.id = y.en.ce().createConstraint(NAMES[c.k], sc);
    y.c.push_back(c);
    s.label(NAMES[c.k]);
    return;
  }
  case 1: if (y.t.size() < 7) addToken(s, y, scale); return;
  case 2: {
    if (y.v.size() > 30) return;
    addPoint(s, y, scale);
    return;
  }
  case 3: {
    if (y.c.empty()) return;
    size_t i = s.idx(y.c.size());
    s.note() << "remove " << NAMES[y.c[i].k] << " " << y.v[y.c[i].a].name << " " << y.v[y.c[i].b].name << "\n";
    y.en.ce().deleteConstraint(y.c[i].id);
    y.c.erase(y.c.begin() + i);
    retracted = true; s.label("remove");
    return;
  }
  case 4: {
    std::vector<int> av; for (size_t i = 0; i < y.v.size(); i++) if (y.v[i].tok != -2 && !y.v[i].spec) av.push_back((int)i);
    if (av.empty()) return;
    V& x = y.v[s.pick(av)];
    if (x.id->lastDomain().isEmpty()) return;
    long lo = x.lb, hi = x.ub;
    if (s.chance(4, 5)) { lo = un(x.id->lastDomain().getLowerBound()); hi = un(x.id->lastDomain().getUpperBound()); }
    long w = 0;
    if (lo <= -INF && hi >= INF) w = val(s, scale); else if (lo <= -INF) w = hi - s.draw(0, 5); else if (hi >= INF) w = lo + s.draw(0, 5); else w = s.chance(1, 2) ? s.draw(lo, hi) : s.flip() ? lo : hi;
    s.note() << "specify " << x.name << " " << w << "\n";
    x.id->specify(edouble((double)w));
    x.spec = true; x.val = w;
    s.label("specify");
    return;
  }
  case 5: {
    std::vector<int> av; for (size_t i = 0; i < y.v.size(); i++) if (y.v[i].tok != -2 && y.v[i].spec && y.v[i].lb != y.v[i].ub) av.push_back((int)i);
    if (av.empty()) return;
    V& x = y.v[s.pick(av)];
    s.note() << "reset " << x.name << "\n";
    x.id->reset(); x.spec = false;
    retracted = true; s.label("reset");
    return;
  }
  case 6: {
    std::vector<int> av; for (size_t i = 0; i < y.v.size(); i++) if (y.v[i].tok != -2) av.push_back((int)i);
    if (av.empty()) return;
    V& x = y.v[s.pick(av)];
    if (x.id->lastDomain().isEmpty()) return;
    long lb, ub; dom(s, scale, false, lb, ub);
    lb = std::max(lb, x.lb); ub = std::min(ub, x.ub);
    if (lb > ub || lb >= INF || ub <= -INF) return;
    s.note() << "restrict " << x.name << " " << st(lb, ub) << "\n";
    if (x.spec && (x.val < lb || x.val > ub)) return;
    x.id->restrictBaseDomain(mk(lb, ub));
    x.lb = lb; x.ub = ub;
    if (lb == ub) { x.spec = true; x.val = lb; }
    s.label("restrict");
    return;
  }
  case 7: {
    std::vector<int> at; for (size_t i = 0; i < y.t.size(); i++) if (y.t[i].s >= 0) at.push_back((int)i);
    if (at.empty()) return;
    int k = s.pick(at);
    T& t = y.t[k];
    s.note() << "discard t" << k << "\n";
    // constraints are removed before the variables they are on, as the destructor of a variable demands
    for (auto& c : y.c) for (int x : {t.s, t.d, t.e}) if (c.a == x || c.b == x || c.d == x) { y.en.ce().deleteConstraint(c.id); break; }
    delete static_cast<Token*>(t.id);
    for (int x : {t.s, t.d, t.e}) { dropConstraintsOn(y, x); y.v[x].tok = -2; }
    t.s = t.d = t.e = -1;
    retracted = true; s.label("discard");
    return;
  }
  default: {
    std::vector<int> av; for (size_t i = 0; i < y.v.size(); i++) if (y.v[i].tok == -1) av.push_back((int)i);
    if (av.empty()) return;
    int k = s.pick(av);
    s.note() << "discard " << y.v[k].name << "\n";
    for (auto& c : y.c) if (c.a == k || c.b == k || c.d == k) y.en.ce().deleteConstraint(c.id);
    dropConstraintsOn(y, k);
    delete static_cast<ConstrainedVariable*>(y.v[k].id);
    y.v[k].tok = -2;
    retracted = true; s.label("discard variable");
    return;
  }
  }
}
void compare(Sys& y, Ref& r, const Ref& tight) {
  r = solve(y, 2);
  for (size_t i = 0; i < y.v.size(); i++) {
    V& x = y.v[i];
    if (x.tok == -2) continue;
    const Domain& d = x.id->lastDomain();
    REQUIRE(!d.isEmpty(), x.name << " is empty in a consistent plan");
    long lo = un(d.getLowerBound()), hi = un(d.getUpperBound());
    if (x.time) REQUIRE(lo == r.lo[i] && hi == r.hi[i], x.name << " is " << st(lo, hi) << ", the constraints leave " << st(r.lo[i], r.hi[i]));
    else {
      REQUIRE(lo >= (x.spec ? x.val : x.lb) && hi <= (x.spec ? x.val : x.ub), x.name << " is " << st(lo, hi) << ", outside its own domain");
      REQUIRE(lo <= tight.lo[i] && hi >= tight.hi[i], x.name << " is " << st(lo, hi) << " without values the constraints leave in " << st(tight.lo[i], tight.hi[i]));
    }
  }
}
// r: what the time points can be given the distances as they now are
bool settle(Src& s, Sys& y, Ref& r, bool retracted, bool exact) {
  s.note() << "propagate\n";
  Ref tight = solve(y, 1), loose = solve(y, 0);
  if (!tight.bounded) throw Discard();
  bool ok = y.en.ce().propagate();
  REQUIRE(ok || !tight.ok, "reported inconsistent, but the time constraints can all hold");
  if (!exact) { r = tight; return ok && tight.ok; }
  REQUIRE(!ok || loose.ok, "reported consistent, but the time constraints cannot all hold");
  s.label(ok ? "consistent" : "inconsistent");
  if (tight.ok != loose.ok) s.label("verdict depends on a shared distance");
  if (retracted && (!ok || loose.joined)) s.nontrivial();
  if (ok && tight.ok) compare(y, r, tight);
  return ok && tight.ok;
}
void t03(Src& s) {
  g_finite = false;
  Sys y(true);
  int scale = (int)s.weighted({5, 5, 2});
  long n = 1 + s.geo(3);
  for (long i = 0; i < n && i < 5; i++) addToken(s, y, scale);
  long steps = s.chance(1, 3) ? s.draw(10, 40) : 2 + s.geo(16);
  bool retracted = false, ok = true;
  Ref r;
  for (long k = 0; k < steps; k++) {
    change(s, y, scale, !ok && s.chance(2, 3), retracted);
    if (!s.chance(1, 2) && k + 1 < steps) continue;
    ok = settle(s, y, r, retracted, true);
  }
}
// x cannot come before z (or at the same time) for a plain reason: their bounds, or one constraint between them
bool plain(const Sys& y, int x, int z, const Ref& r) {
  if (r.lo[x] > r.hi[z]) return true;
  auto at = [&](int a, int d, int b) { return (a == z && b == x && r.lo[d] > 0) || (a == x && b == z && r.hi[d] < 0); };
  for (auto& c : y.c) if ((c.k == SPREC && c.a == z && c.b == x) || (c.k == DIST && at(c.a, c.d, c.b))) return true;
  for (auto& t : y.t) if (t.s >= 0 && at(t.s, t.d, t.e)) return true;
  return false;
}
void t04(Src& s, bool stn, bool points) {
  g_finite = !stn;
  Sys y(stn);
  int scale = points ? 3 : stn ? (int)s.weighted({5, 5, 2}) : (int)s.weighted({5, 5});
  long n = points ? s.draw(0, 1) : 2 + s.geo(2);
  for (long i = 0; i < n && i < 6; i++) addToken(s, y, scale);
  // few values, so that constraints become redundant and come to matter again
  if (points) for (long m = s.draw(2, 5); m > 0; m--) addPoint(s, y, scale);
  long steps = s.chance(1, 3) ? s.draw(10, 30) : 2 + s.geo(10);
  bool retracted = false, ok = true;
  Ref r;
  for (long k = 0; k < steps; k++) {
    change(s, y, scale, !ok, retracted);
    if (!s.chance(1, 2) && k + 1 < steps) continue;
    ok = settle(s, y, r, false, stn);
    if (!ok) continue;
    TemporalAdvisorId ad = y.en.db().getTemporalAdvisor();
    std::vector<int> tk, tv = which(y, true); for (size_t i = 0; i < y.t.size(); i++) if (y.t[i].s >= 0) tk.push_back((int)i);
    auto D = [&](int a, int b) { return r.d[a + 1][b + 1]; };
    long nq = 1 + s.geo(4);
    for (long q = 0; q < nq; q++) switch (s.weighted({4, 2, 4, 4, 3, 2, 2})) {
    case 0: {
      if (tk.empty()) break;
      int a = s.pick(tk), b = s.pick(tk);
      if (a == b) break;
      s.note() << "can t" << a << " precede t" << b << "\n"; s.label("precede");
      int e = y.t[a].e, f = y.t[b].s;
      bool can = ad->canPrecede(y.t[a].id, y.t[b].id), ref = D(e, f) >= 0;
      if (!ref && r.lo[e] <= r.hi[f]) s.nontrivial();
      REQUIRE(can || !ref, "t" << a << " cannot precede t" << b << ", says the advisor, but it could");
      if (stn) REQUIRE(!can || ref || !plain(y, e, f, r), "t" << a << " can precede t" << b << ", says the advisor, but its end is always later");
      break;
    }
    case 1: {
      if (tk.empty()) break;
      int t1 = s.pick(tk), t2 = s.pick(tk);
      bool end1 = s.flip(), end2 = s.flip();
      int e = end1 ? y.t[t1].e : y.t[t1].s, f = end2 ? y.t[t2].e : y.t[t2].s;
      if (e == f) break;
      s.note() << "can " << y.v[e].name << " precede " << y.v[f].name << "\n"; s.label("variables precede");
      bool can = ad->canPrecede(TimeVarId(end1 ? y.t[t1].id->end() : y.t[t1].id->start()), TimeVarId(end2 ? y.t[t2].id->end() : y.t[t2].id->start())), ref = D(e, f) >= 0;
      if (!ref && r.lo[e] <= r.hi[f]) s.nontrivial();
      REQUIRE(can || !ref, y.v[e].name << " cannot precede " << y.v[f].name << ", says the advisor, but it could");
      if (stn) REQUIRE(!can || ref || !plain(y, e, f, r), y.v[e].name << " can precede " << y.v[f].name << ", says the advisor, but it is always later");
      break;
    }
    case 2: {
      if (tk.size() < 3) break;
      int a = s.pick(tk), p = s.pick(tk), q2 = s.pick(tk);
      if (a == p || a == q2 || p == q2) break;
      s.note() << "can t" << a << " fit between t" << p << " and t" << q2 << "\n"; s.label("fit");
      bool can = ad->canFitBetween(y.t[a].id, y.t[p].id, y.t[q2].id);
      int pe = y.t[p].e, as = y.t[a].s, ae = y.t[a].e, qs = y.t[q2].s;
      // both orderings at once: each alone, and the cycles through both
      bool ref = D(pe, as) >= 0 && D(ae, qs) >= 0 && plus(plus(D(as, ae) , 0), 0) > -INF;
      if (ref) {
        auto d = r.d;
        auto add = [&](int u, int v2) { for (size_t i = 0; i < d.size(); i++) for (size_t j = 0; j < d.size(); j++) if (d[i][u] < INF && d[v2][j] < INF) d[i][j] = std::min(d[i][j], d[i][u] + d[v2][j]); };
        add(as + 1, pe + 1);   // pe - as <= 0
        for (size_t i = 0; i < d.size(); i++) if (d[i][i] < 0) ref = false;
        if (ref) { add(qs + 1, ae + 1); for (size_t i = 0; i < d.size(); i++) if (d[i][i] < 0) ref = false; }
      }
      if (!ref && r.lo[pe] <= r.hi[as] && r.lo[ae] <= r.hi[qs]) s.nontrivial();
      s.label(can ? ref ? "fits" : "fits (approximate)" : "does not fit");
      REQUIRE(can || !ref, "t" << a << " cannot fit between t" << p << " and t" << q2 << ", says the advisor, but it could");
      break;
    }
    case 3: {
      if (tk.empty()) break;
      int a = s.pick(tk), b = s.pick(tk);
      s.note() << "can t" << a << " and t" << b << " be concurrent\n"; s.label("concurrent");
      bool can = ad->canBeConcurrent(y.t[a].id, y.t[b].id);
      auto zero = [&](int x, int z) { return D(x, z) >= 0 && D(z, x) >= 0; };
      bool each = a == b || (zero(y.t[a].s, y.t[b].s) && zero(y.t[a].e, y.t[b].e));
      if (!each) s.nontrivial();
      REQUIRE(can || !each, "t" << a << " cannot be concurrent with t" << b << ", says the advisor, but starts and ends could each coincide");
      if (stn) REQUIRE(!can || each, "t" << a << " can be concurrent with t" << b << ", says the advisor, but the starts or the ends cannot coincide");
      break;
    }
    default: {
      if (tv.empty()) break;
      int a = s.pick(tv);
      std::vector<int> bs; long m = s.chance(1, 2) ? 1 : s.geo(4);
      std::vector<ConstrainedVariableId> ids;
      auto used = [&](int x) { if (y.v[x].tok >= 0) return true; for (auto& c : y.c) if (c.a == x || c.b == x) return true; return false; };
      for (long i = 0; i < m; i++) { bs.push_back(s.pick(tv)); ids.push_back(y.v[bs.back()].id); }
      int kind = (int)s.idx(stn ? 4 : 2);
      s.note() << (kind == 0 ? "distance " : kind == 1 ? "outer distance " : kind == 2 ? "distances " : "signs ") << y.v[a].name; for (int b : bs) s.note() << " " << y.v[b].name; s.note() << "\n";
      if (bs.empty() && kind < 2) break;
      auto ok2 = [&](int b, long lo, long hi, bool exact) {
        long el = D(b, a) >= INF ? -INF : -D(b, a), eu = D(a, b);
        if (b != a && (r.lo[b] - std::min(INF, r.hi[a]) < el)) s.nontrivial();
        if (exact) REQUIRE(lo == el && hi == eu, y.v[a].name << " to " << y.v[b].name << " is " << st(el, eu) << ", answered " << st(lo, hi));
        else REQUIRE(lo <= el && hi >= eu, y.v[a].name << " to " << y.v[b].name << " is " << st(el, eu) << ", answered " << st(lo, hi));
      };
      s.label(kind == 0 ? "distance" : kind == 1 ? "outer distance" : kind == 2 ? "distances" : "signs");
      if (kind < 2) {
        IntervalIntDomain d = ad->getTemporalDistanceDomain(y.v[a].id, ids[0], kind == 0);
        if (a != bs[0]) ok2(bs[0], un(d.getLowerBound()), un(d.getUpperBound()), kind == 0 && stn && used(a) && used(bs[0]));
      } else if (kind == 2) {
        std::vector<IntervalIntDomain> ds;
        ad->getTemporalDistanceDomains(y.v[a].id, ids, ds);
        REQUIRE(ds.size() == ids.size(), ds.size() << " answers to " << ids.size() << " questions");
        for (size_t i = 0; i < ds.size(); i++) if (bs[i] != a) ok2(bs[i], un(ds[i].getLowerBound()), un(ds[i].getUpperBound()), used(a) && used(bs[i]));
      } else {
        std::vector<eint> lb, ub;
        ad->getTemporalDistanceSigns(y.v[a].id, ids, lb, ub);
        REQUIRE(lb.size() == ids.size() && ub.size() == ids.size(), lb.size() << " answers to " << ids.size() << " questions");
        auto sg = [](long v) { return v < 0 ? -1 : v > 0 ? 1 : 0; };
        for (size_t i = 0; i < lb.size(); i++) {
          long el = D(bs[i], a) >= INF ? -INF : -D(bs[i], a), eu = D(a, bs[i]);
          if (used(a) && used(bs[i])) REQUIRE(sg(un(lb[i])) == sg(el) && sg(un(ub[i])) == sg(eu), y.v[a].name << " to " << y.v[bs[i]].name << " is " << st(el, eu) << ", signs " << sg(un(lb[i])) << " " << sg(un(ub[i])));
        }
      }
    }
    }
    if (stn) compare(y, r, solve(y, 1));
  }
}
void t04stn(Src& s) { t04(s, true, false); }
void t04points(Src& s) { t04(s, true, true); }
void t04def(Src& s) { t04(s, false, false); }
}
PBT_PROP("T03", "histories", t03, 250000, 40, 1000);
PBT_PROP("T04", "advisor", t04stn, 150000, 40, 500);
PBT_PROP("T04", "points", t04points, 100000, 40, 500);
PBT_PROP("T04", "default_advisor", t04def, 80000, 40, 500);
