// P01, P02, P03: token life cycle, merging and compatible-token queries against a reference plan.
#include "pbt.hh"
#include "Engine.hh"
#include "ModuleConstraintEngine.hh"
#include "ModulePlanDatabase.hh"
#include "ModuleRulesEngine.hh"
#include "ModuleTemporalNetwork.hh"
#include "ConstraintEngine.hh"
#include "CESchema.hh"
#include "PlanDatabase.hh"
#include "PlanDatabaseListener.hh"
#include "DbClient.hh"
#include "Schema.hh"
#include "Object.hh"
#include "IntervalToken.hh"
#include "TokenVariable.hh"
#include "Constraints.hh"
#include "Variable.hh"
#include "Domains.hh"
#include "Error.hh"
#include "PSList.hh"
#include <boost/cast.hpp>
#include <algorithm>
#include <memory>
#include <cstdlib>
using namespace pbt;
using namespace EUROPA;

PBT_RULE("P01", "histories of creating tokens (rejectable or not, facts, subgoals of active tokens), activating, merging, rejecting, cancelling, "
         "terminating, deleting and archiving them, with transitions that are not legal tried in between; state queries, token sets, relations and "
         "announced events are compared with a reference state machine after each; non-trivial when one change cascaded to other tokens",
         {"a subgoal that other tokens are merged onto outlives its master and is removed with the last token merged onto it, as the interface says of tokens that are not committed",
          "committing a token is not exercised: the operation is private and nothing calls it"});
PBT_RULE("P02", "histories of creating, activating, merging, cancelling and deleting tokens with seven parameters each, posting and removing constraints among their "
         "variables and free ones, specifying, resetting and restricting; every unmerged token is compared with fresh variables that carry the restrictions of "
         "the tokens merged onto them; non-trivial when tokens were separated again while constrained or specified",
         {"tokens are merged only when the current domains of corresponding variables intersect (the operation requires it)",
          "while the plan is inconsistent only the verdict is compared and only changes that remove something are made"});
PBT_RULE("P03", "the same histories with text parameters and open domains; queries with random limits are compared with the active tokens of fitting predicate, "
         "the pairwise intersections of domains, and with merging in a freshly built plan; non-trivial when some tokens were listed and others were not",
         {});

namespace {
typedef std::string S;
const char* VN[] = {"state", "object", "duration", "start", "end", "x", "y", "r", "s"};
enum { STATE, OBJ, DUR, START, END, X, Y, R, STR };
struct TokEngine : EngineBase {
  explicit TokEngine(bool stn) {
    addModule((new ModuleConstraintEngine())->getId());
    addModule((new ModuleConstraintLibrary())->getId());
    addModule((new ModulePlanDatabase())->getId());
    if (stn) { addModule((new ModuleRulesEngine())->getId()); addModule((new ModuleTemporalNetwork())->getId()); }
    doStart();
    if (!stn) {
      CESchema* ces = boost::polymorphic_cast<CESchema*>(getComponent("CESchema"));
      REGISTER_SYSTEM_CONSTRAINT(ces, AddEqualConstraint, "temporalDistance", "Default");
      REGISTER_SYSTEM_CONSTRAINT(ces, EqualConstraint, "concurrent", "Default");
      REGISTER_SYSTEM_CONSTRAINT(ces, LessThanEqualConstraint, "precedes", "Default");
    }
  }
  ~TokEngine() { doShutdown(); }
  Schema& schema() { return *boost::polymorphic_cast<Schema*>(getComponent("Schema")); }
  ConstraintEngine& ce() { return *boost::polymorphic_cast<ConstraintEngine*>(getComponent("ConstraintEngine")); }
  PlanDatabase& db() { return *boost::polymorphic_cast<PlanDatabase*>(getComponent("PlanDatabase")); }
};
struct FreshEngine : EngineBase {
  FreshEngine() {
    addModule((new ModuleConstraintEngine())->getId());
    addModule((new ModuleConstraintLibrary())->getId());
    doStart();
    CESchema* ces = boost::polymorphic_cast<CESchema*>(getComponent("CESchema"));
    REGISTER_SYSTEM_CONSTRAINT(ces, AddEqualConstraint, "temporalDistance", "Default");
    REGISTER_SYSTEM_CONSTRAINT(ces, EqualConstraint, "concurrent", "Default");
    REGISTER_SYSTEM_CONSTRAINT(ces, LessThanEqualConstraint, "precedes", "Default");
  }
  ~FreshEngine() { doShutdown(); }
  ConstraintEngine& ce() { return *boost::polymorphic_cast<ConstraintEngine*>(getComponent("ConstraintEngine")); }
};
struct Params { IntervalIntDomain start, end, dur; std::shared_ptr<Domain> d[9]; };
template <class B> struct Tok : B {
  template <class A1, class A2, class... More> Tok(const Params& p, bool str, A1 a1, A2 a2, More... rest) : B(a1, a2, rest..., p.start, p.end, p.dur, Token::noObject(), false) {
    this->addParameter(static_cast<IntervalIntDomain&>(*p.d[X]), "x");
    this->addParameter(static_cast<EnumeratedDomain&>(*p.d[Y]), "y");
    this->addParameter(static_cast<IntervalDomain&>(*p.d[R]), "r");
    if (str) this->addParameter(static_cast<StringDomain&>(*p.d[STR]), "s");
    this->close();
  }
};
enum St { INACTIVE, ACTIVE, MERGED, REJECTED };
struct MV { std::shared_ptr<Domain> base; bool spec = false; edouble val; ConstrainedVariableId id; };
struct MT { TokenId id; long key = 0; S pred; bool rejectable = false, fact = false; St st = INACTIVE; int master = -1; S rel = "none"; std::set<int> slaves, merged; int onto = -1;
  bool committed = false, live = true, orphan = false; int ref = 1; std::vector<MV> v; };
struct MC { ConstraintId id; S name; std::vector<std::pair<int, int>> sc; };
struct Rec : PlanDatabaseListener {
  std::vector<S> ev;
  explicit Rec(PlanDatabaseId db) : PlanDatabaseListener(db) {}
  void put(const char* k, TokenId t) { ev.push_back(S(k) + std::to_string(cast_long(t->getKey()))); }
  void notifyAdded(const TokenId t) { put("add ", t); }
  void notifyRemoved(const TokenId t) { put("remove ", t); }
  void notifyActivated(const TokenId t) { put("activate ", t); }
  void notifyDeactivated(const TokenId t) { put("deactivate ", t); }
  void notifyMerged(const TokenId t) { put("merge ", t); }
  void notifySplit(const TokenId t) { put("split ", t); }
  void notifyRejected(const TokenId t) { put("reject ", t); }
  void notifyReinstated(const TokenId t) { put("reinstate ", t); }
  void notifyCommitted(const TokenId t) { put("commit ", t); }
  void notifyTerminated(const TokenId t) { put("terminate ", t); }
  using PlanDatabaseListener::notifyAdded;
  using PlanDatabaseListener::notifyRemoved;
};
S show(const Domain& d) {
  if (d.isEmpty()) return d.isOpen() ? "open {}" : "empty";
  std::ostringstream o;
  if (d.isInterval()) { o << "[" << d.getLowerBound() << " " << d.getUpperBound() << "]"; return o.str(); }
  std::list<edouble> l; d.getValues(l); std::set<edouble> v(l.begin(), l.end());
  if (v.size() == 1 && d.isClosed()) { o << "[" << *v.begin() << " " << *v.begin() << "]"; return o.str(); }
  o << (d.isOpen() ? "open { " : "{ "); for (edouble x : v) o << x << " "; return o.str() + "}";
}
struct Plan {
  TokEngine en; bool stn, str; std::vector<MT> t; std::vector<MC> c; std::vector<MV> fr; std::map<long, int> byKey; std::vector<S> ev; Rec* rec = nullptr; bool ok = true; bool sep = false;
  Plan(bool n, bool str) : en(n), stn(n), str(str) {}
  bool isA(const S& a, const S& b) { return a == b || (b == "A.p" && (a == "B.p" || a == "C.p")) || (b == "B.p" && a == "C.p") || (b == "A.q" && (a == "B.q" || a == "C.q")) || (b == "B.q" && a == "C.q"); }
  std::vector<int> live(std::function<bool(const MT&)> f = [](const MT&) { return true; }) { std::vector<int> r; for (size_t i = 0; i < t.size(); i++) if (t[i].live && f(t[i])) r.push_back((int)i); return r; }
  S nm(int i) const { return "t" + std::to_string(i); }
  S nm(std::pair<int, int> v) const { return v.first < 0 ? "f" + std::to_string(v.second) : nm(v.first) + "." + VN[v.second]; }
  MV& var(std::pair<int, int> v) { return v.first < 0 ? fr[(size_t)v.second] : t[(size_t)v.first].v[(size_t)v.second]; }
  void e(const S& k, int i) { ev.push_back(k + " " + std::to_string(t[(size_t)i].key)); }
  // reference transitions
  void erased(int i) {
    MT& x = t[(size_t)i]; x.live = false; byKey.erase(x.key);
    for (size_t k = 0; k < c.size();) { bool hit = false; for (auto& p : c[k].sc) hit |= p.first == i; if (hit) { doomed.push_back(c[k].id); c.erase(c.begin() + (long)k); } else k++; }
  }
  void split(int i) {
    MT& x = t[(size_t)i]; int a = x.onto; x.st = INACTIVE; x.onto = -1; e("split", i); sep = true;
    t[(size_t)a].merged.erase(i); t[(size_t)a].ref--;
    if (t[(size_t)a].ref == 0 && !deleting.count(a) && !cancelling.count(a)) del(a);
  }
  std::vector<ConstraintId> doomed;
  void clear() { for (ConstraintId k : doomed) delete static_cast<Constraint*>(k); doomed.clear(); }  // constraints go before the variables they are on
  std::set<int> deleting, cancelling;
  void cancel(int i) {
    MT& x = t[(size_t)i];
    if (x.st == MERGED) return split(i);
    if (x.st == REJECTED) { x.st = INACTIVE; e("reinstate", i); return; }
    if (x.committed && !deleting.count(i)) return;
    cancelling.insert(i);
    while (!x.merged.empty()) split(*x.merged.begin());
    cancelling.erase(i);
    x.st = INACTIVE; e("deactivate", i);
    while (!t[(size_t)i].slaves.empty()) {
      int s = *t[(size_t)i].slaves.begin(); t[(size_t)i].slaves.erase(s); MT& y = t[(size_t)s]; y.master = -1;
      if (y.ref == 1) { if (terminated.count(i)) { terminated.insert(s); e("terminate", s); } else y.ref--; if (!deleting.count(s)) del(s); } else { y.ref--; y.orphan = true; }
    }
  }
  std::set<int> terminated;
  void del(int i) {
    deleting.insert(i);
    if (t[(size_t)i].committed) t[(size_t)i].ref--;
    if (t[(size_t)i].st != INACTIVE) cancel(i);
    e("remove", i);
    if (t[(size_t)i].master >= 0) t[(size_t)t[(size_t)i].master].slaves.erase(i);
    erased(i); deleting.erase(i);
  }
};
St state(TokenId t) { int n = t->isInactive() + t->isActive() + t->isMerged() + t->isRejected(); REQUIRE(n == 1, t->toString() << " is in " << n << " states at once");
  return t->isInactive() ? INACTIVE : t->isActive() ? ACTIVE : t->isMerged() ? MERGED : REJECTED; }
const char* SN[] = {"inactive", "active", "merged", "rejected"};
void checkLife(Src& s, Plan& y) {
  PlanDatabase& db = y.en.db();
  std::sort(y.ev.begin(), y.ev.end());
  std::vector<S> got = y.rec->ev; std::sort(got.begin(), got.end());
  auto join = [](const std::vector<S>& v) { S r; for (auto& x : v) r += x + ", "; return r; };
  REQUIRE(got == y.ev, "announced: " << join(got) << " instead of: " << join(y.ev));
  y.ev.clear(); y.rec->ev.clear();
  std::set<long> a, b; for (TokenId x : db.getTokens()) a.insert((long)cast_long(x->getKey()));
  for (int i : y.live()) b.insert(y.t[(size_t)i].key);
  REQUIRE(a == b, "the plan has " << a.size() << " tokens instead of " << b.size());
  for (int i : y.live()) {
    MT& x = y.t[(size_t)i]; St st = state(x.id);
    REQUIRE(st == x.st, y.nm(i) << " is " << SN[st] << " instead of " << SN[x.st]);
    PSTokenState ps = x.id->getTokenState();
    REQUIRE(ps == (x.st == ACTIVE ? EUROPA::ACTIVE : x.st == INACTIVE ? EUROPA::INACTIVE : x.st == MERGED ? EUROPA::MERGED : EUROPA::REJECTED), y.nm(i) << " getTokenState");
    REQUIRE(!x.id->isIncomplete() && x.id->isCommitted() == x.committed && !x.id->isDeleted() && !x.id->isTerminated(), y.nm(i) << " committed, deleted or terminated flag");
    REQUIRE(x.id->canBeCommitted() == (x.st == ACTIVE && !x.committed), y.nm(i) << " canBeCommitted is " << x.id->canBeCommitted());
    const StateDomain& sd = static_cast<const StateDomain&>(x.id->getState()->lastDomain());
    bool m[3] = {sd.isMember(Token::ACTIVE), sd.isMember(Token::MERGED), sd.isMember(Token::REJECTED)};
    bool e[3] = {x.st == ACTIVE || (x.st == INACTIVE), x.st == MERGED || (x.st == INACTIVE && !x.committed), x.st == REJECTED || (x.st == INACTIVE && x.rejectable && !x.committed)};
    REQUIRE(m[0] == e[0] && m[1] == e[1] && m[2] == e[2], "state variable of " << y.nm(i) << ": " << x.id->getState()->toString());
    auto keys = [](const TokenSet& z) { std::set<long> r; for (TokenId k : z) r.insert((long)cast_long(k->getKey())); return r; };
    auto mk = [&](const std::set<int>& z) { std::set<long> r; for (int k : z) r.insert(y.t[(size_t)k].key); return r; };
    REQUIRE(keys(x.id->slaves()) == mk(x.slaves), y.nm(i) << " has " << x.id->slaves().size() << " subgoals instead of " << x.slaves.size());
    REQUIRE(keys(x.id->getMergedTokens()) == mk(x.merged), y.nm(i) << " has " << x.id->getMergedTokens().size() << " merged tokens instead of " << x.merged.size());
    REQUIRE(x.id->getMerged().size() == (int)x.merged.size() && x.id->getSlaves().size() == (int)x.slaves.size(), y.nm(i) << " lists of slaves or merged tokens");
    REQUIRE(x.id->master() == (x.master >= 0 ? y.t[(size_t)x.master].id : TokenId::noId()), y.nm(i) << " has the wrong master");
    REQUIRE(x.id->getActiveToken() == (x.onto >= 0 ? y.t[(size_t)x.onto].id : TokenId::noId()), y.nm(i) << " has the wrong active token");
    REQUIRE(x.master < 0 || x.id->getRelation() == x.rel, y.nm(i) << " relation");
    REQUIRE(x.id->isFact() == x.fact && x.id->getPredicateName() == x.pred, y.nm(i) << " fact or predicate");
    int pos = 0; for (TokenId z : x.id->slaves()) { REQUIRE(x.id->getSlave((unsigned)pos) == z && x.id->getSlavePosition(z) == pos, "slave position"); pos++; }
  }
  for (S p : {"A.p", "B.p", "C.p", "A.q", "B.q", "C.q"}) {
    std::set<long> g, w; for (TokenId x : db.getActiveTokens(p)) { REQUIRE(x.isValid(), "invalid token among the active ones of " << p); g.insert((long)cast_long(x->getKey())); }
    for (int i : y.live()) if (y.t[(size_t)i].st == ACTIVE && y.isA(y.t[(size_t)i].pred, p)) w.insert(y.t[(size_t)i].key);
    REQUIRE(g == w, "active tokens of " << p << ": " << g.size() << " instead of " << w.size());
  }
}
// a fresh engine with the same restrictions; false when inconsistent. merge: token asIf merged onto token
bool fresh(Plan& y, std::map<std::pair<int, int>, S>& dom, int asIf = -1, int onto = -1) {
  FreshEngine f; f.ce().setAutoPropagation(false);
  std::map<std::pair<int, int>, ConstrainedVariableId> v;
  auto target = [&](int i) { return i < 0 ? i : i == asIf ? onto : y.t[(size_t)i].st == MERGED ? y.t[(size_t)i].onto : i; };
  auto make = [&](std::pair<int, int> k, const Domain& d) {
    if (d.isInterval() && d.minDelta() == edouble(1)) v[k] = (new Variable<IntervalIntDomain>(f.ce().getId(), d, false, true, y.nm(k)))->getId();
    else if (d.isInterval()) v[k] = (new Variable<IntervalDomain>(f.ce().getId(), d, false, true, y.nm(k)))->getId();
    else if (d.isString()) v[k] = (new Variable<StringDomain>(f.ce().getId(), d, false, true, y.nm(k)))->getId();
    else v[k] = (new Variable<EnumeratedDomain>(f.ce().getId(), d, false, true, y.nm(k)))->getId();
  };
  bool bad = false;
  for (size_t i = 0; i < y.fr.size(); i++) make({-1, (int)i}, *y.fr[i].base);
  for (int i : y.live()) {
    if (target(i) != i) continue;
    for (size_t k = 1; k < y.t[(size_t)i].v.size(); k++) {
      std::unique_ptr<Domain> d(y.t[(size_t)i].v[k].base->copy());
      for (int j : y.live()) if (j != i && target(j) == i) { const Domain& o = *y.t[(size_t)j].v[k].base; if (d->isOpen() && o.isClosed()) { Domain* c = o.copy(); d.reset(c); } else if (!(o.isOpen())) { d->intersect(o); if (d->isEmpty()) return false; } }
      if (d->isEmpty() && d->isClosed()) return false;
      if (k == OBJ) { std::list<edouble> l; d->getValues(l); EnumeratedDomain o(IntDT::instance()); for (edouble z : l) o.insert(z); o.close(); make({i, (int)k}, o); }
      else make({i, (int)k}, *d);
    }
  }
  auto spec = [&](std::pair<int, int> k, edouble val) {
    ConstrainedVariableId x = v[k];
    if (x->isSpecified() ? x->getSpecifiedValue() != val : !x->baseDomain().isMember(val)) bad = true; else if (!x->isSpecified()) x->specify(val);
  };
  for (size_t i = 0; i < y.fr.size(); i++) if (y.fr[i].spec) spec({-1, (int)i}, y.fr[i].val);
  for (int i : y.live()) for (size_t k = 1; k < y.t[(size_t)i].v.size(); k++) if (y.t[(size_t)i].v[k].spec) spec({target(i), (int)k}, y.t[(size_t)i].v[k].val);
  if (bad) return false;
  for (int i : y.live()) if (target(i) == i) { std::vector<ConstrainedVariableId> sc{v[{i, START}], v[{i, DUR}], v[{i, END}]}; f.ce().createConstraint("temporalDistance", sc); }
  for (auto& c : y.c) { std::vector<ConstrainedVariableId> sc; for (auto& p : c.sc) sc.push_back(v[{target(p.first), p.second}]); f.ce().createConstraint(c.name, sc); }
  if (!f.ce().propagate()) return false;
  for (auto& p : v) dom[p.first] = show(p.second->lastDomain());
  return true;
}
bool effSpec(Plan& y, int i, int k) { if (y.t[(size_t)i].v[(size_t)k].spec) return true; for (int m : y.t[(size_t)i].merged) if (y.t[(size_t)m].v[(size_t)k].spec) return true; return false; }
void checkDomains(Src& s, Plan& y, const S& after) {
  std::map<std::pair<int, int>, S> d;
  y.ok = y.en.ce().propagate();
  bool f = fresh(y, d);
  REQUIRE(y.ok == f, after << ": the plan is " << (y.ok ? "consistent" : "inconsistent") << " and one built from scratch is not");
  if (!y.ok) { s.label("inconsistent"); return; }
  for (auto& p : d) {
    if (y.stn && p.first.second == DUR && p.first.first >= 0) continue;
    S g = show(y.var(p.first).id->lastDomain());
    REQUIRE(g == p.second, after << ": " << y.nm(p.first) << " is " << g << " instead of " << p.second);
  }
  for (int i : y.live()) if (y.t[(size_t)i].st != MERGED) for (size_t k = 1; k < y.t[(size_t)i].v.size(); k++)
    REQUIRE(y.t[(size_t)i].v[k].id->isSpecified() == effSpec(y, i, (int)k), after << ": " << y.nm({i, (int)k}) << (effSpec(y, i, (int)k) ? " is not specified" : " is specified"));
  for (int i : y.live()) for (size_t k = 1; k < y.t[(size_t)i].v.size(); k++)
    REQUIRE(show(y.t[(size_t)i].v[k].id->baseDomain()) == show(*y.t[(size_t)i].v[k].base), after << ": base domain of " << y.nm({i, (int)k}) << " is " << show(y.t[(size_t)i].v[k].id->baseDomain()));
}
bool meet(const Domain& a, const Domain& b) {
  if (a.isOpen() && b.isOpen()) return true;
  auto has = [](const Domain& d, edouble v) { if (d.isOpen()) return true; if (d.isInterval()) return d.getLowerBound() <= v && v <= d.getUpperBound(); std::list<edouble> l; d.getValues(l); return std::find(l.begin(), l.end(), v) != l.end(); };
  if (a.isInterval() && b.isInterval()) return std::max(a.getLowerBound(), b.getLowerBound()) <= std::min(a.getUpperBound(), b.getUpperBound());
  const Domain& e = (!a.isInterval() && a.isClosed()) ? a : b; const Domain& o = &e == &a ? b : a;
  std::list<edouble> l; e.getValues(l); for (edouble v : l) if (has(o, v)) return true;
  return false;
}
bool mergeable(Plan& y, int i, int a) {
  MT &p = y.t[(size_t)i], &q = y.t[(size_t)a];
  if (!y.isA(q.pred, p.pred)) return false;
  for (size_t k = 1; k < p.v.size(); k++) {
    if (!meet(p.v[k].id->lastDomain(), q.v[k].id->lastDomain())) return false;
  }
  return true;
}
void checkCompat(Src& s, Plan& y) {
  if (!y.ok) return;
  PlanDatabase& db = y.en.db();
  std::vector<int> in = y.live([](const MT& x) { return x.st == INACTIVE; });
  if (in.empty()) return;
  int i = s.pick(in); MT& x = y.t[(size_t)i];
  std::set<int> want; bool other = false;
  for (int a : y.live([](const MT& z) { return z.st == ACTIVE; })) {
    if (!y.isA(y.t[(size_t)a].pred, x.pred)) continue;
    bool all = true; for (size_t k = 1; k < x.v.size(); k++) all &= meet(x.v[k].id->lastDomain(), y.t[(size_t)a].v[k].id->lastDomain());
    if (all) want.insert(a); else other = true;
  }
  for (int exact = 0; exact < 2; exact++) {
    std::vector<TokenId> r; S q = "compatible tokens of " + y.nm(i) + (exact ? " (exact)" : "");
    db.getCompatibleTokens(x.id, r, std::numeric_limits<unsigned int>::max(), exact);
    std::set<int> got; for (TokenId z : r) { REQUIRE(y.byKey.count((long)cast_long(z->getKey())), q << ": unknown token"); got.insert(y.byKey[(long)cast_long(z->getKey())]); }
    REQUIRE(got.size() == r.size(), q << ": one is listed twice");
    for (int g : got) REQUIRE(want.count(g), q << ": " << y.nm(g) << " is listed but cannot be merged onto");
    if (!exact || !y.stn) REQUIRE(got == want, q << ": " << got.size() << " listed instead of " << want.size());
    for (int a : y.live([](const MT& z) { return z.st == ACTIVE; })) if (!got.count(a) && y.isA(y.t[(size_t)a].pred, x.pred)) {
      std::map<std::pair<int, int>, S> d;
      REQUIRE(!fresh(y, d, i, a), q << ": " << y.nm(a) << " is not listed although merging onto it is consistent");
      s.label("unlisted and inconsistent");
    }
    unsigned lim = (unsigned)s.draw(1, 4);
    std::vector<TokenId> l; db.getCompatibleTokens(x.id, l, lim, exact);
    REQUIRE(l.size() == std::min<size_t>(lim, r.size()), q << " with limit " << lim << ": " << l.size() << " of " << r.size());
    for (TokenId z : l) REQUIRE(std::find(r.begin(), r.end(), z) != r.end(), q << " with a limit lists others");
    REQUIRE(db.countCompatibleTokens(x.id, lim, exact) == l.size(), q << ": count with limit " << lim << " is " << db.countCompatibleTokens(x.id, lim, exact));
    REQUIRE(x.id->getCompatibleTokens(lim, exact).size() == (int)l.size(), q << ": list of the token with limit " << lim);
    if (!exact) { REQUIRE(db.hasCompatibleTokens(x.id) == !want.empty(), q << ": hasCompatibleTokens"); std::vector<TokenId> dflt; db.getCompatibleTokens(x.id, dflt); REQUIRE(dflt == r, q << ": without a limit"); }
  }
  if (!want.empty()) s.label("some compatible"); if (!want.empty() && other) s.nontrivial();
}
std::shared_ptr<Domain> iv(long a, long b) { return std::make_shared<IntervalIntDomain>(eint(a), eint(b)); }
std::shared_ptr<Domain> en(std::vector<double> v) { auto d = std::make_shared<EnumeratedDomain>(IntDT::instance()); for (double x : v) d->insert(edouble(x)); d->close(); return d; }
template <int MODE> void run(Src& s) {  // 1: life cycle, 2: merging, 3: queries
  static std::string keep = "x";
  bool stn = s.chance(1, 3);
  Plan y(stn, MODE != 1 && s.flip());
  unsetenv("EUROPA_USE_STACK_METHOD");
  const bool loose = MODE != 1 && s.chance(3, 4); const int fam = MODE == 1 ? 2 : (int)s.draw(0, 3);
  PlanDatabase& db = y.en.db(); Schema& sc = y.en.schema();
  if (MODE != 1 || s.flip()) y.en.ce().setAutoPropagation(false);
  sc.addObjectType("A"); sc.addObjectType("B", "A"); sc.addObjectType("C", "B");
  for (S p : {"A.p", "A.q"}) { sc.addPredicate(p); sc.addMember(p, "int", "x"); sc.addMember(p, "int", "y"); sc.addMember(p, "float", "r"); sc.addMember(p, "string", "s"); }
  int no = 0; for (S t : {"A", "B", "C"}) for (long k = s.draw(1, 2); k > 0; k--) { (new Object(db.getId(), t, "o" + std::to_string(no++))); }
  db.close();
  y.rec = new Rec(db.getId());
  if (MODE != 1) for (int i = 0; i < 2; i++) { MV f; f.base = iv(0, s.draw(1, 9)); f.id = (new Variable<IntervalIntDomain>(y.en.ce().getId(), *f.base, false, true, "f"))->getId(); y.fr.push_back(f); }
  auto params = [&](Params& p) {
    bool wide = MODE == 1 || (loose ? s.chance(5, 6) : s.flip());
    long a = wide ? 0 : s.draw(0, 10), b = wide ? 20 : s.draw(a, 20), c = wide ? 1 : s.draw(1, 8), d = wide ? 30 : s.draw(c + 2, 30), e = wide ? 1 : s.draw(1, 3), g = wide ? 15 : s.draw(e + 2, 15);
    p.start = IntervalIntDomain(eint(a), eint(b)); p.end = IntervalIntDomain(eint(c), eint(d)); p.dur = IntervalIntDomain(eint(e), eint(g));
    p.d[START].reset(p.start.copy()); p.d[END].reset(p.end.copy()); p.d[DUR].reset(p.dur.copy());
    long xl = wide ? 0 : s.draw(0, 5), xh = wide ? 9 : s.draw(xl, 9); p.d[X] = iv(xl, xh);
    std::vector<double> ys; for (int i = 0; i < 5; i++) if (wide || s.chance(2, 3)) ys.push_back(i); if (ys.empty()) ys.push_back(2); p.d[Y] = en(ys);
    double rl = (double)s.draw(0, wide && loose ? 2 : 6) / 2, rh = rl + (double)s.draw(wide && loose ? 4 : 0, 9) / 2; p.d[R] = std::make_shared<IntervalDomain>(edouble(rl), edouble(rh));
    auto st = std::make_shared<StringDomain>(StringDT::instance()); for (const char* z : {"a", "b", "c"}) if ((wide && loose) || s.flip()) st->insert(LabelStr(z)); if (st->isEmpty() || !s.chance(1, 3)) { if (!st->isEmpty()) st->close(); } p.d[STR] = st;
  };
  auto enter = [&](TokenId id, const Params& p, const S& pred) -> MT& {
    y.t.emplace_back(); MT& x = y.t.back(); int i = (int)y.t.size() - 1;
    x.id = id; x.key = (long)cast_long(id->getKey()); x.pred = pred; y.byKey[x.key] = i;
    for (size_t k = 0; k < id->getVariables().size(); k++) { MV v; v.id = id->getVariables()[k]; if (k == OBJ) v.base.reset(v.id->baseDomain().copy()); else if (k > 0) v.base.reset(p.d[k]->copy()); x.v.push_back(v);
      if (k > 0) { REQUIRE(v.id->getName() == VN[k], "variable " << k << " is " << v.id->getName()); if (v.id->isSpecified()) { x.v.back().spec = true; x.v.back().val = v.id->getSpecifiedValue(); } } }
    y.e("add", i);
    return x;
  };
  auto after = [&](const S& what) {
    s.note() << what << "; ";
    if (MODE == 1) checkLife(s, y); else y.ev.clear(), y.rec->ev.clear();
    if (MODE == 2) checkDomains(s, y, what);
    if (MODE == 3) { y.ok = y.en.ce().propagate(); if (s.flip()) checkCompat(s, y); }
  };
  auto refuse = [&](const S& what, std::function<void()> f) { bool threw = false; try { f(); } catch (const Error&) { threw = true; } REQUIRE(threw, what << " was not refused"); s.label("refused"); after("refused " + what); };
  long n = s.draw(3, MODE == 1 ? 40 : 30); const long lead = MODE == 1 ? 0 : s.draw(0, 5); int inconsistentFor = 0;
  for (long step = 0; step < n; step++) {
    bool ok = MODE == 1 || y.ok;
    if (!ok && ++inconsistentFor > 6) break;
    long op = (long)s.weighted({6, 6, MODE == 1 ? 6 : 9, MODE == 1 ? 2 : 1, MODE == 1 ? 5 : 4, MODE == 1 ? 4 : 2, MODE == 1 ? 5 : 1, 0, MODE == 1 ? 1 : 0, MODE == 1 ? 0 : 7, MODE == 1 ? 0 : 3, MODE == 1 ? 0 : 4, MODE == 1 ? 0 : 4, MODE == 1 ? 0 : 2, MODE == 1 ? 3 : 0});
    if (ok && step < lead + 2) op = step < lead ? 0 : 1;
    if (!ok && op != 4 && op != 5 && op != 10 && op != 12) op = s.oneof({4, 5, 10, 12});
    switch (op) {
      case 0: case 6: {
        S p = s.oneof({"A.p", "A.p", "B.p", "C.p", "A.q", "B.q", "C.q"}); if (fam < 2) p[2] = fam ? 'q' : 'p'; Params q; params(q);
        std::vector<int> act = y.live([](const MT& x) { return x.st == ACTIVE; });
        if (op == 6 && act.empty()) break;
        if (op == 6) {
          int m = s.pick(act); S rel = s.oneof({"after", "any", "before"});
          Token* k = new Tok<IntervalToken>(q, y.str, y.t[(size_t)m].id, rel, p);
          MT& x = enter(k->getId(), q, p); x.master = m; x.rel = rel; y.t[(size_t)m].slaves.insert((int)y.t.size() - 1);
          s.label("subgoal"); after(y.nm((int)y.t.size() - 1) + " subgoal " + p + " of " + y.nm(m));
        } else {
          bool rej = s.flip(), fact = s.chance(1, 5);
          Token* k = new Tok<IntervalToken>(q, y.str, db.getId(), p, rej, fact);
          MT& x = enter(k->getId(), q, p); x.rejectable = rej; x.fact = fact;
          s.label("token"); after(y.nm((int)y.t.size() - 1) + " new " + p);
        }
        break;
      }
      case 1: {
        std::vector<int> l = MODE == 1 ? y.live() : y.live([](const MT& z) { return z.st == INACTIVE; }); if (l.empty()) break; int i = s.pick(l); MT& x = y.t[(size_t)i];
        if (x.st != INACTIVE) { if (MODE == 1) refuse("activate " + y.nm(i), [&] { x.id->activate(); }); break; }
        if (s.flip()) x.id->activate(); else db.getClient()->activate(x.id);
        x.st = ACTIVE; y.e("activate", i); s.label("activate"); after("activate " + y.nm(i));
        break;
      }
      case 2: {
        std::vector<int> l = y.live(); if (l.size() < 2) break; int i = s.pick(l), a = s.pick(l);
        if (MODE != 1) {
          std::vector<std::pair<int, int>> can;
          for (int p : l) for (int q : l) if (y.t[(size_t)p].st == INACTIVE && y.t[(size_t)q].st == ACTIVE && mergeable(y, p, q)) can.push_back({p, q});
          if (can.empty()) break;
          std::tie(i, a) = s.pick(can);
        } else for (int k = 0; k < 4 && (y.t[(size_t)i].st != INACTIVE || y.t[(size_t)a].st != ACTIVE || !y.isA(y.t[(size_t)a].pred, y.t[(size_t)i].pred)); k++) { i = s.pick(l); a = s.pick(l); }
        MT &x = y.t[(size_t)i], &z = y.t[(size_t)a];
        if (x.st != INACTIVE || z.st != ACTIVE || !y.isA(z.pred, x.pred) || x.committed) { if (MODE == 1) refuse("merge " + y.nm(i) + " onto " + y.nm(a), [&] { x.id->doMerge(z.id); }); break; }
        if (!mergeable(y, i, a)) break;
        switch (s.draw(0, 2)) { case 0: x.id->doMerge(z.id); break; case 1: db.getClient()->merge(x.id, z.id); break; default: x.id->merge(id_cast<PSToken>(z.id)); }
        x.st = MERGED; x.onto = a; z.merged.insert(i); z.ref++; y.e("merge", i); s.label("merge"); after("merge " + y.nm(i) + " onto " + y.nm(a));
        break;
      }
      case 3: {
        std::vector<int> l = y.live(); if (l.empty()) break; int i = s.pick(l); MT& x = y.t[(size_t)i];
        if (x.st != INACTIVE || x.master >= 0 || !x.rejectable || x.committed) { if (MODE == 1) refuse("reject " + y.nm(i), [&] { x.id->reject(); }); break; }
        if (s.flip()) x.id->reject(); else db.getClient()->reject(x.id);
        x.st = REJECTED; y.e("reject", i); s.label("reject"); after("reject " + y.nm(i));
        break;
      }
      case 4: {
        std::vector<int> l = y.live(); if (l.empty()) break; int i = s.pick(l); MT& x = y.t[(size_t)i];
        if (MODE != 1) { l = y.live([](const MT& z) { return z.st == MERGED; }); if (!l.empty() && s.chance(2, 3)) i = s.pick(l); }
        MT& z = y.t[(size_t)i];
        if (z.st == INACTIVE) { if (MODE == 1) refuse("cancel " + y.nm(i), [&] { z.id->cancel(); }); break; }
        (void)x; bool cascade = !z.merged.empty() || !z.slaves.empty() || (z.onto >= 0 && y.t[(size_t)z.onto].ref == 1);
        TokenId id = z.id; S w = "cancel " + y.nm(i);
        y.sep = false; y.cancel(i); y.clear();
        if (s.flip()) id->cancel(); else db.getClient()->cancel(id);
        s.label("cancel"); if (cascade) { s.label("cancel with cascade"); if (MODE == 1) s.nontrivial(); } if (MODE == 2 && y.sep && !y.c.empty()) s.nontrivial();
        after(w);
        break;
      }
      case 5: {
        std::vector<int> l = y.live(); if (l.empty() || (MODE != 1 && s.flip())) break; int i = s.pick(l); MT& x = y.t[(size_t)i];
        TokenId id = x.id; bool cascade = !x.merged.empty() || !x.slaves.empty() || x.onto >= 0, client = x.st == INACTIVE && s.flip();
        S w = "delete " + y.nm(i); y.sep = false;
        y.del(i); y.clear();
        if (client) db.getClient()->deleteToken(id); else delete static_cast<Token*>(id);
        s.label("delete"); if (cascade) { s.label("delete with cascade"); if (MODE == 1) s.nontrivial(); } if (MODE == 2 && y.sep && !y.c.empty()) s.nontrivial();
        after(w);
        break;
      }
      case 8: {
        std::vector<int> l = y.live(); if (l.empty()) break; int i = s.pick(l); MT& x = y.t[(size_t)i];
        y.en.ce().propagate();
        if (x.st == MERGED || !x.id->canBeTerminated(PLUS_INFINITY)) break;
        REQUIRE(x.merged.empty(), y.nm(i) << " can be terminated while tokens are merged onto it");
        TokenId id = x.id; y.terminated.insert(i); y.e("terminate", i); if (!x.slaves.empty()) s.nontrivial();
        y.del(i); id->terminate(); delete static_cast<Token*>(id);
        s.label("terminate"); after("terminate and delete " + y.nm(i));
        break;
      }
      case 9: {
        std::vector<int> l = y.live(); if (l.empty()) break;
        auto pickV = [&](bool num) -> std::pair<int, int> { if (s.chance(1, 6)) return {-1, (int)s.idx(y.fr.size())}; int k = (int)s.weighted({0, num ? 0 : 1, y.stn ? 0 : 1, 2, 2, 3, 3}); return {s.pick(l), k}; };
        MC c; long w = s.draw(0, 4);
        auto kind = [&](std::pair<int, int> v) { return v.first < 0 ? 0 : v.second == OBJ ? 1 : v.second == START || v.second == END ? 2 : 0; };
        std::pair<int, int> a = pickV(w != 0), b = pickV(w != 0), d = pickV(true);
        if (w == 4) { a = {s.pick(l), s.oneof({START, END})}; b = {s.pick(l), s.oneof({START, END})}; }
        if (kind(a) == 1 || kind(b) == 1) { a.first = s.pick(l); b.first = s.pick(l); a.second = b.second = OBJ; w = 0; }
        if (w != 4 && kind(a) != 1 && s.flip() && l.size() > 1) b.second = a.first < 0 || b.first < 0 ? b.second : a.second;
        c.name = w == 0 || w == 1 ? "eq" : w == 2 ? "leq" : w == 3 ? "addEq" : s.oneof({"precedes", "concurrent"});
        c.sc = {a, b}; if (w == 3) c.sc.push_back(d);
        if (w == 3) { auto num = [&](std::pair<int, int>& v) { if (v.first >= 0 && (v.second == Y || v.second == R)) v.second = X; }; num(a); num(b); num(d); }  // confluent over integer intervals
        c.sc = {a, b}; if (w == 3) c.sc.push_back(d);
        bool same = false; for (size_t p = 0; p < c.sc.size(); p++) for (size_t q = 0; q < p; q++) same |= c.sc[p] == c.sc[q];
        if (same) break;
        std::vector<ConstrainedVariableId> scope; S nm; for (auto& p : c.sc) { scope.push_back(y.var(p).id); nm += y.nm(p) + " "; }
        c.id = y.en.ce().createConstraint(c.name, scope); y.c.push_back(c);
        s.label("constraint"); after(c.name + " " + nm);
        break;
      }
      case 10: {
        if (y.c.empty()) break; size_t i = s.idx(y.c.size()); S nm = "remove " + y.c[i].name + " "; for (auto& p : y.c[i].sc) nm += y.nm(p) + " ";
        ConstraintId id = y.c[i].id; y.c.erase(y.c.begin() + (long)i);
        delete static_cast<Constraint*>(id); s.label("remove constraint"); after(nm);
        break;
      }
      case 11: {
        std::vector<int> l = y.live([](const MT& x) { return x.st != MERGED; }); std::pair<int, int> v; if (l.empty() || s.chance(1, 8)) v = {-1, (int)s.idx(y.fr.size())}; else { int i = s.pick(l); v = {i, (int)s.draw(1, (long)y.t[(size_t)i].v.size() - 1)}; }
        MV& m = y.var(v); const Domain& d = m.id->lastDomain(); if (d.isOpen() || d.isEmpty()) break;
        edouble val; if (d.isInterval()) { double lo = cast_double(d.getLowerBound()), hi = cast_double(d.getUpperBound()); val = edouble(lo + (double)s.draw(0, (long)((hi - lo) * (v.second == R && v.first >= 0 ? 2 : 1))) / (v.second == R && v.first >= 0 ? 2 : 1)); }
        else { std::list<edouble> l2; d.getValues(l2); std::vector<edouble> vals(l2.begin(), l2.end()); val = vals[s.idx(vals.size())]; }
        if (!d.isMember(val) || !m.base->isMember(val)) break;
        m.id->specify(val); m.spec = true; m.val = val; std::ostringstream o; o << y.nm(v) << " = " << val; s.label("specify"); after(o.str());
        break;
      }
      case 12: {
        std::vector<std::pair<int, int>> c; for (size_t i = 0; i < y.fr.size(); i++) if (y.fr[i].spec) c.push_back({-1, (int)i});
        for (int i : y.live()) for (size_t k = 1; k < y.t[(size_t)i].v.size(); k++) if (y.t[(size_t)i].v[k].spec && !(y.t[(size_t)i].v[k].base->isSingleton())) c.push_back({i, (int)k});
        if (c.empty()) break; std::pair<int, int> v = s.pick(c); y.var(v).spec = false; y.var(v).id->reset();
        s.label(v.first >= 0 && y.t[(size_t)v.first].st == MERGED ? "reset merged" : "reset"); after("reset " + y.nm(v));
        break;
      }
      case 13: {
        std::vector<int> l = y.live(); if (l.empty()) break; int i = s.pick(l); if (y.t[(size_t)i].st == MERGED) break; int k = (int)s.oneof({DUR, START, END, X, Y, R}); MV& m = y.t[(size_t)i].v[(size_t)k];
        if (m.id->lastDomain().isEmpty() || m.base->isOpen()) break;
        std::shared_ptr<Domain> d(m.base->copy());
        if (k == Y) { std::list<edouble> l2; m.base->getValues(l2); std::vector<edouble> vals(l2.begin(), l2.end()); if (vals.size() < 2) break; d->remove(vals[s.idx(vals.size())]); }
        else { double lo = cast_double(d->getLowerBound()), hi = cast_double(d->getUpperBound()); if (lo == hi) break; double g = k == R ? 2 : 1; long w = (long)((hi - lo) * g); long a = s.draw(0, w), b = s.draw(a, w); d->intersect(k == R ? (const Domain&)IntervalDomain(edouble(lo + a / g), edouble(lo + b / g)) : (const Domain&)IntervalIntDomain(eint((long)lo + a), eint((long)lo + b))); }
        if (m.spec && !d->isMember(m.val)) break;
        bool clash = false; for (int z : y.t[(size_t)i].merged) { const MV& o = y.t[(size_t)z].v[(size_t)k]; clash |= !meet(*d, *o.base) || (o.spec && !d->isMember(o.val)); }
        if (clash) break;
        if (y.t[(size_t)i].st == MERGED && !meet(*d, y.t[(size_t)y.t[(size_t)i].onto].v[(size_t)k].id->lastDomain())) break;
        m.id->restrictBaseDomain(*d); m.base = d; if (d->isSingleton()) { m.spec = true; m.val = d->getSingletonValue(); }
        s.label(y.t[(size_t)i].st == MERGED ? "restrict merged" : "restrict"); after("restrict " + y.nm({i, k}) + " to " + show(*d));
        break;
      }
      default: {
        if (!s.chance(1, 3)) break;
        y.en.ce().propagate(); if (!y.en.ce().constraintConsistent()) break;
        std::vector<std::pair<long, int>> go; long tick = s.draw(0, 40);
        size_t before = db.getTokens().size();
        for (int i : y.live()) { MT& x = y.t[(size_t)i]; if (x.st == MERGED) continue; if (x.id->end()->lastDomain().getUpperBound() <= edouble((double)tick) && x.id->canBeTerminated(eint(tick))) go.push_back({(long)cast_double(x.id->start()->lastDomain().getLowerBound()), i}); }
        std::stable_sort(go.begin(), go.end(), [](auto& p, auto& q) { return p.first < q.first; });
        for (auto& g : go) if (y.t[(size_t)g.second].live) { y.terminated.insert(g.second); y.e("terminate", g.second); y.del(g.second); }
        unsigned long r = db.archive(eint(tick));
        REQUIRE(r == before - y.live().size(), "archive at " << tick << " returned " << r); if (!go.empty()) { s.label("archive"); s.nontrivial(); }
        after("archive at " + std::to_string(tick));
      }
    }
  }
}
void life(Src& s) { run<1>(s); }
void merging(Src& s) { run<2>(s); }
void compat(Src& s) { run<3>(s); }
PBT_PROP("P01", "life_cycle", life, 60000, 30);
PBT_PROP("P02", "merging", merging, 30000, 30);
PBT_PROP("P03", "compatible", compat, 40000, 30);
}  // namespace
