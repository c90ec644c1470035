// P04: timelines against a reference list model and reference bounds.
#include "pbt.hh"
#include "Engine.hh"
#include "ModuleConstraintEngine.hh"
#include "ModulePlanDatabase.hh"
#include "ModuleRulesEngine.hh"
#include "ModuleTemporalNetwork.hh"
#include "ConstraintEngine.hh"
#include "CESchema.hh"
#include "PlanDatabase.hh"
#include "PlanDatabaseListener.hh"
#include "DbClient.hh"
#include "Schema.hh"
#include "Object.hh"
#include "Timeline.hh"
#include "IntervalToken.hh"
#include "TokenVariable.hh"
#include "Constraints.hh"
#include "Variable.hh"
#include "Domains.hh"
#include "Error.hh"
#include <boost/cast.hpp>
#include <algorithm>
#include <memory>
using namespace pbt;
using namespace EUROPA;

PBT_RULE("P04", "histories of creating, activating, cancelling and deleting tokens, ordering and freeing them on one to three timelines, posting and removing other "
         "orderings, specifying, resetting; after each change the sequences, the precedence constraints, the tokens to order, the ordering choices and every bound are "
         "compared with a list model and with bounds computed from scratch; non-trivial when a token left a sequence of at least three",
         {"a pair is ordered only as the interface allows: one of the two is sequenced already, or the sequence is empty, and not against the sequence",
          "when a token leaves the plan its former neighbours stay in the sequence, ordered with each other",
          "while the plan is inconsistent only sequences are compared and only changes that remove something are made"});

namespace {
typedef std::string S;
struct TlEngine : EngineBase {
  explicit TlEngine(bool stn) {
    addModule((new ModuleConstraintEngine())->getId());
    addModule((new ModuleConstraintLibrary())->getId());
    addModule((new ModulePlanDatabase())->getId());
    if (stn) { addModule((new ModuleRulesEngine())->getId()); addModule((new ModuleTemporalNetwork())->getId()); }
    doStart();
    if (!stn) {
      CESchema* ces = boost::polymorphic_cast<CESchema*>(getComponent("CESchema"));
      REGISTER_SYSTEM_CONSTRAINT(ces, AddEqualConstraint, "temporalDistance", "Default");
      REGISTER_SYSTEM_CONSTRAINT(ces, EqualConstraint, "concurrent", "Default");
      REGISTER_SYSTEM_CONSTRAINT(ces, LessThanEqualConstraint, "precedes", "Default");
    }
  }
  ~TlEngine() { doShutdown(); }
  Schema& schema() { return *boost::polymorphic_cast<Schema*>(getComponent("Schema")); }
  ConstraintEngine& ce() { return *boost::polymorphic_cast<ConstraintEngine*>(getComponent("ConstraintEngine")); }
  PlanDatabase& db() { return *boost::polymorphic_cast<PlanDatabase*>(getComponent("PlanDatabase")); }
};
struct R { long lo, hi; };
struct MT { TokenId id; bool live = true, active = false; unsigned objs; int objSpec = -1; R b[3]; bool spec[3] = {false, false, false}; long val[3]; };  // start, end, duration
struct MC { ConstraintId id; int a, ka, c, kc; };                                                                                                  // a.ka <= c.kc
struct TL { ObjectId id; Timeline* t; std::vector<int> seq; std::set<std::pair<int, int>> expl; };
struct Plan {
  TlEngine en; bool stn; std::vector<MT> t; std::vector<MC> c; std::vector<TL> tl; bool ok = true;
  explicit Plan(bool n) : en(n), stn(n) {}
  std::vector<int> live(std::function<bool(const MT&)> f = [](const MT&) { return true; }) { std::vector<int> r; for (size_t i = 0; i < t.size(); i++) if (t[i].live && f(t[i])) r.push_back((int)i); return r; }
  bool in(int l, int i) const { auto& q = tl[(size_t)l].seq; return std::find(q.begin(), q.end(), i) != q.end(); }
  int sequencedOn(int i) const { for (size_t l = 0; l < tl.size(); l++) if (in((int)l, i)) return (int)l; return -1; }
  bool required(int l, int i) const { for (auto& p : tl[(size_t)l].expl) if (p.first == i || p.second == i) return true; return false; }
  bool precedes(int l, int a, int b) { return tl[(size_t)l].t->isConstrainedToPrecede(t[(size_t)a].id, t[(size_t)b].id); }
  // bounds from scratch; extra: token put at a position of a timeline
  bool bounds(std::vector<std::array<R, 3>>& r, std::vector<unsigned>& objs, int xl = -1, int xt = -1, int pos = 0) {
    r.assign(t.size(), {}); objs.assign(t.size(), 0);
    std::vector<std::pair<std::pair<int, int>, std::pair<int, int>>> le;
    for (int i : live()) {
      MT& x = t[(size_t)i];
      for (int k = 0; k < 3; k++) { r[(size_t)i][(size_t)k] = x.b[k]; if (x.spec[k]) { R& q = r[(size_t)i][(size_t)k]; q.lo = std::max(q.lo, x.val[k]); q.hi = std::min(q.hi, x.val[k]); } }
      objs[(size_t)i] = x.objs; if (x.objSpec >= 0) objs[(size_t)i] &= 1u << x.objSpec;
    }
    for (size_t l = 0; l < tl.size(); l++) {
      std::vector<int> q = tl[l].seq; if (xl == (int)l) q.insert(q.begin() + pos, xt);
      for (size_t i = 0; i < q.size(); i++) { objs[(size_t)q[i]] &= 1u << l; if (i) le.push_back({{q[i - 1], 1}, {q[i], 0}}); }
    }
    for (auto& k : c) le.push_back({{k.a, k.ka}, {k.c, k.kc}});
    for (int i : live()) if (!objs[(size_t)i]) return false;
    for (bool more = true; more;) {
      more = false;
      auto lo = [&](int i, int k, long v) { R& q = r[(size_t)i][(size_t)k]; if (q.lo < v) { q.lo = v; more = true; } };
      auto hi = [&](int i, int k, long v) { R& q = r[(size_t)i][(size_t)k]; if (q.hi > v) { q.hi = v; more = true; } };
      for (int i : live()) {
        auto& q = r[(size_t)i];
        lo(i, 1, q[0].lo + q[2].lo); hi(i, 1, q[0].hi + q[2].hi); lo(i, 0, q[1].lo - q[2].hi); hi(i, 0, q[1].hi - q[2].lo);
        lo(i, 2, q[1].lo - q[0].hi); hi(i, 2, q[1].hi - q[0].lo);
        for (int k = 0; k < 3; k++) if (q[(size_t)k].lo > q[(size_t)k].hi) return false;
      }
      for (auto& p : le) { lo(p.second.first, p.second.second, r[(size_t)p.first.first][(size_t)p.first.second].lo); hi(p.first.first, p.first.second, r[(size_t)p.second.first][(size_t)p.second.second].hi); }
      for (int i : live()) for (int k = 0; k < 3; k++) if (r[(size_t)i][(size_t)k].lo > r[(size_t)i][(size_t)k].hi) return false;
    }
    return true;
  }
  void leave(int i) {  // token no longer active
    for (size_t l = 0; l < tl.size(); l++) {
      if (!in((int)l, i)) continue;
      auto& q = tl[l].seq; size_t p = (size_t)(std::find(q.begin(), q.end(), i) - q.begin());
      for (auto k = tl[l].expl.begin(); k != tl[l].expl.end();) if (k->first == i || k->second == i) k = tl[l].expl.erase(k); else ++k;
      if (p > 0 && p + 1 < q.size() && !precedes((int)l, q[p - 1], q[p + 1])) tl[l].expl.insert({q[p - 1], q[p + 1]});
      q.erase(q.begin() + (long)p);
    }
  }
};
S nm(int i) { return "t" + std::to_string(i); }
const char* KN[] = {"start", "end", "duration"};
std::vector<TimeVarId> vars(const MT& x) { return {x.id->start(), x.id->end(), TimeVarId(x.id->duration())}; }
void check(Src& s, Plan& y, const S& after) {
  PlanDatabase& db = y.en.db();
  std::map<TokenId, int> who; for (int i : y.live()) who[y.t[(size_t)i].id] = i;
  for (size_t l = 0; l < y.tl.size(); l++) {
    TL& T = y.tl[l]; std::vector<int> got; std::ostringstream o;
    for (TokenId k : T.t->getTokenSequence()) { REQUIRE(k.isValid() && who.count(k), after << ": unknown token in the sequence"); got.push_back(who[k]); o << nm(got.back()) << " "; }
    o << "instead of "; for (int i : T.seq) o << nm(i) << " ";
    REQUIRE(got == T.seq, after << ": the sequence of timeline " << l << " is " << o.str());
    for (int a : y.live()) {
      REQUIRE(T.t->hasToken(y.t[(size_t)a].id) == y.in((int)l, a), after << ": hasToken(" << nm(a) << ")");
      std::set<int> adj;
      for (int b : y.live()) if (a != b && y.precedes((int)l, a, b)) {
        auto pa = std::find(T.seq.begin(), T.seq.end(), a), pb = std::find(T.seq.begin(), T.seq.end(), b);
        REQUIRE(pa != T.seq.end() && pb != T.seq.end() && pa < pb, after << ": " << nm(a) << " is constrained to precede " << nm(b) << " against the sequence of timeline " << l);
      }
    }
    for (size_t p = 1; p < T.seq.size(); p++) REQUIRE(y.precedes((int)l, T.seq[p - 1], T.seq[p]), after << ": neighbours " << nm(T.seq[p - 1]) << " and " << nm(T.seq[p]) << " are not constrained");
    for (auto& e : T.expl) REQUIRE(e.first == e.second || y.precedes((int)l, e.first, e.second), after << ": the ordering of " << nm(e.first) << " before " << nm(e.second) << " is gone");
    for (int i : T.seq) { std::vector<ConstraintId> pc; T.t->getPrecedenceConstraints(y.t[(size_t)i].id, pc); size_t n = 0; for (int b : T.seq) if (b != i) n += y.precedes((int)l, i, b) + y.precedes((int)l, b, i); REQUIRE(pc.size() == n, after << ": " << pc.size() << " precedence constraints on " << nm(i) << " instead of " << n); }
  }
  y.ok = y.en.ce().propagate();
  std::vector<std::array<R, 3>> r; std::vector<unsigned> objs;
  bool want = y.bounds(r, objs);
  REQUIRE(y.ok == want, after << ": the plan is " << (y.ok ? "consistent" : "inconsistent") << ", by the bounds computed from scratch it is not");
  if (!y.ok) { s.label("inconsistent"); return; }
  for (int i : y.live()) {
    MT& x = y.t[(size_t)i]; auto v = vars(x);
    for (size_t k = 0; k < (y.stn ? 2u : 3u); k++) {
      R g{(long)cast_double(v[k]->lastDomain().getLowerBound()), (long)cast_double(v[k]->lastDomain().getUpperBound())};
      REQUIRE(g.lo == r[(size_t)i][k].lo && g.hi == r[(size_t)i][k].hi, after << ": " << nm(i) << "." << KN[k] << " is [" << g.lo << " " << g.hi << "] instead of [" << r[(size_t)i][k].lo << " " << r[(size_t)i][k].hi << "]");
    }
    for (size_t l = 0; l < y.tl.size(); l++) REQUIRE(x.id->getObject()->lastDomain().isMember(y.tl[l].id->getKey()) == (bool)(objs[(size_t)i] >> l & 1), after << ": timeline " << l << " in the object variable of " << nm(i));
  }
  std::map<int, std::set<ObjectId>> all;
  for (size_t l = 0; l < y.tl.size(); l++) {
    std::set<int> a, b, on; for (int i : y.live()) if (y.t[(size_t)i].active && objs[(size_t)i] >> l & 1) { on.insert(i); if (!y.in((int)l, i)) { a.insert(i); all[i].insert(y.tl[l].id); } }
    std::vector<TokenId> res; y.tl[l].t->getTokensToOrder(res); for (TokenId k : res) { REQUIRE(who.count(k), after << ": unknown token to order"); b.insert(who[k]); }
    REQUIRE(a == b && b.size() == res.size(), after << ": " << res.size() << " tokens to order on timeline " << l << " instead of " << a.size());
    REQUIRE(y.tl[l].t->hasTokensToOrder() == !a.empty(), after << ": hasTokensToOrder of timeline " << l);
    std::set<int> c; for (TokenId k : y.tl[l].t->tokens()) { REQUIRE(who.count(k), after << ": unknown token on timeline " << l); c.insert(who[k]); }
    REQUIRE(c == on, after << ": " << c.size() << " tokens on timeline " << l << " instead of " << on.size());
  }
  std::map<int, std::set<ObjectId>> got; for (auto& p : db.getTokensToOrder()) { REQUIRE(who.count(p.second.first), after << ": unknown token to order in the plan"); for (ObjectId o : p.second.second) got[who[p.second.first]].insert(o); }
  REQUIRE(got == all, after << ": tokens to order in the plan: " << got.size() << " instead of " << all.size());
  if (all.empty() || !s.chance(1, 2)) return;
  std::vector<int> cand; for (auto& p : all) if (y.sequencedOn(p.first) < 0) cand.push_back(p.first);
  if (cand.empty()) return;
  int i = s.pick(cand); std::vector<OrderingChoice> ch; size_t total = 0;
  db.getOrderingChoices(y.t[(size_t)i].id, ch);
  std::set<std::pair<size_t, size_t>> offered;
  for (auto& k : ch) {
    size_t l = 0; while (l < y.tl.size() && y.tl[l].id != k.first) l++;
    REQUIRE(l < y.tl.size() && (objs[(size_t)i] >> l & 1), after << ": a choice for " << nm(i) << " on a timeline it cannot be on");
    TL& T = y.tl[l]; TokenId a = k.second.first, b = k.second.second, me = y.t[(size_t)i].id; size_t pos;
    if (a == me && b == me) { REQUIRE(T.seq.empty(), after << ": a choice relates " << nm(i) << " to itself"); pos = 0; }
    else if (a == me) { REQUIRE(who.count(b) && y.in((int)l, who[b]), after << ": a choice puts " << nm(i) << " before a token which is not in the sequence"); pos = (size_t)(std::find(T.seq.begin(), T.seq.end(), who[b]) - T.seq.begin()); }
    else { REQUIRE(b == me && who.count(a) && y.in((int)l, who[a]), after << ": a choice puts " << nm(i) << " after a token which is not in the sequence"); pos = (size_t)(std::find(T.seq.begin(), T.seq.end(), who[a]) - T.seq.begin()) + 1; }
    REQUIRE(offered.insert({l, pos}).second, after << ": one position for " << nm(i) << " is offered twice");
  }
  bool some = false;
  for (size_t l = 0; l < y.tl.size(); l++) if (objs[(size_t)i] >> l & 1) for (size_t p = 0; p <= y.tl[l].seq.size(); p++) {
    total++; std::vector<std::array<R, 3>> r2; std::vector<unsigned> o2;
    if (y.bounds(r2, o2, (int)l, i, (int)p)) { some = true; REQUIRE(offered.count({l, p}), after << ": " << nm(i) << " fits at position " << p << " of " << y.tl[l].seq.size() << " on timeline " << l << " but it is not offered"); }
  }
  s.label("choices"); if (offered.size() < total) s.label("some position not offered"); (void)some;
  unsigned lim = (unsigned)s.draw(1, 4);
  std::vector<OrderingChoice> few; db.getOrderingChoices(y.t[(size_t)i].id, few, lim);
  REQUIRE(few.size() == std::min<size_t>(lim, ch.size()), after << ": " << few.size() << " choices with limit " << lim << " of " << ch.size());
  for (auto& k : few) REQUIRE(std::find(ch.begin(), ch.end(), k) != ch.end(), after << ": a choice only with a limit");
  REQUIRE(db.countOrderingChoices(y.t[(size_t)i].id) == ch.size(), after << ": countOrderingChoices says " << db.countOrderingChoices(y.t[(size_t)i].id) << " of " << ch.size());
  REQUIRE(db.lastOrderingChoiceCount(y.t[(size_t)i].id) == ch.size(), after << ": lastOrderingChoiceCount");
  REQUIRE(db.countOrderingChoices(y.t[(size_t)i].id, lim) == few.size(), after << ": countOrderingChoices with limit " << lim);
  REQUIRE(db.hasOrderingChoice(y.t[(size_t)i].id) == !ch.empty(), after << ": hasOrderingChoice");
}
void timelines(Src& s) {
  Plan y(s.chance(2, 3));
  PlanDatabase& db = y.en.db(); Schema& sc = y.en.schema();
  if (!s.chance(1, 3)) y.en.ce().setAutoPropagation(false);
  sc.addObjectType("T"); sc.addPredicate("T.p");
  long nt = s.weighted({3, 3, 1}) + 1;
  for (long i = 0; i < nt; i++) { Timeline* t = new Timeline(db.getId(), "T", "tl" + std::to_string(i)); TL x; x.id = t->getId(); x.t = t; y.tl.push_back(x); }
  db.close();
  const bool loose = s.chance(3, 4);
  DbClientId cl = db.getClient();
  auto after = [&](const S& what) { s.note() << what << "; "; check(s, y, what); };
  long n = s.draw(4, 40), lead = s.draw(0, 6), stuck = 0;
  for (long step = 0; step < n; step++) {
    long op = (long)s.weighted({3, 4, 12, 5, 3, 1, 2, 2, 2, 1});
    if (step < lead) op = step % 3 == 2 ? 1 : 0;
    if (!y.ok) { if (++stuck > 8) break; if (op != 3 && op != 4 && op != 5 && op != 7 && op != 9) op = s.oneof({3, 3, 4, 7, 9}); }
    switch (op) {
      case 0: {
        MT x; bool w = loose && s.chance(5, 6);
        long h = loose ? 40 : 20; long a = w ? 0 : s.draw(0, 15), b = w ? h : s.draw(a, h), c = w ? 0 : s.draw(0, 20), d = w ? h : s.draw(c, h), e = s.draw(1, 4), g = s.draw(e, e + (w ? 10 : 3));
        x.b[0] = {a, b}; x.b[1] = {c, d}; x.b[2] = {e, g}; x.objs = (1u << nt) - 1; bool fix = nt > 1 && s.chance(1, 6);
        for (int k = 0; k < 3; k++) if (x.b[k].lo == x.b[k].hi) { x.spec[k] = true; x.val[k] = x.b[k].lo; }
        int o = fix ? (int)s.draw(0, nt - 1) : -1; if (fix) x.objSpec = o; if (nt == 1) x.objSpec = 0;
        x.id = (new IntervalToken(db.getId(), "T.p", false, false, IntervalIntDomain(eint(a), eint(b)), IntervalIntDomain(eint(c), eint(d)), IntervalIntDomain(eint(e), eint(g)), fix ? "tl" + std::to_string(o) : Token::noObject(), true))->getId();
        y.t.push_back(x); int i = (int)y.t.size() - 1; bool act = s.flip(); if (act) { y.t.back().active = true; y.t.back().id->activate(); }
        std::ostringstream q; q << nm(i) << (act ? " active" : "") << " start [" << a << " " << b << "] end [" << c << " " << d << "] duration [" << e << " " << g << "]"; if (fix) q << " on " << o;
        after(q.str()); break;
      }
      case 1: {
        std::vector<int> l = y.live([](const MT& x) { return !x.active; }); if (l.empty()) break; int i = s.pick(l);
        y.t[(size_t)i].active = true; cl->activate(y.t[(size_t)i].id); after("activate " + nm(i)); break;
      }
      case 2: {
        int l = (int)s.draw(0, nt - 1); TL& T = y.tl[(size_t)l];
        std::vector<std::pair<int, int>> can;
        auto fits = [&](int i) { return y.t[(size_t)i].id->getObject()->lastDomain().isMember(T.id->getKey()); };
        std::vector<int> a = y.live([](const MT& x) { return x.active; });
        for (int p : a) for (int q : a) {
          if (!fits(p) || !fits(q)) continue;
          bool ip = y.in(l, p), iq = y.in(l, q);
          if (p == q) { if (T.seq.empty()) can.push_back({p, q}); continue; }
          if (!T.seq.empty() && !ip && !iq) continue;
          if (ip && iq && (y.precedes(l, p, q) || std::find(T.seq.begin(), T.seq.end(), p) > std::find(T.seq.begin(), T.seq.end(), q))) continue;
          can.push_back({p, q});
        }
        if (can.empty()) break;
        std::pair<int, int> k = s.pick(can); int p = k.first, q = k.second; bool ip = y.in(l, p), iq = y.in(l, q);
        if (T.seq.empty()) { T.seq.push_back(p); if (p != q) T.seq.push_back(q); }
        else if (!ip) T.seq.insert(std::find(T.seq.begin(), T.seq.end(), q), p);
        else if (!iq) T.seq.insert(std::find(T.seq.begin(), T.seq.end(), p) + 1, q);
        T.expl.insert({p, q}); s.label("order"); if (ip && iq) s.label("order two sequenced");
        cl->constrain(T.id, y.t[(size_t)p].id, y.t[(size_t)q].id);
        after("order " + nm(p) + " before " + nm(q) + " on " + std::to_string(l)); break;
      }
      case 3: {
        std::vector<std::pair<int, std::pair<int, int>>> can; for (size_t l = 0; l < y.tl.size(); l++) for (auto& e : y.tl[l].expl) can.push_back({(int)l, e});
        if (can.empty()) break; auto k = s.pick(can); int l = k.first, p = k.second.first, q = k.second.second; TL& T = y.tl[(size_t)l];
        size_t was = T.seq.size(); T.expl.erase({p, q});
        for (int i : {p, q}) if (!y.required(l, i)) T.seq.erase(std::remove(T.seq.begin(), T.seq.end(), i), T.seq.end());
        if (was >= 3 && T.seq.size() < was) s.nontrivial(); s.label("free"); if (T.seq.size() == was) s.label("free and keep");
        cl->free(T.id, y.t[(size_t)p].id, y.t[(size_t)q].id);
        after("free " + nm(p) + " before " + nm(q) + " on " + std::to_string(l)); break;
      }
      case 4: {
        std::vector<int> l = y.live([](const MT& x) { return x.active; }); if (l.empty()) break; int i = s.pick(l); int on = y.sequencedOn(i);
        if (on >= 0 && y.tl[(size_t)on].seq.size() >= 3) s.nontrivial();
        y.leave(i); y.t[(size_t)i].active = false; cl->cancel(y.t[(size_t)i].id); s.label(on >= 0 ? "cancel sequenced" : "cancel"); after("cancel " + nm(i)); break;
      }
      case 5: {
        std::vector<int> l = y.live(); if (l.empty()) break; int i = s.pick(l); MT& x = y.t[(size_t)i]; int on = y.sequencedOn(i);
        if (on >= 0 && y.tl[(size_t)on].seq.size() >= 3) s.nontrivial();
        y.leave(i); x.live = false;
        for (size_t k = 0; k < y.c.size();) if (y.c[k].a == i || y.c[k].c == i) { delete static_cast<Constraint*>(y.c[k].id); y.c.erase(y.c.begin() + (long)k); } else k++;
        delete static_cast<Token*>(x.id); s.label(on >= 0 ? "delete sequenced" : "delete"); after("delete " + nm(i)); break;
      }
      case 6: {
        std::vector<int> l = y.live(); if (l.empty()) break; int i = s.pick(l); MT& x = y.t[(size_t)i]; int k = (int)s.draw(0, 2); auto v = vars(x)[(size_t)k];
        if (x.spec[k] || v->lastDomain().isEmpty()) break;
        long lo = (long)cast_double(v->lastDomain().getLowerBound()), hi = (long)cast_double(v->lastDomain().getUpperBound()); lo = std::max(lo, x.b[k].lo); hi = std::min(hi, x.b[k].hi); if (lo > hi) break;
        long z = s.draw(lo, hi); x.spec[k] = true; x.val[k] = z; v->specify(z); after(nm(i) + "." + KN[k] + " = " + std::to_string(z)); break;
      }
      case 7: {
        std::vector<std::pair<int, int>> can; for (int i : y.live()) { MT& x = y.t[(size_t)i]; for (int k = 0; k < 3; k++) if (x.spec[k] && x.b[k].lo != x.b[k].hi) can.push_back({i, k}); if (x.objSpec >= 0 && nt > 1) can.push_back({i, 3}); }
        if (can.empty()) break; auto k = s.pick(can); MT& x = y.t[(size_t)k.first];
        if (k.second == 3) { x.objSpec = -1; x.id->getObject()->reset(); } else { x.spec[k.second] = false; vars(x)[(size_t)k.second]->reset(); }
        s.label("reset"); after("reset " + nm(k.first) + "." + (k.second == 3 ? "object" : KN[k.second])); break;
      }
      case 8: {
        if (s.flip()) {
          std::vector<int> l = y.live([](const MT& x) { return x.objSpec < 0; }); if (l.empty() || nt == 1) break; int i = s.pick(l); MT& x = y.t[(size_t)i];
          std::vector<int> o; for (long k = 0; k < nt; k++) if (x.id->getObject()->lastDomain().isMember(y.tl[(size_t)k].id->getKey())) o.push_back((int)k);
          if (o.empty()) break; x.objSpec = s.pick(o); x.id->getObject()->specify(y.tl[(size_t)x.objSpec].id->getKey()); after(nm(i) + ".object = " + std::to_string(x.objSpec)); break;
        }
        std::vector<int> l = y.live(); if (l.size() < 2) break; MC k; k.a = s.pick(l); k.c = s.pick(l); if (k.a == k.c) break; k.ka = (int)s.draw(0, 1); k.kc = (int)s.draw(0, 1);
        std::vector<ConstrainedVariableId> sc2{vars(y.t[(size_t)k.a])[(size_t)k.ka], vars(y.t[(size_t)k.c])[(size_t)k.kc]};
        k.id = y.en.ce().createConstraint("precedes", sc2); y.c.push_back(k); s.label("constraint");
        after(nm(k.a) + "." + KN[k.ka] + " <= " + nm(k.c) + "." + KN[k.kc]); break;
      }
      default: {
        if (y.c.empty()) break; size_t i = s.idx(y.c.size()); MC k = y.c[i]; y.c.erase(y.c.begin() + (long)i); delete static_cast<Constraint*>(k.id);
        after("remove " + nm(k.a) + "." + KN[k.ka] + " <= " + nm(k.c) + "." + KN[k.kc]);
      }
    }
  }
}
PBT_PROP("P04", "timelines", timelines, 40000, 30);
}  // namespace
