// S01, S02: resource profiles over raw transactions, against sums and subsets of the same transactions.
// S03: resources declared in a program, against enumeration of the placements of their tokens.
#include "nddlenv.hh"
#include "ResourceDefs.hh"
#include "Profile.hh"
#include "ProfilePropagator.hh"
#include "FVDetector.hh"
#include "Instant.hh"
#include "Transaction.hh"
#include "Resource.hh"
#include "FlowProfile.hh"
#include "IncrementalFlowProfile.hh"
#include "Variable.hh"
#include "Reservoir.hh"
#include "Reusable.hh"
#include "InstantTokens.hh"
#include "DurativeTokens.hh"
#include "TokenVariable.hh"
using namespace pbt;
using namespace EUROPA;

PBT_RULE("S01", "histories over up to seven transactions with time windows and quantity ranges, in a timetable or grounded profile: adding and removing "
         "transactions, specifying, resetting and narrowing times and quantities, posting and removing precedences, with recomputation by propagation or on "
         "demand; at every consistent settled moment all levels, rates, sums and members at all instants are compared with sums over the transactions' "
         "current windows, and random schedules with the level bounds; non-trivial when two transactions with open windows overlapped after something had "
         "been relaxed or removed",
         {"the windows of the transactions are read from the engine (T03 judges them)", "while the plan is inconsistent nothing is compared"});
PBT_RULE("S02", "the same histories with precedes and concurrent constraints, in the profiles registered as FlowProfile and IncrementalFlowProfile; at every "
         "consistent settled moment the level bounds at every time are compared with the extremes over all sets of transactions that can have happened "
         "by then; non-trivial when a precedence changed an extreme, after something had been relaxed or removed",
         {"the windows of the transactions are read from the engine (T03 judges them)", "while the plan is inconsistent nothing is compared"});

PBT_RULE("S03", "histories over one or two reservoirs, reusable or unary resources (every pairing of profile and detector that the module registers; made in a program or through "
         "the interface; limits on level, rates and sums) and up to six tokens: creating, activating, cancelling, deleting, specifying, resetting and narrowing times, durations "
         "and quantities, assigning and freeing resources, posting and removing precedences, changing capacity and limits over time; at every settled moment the "
         "verdict, the flawed instants, the tokens to order and the ordering choices are compared with levels computed from the tokens' windows and orderings "
         "(Floyd-Warshall, all sets of events); non-trivial when the resource decided the verdict, or some instants were flawed and others not, after something had been relaxed or removed",
         {"limits and capacities are judged at the instants where some transaction can begin or end", "while the plan is inconsistent only the verdict is compared, and changes only remove",
          "for flow profiles, durations are not changed while the resource is in use"});

namespace {
struct NoDetector : FVDetector {
  NoDetector() : FVDetector(ResourceId::noId()) {}
  bool detect(const InstantId) { return false; }
  void initialize(const InstantId) {}
  void initialize() {}
  PSResourceProfile* getFDLevelProfile() { return NULL; }
  PSResourceProfile* getVDLevelProfile() { return NULL; }
};

const long INF = 1L << 55;
std::string st(double v) { std::ostringstream o; if (v >= 1e15) o << "inf"; else if (v <= -1e15) o << "-inf"; else o << v; return o.str(); }
eint ei(long v) { return v >= INF ? PLUS_INFINITY : v <= -INF ? MINUS_INFINITY : eint(v); }
edouble ed(long v) { return v >= INF ? edouble(PLUS_INFINITY) : v <= -INF ? edouble(MINUS_INFINITY) : edouble((double)v); }
long un(edouble v) { return v >= edouble(PLUS_INFINITY) ? INF : v <= edouble(MINUS_INFINITY) ? -INF : (long)cast_double(v); }
double num(edouble v) { return v >= edouble(PLUS_INFINITY) ? 1e18 : v <= edouble(MINUS_INFINITY) ? -1e18 : cast_double(v); }
bool same(double a, double b) { return a == b || std::abs(a - b) < 1e-6; }

struct Tx { ConstrainedVariableId t, q; TransactionId id; bool consumer, in; std::string name; };
struct Pc { ConstraintId id; int a, b; std::string kind; };

struct Sys {
  nddl::Env en;
  NoDetector det;
  ProfileId prof;
  ProfilePropagator* pp;
  std::vector<Tx> tx;
  std::vector<Pc> pc;
  bool attached = false, relaxed = false;
  Sys() : en(true, true), pp(NULL) {
    en.ce().setAutoPropagation(false);
    pp = dynamic_cast<ProfilePropagator*>(static_cast<Propagator*>(en.ce().getPropagatorByName("Resource")));
  }
  void make(const std::string& kind) {
    if (kind == "FlowProfile (plain)") prof = (new FlowProfile(en.db().getId(), det.getId()))->getId();
    else if (kind == "IncrementalFlowProfile (plain)") prof = (new IncrementalFlowProfile(en.db().getId(), det.getId()))->getId();
    else {
      FactoryMgr* m = boost::polymorphic_cast<FactoryMgr*>(en.getComponent("ProfileFactoryMgr"));
      prof = m->createInstance(kind, ProfileArgs(en.db().getId(), det.getId()));
    }
  }
  ~Sys() {
    for (auto& x : tx) if (x.in) { try { prof->removeTransaction(x.id); } catch (...) {} }
    for (auto& p : pc) en.ce().deleteConstraint(p.id);
    if (attached) pp->removeProfile(prof);
    if (prof.isValid()) delete static_cast<Profile*>(prof);
    for (auto& x : tx) { delete static_cast<Transaction*>(x.id); delete static_cast<ConstrainedVariable*>(x.t); delete static_cast<ConstrainedVariable*>(x.q); }
  }
};

struct W { long lb, ub; double ql, qu; bool consumer; TransactionId id; };
std::vector<W> windows(Sys& y) {
  std::vector<W> r;
  for (auto& x : y.tx)
    if (x.in) {
      const Domain& t = x.t->lastDomain(); const Domain& q = x.q->lastDomain();
      r.push_back({un(t.getLowerBound()), un(t.getUpperBound()), num(q.getLowerBound()), num(q.getUpperBound()), x.consumer, x.id});
    }
  return r;
}
std::set<long> times(const std::vector<W>& w) {
  std::set<long> r{-2, 0, 20};
  for (auto& x : w) for (long b : {x.lb, x.ub}) { r.insert(b); if (b > -INF && b < INF) { r.insert(b - 1); r.insert(b + 1); } }
  return r;
}
std::string show(const std::vector<W>& w) {
  std::ostringstream o;
  for (auto& x : w) o << " " << (x.consumer ? "-" : "+") << "[" << st(x.ql) << " " << st(x.qu) << "]@[" << st(x.lb) << " " << st(x.ub) << "]";
  return o.str();
}

void level(Sys& y, long t, double& lo, double& hi) {
  IntervalDomain d;
  y.prof->getLevel(ei(t), d);
  lo = num(d.getLowerBound()); hi = num(d.getUpperBound());
}

// What every instant has to say, as sums over the transactions.
void checkTimetable(Sys& y, bool grounded, Src& s) {
  std::vector<W> w = windows(y);
  y.prof->recompute();
  for (long t : times(w)) {
    double lo = 0, hi = 0, gl, gh;
    for (auto& x : w) {
      if (x.consumer) { if (x.lb <= t) lo -= x.qu; if (x.ub <= t) hi -= x.ql; }
      else { if (x.ub <= t) lo += x.ql; if (x.lb <= t) hi += x.qu; }
    }
    level(y, t, gl, gh);
    REQUIRE(same(lo, gl) && same(hi, gh), "level at " << st(t) << " is [" << st(gl) << " " << st(gh) << "] and not [" << st(lo) << " " << st(hi) << "] for" << show(w));
  }
  const std::map<eint, InstantId>& in = y.prof->getInstants();
  for (auto& x : w)
    for (long b : {x.lb, x.ub}) REQUIRE(in.count(ei(b)), "no instant at " << st(b) << " for" << show(w));
  for (auto& p : in) {
    long t = un(edouble(p.first));
    InstantId i = p.second;
    double lm = 0, um = 0, ic = 0, Ic = 0, ip = 0, Ip = 0, cc = 0, Cc = 0, cp = 0, Cp = 0;
    std::set<TransactionId> all, st_, en_;
    bool change = false;
    for (auto& x : w) {
      bool span = x.lb <= t && t <= x.ub;
      if (span) { all.insert(x.id); if (x.lb == t) st_.insert(x.id), change = true; if (x.ub == t) en_.insert(x.id), change = true; }
      if (grounded) {
        if (x.lb <= t) { if (x.consumer) { lm -= x.qu; um -= x.ql; } else { lm += x.ql; um += x.qu; } }
      } else if (x.consumer) { if (x.lb <= t) lm -= x.ql; if (x.ub <= t) um -= x.qu; }
      else { if (x.ub <= t) lm += x.qu; if (x.lb <= t) um += x.ql; }
      if (span && x.lb == x.ub) (x.consumer ? ic : ip) += x.ql;
      if (span) (x.consumer ? Ic : Ip) += x.qu;
      if (x.ub <= t) (x.consumer ? cc : cp) += x.ql;
      if (x.lb <= t) (x.consumer ? Cc : Cp) += x.qu;
    }
    REQUIRE(change, "an instant at " << st(t) << " where no transaction begins or ends:" << show(w));
    REQUIRE(i->getTransactions() == all, "wrong transactions at instant " << st(t) << " (" << i->getTransactions().size() << " and not " << all.size() << ") for" << show(w));
    REQUIRE(i->getStartingTransactions() == st_, "wrong starting transactions at instant " << st(t) << " for" << show(w));
    REQUIRE(i->getEndingTransactions() == en_, "wrong ending transactions at instant " << st(t) << " for" << show(w));
    struct { const char* n; double g, m; } f[] = {
      {"lower level max", num(i->getLowerLevelMax()), lm}, {"upper level min", num(i->getUpperLevelMin()), um},
      {"min consumption rate", num(i->getMinInstantConsumption()), ic}, {"max consumption rate", num(i->getMaxInstantConsumption()), Ic},
      {"min production rate", num(i->getMinInstantProduction()), ip}, {"max production rate", num(i->getMaxInstantProduction()), Ip},
      {"min consumption sum", num(i->getMinCumulativeConsumption()), cc}, {"max consumption sum", num(i->getMaxCumulativeConsumption()), Cc},
      {"min production sum", num(i->getMinCumulativeProduction()), cp}, {"max production sum", num(i->getMaxCumulativeProduction()), Cp}};
    for (auto& k : f) REQUIRE(same(k.g, k.m), k.n << " at instant " << st(t) << " is " << st(k.g) << " and not " << st(k.m) << " for" << show(w));
  }
  (void)s;
  bool overlap = false;
  for (auto& a : w) for (auto& b : w) if (&a != &b && a.lb < a.ub && b.lb < b.ub && a.lb < b.ub && b.lb < a.ub) overlap = true;
  if (overlap && y.relaxed) s.nontrivial();
}

// The extremes over all sets of transactions that can have happened by a time.
void checkFlow(Sys& y, const std::string& kind, Src& s) {
  std::vector<W> w = windows(y);
  // precedences hold between the time points whether or not their transactions are in the profile
  size_t N = y.tx.size();
  std::vector<std::vector<char>> le(N, std::vector<char>(N, 0));
  for (auto& p : y.pc) { le[p.a][p.b] = 1; if (p.kind == "concurrent") le[p.b][p.a] = 1; }
  for (size_t k = 0; k < N; k++) for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) if (le[i][k] && le[k][j]) le[i][j] = 1;
  std::vector<int> idx;
  for (size_t i = 0; i < N; i++) if (y.tx[i].in) idx.push_back((int)i);
  bool mattered = false;
  for (long t : times(w)) {
    double lo = 1e18, hi = -1e18, flo = 1e18, fhi = -1e18;
    for (unsigned m = 0; m < (1u << w.size()); m++) {
      bool ok = true, okp = true;
      double a = 0, b = 0;
      for (size_t i = 0; i < w.size() && ok; i++) {
        bool in = m >> i & 1;
        if (in ? w[i].lb > t : w[i].ub <= t) ok = false;
        if (!in) continue;
        if (w[i].consumer) { a -= w[i].qu; b -= w[i].ql; } else { a += w[i].ql; b += w[i].qu; }
        for (size_t j = 0; j < w.size(); j++) if (!(m >> j & 1) && le[idx[j]][idx[i]]) okp = false;
      }
      if (!ok) continue;
      flo = std::min(flo, a); fhi = std::max(fhi, b);
      if (okp) { lo = std::min(lo, a); hi = std::max(hi, b); }
    }
    if (lo != flo || hi != fhi) mattered = true;
    double gl, gh;
    level(y, t, gl, gh);
    REQUIRE(same(lo, gl) && same(hi, gh), kind << ": level at " << st(t) << " is [" << st(gl) << " " << st(gh) << "] and not [" << st(lo) << " " << st(hi) << "] for" << show(w)
            << [&] { std::ostringstream o; for (auto& p : y.pc) o << ", " << y.tx[p.a].name << " " << p.kind << " " << y.tx[p.b].name; return o.str(); }());
  }
  if (mattered && y.relaxed) s.nontrivial();
}

void history(Src& s, const std::vector<std::string>& kinds, bool flow) {
  Sys y;
  ConstraintEngine& ce = y.en.ce();
  std::string kind = s.pick(kinds);
  s.note() << kind;
  y.make(kind);
  bool watch = s.chance(2, 3);
  if (watch) { y.pp->addProfile(y.prof); y.attached = true; s.note() << " recomputed by propagation"; }
  s.note() << "; ";
  int steps = 0;
  bool ok = true, deepq = s.chance(1, 3), inf = s.chance(1, 6);
  auto settle = [&] {
    ok = ce.propagate();
    s.note() << (ok ? "settle; " : "settle: inconsistent; ");
    if (ok) { if (flow) checkFlow(y, kind, s); else checkTimetable(y, kind == "GroundedProfile", s); }
  };
  auto none = [&] { for (auto& z : y.tx) if (z.in) return false; return true; };
  auto addTx = [&] {
    long lb = s.draw(0, flow ? 4 : 8), ub = lb + (s.chance(1, flow ? 8 : 3) ? 0 : flow ? s.draw(0, 9) : s.draw(0, 7));
    if (inf && s.chance(1, 4)) ub = INF;
    if (inf && s.chance(1, 6)) lb = -INF;
    long ql = s.draw(0, 4), qu = deepq ? ql + s.draw(0, 3) : ql;
    Tx x;
    x.consumer = s.flip(); x.in = false;
    x.name = "t" + std::to_string(y.tx.size());
    x.t = (new Variable<IntervalIntDomain>(ce.getId(), IntervalIntDomain(ei(lb), ei(ub)), false, true, x.name.c_str()))->getId();
    x.q = (new Variable<IntervalDomain>(ce.getId(), IntervalDomain(edouble((double)ql), edouble((double)qu)), false, true, ("q" + x.name).c_str()))->getId();
    x.id = (new Transaction(x.t, x.q, x.consumer, EntityId::noId()))->getId();
    y.tx.push_back(x);
    s.note() << x.name << (x.consumer ? " consumes [" : " produces [") << ql << " " << qu << "] at [" << st(lb) << " " << st(ub) << "]; ";
  };
  auto put = [&](Tx& x) { y.prof->addTransaction(x.id); x.in = true; s.note() << "add " << x.name << "; "; };
  addTx(); if (s.chance(3, 4)) put(y.tx[0]);
  if (flow && y.tx[0].in) for (long more = s.draw(0, 4); more > 0; more--) { addTx(); put(y.tx.back()); }
  while (s.chance(14, 15) && steps++ < 60) {
    int op = flow ? s.weighted({4, 2, 2, 1, 3, 1, 12, 2, 2, 2, 6}) : s.weighted({6, 2, 3, 3, 3, 3, 4, 2, 2, 2, 6});
    if (op == 0 && y.tx.size() < 7) { if (!ok) continue; addTx(); if (s.chance(none() ? 1 : 9, none() ? 3 : 10)) put(y.tx.back()); continue; }
    Tx& x = y.tx[s.idx(y.tx.size())];
    bool empty = x.t->lastDomain().isEmpty() || x.q->lastDomain().isEmpty();
    switch (op) {
      case 1:
        if (x.in) { y.prof->removeTransaction(x.id); x.in = false; y.relaxed = true; s.note() << "remove " << x.name << "; "; }
        else if (ok && !empty && !ce.provenInconsistent()) put(x);
        break;
      case 2: case 3: {   // specify a time or a quantity
        ConstrainedVariableId v = op == 2 ? x.t : x.q;
        if (!ok || ce.provenInconsistent() || v->isSpecified()) break;
        const Domain& d = s.chance(1, 8) ? v->baseDomain() : v->lastDomain();
        if (d.isEmpty() || d.isSingleton()) break;
        long a = un(d.getLowerBound()), b = un(d.getUpperBound());
        if (a <= -INF) a = std::min(b, 0L) - 3;
        if (b >= INF) b = std::max(a, 0L) + 12;
        long val = a + s.draw(0, b - a);
        s.note() << v->getName() << " := " << val << "; ";
        v->specify(edouble((double)val));
        break;
      }
      case 4: case 5: {
        ConstrainedVariableId v = op == 4 ? x.t : x.q;
        if (!v->isSpecified() || v->baseDomain().isSingleton()) break;
        s.note() << "reset " << v->getName() << "; ";
        v->reset();
        y.relaxed = true;
        break;
      }
      case 6: {
        if (!ok || ce.provenInconsistent() || y.tx.size() < 2 || y.pc.size() > 8) break;
        int a = (int)s.idx(y.tx.size()), b = (int)s.idx(y.tx.size());
        if (a == b) break;
        // the profile listens to the time points of its own transactions
        if (flow && !none() && !(y.tx[a].in && y.tx[b].in)) break;
        Pc p; p.a = a; p.b = b; p.kind = s.chance(1, 4) ? "concurrent" : "precedes";
        std::vector<ConstrainedVariableId> sc{y.tx[a].t, y.tx[b].t};
        s.note() << y.tx[a].name << " " << p.kind << " " << y.tx[b].name << "; ";
        p.id = ce.createConstraint(p.kind, sc);
        y.pc.push_back(p);
        break;
      }
      case 7:
        if (y.pc.empty()) break;
        { size_t i = s.idx(y.pc.size());
          if (flow && !none() && !(y.tx[y.pc[i].a].in && y.tx[y.pc[i].b].in)) break;
          s.note() << "drop " << y.tx[y.pc[i].a].name << " " << y.pc[i].kind << " " << y.tx[y.pc[i].b].name << "; ";
          ce.deleteConstraint(y.pc[i].id);
          y.pc.erase(y.pc.begin() + (long)i); y.relaxed = true; }
        break;
      case 8: {   // narrow the quantity's or the time's base domain
        ConstrainedVariableId v = s.flip() ? x.t : x.q;
        if (!ok || ce.provenInconsistent() || v->isSpecified() || v->lastDomain().isEmpty() || v->lastDomain().isSingleton()) break;
        long a = un(v->lastDomain().getLowerBound()), b = un(v->lastDomain().getUpperBound());
        if (a <= -INF || b >= INF) break;
        long l = a + s.draw(0, b - a), u = l + s.draw(0, b - l);
        s.note() << v->getName() << " in [" << l << " " << u << "]; ";
        if (v == x.t) v->restrictBaseDomain(IntervalIntDomain(ei(l), ei(u)));
        else v->restrictBaseDomain(IntervalDomain(ed(l), ed(u)));
        break;
      }
      case 9: if (ok && !ce.provenInconsistent() && !ce.pending() && !watch) { y.prof->recompute(); s.note() << "recompute; "; } break;
      default: settle();
    }
  }
  settle();
}

// ---------------------------------------------------------------------------------------------------
// S03
const double BIG = 1e18;
struct Res {
  ObjectId id; Resource* r; std::string name, kind, profile, detector;
  bool flow, grounded, open;
  std::map<long, std::pair<double, double> > cap, lim;
  double maxIP, maxIC, maxP, maxC;
  std::pair<double, double> at(const std::map<long, std::pair<double, double> >& m, long t) const { auto i = m.upper_bound(t); --i; return i->second; }
};
struct Tok {
  TokenId id; std::string name; bool event, consumer, active, dead;
  ConstrainedVariableId v[4];          // start, end, duration, quantity
  long lo[4], hi[4];                   // base windows
  bool spec[4]; long val[4];
  int obj;                             // specified resource, or -1
  long l(int k) const { return spec[k] ? val[k] : lo[k]; }
  long h(int k) const { return spec[k] ? val[k] : hi[k]; }
};
struct Link { ConstraintId id; int a, ka, b, kb; bool eq; };

struct Limits {
  Src& s;
  nddl::Env en;
  std::vector<Res> res;
  std::vector<Tok> tok;
  std::vector<Link> link;
  std::string kind;
  bool relaxed = false, ok = true;
  int nodes; std::vector<std::vector<long> > d;
  explicit Limits(Src& src) : s(src), en(true, true) { en.ce().setAutoPropagation(false); }
  ~Limits() {
    for (auto& l : link) en.ce().deleteConstraint(l.id);
    for (auto& t : tok) if (!t.dead) delete static_cast<Token*>(t.id);
  }
  bool used(int obj) { for (auto& t : tok) if (in(t, obj)) return true; return false; }
  bool in(const Tok& t, int obj) const { return !t.dead && t.active && (res.size() == 1 ? obj == 0 : t.obj == obj); }
  int node(int t, int k) const { return 1 + 2 * t + (tok[t].event ? 0 : k); }

  void make(int i) {
    Res r;
    r.name = i ? "other" : "res"; r.kind = kind;
    static const char* combos[][2] = {{"TimetableProfile", "ClosedWorldFVDetector"}, {"IncrementalFlowProfile", "ClosedWorldFVDetector"}, {"FlowProfile", "ClosedWorldFVDetector"},
                                      {"TimetableProfile", "OpenWorldFVDetector"}, {"GroundedProfile", "GroundedFVDetector"}};
    size_t c = s.weighted({4, 4, 2, 3, 2});
    r.profile = combos[c][0]; r.detector = combos[c][1];
    r.flow = c == 1 || c == 2; r.grounded = c == 4; r.open = c == 3;
    auto lim = [&](long a, long b, int num_, int den) { return s.chance((unsigned)num_, (unsigned)den) ? (double)s.draw(a, b) : BIG; };
    double ic = (double)s.draw(0, 6), ll = (double)s.draw(0, 2), ul = s.chance(1, 5) ? BIG : (double)s.draw(2, 9);
    if (s.chance(1, 8)) ll = -BIG;
    double ip = lim(1, 5, 1, 5), icn = lim(1, 5, 1, 5), mp = lim(2, 9, 1, 4), mc = lim(2, 9, 1, 4);
    if (kind == "Unary") { ic = 1; ll = 0; ul = 1; mp = mc; ip = icn = BIG; }
    if (kind == "Reusable") { ip = icn; mp = mc; ul = ic; }
    std::ostringstream o;
    auto w = [](double x) { std::ostringstream q; q.precision(1); q << std::fixed; if (x >= BIG) return std::string("+inff"); if (x <= -BIG) return std::string("-inff"); q << x; return q.str(); };
    if (s.flip() || kind == "Unary") {
      bool dflt = r.profile == "IncrementalFlowProfile" && s.flip();
      std::string cls = dflt ? kind : "My" + kind + std::to_string(i);
      if (kind == "Reusable") ul = BIG;
      std::string args, pars;
      std::vector<double> a;
      if (kind == "Unary") a = {mc};
      else if (kind == "Reusable") { a = {ic, ll, mc, icn}; if (mc >= BIG && s.flip()) { a = {ic, ll, icn}; if (icn >= BIG && s.flip()) a = {ic, ll}; } }
      else { a = {ic, ll, ul, ip, mp, icn, mc}; if (ip >= BIG && icn >= BIG && s.flip()) { a = {ic, ll, ul, mp, mc}; if (mp >= BIG && mc >= BIG && s.flip()) a = {ic, ll, ul}; } }
      std::ostringstream up;
      for (size_t k = 0; k < a.size(); k++) { args += (k ? ", " : "") + w(a[k]); pars += (k ? ", a" : "a") + std::to_string(k); up << (k ? ", " : "") << "float a" << k; }
      if (!dflt) {
        o << "class " << cls << " extends " << kind << " { ";
        bool p = r.profile != "IncrementalFlowProfile" || s.flip(), q = r.detector != "ClosedWorldFVDetector" || s.flip();
        if (p) o << "string profileType; ";
        if (q) o << "string detectorType; ";
        o << cls << "(" << up.str() << ") { super(" << pars << "); ";
        if (p) o << "profileType = \"" << r.profile << "\"; ";
        if (q) o << "detectorType = \"" << r.detector << "\"; ";
        o << "} }\n";
      }
      o << cls << " " << r.name << " = new " << cls << "(" << args << ");\n";
      s.note() << o.str();

      std::string e = en.run(o.str());
      REQUIRE(e.empty(), "resource refused: " << e);
      r.id = en.db().getObject(r.name);
    } else {

      auto e = [](double x) { return x >= BIG ? edouble(PLUS_INFINITY) : x <= -BIG ? edouble(MINUS_INFINITY) : edouble(x); };
      if (kind == "Reservoir") r.id = (new Reservoir(en.db().getId(), "Reservoir", r.name, r.detector, r.profile, e(ic), e(ic), e(ll), e(ul), e(ip), e(icn), e(mp), e(mc)))->getId();
      else r.id = (new Reusable(en.db().getId(), "Reusable", r.name, r.detector, r.profile, e(ic), e(ic), e(ll), e(icn), e(mc)))->getId();
      s.note() << kind << " " << r.name << "(" << r.profile << " " << r.detector << " capacity " << ic << " limits [" << st(ll) << " " << st(ul) << "] rates +" << st(ip) << " -" << st(icn)
               << " sums +" << st(mp) << " -" << st(mc) << "); ";
    }
    r.r = dynamic_cast<Resource*>(static_cast<Object*>(r.id));
    REQUIRE(r.r != NULL, "not a resource");
    r.cap[-INF] = {ic, ic}; r.lim[-INF] = {ll, ul};
    r.maxP = mp; r.maxC = mc; r.maxIP = ip >= BIG ? mp : ip; r.maxIC = icn >= BIG ? mc : icn;
    res.push_back(r);
    for (long n = s.chance(1, 3) ? s.draw(1, 3) : 0; n > 0; n--) profileChange((int)res.size() - 1);
  }
  void profileChange(int i) {
    Res& r = res[i];
    long t = s.draw(0, 12);
    bool c = s.chance(2, 3);
    double a = (double)s.draw(0, 6), b = c ? a + (s.chance(1, 4) ? (double)s.draw(0, 3) : 0) : a + (double)s.draw(1, 6);
    if (!c && s.chance(1, 3)) b = BIG;
    s.note() << r.name << (c ? ".set_capacity(" : ".set_limit(") << t << ", " << a << ", " << st(b) << "); ";
    if (s.flip() && b < BIG) {
      std::ostringstream o; o.precision(1); o << std::fixed;
      o << r.name << (c ? ".set_capacity(" : ".set_limit(") << t << ", " << a << ", " << b << ");\n";
      if (en.db().getClient()->isGlobalVariable(r.name)) {
        std::string e = en.run(o.str());
        REQUIRE(e.empty(), "refused: " << e);
        (c ? r.cap : r.lim)[t] = {a, b};
        return;
      }
    }
    edouble eb = b >= BIG ? edouble(PLUS_INFINITY) : edouble(b);
    if (c) r.r->setCapacity(eint(t), edouble(a), eb); else r.r->setLimit(eint(t), edouble(a), eb);
    (c ? r.cap : r.lim)[t] = {a, b};
  }

  // the temporal part of the model: false when there is no schedule
  bool stn() {
    nodes = 1 + 2 * (int)tok.size();
    d.assign(nodes, std::vector<long>(nodes, INF));
    auto leq = [&](int i, int j, long w) { if (w < d[i][j]) d[i][j] = w; };   // x_j - x_i <= w
    for (int i = 0; i < nodes; i++) d[i][i] = 0;
    for (size_t t = 0; t < tok.size(); t++) {
      Tok& k = tok[t];
      if (k.dead) continue;
      for (int e = 0; e < (k.event ? 1 : 2); e++) {
        int n = node((int)t, e);
        if (k.h(e) < INF) leq(0, n, k.h(e));
        if (k.l(e) > -INF) leq(n, 0, -k.l(e));
      }
      if (!k.event) { int a = node((int)t, 0), b = node((int)t, 1); if (k.h(2) < INF) leq(a, b, k.h(2)); leq(b, a, -k.l(2)); }
    }
    for (auto& l : link) { leq(node(l.b, l.kb), node(l.a, l.ka), 0); if (l.eq) leq(node(l.a, l.ka), node(l.b, l.kb), 0); }
    for (int k = 0; k < nodes; k++) for (int i = 0; i < nodes; i++) for (int j = 0; j < nodes; j++)
      if (d[i][k] < INF && d[k][j] < INF) d[i][j] = std::min(d[i][j], d[i][k] + d[k][j]);
    for (int i = 0; i < nodes; i++) if (d[i][i] < 0) return false;
    return true;
  }
  struct Ev { long lb, ub; double ql, qu; bool consumer; int node, tok; };
  std::vector<Ev> events(int obj) {
    std::vector<Ev> r;
    for (size_t t = 0; t < tok.size(); t++)
      if (in(tok[t], obj))
        for (int e = 0; e < (tok[t].event ? 1 : 2); e++) {
          int n = node((int)t, e);
          double qu = tok[t].h(3) >= INF ? BIG : (double)tok[t].h(3);
          r.push_back({d[n][0] >= INF ? -INF : -d[n][0], d[0][n] >= INF ? INF : d[0][n], (double)tok[t].l(3), qu, tok[t].event ? tok[t].consumer : e == 0, n, (int)t});
        }
    return r;
  }
  struct At { bool violated, flawed; };
  At judge(const Res& r, const std::vector<Ev>& w, long t) {
    double lo = 0, hi = 0, lm = 0, um = 0, ic = 0, Ic = 0, ip = 0, Ip = 0, cc = 0, Cc = 0, cp = 0, Cp = 0;
    if (r.flow) {
      lo = BIG; hi = -BIG;
      for (unsigned m = 0; m < (1u << w.size()); m++) {
        bool ok_ = true;
        double a = 0, b = 0;
        for (size_t i = 0; i < w.size() && ok_; i++) {
          if (m >> i & 1 ? w[i].lb > t : w[i].ub <= t) { ok_ = false; break; }
          if (!(m >> i & 1)) continue;
          if (w[i].consumer) { a -= w[i].qu; b -= w[i].ql; } else { a += w[i].ql; b += w[i].qu; }
          for (size_t j = 0; j < w.size(); j++) if (!(m >> j & 1) && d[w[i].node][w[j].node] <= 0) ok_ = false;
        }
        if (ok_) { lo = std::min(lo, a); hi = std::max(hi, b); }
      }
    } else
      for (auto& x : w) {
        if (x.consumer) { if (x.lb <= t) lo -= x.qu; if (x.ub <= t) hi -= x.ql; }
        else { if (x.ub <= t) lo += x.ql; if (x.lb <= t) hi += x.qu; }
        bool span = x.lb <= t && t <= x.ub;
        if (r.grounded) { if (x.lb <= t) { if (x.consumer) { lm -= x.qu; um -= x.ql; } else { lm += x.ql; um += x.qu; } } }
        else if (x.consumer) { if (x.lb <= t) lm -= x.ql; if (x.ub <= t) um -= x.qu; }
        else { if (x.ub <= t) lm += x.qu; if (x.lb <= t) um += x.ql; }
        if (span && x.lb == x.ub) (x.consumer ? ic : ip) += x.ql;
        if (span) (x.consumer ? Ic : Ip) += x.qu;
        if (x.ub <= t) (x.consumer ? cc : cp) += x.ql;
        if (x.lb <= t) (x.consumer ? Cc : Cp) += x.qu;
      }
    for (double* x : {&lo, &hi, &lm, &um, &Ic, &Ip, &Cc, &Cp}) *x = std::max(-BIG, std::min(BIG, *x));
    std::pair<double, double> c = r.at(r.cap, t), l = r.at(r.lim, t);
    double vl = lo <= -BIG ? -BIG : c.first + lo, vh = hi >= BIG ? BIG : c.second + hi, fl = vl, fh = vh;
    if (r.open) { vh = r.maxP >= BIG ? BIG : vh + r.maxP - cp; vl = r.maxC >= BIG ? -BIG : vl - (r.maxC - cc); }
    if (r.open || r.grounded) { fl = std::abs(lm) >= BIG ? lm : c.first + lm; fh = std::abs(um) >= BIG ? um : c.second + um; }
    for (double* x : {&vl, &vh, &fl, &fh}) *x = std::max(-BIG, std::min(BIG, *x));
    if (lo <= -BIG) vl = -BIG;
    if (hi >= BIG) vh = BIG;
    At a;
    a.violated = vh < l.first || vl > l.second || cc > r.maxC || cp > r.maxP || ic > r.maxIC || ip > r.maxIP;
    a.flawed = fl < l.first || fh > l.second || Cc > r.maxC || Cp > r.maxP || Ic > r.maxIC || Ip > r.maxIP;
    return a;
  }
  std::string show() {
    std::ostringstream o;
    for (size_t i = 0; i < res.size(); i++) {
      o << " | " << res[i].name << ":";
      for (auto& x : events((int)i)) o << " " << tok[x.tok].name << (x.consumer ? "-" : "+") << "[" << st(x.ql) << " " << st(x.qu) << "]@[" << st(x.lb) << " " << st(x.ub) << "]";
    }
    return o.str();
  }
  void settle() {
    bool got = en.ce().propagate();
    bool timesOk = stn(), want = timesOk, someFlawed = false, someClear = false;
    std::string why = timesOk ? "" : "times";
    std::vector<std::set<long> > flawed(res.size()), inst(res.size());
    if (timesOk)
      for (size_t i = 0; i < res.size(); i++) {
        std::vector<Ev> w = events((int)i);
        for (auto& x : w) { inst[i].insert(x.lb); inst[i].insert(x.ub); }
        for (long t : inst[i]) {
          At a = judge(res[i], w, t);
          if (a.violated && want) { want = false; why = res[i].name + " at " + st((double)t); }
          if (a.flawed) flawed[i].insert(t), someFlawed = true; else someClear = true;
        }
      }
    s.note() << (got ? "settle; " : "settle: inconsistent; ");
    REQUIRE(got == want, "the plan is reported " << (got ? "consistent" : "inconsistent") << " but it is " << (want ? "consistent" : "inconsistent (" + why + ")") << (timesOk ? show() : ""));
    ok = got;
    if (timesOk && !want) { s.label("the resource decided"); if (relaxed) s.nontrivial(); }
    if (!got) return;
    if (someFlawed) s.label("flaws");
    if (someFlawed && someClear && relaxed) s.nontrivial();
    for (size_t i = 0; i < res.size(); i++) {
      std::vector<Ev> w = events((int)i);
      std::vector<InstantId> fi;
      res[i].r->getFlawedInstants(fi);
      std::set<long> g;
      for (auto& x : fi) { REQUIRE(x.isValid(), "a flawed instant that no longer exists"); g.insert(un(edouble(x->getTime()))); }
      for (long t : flawed[i]) REQUIRE(g.count(t), res[i].name << ": the instant at " << st((double)t) << " can break the limits but isn't reported" << show());
      for (long t : g) REQUIRE(flawed[i].count(t), res[i].name << ": the instant at " << st((double)t) << " is reported as flawed but cannot break the limits" << show());
      std::map<int, std::pair<long, long> > at; std::map<int, long> lows, highs;   // windows of the times; earliest end and latest start of the tokens
      for (auto& x : w) {
        at[x.node] = {x.lb, x.ub};
        if (x.node == node(x.tok, 0)) highs[x.tok] = x.ub;
        if (x.node == node(x.tok, 1) || tok[x.tok].event) lows[x.tok] = x.lb;
      }
      std::set<TokenId> expectT;
      for (long t : flawed[i]) for (auto& x : w) if (x.lb <= t && t <= x.ub) expectT.insert(tok[x.tok].id);
      std::vector<TokenId> gt;
      res[i].r->getTokensToOrder(gt);
      REQUIRE(res[i].r->hasTokensToOrder() == !gt.empty(), "hasTokensToOrder disagrees with getTokensToOrder");
      std::set<TokenId> gs(gt.begin(), gt.end());
      REQUIRE(gs == expectT, res[i].name << ": " << gs.size() << " tokens to order and not " << expectT.size() << show());
      for (size_t k = 0; k < tok.size(); k++) {
        if (tok[k].dead || !gs.count(tok[k].id)) continue;
        std::vector<Ev> own; for (auto& x : w) if (x.tok == (int)k) own.push_back(x);
        long from = own.front().lb, to = own.back().ub;
        std::set<std::pair<TokenId, TokenId> > expectP, mayP, gp;
        for (long t : flawed[i]) {
          if (t < from || t > to) continue;
          for (auto& a : w) for (auto& b : w) {
            if (a.tok == b.tok || !(a.lb <= t && t <= a.ub && b.lb <= t && t <= b.ub)) continue;
            // the advisor may take what only chains of relations rule out for possible, but not what the bounds do
            if (lows[a.tok] > highs[b.tok]) continue;
            mayP.insert({tok[a.tok].id, tok[b.tok].id});
            if (d[node(a.tok, 1)][node(b.tok, 0)] < 0) continue;    // b can only start before a ends
            expectP.insert({tok[a.tok].id, tok[b.tok].id});
          }
        }
        std::vector<std::pair<TokenId, TokenId> > cp;
        unsigned long limit = s.chance(1, 4) ? (unsigned long)s.draw(1, 3) : 1000000;
        res[i].r->getOrderingChoices(tok[k].id, cp, limit);
        for (auto& p : cp) gp.insert(p);
        REQUIRE(gp.size() == cp.size(), "an ordering is offered twice for " << tok[k].name << show());
        for (auto& p : gp) REQUIRE(mayP.count(p), "an ordering is offered for " << tok[k].name << " that cannot be made or has no part in its flaws" << show());
        if (gp.size() < limit) for (auto& p : expectP) REQUIRE(gp.count(p), "an ordering that can be made isn't offered for " << tok[k].name << show());
        REQUIRE(gp.size() <= limit, "more orderings are offered than asked for");
        if (!gp.empty()) s.label("orderings of tokens");
      }
      for (auto& x : fi) {
        std::vector<std::pair<TransactionId, TransactionId> > ch;
        res[i].r->getOrderingChoices(x, ch, 1000000);
        std::set<std::pair<int, int> > gc;
        std::map<ConstrainedVariableId, int> nd;
        for (size_t t = 0; t < tok.size(); t++) if (!tok[t].dead) for (int e = 0; e < (tok[t].event ? 1 : 2); e++) nd[tok[t].v[e]] = node((int)t, e);
        for (auto& p : ch) {
          int a = nd[p.first->time()], b = nd[p.second->time()];
          REQUIRE(a && b && a != b, "an ordering choice between unknown or equal times");
          REQUIRE(d[b][a] > 0 , "an ordering choice that already holds" << show());
          REQUIRE(d[a][b] >= 0 || at[a].first <= at[b].second, "an ordering choice that is impossible" << show());
          gc.insert({a, b});
        }
        long t = un(edouble(x->getTime()));
        for (auto& a : w) for (auto& b : w) {
          if (a.node == b.node || !(a.lb <= t && t <= a.ub)) continue;
          if (a.ub < b.lb || b.ub < a.lb) continue;
          // a before b is possible and not yet so
          if (d[b.node][a.node] > 0 && d[a.node][b.node] >= 0) REQUIRE(gc.count({a.node, b.node}), "the ordering " << tok[a.tok].name << " before " << tok[b.tok].name << " isn't offered at " << t << show());
        }
      }
    }
  }
  void addTok() {
    Tok t;
    t.event = kind == "Reservoir"; t.consumer = t.event ? s.flip() : true; t.dead = false;
    t.name = "k" + std::to_string(tok.size());
    long a = s.draw(0, 6), b = a + (s.chance(1, 3) ? 0 : s.draw(0, 6));
    bool free_ = s.chance(1, 16);
    t.lo[0] = free_ ? -INF : a; t.hi[0] = free_ ? INF : b;
    t.lo[2] = t.event ? 0 : s.draw(1, 3); t.hi[2] = t.event ? 0 : t.lo[2] + (s.flip() ? 0 : s.draw(0, 4));
    t.lo[1] = t.event ? t.lo[0] : -INF; t.hi[1] = t.event ? t.hi[0] : INF;
    if (!t.event && s.flip()) { t.lo[1] = a + 1; t.hi[1] = 14; }
    t.lo[3] = kind == "Unary" ? 1 : s.draw(0, 4); t.hi[3] = t.lo[3] + (kind == "Unary" || s.chance(2, 3) ? 0 : s.draw(0, 3));
    if (kind != "Unary" && s.chance(1, 20)) t.hi[3] = INF;
    for (int k = 0; k < 4; k++) t.spec[k] = false, t.val[k] = 0;
    t.obj = -1;
    bool late = s.chance(1, 3);
    PlanDatabaseId db = en.db().getId();
    IntervalIntDomain tm(ei(t.lo[0]), ei(t.hi[0])), ed_(ei(t.lo[1]), ei(t.hi[1])), du(ei(t.lo[2]), ei(t.hi[2]));
    IntervalDomain q(ed(t.lo[3]), ed(t.hi[3]));
    if (kind != "Unary" && s.flip()) {
      if (t.event) t.id = (new ReservoirToken(db, t.consumer ? "Reservoir.consume" : "Reservoir.produce", tm, q, t.consumer, true, !late))->getId();
      else t.id = (new ReusableToken(db, "Reusable.uses", tm, ed_, du, q, Token::noObject(), true, !late))->getId();
      t.active = !late;
    } else {
      t.id = en.db().getClient()->createToken(kind == "Unary" ? "Unary.use" : !t.event ? "Reusable.uses" : t.consumer ? "Reservoir.consume" : "Reservoir.produce", t.name, false, false);
      t.active = t.id->isActive();
      t.id->start()->restrictBaseDomain(tm);
      if (!t.event) { t.id->end()->restrictBaseDomain(ed_); t.id->duration()->restrictBaseDomain(du); }
      if (kind != "Unary") t.id->getVariable("quantity")->restrictBaseDomain(q);
    }
    t.v[0] = t.id->start(); t.v[1] = t.id->end(); t.v[2] = t.id->duration(); t.v[3] = t.id->getVariable("quantity");
    s.note() << t.name << (t.event ? t.consumer ? " consumes" : " produces" : " uses") << " [" << t.lo[3] << " " << st((double)t.hi[3]) << "] at [" << st((double)t.lo[0]) << " " << st((double)t.hi[0]) << "]";
    if (!t.event) s.note() << " to [" << st((double)t.lo[1]) << " " << st((double)t.hi[1]) << "] lasting [" << t.lo[2] << " " << t.hi[2] << "]";
    s.note() << (t.active ? "; " : ", not active; ");
    tok.push_back(t);
    if (res.size() > 1 && s.chance(7, 8)) assign(tok.back());
  }
  void assign(Tok& t) {
    int o = (int)s.idx(res.size());
    s.note() << t.name << " on " << res[o].name << "; ";
    t.id->getObject()->specify(res[o].id->getKey());
    t.obj = o;
  }
  bool flowUsed() { for (size_t i = 0; i < res.size(); i++) if (res[i].flow && used((int)i)) return true; return false; }
  // the profile listens to the times of its own transactions
  bool listened(int a, int b) {
    if (!flowUsed()) return true;
    for (size_t i = 0; i < res.size(); i++) if (in(tok[a], (int)i) && in(tok[b], (int)i)) return true;
    return false;
  }
  void run() {
    kind = s.pick(std::vector<std::string>{"Reservoir", "Reservoir", "Reusable", "Reusable", "Unary"});
    make(0);
    if (s.chance(1, 4)) make(1);
    en.db().close();
    int steps = 0;
    ConstraintEngine& ce = en.ce();
    auto can = [&] { return ok && !ce.provenInconsistent(); };
    addTok(); 
    for (long more = s.draw(0, 2); more > 0; more--) addTok();
    while (s.chance(14, 15) && steps++ < 50) {
      int op = (int)s.weighted({4, 4, 3, 4, 2, 3, 3, 2, 2, 1, 6});
      if (op == 0) { if (can() && tok.size() < 6) addTok(); continue; }
      int i = (int)s.idx(tok.size());
      Tok& t = tok[i];
      if (t.dead && op != 9 && op != 10) continue;
      switch (op) {
        case 1: {
          int k = (int)s.weighted({4, 2, 1, 3});
          if (t.event && (k == 1 || k == 2)) k = 0;
          if (!can() || ce.pending() || t.spec[k] || (k == 2 && flowUsed())) break;
          const Domain& dm = t.v[k]->lastDomain();
          if (dm.isEmpty() || dm.isSingleton() || t.v[k]->isSpecified()) break;
          long a = un(dm.getLowerBound()), b = un(dm.getUpperBound());
          if (a <= -INF) a = std::min(b, 0L) - 3;
          if (b >= INF) b = std::max(a, 0L) + 6;
          if (k == 2 && a < 1) a = 1;
          long v = a + s.draw(0, b - a);
          s.note() << t.name << "." << t.v[k]->getName() << " := " << v << "; ";
          t.v[k]->specify(edouble((double)v));
          t.spec[k] = true; t.val[k] = v;
          if (t.event) { t.spec[1] = true; t.val[1] = v; }
          break;
        }
        case 2: {
          int k = (int)s.weighted({3, 2, 1, 3});
          if (t.event && (k == 1 || k == 2)) k = 0;
          if (!t.spec[k] || (k == 2 && flowUsed())) break;
          s.note() << "reset " << t.name << "." << t.v[k]->getName() << "; ";
          t.v[k]->reset();
          t.spec[k] = false;
          if (t.event) t.spec[1] = false;
          relaxed = true;
          break;
        }
        case 3: {
          int j = (int)s.idx(tok.size());
          if (!can() || i == j || tok[j].dead || link.size() > 6 || !listened(i, j)) break;
          Link l; l.a = i; l.b = j; l.ka = t.event ? 0 : (int)s.draw(0, 1); l.kb = tok[j].event ? 0 : (int)s.draw(0, 1); l.eq = s.chance(1, 5);
          if (!t.event && s.flip()) { l.ka = 1; l.kb = 0; }
          std::vector<ConstrainedVariableId> sc{t.v[l.ka], tok[j].v[l.kb]};
          s.note() << t.name << (l.ka ? ".end " : ".start ") << (l.eq ? "concurrent " : "precedes ") << tok[j].name << (l.kb ? ".end; " : ".start; ");
          l.id = ce.createConstraint(l.eq ? "concurrent" : "precedes", sc);
          link.push_back(l);
          break;
        }
        case 4: {
          if (link.empty()) break;
          size_t n = s.idx(link.size());
          if (!listened(link[n].a, link[n].b)) break;
          drop(n);
          break;
        }
        case 5: {   // activate, cancel
          if (t.active) {
            if (!t.id->getState()->isSpecified() || t.id->getState()->baseDomain().isSingleton()) break;
            s.note() << "cancel " << t.name << "; ";
            t.id->cancel(); t.active = false; relaxed = true;
          } else if (can() && !ce.pending()) { s.note() << "activate " << t.name << "; "; t.id->activate(); t.active = true; }
          break;
        }
        case 6: {   // assign or free the resource
          if (res.size() < 2) break;
          if (t.obj >= 0) { s.note() << "free " << t.name << "; "; t.id->getObject()->reset(); t.obj = -1; relaxed = true; }
          else if (can() && !ce.pending()) assign(t);
          break;
        }
        case 7: {   // delete
          if (!s.chance(1, 2)) break;
          bool stop = false;
          for (size_t n = link.size(); n-- > 0;) if (link[n].a == i || link[n].b == i) { if (!listened(link[n].a, link[n].b)) { stop = true; break; } drop(n); }
          if (stop) break;
          s.note() << "delete " << t.name << "; ";
          delete static_cast<Token*>(t.id);
          t.dead = true; relaxed = true;
          break;
        }
        case 8: {   // narrow a base domain
          int k = s.flip() ? 0 : 3;
          if (!can() || ce.pending() || t.spec[k] || t.v[k]->isSpecified() || t.v[k]->lastDomain().isSingleton() || t.v[k]->lastDomain().isEmpty()) break;
          long a = un(t.v[k]->lastDomain().getLowerBound()), b = un(t.v[k]->lastDomain().getUpperBound());
          if (a <= -INF || b >= INF) break;
          long l = a + s.draw(0, b - a), u = l + s.draw(0, b - l);
          s.note() << t.name << "." << t.v[k]->getName() << " in [" << l << " " << u << "]; ";
          if (k == 0) t.v[k]->restrictBaseDomain(IntervalIntDomain(ei(l), ei(u)));
          else t.v[k]->restrictBaseDomain(IntervalDomain(ed(l), ed(u)));
          t.lo[k] = l; t.hi[k] = u;
          if (t.event) { t.lo[1] = l; t.hi[1] = u; }
          break;
        }
        case 9: if (can() && !ce.pending()) { settle(); if (ok) { profileChange((int)s.idx(res.size())); settle(); } } break;
        default: settle();
      }
    }
    settle();
  }
  void drop(size_t n) {
    Link l = link[n];
    s.note() << "drop " << tok[l.a].name << (l.ka ? ".end " : ".start ") << (l.eq ? "concurrent " : "precedes ") << tok[l.b].name << (l.kb ? ".end; " : ".start; ");
    en.ce().deleteConstraint(l.id);
    link.erase(link.begin() + (long)n);
    relaxed = true;
  }
};
void limits(Src& s) { Limits l(s); l.run(); }
// A capacity that drops where no transaction begins or ends leaves the level below its limit unnoticed.
void between() {
  nddl::Env en(true, true);
  PlanDatabaseId db = en.db().getId();
  Reservoir* r = new Reservoir(db, "Reservoir", "res", "ClosedWorldFVDetector", "TimetableProfile", edouble(4.0), edouble(4.0), edouble(0.0), edouble(9.0));
  r->setCapacity(eint(5), edouble(2.0), edouble(2.0));
  db->close();
  new ReservoirToken(db, "Reservoir.consume", IntervalIntDomain(2, 2), IntervalDomain(3.0, 3.0), true, true, true);
  if (en.ce().propagate()) pbt::fail("capacity 4, from 5 on 2; 3 consumed at 2: the level is -1 from 5 on and the plan is reported consistent", "capacity-drop-between-instants");
}
void timetable(Src& s) { history(s, {"TimetableProfile", "GroundedProfile"}, false); }
void flow(Src& s) { history(s, {"FlowProfile", "IncrementalFlowProfile"}, true); }
}  // namespace
PBT_PROP("S01", "timetable", timetable, 30000);
PBT_PROP("S02", "flow", flow, 30000);
PBT_PROP("S03", "limits", limits, 20000);
PBT_PINNED("S03", "capacity-drop-between-instants", between);
