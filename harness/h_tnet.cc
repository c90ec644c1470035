// T01, T02: the simple temporal network against all-pairs shortest paths.
#include "pbt.hh"
#include "TemporalNetwork.hh"
#include "Error.hh"
#include <algorithm>
#include <list>
using namespace pbt;
using namespace EUROPA;

PBT_RULE("T01", "histories of adding time points, adding, narrowing and removing distance constraints (small, large, negative, zero, fixed and "
         "half-open bounds) and deleting time points, with the network asked at random moments; non-trivial when the network held at least three "
         "constraints at a question and something was removed or narrowed, or a cycle of constraints was inconsistent, before it",
         {"edge lengths stay below 1/16 of the representable maximum, as the network asks of its clients", "a time point may be deleted with constraints on it, which are then not used any more",
          "narrowing is only asked for bounds which are tighter, and additions always ask for propagation"});
PBT_RULE("T02", "the same histories, with single, multiple and sign-only distance queries and distance tests between random time points (including "
         "the origin and a point and itself), every answer compared with all-pairs shortest paths and all bounds re-read afterwards; non-trivial when "
         "the two points of a query are connected through a third one",
         {"tests of a distance against a bound may be approximate on the safe side, as their comments say; the exact queries may not"});

namespace {
const long INF = 1L << 60;
struct C { TemporalConstraint* id; int a, b; long lb, ub; };
struct Sys {
  std::unique_ptr<TemporalNetwork> tn{new TemporalNetwork};
  std::vector<Timepoint*> tp;   // 0 is the origin; null when deleted
  std::vector<C> cs;
  Sys() { tp.push_back(&tn->getOrigin()); }
  std::vector<int> live() const { std::vector<int> r; for (size_t i = 0; i < tp.size(); i++) if (tp[i]) r.push_back((int)i); return r; }
};
long in(long v) { return v >= INF ? (long)POS_INFINITY : v <= -INF ? (long)NEG_INFINITY : v; }
long out(long v) { return v >= (long)POS_INFINITY ? INF : v <= (long)NEG_INFINITY ? -INF : v; }
std::string st(long v) { return v >= INF ? "inf" : v <= -INF ? "-inf" : std::to_string(v); }
struct Apsp { bool ok; std::vector<std::vector<long>> d; std::vector<std::vector<int>> via; };
Apsp apsp(const Sys& s) {
  size_t n = s.tp.size();
  Apsp r; r.ok = true;
  r.d.assign(n, std::vector<long>(n, INF)); r.via.assign(n, std::vector<int>(n, -1));
  for (size_t i = 0; i < n; i++) r.d[i][i] = 0;
  for (auto& c : s.cs) {
    if (c.ub < INF) r.d[c.a][c.b] = std::min(r.d[c.a][c.b], c.ub);
    if (c.lb > -INF) r.d[c.b][c.a] = std::min(r.d[c.b][c.a], -c.lb);
  }
  for (size_t k = 0; k < n; k++) for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++)
    if (r.d[i][k] < INF && r.d[k][j] < INF && r.d[i][k] + r.d[k][j] < r.d[i][j]) { r.d[i][j] = std::max(-INF + 1, r.d[i][k] + r.d[k][j]); r.via[i][j] = (int)k; }
  for (size_t i = 0; i < n; i++) if (r.d[i][i] < 0) r.ok = false;
  return r;
}
long len(Src& s, int scale) {
  switch (scale) {
  case 0: return s.draw(-3, 5);
  case 1: return s.draw(-20, 30);
  case 2: return s.draw(-1000000, 1000000);
  default: { long m = (long)MAX_LENGTH / 16; return s.flip() ? s.draw(-m, m) : (s.flip() ? 1 : -1) * (m - s.draw(0, 3)); }
  }
}
void bounds(Src& s, int scale, long& lb, long& ub) {
  lb = len(s, scale); ub = len(s, scale);
  if (lb > ub) std::swap(lb, ub);
  switch (s.weighted({6, 3, 3, 2, 2, 1})) {
  case 0: break;
  case 1: lb = -INF; break;
  case 2: ub = INF; break;
  case 3: lb = 0; ub = INF; break;
  case 4: ub = lb; break;
  default: lb = -INF; ub = INF; break;
  }
  if (s.chance(1, 8)) lb = ub = 0;
}
// one change; false when nothing was possible
bool change(Src& s, Sys& y, int scale, bool& disturbed) {
  std::vector<int> lv = y.live();
  switch (s.weighted({12, 3, 4, 5, 2})) {
  case 0: {
    if (lv.size() < 2) return false;
    C c; c.a = s.pick(lv); do c.b = s.pick(lv); while (c.b == c.a && s.chance(7, 8));
    if (c.a == c.b) return false;
    // half of the time a bound which is likely to hold already or to be only just violated
    bounds(s, scale, c.lb, c.ub);
    s.note() << "add p" << c.a << " -> p" << c.b << " [" << st(c.lb) << ", " << st(c.ub) << "]\n";
    c.id = y.tn->addTemporalConstraint(*y.tp[c.a], *y.tp[c.b], in(c.lb), in(c.ub));
    REQUIRE(c.id != nullptr, "constraint was not added");
    Timepoint *p, *q;
    y.tn->getConstraintScope(*c.id, p, q);
    REQUIRE(p == y.tp[c.a] && q == y.tp[c.b], "constraint does not relate the points it was given");
    y.cs.push_back(c);
    s.label("add");
    return true;
  }
  case 1: {
    if (y.tp.size() > 10) return false;
    s.note() << "point p" << y.tp.size() << "\n";
    y.tp.push_back(&y.tn->addTimepoint());
    return true;
  }
  case 2: {
    if (y.cs.empty()) return false;
    C& c = y.cs[s.idx(y.cs.size())];
    long l, u; bounds(s, scale, l, u);
    l = std::max(l, c.lb); u = std::min(u, c.ub);
    if (l > u) return false;
    s.note() << "narrow p" << c.a << " -> p" << c.b << " [" << st(c.lb) << ", " << st(c.ub) << "] to [" << st(l) << ", " << st(u) << "]\n";
    y.tn->narrowTemporalConstraint(*c.id, in(l), in(u));
    c.lb = l; c.ub = u;
    REQUIRE(out(y.tn->getConstraintLowerBound(*c.id)) == l && out(y.tn->getConstraintUpperBound(*c.id)) == u, "narrowed constraint gives other bounds");
    disturbed = true;
    s.label("narrow");
    return true;
  }
  case 3: {
    if (y.cs.empty()) return false;
    size_t i = s.idx(y.cs.size());
    C c = y.cs[i];
    s.note() << "remove p" << c.a << " -> p" << c.b << " [" << st(c.lb) << ", " << st(c.ub) << "]\n";
    y.tn->removeTemporalConstraint(*c.id);
    y.cs.erase(y.cs.begin() + i);
    disturbed = true;
    s.label("remove");
    return true;
  }
  default: {
    if (lv.size() < 2) return false;
    int k = lv[1 + s.idx(lv.size() - 1)];
    bool first = s.chance(2, 3);
    for (size_t i = 0; i < y.cs.size();)
      if (y.cs[i].a == k || y.cs[i].b == k) { if (first) y.tn->removeTemporalConstraint(*y.cs[i].id); y.cs.erase(y.cs.begin() + i); } else i++;
    s.note() << "delete p" << k << " " << (first ? " after its constraints" : " with its constraints") << "\n";
    y.tn->deleteTimepoint(*y.tp[k]);
    y.tp[k] = nullptr;
    disturbed = true;
    s.label("delete point");
    return true;
  }
  }
}
void checkBounds(Sys& y, const Apsp& a, const char* when) {
  for (int i : y.live()) {
    Time lb, ub;
    y.tn->getTimepointBounds(*y.tp[i], lb, ub);
    long el = a.d[i][0] >= INF ? -INF : -a.d[i][0], eu = a.d[0][i];
    REQUIRE(out(lb) == el && out(ub) == eu, when << ": p" << i << " has [" << st(out(lb)) << ", " << st(out(ub)) << "], shortest paths give [" << st(el) << ", " << st(eu) << "]");
    REQUIRE(out(y.tn->getLowerTimepointBound(*y.tp[i])) == el && out(y.tn->getUpperTimepointBound(*y.tp[i])) == eu, when << ": single bounds of p" << i << " differ");
  }
}
void checkNogood(Sys& y) {
  std::list<Dedge*> ng = y.tn->getEdgeNogoodList();
  REQUIRE(!ng.empty(), "inconsistent without an explanation");
  std::list<Timepoint*> why = y.tn->getInconsistencyReason();
  REQUIRE(why.size() == ng.size(), why.size() << " points and " << ng.size() << " edges explain the inconsistency");
  long sum = 0;
  std::map<Timepoint*, int> outd, ind;
  auto p = why.begin();
  const Dedge* prev = nullptr;
  for (Dedge* e : ng) {
    auto a = std::find_if(y.tp.begin(), y.tp.end(), [&](Timepoint* t) { return t && static_cast<Dnode*>(t) == &e->from; });
    auto b = std::find_if(y.tp.begin(), y.tp.end(), [&](Timepoint* t) { return t && static_cast<Dnode*>(t) == &e->to; });
    REQUIRE(a != y.tp.end() && b != y.tp.end(), "the explanation names a point which is not in the network");
    REQUIRE(*p++ == *b, "points and edges of the explanation differ");
    int i = (int)(a - y.tp.begin()), j = (int)(b - y.tp.begin());
    long best = INF;
    for (auto& c : y.cs) {
      if (c.a == i && c.b == j) best = std::min(best, c.ub);
      if (c.b == i && c.a == j && c.lb > -INF) best = std::min(best, -c.lb);
    }
    REQUIRE(best == e->length, "the explanation uses p" << i << " -> p" << j << " of length " << e->length << ", the constraints say " << st(best));
    sum += e->length;
    if (prev) REQUIRE(&prev->from == &e->to, "the explanation is not a path");
    prev = e;
  }
  REQUIRE(&ng.back()->from == &ng.front()->to, "the explanation is not a cycle");
  REQUIRE(sum < 0, "the explanation is a cycle of length " << sum);
}
void history(Src& s, bool queries) {
  Sys y;
  int scale = (int)s.weighted({6, 4, 2, 1});
  long n = 1 + (s.chance(1, 3) ? s.draw(2, 8) : s.geo(6));
  for (long i = 0; i < n; i++) { s.note() << "point p" << y.tp.size() << "\n"; y.tp.push_back(&y.tn->addTimepoint()); }
  long steps = s.chance(1, 3) ? s.draw(10, 70) : 2 + s.geo(30);
  bool disturbed = false;
  Apsp a;
  for (long k = 0; k < steps; k++) {
    change(s, y, scale, disturbed);
    if (!s.chance(1, 2) && k + 1 < steps) continue;
    s.note() << "ask\n";
    a = apsp(y);
    bool ok = y.tn->propagate();
    REQUIRE(ok == a.ok, (ok ? "reported consistent, but the distance graph has a negative cycle" : "reported inconsistent, but the distance graph has no negative cycle"));
    REQUIRE(!y.tn->updateRequired(), "an update is required after propagation");
    s.label(ok ? "consistent" : "inconsistent");
    if (!queries) {
      if (y.cs.size() >= 3 && (disturbed || !ok)) s.nontrivial();
      if (!ok) {
        checkNogood(y);
        for (int i : y.live()) { Time lb, ub; y.tn->getTimepointBounds(*y.tp[i], lb, ub); REQUIRE(lb > ub, "an inconsistent network gives bounds"); }
        disturbed = true;
        continue;
      }
      REQUIRE(y.tn->getEdgeNogoodList().empty(), "a consistent network explains an inconsistency");
      checkBounds(y, a, "bounds");
      continue;
    }
    if (!ok) {
      std::vector<int> lv = y.live();
      Time lb, ub;
      y.tn->calcDistanceBounds(*y.tp[s.pick(lv)], *y.tp[s.pick(lv)], lb, ub, s.flip());
      REQUIRE(lb > ub, "distance bounds in an inconsistent network");
      continue;
    }
    std::vector<int> lv = y.live();
    long nq = 1 + s.geo(5);
    for (long q = 0; q < nq; q++) {
      int i = s.pick(lv), j = s.pick(lv);
      long eu = a.d[i][j], el = a.d[j][i] >= INF ? -INF : -a.d[j][i];
      if (a.via[i][j] >= 0 || a.via[j][i] >= 0) s.nontrivial();
      Time lb, ub;
      std::ostringstream h; h << "p" << i << " -> p" << j << " is [" << st(el) << ", " << st(eu) << "]";
      switch (s.weighted({4, 3, 4, 4, 5, 2})) {
      case 0:
        s.note() << "distance p" << i << " p" << j << "\n"; s.label("single");
        y.tn->calcDistanceBounds(*y.tp[i], *y.tp[j], lb, ub);
        REQUIRE(out(lb) == el && out(ub) == eu, h.str() << ", answered [" << st(out(lb)) << ", " << st(out(ub)) << "]");
        break;
      case 1: {
        if (i == j) break;
        s.note() << "outer distance p" << i << " p" << j << "\n"; s.label("outer");
        y.tn->calcDistanceBounds(*y.tp[i], *y.tp[j], lb, ub, false);
        REQUIRE(out(lb) <= el && out(ub) >= eu, h.str() << ", the direct bounds are answered as [" << st(out(lb)) << ", " << st(out(ub)) << "]");
        long du = INF, dl = -INF;
        for (auto& c : y.cs) { if (c.a == i && c.b == j) { du = std::min(du, c.ub); dl = std::max(dl, c.lb); } if (c.a == j && c.b == i) { du = std::min(du, c.lb <= -INF ? INF : -c.lb); dl = std::max(dl, c.ub >= INF ? -INF : -c.ub); } }
        REQUIRE(out(lb) == dl && out(ub) == du, "direct bounds p" << i << " -> p" << j << " are [" << st(dl) << ", " << st(du) << "], answered [" << st(out(lb)) << ", " << st(out(ub)) << "]");
        break;
      }
      case 2: case 3: {
        bool signs = s.flip();
        std::vector<int> t; std::vector<Timepoint*> ts;
        long m = s.geo(6);
        for (long x = 0; x < m; x++) { t.push_back(s.pick(lv)); ts.push_back(y.tp[t.back()]); }
        s.note() << (signs ? "signs p" : "distances p") << i; for (int x : t) s.note() << " p" << x; s.note() << "\n"; s.label(signs ? "signs" : "many");
        std::vector<Time> lbs(1, 7), ubs(2, 7);
        if (signs) y.tn->calcDistanceSigns(*y.tp[i], ts, lbs, ubs); else y.tn->calcDistanceBounds(*y.tp[i], ts, lbs, ubs);
        REQUIRE(lbs.size() == t.size() && ubs.size() == t.size(), lbs.size() << " answers to " << t.size() << " questions");
        for (size_t x = 0; x < t.size(); x++) {
          long u = a.d[i][t[x]], l = a.d[t[x]][i] >= INF ? -INF : -a.d[t[x]][i];
          if (a.via[i][t[x]] >= 0 || a.via[t[x]][i] >= 0) s.nontrivial();
          auto sg = [](long v) { return v < 0 ? -1 : v > 0 ? 1 : 0; };
          if (signs) REQUIRE(sg(lbs[x]) == sg(l) && sg(ubs[x]) == sg(u), "p" << i << " -> p" << t[x] << " is [" << st(l) << ", " << st(u) << "], signs answered " << lbs[x] << " and " << ubs[x]);
          else REQUIRE(out(lbs[x]) == l && out(ubs[x]) == u, "p" << i << " -> p" << t[x] << " is [" << st(l) << ", " << st(u) << "], answered [" << st(out(lbs[x])) << ", " << st(out(ubs[x])) << "] among " << t.size());
        }
        break;
      }
      case 4: {
        long b = s.chance(2, 3) && eu < INF ? eu + s.draw(-1, 2) : s.chance(1, 4) ? s.draw(-1, 1) : len(s, scale);
        bool orEq = s.flip();
        s.note() << "p" << i << " p" << j << (orEq ? " <= " : " < ") << b << "\n"; s.label("less");
        bool r = orEq ? y.tn->isDistanceLessThanOrEqual(*y.tp[i], *y.tp[j], b) : y.tn->isDistanceLessThan(*y.tp[i], *y.tp[j], b);
        REQUIRE(!r || eu < b + (orEq ? 1 : 0), h.str() << ", claimed to be" << (orEq ? " at most " : " less than ") << b);
        s.label(r ? "claimed" : eu < b + (orEq ? 1 : 0) ? "not claimed although true" : "not claimed");
        // two points joined by one constraint only: nothing is left to approximation
        if (!r && a.via[i][j] < 0 && y.live().size() <= 3 && i != j && b != 1 && !(orEq && b == 0)) REQUIRE(!(eu < b + (orEq ? 1 : 0)) || a.via[j][i] >= 0 || y.cs.size() > 1, h.str() << ", not recognised as below " << b);
        break;
      }
      default: {
        long b = s.chance(2, 3) && eu < INF ? eu + s.draw(-1, 2) : len(s, scale);
        s.note() << "p" << i << " p" << j << " possibly < " << b << "\n"; s.label("possibly");
        bool r = y.tn->isDistancePossiblyLessThan(*y.tp[i], *y.tp[j], b);
        REQUIRE(r || eu >= b, h.str() << ", claimed not possibly less than " << b);
      }
      }
      if (s.flip()) checkBounds(y, a, "after a question");
    }
    checkBounds(y, a, "after the questions");
  }
}
void t01(Src& s) { history(s, false); }
void t02(Src& s) { history(s, true); }
}
PBT_PROP("T01", "bounds_and_verdict", t01, 600000, 40, 2000);
PBT_PROP("T02", "distance_queries", t02, 450000, 40, 2000);
