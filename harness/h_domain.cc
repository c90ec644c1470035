// C01: domains are the sets they denote.  C02: every change is announced.
#include "pbt.hh"
#include "cenet.hh"
#include "Domains.hh"
#include "DataTypes.hh"
#include "DomainListener.hh"
#include "LabelStr.hh"
#include "ConstraintEngine.hh"
#include "ConstrainedVariable.hh"
#include "Variable.hh"
#include "ModuleConstraintEngine.hh"
#include "Engine.hh"
#include "Schema.hh"
#include "CESchema.hh"
#include <algorithm>
#include <bitset>
#include <memory>
#include <set>
using namespace pbt;
using namespace EUROPA;

PBT_RULE("C01", "pairs of domains of every kind (bool, int and real intervals with finite and infinite ends, numeric / string / symbol enumerations, closed and open) and sequences of up to 12 operations on them, "
         "compared after every operation with explicit sets over a grid of quarter steps plus two far-away points; non-trivial when some operation changed a set of at least two values without emptying it",
         {"interval ends are multiples of 1/2, so that the documented comparison tolerance (1e-5) plays no part",
          "operations are called within their stated preconditions: other operand not empty, no removal from inside an interval, relaxation to a superset",
          "an interval narrowed by a domain it cannot represent (enumeration, other number type) is narrowed to bounds; a real and an integer interval are compared by their bounds"});
PBT_RULE("C02", "the operation sequences of C01 with a recording listener, and histories of specify / reset / restrict / open / close / insert / remove on engine variables with a reference model; "
         "non-trivial when at least two different kinds of change were announced",
         {"operations are called within their stated preconditions"});

// ------------------------------------------------------------ the universe
static const int NP = 55;  // 53 quarter-grid points -5..8, then -1e6 and +1e6
static const int FARLO = 53, FARHI = 54;
typedef std::bitset<64> Set;
static double pt(int i) { return i == FARLO ? -1e6 : i == FARHI ? 1e6 : -5 + i * 0.25; }
static int at(double v) { return (int)((v + 5) * 4); }
enum Kind { BOOL, INT, REAL, NUM, STR, SYM, NK };
static const char* kindName[] = {"bool", "int", "real", "numbers", "string", "symbol"};
static bool isIv(Kind k) { return k <= REAL; }
static bool isNumK(Kind k) { return k <= NUM; }
static std::vector<LabelStr>& syms() { static std::vector<LabelStr> v; if (v.empty()) for (const char* s : {"red", "green", "blue", "", "Red", "zz"}) v.push_back(LabelStr(s)); return v; }

struct Model {  // the set, the explicit ends for intervals
  Kind k;
  bool open = false;   // open enumeration: s holds the explicitly listed values
  Set s;
};
static edouble val(Kind k, int i) { return isNumK(k) ? edouble(pt(i)) : edouble(syms()[i].getKey()); }
static int universe(Kind k) { return isNumK(k) ? NP : (int)syms().size(); }
static bool integral(int i) { return i >= FARLO || i % 4 == 0; }
static Set carrier(Kind k) {
  Set r;
  for (int i = 0; i < universe(k); i++)
    if (k == BOOL ? (pt(i) == 0 || pt(i) == 1) : k == INT ? integral(i) : true) r[i] = 1;
  return r;
}
static std::vector<int> ordered(const Set& s) {  // by value
  std::vector<int> v;
  if (s[FARLO]) v.push_back(FARLO);
  for (int i = 0; i < FARLO; i++) if (s[i]) v.push_back(i);
  if (s[FARHI]) v.push_back(FARHI);
  return v;
}
static std::string show(const Model& m) {
  std::ostringstream o;
  o << kindName[m.k] << (m.open ? " open" : "") << " {";
  bool first = true;
  std::vector<int> v;
  if (isNumK(m.k)) v = ordered(m.s); else for (int i = 0; i < 64; i++) if (m.s[i]) v.push_back(i);
  for (size_t j = 0; j < v.size(); j++) {
    if (!first) o << " ";
    first = false;
    if (!isNumK(m.k)) { o << "'" << syms()[v[j]].toString() << "'"; continue; }
    if (isIv(m.k) && v.size() > 3) { o << (v[0] == FARLO ? "-inf" : std::to_string(pt(v[0]))) << " .. " << (v.back() == FARHI ? "+inf" : std::to_string(pt(v.back()))); break; }
    o << pt(v[j]);
  }
  o << "}";
  return o.str();
}
static Set span(Kind k, int lo, int hi) {  // lo = -1: from -infinity, hi = -1: to +infinity
  Set r, c = carrier(k);
  for (int i = 0; i < FARLO; i++) if (c[i] && (lo < 0 || i >= lo) && (hi < 0 || i <= hi)) r[i] = 1;
  if (lo < 0) r[FARLO] = c[FARLO];
  if (hi < 0) r[FARHI] = c[FARHI];
  return r;
}
static Set hull(Kind k, const Set& s) {
  std::vector<int> v = ordered(s);
  if (v.empty()) return Set();
  if (k == BOOL) return s;
  return span(k, v[0] == FARLO ? -1 : v[0], v.back() == FARHI ? -1 : v.back());
}

struct Rec : DomainListener {
  std::vector<ChangeType> ev;
  void notifyChange(const ChangeType& c) { ev.push_back(c); }
};
static std::string showEv(const std::vector<DomainListener::ChangeType>& e) {
  std::string r;
  for (auto x : e) r += DomainListener::toString(x) + " ";
  return r.empty() ? "none" : r;
}

// draws a model; lo/hi returned for interval construction
static Model genModel(Src& s, Kind k, bool allowOpen, std::unique_ptr<Domain>& d) {
  Model m; m.k = k;
  if (isIv(k)) {
    int lo, hi;
    if (k == BOOL) {
      int w = (int)s.draw(0, 2);
      m.s = w == 0 ? carrier(BOOL) : Set(); if (w) m.s[at(w - 1)] = 1;
      d.reset(w == 0 ? new BoolDomain() : new BoolDomain(w == 2));
      return m;
    }
    int step = k == INT ? 4 : 2;
    size_t form = s.weighted({8, 2, 2, 1, 3});
    lo = step * (int)s.draw(0, 52 / step); hi = step * (int)s.draw(lo / step, 52 / step);
    if (form == 1) lo = -1;
    if (form == 2) hi = -1;
    if (form == 3) lo = hi = -1;
    if (form == 4) hi = lo;
    m.s = span(k, lo, hi);
    edouble L = lo < 0 ? edouble(MINUS_INFINITY) : edouble(pt(lo)), H = hi < 0 ? edouble(PLUS_INFINITY) : edouble(pt(hi));
    if (k == INT) { IntervalIntDomain* x = new IntervalIntDomain(); d.reset(x); if (lo >= 0 || hi >= 0) x->intersect(L, H);
      if (lo >= 0 && hi >= 0 && s.flip()) d.reset(new IntervalIntDomain((eint::basis_type)pt(lo), (eint::basis_type)pt(hi))); }
    else if (lo == hi && lo >= 0 && s.flip()) d.reset(new IntervalDomain(pt(lo)));
    else d.reset(new IntervalDomain(L, H));
    return m;
  }
  int n = k == NUM ? 27 : (int)syms().size();
  m.open = allowOpen && s.chance(1, 4);
  long c = s.draw(m.open ? 0 : 1, 5);
  std::list<edouble> l;
  for (long i = 0; i < c; i++) { int x = (int)s.draw(0, n - 1); if (k == NUM) x *= 2; m.s[x] = 1; l.push_back(val(k, x)); }
  EnumeratedDomain* e;
  if (m.open) {
    if (k == NUM) e = new NumericDomain(FloatDT::instance());
    else if (k == STR) e = new StringDomain();
    else e = new SymbolDomain();
    e->insert(l);
  } else if (k == NUM) e = new NumericDomain(l);
  else if (k == STR) e = new StringDomain(l, StringDT::instance());
  else e = new SymbolDomain(l);
  d.reset(e);
  return m;
}
static bool comparable(Kind a, Kind b) { return isNumK(a) ? isNumK(b) : a == b; }

static void agree(const Domain& d, const Model& m, const char* when) {
  std::string w = std::string(when) + ": domain " + d.toString() + " should be " + show(m) + ": ";
  REQUIRE(d.isOpen() == m.open && d.isClosed() == !m.open, w << "closedness");
  REQUIRE(d.isEnumerated() == !isIv(m.k) && d.isInterval() == isIv(m.k), w << "representation");
  int n = (int)m.s.count();
  for (int i = 0; i < universe(m.k); i++) {
    if (m.k == BOOL && (pt(i) != 0 && pt(i) != 1)) continue;
    bool want = m.s[i];
    if (m.open && m.k == STR) want = true;
    REQUIRE(d.isMember(val(m.k, i)) == want, w << "membership of " << (isNumK(m.k) ? std::to_string(pt(i)) : syms()[i].toString()));
  }
  REQUIRE(d.isEmpty() == (n == 0), w << "isEmpty");
  bool far = m.s[FARLO] || m.s[FARHI];
  bool single = m.k == REAL ? (n == 1) : n == 1 && !(isIv(m.k) && far);
  REQUIRE(d.isSingleton() == single, w << "isSingleton");
  bool finite = !isIv(m.k) || m.k == BOOL || (m.k == INT ? !far : n <= 1);
  REQUIRE(d.isFinite() == finite && d.isInfinite() == !finite, w << "isFinite");
  if (single) REQUIRE(d.getSingletonValue() == val(m.k, isNumK(m.k) ? ordered(m.s)[0] : (int)m.s._Find_first()), w << "single value");
  if (finite && !m.open) REQUIRE((int)d.getSize() == n, w << "size " << d.getSize());
  if (n && !m.open) {
    edouble lb, ub; d.getBounds(lb, ub);
    REQUIRE(lb == d.getLowerBound() && ub == d.getUpperBound(), w << "getBounds");
    if (isNumK(m.k)) {
      std::vector<int> v = ordered(m.s);
      edouble L = v[0] == FARLO && isIv(m.k) ? edouble(MINUS_INFINITY) : edouble(pt(v[0])), H = v.back() == FARHI && isIv(m.k) ? edouble(PLUS_INFINITY) : edouble(pt(v.back()));
      REQUIRE(lb == L && ub == H, w << "bounds [" << lb << ", " << ub << "]");
      REQUIRE(d.areBoundsFinite() == !(isIv(m.k) && far), w << "areBoundsFinite");
    }
  }
  if (finite && !m.open && (m.k != REAL || single)) {
    std::list<edouble> l; d.getValues(l);
    std::set<double> got, want;
    for (auto x : l) got.insert(cast_double(x));
    for (int i = 0; i < universe(m.k); i++) if (m.s[i]) want.insert(cast_double(val(m.k, i)));
    REQUIRE(l.size() == want.size() && got == want, w << "listed values");
  }
  REQUIRE(!d.toString().empty(), w << "toString");
}

// is the set X (a subset of the carrier) representable in kind k, i.e. for intervals: no holes
static bool representable(Kind k, const Set& x) {
  if (!isIv(k) || k == BOOL) return true;
  if ((x[FARHI] && !x[FARLO - 1]) || (x[FARLO] && !x[0])) return false;  // the far points stand for infinite ends: the finite end must stay on the grid
  return x == hull(k, x);
}

static void queries(const Domain& a, const Model& ma, const Domain& b, const Model& mb) {
  std::string w = a.toString() + " (" + show(ma) + ") and " + b.toString() + " (" + show(mb) + "): ";
  REQUIRE(Domain::canBeCompared(a, b), w << "cannot be compared");
  if (mb.s.none() || ma.s.none()) return;
  if (isIv(ma.k) && isIv(mb.k) && (ma.k == REAL) != (mb.k == REAL)) {  // a real and an integer interval are compared by their bounds
    Model x = ma, y = mb; x.k = y.k = REAL; x.s = hull(REAL, ma.s); y.s = hull(REAL, mb.s);
    bool fin = a.isFinite(), finb = b.isFinite();
    bool sub = ma.k == REAL ? (ma.s & ~mb.s).none() && fin : (fin || !finb) && (x.s & ~y.s).none();
    REQUIRE(a.isSubsetOf(b) == sub, w << "isSubsetOf");
    REQUIRE(a.intersects(b) == (x.s & y.s).any(), w << "intersects");
    REQUIRE((a == b) == (x.s == y.s && fin == finb) && (a != b) == !(a == b), w << "== or !=");
    return;
  }
  bool sub = mb.open ? true : ma.open ? false : (ma.s & ~mb.s).none();
  bool inter = mb.open || ma.open ? true : (ma.s & mb.s).any();
  REQUIRE(a.isSubsetOf(b) == sub, w << "isSubsetOf should be " << sub);
  REQUIRE(a.intersects(b) == inter, w << "intersects should be " << inter);
  bool eq = ma.open == mb.open && (ma.s == mb.s || (ma.open && ma.k == STR));  // an open string domain holds every string
  REQUIRE((a == b) == eq, w << "== should be " << eq);
  REQUIRE((a != b) == !eq, w << "!= should be " << !eq);
}

// events of one narrowing operation on an interval or closed enumeration
static void narrowEvents(const char* op, const Model& before, const Model& after, const std::vector<DomainListener::ChangeType>& ev, const std::string& w) {
  typedef DomainListener L;
  std::string x = std::string(op) + " on " + show(before) + " giving " + show(after) + " " + w + " announced " + showEv(ev) + ": ";
  if (before.s == after.s && before.open == after.open) { REQUIRE(ev.empty(), x << "nothing changed"); return; }
  REQUIRE(ev.size() == 1, x << "expected exactly one announcement");
  int n = (int)after.s.count();
  bool far = after.s[FARLO] || after.s[FARHI];
  if (n == 0) { REQUIRE(ev[0] == L::EMPTIED, x << "expected EMPTIED"); return; }
  if (n == 1 && !(isIv(after.k) && far)) { REQUIRE(ev[0] == L::RESTRICT_TO_SINGLETON, x << "expected RESTRICT_TO_SINGLETON"); return; }
  if (!isIv(after.k)) { REQUIRE(ev[0] == L::VALUE_REMOVED, x << "expected VALUE_REMOVED"); return; }
  std::vector<int> b = ordered(before.s), a = ordered(after.s);
  bool lo = b[0] != a[0], hi = b.back() != a.back();
  REQUIRE(ev[0] == (lo && hi ? L::BOUNDS_RESTRICTED : lo ? L::LOWER_BOUND_INCREASED : L::UPPER_BOUND_DECREASED), x << "wrong kind");
}

static void algebra(Src& s, bool events) {
  Kind ka = (Kind)s.draw(0, NK - 1), kb;
  do { kb = s.chance(1, 2) ? ka : (Kind)s.draw(0, NK - 1); } while (!comparable(ka, kb));
  std::unique_ptr<Domain> a, b;
  Model ma = genModel(s, ka, true, a), mb = genModel(s, kb, true, b);
  Rec ra, rb;
  s.note() << "A = " << show(ma) << "  B = " << show(mb) << "\n";
  agree(*a, ma, "construction of A"); agree(*b, mb, "construction of B");
  if (events) {
    a->setListener(ra.getId()); b->setListener(rb.getId());
    ra.ev.clear(); rb.ev.clear();
  }
  std::set<int> kinds;
  bool big = false;
  long n = s.draw(1, 12);
  std::unique_ptr<Domain> base(a->copy());
  Model mbase = ma;
  for (long i = 0; i < n; i++) {
    if (ma.s.none() && !ma.open) {  // only relaxation makes sense
      Model old = ma;
      if (mbase.s.none()) break;
      bool rs = s.flip();
      s.note() << (rs ? "reset" : "relax") << " A to " << show(mbase) << "\n";
      if (rs) a->reset(*base); else a->relax(*base);
      ma = mbase;
      agree(*a, ma, "relaxed from empty");
      if (events) {
        bool relaxed = false, reset = false, other = false;
        for (auto e : ra.ev) { if (e == DomainListener::RELAXED) relaxed = true; else if (e == DomainListener::RESET) reset = true; else if (e != DomainListener::OPENED) other = true; kinds.insert(e); }
        REQUIRE(relaxed && reset == rs && !other, "relaxing from empty to " << show(ma) << " announced " << showEv(ra.ev));
        ra.ev.clear();
      }
      continue;
    }
    Model pa = ma, pb = mb;
    queries(*a, ma, *b, mb);
    queries(*b, mb, *a, ma);
    int op = (int)s.draw(0, 13);
    std::ostringstream desc;
    switch (op) {
    case 0: case 1: {  // A := A n B
      if (mb.s.none()) continue;
      if (ma.open && isIv(kb)) continue;               // stated precondition
      s.note() << "A.intersect(B)\n";
      Set exact = ma.open && !mb.open ? mb.s : mb.open ? ma.s : (ma.s & mb.s);
      bool ch = a->intersect(*b);
      if (ma.open && !mb.open) { ma.s = exact; ma.open = false;
        if (events) { REQUIRE(ra.ev.size() == 1 && (ra.ev[0] == DomainListener::CLOSED), "closing by intersection announced " << showEv(ra.ev)); kinds.insert(ra.ev[0]); ra.ev.clear(); }
        agree(*a, ma, "intersect of open with closed"); REQUIRE(ch, "intersect reports no change"); break; }
      if (isIv(ka) && !mb.open) ma.s = hull(ka, exact);  // an interval cannot hold gaps
      else ma.s = exact;
      agree(*a, ma, "intersect");
      REQUIRE(ch == (ma.s != pa.s), "intersect of " << show(pa) << " with " << show(mb) << " reports change " << ch);
      if (events) narrowEvents("intersect", pa, ma, ra.ev, "with " + show(mb));
      break; }
    case 2: {  // A := A n [lo, hi]
      if (!isNumK(ka) || ma.open) continue;
      int lo = (int)s.draw(0, 26) * 2, hi = (int)s.draw(lo / 2, 26) * 2;
      size_t f = s.weighted({6, 1, 1});
      if (f == 1) lo = -1;
      if (f == 2) hi = -1;
      s.note() << "A.intersect(" << (lo < 0 ? "-inf" : std::to_string(pt(lo))) << ", " << (hi < 0 ? "+inf" : std::to_string(pt(hi))) << ")\n";
      bool ch = a->intersect(lo < 0 ? edouble(MINUS_INFINITY) : edouble(pt(lo)), hi < 0 ? edouble(PLUS_INFINITY) : edouble(pt(hi)));
      ma.s &= span(REAL, lo, hi);
      agree(*a, ma, "intersect(lb,ub)");
      REQUIRE(ch == (ma.s != pa.s), "intersect(lb,ub) of " << show(pa) << " reports change " << ch);
      if (events) narrowEvents("intersect(lb,ub)", pa, ma, ra.ev, "");
      break; }
    case 3: {  // difference
      if (mb.s.none() || mb.open || ma.open) continue;
      Set r = ma.s & ~mb.s;
      if (isIv(ka)) {
        if (ka != kb || ka == REAL) continue;
        if (!representable(ka, r)) continue;
      }
      s.note() << "A.difference(B)\n";
      bool ch = a->difference(*b);
      ma.s = r;
      agree(*a, ma, "difference");
      REQUIRE(ch == (ma.s != pa.s), "difference of " << show(pa) << " and " << show(mb) << " reports change " << ch);
      if (events) narrowEvents("difference", pa, ma, ra.ev, "and " + show(mb));
      break; }
    case 4: case 5: {  // remove
      if (ka == REAL) continue;
      int v = isNumK(ka) ? (ka == BOOL ? at(s.draw(0, 1)) : ka == INT ? 4 * (int)s.draw(0, 13) : 2 * (int)s.draw(0, 26)) : (int)s.draw(0, (long)syms().size() - 1);
      Set r = ma.s; r[v] = 0;
      if (ma.open && r.none()) continue;
      if (!representable(ka, r) && !ma.open) continue;
      if (isIv(ka) && ma.s[v] && (ma.s[FARLO] && ma.s[FARHI])) continue;
      s.note() << "A.remove(" << (isNumK(ka) ? std::to_string(pt(v)) : syms()[v].toString()) << ")\n";
      a->remove(val(ka, v));
      ma.s = r;
      agree(*a, ma, "remove");
      if (events) narrowEvents("remove", pa, ma, ra.ev, "");
      break; }
    case 6: {  // set
      int v = isNumK(ka) ? (ka == BOOL ? at(s.draw(0, 1)) : ka == INT ? 4 * (int)s.draw(0, 13) : 2 * (int)s.draw(0, 26)) : (int)s.draw(0, (long)syms().size() - 1);
      if (ka == STR && !ma.s[v] && !ma.open) continue;
      s.note() << "A.set(" << (isNumK(ka) ? std::to_string(pt(v)) : syms()[v].toString()) << ")\n";
      bool mem = ma.s[v] || (ka == STR && ma.open);
      a->set(val(ka, v));
      ma.s = Set(); if (mem) ma.s[v] = 1;
      ma.open = false;
      agree(*a, ma, "set");
      if (events) {
        REQUIRE(!ra.ev.empty() && ra.ev.back() == (mem ? DomainListener::SET_TO_SINGLETON : DomainListener::EMPTIED), "set announced " << showEv(ra.ev));
        REQUIRE(ra.ev.size() == (pa.open ? 2u : 1u) || (pa.open && ra.ev.size() == 3), "set announced " << showEv(ra.ev));
      }
      break; }
    case 7: case 8: {  // equate
      if (mb.s.none() || ma.s.none()) continue;
      if ((ma.open && isIv(kb)) || (mb.open && isIv(ka))) continue;
      if (ka == kb || (isIv(ka) != isIv(kb)) || true) {
        s.note() << "A.equate(B)\n";
        bool ch = a->equate(*b);
        Set ea = ma.open ? mb.s : mb.open ? ma.s : ma.s & mb.s;
        // read both back and judge
        Model na = ma, nb = mb;
        na.open = a->isOpen(); nb.open = b->isOpen();
        for (int j = 0; j < universe(ka); j++) if (carrier(ka)[j]) na.s[j] = na.open && ka == STR ? ma.s[j] : a->isMember(val(ka, j));
        for (int j = 0; j < universe(kb); j++) if (carrier(kb)[j]) nb.s[j] = nb.open && kb == STR ? mb.s[j] : b->isMember(val(kb, j));
        if (ma.open && mb.open) { REQUIRE(!ch && na.s == ma.s && nb.s == mb.s, "equate of two open domains changed them"); }
        else if (ea.none()) {
          REQUIRE(ch, "equate of disjoint domains reports no change");
          REQUIRE(na.s.none() || nb.s.none(), "equate of disjoint " << show(pa) << " and " << show(pb) << " leaves " << show(na) << " and " << show(nb));
          REQUIRE(!(na.s.none() && nb.s.none()), "equate emptied both domains");
        } else {
          REQUIRE((ea & ~na.s).none() && (ea & ~nb.s).none(), "equate of " << show(pa) << " and " << show(pb) << " lost a common value: " << show(na) << " and " << show(nb));
          REQUIRE((na.s & ~(ma.open ? mb.s : ma.s)).none() && (nb.s & ~(mb.open ? ma.s : mb.s)).none(), "equate added a value");
          if (ka == kb || !isIv(ka)) REQUIRE(na.s == (isIv(ka) ? hull(ka, ea) : ea), "equate of " << show(pa) << " and " << show(pb) << " leaves " << show(na));
          if (ka == kb || !isIv(kb)) REQUIRE(nb.s == (isIv(kb) ? hull(kb, ea) : ea), "equate of " << show(pa) << " and " << show(pb) << " leaves " << show(nb));
          bool changed = na.s != ma.s || nb.s != mb.s || na.open != ma.open || nb.open != mb.open;
          REQUIRE(ch == changed, "equate of " << show(pa) << " and " << show(pb) << " reports change " << ch);
        }
        if (events) {
          auto seen = [&](const Model& o, const Model& nw, std::vector<DomainListener::ChangeType>& e, const char* who) {
            if (o.s == nw.s && o.open == nw.open) { REQUIRE(e.empty(), "equate announced " << showEv(e) << " for unchanged " << who << " " << show(o)); return; }
            REQUIRE(!e.empty(), "equate changed " << who << " from " << show(o) << " to " << show(nw) << " silently");
            if (o.open) return;
            if (nw.s.none()) REQUIRE(e.back() == DomainListener::EMPTIED, "equate emptied " << who << " and announced " << showEv(e));
            else { for (auto x : e) REQUIRE(DomainListener::isRestriction(x), "equate announced " << showEv(e) << " for restricting " << who);
              bool one = nw.s.count() == 1 && !(isIv(nw.k) && (nw.s[FARLO] || nw.s[FARHI]));
              REQUIRE((e.back() == DomainListener::RESTRICT_TO_SINGLETON) == one, "equate left " << who << " as " << show(nw) << " and announced " << showEv(e)); }
          };
          seen(pa, na, ra.ev, "A"); seen(pb, nb, rb.ev, "B");
          for (auto e : rb.ev) kinds.insert(e);
          rb.ev.clear();
        }
        ma = na; mb = nb;
        agree(*a, ma, "equate A");
        agree(*b, mb, "equate B");
        if (mb.s.none()) { s.note() << "B renewed: "; b.reset(); rb.ev.clear(); mb = genModel(s, kb, true, b); s.note() << show(mb) << "\n"; if (events) { b->setListener(rb.getId()); rb.ev.clear(); } }
      }
      break; }
    case 9: {  // empty
      if (s.chance(1, 2)) continue;
      s.note() << "A.empty()\n";
      a->empty(); ma.s = Set();
      if (events) REQUIRE(ra.ev.size() == 1 && ra.ev[0] == DomainListener::EMPTIED, "empty announced " << showEv(ra.ev));
      if (!ma.open) agree(*a, ma, "empty"); else { for (int j = 0; j < universe(ka); j++) if (ka != STR) REQUIRE(!a->isMember(val(ka, j)), "empty"); }
      break; }
    case 10: {  // open-domain insertion, int interval growth is not used by callers
      if (!ma.open) continue;
      int v = ka == NUM ? 2 * (int)s.draw(0, 26) : (int)s.draw(0, (long)syms().size() - 1);
      s.note() << "A.insert(" << (isNumK(ka) ? std::to_string(pt(v)) : syms()[v].toString()) << ")\n";
      a->insert(val(ka, v)); ma.s[v] = 1;
      agree(*a, ma, "insert");
      break; }
    case 11: {  // close / open
      if (isIv(ka)) continue;
      if (ma.open) { s.note() << "A.close()\n"; a->close(); ma.open = false;
        if (events) { REQUIRE(!ra.ev.empty() && ra.ev[0] == DomainListener::CLOSED, "close announced " << showEv(ra.ev)); REQUIRE(ra.ev.size() == (ma.s.none() ? 2u : 1u), "close announced " << showEv(ra.ev)); if (ma.s.none()) REQUIRE(ra.ev[1] == DomainListener::EMPTIED, "closing an empty domain announced " << showEv(ra.ev)); } }
      else { s.note() << "A.open()\n"; a->open(); ma.open = true; if (events) REQUIRE(ra.ev.size() == 1 && ra.ev[0] == DomainListener::OPENED, "open announced " << showEv(ra.ev)); }
      agree(*a, ma, "open/close");
      break; }
    case 12: {  // relax or reset to the starting domain
      if (ma.open || mbase.open || (ma.s & ~mbase.s).any() || mbase.s.none()) continue;
      bool rs = s.flip();
      s.note() << (rs ? "A.reset(base)" : "A.relax(base)") << "\n";
      if (rs) a->reset(*base); else a->relax(*base);
      ma = mbase;
      agree(*a, ma, "relax");
      if (events) {
        bool ch = pa.s != ma.s;
        std::string x = std::string(rs ? "reset" : "relax") + " from " + show(pa) + " to " + show(ma) + " announced " + showEv(ra.ev);
        if (!ch) { for (auto e : ra.ev) REQUIRE(!rs && e == DomainListener::RELAXED && !isIv(ka), x); }
        else if (rs) REQUIRE(ra.ev.size() == 2 && ra.ev[0] == DomainListener::RELAXED && ra.ev[1] == DomainListener::RESET, x);
        else REQUIRE(ra.ev.size() == 1 && ra.ev[0] == DomainListener::RELAXED, x);
      }
      break; }
    default: {  // copies are equal and independent
      std::unique_ptr<Domain> c(a->copy());
      agree(*c, ma, "copy");
      if (!ma.open && ma.s.any()) REQUIRE(*c == *a, "copy differs");
      if (ka == kb && !events && !mb.open && !ma.open) {
        s.note() << "copy = B\n";
        *c = *b;
        Model mc = mb;
        agree(*c, mc, "assignment");
        agree(*b, mb, "assigned from");
      }
      if (!ma.open) { c->empty(); agree(*a, ma, "original after emptying its copy"); }
      break; }
    }
    if (pa.s != ma.s && pa.s.count() >= 2 && ma.s.count() >= 1) big = true;
    for (auto e : ra.ev) kinds.insert(e);
    ra.ev.clear();
    s.label(std::string("op") + std::to_string(op));
  }
  if (events ? kinds.size() >= 2 : big) s.nontrivial();
  if (events) { /* listeners outlive the domains */ a.reset(); b.reset(); }
}
static void algebraPlain(Src& s) { algebra(s, false); }
static void algebraEvents(Src& s) { algebra(s, true); }
PBT_PROP("C01", "set_algebra", algebraPlain, 400000, 30, 2000);
PBT_PROP("C02", "announcements", algebraEvents, 400000, 30, 2000);

// ------------------------------------------------------------ variables of an engine
struct CeRec : ConstraintEngineListener {
  std::vector<DomainListener::ChangeType> ev;
  CeRec(ConstraintEngineId ce) : ConstraintEngineListener(ce) {}
  void notifyChanged(const ConstrainedVariableId, const DomainListener::ChangeType& c) { ev.push_back(c); }
};
static std::string setText(const Model& m) { return show(m); }
static void variables(Src& s) {
  CeEngine eng;
  bool tolerant = s.chance(1, 4);
  if (tolerant) eng.ce->setAllowViolations(true);
  Kind k = (Kind)s.draw(0, NK - 1);
  std::unique_ptr<Domain> d;
  Model base = genModel(s, k, k != STR, d);
  bool openedByUs = false;
  ConstrainedVariableId v = newVar(eng.ce, *d, "v");
  std::unique_ptr<CeRec> rec(new CeRec(eng.ce->getId()));
  s.note() << "variable over " << setText(base) << (tolerant ? ", violations allowed" : "") << "\n";
  auto isSingle = [](const Model& m) { return !m.open && m.s.count() == 1 && !(isIv(m.k) && (m.s[FARLO] || m.s[FARHI])); };
  auto first = [](const Model& m) { return isNumK(m.k) ? ordered(m.s)[0] : (int)m.s._Find_first(); };
  bool spec = false; int specVal = -1;
  Model cur = base;
  if (isSingle(base)) { spec = true; specVal = first(base); }
  std::set<int> kinds;
  auto check = [&](const char* when) {
    agree(v->baseDomain(), base, (std::string(when) + " (base domain)").c_str());
    if (!(cur.open && cur.s.none())) agree(v->lastDomain(), cur, (std::string(when) + " (current domain)").c_str());
    REQUIRE(v->isSpecified() == spec, when << ": specified should be " << spec);
    if (spec) REQUIRE(v->getSpecifiedValue() == val(k, specVal), when << ": specified value");
    REQUIRE(v->isClosed() == !base.open, when << ": closedness");
    REQUIRE(eng.ce->provenInconsistent() == (!cur.open && cur.s.none()), when << ": engine inconsistent should be " << (!cur.open && cur.s.none()));
  };
  check("creation");
  rec->ev.clear();
  long n = s.draw(1, 14);
  for (long i = 0; i < n; i++) {
    bool dead = !cur.open && cur.s.none();
    Model pc = cur, pb = base; bool ps = spec;
    int op = (int)s.draw(0, 9);
    if (dead) op = 3;
    const char* name = "";
    auto anyVal = [&](bool inBase) {
      std::vector<int> c;
      for (int j = 0; j < FARLO && j < universe(k); j++) if (inBase ? base.s[j] : carrier(k)[j]) c.push_back(j);
      if (c.empty()) return -1;
      return s.pick(c);
    };
    switch (op) {
    case 0: case 1: case 2: {
      int x = anyVal(true);
      if (x < 0) continue;
      if (pc.open && !pc.s[x]) continue;
      name = "specify";
      s.note() << "specify " << (isNumK(k) ? std::to_string(pt(x)) : syms()[x].toString()) << "\n";
      v->specify(val(k, x));
      if (!(spec && specVal == x)) {
        if (!cur.s[x] && tolerant) cur = base;
        spec = true; specVal = x;
        bool in = cur.s[x];
        cur.s = Set(); cur.open = false; if (in) cur.s[x] = 1;
        if (!in) { // base closed here
          REQUIRE(rec->ev.back() == DomainListener::EMPTIED, "specifying a value outside the current domain announced " << showEv(rec->ev));
        } else REQUIRE(rec->ev.back() == DomainListener::SET_TO_SINGLETON, "specifying announced " << showEv(rec->ev));
      } else REQUIRE(rec->ev.empty(), "specifying the same value again announced " << showEv(rec->ev));
      break; }
    case 3: case 4: {
      name = "reset";
      s.note() << "reset\n";
      v->reset();
      spec = false; cur = base;
      if (pc.s != cur.s) REQUIRE(!rec->ev.empty() && rec->ev.back() == DomainListener::RESET, "reset announced " << showEv(rec->ev));
      break; }
    case 5: case 6: {  // restrict base
      name = "restrictBaseDomain";
      std::unique_ptr<Domain> r;
      Model mr = genModel(s, k, base.open, r);
      if (mr.s.none() && !mr.open) continue;
      if (base.open && (spec || mr.open)) continue;            // open variables are restricted to closed sets before use
      if (!base.open && (base.s & mr.s).none()) continue;       // stated precondition
      if (!base.open && mr.open) continue;
      if (base.open && pc.s != base.s) continue;
      if (spec && !mr.s[specVal]) continue;                     // the specified value stays a base value
      if (isIv(k) && k != BOOL && (mr.s & base.s & cur.s).none()) continue;
      s.note() << "restrictBaseDomain " << setText(mr) << "\n";
      v->restrictBaseDomain(*r);
      base.s = base.open ? mr.s : base.s & mr.s;
      bool wasOpen = base.open;
      base.open = false;
      cur.s = wasOpen ? base.s : cur.s & base.s; cur.open = false;
      if (isSingle(base) && !spec && (pb.s != base.s || pb.open)) {
        spec = true; specVal = first(base);
      }
      if (pb.s != base.s || pb.open) REQUIRE(!rec->ev.empty(), "restricting the base domain from " << setText(pb) << " to " << setText(base) << " was not announced");
      break; }
    case 7: {  // close / open
      if (isIv(k)) continue;
      if (base.open) {
        if (base.s.none()) continue;
        name = "close"; s.note() << "close\n"; v->close(); base.open = false;
        if (cur.open) cur.open = false;
        if (!cur.s.none() && isSingle(base) && !spec) { spec = true; specVal = first(base); }
      } else {
        if (spec && !isSingle(base)) continue;
        name = "open"; s.note() << "open\n";
        bool one = isSingle(base);
        v->open(); base.open = true; cur.open = true;
        if (one) { spec = false; cur = base; }
        openedByUs = true;
      }
      break; }
    case 8: {  // insert
      if (!base.open || spec) continue;
      int x = anyVal(false);
      name = "insert"; s.note() << "insert " << (isNumK(k) ? std::to_string(pt(x)) : syms()[x].toString()) << "\n";
      v->insert(val(k, x)); base.s[x] = 1; if (cur.open) cur.s[x] = 1;
      break; }
    default: {  // touch or propagate
      name = "touch"; s.note() << "touch\n";
      if (s.flip()) v->touch(); else eng.ce->propagate();
      break; }
    }
    if (!cur.open && cur.s.none()) {
      REQUIRE(eng.ce->provenInconsistent(), name << " emptied the domain; the engine should be inconsistent");
      // propagating again gives an emptied variable its specified value or base domain back
      if (spec) cur.s[specVal] = 1; else cur = base;
    }
    eng.ce->propagate();
    for (auto e : rec->ev) kinds.insert(e);
    bool same = pc.s == cur.s && pc.open == cur.open && pb.s == base.s && pb.open == base.open && ps == spec;
    if (same && op != 9 && op != 3 && op != 4 && op != 5 && op != 6) REQUIRE(rec->ev.empty(), name << " changed nothing and announced " << showEv(rec->ev));
    if (pc.s.count() > 0 && cur.s != pc.s && op != 8) REQUIRE(!rec->ev.empty(), name << " changed the domain silently");
    rec->ev.clear();
    s.label(name);
    check(name);
    if (!(!cur.open && cur.s.none())) {
      const Domain& dd = v->derivedDomain();
      if (!(cur.open && cur.s.none())) agree(dd, cur, "derived domain");
    }
  }
  (void)openedByUs;
  if (kinds.size() >= 2) s.nontrivial();
  rec.reset();
  delete static_cast<ConstrainedVariable*>(v);
}
PBT_PROP("C02", "variables", variables, 60000, 30, 500);
