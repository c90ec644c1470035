// C03-C06: constraint propagation against brute force over finite grids.
#include "cenet.hh"
#include "Propagators.hh"
#include "PSVarValue.hh"
#include "PSConstraintEngine.hh"
#include "CESchema.hh"
#include <algorithm>
#include <cmath>
#include <set>
using namespace EUROPA;
using pbt::Discard;
using pbt::Src;

namespace {
enum Kind { B, I, E, R, S };  // boolean, integer interval, numeric enumeration, real interval, symbols
const char* kindName[] = {"bool", "int", "enum", "real", "symbol"};

struct VarSpec {
  Kind k = B;
  bool open = false;       // open symbol enumeration
  bool constant = false;   // stands for its whole domain, never assigned
  std::vector<double> vals;  // values a solution may use (grid); symbols are 100 + index
  std::vector<double> listed;  // values in the domain (differs from vals only when open)
};
const char* symText[] = {"ash", "bay", "cedar", "date", "elm", "fir"};
edouble symVal(double v) { return LabelStr(symText[(int)v - 100]); }
edouble toVal(Kind k, double v) { return k == S ? symVal(v) : edouble(v); }
bool numeric(Kind k) { return k != S; }
bool interval(Kind k) { return k == B || k == I || k == R; }

std::string showVal(double v) { if (v >= 100) return symText[(int)v - 100]; std::ostringstream o; o << v; return o.str(); }
std::string showVar(const VarSpec& v) {
  std::ostringstream o;
  o << kindName[v.k] << (v.open ? " open" : "") << (v.constant ? " constant" : "") << " {";
  if (interval(v.k)) { o << v.listed.front() << ".." << v.listed.back(); }
  else for (size_t i = 0; i < v.listed.size(); i++) o << (i ? " " : "") << showVal(v.listed[i]);
  o << "}";
  return o.str();
}

typedef std::vector<double> Vals;
typedef std::vector<VarSpec> Vars;
struct Ctx { const Vars& vars; const std::vector<int>& scope; };
struct Def {
  const char* name;
  int lo, hi;             // arity
  const char* sig;        // per-argument kind class, last repeated: n numeric, i interval (bool/int/real), b bool, a any comparable, c constant like first
  bool confluent;         // single fixpoint whatever the order
  bool (*holds)(const Vals&, const Ctx&);
};
const double EPS = 1e-4;
bool eqd(double a, double b) { return std::fabs(a - b) < EPS; }
bool inSpec(double v, const VarSpec& s) {
  if (interval(s.k) ) { if (v < s.listed.front() || v > s.listed.back()) return false; return s.k == R || eqd(v, std::floor(v + 0.5)); }
  for (double x : s.listed) if (eqd(x, v)) return true;
  return s.open;
}
bool allEq(const Vals& v, size_t from) { for (size_t i = from + 1; i < v.size(); i++) if (!eqd(v[i], v[from])) return false; return true; }
bool allDif(const Vals& v, size_t from) { for (size_t i = from; i < v.size(); i++) for (size_t j = i + 1; j < v.size(); j++) if (eqd(v[i], v[j])) return false; return true; }
bool t(double x) { return x != 0; }
#define H [](const Vals& v, const Ctx& c) -> bool
const std::vector<Def> defs = {
  {"eq", 2, 5, "a", true, H { return allEq(v, 0); }},
  {"eqClass", 2, 2, "a", true, H { return allEq(v, 0); }},  // equality enforced by the equivalence class propagator
  {"neq", 2, 2, "a", false, H { return !eqd(v[0], v[1]); }},
  {"lt", 2, 2, "n", true, H { return v[0] < v[1] - EPS; }},
  {"leq", 2, 2, "n", true, H { return v[0] <= v[1] + EPS; }},
  {"addEq", 3, 3, "n", true, H { return eqd(v[0] + v[1], v[2]); }},
  {"multEq", 3, 3, "i", false, H { return eqd(v[0] * v[1], v[2]); }},
  {"mulEq", 3, 3, "i", false, H { return eqd(v[0] * v[1], v[2]); }},
  {"divEq", 3, 3, "i", false, H { return eqd(v[1] * v[2], v[0]); }},
  {"absVal", 2, 2, "i", false, H { return eqd(v[0], std::fabs(v[1])); }},
  {"abs", 2, 2, "n", false, H { return eqd(v[0], std::fabs(v[1])); }},
  {"eqSum", 3, 9, "n", false, H { double s = 0; for (size_t i = 1; i < v.size(); i++) s += v[i]; return eqd(s, v[0]); }},
  {"eqProduct", 3, 9, "i", false, H { double s = 1; for (size_t i = 1; i < v.size(); i++) s *= v[i]; return eqd(s, v[0]); }},
  {"allDiff", 2, 5, "a", false, H { return allDif(v, 0); }},
  {"condAllDiff", 3, 6, "ba", false, H { return t(v[0]) == allDif(v, 1); }},
  {"condEq", 3, 6, "ba", false, H { return t(v[0]) == allEq(v, 1); }},
  {"countZeroes", 2, 5, "mn", false, H { int n = 0; for (size_t i = 1; i < v.size(); i++) n += v[i] == 0; return eqd(v[0], n); }},
  {"countNonZeroes", 2, 5, "mn", false, H { int n = 0; for (size_t i = 1; i < v.size(); i++) n += v[i] != 0; return eqd(v[0], n); }},
  {"or", 1, 5, "n", false, H { for (double x : v) if (x != 0) return true; return false; }},
  {"eqMinimum", 3, 6, "n", false, H { return eqd(v[0], *std::min_element(v.begin() + 1, v.end())); }},
  {"eqMaximum", 3, 6, "n", false, H { return eqd(v[0], *std::max_element(v.begin() + 1, v.end())); }},
  {"allMin", 3, 6, "n", false, H { return eqd(v.back(), *std::min_element(v.begin(), v.end() - 1)); }},
  {"allMax", 3, 6, "n", false, H { return eqd(v.back(), *std::max_element(v.begin(), v.end() - 1)); }},
  {"min", 3, 6, "n", false, H { return eqd(v.back(), *std::min_element(v.begin(), v.end() - 1)); }},
  {"max", 3, 6, "n", false, H { return eqd(v.back(), *std::max_element(v.begin(), v.end() - 1)); }},
  {"memberImply", 4, 4, "aacc", false, H { return !inSpec(v[1], c.vars[c.scope[2]]) || inSpec(v[0], c.vars[c.scope[3]]); }},
  {"subsetOf", 2, 2, "ac", false, H { return inSpec(v[0], c.vars[c.scope[1]]); }},
  {"withinBounds", 3, 3, "n", true, H { return v[1] <= v[0] + EPS && v[0] <= v[2] + EPS; }},
  {"neg", 2, 2, "i", true, H { return eqd(v[0], -v[1]); }},
  {"testAnd", 3, 3, "b", true, H { return t(v[0]) == (t(v[1]) && t(v[2])); }},
  {"testOr", 3, 3, "b", true, H { return t(v[0]) == (t(v[1]) || t(v[2])); }},
  {"testEq", 3, 3, "ba", true, H { return t(v[0]) == eqd(v[1], v[2]); }},
  {"testNeq", 3, 3, "ba", false, H { return t(v[0]) == !eqd(v[1], v[2]); }},
  {"testLessThan", 3, 3, "bn", true, H { return t(v[0]) == (v[1] < v[2] - EPS); }},
  {"testLeq", 3, 3, "bn", true, H { return t(v[0]) == (v[1] <= v[2] + EPS); }},
  {"testSingleton", 2, 2, "ba", false, H { return t(v[0]); }},
  {"testSpecified", 2, 2, "ba", false, H { return t(v[0]) || c.vars[c.scope[1]].vals.size() > 1; }},
  {"maxf", 3, 3, "n", false, H { return eqd(v[0], std::max(v[1], v[2])); }},
  {"minf", 3, 3, "n", false, H { return eqd(v[0], std::min(v[1], v[2])); }},
  {"pow", 3, 3, "n", false, H { if (v[1] < 0 || (v[1] == 0 && v[2] <= 0)) return false; return eqd(v[0], std::pow(v[1], v[2])); }},
  {"sqrt", 2, 2, "n", false, H { return v[1] >= 0 && eqd(v[0], std::sqrt(v[1])); }},
  {"floor", 2, 2, "n", false, H { return eqd(v[0], std::floor(v[1])); }},
  {"ceil", 2, 2, "n", false, H { return eqd(v[0], std::ceil(v[1])); }},
  {"mod", 3, 3, "n", false, H { return v[2] != 0 && eqd(v[0], std::trunc(std::fmod(v[1], v[2]))); }},
  {"diffSquare", 3, 3, "n", false, H { return eqd(v[2], (v[0] - v[1]) * (v[0] - v[1])); }},
  {"distanceSquares", 3, 3, "n", false, H { return v[0] + v[1] >= 0 && eqd(v[2], std::sqrt(v[0] + v[1])); }},
  {"calcDistance", 5, 5, "n", false, H { return eqd(v[0], std::sqrt((v[1] - v[3]) * (v[1] - v[3]) + (v[2] - v[4]) * (v[2] - v[4]))); }},
};
#undef H
const Def& def(const std::string& n) { for (auto& d : defs) if (n == d.name) return d; abort(); }

struct Con { const Def* d; std::vector<int> scope; };
std::string showCon(const Con& c) {
  std::ostringstream o;
  o << c.d->name << "(";
  for (size_t i = 0; i < c.scope.size(); i++) o << (i ? "," : "") << "v" << c.scope[i];
  o << ")";
  return o.str();
}
bool holds(const Con& c, const Vars& vars, const Vals& all) {
  Vals v;
  for (int i : c.scope) v.push_back(all[i]);
  return c.d->holds(v, Ctx{vars, c.scope});
}

// ---- generation
VarSpec genVar(Src& s, bool wide = false) {
  VarSpec v;
  v.k = (Kind)s.weighted({3, 6, 4, wide ? 0 : 2, 3});
  switch (v.k) {
  case B: { int w = (int)s.weighted({6, 1, 1}); v.vals = w == 0 ? Vals{0, 1} : w == 1 ? Vals{0} : Vals{1}; break; }
  case I: { long lo = s.draw(-4, 5), n = s.geo(6); if (s.flip()) lo = s.draw(0, 2); for (long i = 0; i <= n; i++) v.vals.push_back(lo + i); break; }
  case R: { long lo = s.draw(-6, 6), n = s.geo(8); for (long i = 0; i <= n; i++) v.vals.push_back((lo + i) / 2.0); break; }
  case E: { std::set<double> x; long n = 1 + s.geo(4); bool ints = s.flip(); for (long i = 0; i < n; i++) x.insert(ints ? (double)s.draw(-3, 5) : s.draw(-6, 10) / 2.0); v.vals.assign(x.begin(), x.end()); break; }
  case S: { std::set<double> x; long n = 1 + s.geo(3); for (long i = 0; i < n; i++) x.insert(100 + s.draw(0, 4)); v.vals.assign(x.begin(), x.end()); break; }
  }
  v.listed = v.vals;
  if (v.k == S && s.chance(1, 8)) { v.open = true; v.vals.clear(); for (int i = 0; i < 6; i++) v.vals.push_back(100 + i); }
  return v;
}
std::unique_ptr<Domain> makeDomain(const VarSpec& v) {
  switch (v.k) {
  case B: return std::unique_ptr<Domain>(v.listed.size() == 2 ? new BoolDomain() : new BoolDomain(v.listed[0] != 0));
  case I: return std::unique_ptr<Domain>(new IntervalIntDomain(eint((long)v.listed.front()), eint((long)v.listed.back())));
  case R: return std::unique_ptr<Domain>(new IntervalDomain(edouble(v.listed.front()), edouble(v.listed.back())));
  default: break;
  }
  std::list<edouble> l;
  for (double x : v.listed) l.push_back(toVal(v.k, x));
  std::unique_ptr<Domain> d(v.k == E ? (Domain*)new NumericDomain(l) : (Domain*)new SymbolDomain(l));
  if (v.open) d->open();
  return d;
}
// a constraint over the variables, by signature; empty scope when none fits
bool genScope(Src& s, const Def& d, Vars& vars, std::vector<int>& scope, bool mayAdd) {
  scope.clear();
  int n = d.hi > 4 && vars.size() > 5 ? (int)s.draw(d.lo, d.hi) : (int)s.draw(d.lo, std::min(d.hi, d.lo + 1 + (int)s.geo(d.hi - d.lo)));
  if (n > d.hi) n = d.hi;
  std::string sig = d.sig;
  // class of 'a' arguments: all numeric or all symbols
  bool symOk = false, numOk = false;
  for (auto& v : vars) if (!v.constant) (v.k == S ? symOk : numOk) = true;
  bool sym = symOk && (!numOk || s.chance(1, 3));
  std::vector<int> firstOf;
  for (int a = 0; a < n; a++) {
    char c = sig[std::min((size_t)a, sig.size() - 1)];
    std::vector<int> cand;
    for (int i = 0; i < (int)vars.size(); i++) {
      const VarSpec& v = vars[i];
      bool ok = false;
      if (c == 'c') { // a constant of the class of its partner
        const VarSpec& p = vars[scope[std::string(d.name) == "memberImply" ? (a == 2 ? 1 : 0) : 0]];
        ok = v.constant && !v.open && (v.k == S) == (p.k == S);
      } else if (v.constant) ok = false;
      else if (c == 'n') ok = numeric(v.k);
      else if (c == 'i') ok = interval(v.k);
      else if (c == 'b') ok = v.k == B;
      else if (c == 'm') ok = v.k == I || v.k == B;
      else ok = (v.k == S) == sym;
      // a variable at most once per constraint, mostly
      if (ok && std::find(scope.begin(), scope.end(), i) != scope.end()) ok = false;
      if (ok) cand.push_back(i);
    }
    if (cand.empty() && c == 'c' && mayAdd) {
      const VarSpec& p = vars[scope[std::string(d.name) == "memberImply" ? (a == 2 ? 1 : 0) : 0]];
      VarSpec v;
      for (int tries = 0; tries < 20; tries++) { v = genVar(s); if ((v.k == S) == (p.k == S) && !v.open) break; }
      if ((v.k == S) != (p.k == S) || v.open) return false;
      v.constant = true;
      vars.push_back(v);
      cand.push_back((int)vars.size() - 1);
    }
    if (cand.empty()) { if (a >= d.lo) break; return false; }
    scope.push_back(s.pick(cand));
  }
  return true;
}
bool typeOk(ConstraintEngine* ce, const Con& c, const std::vector<ConstrainedVariableId>& vs) {
  std::vector<DataTypeId> types;
  for (int i : c.scope) types.push_back(vs[i]->baseDomain().getDataType());
  try { ce->getCESchema()->getConstraintType(c.d->name)->checkArgTypes(types); }
  catch (const std::string&) { return false; }
  catch (Error&) { return false; }
  return true;
}
struct Net {
  Vars vars;
  std::vector<Con> cons;
};
std::string showVars(const Vars& vars) { std::ostringstream o; for (size_t i = 0; i < vars.size(); i++) o << "v" << i << ": " << showVar(vars[i]) << "\n"; return o.str(); }

struct Live {
  CeEngine eng;
  std::vector<ConstrainedVariableId> v;
  explicit Live(bool autoProp = false) {
    eng.ce->setAutoPropagation(autoProp);
    new EqualityConstraintPropagator("EquivalenceClass", eng.ce->getId());
    CESchema* ces = eng.ce->getCESchema();
    REGISTER_CONSTRAINT_TYPE(ces, EqualCT, "eqClass", "EquivalenceClass");
  }
  ConstraintEngine* ce() { return eng.ce; }
  void add(const VarSpec& spec) {
    auto d = makeDomain(spec);
    v.push_back(newVar(eng.ce, *d, "v" + std::to_string(v.size())));
  }
  ConstraintId post(const Con& c) {
    std::vector<ConstrainedVariableId> sc;
    for (int i : c.scope) sc.push_back(v[i]);
    return eng.ce->createConstraint(c.d->name, sc);
  }
};
void drop(ConstraintId c) { delete static_cast<Constraint*>(c); }

// brute force: per-variable supported values; returns whether a solution exists
struct Brute { bool any = false, complete = true; std::vector<std::set<double>> sup; long sols = 0; };
Brute brute(const Vars& vars, const std::vector<Con>& cons, const std::map<int, double>& spec, long limit = 40000) {
  Brute b;
  b.sup.resize(vars.size());
  std::vector<Vals> dom;
  double prod = 1;
  Vars eff = vars;
  for (size_t i = 0; i < vars.size(); i++) {
    auto it = spec.find((int)i);
    if (it != spec.end()) { eff[i].vals = Vals{it->second}; }
    dom.push_back(vars[i].constant ? Vals{0} : eff[i].vals);
    prod *= dom.back().size();
  }
  if (prod > limit) { b.complete = false; return b; }
  // each constraint is checked at the deepest variable of its scope
  std::vector<std::vector<const Con*>> at(vars.size());
  for (auto& c : cons) at[*std::max_element(c.scope.begin(), c.scope.end())].push_back(&c);
  Vals cur(vars.size());
  std::function<void(size_t)> rec = [&](size_t i) {
    if (i == vars.size()) { b.any = true; b.sols++; for (size_t j = 0; j < cur.size(); j++) b.sup[j].insert(cur[j]); return; }
    for (double x : dom[i]) {
      cur[i] = x;
      bool ok = true;
      for (const Con* c : at[i]) if (!holds(*c, eff, cur)) { ok = false; break; }
      if (ok) rec(i + 1);
    }
  };
  rec(0);
  return b;
}
bool member(ConstrainedVariableId v, Kind k, double x) { return v->lastDomain().isMember(toVal(k, x)); }
std::string showDoms(const std::vector<ConstrainedVariableId>& v) {
  std::ostringstream o;
  for (size_t i = 0; i < v.size(); i++) o << " v" << i << "=" << v[i]->lastDomain().toString();
  return o.str();
}
// exact rendering for comparisons
std::string domKey(const Domain& d) {
  std::ostringstream o;
  o.precision(9);
  o << (d.isOpen() ? "open" : "closed");
  if (d.isOpen() && d.isInterval()) return o.str();
  if (!d.isOpen() && d.isEmpty()) return o.str() + " empty";
  if (d.isInterval()) o << "[" << d.getLowerBound() + edouble(0.0) << "," << d.getUpperBound() + edouble(0.0) << "]";
  else { std::list<edouble> l; d.getValues(l); std::set<edouble> x(l.begin(), l.end()); o << "{"; for (auto e : x) o << " " << e; o << "}"; }
  return o.str();
}
std::vector<std::string> domKeys(const std::vector<ConstrainedVariableId>& v) {
  std::vector<std::string> r;
  for (auto x : v) r.push_back(domKey(x->lastDomain()));
  return r;
}
void soundness(Live& l, const Vars& vars, const Brute& b, bool ok, const char* when) {
  if (!b.complete) return;
  REQUIRE(ok || !b.any, when << ": reported inconsistent, but a solution exists");
  if (!ok || !b.any) return;
  for (size_t i = 0; i < vars.size(); i++) {
    if (vars[i].constant) continue;
    for (double x : b.sup[i]) {
      if (vars[i].open && std::find(vars[i].listed.begin(), vars[i].listed.end(), x) == vars[i].listed.end()) continue;
      if (!member(l.v[i], vars[i].k, x)) pbt::fail(std::string(when) + ": " + showVal(x) + " is part of a solution but was removed from v" + std::to_string(i) + ";" + showDoms(l.v));
    }
  }
}
// arithmetic over holes or over mixed integers and reals does not run to a fixpoint in one execution
bool confluent(const Con& c, const Vars& vars) {
  if (!c.d->confluent) return false;
  std::string n = c.d->name;
  bool eq = n == "eq" || n == "eqClass" || n == "testEq";
  if (n != "addEq" && n != "neg" && !eq) return true;
  bool ints = true, reals = true, enums = eq;
  for (size_t a = n == "testEq"; a < c.scope.size(); a++) { Kind k = vars[c.scope[a]].k; if (k != B && k != I) ints = false; if (k != R) reals = false; if (k != E && k != S) enums = false; }
  return ints || reals || enums;
}
Net genNet(Src& s, int maxVars, int maxCons, bool confluentOnly, double limit) {
  Net n;
  const bool wide = s.chance(1, 6);  // one constraint over many small variables
  long nv = wide ? 5 + s.geo(4) : 2 + s.geo(maxVars - 2);
  double prod = 1;
  for (long i = 0; i < nv; i++) {
    VarSpec v = genVar(s, confluentOnly);
    for (int tries = 0; wide && tries < 6 && (v.vals.size() > 4 || v.k == S || v.k == E); tries++) v = genVar(s, confluentOnly);
    if (confluentOnly && v.open) { v.open = false; v.vals = v.listed; }
    if (prod * v.vals.size() > limit) break;
    prod *= v.vals.size();
    n.vars.push_back(v);
  }
  long nc = 1 + s.geo(maxCons - 1);
  for (long i = 0; i < nc; i++) {
    Con c;
    c.d = &s.pick(defs);
    if (wide && i == 0) for (int tries = 0; c.d->hi < 5 && tries < 12; tries++) c.d = &s.pick(defs);
    if (confluentOnly) { for (int tries = 0; !c.d->confluent && tries < 12; tries++) c.d = &s.pick(defs); if (!c.d->confluent) continue; }
    if (!genScope(s, *c.d, n.vars, c.scope, !confluentOnly)) continue;
    if (confluentOnly && !confluent(c, n.vars)) continue;
    n.cons.push_back(c);
  }
  return n;
}
// drop constraints whose types do not fit
void typeFilter(Live& l, Net& n) {
  std::vector<Con> k;
  for (auto& c : n.cons) if (typeOk(l.ce(), c, l.v)) k.push_back(c);
  n.cons.swap(k);
}
bool contains0(const VarSpec& v) { for (double x : v.vals) if (x == 0) return true; return false; }
// arithmetic outside the constraint's own domain (root of a negative, modulus by zero) is not modelled
bool defined(const Con& c, const Vars& vars) {
  std::string n = c.d->name;
  auto lo = [&](int a) { return vars[c.scope[a]].vals.front(); };
  if (n == "mod") return !contains0(vars[c.scope[2]]) && !(vars[c.scope[2]].listed.front() < 0 && vars[c.scope[2]].listed.back() > 0);
  if (n == "sqrt") return lo(1) >= 0;
  if (n == "pow") return lo(1) > 0;
  if (n == "distanceSquares") return lo(0) + lo(1) >= 0;
  return true;
}
void definedFilter(Net& n) {
  std::vector<Con> k;
  for (auto& c : n.cons) if (defined(c, n.vars)) k.push_back(c);
  n.cons.swap(k);
}
}  // namespace

PBT_RULE("C03", "the network has a constraint that removed at least one value or was found inconsistent, and brute force covered it");
static void soundProp(Src& s) {
  Net n = genNet(s, 5, 6, false, 20000);
  definedFilter(n);
  bool autoProp = s.chance(1, 3);
  Live l(autoProp);
  for (auto& v : n.vars) l.add(v);
  typeFilter(l, n);
  if (n.cons.empty()) throw Discard();
  if (autoProp) s.note() << "propagating automatically\n";
  s.note() << showVars(n.vars);
  Brute b0 = brute(n.vars, n.cons, {});
  // post, assigning and propagating in between
  std::map<int, double> spec;
  std::vector<Con> posted;
  bool ok = true, narrowed = false;
  auto settle = [&](const char* when) {
    auto before = domKeys(l.v);
    ok = l.ce()->propagate();
    Brute b = brute(n.vars, posted, spec);
    soundness(l, n.vars, b, ok, when);
    if (ok) {
      auto d1 = domKeys(l.v);
      REQUIRE(l.ce()->propagate(), "propagating again without changes turned inconsistent");
      REQUIRE(domKeys(l.v) == d1, "propagating again without changes altered domains to" << showDoms(l.v));
      for (size_t i = 0; i < n.vars.size(); i++) {
        REQUIRE(l.v[i]->lastDomain().isOpen() || !l.v[i]->lastDomain().isEmpty(), "consistent with an empty domain");
        if (!n.vars[i].open) REQUIRE(l.v[i]->lastDomain().isSubsetOf(l.v[i]->baseDomain()), "v" << i << " left its base domain:" << showDoms(l.v));
      }
      if (d1 != before) narrowed = true;
    } else narrowed = true;
  };
  for (auto& c : n.cons) {
    s.note() << "post " << showCon(c) << "\n";
    l.post(c);
    posted.push_back(c);
    s.label(c.d->name);
    if (s.flip()) { s.note() << "propagate\n"; settle("propagation"); if (!ok) break; }
    if (s.chance(1, 3)) {
      int i = (int)s.idx(n.vars.size());
      if (n.vars[i].constant || spec.count(i)) continue;
      double x = s.pick(n.vars[i].listed);
      if (!member(l.v[i], n.vars[i].k, x)) continue;
      s.note() << "specify v" << i << " = " << showVal(x) << "\n";
      l.v[i]->specify(toVal(n.vars[i].k, x));
      spec[i] = x;
    }
  }
  if (ok) settle("final propagation");
  s.label(ok ? "consistent" : "inconsistent");
  if (narrowed && b0.complete) s.nontrivial();
}
PBT_PROP("C03", "solutions_kept", soundProp, 500000, 40, 2000);

// ------------------------------------------------------------ C04
PBT_RULE("C04", "every variable assigned, at least two constraints, order of posting and assigning mixed");
static void assigned(Src& s) {
  Net n = genNet(s, 6, 6, false, 1e9);
  definedFilter(n);
  bool autoProp = s.chance(1, 3);
  Live l(autoProp);
  for (auto& v : n.vars) l.add(v);
  typeFilter(l, n);
  if (n.cons.empty()) throw Discard();
  if (autoProp) s.note() << "propagating automatically\n";
  s.note() << showVars(n.vars);
  // an assignment; often built to satisfy the constraints
  std::map<int, double> spec;
  Vals all(n.vars.size(), 0);
  for (size_t i = 0; i < n.vars.size(); i++) if (!n.vars[i].constant) spec[(int)i] = all[i] = s.pick(n.vars[i].listed);
  if (s.chance(2, 3)) {
    for (int round = 0; round < 40; round++) {
      const Con* bad = nullptr;
      for (auto& c : n.cons) { Vars eff = n.vars; for (auto& p : spec) eff[p.first].vals = Vals{p.second}; if (!holds(c, eff, all)) { bad = &c; break; } }
      if (!bad) break;
      std::vector<int> free;
      for (int i : bad->scope) if (!n.vars[i].constant) free.push_back(i);
      int i = s.pick(free);
      spec[i] = all[i] = s.pick(n.vars[i].listed);
    }
  }
  struct Act { int kind; int idx; };
  std::vector<Act> acts;
  for (int i = 0; i < (int)n.cons.size(); i++) acts.push_back({0, i});
  for (auto& p : spec) acts.push_back({1, p.first});
  for (size_t i = acts.size(); i > 1; i--) std::swap(acts[i - 1], acts[i - 1 - s.idx(i)]);
  Vars eff = n.vars;
  for (auto& p : spec) eff[p.first].vals = Vals{p.second};
  std::string wrong;
  for (auto& c : n.cons) if (!holds(c, eff, all)) wrong += " " + showCon(c);
  bool ok = true, postedBad = false;
  for (auto& a : acts) {
    if (a.kind == 0) {
      s.note() << "post " << showCon(n.cons[a.idx]) << "\n"; l.post(n.cons[a.idx]); s.label(n.cons[a.idx].d->name);
      if (!holds(n.cons[a.idx], eff, all)) postedBad = true;
    } else { s.note() << "specify v" << a.idx << " = " << showVal(all[a.idx]) << "\n"; l.v[a.idx]->specify(toVal(n.vars[a.idx].k, all[a.idx])); if (l.ce()->provenInconsistent()) { ok = false; break; } }
    if (s.flip()) { s.note() << "propagate\n"; ok = l.ce()->propagate(); if (!ok) break; }
  }
  if (ok) ok = l.ce()->propagate();
  if (!ok) REQUIRE(postedBad, "reported inconsistent, but the assignment satisfies every posted constraint");
  else REQUIRE(wrong.empty(), "reported consistent although the assignment breaks" << wrong);
  if (ok) for (auto& p : spec) REQUIRE(l.v[p.first]->lastDomain().isSingleton() && member(l.v[p.first], n.vars[p.first].k, p.second), "v" << p.first << " is " << l.v[p.first]->lastDomain().toString());
  s.label(ok ? "consistent" : "inconsistent");
  if (n.cons.size() >= 2) s.nontrivial();
}
PBT_PROP("C04", "verdict_of_assignments", assigned, 500000, 40, 2000);

// ------------------------------------------------------------ C05, C06: histories
namespace {
struct HVar { VarSpec spec; bool set = false; double val = 0; };
struct HCon { Con c; ConstraintId id; int off = 0; };
struct History {
  Live l;
  explicit History(bool autoProp) : l(autoProp) {}
  std::vector<HVar> v;
  std::vector<HCon> cons;
  bool settled = false;  // consistent and propagated
  bool droppedViolated = false; // a violated constraint on a specified variable was deleted
  bool tolerant = false; // deactivation belongs to the engine
  Vars now() const { Vars r; for (auto& x : v) r.push_back(x.spec); return r; }
  std::map<int, double> specified() const { std::map<int, double> r; for (size_t i = 0; i < v.size(); i++) if (v[i].set) r[(int)i] = v[i].val; return r; }
  std::vector<Con> active() const { std::vector<Con> r; for (auto& c : cons) if (!c.off) r.push_back(c.c); return r; }
  // deactivating is documented to be no relaxation and to leave correctness to the client: nothing is retracted meanwhile
  bool anyOff() const { for (auto& c : cons) if (c.off) return true; return false; }
  void autoSpecify(int i) { if (!v[i].spec.open && v[i].spec.listed.size() == 1 && !v[i].set) { v[i].set = true; v[i].val = v[i].spec.listed[0]; } }
};
struct Fresh { bool ok; std::vector<std::string> keys; std::string show; };
Fresh fresh(const History& h, bool reversed) {
  Live f;
  for (auto& x : h.v) f.add(x.spec);
  std::vector<Con> cs = h.active();
  if (reversed) std::reverse(cs.begin(), cs.end());
  auto spec = [&] { for (auto& p : h.specified()) if (!(f.v[p.first]->isSpecified() && f.v[p.first]->getSpecifiedValue() == toVal(h.v[p.first].spec.k, p.second))) f.v[p.first]->specify(toVal(h.v[p.first].spec.k, p.second)); };
  if (!reversed) spec();
  for (auto& c : cs) f.post(c);
  if (reversed) spec();
  Fresh r;
  r.ok = f.ce()->propagate();
  if (r.ok) { r.keys = domKeys(f.v); r.show = showDoms(f.v); }
  return r;
}
// one random change of the network; false if not applicable
bool change(Src& s, History& h, const std::vector<Con>& pool, bool confluentOnly) {
  auto& v = h.v;
  switch (s.weighted({5, 3, 2, 2, 6, 4, 2, 1, 1})) {
  case 0: {
    if (pool.empty() || h.cons.size() >= 7) return false;
    HCon c; c.c = s.pick(pool);
    Vars nowv = h.now();
    if (!defined(c.c, nowv)) return false;
    s.note() << "post " << showCon(c.c) << "\n";
    c.id = h.l.post(c.c);
    h.cons.push_back(c);
    s.label(c.c.d->name);
    return true;
  }
  case 1: {
    if (h.cons.empty()) return false;
    size_t i = s.idx(h.cons.size());
    if (h.anyOff()) return false;
    s.note() << "delete " << showCon(h.cons[i].c) << "\n";
    if (h.tolerant && h.l.ce()->isViolated(h.cons[i].id)) for (auto& x : h.cons[i].id->getScope()) h.droppedViolated |= x->isSpecified();
    if (s.flip()) h.l.ce()->deleteConstraint(h.cons[i].id); else drop(h.cons[i].id);
    h.cons.erase(h.cons.begin() + i);
    s.label("delete");
    return true;
  }
  case 2: {
    if (h.cons.empty() || !h.settled || h.tolerant) return false;
    size_t i = s.idx(h.cons.size());
    s.note() << "deactivate " << showCon(h.cons[i].c) << "\n";
    h.cons[i].id->deactivate();
    h.cons[i].off++;
    s.label("deactivate");
    return true;
  }
  case 3: {
    std::vector<size_t> off;
    for (size_t i = 0; i < h.cons.size(); i++) if (h.cons[i].off) off.push_back(i);
    if (off.empty()) return false;
    size_t i = s.pick(off);
    s.note() << "reactivate " << showCon(h.cons[i].c) << "\n";
    h.cons[i].id->undoDeactivation();
    h.cons[i].off--;
    s.label("reactivate");
    return true;
  }
  case 4: {
    int i = (int)s.idx(v.size());
    if (v[i].spec.constant) return false;
    double x = s.pick(v[i].spec.listed);
    if (v[i].set && (v[i].val == x || h.anyOff())) return false;
    s.note() << "specify v" << i << " = " << showVal(x) << "\n";
    h.l.v[i]->specify(toVal(v[i].spec.k, x));
    v[i].set = true; v[i].val = x;
    s.label("specify");
    return true;
  }
  case 5: {
    std::vector<int> set;
    for (int i = 0; i < (int)v.size(); i++) if (v[i].set && (v[i].spec.open || v[i].spec.listed.size() > 1)) set.push_back(i);
    if (set.empty() || h.anyOff()) return false;
    int i = s.pick(set);
    s.note() << "reset v" << i << "\n";
    h.l.v[i]->reset();
    v[i].set = false;
    s.label("reset");
    return true;
  }
  case 6: {
    int i = (int)s.idx(v.size());
    VarSpec& sp = v[i].spec;
    if (sp.constant || sp.listed.size() < 2) return false;
    if (h.l.v[i]->lastDomain().isClosed() && h.l.v[i]->lastDomain().isEmpty()) return false;  // a variable must be consistent to have its base restricted
    VarSpec n = sp;
    if (interval(sp.k)) {
      size_t lo = s.idx(sp.listed.size()), hi = lo + s.idx(sp.listed.size() - lo);
      n.listed.assign(sp.listed.begin() + lo, sp.listed.begin() + hi + 1);
    } else {
      n.listed.clear();
      for (double x : sp.listed) if (s.chance(2, 3)) n.listed.push_back(x);
      if (n.listed.empty()) return false;
    }
    if (v[i].set && std::find(n.listed.begin(), n.listed.end(), v[i].val) == n.listed.end()) return false;
    n.open = false; n.vals = n.listed;
    if (n.listed == sp.listed && !sp.open) return false;
    s.note() << "restrict base of v" << i << " to " << showVar(n) << "\n";
    auto d = makeDomain(n);
    h.l.v[i]->restrictBaseDomain(*d);
    sp = n;
    h.autoSpecify(i);
    s.label("restrict");
    return true;
  }
  case 7: {
    int i = (int)s.idx(v.size());
    if (confluentOnly || h.anyOff() || v[i].spec.k != S || v[i].spec.open || v[i].spec.constant || v[i].set) return false;
    s.note() << "open v" << i << "\n";
    h.l.v[i]->open();
    v[i].spec.open = true;
    v[i].spec.vals.clear(); for (int k = 0; k < 6; k++) v[i].spec.vals.push_back(100 + k);
    s.label("open");
    return true;
  }
  default: {
    int i = (int)s.idx(v.size());
    if (!v[i].spec.open || v[i].spec.constant || v[i].set) return false;
    s.note() << "close v" << i << "\n";
    h.l.v[i]->close();
    v[i].spec.open = false; v[i].spec.vals = v[i].spec.listed;
    h.autoSpecify(i);
    s.label("close");
    return true;
  }
  }
}
// the constraints a history may post
std::vector<Con> poolOf(Net& n) {
  Live probe;
  for (auto& v : n.vars) probe.add(v);
  typeFilter(probe, n);
  return n.cons;
}
void initHistory(Src& s, History& h, const Net& n) {
  s.note() << showVars(n.vars);
  for (auto& x : n.vars) { HVar hv; hv.spec = x; h.v.push_back(hv); h.l.add(x); }
  for (int i = 0; i < (int)h.v.size(); i++) if (h.l.v[i]->isSpecified()) { h.v[i].set = true; h.v[i].val = h.v[i].spec.listed[0]; }
}
void compareFresh(Src&, History& h, bool ok, bool confluentOnly) {
  Vars nowv = h.now();
  auto spec = h.specified();
  std::vector<Con> act = h.active();
  if (act.size() < h.cons.size()) {
    // what a deactivated constraint removed may stay removed until it is back, but no solution of the whole network is lost
    std::vector<Con> all;
    for (auto& c : h.cons) all.push_back(c.c);
    soundness(h.l, nowv, brute(nowv, all, spec), ok, "with deactivated constraints");
    return;
  }
  if (confluentOnly) {
    Fresh a = fresh(h, false), b = fresh(h, true);
    if (a.ok == b.ok && a.keys == b.keys) {
      if (ok != a.ok) { soundness(h.l, nowv, brute(nowv, act, spec), ok, "history"); pbt::fail(std::string("the history is ") + (ok ? "consistent" : "inconsistent") + " but a fresh engine with the same network is not;" + (ok ? showDoms(h.l.v) : a.show)); }
      if (ok) REQUIRE(domKeys(h.l.v) == a.keys, "domains after the history" << showDoms(h.l.v) << " but a fresh engine has" << a.show);
    }
  }
  soundness(h.l, nowv, brute(nowv, act, spec), ok, "after the history");
  if (!ok) return;
  // everything assigned: the verdict is exact
  bool all = true;
  Vals a(nowv.size(), 0);
  for (size_t i = 0; i < nowv.size(); i++) {
    if (nowv[i].constant) continue;
    if (!spec.count((int)i)) { all = false; break; }
    a[i] = spec[(int)i]; nowv[i].vals = Vals{a[i]};
  }
  if (all) for (auto& c : act) REQUIRE(holds(c, nowv, a), "all variables are assigned and the engine is consistent, but " << showCon(c) << " does not hold");
  // variables no constraint touches are back at their base or specified value
  std::set<int> touched;
  for (auto& c : act) touched.insert(c.scope.begin(), c.scope.end());
  for (size_t i = 0; i < h.v.size(); i++) {
    if (touched.count((int)i) || h.v[i].spec.constant) continue;
    VarSpec e = h.v[i].spec;
    if (h.v[i].set) { e.open = false; e.listed = Vals{h.v[i].val}; }
    auto d = makeDomain(e);
    REQUIRE(domKey(h.l.v[i]->lastDomain()) == domKey(*d), "v" << i << " has no constraint left but is " << h.l.v[i]->lastDomain().toString() << " instead of " << d->toString());
  }
}
}  // namespace

PBT_RULE("C05", "at least one retraction (delete, deactivate, reset) happened after a propagation that changed a domain or failed, and a propagation followed");
static void retraction(Src& s, bool confluentOnly) {
  Net n = genNet(s, 5, 9, confluentOnly, 3000);
  definedFilter(n);
  std::vector<Con> pool = poolOf(n);
  if (pool.empty()) throw Discard();
  History h(s.chance(1, 3));
  if (h.l.ce()->getAutoPropagation()) s.note() << "propagating automatically\n";
  initHistory(s, h, n);
  long steps = 3 + s.geo(20);
  bool narrowed = false, retracted = false, counted = false;
  for (long i = 0; i < steps; i++) {
    size_t before = h.cons.size(); int setBefore = (int)h.specified().size(); int offBefore = 0; for (auto& c : h.cons) offBefore += c.off;
    if (!change(s, h, pool, confluentOnly)) continue;
    if (offBefore == 0) { int o = 0; for (auto& c : h.cons) o += c.off; if (!o) h.settled = false; }
    int off = 0; for (auto& c : h.cons) off += c.off;
    if (h.cons.size() < before || (int)h.specified().size() < setBefore || off > offBefore) if (narrowed) retracted = true;
    if (s.chance(2, 3) || i + 1 == steps) {
      s.note() << "propagate\n";
      auto k = domKeys(h.l.v);
      bool ok = h.settled = h.l.ce()->propagate();
      if (!ok || domKeys(h.l.v) != k) narrowed = true;
      s.label(ok ? "consistent" : "inconsistent");
      compareFresh(s, h, ok, confluentOnly);
      if (retracted) counted = true;
    }
  }
  if (counted) s.nontrivial();
}
static void retractionExact(Src& s) { retraction(s, true); }
static void retractionAny(Src& s) { retraction(s, false); }
PBT_PROP("C05", "history_equals_fresh_engine", retractionExact, 120000, 40, 1000);
PBT_PROP("C05", "history_sound_and_clean", retractionAny, 120000, 40, 1000);

// ------------------------------------------------------------ C06: violations tolerated
PBT_RULE("C06", "the network became contradictory during the history and at least one change followed the contradiction");
static void tolerated(Src& s, bool confluentOnly) {
  Net n = genNet(s, 5, 9, confluentOnly, 3000);
  for (auto& c : n.cons) if (std::string(c.d->name) == "eqClass") c.d = &def("eq");  // that propagator cannot tell which equality is violated
  definedFilter(n);
  std::vector<Con> pool = poolOf(n);
  if (pool.empty()) throw Discard();
  History h(s.chance(1, 3));
  ConstraintEngine* ce = h.l.ce();
  ce->setAllowViolations(true);
  s.note() << "violations allowed" << (ce->getAutoPropagation() ? ", propagating automatically\n" : "\n");
  initHistory(s, h, n);
  h.tolerant = true;
  long steps = 3 + s.geo(20);
  bool contradicted = false;
  for (long i = 0; i < steps; i++) {
    if (!change(s, h, pool, confluentOnly)) continue;
    if (contradicted) s.nontrivial();
    if (!s.chance(2, 3) && i + 1 < steps) continue;
    s.note() << "propagate\n";
    bool ok = ce->propagate();
    REQUIRE(ok, "propagation stopped although violations are allowed");
    Vars nowv = h.now();
    auto spec = h.specified();
    PSList<PSConstraint*> vs = ce->getAllViolations();
    double total = ce->getViolation();
    REQUIRE((total > 0) == (vs.size() > 0), "total violation " << total << " with " << vs.size() << " violated constraints");
    REQUIRE((size_t)ce->getViolationExpl().size() == (size_t)vs.size(), ce->getViolationExpl().size() << " explanations for " << vs.size() << " violations");
    std::set<ConstraintId> violated;
    for (int k = 0; k < vs.size(); k++) {
      Constraint* c = dynamic_cast<Constraint*>(vs.get(k));
      REQUIRE(c != nullptr && ce->getConstraints().count(c->getId()), "a reported violation is not a constraint of the engine");
      REQUIRE(!c->isActive(), "a violated constraint is active");
      REQUIRE(ce->isViolated(c->getId()), "a reported constraint does not count as violated");
      violated.insert(c->getId());
    }
    std::vector<Con> all, kept;
    bool inner = false;
    for (auto& c : h.cons) { all.push_back(c.c); if (violated.count(c.id)) violated.erase(c.id); else kept.push_back(c.c); }
    if (!violated.empty()) inner = true;  // part of a compound constraint: its owner cannot be told, so only the whole network is judged
    Brute b = brute(nowv, all, spec);
    if (b.complete && total > 0 && b.any) {
      std::ostringstream o; o << "violations are reported, but the whole network has a solution;" << showDoms(h.l.v);
      pbt::fail(o.str(), h.droppedViolated ? "stale-violation-of-specified-variable" : "");
    }
    for (size_t k = 0; k < h.v.size(); k++) REQUIRE(!(h.l.v[k]->lastDomain().isClosed() && h.l.v[k]->lastDomain().isEmpty()), "v" << k << " is empty after a propagation which tolerates violations");
    if (total == 0) soundness(h.l, nowv, brute(nowv, all, spec), true, "without violations");
    bool assigned = true;
    Vals a(nowv.size(), 0);
    for (size_t k = 0; k < nowv.size(); k++) {
      if (nowv[k].constant) continue;
      if (!spec.count((int)k)) { assigned = false; break; }
      a[k] = spec[(int)k]; nowv[k].vals = Vals{a[k]};
    }
    if (assigned && !inner) for (auto& c : kept) REQUIRE(holds(c, nowv, a), "all variables are assigned, but " << showCon(c) << " does not hold and is not reported as violated");
    if (assigned) { bool bad = false; for (auto& c : all) bad |= !holds(c, nowv, a); REQUIRE(bad == (total > 0), "all variables are assigned; violation is " << total << " but " << (bad ? "some" : "no") << " constraint is broken"); }
    if (confluentOnly) {
      Fresh f = fresh(h, false), g = fresh(h, true);
      if (f.ok && g.ok && f.keys == g.keys) {
        REQUIRE(total == 0, "violation " << total << " is left, but a strict engine with the same network is consistent: " << f.show);
        REQUIRE(domKeys(h.l.v) == f.keys, "domains" << showDoms(h.l.v) << " but a fresh engine has" << f.show);
      } else if (!f.ok && !g.ok) REQUIRE(total > 0, "no violation, but a strict engine with the same network is inconsistent;" << showDoms(h.l.v));
    }
    if (total > 0) contradicted = true;
    s.label(total > 0 ? "violated" : "no violation");
  }
}
static void toleratedExact(Src& s) { tolerated(s, true); }
static void toleratedAny(Src& s) { tolerated(s, false); }
PBT_PROP("C06", "violations_and_recovery", toleratedExact, 120000, 40, 1000);
PBT_PROP("C06", "violations_are_sound", toleratedAny, 120000, 40, 1000);

static void staleViolation() {
  Live l(true);
  ConstraintEngineId ce = l.ce();
  ce->setAllowViolations(true);
  auto mk = [&](const Domain& d) { return l.ce()->createVariable(d.getTypeName().c_str(), d, false, true, "v"); };
  ConstrainedVariableId v0 = mk(IntervalIntDomain(1, 1)), v1 = mk(BoolDomain()), v3 = mk(IntervalIntDomain(0, 0));
  std::vector<ConstrainedVariableId> a{v1, v0, v3}, b{v1, v3};
  ConstraintId eq = ce->createConstraint("eq", a);
  ce->createConstraint("neg", b);
  ce->propagate();
  v1->specify(0);
  ce->deleteConstraint(eq);
  ce->propagate();
  REQUIRE(ce->getViolation() == 0, "neg(0,0) still counts as violated after the contradiction is gone");
}
PBT_PINNED("C06", "stale-violation-of-specified-variable", staleViolation);
