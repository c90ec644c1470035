// E02: the public interface (PSEngine and what it hands out) against the engine it stands for, and against a
// second engine on which the same history is made with the engine's own operations.
#include "nddlenv.hh"
#include "PSEngine.hh"
#include "PSPlanDatabase.hh"
#include "PSConstraintEngine.hh"
#include "PSVarValue.hh"
#include "PSPlanDatabaseListener.hh"
#include "PSConstraintEngineListener.hh"
#include "PSSolvers.hh"
#include "Solver.hh"
#include "Context.hh"
#include "XMLUtils.hh"
#include "tinyxml.h"
#include <cmath>
#include <fstream>
#include <memory>
#include <unistd.h>
using namespace pbt;
using namespace EUROPA;
using nddl::Env;

PBT_RULE("E02", "a random model (classes with members of every kind, subclasses, predicates, rules with subgoals) loaded through PSEngine and into an engine of its own, then one history on both, "
         "made through the public interface here and with the engine's operations there: creating and deleting objects, tokens, variables and constraints, specifying, resetting, activating, merging, "
         "rejecting, cancelling, ordering, closing, solving step by step; after each the plan as read through the public interface, as read from the engine below it, and that of the other engine "
         "must be the same text, and listeners must have been told of it; non-trivial when the history changed three kinds of thing and some token had a master or was merged",
         {"variables of a class without objects aren't asked for their kind", "the plan is only read while it is consistent"});

namespace {
typedef std::string S;
S num(long v) { return std::to_string(v); }
S real(double d) { std::ostringstream o; o.precision(17); o << d; return o.str(); }

struct Told : PSPlanDatabaseListener {
  std::set<PSEntityKey> objects; std::map<PSEntityKey, char> state; std::set<std::pair<PSEntityKey, PSEntityKey> > on; S odd;
  void notifyAdded(PSObject* o) override { if (!objects.insert(o->getEntityKey()).second) odd = "an object is announced twice"; }
  void notifyRemoved(PSObject* o) override { if (!objects.erase(o->getEntityKey())) odd = "an unknown object is announced to be removed"; }
  void notifyActivated(PSToken* t) override { state[t->getEntityKey()] = 'A'; }
  void notifyDeactivated(PSToken* t) override { state[t->getEntityKey()] = 'I'; }
  void notifyRejected(PSToken* t) override { state[t->getEntityKey()] = 'R'; }
  void notifyMerged(PSToken* t) override { state[t->getEntityKey()] = 'M'; }
  void notifySplit(PSToken* t) override { state[t->getEntityKey()] = 'I'; }
  void notifyAdded(PSObject* o, PSToken* t) override { on.insert({o->getEntityKey(), t->getEntityKey()}); }
  void notifyRemoved(PSObject* o, PSToken* t) override { on.erase({o->getEntityKey(), t->getEntityKey()}); }
};
struct Heard : PSConstraintEngineListener {
  std::set<PSEntityKey> changed;
  void notifyChanged(PSVariable* v, PSChangeType) override { changed.insert(v->getEntityKey()); }
};
struct File {   // a solver's configuration in a file of its own
  S name;
  explicit File(const S& text) { char t[] = "/tmp/e02XXXXXX"; int fd = mkstemp(t); if (fd < 0) throw Discard(); close(fd); name = t; std::ofstream(name) << text; }
  ~File() { unlink(name.c_str()); }
};
struct Own : Env { Own() : Env(true, true) {} };
const char* COLOURS[] = {"red", "green", "blue"};

struct World {
  Src& s;
  PSEngine* ps = nullptr; EngineBase* base = nullptr;
  std::unique_ptr<Own> own;
  std::unique_ptr<Told> told; std::unique_ptr<Heard> heard;
  std::map<PSEntityKey, S> last;
  std::vector<S> extra, globals;
  std::vector<std::pair<PSConstraint*, ConstraintId> > constraints;
  std::set<S> constrained;
  struct Prec { S obj; size_t p, q; };
  std::set<S> kinds; bool deep = false, closedDb = false; std::set<S> closed; int made = 0;
  explicit World(Src& src) : s(src) {}
  ~World() { told.reset(); heard.reset(); delete ps; own.reset(); }
  PlanDatabase& db() { return *boost::polymorphic_cast<PlanDatabase*>(base->getComponent("PlanDatabase")); }
  ConstraintEngine& ce() { return *boost::polymorphic_cast<ConstraintEngine*>(base->getComponent("ConstraintEngine")); }

  S model() {
    S r = "enum Shade { red, green, blue }\ntypedef int [0 5] Small; typedef int [0 3] Tiny; typedef float [0.0 2.5] Part;\n"
          "class E { E() { } }\n"
          "class A { int i; float f; bool b; Shade c; string t; E e; predicate p { Small n; Shade c; bool b; E e; Part f; } predicate q { int n; } A() { } }\n"
          "class B extends A { int j; predicate r { Shade c; A a; } B() { super(); } }\n"
          "class L extends Timeline { predicate run { Tiny n; } }\n";
    static const char* REL[] = {"meets", "before", "contains", "any", "met_by", "after", "contained_by", "equals"};
    auto body = [&](const S& x) { return S(REL[s.idx(8)]) + "(" + x + " s" + num(made++) + "); "; };
    if (s.flip()) { r += "A::p { " + body("A.q") + (s.flip() ? body("L.run") : S()) + (s.flip() ? "int loc; " : "") + "}\n"; }
    if (s.flip()) { r += "B::r { " + (s.flip() ? body("A.q") : S("if (c == red) { " + body("A.p") + "} ")) + "}\n"; }
    if (s.chance(1, 3)) r += "L::run { " + body("A.q") + "}\n";
    r += "E e1 = new E(); A a1 = new A(); B b1 = new B(); L l1 = new L();\n";
    if (s.flip()) r += "E e2 = new E(); ";
    if (s.flip()) r += "A a2 = new A(); ";
    if (s.chance(1, 3)) r += "L l2 = new L(); ";
    for (long n = s.draw(0, 3); n > 0; n--) {
      S g = "g" + num(made++); globals.push_back(g);
      switch (s.idx(6)) {
        case 0: r += "int " + g + ";"; break;
        case 1: r += "int " + g + (s.flip() ? " = " + num(s.draw(-3, 9)) : S()) + ";"; break;
        case 2: r += "float " + g + (s.flip() ? " = 1.25" : "") + ";"; break;
        case 3: r += "bool " + g + ";"; break;
        case 4: r += "Shade " + g + (s.flip() ? " = green" : "") + ";"; break;
        default: r += "E " + g + ";"; break;
      }
      r += "\n";
    }
    for (long n = s.draw(0, 3); n > 0; n--) { r += S(s.flip() ? "goal" : s.flip() ? "rejectable" : "fact") + "(" + S(s.oneof({"A.p", "A.q", "B.r", "L.run", "B.p"})) + " k" + num(made++) + ");\n"; }
    return r;
  }

  // ------------------------------------------------------------ one plan, three readings
  static std::vector<TokenId> sorted(const TokenSet& t) { std::vector<TokenId> v(t.begin(), t.end()); std::sort(v.begin(), v.end(), [](const TokenId& a, const TokenId& b) { return a->getKey() < b->getKey(); }); return v; }
  static S kindOf(const ConstrainedVariableId v) {
    const Domain& d = v->baseDomain();
    S t = d.getTypeName();
    if (t == "int" || t == "INT") return "int";
    if (t == "float" || t == "FLOAT") return "float";
    if (t == "bool" || t == "BOOL") return "bool";
    if (t == "E" || t == "A" || t == "B" || t == "L" || t == "Timeline" || t == "Object") return "object";
    if (t == "string" || t == "STRING" || t == "Shade" || t == "symbol") return "string";
    if (d.isNumeric()) return d.minDelta() < 1 ? "float" : "int";
    return d.isEntity() ? "object" : "string";
  }
  static S value(const S& kind, edouble d) {
    if (kind == "object") return Entity::getTypedEntity<Object>(d)->getName();
    if (kind == "string") return LabelStr(d).toString();
    if (kind == "bool") return d != 0 ? "true" : "false";
    return real(cast_double(d));
  }
  static S inside(const ConstrainedVariableId v) {
    const Domain& d = v->lastDomain();
    S k = kindOf(v), r = v->getName() + ":";
    bool e = v->baseDomain().isEnumerated();
    if (k == "object" && v->baseDomain().isEmpty()) return r + "-";
    r += k + (v->baseDomain().isInterval() ? " i" : "") + (e ? " e" : "") + " ";
    if (v->isSpecified()) return r + "=" + value(k, v->getSpecifiedValue());
    if (d.isEmpty()) return r + "null";
    if (d.isSingleton()) return r + "=" + value(k, d.getSingletonValue());
    if (e) { std::set<S> x; std::list<edouble> l; d.getValues(l); for (auto z : l) x.insert(value(k, z)); for (auto& z : x) r += z + ","; return r; }
    return r + "[" + real(cast_double(d.getLowerBound())) + " " + real(cast_double(d.getUpperBound())) + "]";
  }
  static S value(PSVarValue x) {
    switch (x.getType()) {
      case INTEGER: REQUIRE(x.asInt() == x.asDouble() || std::abs(x.asDouble()) > 2e9, "an int and a double of one value differ"); return real(x.asDouble());
      case DOUBLE: return real(x.asDouble());
      case BOOLEAN: return x.asBoolean() ? "true" : "false";
      case STRING: return x.asString();
      default: return x.asObject()->getEntityName();
    }
  }
  S outside(PSVariable* v) {
    S r = v->getEntityName() + ":";
    REQUIRE(v->getEntityType() == "VARIABLE" || !v->getEntityType().empty(), "no type of entity");
    ConstrainedVariableId id = Entity::getEntity(v->getEntityKey());
    if (kindOf(id) == "object" && id->baseDomain().isEmpty()) return r + "-";
    static const char* N[] = {"int", "float", "bool", "string", "object"};
    r += S(N[v->getType()]) + (v->isInterval() ? " i" : "") + (v->isEnumerated() ? " e" : "") + " ";
    S txt = v->toString(), x;
    if (v->isNull()) { REQUIRE(txt == "NULL", "a variable without values reads " << txt); return r + "null"; }
    if (v->isSingleton()) {
      x = value(v->getSingletonValue());
      if (v->getType() == STRING || v->getType() == INTEGER) REQUIRE(txt == (v->getType() == STRING ? x : num((long)v->getSingletonValue().asInt())), v->getEntityName() << " reads " << txt << " and is " << x);
      return r + "=" + x;
    }
    if (v->isEnumerated()) {
      std::set<S> y; PSList<PSVarValue> l = v->getValues();
      for (long i = 0; i < l.size(); i++) { S z = value(l.get(i)); REQUIRE(y.insert(z).second, "a value is listed twice"); }
      for (auto& z : y) r += z + ",";
      return r;
    }
    return r + "[" + real(v->getLowerBound()) + " " + real(v->getUpperBound()) + "]";
  }
  S dumpInside(PlanDatabase& d) {
    std::vector<S> l; S r;
    std::map<long, int> no; std::vector<TokenId> ts = sorted(d.getTokens());
    for (size_t i = 0; i < ts.size(); i++) no[(long)cast_long(ts[i]->getKey())] = (int)i;
    auto n = [&](TokenId t) { return t.isNoId() ? S("none") : num(no.at((long)cast_long(t->getKey()))); };
    auto set = [&](const TokenSet& x) { S q; for (auto& t : sorted(x)) q += n(t) + ","; return q; };
    for (auto o : d.getObjects()) {
      S q = "object " + o->getName() + " " + o->getType() + " (" + set(o->tokens()) + ")";
      for (auto v : o->getVariables()) q += " " + inside(v);
      l.push_back(q);
    }
    for (auto v : d.getGlobalVariables()) l.push_back("global " + inside(v));
    std::sort(l.begin(), l.end());
    for (auto& x : l) r += x + "\n";
    for (auto t : ts) {
      r += n(t) + " " + t->getPredicateName() + " " + t->getUnqualifiedPredicateName() + (t->isFact() ? " fact" : "") + (t->isActive() ? " active" : t->isInactive() ? " inactive" : t->isMerged() ? " merged" : " rejected");
      r += " of " + n(t->master()) + " on " + n(t->isMerged() ? t->getActiveToken() : TokenId::noId()) + " slaves " + set(t->slaves()) + " merged " + set(t->getMergedTokens());
      const Domain& od = t->getObject()->lastDomain();
      r += " owner " + (t->isAssigned() ? Entity::getTypedEntity<Object>(od.getSingletonValue())->getName() : S("none"));
      r += " " + inside(t->start()) + " " + inside(t->end()) + " " + inside(t->duration()) + " (";
      for (auto v : t->parameters()) r += inside(v) + " ";
      r += ") (";
      for (auto v : t->getVariables()) if (v->getName() != "state") r += inside(v) + " ";
      r += ")\n";
    }
    return r;
  }
  S dumpOutside() {
    std::vector<S> l; S r;
    std::map<PSEntityKey, int> no;
    PSList<PSToken*> all = ps->getTokens();
    std::vector<PSToken*> ts;
    for (long i = 0; i < all.size(); i++) ts.push_back(all.get(i));
    std::sort(ts.begin(), ts.end(), [](PSToken* a, PSToken* b) { return a->getEntityKey() < b->getEntityKey(); });
    for (size_t i = 0; i < ts.size(); i++) no[ts[i]->getEntityKey()] = (int)i;
    auto n = [&](PSToken* t) { if (!t) return S("none"); REQUIRE(no.count(t->getEntityKey()), "a token that isn't among the engine's"); return num(no[t->getEntityKey()]); };
    auto set = [&](PSList<PSToken*> x) { std::set<int> y; for (long i = 0; i < x.size(); i++) { REQUIRE(no.count(x.get(i)->getEntityKey()), "a token that isn't among the engine's"); REQUIRE(y.insert(no[x.get(i)->getEntityKey()]).second, "a token is listed twice"); } S q; for (int i : y) q += num(i) + ","; return q; };
    PSList<PSObject*> os = ps->getObjects();
    for (long i = 0; i < os.size(); i++) {
      PSObject* o = os.get(i);
      S q = "object " + o->getEntityName() + " " + o->getObjectType() + " (" + set(o->getTokens()) + ")";
      PSList<PSVariable*> vs = o->getMemberVariables();
      for (long k = 0; k < vs.size(); k++) {
        q += " " + outside(vs.get(k));
        REQUIRE(o->getMemberVariable(vs.get(k)->getEntityName()) == vs.get(k), "a member isn't found by its name");
        REQUIRE(vs.get(k)->getParent() == static_cast<PSEntity*>(o), "the parent of a member isn't its object");
        REQUIRE(ps->getVariableByKey(vs.get(k)->getEntityKey()) == vs.get(k), "a member isn't found by its key");
      }
      REQUIRE(!o->getMemberVariable("nosuch"), "a member that doesn't exist is found");
      REQUIRE(ps->getObjectByKey(o->getEntityKey()) == o, "an object isn't found by its key");
      REQUIRE(ps->getObjectByName(o->getEntityName()) == o, "an object isn't found by its name");
      REQUIRE(PSObject::asPSObject(o->asPSVarValue().asObject()) == o, "an object isn't the value made from it");
      l.push_back(q);
    }
    for (S t : {"E", "A", "B", "L", "Timeline", "Object"}) {
      std::set<PSEntityKey> want, got;
      for (auto o : db().getObjects()) if (o->getType() == t || t == "Object" || (t == "A" && o->getType() == "B") || (t == "Timeline" && o->getType() == "L")) want.insert((PSEntityKey)cast_int(o->getKey()));
      PSList<PSObject*> x = ps->getObjectsByType(t);
      for (long i = 0; i < x.size(); i++) REQUIRE(got.insert(x.get(i)->getEntityKey()).second, "an object is listed twice for its type");
      REQUIRE(got == want, got.size() << " objects of " << t << " and not " << want.size());
    }
    PSList<PSVariable*> gs = ps->getGlobalVariables();
    for (long i = 0; i < gs.size(); i++) {
      l.push_back("global " + outside(gs.get(i)));
      REQUIRE(ps->getVariableByKey(gs.get(i)->getEntityKey()) == gs.get(i), "a global variable isn't found by its key");
      PSVariable* named = ps->getVariableByName(gs.get(i)->getEntityName());
      REQUIRE(named && named->getEntityName() == gs.get(i)->getEntityName(), "a global variable isn't found by its name");
      REQUIRE(!gs.get(i)->getParent(), "a global variable has a parent");
    }
    std::sort(l.begin(), l.end());
    for (auto& x : l) r += x + "\n";
    for (auto t : ts) {
      static const char* N[] = {" inactive", " active", " merged", " rejected"};
      r += n(t) + " " + t->getFullTokenType() + " " + t->getTokenType() + (t->isFact() ? " fact" : "") + N[t->getTokenState()];
      r += " of " + n(t->getMaster()) + " on " + n(t->getTokenState() == MERGED ? t->getActive() : nullptr) + " slaves " + set(t->getSlaves()) + " merged " + set(t->getMerged());
      r += " owner " + (t->getOwner() ? t->getOwner()->getEntityName() : S("none"));
      r += " " + outside(t->getStart()) + " " + outside(t->getEnd()) + " " + outside(t->getDuration()) + " (";
      PSList<PSVariable*> p = t->getPredicateParameters(), a = t->getParameters();
      for (long i = 0; i < p.size(); i++) r += outside(p.get(i)) + " ";
      r += ") (";
      for (long i = 0; i < a.size(); i++) {
        if (a.get(i)->getEntityName() != "state") r += outside(a.get(i)) + " ";
        REQUIRE(t->getParameter(a.get(i)->getEntityName()) == a.get(i), "a parameter isn't found by its name");
        REQUIRE(a.get(i)->getParent() == static_cast<PSEntity*>(t), "the parent of a parameter isn't its token");
      }
      r += ")\n";
      REQUIRE(!t->getParameter("nosuch"), "a parameter that doesn't exist is found");
      REQUIRE(ps->getTokenByKey(t->getEntityKey()) == t, "a token isn't found by its key");
      REQUIRE(t->getViolation() == 0, "a token of a consistent plan is violated");
      if (t->getMaster() || t->getTokenState() == MERGED) deep = true;
    }
    return r;
  }
  void scopes() {   // constraints and variables know each other
    std::map<PSEntityKey, std::multiset<PSEntityKey> > of;
    for (auto c : ce().getConstraints()) { std::set<PSEntityKey> x; for (auto v : c->getScope()) x.insert((PSEntityKey)cast_int(v->getKey())); for (auto k : x) of[k].insert((PSEntityKey)cast_int(c->getKey())); }
    for (auto v : ce().getVariables()) {
      PSVariable* p = ps->getVariableByKey((PSEntityKey)cast_int(v->getKey()));
      std::set<PSEntityKey> got, want;
      PSList<PSConstraint*> l = p->getConstraints();
      for (long i = 0; i < l.size(); i++) {
        got.insert(l.get(i)->getEntityKey());
        PSList<PSVariable*> sc = l.get(i)->getVariables(); bool in = false;
        for (long k = 0; k < sc.size(); k++) if (sc.get(k) == p) in = true;
        REQUIRE(in, "a constraint of a variable doesn't list it");
        ConstraintId id = Entity::getEntity(l.get(i)->getEntityKey());
        REQUIRE((size_t)sc.size() == id->getScope().size(), "a constraint's variables aren't its scope");
        REQUIRE(l.get(i)->isActive() == id->isActive() && l.get(i)->getEntityName() == id->getName() && l.get(i)->getViolation() == 0, "a constraint isn't the engine's");
      }
      for (auto k : of[p->getEntityKey()]) want.insert(k);
      REQUIRE(got == want, "the constraints of " << p->getEntityName() << " are " << got.size() << " and not " << want.size());
    }
  }
  void listeners() {
    REQUIRE(told->odd.empty(), told->odd);
    std::set<PSEntityKey> o; std::set<std::pair<PSEntityKey, PSEntityKey> > on;
    for (auto x : db().getObjects()) { o.insert((PSEntityKey)cast_int(x->getKey())); for (auto t : x->tokens()) on.insert({(PSEntityKey)cast_int(x->getKey()), (PSEntityKey)cast_int(t->getKey())}); }
    REQUIRE(told->objects == o, "the listener was told of " << told->objects.size() << " objects and there are " << o.size());
    std::set<std::pair<PSEntityKey, PSEntityKey> > heardOn;
    std::set<PSEntityKey> live;
    for (auto t : db().getTokens()) live.insert((PSEntityKey)cast_int(t->getKey()));
    for (auto& p : told->on) if (live.count(p.second) && o.count(p.first)) heardOn.insert(p);
    REQUIRE(heardOn == on, "the listener was told of " << heardOn.size() << " tokens on objects and there are " << on.size());
    for (auto t : db().getTokens()) {
      char want = t->isActive() ? 'A' : t->isMerged() ? 'M' : t->isRejected() ? 'R' : 'I';
      char had = told->state.count((PSEntityKey)cast_int(t->getKey())) ? told->state[(PSEntityKey)cast_int(t->getKey())] : 'I';
      if (had == 'R' && want == 'I') had = 'I';   // the return from rejection isn't announced here
      REQUIRE(had == want, "the listener takes token " << t->getPredicateName() << " to be in state " << had << " and it is in " << want);
    }
    std::map<PSEntityKey, S> now;
    for (auto v : ce().getVariables()) {
      PSEntityKey k = (PSEntityKey)cast_int(v->getKey());
      S x = v->lastDomain().isEmpty() ? "empty" : v->lastDomain().toString();
      if (last.count(k) && last[k] != x && v->isActive() && !v->lastDomain().isOpen()) REQUIRE(heard->changed.count(k), "the listener wasn't told that " << v->getName() << " changed from " << last[k] << " to " << x);
      if (v->isActive()) now[k] = x;
    }
    last = now; heard->changed.clear();
  }
  bool settle() {
    bool a = ps->propagate(), b = own->ce().propagate();
    REQUIRE(a == b, "the plan made through the public interface is " << (a ? "consistent" : "inconsistent") << ", the other isn't");
    REQUIRE(a == ce().constraintConsistent(), "propagate's verdict isn't the engine's");
    if (!a) { REQUIRE(ps->getViolation() > 0, "an inconsistent plan has no violation"); s.label("inconsistent"); return false; }
    REQUIRE(ps->getViolation() == 0 && ps->getAllViolations().size() == 0 && ps->getViolationExpl().size() == 0, "a consistent plan is violated");
    S in = dumpInside(db()), out = dumpOutside(), other = dumpInside(own->db());
    diff(in, out, "the engine", "the public interface");
    diff(other, in, "the engine's own operations", "the public interface's operations");
    scopes(); listeners();
    s.label("compared");
    return true;
  }
  void diff(const S& a, const S& b, const char* x, const char* y) {
    if (a == b) return;
    std::istringstream i(a), j(b); S l, m;
    while (true) { bool p = (bool)std::getline(i, l), q = (bool)std::getline(j, m); if (!p) l = "(nothing)"; if (!q) m = "(nothing)"; if (l != m || (!p && !q)) break; }
    fail(S("by ") + x + ": " + l + "\nby " + y + ": " + m);
  }

  // ------------------------------------------------------------ history
  struct Pair { PSVariable* a; ConstrainedVariableId b; };
  TokenId inA(size_t i) { return sorted(db().getTokens())[i]; }
  TokenId inB(size_t i) { return sorted(own->db().getTokens())[i]; }
  PSToken* psTok(size_t i) { return ps->getTokenByKey((PSEntityKey)cast_int(inA(i)->getKey())); }
  bool step() {
    PSPlanDatabaseClient* c = ps->getPlanDatabaseClient(); DbClientId d = own->db().getClient();
    size_t n = db().getTokens().size(), i = n ? s.idx(n) : 0;
    TokenId a = n ? inA(i) : TokenId::noId(), b = n ? inB(i) : TokenId::noId();
    PSToken* p = n ? psTok(i) : nullptr;
    bool viaClient = s.flip();
    int op = s.weighted({4, 4, 6, 2, 4, 7, 3, 3, 2, 2, 3, 4, 3, 2, 3, 4, 1});
    if (n == 0 && op < 5) op = 7;
    if (op < 5 && s.chance(3, 4)) {   // a token the operation is meant for
      std::vector<size_t> fit, best;
      for (size_t j = 0; j < n; j++) {
        TokenId t = inA(j);
        if (op < 4 ? t->isInactive() : !t->isInactive()) fit.push_back(j);
        if (op == 2 ? t->isInactive() && db().hasCompatibleTokens(t) : op == 4 ? t->isMerged() : t->isInactive() && t->master().isId()) best.push_back(j);
      }
      if (!best.empty() && op != 3) fit = best;
      if (!fit.empty()) { i = s.pick(fit); a = inA(i); b = inB(i); p = psTok(i); }
    }
    auto did = [&](const S& k) { kinds.insert(k); s.label(k); s.note() << k << (n && op < 5 ? " token " + num((long)i) : S()) << (viaClient ? "" : " (directly)") << "; "; };
    switch (op) {
      case 0: case 1: if (!a->isInactive()) return false; did("activate"); if (viaClient) c->activate(p); else p->activate(); d->activate(b); return true;
      case 2: {
        if (!a->isInactive()) return false;
        unsigned lim = s.chance(1, 4) ? (unsigned)s.draw(1, 2) : 100; bool exact = s.flip();
        PSList<PSToken*> x = p->getCompatibleTokens(lim, exact);
        std::vector<TokenId> y; own->db().getCompatibleTokens(b, y, lim, exact);
        REQUIRE((size_t)x.size() == y.size(), x.size() << " tokens can be merged with and not " << y.size());
        if (y.empty()) return false;
        size_t k = s.idx(y.size()), which = n;
        for (size_t j = 0; j < n; j++) if (inB(j) == y[k]) which = j;
        bool listed = false; for (long j = 0; j < x.size(); j++) if (x.get(j) == psTok(which)) listed = true;
        if (lim == 100) REQUIRE(listed, "a token to merge with isn't listed");
        did("merge"); if (a->master().isId()) s.label("merge of a subgoal");
        if (viaClient) c->merge(p, psTok(which)); else p->merge(psTok(which));
        d->merge(b, y[k]); return true;
      }
      case 3: if (!a->isInactive() || !a->getState()->lastDomain().isMember(Token::REJECTED)) return false; did("reject"); if (viaClient) c->reject(p); else p->reject(); d->reject(b); return true;
      case 4: if (a->isInactive() || a->isFact() || !a->getMergedTokens().empty() || (!a->getState()->isSpecified())) return false; if (a->isActive() && a->isCommitted()) return false; did("cancel"); if (a->isMerged()) s.label(a->master().isId() ? "split of a subgoal" : "split"); if (viaClient) c->cancel(p); else p->cancel(); d->cancel(b); return true;
      case 5: case 6: {
        Pair v = variable(n, i, a, b);
        for (int k = 0; op == 6 && k < 8 && !(v.a && ConstrainedVariableId(Entity::getEntity(v.a->getEntityKey()))->isSpecified()); k++) { if (n) { i = s.idx(n); a = inA(i); b = inB(i); } v = variable(n, i, a, b); }
        if (!v.a) return false;
        ConstrainedVariableId x = Entity::getEntity(v.a->getEntityKey());
        if (op == 6) { if (!x->isSpecified() || x->baseDomain().isSingleton()) return false; did("reset"); if (viaClient) c->reset(v.a); else v.a->reset(); v.b->reset(); return true; }
        if (x->isSpecified() && !s.chance(1, 6)) return false;
        if (!x->canBeSpecified() || x->lastDomain().isEmpty()) return false;
        S k = kindOf(x);
        if (x->isSpecified()) { did("specify again"); PSVarValue w = v.a->getSingletonValue(); v.a->specifyValue(w); return true; }
        if (x->lastDomain().isSingleton() && !s.chance(1, 4)) return false;
        if (k == "object") {
          std::list<edouble> l; x->lastDomain().getValues(l); std::vector<S> nm; for (auto z : l) nm.push_back(value(k, z)); std::sort(nm.begin(), nm.end());
          if (nm.empty()) return false;
          S o = s.pick(nm); did("specify"); s.note() << v.a->getEntityName() << " to " << o << "; ";
          PSVarValue w = ps->getObjectByName(o)->asPSVarValue();
          if (viaClient) c->specify(v.a, w.asDouble()); else v.a->specifyValue(w);
          v.b->specify(own->db().getObject(o)->getKey()); return true;
        }
        double z;
        if (k == "string") { if (!x->lastDomain().isEnumerated() || x->lastDomain().isOpen()) return false; std::list<edouble> l; x->lastDomain().getValues(l); if (l.empty()) return false; std::vector<S> nm; for (auto q : l) nm.push_back(value(k, q)); std::sort(nm.begin(), nm.end()); z = cast_double(edouble(LabelStr(s.pick(nm)))); }
        else if (k == "bool") z = x->lastDomain().isSingleton() ? cast_double(x->lastDomain().getSingletonValue()) : (double)s.draw(0, 1);
        else {
          double lo = cast_double(x->lastDomain().getLowerBound()), hi = cast_double(x->lastDomain().getUpperBound());
          lo = std::max(lo, -20.0); hi = std::min(hi, 40.0); if (lo > hi) return false;
          z = lo + (double)s.draw(0, (long)std::floor(hi - lo)); if (k == "float" && z + 0.25 <= hi && s.flip()) z += 0.25;
          if (!x->lastDomain().isMember(z)) return false;
        }
        did("specify"); s.note() << v.a->getEntityName() << " to " << z << "; ";
        PSVarValue w(z, v.a->getType());
        if (viaClient) c->specify(v.a, z); else v.a->specifyValue(w);
        v.b->specify(edouble(z)); return true;
      }
      case 7: {
        if (n > 10) return false;
        S pr = s.oneof({"A.p", "A.q", "B.r", "L.run", "B.p", "B.q"}); bool rej = s.flip(), fact = !rej && s.chance(1, 4);
        did("create token"); s.note() << pr << (rej ? " rejectable; " : fact ? " fact; " : "; ");
        PSToken* x = c->createToken(pr, rej, fact); d->createToken(pr, "", rej, fact);
        REQUIRE(x && x->getFullTokenType() == pr, "the token created has type " << x->getFullTokenType()); return true;
      }
      case 8: if (n == 0 || !a->isInactive() || a->master().isId()) return false; did("delete token"); c->deleteToken(p); d->deleteToken(b); return true;
      case 9: {
        if (closedDb) return false;
        S t = s.oneof({"E", "A", "B"}); if (closed.count(t)) return false;
        S nm = "x" + num(made++); did("create object"); s.note() << t << " " << nm << "; ";
        PSObject* o = c->createObject(t, nm); d->createObject(t, nm);
        REQUIRE(o && o->getEntityName() == nm && o->getObjectType() == t, "the object created isn't the one asked for");
        extra.push_back(nm); return true;
      }
      case 10: {
        S t = s.oneof({"int", "int", "float", "bool", "Shade", "E"}), nm = "v" + num(made++); did("create variable"); s.note() << t << " " << nm << "; ";
        PSVariable* v = c->createVariable(t, nm, false); d->createVariable(t, nm, false);
        REQUIRE(v && v->getEntityName() == nm, "the variable created isn't the one asked for"); globals.push_back(nm); return true;
      }
      case 11: {
        std::vector<S> ints; for (auto& g : globals) if (kindOf(db().getGlobalVariable(g)) == "int") ints.push_back(g);
        if (ints.size() < 2) return false;
        S x = s.pick(ints), y = s.pick(ints), k = s.oneof({"eq", "leq", "neq"}); if (x == y) return false;
        did("constrain"); s.note() << k << "(" << x << ", " << y << "); ";
        PSList<PSVariable*> sc; sc.push_back(id_cast<PSVariable>(db().getGlobalVariable(x))); sc.push_back(id_cast<PSVariable>(db().getGlobalVariable(y)));
        PSConstraint* q = c->createConstraint(k, sc);
        ConstraintId z = d->createConstraint(k.c_str(), {own->db().getGlobalVariable(x), own->db().getGlobalVariable(y)});
        REQUIRE(q && q->getVariables().size() == 2 && q->getVariables().get(0) == sc.get(0) && q->getVariables().get(1) == sc.get(1), "the constraint created has other variables");
        constraints.push_back({q, z}); constrained.insert(x); constrained.insert(y); return true;
      }
      case 12: {
        if (constraints.empty()) return false;
        size_t k = s.idx(constraints.size()); did("delete constraint");
        c->deleteConstraint(constraints[k].first); d->deleteConstraint(constraints[k].second); constraints.erase(constraints.begin() + (long)k); return true;
      }
      case 13: {
        std::vector<S> f; for (auto& g : globals) if (g[0] == 'v' && !constrained.count(g)) f.push_back(g);
        if (f.empty()) return false;
        S g = s.pick(f); did("delete variable"); s.note() << g << "; ";
        c->deleteVariable(id_cast<PSVariable>(db().getGlobalVariable(g))); d->deleteVariable(own->db().getGlobalVariable(g));
        globals.erase(std::find(globals.begin(), globals.end(), g)); return true;
      }
      case 14: {   // an ordering on an object
        if (n < 2 || ce().pending()) return false;
        size_t j = s.idx(n); if (i == j) return false;
        if (s.flip()) for (size_t x = 0; x < n; x++) for (size_t y = 0; y < n; y++) for (auto o : db().getObjects()) if (x != y && o->isConstrainedToPrecede(inA(x), inA(y))) { i = x; j = y; a = inA(i); b = inB(i); p = psTok(i); }
        TokenId t = inA(j);
        if (!a->isActive() || !t->isActive()) return false;
        std::vector<S> os; for (auto o : db().getObjects()) if (o->getType() == "A" || o->getType() == "B") if (a->getObject()->lastDomain().isMember(o->getKey()) && t->getObject()->lastDomain().isMember(o->getKey())) os.push_back(o->getName());
        if (os.empty()) return false;
        std::sort(os.begin(), os.end());
        S o = s.pick(os); ObjectId oa = db().getObject(o), ob = own->db().getObject(o);
        if (oa->isConstrainedToPrecede(a, t)) {
          did("free"); s.note() << o << " " << i << " " << j << "; ";
          if (viaClient) c->free(ps->getObjectByName(o), p, psTok(j)); else ps->getObjectByName(o)->removePrecedence(p, psTok(j));
          ob->free(b, inB(j));
        } else {
          if (oa->isConstrainedToPrecede(t, a)) return false;
          did("order"); s.note() << o << " " << i << " " << j << "; ";
          if (viaClient) c->constrain(ps->getObjectByName(o), p, psTok(j)); else ps->getObjectByName(o)->addPrecedence(p, psTok(j));
          ob->constrain(b, inB(j));
        }
        REQUIRE(oa->isConstrainedToPrecede(a, t) == ob->isConstrainedToPrecede(b, inB(j)), "the ordering isn't as in the other plan");
        return true;
      }
      case 15: {
        if (extra.empty() || ce().pending()) return false;
        S nm = s.pick(extra); ObjectId o = db().getObject(nm); edouble key = o->getKey();
        if (!o->tokens().empty()) return false;
        for (auto v : ce().getVariables()) {
          if (kindOf(v) != "object" || v->getName() == "NO_NAME" || v->baseDomain().isEmpty() || !v->baseDomain().isMember(key)) continue;
          if (v->baseDomain().isClosed() || v->isSpecified() || v->lastDomain().isSingleton() || !v->isActive()) return false;
        }
        did("delete object"); s.note() << nm << "; ";
        c->deleteObject(ps->getObjectByName(nm)); own->db().getClient()->deleteObject(own->db().getObject(nm));
        extra.erase(std::find(extra.begin(), extra.end(), nm)); return true;
      }
      default: {
        if (closedDb) return false;
        if (s.chance(1, 3)) { did("close all"); c->close(); d->close(); closedDb = true; return true; }
        S t = s.oneof({"E", "A", "B"}); if (closed.count(t)) return false;
        did("close type"); s.note() << t << "; "; c->close(t); d->close(t); closed.insert(t); return true;
      }
    }
  }
  Pair variable(size_t n, size_t i, TokenId a, TokenId b) {
    Pair none{nullptr, ConstrainedVariableId::noId()};
    int w = s.weighted({n ? 6 : 0, 2, 2});
    if (w == 0) {
      if (a->isMerged() || a->isRejected()) return none;
      PSToken* p = psTok(i);
      S nm = s.oneof({"n", "c", "b", "e", "f", "a", "object", "start", "end", "duration"});
      PSVariable* v = p->getParameter(nm);
      if (nm == "start" && s.flip()) v = p->getStart();
      if (nm == "end" && s.flip()) v = p->getEnd();
      if (nm == "duration" && s.flip()) v = p->getDuration();
      if (!v) return none;
      return Pair{v, b->getVariable(nm)};
    }
    if (w == 1) {
      if (globals.empty()) return none;
      S g = s.pick(globals); PSList<PSVariable*> l = ps->getGlobalVariables();
      for (long k = 0; k < l.size(); k++) if (l.get(k)->getEntityName() == g) return Pair{l.get(k), own->db().getGlobalVariable(g)};
      fail("the global variable " + g + " isn't listed");
    }
    S o = s.oneof({"a1", "b1"}), m = s.oneof({"i", "f", "b", "c", "e", "j"});
    PSVariable* v = ps->getObjectByName(o)->getMemberVariable(o + "." + m);
    if (!v) return none;
    return Pair{v, own->db().getObject(o)->getVariable(o + "." + m)};
  }
  bool start() {
    const char* r = getenv("EUROPA_REPO");
    setenv("EUROPA_NDDL", (S(r ? r : "/repo") + "/src/PLASMA").c_str(), 1);
    ps = PSEngine::makeInstance(); ps->start(); base = dynamic_cast<EngineBase*>(ps);
    own.reset(new Own());
    ps->setAutoPropagation(false); own->ce().setAutoPropagation(false);
    REQUIRE(!ps->getAutoPropagation() && !ps->getAllowViolations(), "a setting isn't as made");
    S m = model(); s.note() << m;
    S ea, eb = own->run(m);
    try { ea = ps->executeScript("nddl", m, false); }
    catch (PSLanguageExceptionList& e) { for (int i = 0; i < e.getExceptionCount(); i++) ea += e.getException(i).asString() + "\n"; if (ea.empty()) ea = "errors"; }
    REQUIRE(ea.empty() && eb.empty(), "the program was not accepted: " << ea << eb);
    told.reset(new Told()); heard.reset(new Heard());
    for (auto o : db().getObjects()) { told->objects.insert((PSEntityKey)cast_int(o->getKey())); for (auto t : o->tokens()) told->on.insert({(PSEntityKey)cast_int(o->getKey()), (PSEntityKey)cast_int(t->getKey())}); }
    for (auto t : db().getTokens()) told->state[(PSEntityKey)cast_int(t->getKey())] = t->isActive() ? 'A' : t->isMerged() ? 'M' : t->isRejected() ? 'R' : 'I';
    ps->addPlanDatabaseListener(*told); ps->addConstraintEngineListener(*heard);
    return settle();
  }
};

void interface(Src& s) {
  World w(s);
  if (!w.start()) throw Discard();
  int n = s.draw(2, 25);
  for (int i = 0; i < n; i++) if (w.step() && s.chance(4, 5) && !w.settle()) return;
  w.settle();
  if (w.kinds.size() >= 3 && w.deep) s.nontrivial();
}
void solver(Src& s) {
  World w(s);
  if (!w.start()) throw Discard();
  for (int i = 0, n = s.draw(0, 8); i < n; i++) w.step();
  if (!w.settle()) throw Discard();
  const char* h = s.oneof({"Min", "Max"});
  int u = s.draw(1, 3), o = s.draw(1, 3), t = s.draw(1, 3);
  S xml = "<Solver name=\"P\"><FlawFilter component=\"InfiniteDynamicFilter\"/>"
          "<ThreatManager defaultPriority=\"" + num(t) + "\"><FlawHandler component=\"StandardThreatHandler\"/></ThreatManager>"
          "<OpenConditionManager defaultPriority=\"" + num(o) + "\"><FlawFilter component=\"HorizonFilter\" policy=\"PossiblyContained\"/><FlawHandler component=\"StandardOpenConditionHandler\"/></OpenConditionManager>"
          "<UnboundVariableManager defaultPriority=\"" + num(u) + "\"><FlawHandler component=\"" + h + "\"/></UnboundVariableManager></Solver>";
  File file(xml);
  std::unique_ptr<PSSolver> a(w.ps->createSolver(file.name));
  std::unique_ptr<TiXmlElement> cfg(initXml(xml));
  SOLVERS::Solver b(w.own->db().getId(), *cfg);
  REQUIRE(a->getConfigFilename() == file.name, "the solver's configuration file isn't the one given");
  int hs = s.draw(-10, 5), he = hs + (int)s.draw(0, 60);
  a->configure(hs, he); b.getContext()->put("horizonStart", hs); b.getContext()->put("horizonEnd", he);
  REQUIRE(a->getHorizonStart() == hs && a->getHorizonEnd() == he, "the horizon isn't the one given");
  s.note() << h << " " << u << o << t << " horizon " << hs << " to " << he << "; ";
  int n = s.draw(1, 12); bool moved = false;
  for (int i = 0; i < n; i++) {
    switch (s.weighted({6, 4, 2, 1, 1})) {
      case 0: if (a->isExhausted() || a->isTimedOut()) continue; s.note() << "step; "; a->step(); b.step(); s.label("step"); break;
      case 1: { if (a->isExhausted()) continue; int st = s.draw(1, 15), dp = s.draw(1, 25); s.note() << "solve " << st << " " << dp << "; "; bool x = a->solve(st, dp), y = b.solve((unsigned)st, (unsigned)dp); REQUIRE(x == y, "the public solver " << (x ? "finds a plan" : "finds no plan") << ", the engine's doesn't agree"); s.label(x ? "solved" : "solve"); break; }
      case 2: { int d = a->getDepth(); if (d == 0) continue; unsigned k = (unsigned)s.draw(1, d); s.note() << "backjump " << k << "; "; bool x = a->backjump(k), y = b.backjump(k); REQUIRE(x == y, "the result of a backjump differs"); s.label("backjump"); moved = true; break; }
      case 3: s.note() << "reset; "; a->reset(); b.reset(); s.label("reset"); moved = true; break;
      default: { int d = a->getDepth(); if (d == 0) continue; unsigned k = (unsigned)s.draw(1, d); s.note() << "reset " << k << "; "; a->reset(k); b.reset(k); s.label("reset to a depth"); moved = true; }
    }
    REQUIRE(a->getStepCount() == (int)b.getStepCount(), a->getStepCount() << " steps and not " << b.getStepCount());
    REQUIRE(a->getDepth() == (int)b.getDepth(), "depth " << a->getDepth() << " and not " << b.getDepth());
    REQUIRE(a->isExhausted() == b.isExhausted() && a->isTimedOut() == b.isTimedOut() && a->isConstraintConsistent() == b.isConstraintConsistent(), "the solvers are in different states");
    if (!b.isConstraintConsistent()) { s.label("inconsistent"); break; }
    REQUIRE(a->hasFlaws() == !b.noMoreFlaws(), "hasFlaws says " << a->hasFlaws());
    int open = 0; IteratorId it = b.createIterator(); while (!it->done()) { open++; it->next(); } delete static_cast<Iterator*>(it);
    REQUIRE(a->getOpenDecisionCnt() == open, a->getOpenDecisionCnt() << " open decisions and not " << open);
    REQUIRE((size_t)a->getFlaws().size() == b.getOpenDecisions().size(), a->getFlaws().size() << " flaws and not " << b.getOpenDecisions().size());
    if (!w.settle()) break;
    if (a->getDepth() > 1) moved = true;
  }
  if (moved && w.deep) s.nontrivial();
}
}  // namespace
PBT_PROP("E02", "interface", interface, 6000);
PBT_PROP("E02", "solver", solver, 3000);
