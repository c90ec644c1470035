// V04: which entities are flaws, and which handler is chosen, against a direct evaluation of the rules.
#include "nddlenv.hh"
#include "Solver.hh"
#include "FlawManager.hh"
#include "FlawHandler.hh"
#include "Context.hh"
#include "XMLUtils.hh"
#include "tinyxml.h"
#include <memory>
using namespace pbt;
using namespace EUROPA;
using SOLVERS::Solver;

PBT_RULE("V04", "a random set of filters (of every kind, for the whole solver or one manager) and handlers with criteria on class, predicate, variable, token name and the relation to, class "
         "and predicate of the master, and with guards on the token and its master, over a random model with subclasses, subgoals, guarded rules, local variables, object members and global "
         "variables; a history of token and variable operations; after operations every variable and token is asked whether it is a flaw and which handler it gets, against a direct evaluation "
         "of each rule's criteria; in a second family of histories the handlers have several guards and the decisions make them hold or fail one by one; non-trivial when some handler with a criterion or guard was chosen and some "
         "entity was filtered (in the second family: when a handler with a guard was chosen)",
         {"a rule for masters related by before (after) also matches meets (met_by)", "every manager has a handler without criteria", "no entity is asked about while the plan is inconsistent"});

namespace {
typedef std::string S;
S num(long v) { return std::to_string(v); }
struct PredM { S cls, name; };
const PredM PREDS[] = {{"A", "p"}, {"A", "q"}, {"B", "r"}, {"C", "p"}, {"C", "s"}};
const char* RELS[] = {"before", "after", "meets", "met_by", "contains", "any", "equals", "starts"};
S parentOf(const S& c) { return c == "B" ? "A" : c == "Object" ? "" : "Object"; }
bool isA(S c, const S& a) { for (; !c.empty(); c = parentOf(c)) if (c == a) return true; return false; }

struct Guard { S name, value; bool master; };
struct Rule {
  S kind;                                  // FlawFilter's component, or "" for a plain one; for handlers the component
  std::map<S, S> crit;                     // attribute -> value
  std::vector<Guard> guards;
  int priority = -1; S policy;
  int count() const { int n = (int)guards.size(); for (auto& c : crit) if (c.second != "*") n++; return n; }
};

struct World {
  Src& s;
  std::unique_ptr<nddl::Env> e;
  std::unique_ptr<TiXmlElement> xml;
  std::unique_ptr<Solver> sol;
  std::vector<Rule> global, vf, tf, vh, th;
  std::set<S> guarded;                     // predicates of A whose rule has a guard on x
  int hs = 0, he = 0; bool filtered = false, special = false, busy = false; int made = 0;
  std::vector<S> names; std::vector<S> gvars;
  explicit World(Src& s_) : s(s_) {}
  ~World() { sol.reset(); xml.reset(); e.reset(); }

  S model() {
    S r = "enum Shade {red, green, blue} typedef int [0 3] Small;\n"
          "class A { Small m; predicate p { Small x; Shade c; bool f; } predicate q { Small x; Shade c; bool f; } A() { } }\n"
          "class B extends A { predicate r { Small x; Shade c; bool f; } B() { super(); } }\n"
          "class C { predicate p { Small x; Shade c; bool f; } predicate s { Small x; Shade c; bool f; } C() { } }\n";
    int sl = 0;
    for (int i = 0; i < 5; i++) {
      if (!s.chance(2, 3)) continue;
      S b;
      int k = s.draw(0, 2);
      for (int j = 0; j < k && i < 4; j++) {
        const PredM& q = PREDS[s.draw(i + 1, 4)];
        b += "  " + S(RELS[s.idx(8)]) + "(" + q.cls + "." + q.name + " s" + num(sl++ % 4) + "_" + num(i) + ");\n";
      }
      if (s.chance(1, 3)) b += "  Small loc;\n";
      if (s.chance(1, 3)) b += "  Shade c2;\n";
      if (s.chance(1, 3) && i < 4) { const PredM& q = PREDS[s.draw(i + 1, 4)]; b += "  if (x == " + num(s.draw(0, 3)) + ") { " + RELS[s.idx(8)] + "(" + q.cls + "." + q.name + " s" + num(sl++ % 4) + "_" + num(i) + "); }\n"; guarded.insert(PREDS[i].cls + "." + PREDS[i].name); }
      if (!b.empty()) r += PREDS[i].cls + "::" + PREDS[i].name + " {\n" + b + "}\n";
    }
    r += "A oa1 = new A(); B ob1 = new B(); C oc1 = new C();";
    if (s.flip()) r += " A oa2 = new A();";
    if (s.flip()) r += " C oc2 = new C();";
    r += "\n";
    static const char* T[] = {"Small", "Shade", "bool", "int", "float"};
    int n = s.draw(0, 3);
    for (int i = 0; i < n; i++) { S v = s.pick(std::vector<S>{"x", "g", "c", "loc"}) + num(i); gvars.push_back(v); r += S(T[s.idx(5)]) + " " + v + ";\n"; }
    r += "close();\n";
    n = s.draw(1, 3);
    for (int i = 0; i < n; i++) r += token();
    return r;
  }
  S token() {
    S nm = S(s.flip() ? "g" : "task") + num(made++);
    names.push_back(nm);
    static const char* P[] = {"A.p", "A.q", "B.r", "C.p", "C.s", "B.p", "B.q"};
    return S(s.chance(1, 3) ? "rejectable" : "goal") + "(" + P[s.idx(7)] + " " + nm + ");\n";
  }

  // ---------------------------------------------------------------- configuration
  void criteria(Rule& r, bool tokens) {
    auto put = [&](const char* n, std::vector<S> v) { r.crit[n] = s.chance(1, 12) ? S("*") : s.pick(v); };
    if (s.chance(1, 3)) put(s.chance(1, 4) ? "class" : "class-match", {"A", "B", "C", "Object"});
    if (s.chance(1, 4)) put(s.chance(1, 4) ? "predicate" : "predicate-match", {"p", "q", "r", "s"});
    if (s.chance(1, tokens ? 12 : 3)) put(s.chance(1, 4) ? "variable" : "var-match", {"x", "c", "f", "start", "object", "loc", "c2", "m", "x0", "g1"});
    if (s.chance(1, 4)) put("masterRelation", {"none", "before", "after", "meets", "met_by", "contains", "any", "equals"});
    if (s.chance(1, 8)) put("masterClass", {"A", "B", "C", "Object"});
    if (s.chance(1, 8)) put("masterPredicate", {"p", "q", "r"});
    if (s.chance(1, 8)) put("tokenName", {"g", "g0", "task", "s", "s1", "1"});
  }
  void genGuards(Rule& r) {
    int n = focus ? s.weighted({0, 1, 3, 5, 3}) : s.weighted({4, 4, 3, 3});
    bool onMaster = s.chance(1, 4);
    for (int i = 0; i < n; i++) {
      Guard g; g.master = onMaster != s.chance(1, 4);
      switch (s.weighted({3, 2, 2, 2, 1, 1})) {
        case 0: case 1: g.name = "x"; g.value = num(s.draw(0, 3)); break;
        case 2: g.name = "c"; g.value = s.pick(std::vector<S>{"red", "green", "blue"}); break;
        case 3: g.name = "f"; g.value = s.flip() ? "true" : "false"; break;
        case 4: g.name = "object"; g.value = s.pick(std::vector<S>{"oa1", "ob1", "oc1"}); break;
        default: g.name = s.chance(2, 3) ? "start" : "nosuch"; g.value = num(s.draw(0, 3)); break;
      }
      bool clash = false; for (auto& o : r.guards) if (o.master == g.master && o.name == g.name && o.value != g.value) clash = true;
      if (clash && !s.chance(1, 8)) continue;
      r.guards.push_back(g);
    }
  }
  S show(const Rule& r, bool handler) {
    S t = handler ? "FlawHandler" : "FlawFilter";
    S x = "<" + t;
    if (!r.kind.empty()) x += " component=\"" + r.kind + "\"";
    for (auto& c : r.crit) x += " " + c.first + "=\"" + c.second + "\"";
    if (!r.policy.empty()) x += " policy=\"" + r.policy + "\"";
    if (handler) x += " priority=\"" + num(r.priority) + "\"";
    if (r.guards.empty()) return x + "/>";
    x += ">";
    for (auto& g : r.guards) x += S("<") + (g.master ? "MasterGuard" : "Guard") + " name=\"" + g.name + "\" value=\"" + g.value + "\"/>";
    return x + "</" + t + ">";
  }
  void config() {
    // filters; those of the last kinds look at the entity each time
    auto filters = [&](std::vector<Rule>& v, int n, const std::vector<S>& kinds, bool tokens) {
      for (int i = 0; i < n; i++) {
        Rule r; criteria(r, tokens);
        if (s.flip()) r.kind = s.pick(kinds);
        if (r.kind.empty() && r.count() == 0) r.crit["predicate-match"] = "s";
        if (r.kind.find("Horizon") == 0 && s.flip()) r.policy = s.pick(std::vector<S>{"PossiblyContained", "PartiallyContained", "TotallyContained"});
        v.push_back(r);
      }
    };
    if (!focus) filters(global, s.weighted({3, 2, 1}), {"HorizonFilter", "Singleton", "InfiniteDynamicFilter", "ParameterFilter", "GuardFilter"}, s.flip());
    if (!focus) filters(vf, s.weighted({2, 3, 2, 1}), {"HorizonFilter", "HorizonVariableFilter", "Singleton", "InfiniteDynamicFilter", "ParameterFilter", "LocalVariableFilter", "GuardFilter", "NotGuardFilter", "TokenMustBeAssignedFilter", "ParentMustBeInsertedFilter"}, false);
    if (!focus) filters(tf, s.weighted({2, 3, 2}), {"HorizonFilter", "MasterMustBeInsertedFilter"}, true);
    // handlers, each with a priority of its own
    std::vector<int> pr; for (int i = 0; i < 16; i++) pr.push_back(i * 7 % 16 * 100 + (int)s.draw(0, 9));
    int next = (int)s.draw(0, 5);
    auto handlers = [&](std::vector<Rule>& v, bool tokens) {
      int n = focus ? s.draw(1, 2) : s.draw(0, 5), at = n ? (int)s.draw(0, n) : 0;
      for (int i = 0; i <= n; i++) {
        Rule r; r.kind = tokens ? "StandardOpenConditionHandler" : s.flip() ? "Min" : "Max";
        if (i != at) { if (!focus || s.chance(1, 4)) criteria(r, tokens); genGuards(r); }
        r.priority = pr[next++ % 16];
        v.push_back(r);
      }
    };
    handlers(vh, false); next = (int)s.draw(0, 5); handlers(th, true);
    S x = "<Solver name=\"M\">";
    for (auto& r : global) x += show(r, false);
    S a = "<OpenConditionManager>", b = "<UnboundVariableManager>";
    bool ff = s.flip();
    for (int k = 0; k < 2; k++) {
      if ((k == 0) == ff) { for (auto& r : tf) a += show(r, false); for (auto& r : vf) b += show(r, false); }
      else { for (auto& r : th) a += show(r, true); for (auto& r : vh) b += show(r, true); }
    }
    a += "</OpenConditionManager>"; b += "</UnboundVariableManager>";
    x += s.flip() ? a + b : b + a;
    x += "</Solver>";
    s.note() << x << "\n";
    xml.reset(initXml(x));
    sol.reset(new Solver(e->db().getId(), *xml));
    hs = (int)s.draw(0, 5); he = hs + (int)s.draw(1, 20);
    sol->getContext()->put("horizonStart", hs); sol->getContext()->put("horizonEnd", he);
    s.note() << "horizon " << hs << " to " << he << "\n";
  }

  // ---------------------------------------------------------------- direct evaluation
  TokenId tokenOf(EntityId en) {
    if (TokenId::convertable(en)) return en;
    EntityId p = ConstrainedVariableId(en)->parent();
    if (p.isNoId()) return TokenId::noId();
    if (TokenId::convertable(p)) return p;
    if (RuleInstanceId::convertable(p)) return RuleInstanceId(p)->getToken();
    return TokenId::noId();
  }
  S classOf(TokenId t) { return t->getBaseObjectType(); }
  bool criterion(const S& n, const S& v, EntityId en) {
    if (v == "*") return true;
    bool isVar = ConstrainedVariableId::convertable(en);
    TokenId t = tokenOf(en);
    if (n == "var-match" || n == "variable") return isVar && ConstrainedVariableId(en)->getName() == v;
    if (n == "class" || n == "class-match") {
      if (t.isId()) return isA(classOf(t), v);
      EntityId p = ConstrainedVariableId(en)->parent();
      return p.isId() && ObjectId::convertable(p) && isA(ObjectId(p)->getType(), v);
    }
    if (t.isNoId()) return false;
    TokenId m = t->master();
    if (n == "predicate" || n == "predicate-match") return t->getUnqualifiedPredicateName() == v;
    if (n == "tokenName") return t->getName().find(v) != S::npos;
    if (n == "masterRelation") {
      if (m.isNoId()) return v == "none";
      S rel = t->getRelation();
      return rel == v || (v == "before" && rel == "meets") || (v == "after" && rel == "met_by");
    }
    if (m.isNoId()) return false;
    if (n == "masterClass") return isA(classOf(m), v);
    return m->getUnqualifiedPredicateName() == v;
  }
  bool criteriaHold(const Rule& r, EntityId en) { for (auto& c : r.crit) if (!criterion(c.first, c.second, en)) return false; return true; }
  bool guardHolds(const Guard& g, EntityId en) {
    TokenId t = tokenOf(en);
    if (t.isId() && g.master) t = t->master();
    if (t.isNoId()) return false;
    ConstrainedVariableId v = t->getVariable(g.name);
    if (v.isNoId() || !v->lastDomain().isSingleton()) return false;
    edouble d = v->lastDomain().getSingletonValue();
    if (g.name == "object") return Entity::getTypedEntity<Object>(d)->getName() == g.value;
    if (g.name == "c") return LabelStr(d).toString() == g.value;
    if (g.name == "f") return (d != 0) == (g.value == "true");
    return d == atoi(g.value.c_str());
  }
  bool filterTest(const Rule& r, EntityId en) {
    const S& k = r.kind;
    if (k.empty()) return true;
    bool isVar = ConstrainedVariableId::convertable(en);
    ConstrainedVariableId v; if (isVar) v = en;
    TokenId t = tokenOf(en);
    if (k == "HorizonFilter" || k == "HorizonVariableFilter") {
      if (t.isNoId()) return false;
      const Domain &a = t->start()->lastDomain(), &b = t->end()->lastDomain();
      edouble sl = a.getLowerBound(), su = a.getUpperBound(), el = b.getLowerBound(), eu = b.getUpperBound();
      if (r.policy == "PossiblyContained") return !(sl <= he && su >= hs && el <= he && eu >= hs);
      if (r.policy == "TotallyContained") return !(sl >= hs && sl <= he && eu >= hs && eu <= he);
      return !(el > hs && su < he);
    }
    if (k == "MasterMustBeInsertedFilter") return t->master().isId() && !t->master()->isAssigned();
    if (!isVar) return false;
    if (k == "Singleton") return !v->lastDomain().isSingleton();
    if (k == "InfiniteDynamicFilter") return v->lastDomain().isOpen() || v->lastDomain().isInfinite();
    bool ofToken = v->parent().isId() && TokenId::convertable(v->parent());
    if (k == "ParameterFilter") return ofToken;
    if (k == "LocalVariableFilter") return t.isId() && !ofToken;
    if (k == "GuardFilter" || k == "NotGuardFilter") return isGuardVariable(v) == (k == "GuardFilter");
    return t.isId() && !t->isAssigned();  // TokenMustBeAssignedFilter
  }
  bool isGuardVariable(ConstrainedVariableId v) {
    TokenId t = v->parent().isId() && TokenId::convertable(v->parent()) ? TokenId(v->parent()) : TokenId::noId();
    if (t.isNoId() || v->getName() != "x") return false;
    S c = classOf(t), p = t->getUnqualifiedPredicateName();
    if (guarded.count(c + "." + p)) return true;
    return c == "B" && guarded.count("A." + p);
  }
  bool filteredOut(EntityId en, const std::vector<Rule>& own) {
    for (const std::vector<Rule>* v : {(const std::vector<Rule>*) &global, &own}) for (auto& r : *v) if (criteriaHold(r, en) && filterTest(r, en)) return true;
    return false;
  }
  bool candidate(EntityId en) {
    if (TokenId::convertable(en)) return TokenId(en)->isInactive();
    ConstrainedVariableId v = en;
    if (!v->canBeSpecified() || v->isSpecified() || !v->lastDomain().areBoundsFinite()) return false;
    EntityId p = v->parent();
    if (p.isId() && TokenId::convertable(p)) return TokenId(p)->isActive();
    return true;
  }
  S nameOf(EntityId en) {
    if (TokenId::convertable(en)) return "token " + TokenId(en)->getName() + " (" + TokenId(en)->getPredicateName() + ")";
    ConstrainedVariableId v = en; TokenId t = tokenOf(en);
    return "variable " + v->getName() + (t.isId() ? " of " + nameOf(t) : v->parent().isId() ? " of an object" : "");
  }
  bool byGuards = false;
  std::set<long> hadMaster;
  static bool onMaster(const Rule& r) { for (auto& c : r.crit) if (c.first.find("master") == 0 && c.second != "*") return true; return false; }
  // a token that lost its master while rules about masters are kept from before (a recorded finding)
  void wrong(EntityId en, const S& msg) {
    TokenId t = tokenOf(en);
    bool kept = false;
    if (t.isId() && t->master().isNoId() && hadMaster.count((long)cast_long(t->getKey())))
      for (const std::vector<Rule>* v : {(const std::vector<Rule>*) &global, (const std::vector<Rule>*) &vf, (const std::vector<Rule>*) &tf, (const std::vector<Rule>*) &vh, (const std::vector<Rule>*) &th})
        for (auto& r : *v) if (onMaster(r)) kept = true;
    fail(msg, kept ? "rules-of-a-former-master" : "");
  }
  void check() {
    std::vector<EntityId> all;
    for (auto t : e->db().getTokens()) { all.push_back(t); if (TokenId(t)->master().isId()) hadMaster.insert((long)cast_long(TokenId(t)->getKey())); }
    for (auto v : e->ce().getVariables()) if (!ConstrainedVariableId(v)->getName().empty()) all.push_back(v);
    size_t skip = !focus && s.chance(1, 3) ? s.draw(2, 5) : 1, k = 0;
    for (auto& en : all) {
      bool tok = TokenId::convertable(en);
      bool c = candidate(en), f = c && filteredOut(en, tok ? tf : vf);
      bool expect = c && !f;
      bool got = sol->inScope(en);
      if (f) filtered = true;
      if (expect && !tok) { EntityId p = ConstrainedVariableId(en)->parent(); s.label(p.isNoId() ? "flaw: global variable" : TokenId::convertable(p) ? "flaw: token variable" : ObjectId::convertable(p) ? "flaw: object member" : "flaw: local variable"); }
      if (tok && TokenId(en)->master().isId()) s.label(c ? "inactive subgoal" : "other subgoal");
      if (f && tok) s.label("filtered token");
      if (got != expect) wrong(en, nameOf(en) + (got ? " is a flaw though " : " is no flaw though ") + (expect ? "nothing filters it" : c ? "a filter matches it" : "there is nothing to decide"));
      if (!got || ++k % skip) continue;
      const Rule* best = nullptr;
      for (auto& r : tok ? th : vh) {
        if (!criteriaHold(r, en)) continue;
        bool ok = true; for (auto& g : r.guards) if (!guardHolds(g, en)) ok = false;
        if (!ok) continue;
        if (!best || r.count() > best->count() || (r.count() == best->count() && r.priority < best->priority)) best = &r;
      }
      SOLVERS::FlawHandlerId h = sol->getFlawHandler(en);
      REQUIRE(h.isId(), nameOf(en) << " has no handler");
      if (best->count()) special = true;
      if (h->getPriority() != best->priority) wrong(en, nameOf(en) + " is handled by the rule of priority " + num((long)h->getPriority()) + ", not that of priority " + num(best->priority));
      if (best->count()) { int g = (int)best->guards.size(); if (g) byGuards = true; s.label(g == 0 ? "handler by criteria" : g < 3 ? "handler by guards" : "handler by three guards"); }
    }
    s.label("asked");
  }
  // ---------------------------------------------------------------- history
  std::vector<TokenId> tokens() {
    std::vector<TokenId> v; for (auto t : e->db().getTokens()) v.push_back(t);
    std::sort(v.begin(), v.end(), [](const TokenId& a, const TokenId& b) { return a->getKey() < b->getKey(); });
    return v;
  }
  bool focus = false;
  // decides a variable of the token or its master the way a guard of some handler asks
  bool towardsGuard(TokenId t) {
    std::vector<const Rule*> rs;
    for (auto* l : {&vh, &th}) for (auto& r : *l) if (!r.guards.empty()) { EntityId en = t; if (l == &vh || criteriaHold(r, en)) rs.push_back(&r); }
    if (rs.empty()) return false;
    const Rule& r = *rs[s.idx(rs.size())];
    size_t from = s.idx(r.guards.size());
    for (size_t i = 0; i < r.guards.size(); i++) {
      const Guard& g = r.guards[(from + i) % r.guards.size()];
      TokenId u = g.master ? t->master() : t;
      if (u.isNoId() || u->isMerged() || u->isRejected()) continue;
      ConstrainedVariableId v = u->getVariable(g.name);
      if (v.isNoId() || v->isSpecified() || v->lastDomain().isSingleton() || !v->canBeSpecified()) continue;
      edouble d = g.name == "object" ? edouble(e->db().getObject(g.value)->getKey()) : g.name == "c" ? edouble(LabelStr(g.value)) : g.name == "f" ? edouble(g.value == "true") : edouble(atoi(g.value.c_str()));
      if (!v->lastDomain().isMember(d)) continue;
      s.label("towards a guard");
      s.note() << "specify " << g.name << " of " << u->getName() << " to " << g.value << "\n";
      v->specify(d);
      return true;
    }
    return false;
  }
  void step() {
    std::vector<TokenId> ts = tokens();
    TokenId t = ts.empty() ? TokenId::noId() : ts[s.idx(ts.size())];
    int k = focus ? s.weighted({2, 1, 0, 0, 10, 2, 0, 1, 0, 0}) : busy ? s.weighted({8, 6, 3, 1, 3, 2, 2, 0, 1, 0}) : s.weighted({5, 2, 2, 1, 6, 3, 1, 2, 1, 2});
    if (t.isNoId() && k != 8 && k != 9) return;
    switch (k) {
      case 0: if (t->isInactive() && ts.size() < 12) { s.label("activate"); s.note() << "activate " << t->getName() << "\n"; t->activate(); } break;
      case 1: if (t->isActive() && !t->isCommitted()) {
          if (!t->getMergedTokens().empty()) return;
          s.label("cancel"); s.note() << "cancel " << t->getName() << "\n"; t->cancel(); }
        else if (t->isMerged() || t->isRejected()) { s.note() << "cancel " << t->getName() << "\n"; t->cancel(); } break;
      case 2: if (t->isInactive()) { std::vector<TokenId> r; e->db().getCompatibleTokens(t, r, 10, true); if (!r.empty()) { TokenId a = r[s.idx(r.size())]; s.label("merge"); s.note() << "merge " << t->getName() << " onto " << a->getName() << "\n"; t->doMerge(a); } } break;
      case 3: if (t->isInactive() && t->getState()->lastDomain().isMember(Token::REJECTED)) { s.note() << "reject " << t->getName() << "\n"; t->reject(); } break;
      case 4: { if (t->isMerged() || t->isRejected()) return;
          if ((focus ? !s.chance(1, 6) : s.flip()) && towardsGuard(t)) return;
          ConstrainedVariableId v = t->getVariable(s.pick(std::vector<S>{"x", "c", "f", "object", "start"}));
          if (v->isSpecified()) return;
          std::vector<edouble> vals;
          if (v->lastDomain().areBoundsFinite() && v->lastDomain().isFinite()) { std::list<edouble> l; v->lastDomain().getValues(l); for (auto d : l) vals.push_back(d); if (vals.size() > 6) vals.resize(6); }
          else { int d = (int)s.draw(0, 20); if (v->lastDomain().isMember(d)) vals.push_back(d); }
          if (vals.empty()) return;
          edouble d = vals[s.idx(vals.size())];
          s.note() << "specify " << v->getName() << " of " << t->getName() << " (choice of " << vals.size() << ")" << "\n";
          v->specify(d); break; }
      case 5: { if (t->isMerged() || t->isRejected()) return;
          ConstrainedVariableId v = t->getVariable(s.pick(std::vector<S>{"x", "c", "f", "object", "start"}));
          if (v->isSpecified() && !v->baseDomain().isSingleton()) { s.note() << "reset " << v->getName() << " of " << t->getName() << "\n"; v->reset(); } break; }
      case 6: if (t->isInactive() && t->master().isNoId()) { s.note() << "delete " << t->getName() << "\n"; names.erase(std::remove(names.begin(), names.end(), t->getName()), names.end()); e->db().getClient()->deleteToken(t); } break;
      case 7: { // local variables and object members
          std::vector<ConstrainedVariableId> v;
          for (auto x : e->ce().getVariables()) { ConstrainedVariableId c = x; if (c->canBeSpecified() && c->lastDomain().areBoundsFinite() && c->parent().isId() && !TokenId::convertable(c->parent())) v.push_back(c); }
          if (v.empty()) return;
          std::sort(v.begin(), v.end(), [](const ConstrainedVariableId& a, const ConstrainedVariableId& b) { return a->getKey() < b->getKey(); });
          ConstrainedVariableId c = v[s.idx(v.size())];
          if (c->isSpecified()) { s.note() << "reset " << c->getName() << "\n"; c->reset(); }
          else { std::list<edouble> l; c->lastDomain().getValues(l); s.note() << "specify " << c->getName() << "\n"; c->specify(l.front()); }
          break; }
      case 8: if (ts.size() < 12) { S x = token(); s.note() << x; S err = e->run(x); REQUIRE(err.empty(), err); } break;
      default: { if (gvars.empty() || s.chance(1, 4)) { S v = "g" + num(50 + (int)gvars.size()), x = s.flip() ? "Small " + v + ";" : "Shade " + v + ";"; gvars.push_back(v); s.note() << x; S err = e->run(x); REQUIRE(err.empty(), err); return; }
          ConstrainedVariableId v = e->db().getGlobalVariable(gvars[s.idx(gvars.size())]);
          if (v->isSpecified()) { s.note() << "reset " << v->getName() << "\n"; v->reset(); return; }
          if (!v->lastDomain().areBoundsFinite() || !v->lastDomain().isFinite()) return;
          std::list<edouble> l; v->lastDomain().getValues(l); s.note() << "specify " << v->getName() << "\n"; v->specify(l.front()); }
    }
  }
};

void history(Src& s, bool focus) {
  World w(s); w.focus = focus;
  S text = w.model();
  s.note() << text;
  w.e.reset(new nddl::Env(true));
  S err = w.e->run(text);
  REQUIRE(err.empty(), "the program was not accepted: " << err);
  if (!w.e->ce().propagate()) throw Discard();
  int before = s.draw(0, 2);
  for (int i = 0; i < before; i++) { w.step(); if (!w.e->ce().propagate()) throw Discard(); }
  w.config();
  w.busy = s.chance(1, 3);
  int n = s.draw(2, w.busy ? 24 : 14);
  for (int i = 0; i < n; i++) {
    if (w.focus ? !s.chance(1, 6) : s.chance(2, 3)) w.check();
    w.step();
    if (!w.e->ce().propagate()) { s.label("inconsistent"); break; }
  }
  if (w.e->ce().constraintConsistent()) w.check();
  if (focus ? w.byGuards : w.filtered && w.special) s.nontrivial();
}
void matching(Src& s) { history(s, false); }
void guards(Src& s) { history(s, true); }
// An active subgoal whose master is cancelled, under a filter on the master's class.
void formerMaster() {
  nddl::Env e(true);
  S err = e.run("class A { predicate p { } A() { } }\ntypedef int [0 3] Small; class C { predicate s { Small x; } C() { } }\nA::p { before(C.s s); }\nA a = new A(); C c = new C();\nclose();\n"
                "goal(A.p master); goal(C.s other); master.activate();");
  REQUIRE(err.empty(), err);
  std::unique_ptr<TiXmlElement> xml;
  S x = "<Solver name=\"M\"><UnboundVariableManager><FlawFilter masterClass=\"A\"/><FlawHandler component=\"Min\"/></UnboundVariableManager></Solver>";
  xml.reset(initXml(x));
  Solver sol(e.db().getId(), *xml);
  TokenId master = e.db().getGlobalToken("master"), other = e.db().getGlobalToken("other");
  TokenId sub = *master->slaves().begin();
  ConstrainedVariableId v = sub->getVariable("x");
  e.ce().propagate();
  sub->activate(); e.ce().propagate();
  REQUIRE(!sol.inScope(v), "the subgoal's variable is a flaw though its master's class is filtered");
  other->doMerge(sub); e.ce().propagate();
  master->cancel(); e.ce().propagate();
  REQUIRE(sub->master().isNoId() && sub->isActive(), "the subgoal is not left on its own");
  REQUIRE(sol.inScope(v), "a variable of a token without a master is still filtered by its former master's class");
}
}  // namespace

PBT_PROP("V04", "matching", matching, 16000);
PBT_PROP("V04", "guards", guards, 8000);
PBT_PINNED("V04", "rules-of-a-former-master", formerMaster);
