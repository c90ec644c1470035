// P06: schema queries against a reference model of single inheritance, asked while the declarations are being made.
#include "pbt.hh"
#include "Engine.hh"
#include "ModuleConstraintEngine.hh"
#include "ModulePlanDatabase.hh"
#include "ConstraintEngine.hh"
#include "CESchema.hh"
#include "PlanDatabase.hh"
#include "Schema.hh"
#include "Object.hh"
#include "ObjectType.hh"
#include "TokenType.hh"
#include "Token.hh"
#include "Domains.hh"
#include "DataTypes.hh"
#include "Error.hh"
#include <boost/cast.hpp>
#include <algorithm>
using namespace pbt;
using namespace EUROPA;

PBT_RULE("P06", "random single-inheritance hierarchies of up to ten types with members, predicates, parameters and enumerations, declared one by one in "
         "random order with every kind of query in between (raw declarations), or registered as object types with token types and constructors; "
         "non-trivial when some type has depth two or more below the root and a query was answered through inheritance",
         {"two primitive types are always related (isA), which the code marks as a hack the language depends on",
          "types are declared before their subtypes and before use, which the schema demands"});

namespace {
struct SEngine : EngineBase {
  SEngine() {
    addModule((new ModuleConstraintEngine())->getId());
    addModule((new ModuleConstraintLibrary())->getId());
    addModule((new ModulePlanDatabase())->getId());
    doStart();
  }
  ~SEngine() { doShutdown(); }
  Schema& schema() { return *boost::polymorphic_cast<Schema*>(getComponent("Schema")); }
  CESchema& ces() { return *boost::polymorphic_cast<CESchema*>(getComponent("CESchema")); }
};
typedef std::string S;
typedef std::vector<std::pair<S, S>> Members;  // (type, name)
const std::vector<S> PRIM = {"int", "float", "bool", "string"};

struct Model {
  std::map<S, S> parent;              // object type -> parent ("" for the root)
  std::set<S> preds;                  // declared
  std::map<S, Members> members;       // object types and declared predicates
  std::map<S, std::set<S>> enums;
  static S cls(const S& p) { return p.substr(0, p.find('.')); }
  static S suf(const S& p) { return p.substr(p.find('.') + 1); }
  static bool dotted(const S& p) { return std::count(p.begin(), p.end(), '.') == 1; }
  bool prim(const S& t) const { return std::count(PRIM.begin(), PRIM.end(), t) > 0; }
  bool obj(const S& t) const { return parent.count(t) > 0; }
  std::vector<S> up(S t) const { std::vector<S> r; while (t != "") { r.push_back(t); t = parent.at(t); } return r; }
  bool pred(const S& p) const {
    if (!dotted(p)) return false;
    if (preds.count(p)) return true;
    if (!obj(cls(p))) return false;
    for (const S& t : up(cls(p))) if (preds.count(t + "." + suf(p))) return true;
    return false;
  }
  bool type(const S& t) const { return prim(t) || obj(t) || enums.count(t) || pred(t); }
  // nearest level that declares the predicate
  S decl(const S& p) const {
    for (const S& t : up(cls(p))) if (preds.count(t + "." + suf(p))) return t + "." + suf(p);
    return "";
  }
  S par(const S& t) const {
    if (obj(t)) return parent.at(t);
    if (!pred(t)) return "";
    S p = parent.at(cls(t));
    return p != "" && pred(p + "." + suf(t)) ? p + "." + suf(t) : "";
  }
  bool isA(const S& d, const S& a) const {
    if (d == a || (prim(d) && prim(a))) return true;
    for (S t = d; t != ""; t = par(t)) if (t == a) return true;
    return false;
  }
  // every level of a type, nearest first, that has a list of members
  std::vector<S> levels(const S& t) const { std::vector<S> r; for (S x = t; x != ""; x = par(x)) if (members.count(x)) r.push_back(x); return r; }
  bool has(const S& t, const S& n, S* mt = 0, int* ix = 0) const {
    for (const S& l : levels(t)) {
      const Members& m = members.at(l);
      for (size_t i = 0; i < m.size(); i++) if (m[i].second == n) { if (mt) *mt = m[i].first; if (ix) *ix = (int)i; return true; }
    }
    return false;
  }
  bool contain(const S& t, const S& mt, const S& n) const {
    for (const S& l : levels(t)) for (auto& m : members.at(l)) if (m.second == n && isA(mt, m.first)) return true;
    return false;
  }
  std::set<S> predsOf(const S& t) const { std::set<S> r; for (const S& p : preds) if (isA(t, cls(p))) r.insert(suf(p)); return r; }
};

template <class F> bool refused(F f) { try { f(); } catch (Error&) { return true; } return false; }
S join(const std::set<S>& s) { S r; for (auto& x : s) r += x + " "; return r; }

struct Names { std::vector<S> types, sufs, mems, enums, vals; };
const Names N = {{"A", "B", "C", "D", "E", "F", "G", "H", "AB", "Aa"}, {"p", "q", "pp", "start"}, {"m", "n", "k", "start", "mm"}, {"En", "Fn"}, {"v1", "v2", "v3", "v4"}};

S anyType(Src& s, const Model& m, bool dotted) {
  std::vector<S> c;
  if (!dotted) { for (auto& t : N.types) c.push_back(t); c.push_back("Object"); for (auto& t : PRIM) c.push_back(t); for (auto& t : N.enums) c.push_back(t); }
  else for (auto& t : N.types) for (auto& q : N.sufs) c.push_back(t + "." + q);
  (void)m;
  return s.pick(c);
}

void ask(Src& s, Schema& sc, const Model& m) {
  std::vector<S> objs; for (auto& o : m.parent) objs.push_back(o.first);
  std::vector<S> prs; for (auto& t : objs) for (auto& q : N.sufs) if (m.pred(t + "." + q)) prs.push_back(t + "." + q);
  switch (s.draw(0, 15)) {
    case 0: { S t = anyType(s, m, s.flip()); REQUIRE(sc.isType(t) == m.type(t), "isType(" << t << ") is " << sc.isType(t)); break; }
    case 1: { S t = anyType(s, m, false); REQUIRE(sc.isObjectType(t) == m.obj(t) && sc.isPrimitive(t) == m.prim(t) && sc.isEnum(t) == (m.enums.count(t) > 0), "kind of " << t); break; }
    case 2: { S p = anyType(s, m, true); REQUIRE(sc.isPredicate(p) == m.pred(p), "isPredicate(" << p << ") is " << sc.isPredicate(p)); s.label("isPredicate"); break; }
    case 3: {
      S d = anyType(s, m, s.flip()), a = anyType(s, m, s.flip());
      if (s.flip() && !objs.empty()) { d = s.pick(objs); a = s.pick(objs); }
      if (!m.type(d) || !m.type(a)) break;
      REQUIRE(sc.isA(d, a) == m.isA(d, a), "isA(" << d << ", " << a << ") is " << sc.isA(d, a));
      if (d != a && m.isA(d, a) && !m.prim(d)) { s.label("isA by inheritance"); if (m.par(d) != a) s.nontrivial(); }
      break;
    }
    case 4: {
      S t = s.flip() || prs.empty() ? s.pick(objs) : s.pick(prs);
      S p = m.par(t);
      REQUIRE(sc.hasParent(t) == (p != ""), "hasParent(" << t << ") is " << sc.hasParent(t));
      if (p != "") REQUIRE(sc.getParent(t) == p, "getParent(" << t << ") is " << sc.getParent(t));
      break;
    }
    case 5: {
      S t = s.pick(objs);
      REQUIRE(sc.getAllObjectTypes(t) == m.up(t), "getAllObjectTypes(" << t << ") is not the chain of its ancestors");
      break;
    }
    case 6: {
      std::set<S> r(objs.begin(), objs.end());
      REQUIRE(sc.getAllObjectTypes() == r, "getAllObjectTypes: " << join(sc.getAllObjectTypes()) << "instead of " << join(r));
      break;
    }
    case 7: {
      S t = s.pick(objs); std::set<S> r, e = m.predsOf(t);
      sc.getPredicates(t, r);
      REQUIRE(r == e, "getPredicates(" << t << "): " << join(r) << "instead of " << join(e));
      REQUIRE(sc.hasPredicates(t) == !e.empty(), "hasPredicates(" << t << ") is " << sc.hasPredicates(t));
      if (!e.empty()) s.label("predicates of a type");
      break;
    }
    case 8: {
      std::set<S> r; sc.getPredicates(r);
      REQUIRE(r == m.preds, "getPredicates: " << join(r) << "instead of " << join(m.preds));
      std::set<S> q; PSList<S> l = sc.getAllPredicates(); for (int i = 0; i < l.size(); i++) q.insert(l.get(i));
      REQUIRE(q == m.preds, "getAllPredicates: " << join(q));
      break;
    }
    case 9: {
      if (prs.empty()) break;
      S p = s.pick(prs), t = s.pick(objs);
      REQUIRE(sc.canBeAssigned(t, p) == m.isA(t, Model::cls(p)), "canBeAssigned(" << t << ", " << p << ")");
      REQUIRE(sc.getObjectTypeForPredicate(p) == Model::cls(p), "getObjectTypeForPredicate(" << p << ")");
      break;
    }
    case 10: case 11: {
      S t = s.flip() || prs.empty() ? s.pick(objs) : s.pick(prs), n = s.pick(N.mems), mt; int ix = -1;
      bool h = m.has(t, n, &mt, &ix);
      bool builtin = m.pred(t) && n == "start";
      REQUIRE(sc.hasMember(t, n) == (h || builtin), "hasMember(" << t << ", " << n << ") is " << sc.hasMember(t, n));
      if (h) {
        REQUIRE(sc.getMemberType(t, n) == mt, "getMemberType(" << t << ", " << n << ") is " << sc.getMemberType(t, n) << " instead of " << mt);
        REQUIRE(sc.getIndexFromName(t, n) == ix, "getIndexFromName(" << t << ", " << n << ") is " << sc.getIndexFromName(t, n));
        if (m.levels(t)[0] != t || m.members.at(t).size() <= (size_t)ix || m.members.at(t)[(size_t)ix].second != n) { s.label("inherited member"); s.nontrivial(); }
      }
      break;
    }
    case 12: {
      S t = s.flip() || prs.empty() ? s.pick(objs) : s.pick(prs), n = s.pick(N.mems), mt = anyType(s, m, false);
      if (!m.type(mt)) break;
      REQUIRE(sc.canContain(t, mt, n) == m.contain(t, mt, n), "canContain(" << t << ", " << mt << ", " << n << ") is " << sc.canContain(t, mt, n));
      if (m.contain(t, mt, n)) s.label("canContain");
      break;
    }
    case 13: {
      if (prs.empty()) break;
      S p = s.pick(prs); const Members& l = m.members.at(m.decl(p));
      REQUIRE(sc.getParameterCount(p) == l.size(), "getParameterCount(" << p << ") is " << sc.getParameterCount(p));
      for (unsigned i = 0; i < l.size(); i++) {
        REQUIRE(sc.getParameterType(p, i) == l[i].first, "getParameterType(" << p << ", " << i << ")");
        REQUIRE(sc.getNameFromIndex(p, i) == l[i].second, "getNameFromIndex(" << p << ", " << i << ")");
      }
      if (m.decl(p) != p) s.label("inherited parameters");
      break;
    }
    case 14: {
      S t = s.pick(objs);
      REQUIRE(sc.getMembers(t) == m.members.at(t), "getMembers(" << t << ")");
      PSList<S> l = sc.getObjectMembers(t);
      REQUIRE(l.size() == (int)m.members.at(t).size(), "getObjectMembers(" << t << ")");
      for (int i = 0; i < l.size(); i++) REQUIRE(l.get(i) == m.members.at(t)[(size_t)i].second, "getObjectMembers(" << t << ")");
      break;
    }
    default: {
      S e = s.pick(N.enums), v = s.pick(N.vals);
      LabelStr lv(v); S in;
      for (auto& x : m.enums) if (x.second.count(v)) in = x.first;
      if (m.enums.count(e)) {
        REQUIRE(sc.isEnumValue(e, edouble(lv.getKey())) == (m.enums.at(e).count(v) > 0), "isEnumValue(" << e << ", " << v << ")");
        std::set<S> r; for (edouble x : sc.getEnumValues(e)) r.insert(LabelStr(x).toString());
        REQUIRE(r == m.enums.at(e), "getEnumValues(" << e << "): " << join(r));
      }
      REQUIRE(sc.isEnumValue(edouble(lv.getKey())) == (in != ""), "isEnumValue(" << v << ")");
      if (in != "") REQUIRE(sc.getEnumForValue(edouble(lv.getKey())) == in && sc.getEnumFromMember(lv) == in, "enumeration of " << v);
      std::list<S> all; sc.getEnumerations(all);
      std::set<S> a(all.begin(), all.end()), b; for (auto& x : m.enums) b.insert(x.first);
      REQUIRE(a == b && a.size() == all.size(), "getEnumerations: " << join(a));
      if (in != "") s.label("enumeration");
    }
  }
}

void queries(Src& s) {
  SEngine en; Schema& sc = en.schema(); Model m;
  // what the modules declare themselves
  for (auto& t : sc.getAllObjectTypes()) { m.parent[t] = sc.hasParent(t) ? sc.getParent(t) : ""; m.members[t] = sc.getMembers(t); }
  { std::set<S> r; sc.getPredicates(r); REQUIRE(r.empty(), "predicates in a new schema"); }
  { std::list<S> r; sc.getEnumerations(r); for (auto& e : r) for (edouble v : sc.getEnumValues(e)) m.enums[e].insert(LabelStr(v).toString()); }
  if (s.chance(1, 6)) { sc.reset(); m = Model(); sc.addObjectType("Object"); m.parent["Object"] = ""; m.members["Object"]; s.note() << "reset; "; }
  std::set<S> declared;
  long n = s.draw(3, 40);
  for (long i = 0; i < n; i++) {
    std::vector<S> objs; for (auto& o : m.parent) if (!declared.count(o.first)) objs.push_back(o.first);
    switch (s.weighted({5, 3, 4, 1, 1, 8, 1, 1})) {
      case 0: {
        S t = s.pick(N.types), p = s.pick(objs);
        if (m.parent.count(t)) {
          REQUIRE(refused([&] { sc.addObjectType(t, p); }), "a second declaration of " << t << " was accepted");
          s.label("refused"); break;
        }
        s.note() << t << "<" << p << "; ";
        if (s.chance(1, 4)) { sc.declareObjectType(t); if (s.flip()) sc.declareObjectType(t); REQUIRE(sc.isObjectType(t), t << " was declared"); if (s.flip()) sc.getAllObjectTypes(t); s.label("declared before"); }
        if (p == "Object" && s.flip()) sc.addObjectType(t); else sc.addObjectType(t, p);
        m.parent[t] = p; m.members[t];
        break;
      }
      case 1: {
        S p = s.pick(objs) + "." + s.pick(N.sufs);
        if (m.preds.count(p)) { REQUIRE(refused([&] { sc.addPredicate(p); }), "a second declaration of " << p << " was accepted"); break; }
        s.note() << p << "; ";
        sc.addPredicate(p); m.preds.insert(p); m.members[p];
        break;
      }
      case 2: {
        std::vector<S> on = objs; for (auto& p : m.preds) on.push_back(p);
        S t = s.pick(on), n2 = s.pick(N.mems), mt = anyType(s, m, false);
        if (!m.type(mt)) break;
        if (m.contain(t, mt, n2)) { REQUIRE(refused([&] { sc.addMember(t, mt, n2); }), "a second member " << n2 << " of " << t << " was accepted"); break; }
        bool own = false; for (auto& x : m.members[t]) own |= x.second == n2;
        if (own) break;  // a second member of that name with an unrelated type is not what a model would do
        s.note() << t << "{" << mt << " " << n2 << "}; ";
        unsigned long ix = sc.addMember(t, mt, n2);
        REQUIRE(ix == m.members[t].size(), "addMember returned " << ix);
        m.members[t].push_back({mt, n2});
        break;
      }
      case 3: {
        S e = s.pick(N.enums);
        if (m.enums.count(e)) { REQUIRE(refused([&] { sc.addEnum(e); }), "a second declaration of " << e << " was accepted"); break; }
        s.note() << "enum " << e << "; ";
        sc.addEnum(e); m.enums[e];
        break;
      }
      case 4: {
        S e = s.pick(N.enums), v = s.pick(N.vals); bool in = false;
        if (!m.enums.count(e)) break;
        for (auto& x : m.enums) in |= x.second.count(v) > 0;
        if (in) { REQUIRE(refused([&] { sc.addValue(e, edouble(LabelStr(v).getKey())); }), "value " << v << " was accepted twice"); break; }
        s.note() << e << "{" << v << "}; ";
        sc.addValue(e, edouble(LabelStr(v).getKey())); m.enums[e].insert(v);
        break;
      }
      default: for (long k = s.draw(1, 6); k > 0; k--) ask(s, sc, m);
    }
  }
  for (int k = 0; k < 12; k++) ask(s, sc, m);
}

struct TT : TokenType {
  TT(const ObjectTypeId ot, const S& sig) : TokenType(ot, sig) {}
  TokenId createInstance(const PlanDatabaseId, const S&, bool, bool) const { return TokenId::noId(); }
  TokenId createInstance(const TokenId, const S&, const S&) const { return TokenId::noId(); }
};
struct OF : ObjectFactory { explicit OF(const S& sig) : ObjectFactory(sig) {}
  ObjectId createInstance(const PlanDatabaseId, const S&, const S&, const std::vector<const Domain*>&) const { return ObjectId::noId(); } };

void registered(Src& s) {
  SEngine en; Schema& sc = en.schema(); Model m; CESchema& ces = en.ces();
  std::map<S, ObjectTypeId> ot; std::map<S, TokenTypeId> tt; std::map<S, std::vector<S>> sig; std::map<S, ObjectFactoryId> fac; std::map<S, int> attr;
  std::map<S, std::map<S, S>> mem; std::map<S, std::map<S, S>> args;
  for (auto& t : sc.getAllObjectTypes()) { m.parent[t] = sc.hasParent(t) ? sc.getParent(t) : ""; ot[t] = sc.getObjectType(t); }
  REQUIRE(m.parent.count("Object"), "no root type");
  size_t builtin = ot.size();
  long n = s.draw(1, 8);
  std::vector<S> prims = PRIM;
  for (long i = 0; i < n; i++) {
    S t = N.types[(size_t)i];
    std::vector<S> objs; for (auto& o : ot) objs.push_back(o.first);
    S p = s.chance(1, 3) ? S("Object") : s.pick(objs);
    ObjectType* o = new ObjectType(t, ot[p]);
    s.note() << t << "<" << p;
    for (long k = s.draw(0, 3); k > 0; k--) {
      S nm = s.pick(N.mems), mt = s.chance(1, 3) ? s.pick(objs) : s.pick(prims); bool up = false;
      for (S x = p; x != ""; x = m.parent[x]) up |= mem[x].count(nm) > 0;
      if (up || mem[t].count(nm)) continue;
      o->addMember(ces.getDataType(mt), nm); mem[t][nm] = mt;
      s.note() << " " << mt << " " << nm;
    }
    for (long k = s.draw(0, 2); k > 0; k--) {
      S pr = t + "." + s.pick(N.sufs);
      if (tt.count(pr)) continue;
      TT* y = new TT(o->getId(), pr);
      for (long a = s.draw(0, 2); a > 0; a--) { S nm = s.oneof({"x", "y", "z"}), mt = s.chance(1, 3) ? s.pick(objs) : s.pick(prims); bool up = false; for (S x = t; x != ""; x = x == t ? p : m.parent[x]) up |= args[x + "." + Model::suf(pr)].count(nm) > 0; if (up) continue; y->addArg(ces.getDataType(mt), nm); args[pr][nm] = mt; }
      attr[pr] = (int)s.draw(0, 3); y->setAttributes(attr[pr]);
      o->addTokenType(y->getId()); tt[pr] = y->getId(); m.preds.insert(pr);
      s.note() << " " << pr;
    }
    for (long k = s.draw(0, 2); k > 0; k--) {
      std::vector<S> ts; S sg = t;
      for (long a = s.draw(0, 2); a > 0; a--) { ts.push_back(s.chance(1, 2) ? s.pick(objs) : s.pick(prims)); sg += ":" + ts.back(); }
      if (fac.count(sg)) continue;
      OF* f = new OF(sg); o->addObjectFactory(f->getId()); fac[sg] = f->getId(); sig[sg] = ts;
      s.note() << " new " << sg;
    }
    s.note() << "; ";
    sc.registerObjectType(o->getId()); ot[t] = o->getId(); m.parent[t] = p;
    objs.push_back(t);
    // ask for whatever is there now
    for (long k = s.draw(1, 6); k > 0; k--) switch (s.draw(0, 6)) {
      case 0: {
        S x = s.pick(objs); REQUIRE(sc.getObjectType(x) == ot[x], "getObjectType(" << x << ")");
        REQUIRE(sc.getObjectType("Nope").isNoId(), "unknown object type found");
        REQUIRE(ot[x]->getParentName() == m.parent[x], "getParentName of " << x << " is " << ot[x]->getParentName());
        PSList<PSObjectType*> all = sc.getAllPSObjectTypes(); std::set<S> a, b;
        for (int q = 0; q < all.size(); q++) a.insert(all.get(q)->getNameString());
        for (auto& q : ot) b.insert(q.first);
        REQUIRE(a == b && all.size() == (int)b.size(), "getAllPSObjectTypes: " << join(a)); break;
      }
      case 1: {
        S x = s.pick(objs), nm = s.pick(N.mems), e; for (S y = x; y != "" && e == ""; y = m.parent[y]) if (mem[y].count(nm)) e = mem[y][nm];
        DataTypeId d = ot[x]->getMemberType(nm);
        REQUIRE(d.isNoId() == (e == "") && (e == "" || d->getName() == e), "member " << nm << " of " << x << " has type " << (d.isNoId() ? "none" : d->getName()));
        REQUIRE(sc.hasMember(x, nm) == (e != ""), "hasMember(" << x << ", " << nm << ")");
        if (e != "") { REQUIRE(sc.getMemberType(x, nm) == e, "getMemberType(" << x << ", " << nm << ")"); if (!mem[x].count(nm)) { s.label("inherited member"); if (m.parent[x] != "Object") s.nontrivial(); } }
        break;
      }
      case 2: case 3: {
        S q = s.pick(objs) + "." + s.pick(N.sufs);
        REQUIRE(sc.isPredicate(q) == m.pred(q), "isPredicate(" << q << ") is " << sc.isPredicate(q));
        if (!m.pred(q)) { REQUIRE(ot[Model::cls(q)]->getTokenType(q).isNoId(), "token type of unknown " << q); break; }
        TokenTypeId e = tt[m.decl(q)];
        REQUIRE(sc.getTokenType(q) == e, "getTokenType(" << q << ") is " << sc.getTokenType(q)->getSignature());
        REQUIRE(ot[Model::cls(q)]->getTokenType(q) == e, "token type of " << q << " in its object type");
        REQUIRE(sc.getParentTokenType(q, Model::cls(q)) == e, "getParentTokenType(" << q << ", " << Model::cls(q) << ")");
        S pq = m.par(q);
        TokenTypeId pe = pq == "" ? TokenTypeId::noId() : tt[m.decl(pq)];
        if (m.decl(q) == q) REQUIRE(e->getParentType() == pe && ot[Model::cls(q)]->getParentType(e) == pe, "parent token type of " << q);
        if (m.parent[Model::cls(q)] != "") REQUIRE(sc.getParentTokenType(q, m.parent[Model::cls(q)]) == pe, "getParentTokenType(" << q << ", " << m.parent[Model::cls(q)] << ")");
        if (m.decl(q) != q) s.label("inherited predicate");
        break;
      }
      case 4: {
        if (m.preds.empty()) break;
        std::vector<S> ps(m.preds.begin(), m.preds.end()); S q = s.pick(ps);
        std::set<S> names, e; PSList<S> l = tt[q]->getParameterNames();
        for (int a = 0; a < l.size(); a++) names.insert(l.get(a));
        for (auto& a : args[q]) e.insert(a.first);
        for (auto& a : args[q]) REQUIRE(tt[q]->getArgType(a.first)->getName() == a.second && sc.getMemberType(q, a.first) == a.second, "type of parameter " << a.first << " of " << q);
        for (auto& a : e) REQUIRE(names.count(a), "parameter " << a << " of " << q << " is not listed");
        REQUIRE(sc.getParameterCount(q) == e.size(), "getParameterCount(" << q << ")");
        break;
      }
      case 5: {
        int mask = (int)s.draw(1, 3); std::set<S> a, b; PSList<PSTokenType*> l = sc.getPSTokenTypesByAttr(mask);
        for (int q = 0; q < l.size(); q++) a.insert(dynamic_cast<TokenType*>(l.get(q))->getSignature());
        for (auto& q : attr) if ((q.second & mask) == mask) b.insert(q.first);
        REQUIRE(a == b, "getPSTokenTypesByAttr(" << mask << "): " << join(a) << "instead of " << join(b)); break;
      }
      default: {
        S x = s.pick(objs); std::vector<S> ts; std::vector<const Domain*> ds; S sg = x;
        if (builtin && ot[x]->getObjectFactories().empty()) break;
        if (!mem.count(x) && !m.parent.count(x)) break;
        bool own = false; for (auto& f : fac) own |= f.first.substr(0, f.first.find(':')) == x;
        if (!own) break;  // only those made here
        for (long a = s.draw(0, 2); a > 0; a--) { ts.push_back(s.chance(1, 2) ? s.pick(objs) : s.pick(prims)); sg += ":" + ts.back(); }
        std::vector<std::unique_ptr<Domain>> keep;
        for (auto& q : ts) { keep.emplace_back(ces.baseDomain(q).copy()); ds.push_back(keep.back().get()); }
        std::set<ObjectFactoryId> ok;
        for (auto& f : sig) {
          if (f.first.substr(0, f.first.find(':')) != x || f.second.size() != ts.size()) continue;
          bool fit = true; for (size_t a = 0; a < ts.size(); a++) fit &= m.isA(ts[a], f.second[a]);
          if (fit) ok.insert(fac[f.first]);
        }
        if (fac.count(sg)) { ok.clear(); ok.insert(fac[sg]); }
        ObjectFactoryId got = sc.getObjectFactory(x, ds, false);
        REQUIRE(got.isNoId() == ok.empty() && (ok.empty() || ok.count(got)), "constructor for " << sg << " is " << (got.isNoId() ? S("none") : got->getSignature()));
        if (!ok.empty() && !fac.count(sg)) s.label("constructor by inheritance");
      }
    }
  }
}
PBT_PROP("P06", "schema_queries", queries, 60000, 30);
PBT_PROP("P06", "registered_types", registered, 60000, 30);
}  // namespace
