// P07: object variables and object look-ups against the set of live objects.
#include "pbt.hh"
#include "Engine.hh"
#include "ModuleConstraintEngine.hh"
#include "ModulePlanDatabase.hh"
#include "ConstraintEngine.hh"
#include "CESchema.hh"
#include "PlanDatabase.hh"
#include "DbClient.hh"
#include "Schema.hh"
#include "Object.hh"
#include "Timeline.hh"
#include "ObjectType.hh"
#include "IntervalToken.hh"
#include "TokenVariable.hh"
#include "Constraints.hh"
#include "Variable.hh"
#include "Domains.hh"
#include "Error.hh"
#include <boost/cast.hpp>
#include <algorithm>
using namespace pbt;
using namespace EUROPA;

PBT_RULE("P07", "random type hierarchies with predicates and object members; histories of creating objects (plain, by the client, as components), deleting them "
         "with their components, making and deleting object variables and tokens, specifying and resetting variables, closing types and the database, "
         "with look-ups by name, key and type in between; non-trivial when a variable changed through an object of a subtype, or an object was "
         "deleted, after a look-up or variable had been made",
         {"objects in the domain of a closed variable, or to which a variable is specified, are not deleted (the plan still refers to them)",
          "closing a type closes the variables of that type and not the creation of objects of its subtypes, as the interface says"});

namespace {
typedef std::string S;
struct OEngine : EngineBase {
  OEngine() {
    addModule((new ModuleConstraintEngine())->getId());
    addModule((new ModuleConstraintLibrary())->getId());
    addModule((new ModulePlanDatabase())->getId());
    doStart();
    CESchema* ces = boost::polymorphic_cast<CESchema*>(getComponent("CESchema"));
    REGISTER_SYSTEM_CONSTRAINT(ces, AddEqualConstraint, "temporalDistance", "Default");
  }
  ~OEngine() { doShutdown(); }
  Schema& schema() { return *boost::polymorphic_cast<Schema*>(getComponent("Schema")); }
  ConstraintEngine& ce() { return *boost::polymorphic_cast<ConstraintEngine*>(getComponent("ConstraintEngine")); }
  PlanDatabase& db() { return *boost::polymorphic_cast<PlanDatabase*>(getComponent("PlanDatabase")); }
};
struct O { ObjectId id; S name, type; int parent; long key; bool live; };
struct V { ConstrainedVariableId id; S type, name; std::set<int> in; bool follows, closed; int spec; TokenId tok; bool global; };
struct St {
  OEngine en; std::map<S, S> par; std::set<S> preds; std::vector<O> o; std::vector<V> v; std::set<S> closed; bool dbClosed; int names; bool seen;
  bool isA(S t, const S& a) const { for (; t != ""; t = par.at(t)) if (t == a) return true; return false; }
  bool pred(const S& p) const { for (S t = p.substr(0, p.find('.')); t != ""; t = par.at(t)) if (preds.count(t + p.substr(p.find('.')))) return true; return false; }
  std::set<int> of(const S& t) const { std::set<int> r; for (size_t i = 0; i < o.size(); i++) if (o[i].live && isA(o[i].type, t)) r.insert((int)i); return r; }
  S names_of(const std::set<int>& x) const { S r = "{ "; for (int i : x) r += o[(size_t)i].name + " "; return r + "}"; }
};
std::set<int> ids(const St& y, const Domain& d) {
  std::set<int> r;
  std::set<edouble> vals; { std::list<edouble> l; if (!d.isEmpty()) d.getValues(l); vals.insert(l.begin(), l.end()); }
  for (edouble x : vals) { bool f = false; for (size_t i = 0; i < y.o.size(); i++) if (edouble((double)y.o[i].key) == x) { r.insert((int)i); f = true; } if (!f) r.insert(-1); }
  return r;
}
S show(const St& y, const std::set<int>& x) { return x.count(-1) ? S("(unknown objects)") : y.names_of(x); }
void check(Src& s, St& y) {
  PlanDatabase& db = y.en.db();
  for (auto& v : y.v) {
    std::set<int> got = ids(y, v.id->baseDomain());
    REQUIRE(got == v.in, "variable " << v.name << " of type " << v.type << " holds " << show(y, got) << " instead of " << y.names_of(v.in));
    if (v.closed || !v.follows) REQUIRE(v.id->isClosed() == v.closed, "variable " << v.name << (v.closed ? " is not closed" : " is closed"));
    std::set<int> last = ids(y, v.id->lastDomain()), e = v.in;
    if (v.spec >= 0) { e.clear(); e.insert(v.spec); }
    REQUIRE(last == e, "the derived domain of " << v.name << " is " << show(y, last) << " instead of " << y.names_of(e));
  }
  std::set<int> all; for (size_t i = 0; i < y.o.size(); i++) if (y.o[i].live) all.insert((int)i);
  std::set<int> got; for (ObjectId x : db.getObjects()) { bool f = false; for (size_t i = 0; i < y.o.size(); i++) if (y.o[i].live && y.o[i].id == x) { got.insert((int)i); f = true; } REQUIRE(f, "getObjects lists an unknown object"); }
  REQUIRE(got == all, "getObjects: " << y.names_of(got) << " instead of " << y.names_of(all));
  for (long k = s.draw(0, 4); k > 0; k--) {
    std::vector<S> ts; for (auto& p : y.par) ts.push_back(p.first);
    y.seen = true;
    switch (s.draw(0, 4)) {
      case 0: {
        S t = s.pick(ts); std::list<ObjectId> l; db.getObjectsByType(t, l); std::set<int> g;
        for (ObjectId x : l) for (size_t i = 0; i < y.o.size(); i++) if (y.o[i].live && y.o[i].id == x) g.insert((int)i);
        REQUIRE(g == y.of(t) && g.size() == l.size(), "getObjectsByType(" << t << "): " << l.size() << " objects, " << y.names_of(g) << " instead of " << y.names_of(y.of(t)));
        REQUIRE(db.hasObjectInstances(t) == !g.empty(), "hasObjectInstances(" << t << ")");
        PSList<PSObject*> pl = static_cast<const PlanDatabase&>(db).getObjectsByType(t);
        REQUIRE(pl.size() == (int)g.size(), "getObjectsByType(" << t << ") lists " << pl.size());
        REQUIRE(db.isClosed(t) == (y.dbClosed || y.closed.count(t)), "isClosed(" << t << ")");
        break;
      }
      case 1: {
        for (auto& t : ts) REQUIRE(db.hasObjectInstances(t) == !y.of(t).empty(), "hasObjectInstances(" << t << ")");
        REQUIRE(static_cast<const PlanDatabase&>(db).getAllObjects().size() == (int)all.size(), "getAllObjects");
        break;
      }
      case 2: {
        if (y.o.empty()) break;
        const O& x = s.pick(y.o); bool again = false;
        for (auto& z : y.o) again |= z.live && z.name == x.name && !x.live;
        if (again) break;
        REQUIRE(x.live ? db.getObject(x.name) == x.id : db.getObject(x.name).isNoId(), "getObject(" << x.name << ")");
        REQUIRE(x.live ? db.getEntityByKey((int)x.key) == x.id : db.getEntityByKey((int)x.key).isNoId(), "the entity of key of " << x.name);
        break;
      }
      case 3: {
        if (all.empty()) break;
        std::vector<int> a(all.begin(), all.end()); const O& x = y.o[(size_t)s.pick(a)];
        std::set<int> comp, e; for (ObjectId c : x.id->getComponents()) for (size_t i = 0; i < y.o.size(); i++) if (y.o[i].live && y.o[i].id == c) comp.insert((int)i);
        for (size_t i = 0; i < y.o.size(); i++) if (y.o[i].live && y.o[i].parent >= 0 && &y.o[(size_t)y.o[i].parent] == &x) e.insert((int)i);
        REQUIRE(comp == e && x.id->getComponents().size() == e.size(), "components of " << x.name << ": " << y.names_of(comp) << " instead of " << y.names_of(e));
        REQUIRE(x.id->getParent() == (x.parent >= 0 ? y.o[(size_t)x.parent].id : ObjectId::noId()), "parent of " << x.name);
        REQUIRE(x.id->getThis()->lastDomain().isSingleton() && x.id->getThis()->lastDomain().getSingletonValue() == edouble((double)x.key), "the variable 'this' of " << x.name);
        S root = x.type; while (y.par[root] != "") root = y.par[root];
        REQUIRE(x.id->getType() == x.type && x.id->getName() == x.name && x.id->getRootType() == root, "name and type of " << x.name);
        break;
      }
      default: {
        for (auto& v : y.v) if (v.global) REQUIRE(db.isGlobalVariable(v.name) && db.getGlobalVariable(v.name) == v.id, "global variable " << v.name);
        size_t g = 0; for (auto& v : y.v) g += v.global;
        REQUIRE(db.getGlobalVariables().size() == g, db.getGlobalVariables().size() << " global variables instead of " << g);
      }
    }
  }
}
void erase(St& y, int i) {
  for (size_t c = 0; c < y.o.size(); c++) if (y.o[c].live && y.o[c].parent == i) erase(y, (int)c);
  y.o[(size_t)i].live = false;
  for (auto& v : y.v) if (v.follows) v.in.erase(i);
}
void histories(Src& s) {
  St y; y.dbClosed = false; y.names = 0; y.seen = false;
  Schema& sc = y.en.schema(); PlanDatabase& db = y.en.db();
  for (auto& t : sc.getAllObjectTypes()) y.par[t] = sc.hasParent(t) ? sc.getParent(t) : "";
  long nt = s.draw(1, 5); std::vector<S> mine;
  for (long i = 0; i < nt; i++) {
    S t(1, (char)('A' + i)), p = mine.empty() || s.chance(1, 4) ? S("Object") : s.pick(mine);
    sc.addObjectType(t, p); y.par[t] = p; mine.push_back(t);
    if (!y.pred(t + ".p") && s.flip()) { sc.addPredicate(t + ".p"); y.preds.insert(t + ".p"); }
    if (!y.pred(t + ".q") && s.chance(1, 3)) { sc.addPredicate(t + ".q"); y.preds.insert(t + ".q"); }
    for (S c : {"m", "n", "k"}) { S m = s.pick(mine); if (s.flip() && !sc.canContain(t, m, c)) sc.addMember(t, m, c); }
    s.note() << t << "<" << p << " ";
  }
  auto added = [&](ObjectId id, const S& t, const S& nm, int par) {
    y.o.push_back({id, nm, t, par, (long)cast_long(id->getKey()), true}); int i = (int)y.o.size() - 1;
    for (auto& v : y.v) if (v.follows && y.isA(t, v.type)) { v.in.insert(i); if (v.type != t) { s.nontrivial(); s.label("joined through a subtype"); } }
  };
  long n = s.draw(2, 30);
  for (long k = 0; k < n; k++) {
    std::vector<int> live; for (size_t i = 0; i < y.o.size(); i++) if (y.o[i].live) live.push_back((int)i);
    switch (s.weighted({6, 2, 3, 5, 2, 2, 2, 1, 1, 2})) {
      case 0: {
        S t = s.pick(mine); if (y.dbClosed || y.closed.count(t)) break;
        S nm = "o" + std::to_string(s.chance(1, 8) && y.names > 0 ? s.draw(0, y.names - 1) : y.names++);
        if (!db.getObject(nm).isNoId()) break;
        s.note() << "new " << t << " " << nm << "; ";
        added((new Object(db.getId(), t, nm))->getId(), t, nm, -1); s.label("object");
        break;
      }
      case 1: {
        if (live.empty() || y.dbClosed) break;
        int p = s.pick(live); S t = s.pick(mine), c = s.oneof({"m", "n", "k"});
        if (y.closed.count(t) || !sc.canContain(y.o[(size_t)p].type, t, c)) break;
        S nm = y.o[(size_t)p].name + "." + c; if (!db.getObject(nm).isNoId()) break;
        s.note() << "new component " << t << " " << nm << "; ";
        added((new Object(y.o[(size_t)p].id, t, c))->getId(), t, nm, p); s.label("component");
        break;
      }
      case 2: {
        if (live.empty()) break;
        int i = s.pick(live); std::set<int> gone; gone.insert(i);
        for (bool more = true; more;) { more = false; for (int c : live) if (!gone.count(c) && y.o[(size_t)c].parent >= 0 && gone.count(y.o[(size_t)c].parent)) { gone.insert(c); more = true; } }
        bool used = false;
        for (auto& v : y.v) for (int g : gone) {
          if (v.in.count(g) && (!v.follows || v.spec == g)) used = true;
          bool others = false; for (int z : v.in) others |= !gone.count(z);
          if (v.in.count(g) && !others && (v.tok.isId())) used = true;  // tokens need an object
        }
        if (used) break;
        s.note() << "delete " << y.o[(size_t)i].name << "; ";
        ObjectId id = y.o[(size_t)i].id;
        erase(y, i);
        if (s.flip()) db.getClient()->deleteObject(id); else delete static_cast<Object*>(id);
        if (gone.size() > 1) s.label("delete with components"); else s.label("delete");
        if (!y.v.empty() || y.seen) s.nontrivial();
        break;
      }
      case 3: {
        S t = s.pick(mine), nm = "v" + std::to_string(y.v.size()) + "_" + std::to_string(k);
        V v; v.type = t; v.name = nm; v.in = y.of(t); v.spec = -1; v.global = false;
        bool tc = y.dbClosed || y.closed.count(t);
        v.follows = !tc; v.closed = tc;
        if (s.flip()) { v.id = db.getClient()->createVariable(t, nm); v.global = true; }
        else {
          bool leave = s.chance(1, 3);
          v.id = (new Variable<ObjectDomain>(y.en.ce().getId(), ObjectDomain(sc.getCESchema()->getDataType(t)), false, true, nm))->getId();
          db.makeObjectVariableFromType(t, v.id, leave);
          if (tc && leave) v.closed = false;
        }
        s.note() << "var " << t << " " << nm << "; "; s.label("variable");
        y.v.push_back(v);
        break;
      }
      case 4: {
        std::vector<S> ps; for (auto& t : mine) for (S q : {"p", "q"}) if (y.pred(t + "." + q) && !y.of(t).empty()) ps.push_back(t + "." + q);
        if (ps.empty()) break;
        S p = s.pick(ps), t = p.substr(0, p.find('.'));
        TokenId tok = (new IntervalToken(db.getId(), p, true, false))->getId();
        V v; v.id = tok->getObject(); v.type = t; v.name = "token " + p; v.in = y.of(t); v.spec = -1; v.global = false; v.tok = tok;
        v.follows = false; v.closed = true;  // closed with the token
        s.note() << "token " << p << "; "; s.label("token");
        y.v.push_back(v);
        break;
      }
      case 5: {
        if (y.v.empty()) break;
        size_t i = s.idx(y.v.size());
        s.note() << "delete " << y.v[i].name << "; ";
        if (y.v[i].tok.isId()) delete static_cast<Token*>(y.v[i].tok);
        else if (y.v[i].global) db.getClient()->deleteVariable(y.v[i].id);
        else delete static_cast<ConstrainedVariable*>(y.v[i].id);
        y.v.erase(y.v.begin() + (long)i); s.label("delete variable");
        break;
      }
      case 6: {
        if (y.v.empty()) break;
        V& v = y.v[s.idx(y.v.size())];
        if (v.spec >= 0) { v.id->reset(); v.spec = -1; s.note() << "reset " << v.name << "; "; break; }
        if (v.in.size() < 2 || (v.tok.isNoId() && !v.id->isClosed() && s.flip())) break;
        std::vector<int> c(v.in.begin(), v.in.end()); int o = s.pick(c);
        s.note() << v.name << " = " << y.o[(size_t)o].name << "; "; s.label("specify");
        v.id->specify(edouble((double)y.o[(size_t)o].key)); v.spec = o;
        break;
      }
      case 7: {
        S t = s.pick(mine); if (y.dbClosed || y.closed.count(t)) break;
        s.note() << "close " << t << "; "; s.label("close type");
        bool empty = false; for (auto& v : y.v) empty |= v.follows && v.type == t && v.in.empty();
        if (empty) break;
        db.close(t); y.closed.insert(t);
        for (auto& v : y.v) if (v.follows && v.type == t) { v.follows = false; v.closed = true; }
        break;
      }
      case 8: {
        if (y.dbClosed || !s.chance(1, 3)) break;
        bool empty = false; for (auto& v : y.v) empty |= v.follows && v.in.empty();
        if (empty) break;
        s.note() << "close; "; s.label("close database");
        db.close(); y.dbClosed = true;
        for (auto& v : y.v) if (v.follows) { v.follows = false; v.closed = true; }
        break;
      }
      default: y.en.ce().propagate();
    }
    check(s, y);
  }
}
PBT_PROP("P07", "histories", histories, 100000, 30);
}  // namespace
