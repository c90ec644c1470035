// U02: interned strings, entities and ids.
#include "pbt.hh"
#include "Error.hh"
#include "LabelStr.hh"
#include "Entity.hh"
#include "IdTable.hh"
#include "Utils.hh"
#include <algorithm>
#include <cstring>
#include <memory>
using namespace pbt;
using namespace EUROPA;

PBT_RULE("U02", "labels: sequences of texts over a small alphabet (prefix-sharing, empty, long, delimiter-only, non-ASCII), interned repeatedly through every constructor; "
         "non-trivial when at least two different texts share a prefix or a text holds a delimiter. entities: histories of create/copy/cast/look up/delete with address reuse; "
         "non-trivial when at least one deleted entity's stale key and stale reference were queried after a later creation",
         {"texts hold no NUL character (the interface takes C strings in places)"});

static std::string genText(Src& s) {
  static const char* frag[] = {"a", "b", "A", ":", ".", "::", " ", "ab", "\xc3\xa9", "\n", "0", "true", "aa", "\x7f", "\xff", "x1"};
  std::string t;
  long n = s.chance(1, 12) ? s.draw(20, 400) : s.draw(0, 6);
  for (long i = 0; i < n; i++) t += frag[s.draw(0, 15)];
  return t;
}
// independent tokeniser: maximal runs of characters that are not delimiters
static std::vector<std::string> split(const std::string& t, const std::string& d) {
  std::vector<std::string> r;
  std::string cur; bool in = false;
  for (char c : t) {
    if (d.find(c) != std::string::npos) { if (in) r.push_back(cur); cur.clear(); in = false; }
    else { cur += c; in = true; }
  }
  if (in) r.push_back(cur);
  return r;
}
static LabelStr make(Src& s, const std::string& t) {
  switch (s.draw(0, 4)) {
  case 0: return LabelStr(t);
  case 1: return LabelStr(t.c_str());
  case 2: { LabelStr a(t); return LabelStr(a.getKey()); }
  case 3: { LabelStr a(t); LabelStr b("other"); b = a; return b; }
  default: { LabelStr a(t); LabelStr b(a); return LabelStr((edouble)b); }
  }
}
static void labels(Src& s) {
  std::vector<std::pair<std::string, LabelStr> > all;
  long n = s.draw(1, 10);
  for (long i = 0; i < n; i++) {
    std::string t = (!all.empty() && s.chance(1, 4)) ? s.pick(all).first : genText(s);
    if (!all.empty() && s.chance(1, 4)) t = s.pick(all).first + t;
    unsigned long before = LabelStr::getSize();
    bool known = LabelStr::isString(t);
    LabelStr l = make(s, t);
    s.note() << "'" << t << "' ";
    REQUIRE(LabelStr::isString(t), "interned text not found: " << t);
    if (known) REQUIRE(LabelStr::getSize() == before || LabelStr::getSize() == before + 1, "interning a known text grew the table by " << LabelStr::getSize() - before);
    REQUIRE(LabelStr::isString(l.getKey()), "key of an interned text is unknown");
    all.push_back({t, l});
  }
  bool share = false;
  for (auto& a : all) {
    REQUIRE(a.second.toString() == a.first, "label gives back '" << a.second.toString() << "' for '" << a.first << "'");
    REQUIRE(std::string(a.second.c_str()) == a.first, "c_str differs for '" << a.first << "'");
    REQUIRE((std::string)a.second == a.first, "conversion to string differs");
    REQUIRE(LabelStr::getKey(a.first) == a.second.getKey(), "key of the same text differs");
    REQUIRE(LabelStr((edouble)a.second).toString() == a.first, "label rebuilt from key differs");
    for (auto& b : all) {
      bool eq = a.first == b.first;
      if (!eq && !a.first.empty() && !b.first.empty() && a.first[0] == b.first[0]) share = true;
      REQUIRE((a.second == b.second) == eq && (a.second != b.second) == !eq && (a.second.getKey() == b.second.getKey()) == eq, "equality of '" << a.first << "' and '" << b.first << "'");
      REQUIRE((a.second < b.second) == (a.first < b.first) && (a.second > b.second) == (a.first > b.first), "order of '" << a.first << "' and '" << b.first << "'");
      REQUIRE(a.second.contains(b.second) == (a.first.find(b.first) != std::string::npos), "'" << a.first << "' contains '" << b.first << "'");
    }
    static const char* delims[] = {":", ".", "a", ":.", " ", "z", "ab"};
    std::string d = delims[s.draw(0, 6)];
    std::vector<std::string> w = split(a.first, d);
    if (w.size() > 1) share = true;
    REQUIRE(a.second.countElements(d.c_str()) == w.size(), "'" << a.first << "' has " << w.size() << " elements by '" << d << "', counted " << a.second.countElements(d.c_str()));
    for (size_t k = 0; k < w.size(); k++) {
      LabelStr e = a.second.getElement(k, d.c_str());
      REQUIRE(e.toString() == w[k], "element " << k << " of '" << a.first << "' by '" << d << "' is '" << e.toString() << "', expected '" << w[k] << "'");
    }
    size_t over = w.size() + s.draw(0, 3);
    bool thrown = false;
    try { a.second.getElement(over, d.c_str()); } catch (const Error&) { thrown = true; }
    REQUIRE(thrown, "asking '" << a.first << "' for element " << over << " of " << w.size() << " was not reported");
    std::vector<std::string> tk;
    tokenize(a.first, tk, d);
    REQUIRE(tk == w, "tokenize of '" << a.first << "' by '" << d << "'");
  }
  if (share) s.nontrivial();
}
PBT_PROP("U02", "labels", labels, 200000, 30, 1000);

namespace {
class Other { public: virtual ~Other() {} int pad[3]; };
class Ent : public Entity {
public:
  Ent(int t) : m_id(this), tag(t) {}
  virtual ~Ent() { if (m_id.isValid()) m_id.remove(); }
  Id<Ent> m_id; int tag;
};
class Sub : public Ent {
public:
  Sub(int t) : Ent(t), more(t) {}
  int more;
};
class Sub2 : public Other, public Sub {
public:
  Sub2(int t) : Sub(t) {}
};
struct M { Ent* e; Id<Ent> id; Id<Entity> base; eint key; int tag; int kind; bool live; };
}
static void entities(Src& s) {
  std::vector<M> all;
  long n = s.draw(1, 40);
  bool stale = false, staleQueried = false;
  std::set<long> keysBefore;
  { std::set<EntityId> e; Entity::getEntities(e); for (auto& x : e) keysBefore.insert(cast_long(x->getKey())); }
  unsigned long idsBefore = IdTable::size();
  auto check = [&](const char* when) {
    std::set<long> want(keysBefore);
    unsigned long live = 0;
    for (auto& m : all) {
      EntityId e = Entity::getEntity(m.key);
      if (m.live) {
        live++;
        want.insert(cast_long(m.key));
        REQUIRE(e.isId() && static_cast<Entity*>(e) == static_cast<Entity*>(m.e), when << ": live entity " << m.key << " not found by its key");
        REQUIRE(m.id.isValid() && m.base.isValid() && !m.id.isInvalid(), when << ": reference to live entity " << m.key << " reported invalid");
        REQUIRE(m.id == m.e->m_id && m.id->tag == m.tag && static_cast<Ent*>(m.id) == m.e, when << ": reference denotes another entity");
        REQUIRE(m.e->getKey() == m.key, when << ": key changed");
        Id<Entity> up(m.id); REQUIRE(up == m.base && up.isValid(), when << ": upcast reference differs");
        Id<Ent> down(up); REQUIRE(down == m.id, when << ": downcast reference differs");
        REQUIRE(Id<Sub>::convertable(m.id) == (m.kind >= 1) && Id<Sub2>::convertable(m.id) == (m.kind == 2), when << ": convertable wrong");
        if (m.kind >= 1) { Id<Sub> d2(m.base); REQUIRE(d2.isValid() && d2->more == m.tag, when << ": downcast to subtype"); }
        else { bool th = false; try { Id<Sub> d2(m.id); } catch (const Error&) { th = true; } REQUIRE(th, when << ": invalid downcast was accepted"); }
        REQUIRE(Entity::getTypedEntity<Ent>(m.key) == m.id, when << ": typed lookup");
      } else {
        REQUIRE(e.isNoId(), when << ": deleted entity's key " << m.key << " still resolves");
        REQUIRE(!m.id.isValid() && m.id.isInvalid() && !m.base.isValid(), when << ": reference to deleted entity " << m.key << " reported valid");
        if (stale) staleQueried = true;
      }
    }
    std::set<EntityId> e; Entity::getEntities(e);
    std::set<long> got; for (auto& x : e) got.insert(cast_long(x->getKey()));
    REQUIRE(got == want, when << ": the set of entities has " << got.size() << " members, expected " << want.size());
    REQUIRE(IdTable::size() == idsBefore + live, when << ": id table holds " << IdTable::size() - idsBefore << " entries, expected " << live);
    for (size_t i = 0; i < all.size(); i++) for (size_t j = 0; j < i; j++) {
      REQUIRE(all[i].key != all[j].key, when << ": key " << all[i].key << " given twice");
      REQUIRE(all[i].id != all[j].id && !(all[i].id == all[j].id), when << ": references to different entities compare equal");
    }
  };
  for (long i = 0; i < n; i++) {
    size_t op = s.weighted({5, 4, 1, 1});
    if (op == 0) {
      int tag = (int)s.draw(0, 1000), kind = (int)s.draw(0, 2);
      Ent* e = kind == 0 ? new Ent(tag) : kind == 1 ? new Sub(tag) : new Sub2(tag);
      M m{e, e->m_id, Id<Entity>(e->m_id), e->getKey(), tag, kind, true};
      bool dup = false;
      try { Id<Ent> again(e); } catch (const Error&) { dup = true; }
      REQUIRE(dup, "wrapping the same instance twice was accepted");
      s.note() << "new" << kind << " ";
      for (auto& o : all) if (!o.live) stale = true;
      all.push_back(m);
    } else if (op == 1 && !all.empty()) {
      M& m = all[s.idx(all.size())];
      if (!m.live) continue;
      s.note() << "del#" << (&m - &all[0]) << " ";
      if (s.flip()) delete m.e; else { Id<Ent> k(m.id); k.release(); REQUIRE(k.isNoId(), "released reference is not empty"); }
      m.live = false; m.e = nullptr;
    } else if (op == 2 && !all.empty()) {
      M& m = all[s.idx(all.size())];
      if (!m.live) continue;
      REQUIRE(m.e->refCount() == 1 && m.e->canBeDeleted(), "fresh reference count");
      m.e->incRefCount();
      REQUIRE(m.e->refCount() == 2 && !m.e->canBeDeleted(), "reference count after increment");
      REQUIRE(!m.e->decRefCount() && m.e->refCount() == 1, "reference count after decrement");
      s.note() << "ref ";
    } else if (op == 3 && !all.empty()) {
      M& m = all[s.idx(all.size())];
      if (m.live) continue;
      bool th = false;
      Id<Ent> k(m.id);
      // releasing a dangling reference must be reported (its address may have been reused)
      try { k.release(); } catch (const Error&) { th = true; }
      REQUIRE(th, "releasing a dangling reference was accepted");
      s.note() << "rel-stale ";
    }
    check("after step");
  }
  REQUIRE(Id<Ent>::noId().isNoId() && !Id<Ent>::noId().isId() && Id<Ent>().isNoId() && Id<Ent>(0ul).isNoId(), "empty references");
  for (auto& m : all) if (m.live) { delete m.e; m.live = false; }
  check("at the end");
  if (staleQueried) s.nontrivial();
}
PBT_PROP("U02", "entities", entities, 100000, 30, 1000);
