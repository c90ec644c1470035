// N02: the effect of generated programs against a reference evaluator, and equivalent spellings.
// N01: totality of the front end on arbitrary texts (run under the address sanitizer).
#include "nddlenv.hh"
#include <cmath>
#include <memory>
#include <unistd.h>
#include <sys/stat.h>
#include <fstream>
using namespace pbt;
using namespace EUROPA;

PBT_RULE("N02", "generated programs (enumerations, restricted types, classes with inheritance and constructors, objects, variables, assignments, expressions, constraints, tokens, relations, "
         "activated rules) run and compared with a reference evaluator: objects, members, tokens and their states, base domains, and the verdict on complete assignments found by local "
         "search (half of them spoiled in one variable); then the same program respelled (white space and comments, renamed identifiers, several scripts, included files: same plan) or with "
         "independent statements reordered (same base domains and verdicts); non-trivial when an assignment was judged in a program with at least two conditions",
         {"initial values lie within the declared type; members and fields are read only from objects known by name, or in rules from the token's object",
          "sets are compared only at the top level of a condition and only with =="});
PBT_RULE("N01", "random bytes, token soup, well-formed statements whose few names clash, mutated, truncated and spliced valid programs executed under the address sanitizer; then a correct program must be accepted and have its effect; "
         "non-trivial when the text got past the parser or mixed valid program parts",
         {"texts include no files from outside a scratch directory", "rules that create subgoals without end are stopped by not activating tokens of mutated programs more than the text does"});

namespace {
typedef std::string S;
typedef std::vector<double> Asg;
S num(long v) { return std::to_string(v); }
S flt(double v) { std::ostringstream o; o << v; S s = o.str(); if (s.find('.') == S::npos && s.find('e') == S::npos) s += ".0"; return s; }

// Domains of the model: integers, flags, enumerations and objects are finite; reals are an interval.
struct Dom {
  bool fin = true, whole = false;  // whole: the unrestricted type, of which only a part is used
  std::set<double> v;
  double lo = 0, hi = 0;
  bool has(double x) const { return fin ? v.count(x) > 0 : lo <= x && x <= hi; }
  bool single() const { return fin ? v.size() == 1 : lo == hi; }
  bool empty() const { return fin ? v.empty() : lo > hi; }
  double any(Src& s) const {
    if (!fin) { long n = (long)((hi - lo) * 4); return lo + s.draw(0, n) / 4.0; }
    auto it = v.begin();
    std::advance(it, s.idx(v.size()));
    return *it;
  }
};
Dom meet(const Dom& a, const Dom& b) {
  Dom r;
  r.whole = a.whole && b.whole;
  if (!a.fin && !b.fin) { r.fin = false; r.lo = std::max(a.lo, b.lo); r.hi = std::min(a.hi, b.hi); return r; }
  const Dom& f = a.fin ? a : b;
  const Dom& o = a.fin ? b : a;
  for (double x : f.v) if (o.has(x)) r.v.insert(x);
  return r;
}
Dom ints(long lo, long hi) { Dom d; for (long i = lo; i <= hi; i++) d.v.insert((double)i); return d; }
Dom reals(double lo, double hi) { Dom d; d.fin = false; d.lo = lo; d.hi = hi; return d; }

enum Kind { INT, FLT, BOOL, ENUM, OBJ, STR };
struct Type { S name; Kind k; int base; Dom d; };  // base: the enumeration or the class
struct Enum { S name; std::vector<S> vals; std::vector<int> ids; };

// Expressions; also calls of constraints.
struct Ex {
  S op;  // "var", "lit", "+", "-", "*", relations, "&&", "||", "fn:NAME", "con:NAME"
  S t;   // text of a literal, name of a variable
  Dom d; // literal
  std::vector<Ex> k;
};
int prec(const S& o) {
  if (o == "*") return 5;
  if (o == "+" || o == "-") return 4;
  if (o == "&&") return 2;
  if (o == "||") return 1;
  if (o == "var" || o == "lit" || o[0] == 'f') return 9;
  return 3;
}
S text2(const Ex& e) {
  if (e.op == "var" || e.op == "lit") return e.t;
  if (e.op.compare(0, 3, "fn:") == 0 || e.op.compare(0, 4, "con:") == 0) {
    S r = e.op.substr(e.op.find(':') + 1) + "(";
    for (size_t i = 0; i < e.k.size(); i++) r += (i ? ", " : "") + text2(e.k[i]);
    return r + ")";
  }
  S l = text2(e.k[0]), r = text2(e.k[1]);
  if (prec(e.k[0].op) < prec(e.op)) l = "( " + l + " )";
  if (prec(e.k[1].op) <= prec(e.op)) r = "( " + r + " )";
  return l + " " + e.op + " " + r;
}

struct Member { S name; int type; };
struct Init { enum K { LIT, ARG, MEMBER, NEW } k; Dom d; S t; int cls = -1, ctor = -1; std::vector<Init> args; };
struct Ctor {
  std::vector<Member> args;
  bool hasSuper = false;
  std::vector<Init> super; int superCtor = -1;
  std::vector<std::pair<S, Init>> body;
};
struct Param { S name; int type; bool init; Dom d; S t; };
struct Restr { S name; Dom d; S t; };
struct RuleSt {
  enum K { COND, LOCAL, SUB, REL } k;
  Ex e; Member local; bool init = false; Dom d; S t;
  S rel, form, src, dst; int cls = -1, tag = 0; S pred;
  S extra; int xcls = -1, xtag = 0;  // a second token of the same statement
};
struct RuleD { int cls; S pred; std::vector<RuleSt> body; };
struct Pred { S name; std::vector<Param> params; std::vector<Restr> restr; std::vector<Ex> cond; };
struct Class { S name; int parent; std::vector<Member> mem; std::vector<Ctor> ctors; std::vector<Pred> preds; };

struct MVar { S owner, name; Kind k; int base; Dom d; int slot; bool spec = false; };  // owner: "", object, or token number "#n"
struct MObj { S name; int cls; std::map<S, int> mem; int parent; };
struct MTok {
  S name; int cls; S pred; char kind;  // f g r, s for a subgoal
  std::map<S, int> var; bool active = false, rejected = false;
  int master = -1, tag = 0; S rel;
  std::map<S, int> env; // rule locals
  std::map<S, int> subs;
};
typedef std::function<int(const S&)> Env2;
struct Con { std::function<bool(const Asg&)> f; std::vector<int> vars; S text; };

struct Stmt { S text; int phase; std::set<S> decl, uses; };

struct Prog {
  Src& s;
  std::vector<Enum> enums;
  std::vector<S> symbols;  // all enumeration values
  std::vector<Type> types;
  std::vector<Class> cls;
  std::vector<RuleD> rules;
  std::vector<MObj> objs;
  std::vector<MVar> vars;
  std::map<S, int> glob;
  std::set<int> touched;
  std::vector<MTok> toks;
  std::vector<Con> cons;
  std::vector<Stmt> stmts;
  std::vector<S> strings;
  std::set<S> idents;
  int counter = 0, tag = 0;
  bool closed = false;
  explicit Prog(Src& s_) : s(s_) {}

  S fresh(const char* p) { S n = p + num(++counter); idents.insert(n); return n; }
  const Type& T(int i) const { return types[(size_t)i]; }
  bool isA(int c, int a) const { while (c >= 0) { if (c == a) return true; c = cls[(size_t)c].parent; } return false; }
  Dom objectsOf(int c) const { Dom d; for (size_t i = 0; i < objs.size(); i++) if (isA(objs[i].cls, c)) d.v.insert((double)i); return d; }
  S lit(Kind k, double v) const {
    switch (k) {
      case INT: return num((long)v);
      case FLT: return flt(v);
      case BOOL: return v ? "true" : "false";
      case ENUM: return symbols[(size_t)v];
      case OBJ: return objs[(size_t)v].name;
      case STR: return "\"" + strings[(size_t)v] + "\"";
    }
    return "";
  }
  // A domain literal within the given domain.
  bool sets = false;  // Sets of integers can't be multiplied or given to functions.
  std::pair<S, Dom> domLit(Kind k, const Dom& in) {
    if (k == BOOL || s.chance(3, 5)) { double v = in.any(s); Dom d; d.v.insert(v); if (k == FLT) d = reals(v, v); return {lit(k, v), d}; }
    if ((k == INT && (!sets || s.flip())) || k == FLT) {
      double a = in.any(s), b = in.any(s);
      if (a > b) std::swap(a, b);
      S sep = s.flip() ? " " : ", ";
      S t = "[ " + (k == INT ? num((long)a) : flt(a)) + sep + (k == INT ? num((long)b) : flt(b)) + " ]";
      return {t, k == INT ? meet(in, ints((long)a, (long)b)) : meet(in, reals(a, b))};
    }
    Dom d;
    long n = s.draw(1, 3);
    S t = "{ ";
    for (long i = 0; i < n; i++) { double v = in.any(s); d.v.insert(v); t += (i ? ", " : "") + lit(k, v); }
    return {t + " }", d};
  }

  // An interval can only be narrowed to an interval.
  std::pair<S, Dom> narrowing(Kind k, const Dom& in) {
    bool old = sets;
    sets = false;
    auto r = domLit(k, in);
    sets = old;
    return r;
  }
  // A value for an argument: constructors take whatever they are given.
  std::pair<S, Dom> argLit(Kind k, const Dom& in) {
    auto r = domLit(k, in);
    if (k == INT && r.first[0] == '[' && (double)r.second.v.size() != *r.second.v.rbegin() - *r.second.v.begin() + 1) { double v = *r.second.v.begin(); r.first = lit(k, v); r.second.v.clear(); r.second.v.insert(v); }
    return r;
  }
  // ---- declarations
  void addStmt(const S& t, int ph, std::set<S> decl = {}, std::set<S> uses = {}) { stmts.push_back({t, ph, decl, uses}); }
  static std::set<S> names(const S& t) {
    std::set<S> r;
    for (size_t i = 0; i < t.size();) {
      if (t[i] == '"') { i = t.find('"', i + 1) + 1; continue; }
      if (isalpha((unsigned char)t[i])) { size_t j = i; while (j < t.size() && (isalnum((unsigned char)t[j]) || t[j] == '_')) j++; r.insert(t.substr(i, j - i)); i = j; } else i++;
    }
    return r;
  }
  void genTypes() {
    types.push_back({"int", INT, -1, ints(-3, 9)});  // the part of the type used
    types.push_back({"float", FLT, -1, reals(-2, 6)});
    types.push_back({"bool", BOOL, -1, ints(0, 1)});
    strings = {"a", "b c", "x1"};
    types.push_back({"string", STR, -1, ints(0, 2)});
    types[0].d.whole = types[1].d.whole = types[3].d.whole = true;
    // Bounds propagation over unbounded numbers need not end, so only variables with an initial value have the plain types.
    types.push_back({"Int", INT, -1, ints(-3, 9)});
    types.push_back({"Flt", FLT, -1, reals(-2, 6)});
    addStmt("typedef int [-3 9] Int;\ntypedef float [-2.0 6.0] Flt;", 0, {"Int", "Flt"});
    long ne = s.draw(1, 2);
    for (long i = 0; i < ne; i++) {
      Enum e; e.name = fresh("En");
      long n = s.draw(2, 4);
      S t;
      Dom d;
      for (long j = 0; j < n; j++) { S v = fresh("val"); e.ids.push_back((int)symbols.size()); d.v.insert((double)symbols.size()); symbols.push_back(v); e.vals.push_back(v); t += (j ? ", " : "") + v; }
      enums.push_back(e);
      types.push_back({e.name, ENUM, (int)i, d});
      std::set<S> dn(e.vals.begin(), e.vals.end()); dn.insert(e.name);
      addStmt("enum " + e.name + " { " + t + " }", 0, dn);
    }
    long nt = s.draw(0, 4);
    for (long i = 0; i < nt; i++) {
      std::vector<int> from;
      for (size_t j = 0; j < types.size(); j++) if (types[j].k != BOOL && types[j].k != STR) from.push_back((int)j);
      int b = s.pick(from);
      Type t = T(b);
      S base = t.name;
      t.name = fresh("Ty");
      t.d.whole = false;
      std::pair<S, Dom> d = domLit(t.k, t.d);
      if (d.second.single()) continue;
      if (d.first[0] != '[' && d.first[0] != '{') continue;
      t.d = d.second;
      types.push_back(t);
      addStmt("typedef " + base + " " + d.first + " " + t.name + ";", 0, {t.name}, names(d.first + " " + base));
    }
  }
  int bounded(int t) const { return t == 0 ? 4 : t == 1 ? 5 : t; }
  static bool within(const Dom& a, const Dom& b) {
    if (a.empty()) return false;
    if (a.fin) { for (double x : a.v) if (!b.has(x)) return false; return true; }
    return !b.fin && b.lo <= a.lo && a.hi <= b.hi;
  }
  // An initial value for something of type t, inside a constructor.
  Init init(int t, const std::vector<Member>& args, const std::vector<Member>& prior, int depth, int upto) {
    Init in;
    const Type ty = T(t);
    std::vector<Init> c;
    for (auto& a : args) if (a.type == t || (ty.k != OBJ && T(a.type).k == ty.k && T(a.type).base == ty.base && within(T(a.type).d, ty.d))) { Init x; x.k = Init::ARG; x.t = a.name; c.push_back(x); }
    for (auto& a : prior) if (a.type == t) { Init x; x.k = Init::MEMBER; x.t = a.name; c.push_back(x); }
    if (!c.empty() && s.chance(2, 3)) return s.pick(c);
    if (ty.k == OBJ) {
      in.k = Init::NEW;
      std::vector<int> cand;
      if (depth == 0) for (int i = 0; i < upto; i++) if (isA(i, ty.base) && !cls[(size_t)i].ctors.empty()) cand.push_back(i);
      if (cand.empty()) { in.cls = -1; return in; }
      in.cls = s.pick(cand);
      fillNew(in, args, prior, depth, in.cls);
      return in;
    }
    in.k = Init::LIT;
    std::pair<S, Dom> d = argLit(ty.k, ty.d);
    in.t = d.first; in.d = d.second;
    return in;
  }
  S baseName(const Type& t) const { return t.k == INT ? "int" : t.k == FLT ? "float" : t.k == BOOL ? "bool" : t.k == STR ? "string" : t.k == ENUM ? enums[(size_t)t.base].name : t.name; }
  void fillNew(Init& in, const std::vector<Member>& args, const std::vector<Member>& prior, int depth, int upto) {
    Class& c = cls[(size_t)in.cls];
    in.ctor = (int)s.idx(c.ctors.size());
    for (auto& a : c.ctors[(size_t)in.ctor].args) in.args.push_back(init(a.type, args, prior, depth + 1, upto));
  }
  static S text(const Init& i, const Prog& p) {
    if (i.k != Init::NEW) return i.t;
    S r = "new " + p.cls[(size_t)i.cls].name + "(";
    for (size_t j = 0; j < i.args.size(); j++) r += (j ? ", " : "") + text(i.args[j], p);
    return r + ")";
  }
  static bool broken(const Init& i) { if (i.k == Init::NEW && i.cls < 0) return true; for (auto& a : i.args) if (broken(a)) return true; return false; }
  void allMembers(int c, std::vector<Member>& out) const { if (c < 0) return; allMembers(cls[(size_t)c].parent, out); for (auto& m : cls[(size_t)c].mem) out.push_back(m); }
  // All parameters of a predicate, ancestors first; nothing when the class has no such predicate.
  bool params(int c, const S& pred, std::vector<Param>& out) const {
    bool any = false;
    if (c < 0) return false;
    any = params(cls[(size_t)c].parent, pred, out);
    for (auto& p : cls[(size_t)c].preds) if (p.name == pred) { any = true; for (auto& q : p.params) out.push_back(q); }
    return any;
  }
  S preds(int c, std::vector<S>& out) const {
    for (int i = c; i >= 0; i = cls[(size_t)i].parent) for (auto& p : cls[(size_t)i].preds) if (std::find(out.begin(), out.end(), p.name) == out.end()) out.push_back(p.name);
    return "";
  }
  bool sameArgs(const Ctor& a, const Ctor& b) const {
    if (a.args.size() != b.args.size()) return false;
    for (size_t i = 0; i < a.args.size(); i++) {
      const Type &x = T(a.args[i].type), &y = T(b.args[i].type);
      bool numeric = (x.k == INT || x.k == FLT || x.k == BOOL) && (y.k == INT || y.k == FLT || y.k == BOOL);
      if (x.k == y.k || numeric || (x.k != OBJ && y.k != OBJ)) continue;
      return false;
    }
    return true;
  }
  void genClass() {
    int ci = (int)cls.size();
    Class c;
    c.name = fresh("Cl");
    c.parent = -1;
    if (ci > 0 && s.chance(1, 2)) { c.parent = (int)s.idx((size_t)ci); if (cls[(size_t)c.parent].ctors.empty()) c.parent = -1; }
    S o = "class " + c.name + (c.parent >= 0 ? " extends " + cls[(size_t)c.parent].name : S()) + " {\n";
    std::vector<Member> inherited;
    allMembers(c.parent, inherited);
    long nm = s.draw(0, 3);
    for (long i = 0; i < nm; i++) {
      Member m{fresh("mem"), bounded((int)s.idx(types.size()))};
      c.mem.push_back(m);
      o += "  " + T(m.type).name + " " + m.name;
      if (i + 1 < nm && s.chance(1, 3)) { Member m2{fresh("mem"), m.type}; c.mem.push_back(m2); o += ", " + m2.name; }
      o += ";\n";
    }
    long nc = s.draw(0, 3);
    if (nc == 3) nc = 1;
    cls.push_back(c);
    if (nc == 0) {
      // No constructor at all: one without arguments is implied.
      Ctor k;
      if (c.parent >= 0) { k.superCtor = -2; Class& p = cls[(size_t)c.parent]; for (size_t q = 0; q < p.ctors.size(); q++) if (p.ctors[q].args.empty()) k.superCtor = (int)q; }
      if (k.superCtor == -2) nc = 1;
      else { c.ctors.push_back(k); cls[(size_t)ci].ctors = c.ctors; }
    }
    for (long i = 0; i < nc; i++) {
      Ctor k;
      long na = s.draw(0, 3);
      for (long j = 0; j < na; j++) {
        S an = !c.mem.empty() && s.chance(1, 8) ? fresh("arg") : fresh("arg");
        int at = (int)s.idx(types.size());
        if (T(at).k == ENUM) at = 6 + T(at).base;  // restricted enumerations aren't known to constructors
        k.args.push_back({an, at});
      }
      bool dup = false;
      for (auto& q : c.ctors) dup |= sameArgs(q, k);
      if (dup) continue;
      if (c.parent >= 0) {
        Class& p = cls[(size_t)c.parent];
        int dflt = -1;
        for (size_t q = 0; q < p.ctors.size(); q++) if (p.ctors[q].args.empty()) dflt = (int)q;
        if (dflt >= 0 && s.chance(1, 3)) k.superCtor = dflt;
        else {
          k.hasSuper = true;
          k.superCtor = (int)s.idx(p.ctors.size());
          for (auto& a : p.ctors[(size_t)k.superCtor].args) k.super.push_back(init(a.type, k.args, {}, 3, ci));
          bool bad = false;
          for (auto& q : k.super) bad |= broken(q);
          if (bad) { k.super.clear(); k.superCtor = -2; }
        }
      }
      if (k.superCtor == -2) continue;
      std::vector<Member> done;
      if (k.superCtor >= 0) for (auto& m : inherited) if (T(m.type).k != OBJ) done.push_back(m);
      for (auto& m : c.mem) {
        if (s.chance(1, 4)) continue;
        Init in = init(m.type, k.args, done, 0, ci);
        if (broken(in)) continue;
        k.body.push_back({m.name, in});
        done.push_back(m);
      }
      o += "  " + c.name + "(";
      for (size_t j = 0; j < k.args.size(); j++) o += (j ? ", " : "") + T(k.args[j].type).name + " " + k.args[j].name;
      o += ") {";
      if (k.hasSuper) { o += " super("; for (size_t j = 0; j < k.super.size(); j++) o += (j ? ", " : "") + text(k.super[j], *this); o += ");"; }
      for (auto& b : k.body) o += " " + b.first + " = " + text(b.second, *this) + ";";
      o += " }\n";
      c.ctors.push_back(k);
      cls[(size_t)ci].ctors = c.ctors;
    }
    if (!c.ctors.empty()) types.push_back({c.name, OBJ, ci, Dom()});
    // predicates
    long np = s.draw(ci == 0 ? 1 : 0, 2);
    for (long i = 0; i < np; i++) {
      Pred p;
      std::vector<S> inh;
      preds(c.parent, inh);
      bool ext = !inh.empty() && s.chance(1, 2);
      p.name = ext ? s.pick(inh) : fresh("pred");
      bool dup = false;
      for (auto& q : c.preds) dup |= q.name == p.name;
      if (dup) continue;
      o += "  " + S(s.chance(1, 6) ? "action " : "predicate ") + p.name + " {\n";
      if (!ext) { Param t{"tag", 0, false, Dom(), ""}; p.params.push_back(t); o += "    int tag;\n    leq(0, start);\n    leq(start, 9);\n    leq(0, end);\n    leq(end, 9);\n    leq(duration, 9);\n"; }
      std::vector<Param> all;
      if (ext) params(c.parent, p.name, all);
      long n = s.draw(0, 3);
      for (long j = 0; j < n; j++) {
        Param q;
        q.name = fresh("par"); q.type = (int)s.idx(types.size());
        q.init = T(q.type).k != OBJ && s.chance(1, 3);
        if (!q.init) q.type = bounded(q.type);
        if (q.init) { auto d = domLit(T(q.type).k, T(q.type).d); q.t = d.first; q.d = d.second; }
        o += "    " + T(q.type).name + " " + q.name + (q.init ? " = " + q.t : S()) + ";\n";
        p.params.push_back(q);
        all.push_back(q);
      }
      std::map<S, Dom> left;
      for (auto& q : all) if (q.name != "tag" && T(q.type).k != OBJ) left[q.name] = q.init ? meet(T(q.type).d, q.d) : T(q.type).d;
      for (int a = c.parent; a >= 0; a = cls[(size_t)a].parent) for (auto& q : cls[(size_t)a].preds) if (q.name == p.name) for (auto& r : q.restr) left[r.name] = meet(left[r.name], r.d);
      for (auto& q : all) if (left.count(q.name) && s.chance(1, 5)) {
        auto d = narrowing(T(q.type).k, left[q.name]);
        p.restr.push_back({q.name, d.second, d.first});
        o += "    " + q.name + S(s.flip() ? " = " : " in ") + d.first + ";\n";
        left[q.name] = meet(left[q.name], d.second);
      }
      std::vector<std::pair<S, int>> sc;
      for (auto& q : all) if (q.name != "tag") sc.push_back({q.name, q.type});
      std::vector<Ref> refs = scope(sc, true);
      long nx = s.draw(0, 2);
      for (long j = 0; j < nx; j++) { Ex e = cond(refs); p.cond.push_back(e); o += "    " + stmt(e) + "\n"; }
      o += "  }\n";
      c.preds.push_back(p);
      cls[(size_t)ci].preds = c.preds;
    }
    o += "}";
    cls[(size_t)ci] = c;
    std::set<S> u = names(o);
    u.erase(c.name);
    addStmt(o, 1, {c.name}, u);
  }
  S stmt(const Ex& e) {
    S t;
    if (e.op.compare(0, 4, "con:") != 0 && s.chance(1, 5)) t = "enforce ";
    t += text2(e);
    if (s.chance(1, 6)) t += " : \"violated\"";
    return t + ";";
  }
  // ---- expressions
  struct Ref { S name; Kind k; int base; Dom d; };
  std::vector<Ref> scope(const std::vector<std::pair<S, int>>& v, bool times) {
    std::vector<Ref> r;
    for (auto& x : v) { const Type& t = T(x.second); r.push_back({x.first, t.k, t.base, t.d}); }
    if (times) for (const char* n : {"start", "end", "duration"}) r.push_back({n, INT, -1, ints(0, 8)});
    return r;
  }
  Ex var(const Ref& r) { Ex e; e.op = "var"; e.t = r.name; return e; }
  Ex litE(Kind k, double v) { Ex e; e.op = "lit"; e.t = lit(k, v); e.d.v.insert(v); return e; }
  static bool isTime(const S& n) {
    S l = n.substr(n.rfind('.') == S::npos ? 0 : n.rfind('.') + 1);
    return l == "start" || l == "end";
  }
  static int timepoints(const Ex& e) { return e.op == "var" && isTime(e.t) ? 1 : 0; }
  Ex arith(const std::vector<Ref>& refs, Kind k, int depth) {
    std::vector<Ref> c;
    for (auto& r : refs) if (r.k == k) c.push_back(r);
    if (depth < 2 && s.chance(1, 3)) {
      Ex e; e.op = s.oneof<const char*>({"+", "-", sets ? "+" : "*"});
      e.k.push_back(arith(refs, k, depth + 1));
      e.k.push_back(arith(refs, k, depth + 1));
      return e;
    }
    if (!c.empty() && s.chance(4, 5)) return var(s.pick(c));
    return litE(k, k == INT ? (double)s.draw(-3, 9) : s.draw(-8, 24) / 4.0);
  }
  static bool hasVar(const Ex& e) { if (e.op == "var") return true; for (auto& k : e.k) if (hasVar(k)) return true; return false; }
  static bool threeTimes(const Ex& e) {
    // x + y == z with three time points is refused by the language
    if (e.op != "==" ) return false;
    for (int i = 0; i < 2; i++) if ((e.k[i].op == "+" || e.k[i].op == "-") && timepoints(e.k[1 - i]) + timepoints(e.k[i].k[0]) + timepoints(e.k[i].k[1]) == 3) return true;
    return false;
  }
  Ex rel(const std::vector<Ref>& refs, bool top) {
    for (int tries = 0; tries < 12; tries++) {
      Ex e;
      static const char* OPS[] = {"==", "<=", "<", "!=", ">=", ">"};
      e.op = OPS[s.weighted({1, 4, 2, 3, 4, 2})];
      size_t w = s.weighted({5, 3, 3, 2, 2, 2, 1, 2});
      if (w == 0 || w == 1) {
        Kind k = w == 0 ? INT : FLT;
        bool have = false;
        for (auto& r : refs) have |= r.k == k;
        if (!have) continue;
        e.k.push_back(arith(refs, k, 0));
        e.k.push_back(arith(refs, k, 0));
        if (!hasVar(e) || threeTimes(e)) continue;
        if (k == FLT && (e.op == "<" || e.op == ">")) continue;  // x < x takes one step of the precision at a time
        return e;
      }
      if (w == 2) {  // a plain variable and a value, or a set at the top
        if (refs.empty()) continue;
        Ref r = s.pick(refs);
        if (r.k == OBJ) continue;
        if (r.k != INT && r.k != FLT) e.op = s.flip() ? "==" : "!=";
        e.k.push_back(var(r));
        if (top && e.op == "==" && s.chance(1, 2)) { auto d = domLit(r.k, r.d); Ex l; l.op = "lit"; l.t = d.first; l.d = d.second; e.k.push_back(l); }
        else e.k.push_back(litE(r.k, r.d.any(s)));
        return e;
      }
      if (w == 3 || w == 4) {  // two variables of the same kind
        std::vector<std::pair<size_t, size_t>> p;
        for (size_t i = 0; i < refs.size(); i++) for (size_t j = 0; j < refs.size(); j++)
          if (i != j && ((refs[i].k == refs[j].k && refs[i].base == refs[j].base && refs[i].k != INT && refs[i].k != FLT) || (w == 4 && refs[i].k == INT && refs[j].k == FLT))) p.push_back({i, j});
        if (p.empty()) continue;
        auto q = s.pick(p);
        if (refs[q.first].k != INT) e.op = s.flip() ? "==" : "!=";
        e.k.push_back(var(refs[q.first]));
        e.k.push_back(var(refs[q.second]));
        if (w == 4 && s.flip()) std::swap(e.k[0], e.k[1]);
        return e;
      }
      if (w == 5) {  // functions
        std::vector<Ref> c;
        for (auto& r : refs) if (r.k == FLT || r.k == INT) c.push_back(r);
        if (c.empty() || sets) continue;
        Ex f;
        f.op = s.oneof<const char*>({"fn:max", "fn:min", "fn:abs"});
        f.k.push_back(var(s.pick(c)));
        if (f.op != "fn:abs") { Ref r = s.pick(c); f.k.push_back(s.flip() ? var(r) : litE(r.k, r.k == INT ? (double)s.draw(-3, 9) : s.draw(-8, 24) / 4.0)); }
        e.k.push_back(f);
        e.k.push_back(litE(FLT, s.draw(-2, 9)));
          if (s.chance(1, 4)) std::swap(e.k[0], e.k[1]);
        return e;
      }
      if (w == 6) {  // flags
        std::vector<Ref> c;
        for (auto& r : refs) if (r.k == BOOL) c.push_back(r);
        if (c.empty()) continue;
        return var(s.pick(c));
      }
      if (w == 7) {  // objects by name
        std::vector<Ref> c;
        for (auto& r : refs) if (r.k == OBJ && r.name != "object") c.push_back(r);
        if (c.empty() || !closed) continue;
        Ref r = s.pick(c);
        Dom d = objectsOf(r.base);
        std::vector<double> byName;
        for (double v : d.v) if (glob.count(objs[(size_t)v].name)) byName.push_back(v);
        if (byName.empty()) continue;
        e.op = s.flip() ? "==" : "!=";
        e.k.push_back(var(r));
        e.k.push_back(litE(OBJ, s.pick(byName)));
        return e;
      }
    }
    Ex e; e.op = "<="; e.k.push_back(litE(INT, 1)); e.k.push_back(litE(INT, 2));
    return e;
  }
  Ex boolean(const std::vector<Ref>& refs, int depth, bool top) {
    if (depth < 2 && s.chance(top ? 1 : 2, 4)) {
      Ex e; e.op = s.oneof<const char*>({"||", "&&", "==", "!="});
      e.k.push_back(boolean(refs, depth + 1, false));
      e.k.push_back(boolean(refs, depth + 1, false));
      if (e.op == "==" || e.op == "!=") for (auto& k : e.k) if (k.op == "lit") return boolean(refs, depth + 1, top);
      return e;
    }
    return rel(refs, top);
  }
  Ex cond(const std::vector<Ref>& refs) {
    if (s.chance(2, 3)) {
      Ex e = boolean(refs, 0, true);
      return e;
    }
    // a constraint by name
    std::vector<Ref> c;
    Kind k = s.chance(2, 3) ? INT : FLT;
    for (auto& r : refs) if (r.k == k) c.push_back(r);
    if (c.empty()) return rel(refs, true);
    Ex e;
    auto arg = [&](int pc) { return s.chance(pc, 5) ? var(s.pick(c)) : litE(k, k == INT ? (double)s.draw(-3, 9) : s.draw(-8, 24) / 4.0); };
    size_t w = s.weighted({1, 2, 2, 2, 2, 1, 2, 1});
    static const char* N[] = {"eq", "neq", "lt", "leq", "addEq", "mulEq", "eqSum", "allDiff"};
    if (s.flip()) w = 1 + 2 * (w % 2);
    e.op = S("con:") + N[w];
    size_t n = w < 4 ? 2 : w < 6 ? 3 : (size_t)s.draw(3, 4);
    for (size_t i = 0; i < n; i++) e.k.push_back(arg(4));
    if (w == 7) for (size_t i = 0; i < n; i++) for (size_t j = 0; j < i; j++) if (text2(e.k[i]) == text2(e.k[j])) return rel(refs, true);
    if (w == 7 && k == FLT) return rel(refs, true);
    if (w == 2 && k == FLT) return rel(refs, true);
    if (w == 5 && sets) return rel(refs, true);
    return e;
  }

  // ---- meaning of expressions
  double val(const Ex& e, const Asg& a, const Env2& env) const {
    if (e.op == "var") return look(env(e.t), a);
    if (e.op == "lit") return e.d.fin ? *e.d.v.begin() : e.d.lo;
    std::vector<double> v;
    if ((e.op == "==") && e.k[1].op == "lit" && !e.k[1].d.single()) return e.k[1].d.has(val(e.k[0], a, env));
    for (auto& k : e.k) v.push_back(val(k, a, env));
    const S& o = e.op;
    if (o == "+") return v[0] + v[1];
    if (o == "-") return v[0] - v[1];
    if (o == "*") return v[0] * v[1];
    if (o == "==" || o == "con:eq") return v[0] == v[1];
    if (o == "!=" || o == "con:neq") return v[0] != v[1];
    if (o == "<" || o == "con:lt") return v[0] < v[1];
    if (o == "<=" || o == "con:leq") return v[0] <= v[1];
    if (o == ">") return v[0] > v[1];
    if (o == ">=") return v[0] >= v[1];
    if (o == "&&") return v[0] != 0 && v[1] != 0;
    if (o == "||") return v[0] != 0 || v[1] != 0;
    if (o == "fn:max") return std::max(v[0], v[1]);
    if (o == "fn:min") return std::min(v[0], v[1]);
    if (o == "fn:abs") return std::fabs(v[0]);
    if (o == "con:addEq") return v[0] + v[1] == v[2];
    if (o == "con:mulEq") return v[0] * v[1] == v[2];
    if (o == "con:eqSum") { double t = 0; for (size_t i = 1; i < v.size(); i++) t += v[i]; return v[0] == t; }
    if (o == "con:allDiff") { std::set<double> q(v.begin(), v.end()); return q.size() == v.size(); }
    return 0;
  }
  // A negative number stands for a field of whatever object a variable has.
  struct Proxy { int obj; S mem; };
  std::vector<Proxy> proxies;
  double look(int i, const Asg& a) const {
    if (i >= 0) return a[(size_t)i];
    const Proxy& p = proxies[(size_t)(-i - 1)];
    return a[(size_t)objs[(size_t)a[(size_t)p.obj]].mem.at(p.mem)];
  }
  void refsOf(const Ex& e, const Env2& env, std::vector<int>& out) const {
    if (e.op == "var") {
      int i = env(e.t);
      if (i >= 0) out.push_back(i);
      else {
        const Proxy& p = proxies[(size_t)(-i - 1)];
        out.push_back(p.obj);
        for (double o : vars[(size_t)p.obj].d.v) out.push_back(objs[(size_t)o].mem.at(p.mem));
      }
    } for (auto& k : e.k) refsOf(k, env, out); }
  void post(const Ex& e, Env2 env) {
    Con c;
    refsOf(e, env, c.vars);
    for (int v : c.vars) touched.insert(v);
    c.text = text2(e);
    const Prog* me = this;
    c.f = [e, env, me](const Asg& a) { return me->val(e, a, env) != 0; };
    cons.push_back(c);
  }

  // ---- execution in the model
  int newVar(const S& owner, const S& name, const Type& t, const Dom& d) {
    MVar v; v.owner = owner; v.name = name; v.k = t.k; v.base = t.base; v.d = d;
    vars.push_back(v);
    return (int)vars.size() - 1;
  }
  struct Bound { int type; Dom d; };
  typedef std::map<S, Bound> Args;
  Dom typeDom(const Type& t) const { return t.k == OBJ ? objectsOf(t.base) : t.d; }
  int construct(int c, int ctor, const std::vector<Dom>& args, const S& name) {
    int o = (int)objs.size();
    objs.push_back({name, c, {}, -1});
    runCtor(o, c, ctor, args);
    return o;
  }
  Dom evalInit(const Init& in, const Args& a, int o, const S& target, std::map<S, Dom>& mem) {
    if (in.k == Init::LIT) return in.d;
    if (in.k == Init::ARG) return a.at(in.t).d;
    if (in.k == Init::MEMBER) return mem.at(in.t);
    std::vector<Dom> args;
    for (auto& x : in.args) args.push_back(evalInit(x, a, o, "", mem));
    S name = objs[(size_t)o].name + "." + target;
    int n = construct(in.cls, in.ctor, args, name);
    objs[(size_t)n].parent = o;
    Dom d; d.v.insert(n);
    return d;
  }
  std::map<int, std::map<S, Dom>> memDom;
  void runCtor(int o, int c, int ctor, const std::vector<Dom>& args) {
    Class C = cls[(size_t)c];
    Args a;
    if (ctor >= 0) {
      Ctor& k = C.ctors[(size_t)ctor];
      for (size_t i = 0; i < k.args.size(); i++) a[k.args[i].name] = {k.args[i].type, args[i]};
      if (C.parent >= 0) {
        std::vector<Dom> sa;
        for (auto& x : k.super) sa.push_back(evalInit(x, a, o, "", memDom[o]));
        runCtor(o, C.parent, k.superCtor, sa);
      }
      for (auto& b : k.body) {
        int type = -1;
        for (auto& m : C.mem) if (m.name == b.first) type = m.type;
        Dom d = evalInit(b.second, a, o, b.first, memDom[o]);
        if (T(type).k != OBJ) d = meet(d, T(type).d);
        memDom[o][b.first] = d;
        objs[(size_t)o].mem[b.first] = newVar(objs[(size_t)o].name, b.first, T(type), d);
      }
    }
    for (auto& m : C.mem) if (!memDom[o].count(m.name)) {
      Dom d = typeDom(T(m.type));
      memDom[o][m.name] = d;
      if (T(m.type).k == OBJ) continue;
      objs[(size_t)o].mem[m.name] = newVar(objs[(size_t)o].name, m.name, T(m.type), d);
    }
  }

  // ---- global declarations and what follows
  std::vector<S> vis;  // readable names at the top level, in order of declaration
  std::map<S, int> top;
  std::set<int> fixedVar;
  std::map<int, double> specified;
  std::vector<Ref> topRefs() const {
    std::vector<Ref> r;
    for (auto& n : vis) { const MVar& v = vars[(size_t)top.at(n)]; r.push_back({n, v.k, v.base, v.d}); }
    return r;
  }
  Env2 topEnv() const { std::map<S, int> m = top; return [m](const S& n) { return m.at(n); }; }
  void expose(const S& n, int v) { vis.push_back(n); top[n] = v; }
  // members of the class an object is declared to be of
  void exposeMembers(int o, const std::set<S>& hidden) { for (auto& m : objs[(size_t)o].mem) if (m.second >= 0 && !hiddenPath(objs[(size_t)o].name + "." + m.first, hidden)) expose(objs[(size_t)o].name + "." + m.first, m.second); }
  static bool hiddenPath(const S& path, const std::set<S>& hidden) {
    std::istringstream is(path); S x; bool r = false;
    while (std::getline(is, x, '.')) r |= hidden.count(x) > 0;
    return r;
  }
  std::set<S> use(const S& t) const { return names(t); }
  bool argument(int type, S& text, Dom& d) {
    const Type ty = T(type);
    std::vector<int> c;
    for (auto& n : vis) { int v = top[n]; if (vars[(size_t)v].k == ty.k && n.find('.') == S::npos && vars[(size_t)v].d.single() && !touched.count(v) && !meet(vars[(size_t)v].d, ty.k == OBJ ? objectsOf(ty.base) : ty.d).empty()) c.push_back(v); }
    if (!c.empty() && (ty.k == OBJ || (ty.k != ENUM && s.chance(1, 2)))) { MVar& v = vars[(size_t)s.pick(c)]; text = v.owner.empty() ? v.name : v.owner + "." + v.name; d = v.d; return true; }
    if (ty.k == OBJ) return false;
    auto l = argLit(ty.k, ty.d);
    text = l.first; d = l.second;
    return true;
  }
  std::vector<int> ancestry(int o) const { std::vector<int> r; for (; o >= 0; o = objs[(size_t)o].parent) r.push_back(objs[(size_t)o].cls); return r; }
  void genObject() {
    std::vector<int> c;
    for (size_t i = 0; i < cls.size(); i++) if (!cls[i].ctors.empty()) c.push_back((int)i);
    if (c.empty()) throw Discard();
    // Classes without objects first.
    std::vector<int> without;
    for (int i : c) if (objectsOf(i).empty()) without.push_back(i);
    int k = !without.empty() && s.chance(3, 4) ? without[0] : s.pick(c);
    int ct = (int)s.idx(cls[(size_t)k].ctors.size());
    S args;
    std::vector<Dom> ds;
    for (auto& a : cls[(size_t)k].ctors[(size_t)ct].args) {
      S t; Dom d;
      if (!argument(a.type, t, d)) return;
      args += (ds.empty() ? "" : ", ") + t;
      ds.push_back(d);
    }
    S n = fresh("ob");
    int decl = k;
    while (cls[(size_t)decl].parent >= 0 && s.chance(1, 4)) decl = cls[(size_t)decl].parent;
    S t = cls[(size_t)decl].name + " " + n + (s.chance(1, 6) ? "(new " + cls[(size_t)k].name + "(" + args + "));" : " = new " + cls[(size_t)k].name + "(" + args + ");");
    int o = construct(k, ct, ds, n);
    Dom d; d.v.insert(o);
    Type ty{cls[(size_t)decl].name, OBJ, decl, d};
    glob[n] = newVar("", n, ty, d);
    expose(n, glob[n]);
    std::set<S> hidden;
    for (int i = k; i != decl; i = cls[(size_t)i].parent) for (auto& m : cls[(size_t)i].mem) hidden.insert(m.name);
    for (size_t i = (size_t)o + 1; i < objs.size(); i++) {
      std::vector<Member> mem;
      allMembers(objs[(size_t)o].cls, mem);
      for (int q : ancestry(objs[i].parent)) allMembers(q, mem);
      for (auto& m : mem) if (T(m.type).k == OBJ && m.name == objs[i].name.substr(objs[i].name.rfind('.') + 1))
        for (int q = objs[i].cls; q >= 0 && q != T(m.type).base; q = cls[(size_t)q].parent) for (auto& h : cls[(size_t)q].mem) hidden.insert(h.name);
    }
    for (size_t i = (size_t)o; i < objs.size(); i++) exposeMembers((int)i, hidden);
    std::set<S> u = use(t);
    u.erase(n);
    addStmt(t, 2, {n}, u);
  }
  std::vector<int> open;
  void genVar() {
    bool bare = s.chance(1, 3);
    int ti = (int)s.idx(types.size());
    if (bare) ti = bounded(ti);
    const Type ty = T(ti);
    S t = ty.name + " ";
    std::set<S> dn;
    std::vector<std::pair<S, int>> made;
    for (int i = 0; i == 0 || (i < 3 && s.chance(1, 4)); i++) {
      S n = fresh("va"), in;
      Dom d = typeDom(ty);
      if (ty.k == OBJ && d.empty()) break;
      size_t w = bare ? 0 : s.weighted({0, 2, 1, ty.k == OBJ ? 0 : 1});
      bool op = false;
      if (w == 0) op = ty.k == OBJ;
      else if (ty.k == OBJ || w == 3) {
        std::vector<S> c;
        for (auto& x : vis) { MVar& v = vars[(size_t)top[x]]; if (v.k == ty.k && (ty.k != OBJ || v.d.single()) && !touched.count(top[x]) && !meet(v.d, d).empty() && std::find(open.begin(), open.end(), top[x]) == open.end()) c.push_back(x); }
        if (c.empty()) { if (ty.k != OBJ) break; op = true; } else { in = s.pick(c); d = meet(d, vars[(size_t)top[in]].d); }
      } else { auto l = domLit(ty.k, d); in = l.first; d = meet(d, l.second); }
      t += (i ? ", " : "") + n + (in.empty() ? S() : s.chance(1, 3) ? "(" + in + ")" : " = " + in);
      int v = newVar("", n, ty, d);
      made.push_back({n, v});
      if (op) open.push_back(v);
      dn.insert(n);
    }
    if (made.empty()) return;
    for (auto& m : made) { glob[m.first] = m.second; expose(m.first, m.second); }
    std::set<S> u = use(t);
    for (auto& n : dn) u.erase(n);
    addStmt(t + ";", 2, dn, u);
  }
  void genAssign() {
    std::vector<S> c;
    for (auto& n : vis) if (vars[(size_t)top[n]].k != OBJ && !fixedVar.count(top[n])) c.push_back(n);
    if (c.empty()) return;
    S n = s.pick(c);
    MVar& v = vars[(size_t)top[n]];
    auto l = narrowing(v.k, v.d);
    S t = n + (s.flip() ? " = " : " in ") + l.first + ";";
    v.d = meet(v.d, l.second);
    addStmt(t, 2, {}, use(t));
  }
  void close() {
    closed = true;
    for (int v : open) { vars[(size_t)v].d = objectsOf(vars[(size_t)v].base); }
    addStmt("close();", 3);
  }
  std::vector<S> classesWith() {
    std::vector<S> r;
    for (size_t i = 0; i < cls.size(); i++) { std::vector<S> p; preds((int)i, p); if (!p.empty() && !objectsOf((int)i).empty()) for (auto& x : p) r.push_back(num((long)i) + "." + x); }
    return r;
  }
  void paramRefs(int c, const S& p, const S& prefix, std::vector<Ref>& r) {
    std::vector<Param> ps;
    params(c, p, ps);
    for (auto& q : ps) if (q.name != "tag") { const Type& t = T(q.type); r.push_back({prefix + q.name, t.k, t.base, q.init ? q.d : t.d}); }
    for (const char* n : {"start", "end", "duration"}) r.push_back({prefix + n, INT, -1, ints(0, 8)});
  }
  static const char* relation(Src& s) {
    return s.oneof<const char*>({"any", "meets", "met_by", "before", "after", "contains", "contained_by", "starts", "ends", "equals", "equal", "parallels", "paralleled_by", "ends_after", "ends_before",
                                 "ends_after_start", "starts_before_end", "starts_during", "ends_during", "contains_start", "contains_end", "starts_after", "starts_before"});
  }
  void genRule() {
    std::vector<S> cw = classesWith();
    if (cw.empty()) return;
    S w = s.pick(cw);
    RuleD r;
    r.cls = atoi(w.c_str()); r.pred = w.substr(w.find('.') + 1);
    S o = cls[(size_t)r.cls].name + "::" + r.pred + " {\n";
    std::vector<Ref> refs;
    paramRefs(r.cls, r.pred, "", refs);
    std::vector<Member> mem;
    allMembers(r.cls, mem);
    for (auto& m : mem) if (T(m.type).k != OBJ && ((T(m.type).k != INT && T(m.type).k != FLT) || sets)) {
      // The fields of whatever object it is are known when they have one value each; they make a set.
      bool known = true;
      for (double ob : objectsOf(r.cls).v) { auto f = objs[(size_t)ob].mem.find(m.name); known &= f != objs[(size_t)ob].mem.end() && f->second >= 0 && vars[(size_t)f->second].d.single(); }
      if (!known) continue;
      const Type& t = T(m.type); refs.push_back({"object." + m.name, t.k, t.base, t.d}); }
    for (auto& n : vis) if (n.find('.') == S::npos && vars[(size_t)top[n]].k != OBJ && s.chance(1, 3)) { MVar& v = vars[(size_t)top[n]]; refs.push_back({n, v.k, v.base, v.d}); }
    std::vector<S> subs;
    for (int i = 0; i == 0 || (i < 6 && s.chance(3, 4)); i++) {
      RuleSt st;
      size_t k = s.weighted({3, 1, 3, 2});
      if (k == 3 && subs.empty()) k = 2;
      if (k == 2 && tag > 12) k = 0;
      st.k = (RuleSt::K)k;
      if (k == 0) { st.e = cond(refs); o += "  " + stmt(st.e) + "\n"; }
      if (k == 1) {
        st.local = {fresh("loc"), 0};
        st.local.type = (int)s.idx(types.size());
        if (T(st.local.type).k == OBJ) st.local.type = 0;
        const Type& t = T(st.local.type);
        st.d = t.d;
        st.init = s.flip() || st.local.type < 2;
        if (st.init) { auto l = domLit(t.k, t.d); st.t = l.first; st.d = meet(st.d, l.second); }
        o += "  " + t.name + " " + st.local.name + (st.init ? (s.flip() ? " = " + st.t : "(" + st.t + ")") : S()) + ";\n";
        refs.push_back({st.local.name, t.k, t.base, st.d});
      }
      if (k == 2) {
        st.rel = relation(s);
        bool other = !subs.empty() && s.chance(1, 4);
        if (other) st.src = s.pick(subs);
        o += "  " + (other ? st.src + " " : s.chance(1, 8) ? S("this ") : S()) + st.rel + "(";
        for (int j = 0; j < 2; j++) {
          if (j == 1 && !s.chance(1, 4)) break;
          S n = fresh("sub"), form;
          int c; S p;
          if (s.flip()) { S x = s.pick(cw); c = atoi(x.c_str()); p = x.substr(x.find('.') + 1); form = cls[(size_t)c].name + "."; }
          else { std::vector<S> ps; preds(r.cls, ps); c = -1; p = s.pick(ps); form = s.flip() ? "object." : ""; }
          o += (j ? ", " : "") + S(s.chance(1, 8) ? "effect " : "") + form + p + " " + n;
          int tg = ++tag;
          if (j == 0) { st.cls = c; st.pred = p; st.dst = n; st.tag = tg; st.form = form; }
          else { st.extra = n; st.xcls = c; st.xtag = tg; st.t = p; }
        }
        o += ");\n  eq(" + st.dst + ".tag, " + num(st.tag) + ");\n";
        if (!st.extra.empty()) o += "  eq(" + st.extra + ".tag, " + num(st.xtag) + ");\n";
        subs.push_back(st.dst);
        paramRefs(st.cls < 0 ? r.cls : st.cls, st.pred, st.dst + ".", refs);
        if (!st.extra.empty()) { subs.push_back(st.extra); paramRefs(st.xcls < 0 ? r.cls : st.xcls, st.t, st.extra + ".", refs); }
      }
      if (k == 3) {
        st.rel = relation(s);
        st.dst = s.pick(subs);
        if (s.flip()) st.src = s.pick(subs);
        if (st.src == st.dst) st.src = "";
        o += "  " + (st.src.empty() ? S() : st.src + " ") + st.rel + " " + (s.flip() ? st.dst : "(" + S() + st.dst + ")") + ";\n";
        // a token in parentheses would be a new one
        size_t at = o.rfind("(" + st.dst + ")");
        if (at != S::npos && at + st.dst.size() + 4 >= o.size()) { o.erase(at, 1); o.erase(o.rfind(")"), 1); }
      }
      r.body.push_back(st);
    }
    o += "}";
    rules.push_back(r);
    addStmt(o, 4, {}, use(o));
  }
  int newToken(const S& name, int c, const S& pred, char kind, int obj) {
    MTok t; t.name = name; t.cls = c; t.pred = pred; t.kind = kind;
    S own = "#" + num((long)toks.size());
    Dom d = objectsOf(c);
    if (obj >= 0) { d.v.clear(); d.v.insert(obj); }
    if (d.empty()) throw Discard();
    t.var["object"] = newVar(own, "object", Type{cls[(size_t)c].name, OBJ, c, d}, d);
    Dom tm = ints(0, 9), du = ints(1, 9);
    tm.whole = du.whole = true;
    for (const char* n : {"start", "end"}) t.var[n] = newVar(own, n, T(0), tm);
    t.var["duration"] = newVar(own, "duration", T(0), du);
    int a = t.var["start"], b = t.var["end"], x = t.var["duration"];
    Con k; k.vars = {a, b, x}; k.text = "start + duration == end of " + name;
    k.f = [a, b, x](const Asg& v) { return v[(size_t)a] + v[(size_t)x] == v[(size_t)b]; };
    cons.push_back(k);
    std::vector<Param> ps;
    params(c, pred, ps);
    for (auto& p : ps) {
      Dom pd = typeDom(T(p.type));
      if (p.init) pd = meet(pd, p.d);
      if (pd.empty()) throw Discard();
      t.var[p.name] = newVar(own, p.name, T(p.type), pd);
    }
    std::map<S, int> m = t.var;
    Env2 env = [m](const S& n) { return m.at(n); };
    for (int i = c; i >= 0; i = cls[(size_t)i].parent)
      for (auto& p : cls[(size_t)i].preds) if (p.name == pred) {
        for (auto& r : p.restr) { Dom& vd = vars[(size_t)t.var[r.name]].d; vd = meet(vd, r.d); if (vd.empty()) throw Discard(); }
        for (auto& e : p.cond) post(e, env);
      }
    toks.push_back(t);
    return (int)toks.size() - 1;
  }
  void genToken() {
    std::vector<S> cw = classesWith();
    if (cw.empty()) return;
    S kind = s.oneof<const char*>({"goal", "goal", "fact", "rejectable"});
    S t = kind + "(";
    for (int j = 0; j == 0 || (j < 3 && s.chance(1, 4)); j++) {
      S x = s.pick(cw);
      int c = atoi(x.c_str()), obj = -1;
      S p = x.substr(x.find('.') + 1), form = cls[(size_t)c].name;
      Dom d = objectsOf(c);
      std::vector<int> named;
      for (double o : d.v) if (glob.count(objs[(size_t)o].name)) {
        if (vars[(size_t)glob[objs[(size_t)o].name]].base == objs[(size_t)o].cls) named.push_back((int)o);
      }
      if (!named.empty() && s.flip()) { obj = s.pick(named); form = objs[(size_t)obj].name; c = objs[(size_t)obj].cls; }
      S n = fresh("tok");
      int k = newToken(n, c, p, kind[0], obj);
      for (auto& v : toks[(size_t)k].var) if (v.first != "tag") expose(n + "." + v.first, v.second);
      t += (j ? ", " : "") + form + "." + p + " " + n;
    }
    t += ");";
    std::set<S> u = use(t), dn;
    for (auto& k : toks) if (u.count(k.name)) { dn.insert(k.name); u.erase(k.name); }
    addStmt(t, 5, dn, u);
  }
  void timeRel(const char* kind, int a, int b, int strict) {  // kind: which ends
    Con c; c.vars = {a, b}; c.text = kind;
    if (strict == 2) c.f = [a, b](const Asg& v) { return v[(size_t)a] == v[(size_t)b]; };
    else c.f = [a, b, strict](const Asg& v) { return v[(size_t)a] + strict <= v[(size_t)b]; };
    cons.push_back(c);
    touched.insert(a); touched.insert(b);
  }
  void relate(const S& r, int oi, int ti) {
    int os = toks[(size_t)oi].var["start"], oe = toks[(size_t)oi].var["end"], ts = toks[(size_t)ti].var["start"], te = toks[(size_t)ti].var["end"];
    const char* n = "a relation";
    auto le = [&](int a, int b) { timeRel(n, a, b, 0); };
    auto lt = [&](int a, int b) { timeRel(n, a, b, 1); };
    auto eq = [&](int a, int b) { timeRel(n, a, b, 2); };
    if (r == "meets") eq(oe, ts);
    else if (r == "met_by") eq(te, os);
    else if (r == "before") le(oe, ts);
    else if (r == "after") le(te, os);
    else if (r == "contains") { le(os, ts); le(te, oe); }
    else if (r == "contained_by") { le(ts, os); le(oe, te); }
    else if (r == "starts") eq(os, ts);
    else if (r == "ends") eq(oe, te);
    else if (r == "equals" || r == "equal") { eq(os, ts); eq(oe, te); }
    else if (r == "parallels") { le(os, ts); le(oe, te); }
    else if (r == "paralleled_by") { le(ts, os); le(te, oe); }
    else if (r == "ends_after") lt(te, oe);
    else if (r == "ends_before") lt(oe, te);
    else if (r == "ends_after_start") lt(ts, oe);
    else if (r == "starts_before_end") lt(os, te);
    else if (r == "starts_during") { le(ts, os); lt(os, te); }
    else if (r == "ends_during") { lt(ts, oe); le(oe, te); }
    else if (r == "contains_start") { le(os, ts); lt(ts, oe); }
    else if (r == "contains_end") { lt(os, te); le(te, oe); }
    else if (r == "starts_after") lt(ts, os);
    else if (r == "starts_before") lt(os, ts);
    else REQUIRE(r == "any", "model: " << r);
  }
  void activate(int ti) {
    toks[(size_t)ti].active = true;
    for (auto& r : rules) if (r.pred == toks[(size_t)ti].pred && isA(toks[(size_t)ti].cls, r.cls)) fire(ti, r);
  }
  void fire(int ti, const RuleD& r) {
    std::map<S, int> loc, sub;
    auto env = [&]() -> Env2 {
      std::map<S, int> m;
      for (auto& n : vis) if (n.find('.') == S::npos) m[n] = top[n];
      for (auto& v : toks[(size_t)ti].var) m[v.first] = v.second;
      for (auto& l : loc) m[l.first] = l.second;
      for (auto& k : sub) for (auto& v : toks[(size_t)k.second].var) m[k.first + "." + v.first] = v.second;
      std::vector<Member> mem;
      allMembers(r.cls, mem);
      for (auto& x : mem) if (T(x.type).k != OBJ) { proxies.push_back({toks[(size_t)ti].var["object"], x.name}); m["object." + x.name] = -(int)proxies.size(); }
      return [m](const S& n) { return m.at(n); };
    };
    for (auto& st : r.body) {
      if (st.k == RuleSt::COND) post(st.e, env());
      if (st.k == RuleSt::LOCAL) { loc[st.local.name] = newVar("#" + num(ti), st.local.name, T(st.local.type), st.d); toks[(size_t)ti].env[st.local.name] = loc[st.local.name]; }
      if (st.k == RuleSt::SUB) {
        int origin = st.src.empty() ? ti : sub.at(st.src);
        for (int j = 0; j < (st.extra.empty() ? 1 : 2); j++) {
          int c = j ? st.xcls : st.cls;
          bool bound = c < 0;
          if (bound) c = toks[(size_t)ti].cls;
          int k = newToken("", c, j ? st.t : st.pred, 's', -1);
          toks[(size_t)k].master = ti; toks[(size_t)k].tag = j ? st.xtag : st.tag; toks[(size_t)k].rel = st.rel;
          if (bound) { int a = toks[(size_t)k].var["object"], b = toks[(size_t)ti].var["object"]; timeRel("same object", a, b, 2); }
          sub[j ? st.extra : st.dst] = k;
          relate(st.rel, origin, k);
          Con t; int tv = toks[(size_t)k].var["tag"], n = toks[(size_t)k].tag; t.vars = {tv}; t.text = "tag";
          t.f = [tv, n](const Asg& v) { return v[(size_t)tv] == n; };
          cons.push_back(t);
          fix(tv, n);
        }
      }
      if (st.k == RuleSt::REL) relate(st.rel, st.src.empty() ? ti : sub.at(st.src), sub.at(st.dst));
    }
  }
  void fix(int v, double x) { specified[v] = x; }
  void genAction() {
    std::vector<int> tk;
    for (size_t i = 0; i < toks.size(); i++) if (!toks[i].name.empty()) tk.push_back((int)i);
    size_t w = s.weighted({6, tk.empty() ? 0 : 2, tk.size() < 2 ? 0 : 2, 2});
    if (w == 0) {
      Ex e = cond(topRefs());
      S t = stmt(e);
      post(e, topEnv());
      addStmt(t, 6, {}, use(t));
    }
    if (w == 1) {
      int k = s.pick(tk);
      MTok& t = toks[(size_t)k];
      if (t.active || t.rejected) return;
      if (t.kind == 'r' && s.flip()) { t.rejected = true; S x = t.name + ".reject();"; addStmt(x, 6, {}, use(x)); return; }
      S x = t.name + ".activate();";
      addStmt(x, 6, {}, use(x));
      activate(k);
    }
    if (w == 2) {
      int a = s.pick(tk), b = s.pick(tk);
      if (a == b) return;
      S r = relation(s), t = toks[(size_t)a].name + " " + r + " " + toks[(size_t)b].name + ";";
      relate(r, a, b);
      addStmt(t, 6, {}, use(t));
    }
    if (w == 3) {
      std::vector<S> c;
      for (auto& n : vis) { int v = top[n]; if (!specified.count(v) && vars[(size_t)v].d.fin && !vars[(size_t)v].d.single() && vars[(size_t)v].k != STR) c.push_back(n); }
      if (c.empty()) return;
      S n = s.pick(c);
      MVar& v = vars[(size_t)top[n]];
      double x = v.d.any(s);
      if (v.k == OBJ && !glob.count(objs[(size_t)x].name)) return;
      S t = n + ".specify(" + lit(v.k, x) + ");";
      addStmt(t, 6, {}, use(t));
      if (s.chance(1, 6)) { S u = n + ".reset();"; addStmt(u, 6, {}, use(u)); return; }
      fix(top[n], x);
      touched.insert(top[n]);
    }
  }
  void generate() {
    sets = s.flip();
    genTypes();
    long nc = s.draw(1, 3);
    for (long i = 0; i < nc; i++) genClass();
    for (int i = 0; i < 2 || (i < 7 && s.chance(3, 4)); i++) { size_t w = s.weighted({4, 4, 1}); if (w == 0) genObject(); else if (w == 1) genVar(); else genAssign(); }
    bool any = false;
    for (size_t i = 0; i < cls.size(); i++) any |= !objectsOf((int)i).empty();
    if (!any) genObject();
    close();
    for (int i = 0; i < 3 && s.chance(1, 2); i++) genRule();
    for (int i = 0; i < 3 && s.chance(2, 3); i++) genToken();
    for (int i = 0; i < 8 && s.chance(5, 6); i++) genAction();
  }

  // ---- search for a complete assignment
  Asg asg;
  int bad(const Asg& a) const { int n = 0; for (auto& c : cons) n += !c.f(a); return n; }
  bool search() {
    asg.assign(vars.size(), 0);
    std::vector<std::vector<size_t>> of(vars.size());
    for (size_t i = 0; i < cons.size(); i++) for (int v : cons[i].vars) of[(size_t)v].push_back(i);
    for (size_t i = 0; i < vars.size(); i++) asg[i] = specified.count((int)i) ? specified[(int)i] : vars[i].d.any(s);
    for (int it = 0; it < 400; it++) {
      std::vector<size_t> viol;
      for (size_t i = 0; i < cons.size(); i++) if (!cons[i].f(asg)) viol.push_back(i);
      if (viol.empty()) return true;
      const Con& c = cons[viol[(size_t)it * 7 % viol.size()]];
      size_t best = 0; double bv = 0; int bs = 1 << 30;
      for (int tr = 0; tr < 10; tr++) {
        if (c.vars.empty()) return false;
        int v = c.vars[(size_t)(it * 3 + tr) % c.vars.size()];
        if (specified.count(v)) continue;
        double old = asg[(size_t)v], nv = vars[(size_t)v].d.any(s);
        if (nv == old) continue;
        asg[(size_t)v] = nv;
        int sc = 0;
        for (size_t k : of[(size_t)v]) sc += !cons[k].f(asg);
        asg[(size_t)v] = old;
        int before = 0;
        for (size_t k : of[(size_t)v]) before += !cons[k].f(asg);
        if (sc - before < bs) { bs = sc - before; best = (size_t)v; bv = nv; }
      }
      if (bs < 1 << 30 && (bs <= 0 || it % 5 == 0)) asg[best] = bv;
    }
    return bad(asg) == 0;
  }
  S show(int v) const { const MVar& x = vars[(size_t)v]; return (x.owner.empty() ? "" : x.owner + ".") + x.name; }
};

// ---- comparing an engine with the model
typedef std::map<S, S> Names;
S mapped(const S& t, const Names& n) {
  S r;
  for (size_t i = 0; i < t.size();) {
    if (isalpha((unsigned char)t[i])) { size_t j = i; while (j < t.size() && (isalnum((unsigned char)t[j]) || t[j] == '_')) j++; S w = t.substr(i, j - i); auto it = n.find(w); r += it == n.end() ? w : it->second; i = j; } else r += t[i++];
  }
  return r;
}
struct Judge {
  const Prog& p; nddl::Env& e; Names n;  // names as spelled in this program
  std::vector<ObjectId> obj;
  std::vector<TokenId> tok;
  std::vector<ConstrainedVariableId> var;
  Judge(const Prog& p_, nddl::Env& e_, const Names& n_) : p(p_), e(e_), n(n_) {}
  S nm(const S& t) const { return mapped(t, n); }
  edouble value(const MVar& v, double x) const {
    switch (v.k) {
      case ENUM: return edouble(cast_double(edouble(LabelStr(nm(p.symbols[(size_t)x])))));
      case STR: return edouble(cast_double(edouble(LabelStr(p.strings[(size_t)x]))));
      case OBJ: return edouble(obj[(size_t)x]->getKey());
      default: return edouble(x);
    }
  }
  void base(const MVar& v, const ConstrainedVariableId& c, const S& what) {
    const Domain& b = c->baseDomain();
    if (v.d.whole) {
      if (v.k == STR) return;
      if (v.name == "duration") { REQUIRE(b.getLowerBound() == 1, "the base domain of " << what << " is " << b.toString()); return; }
      REQUIRE(b.getLowerBound() == MINUS_INFINITY && b.getUpperBound() == PLUS_INFINITY, "the base domain of " << what << " is " << b.toString() << " instead of all");
      return;
    }
    if (!v.d.fin) { REQUIRE(b.getLowerBound() == v.d.lo && b.getUpperBound() == v.d.hi, "the base domain of " << what << " is " << b.toString() << " instead of [" << v.d.lo << " " << v.d.hi << "]"); return; }
    std::ostringstream want;
    for (double x : v.d.v) want << " " << nm(p.lit(v.k, x));
    for (double x : v.d.v) REQUIRE(b.isMember(value(v, x)), "the base domain of " << what << " is " << b.toString() << " instead of" << want.str());
    REQUIRE(b.isFinite() && b.getSize() == v.d.v.size(), "the base domain of " << what << " is " << b.toString() << " instead of" << want.str());
  }
  void structure() {
    REQUIRE(e.db().getObjects().size() == p.objs.size(), e.db().getObjects().size() << " objects instead of " << p.objs.size());
    for (auto& o : p.objs) {
      ObjectId id = e.db().getObject(nm(o.name));
      REQUIRE(id.isId(), "there is no object " << nm(o.name));
      REQUIRE(id->getType() == nm(p.cls[(size_t)o.cls].name), "object " << nm(o.name) << " is a " << id->getType());
      obj.push_back(id);
    }
    // tokens: by name, subgoals by master and tag
    std::vector<TokenId> ids;
    for (auto& t : e.db().getTokens()) ids.push_back(t);
    REQUIRE(ids.size() == p.toks.size(), ids.size() << " tokens instead of " << p.toks.size());
    for (auto& t : p.toks) {
      TokenId f;
      for (auto& i : ids) {
        if (t.master < 0) { if (i->master().isNoId() && i->getName() == nm(t.name)) f = i; continue; }
        if (i->master() != tok[(size_t)t.master]) continue;
        const Domain& d = i->getVariable("tag")->lastDomain();
        if (d.isSingleton() && d.getSingletonValue() == t.tag && std::find(tok.begin(), tok.end(), i) == tok.end()) f = i;
      }
      S what = t.master < 0 ? "token " + nm(t.name) : "subgoal " + num(t.tag) + " of token " + num(t.master);
      REQUIRE(f.isId(), "there is no " << what);
      REQUIRE(f->getPredicateName() == nm(p.cls[(size_t)t.cls].name + "." + t.pred), what << " is a " << f->getPredicateName() << " instead of " << nm(p.cls[(size_t)t.cls].name + "." + t.pred));
      REQUIRE(f->isActive() == t.active && f->isRejected() == t.rejected && !f->isMerged(), what << " is in the wrong state");
      REQUIRE(f->isFact() == (t.kind == 'f'), what << (f->isFact() ? " is" : " is not") << " a fact");
      if (t.master < 0 && !t.active && !t.rejected) REQUIRE(f->getState()->baseDomain().isMember(edouble(cast_double(edouble(Token::REJECTED)))) == (t.kind == 'r'), what << " can" << (t.kind == 'r' ? "not" : "") << " be rejected");
      if (t.master >= 0) REQUIRE(f->getRelation() == t.rel, what << " has relation " << f->getRelation() << " instead of " << t.rel);
      tok.push_back(f);
    }
    for (size_t i = 0; i < p.vars.size(); i++) {
      const MVar& v = p.vars[i];
      ConstrainedVariableId c;
      S what = p.show((int)i);
      if (v.owner.empty()) c = e.db().isGlobalVariable(nm(v.name)) ? e.db().getGlobalVariable(nm(v.name)) : ConstrainedVariableId::noId();
      else if (v.owner[0] == '#') {
        TokenId t = tok[(size_t)atoi(v.owner.c_str() + 1)];
        const MTok& m = p.toks[(size_t)atoi(v.owner.c_str() + 1)];
        what = nm(m.name.empty() ? v.owner : m.name) + "." + nm(v.name);
        if (m.env.count(v.name)) { for (auto& l : t->getLocalVariables()) if (l->getName() == nm(v.name)) c = l; }
        else c = t->getVariable(nm(v.name), false);
      } else c = e.db().getObject(nm(v.owner))->getVariable(nm(v.owner + "." + v.name));
      REQUIRE(c.isId(), "there is no variable " << what);
      base(v, c, what);
      var.push_back(c);
    }
  }
  // The engine's verdict on a complete assignment.
  bool verdict(const Asg& a, const std::vector<size_t>& order, bool settle) {
    e.ce().setAutoPropagation(settle);
    for (size_t i : order) {
      if (var[i]->isSpecified() && var[i]->getSpecifiedValue() == value(p.vars[i], a[i])) continue;
      if (var[i]->isSpecified()) var[i]->reset();
      var[i]->specify(value(p.vars[i], a[i]));
    }
    e.ce().setAutoPropagation(true);
    return e.ce().propagate();
  }
};
void judge(const Prog& p, nddl::Env& e, const Names& n, const Asg& a, const std::vector<size_t>& order, bool settle, bool wantOk) {
  Judge j(p, e, n);
  j.structure();
  bool ok = j.verdict(a, order, settle);
  if (ok == wantOk) return;
  std::ostringstream o;
  o << "the engine " << (ok ? "accepts" : "rejects") << " the assignment";
  for (size_t i = 0; i < p.vars.size(); i++) { o << " " << p.show((int)i) << "=" << p.lit(p.vars[i].k, a[i]); if (ok) o << "(" << j.var[i]->lastDomain().toString() << ")"; }
  if (!ok) o << " though every condition holds";
  else for (auto& c : p.cons) if (!c.f(a)) o << "; fails: " << c.text;
  fail(o.str());
}

// ---- other spellings of a program
std::vector<S> lex(const S& t) {
  std::vector<S> r;
  for (size_t i = 0; i < t.size();) {
    size_t j = i + 1;
    if (isspace((unsigned char)t[i])) { i++; continue; }
    if (t[i] == '"') { j = t.find('"', i + 1) + 1; }
    else if (isalpha((unsigned char)t[i])) { while (j < t.size() && (isalnum((unsigned char)t[j]) || t[j] == '_')) j++; }
    else if (isdigit((unsigned char)t[i]) || (t[i] == '-' && j < t.size() && isdigit((unsigned char)t[j]))) { while (j < t.size() && (isdigit((unsigned char)t[j]) || t[j] == '.')) j++; }
    else if (j < t.size() && (t.substr(i, 2) == "::" || t.substr(i, 2) == "&&" || t.substr(i, 2) == "||" || t.substr(i, 2) == "==" || t.substr(i, 2) == "!=" || t.substr(i, 2) == "<=" || t.substr(i, 2) == ">=")) j++;
    r.push_back(t.substr(i, j - i));
    i = j;
  }
  return r;
}
S respell(Src& s, const S& t) {
  S r, last;
  for (auto& w : lex(t)) {
    bool word = isalnum((unsigned char)w[0]) || w[0] == '-' || w[0] == '"';
    bool lastWord = !last.empty() && (isalnum((unsigned char)last[0]) || (last.size() > 1 && last[0] == '-') || last[0] == '"');
    bool need = (word && lastWord) || last == "-" || last == "+" || w == "-" || w == "+";
    S sep;
    size_t k = s.weighted({need ? 0 : 4, 4, 1, 1, 1, 1});
    sep = k == 0 ? "" : k == 1 ? " " : k == 2 ? "\n" : k == 3 ? "\t " : k == 4 ? " /* x; { \" */ " : " // y } ;\n";
    r += (last.empty() ? S() : sep) + w;
    last = w;
  }
  return r + (s.flip() ? "\n" : "");
}
std::vector<size_t> reorder(Src& s, const Prog& p) {
  // Any order of the statements of a phase that keeps what is declared before its use and keeps statements on the same variable in order.
  std::set<S> globals;
  for (auto& g : p.glob) globals.insert(g.first);
  std::vector<size_t> r;
  std::vector<bool> done(p.stmts.size(), false);
  for (int ph = 0; ph <= 6; ph++) {
    for (;;) {
      std::vector<size_t> c;
      for (size_t i = 0; i < p.stmts.size(); i++) {
        if (done[i] || p.stmts[i].phase != ph) continue;
        bool ok = true;
        for (size_t j = 0; j < i && ok; j++) {
          if (done[j] || p.stmts[j].phase != ph) continue;
          for (auto& d : p.stmts[j].decl) ok &= !p.stmts[i].uses.count(d) && !p.stmts[i].decl.count(d);
          if (ph == 2) for (auto& g : p.stmts[j].uses) ok &= !(globals.count(g) && (p.stmts[i].uses.count(g) || p.stmts[i].decl.count(g)));
          if (ph == 6) {
            bool a = p.stmts[j].text.find(".reset(") != S::npos || p.stmts[i].text.find(".reset(") != S::npos || p.stmts[j].text.find(".specify(") != S::npos;
            if (a) for (auto& g : p.stmts[j].uses) ok &= !p.stmts[i].uses.count(g);
          }
        }
        if (ok) c.push_back(i);
      }
      if (c.empty()) break;
      size_t i = s.pick(c);
      done[i] = true;
      r.push_back(i);
    }
  }
  return r;
}
// What a plan looks like, with names.
S dump(nddl::Env& e, const Names& back) {
  std::ostringstream o;
  auto dom = [&](const Domain& d) {
    std::ostringstream r;
    if (d.isEmpty()) return S("empty");
    if (d.isNumeric() || !d.isFinite()) { r << "[" << d.getLowerBound() << " " << d.getUpperBound() << "]"; if (d.isFinite() && d.isEnumerated()) r << d.getSize(); return r.str(); }
    std::list<edouble> v;
    d.getValues(v);
    std::set<S> q;
    const bool ob = dynamic_cast<const ObjectDomain*>(&d) != NULL;
    for (auto& x : v) q.insert(mapped(ob ? Entity::getTypedEntity<Object>(x)->getName() : d.toString(x), back));
    for (auto& x : q) r << x << " ";
    return r.str();
  };
  bool ok = e.ce().propagate();
  o << (ok ? "consistent\n" : "inconsistent\n");
  std::map<eint, S> byKey;
  for (auto& x : e.db().getObjects()) {
    S t = x->getName() + " " + x->getType() + "\n";
    std::set<S> ms;
    for (auto& v : x->getVariables()) ms.insert(mapped("  " + v->getName() + " " + dom(v->baseDomain()) + (ok ? " " + dom(v->lastDomain()) : S()) + "\n", back));
    for (auto& m : ms) t += m;
    byKey[x->getKey()] = t;
  }
  for (auto& x : byKey) o << mapped(x.second, back);
  byKey.clear();
  for (auto& x : e.db().getTokens()) {
    S t = x->getName() + " " + x->getPredicateName() + " " + x->getRelation() + (x->isActive() ? " active" : "") + (x->isRejected() ? " rejected" : "") + (x->isFact() ? " fact" : "") + " attributes " + num(x->getAttributes()) + "\n";
    for (auto& v : x->getVariables()) if (v->getName() != "state") t += "  " + v->getName() + " " + dom(v->baseDomain()) + (ok ? " " + dom(v->lastDomain()) : S()) + "\n";
    std::set<S> ls;
    for (auto& v : x->getLocalVariables()) if (v->getName().compare(0, 3, "loc") == 0 || back.count(v->getName())) ls.insert(mapped("  local " + v->getName() + " " + dom(v->baseDomain()) + (ok ? " " + dom(v->lastDomain()) : S()) + "\n", back));
    for (auto& l : ls) t += l;
    byKey[x->getKey()] = t;
  }
  for (auto& x : byKey) o << mapped(x.second, back);
  std::multiset<S> gs;  // variables of subexpressions are numbered as they come
  auto global = [](const S& n) { return n.compare(0, 12, "implicit_var") == 0 ? S("implicit_var") : n; };
  for (auto& v : e.db().getGlobalVariables())  gs.insert(mapped(global(v->getName()), back) + " " + dom(v->baseDomain()) + (ok ? " " + dom(v->lastDomain()) : S()) + "\n");
  for (auto& g : gs) o << g;
  o << e.ce().getConstraints().size() << " constraints\n";
  return o.str();
}
struct Scratch {
  S dir, old;
  bool had = false;
  std::vector<S> files;
  Scratch() {
    char t[] = "/tmp/nddl.XXXXXX";
    REQUIRE(mkdtemp(t), "mkdtemp");
    dir = t;
    mkdir((dir + "/include").c_str(), 0700);
    const char* h = getenv("EUROPA_HOME");
    if (h) { had = true; old = h; }
    setenv("EUROPA_HOME", dir.c_str(), 1);
  }
  S file(const S& text) {
    S n = "part" + num((long)files.size()) + ".nddl";
    files.push_back(dir + "/include/" + n);
    std::ofstream f(files.back().c_str());
    f << text;
    return n;
  }
  ~Scratch() {
    for (auto& f : files) unlink(f.c_str());
    rmdir((dir + "/include").c_str());
    rmdir(dir.c_str());
    if (had) setenv("EUROPA_HOME", old.c_str(), 1); else unsetenv("EUROPA_HOME");
  }
};
S firstDifference(const S& a, const S& b) {
  std::istringstream x(a), y(b);
  S l, m;
  for (;;) {
    bool p = (bool)std::getline(x, l), q = (bool)std::getline(y, m);
    if (!p && !q) return "";
    if (!p) l = "(nothing)";
    if (!q) m = "(nothing)";
    if (l != m) return "\"" + l + "\" became \"" + m + "\"";
    if (!p || !q) return "";
  }
}
void propMeaning(Src& s) {
  Prog p(s);
  p.generate();
  S text;
  for (auto& st : p.stmts) text += st.text + "\n";
  s.note() << text;
  bool solved = p.search();
  Asg a = p.asg;
  bool want = solved;
  if (solved && s.flip()) {  // spoil it
    std::vector<int> c;
    for (auto& k : p.cons) for (int v : k.vars) if (!p.specified.count(v) && !p.vars[(size_t)v].d.single()) c.push_back(v);
    for (int t = 0; t < 8 && want && !c.empty(); t++) { int v = s.pick(c); double old = a[(size_t)v]; a[(size_t)v] = p.vars[(size_t)v].d.any(s); want = p.bad(a) == 0; if (want) a[(size_t)v] = old; }
  }
  s.label(want ? "judged holds" : solved ? "judged spoiled" : "judged unsolved");
  std::vector<size_t> order;
  for (size_t i = 0; i < p.vars.size(); i++) order.push_back(i);
  for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[s.idx(i)]);
  bool settle = s.flip();
  // the program, maybe respelled
  size_t variant = s.weighted({2, 2, 2, 2, 2, 2});
  S second;
  S plain;
  {
    nddl::Env e;
    S err = e.run(text);
    bool ok = e.ce().propagate();
    // what can't hold may be refused
    if (!err.empty() && !solved) { s.label("refused as it cannot hold"); return; }
    REQUIRE(err.empty(), "refused: " << err);
    if (!ok) s.label("inconsistent as written");
    REQUIRE(ok || !solved, "inconsistent as written though there is a solution");
    plain = dump(e, {});
    if (ok) judge(p, e, {}, a, order, settle, want);
  }
  if (p.cons.size() >= 2) s.nontrivial();
  if (!p.rules.empty() && p.toks.size() > 1) s.label("with rules");
  if (variant == 0) return;
  static const char* NAME[] = {"", "respelled", "renamed", "in several scripts", "with included files", "reordered"};
  s.label(NAME[variant]);
  Names ren, back;
  std::vector<S> parts;
  Scratch sc;
  if (variant == 1) parts.push_back(respell(s, text));
  if (variant == 2) {
    std::vector<S> ids(p.idents.begin(), p.idents.end());
    long k = s.draw(1, 97);
    for (size_t i = 0; i < ids.size(); i++) {
      const char* pre[] = {"zz", "A", "m_", "Obj", "start", "In", "q"};
      S to = S(pre[(i * 3 + (size_t)k) % 7]) + num((long)((i * 37 + (size_t)k) % 1009)) + "x" + num((long)i);
      ren[ids[i]] = to; back[to] = ids[i];
    }
    S t;
    for (auto& w : lex(text)) { auto it = ren.find(w); t += (it == ren.end() ? w : it->second) + " "; }
    parts.push_back(t);
  }
  if (variant == 3) { S t; for (auto& st : p.stmts) { t += st.text + "\n"; if (s.chance(1, 3)) { parts.push_back(t); t.clear(); } } if (!t.empty()) parts.push_back(t); }
  if (variant == 4) {
    S t, in;
    for (auto& st : p.stmts) { in += st.text + "\n"; if (s.chance(1, 3)) { if (s.flip()) t += in; else t += "#include \"" + sc.file(in) + "\"\n"; in.clear(); } }
    parts.push_back(t + in);
  }
  if (variant == 5) { S t; for (size_t i : reorder(s, p)) t += p.stmts[i].text + "\n"; parts.push_back(t); }
  for (auto& t : parts) s.note() << "--- " << NAME[variant] << "\n" << t;
  nddl::Env e;
  for (auto& t : parts) { S err = e.run(t); if (!err.empty() && !solved) return; REQUIRE(err.empty(), NAME[variant] << ", the program is refused: " << err); }
  if (variant < 5) {
    S d = dump(e, back);
    REQUIRE(d == plain, NAME[variant] << ", the program has another effect: " << firstDifference(plain, d));
  } else REQUIRE(e.ce().propagate() || !solved, "reordered, the program is inconsistent though there is a solution");
  if (e.ce().propagate()) judge(p, e, ren, a, order, settle, want);
}
}  // namespace
PBT_PROP("N02", "meaning", propMeaning, 6000, 30, 100, 30);

// ---- N01
#include <sys/wait.h>
#include <sys/time.h>
#include <signal.h>
namespace {
ConstraintEngine* g_ce = NULL;
void tooLong(int) { _exit(g_ce && g_ce->isPropagating() ? 42 : 43); }
const char* VOCAB[] = {"enum", "typedef", "class", "extends", "predicate", "action", "int", "float", "bool", "string", "numeric", "in", "new", "this", "super", "goal", "fact", "rejectable", "if", "else", "foreach",
  "enforce", "return", "condition", "effect", "after", "before", "meets", "met_by", "any", "contains", "contained_by", "starts", "ends", "equals", "parallels", "at", "during", "true", "false", "inf", "-inf", "+inf", "nan",
  "close", "specify", "reset", "activate", "cancel", "reject", "merge", "free", "constrain", "noLeak", "filter", "eq", "leq", "lt", "neq", "addEq", "mulEq", "allDiff", "eqSum", "start", "end", "duration", "object", "state",
  "x", "y", "z", "C", "D", "a", "b", "isSingleton", "isSpecified", "max", "min", "abs", "pow", "sqrt", "mod", "rand", "floor", "ceil", "#include", "//", "/*", "*/", "\"", "\"a\"", "\"a\\\"\"", "'", "\\", "$", "_", "@", "#", "%", "~", "^", "&", "|", "!", "?",
  "{", "}", "(", ")", "[", "]", ";", ";", ",", ".", ":", "::", "=", "==", "!=", "<", "<=", ">", ">=", "+", "-", "*", "/", "&&", "||", "0", "1", "-1", "2.5", "-0.0", "1e9", "99999999999999999999", "0x1F", ".5", "5.", "1..2", "07", "1L", "2f"};
S word(Src& s) {
  if (s.chance(1, 30)) { S r; long n = s.draw(1, 6); for (long i = 0; i < n; i++) r += (char)s.draw(0, 255); return r; }
  if (s.chance(1, 200)) return S((size_t)s.draw(100, 400), s.flip() ? '(' : s.flip() ? 'a' : '{');
  return VOCAB[s.idx(sizeof VOCAB / sizeof *VOCAB)];
}
// What a correct program must do afterwards; the complaint, empty when there is none.
S recovers(nddl::Env& e, bool fresh) {
  S err = e.run("enum zqE { zqA, zqB } class zqC { int zqm; zqC(int zqx) { zqm = zqx; } predicate zqp { zqE zqq; zqq != zqA; } }");
  if (!err.empty()) return "the declarations are refused: " + err;
  err = e.run("int zqv = [ 2 9 ];");
  if (!err.empty()) return "the variable is refused: " + err;
  ConstrainedVariableId v = e.db().getGlobalVariable("zqv");
  if (v->baseDomain().getLowerBound() != 2 || v->baseDomain().getUpperBound() != 9) return "the variable has base domain " + v->baseDomain().toString();
  bool ok = e.ce().propagate();
  if (fresh && !ok) return "inconsistent";
  if (!ok) return "";  // a plan known to be inconsistent takes no new objects, tokens or constraints
  err = e.run("zqC zqo = new zqC(4);");
  if (!err.empty()) return "the object is refused: " + err;
  if (e.db().getObject("zqo").isNoId()) return "there is no object";
  ConstrainedVariableId m = e.db().getObject("zqo")->getVariable("zqo.zqm");
  if (m.isNoId() || !m->baseDomain().isSingleton() || m->baseDomain().getSingletonValue() != 4) return "the member is wrong";
  size_t n = e.db().getTokens().size();
  err = e.run("goal(zqC.zqp zqt);");
  if (!err.empty()) return "the token is refused: " + err;
  if (e.db().getTokens().size() != n + 1) return "there is no token";
  ok = ok && e.ce().propagate();
  err = e.run("leq(zqv, zqo.zqm);");
  if (!err.empty()) return "the constraint is refused: " + err;
  ok = ok && e.ce().propagate();
  if (fresh && !ok) return "inconsistent in the end";
  if (ok && v->lastDomain().getUpperBound() != 4) return "the variable has domain " + v->lastDomain().toString();
  return "";
}
// well-formed statements over so few names that declarations and uses keep getting in each other's way
S clashing(Src& s) {
  static const char *TYPE[] = {"A", "B", "C", "A", "B", "C", "D", "E", "int", "float", "bool", "string", "Object", "Timeline", "Reservoir", "Reusable", "UnaryTimeline"},
                    *NAME[] = {"x", "y", "z", "p", "q", "x", "y", "a", "start", "object", "duration", "name", "state", "this", "capacity", "A", "true"},
                    *PRED[] = {"p", "q", "p", "q", "r", "use", "consume", "x"}, *REL[] = {"any", "before", "meets", "contains", "starts", "equals", "ends_after", "contained_by", "after"},
                    *CON[] = {"eq", "neq", "leq", "lt", "addEq", "mulEq", "allDiff", "eqSum", "testEq", "condAllDiff", "lock", "subsetOf", "memberImply", "absVal", "eqMaximum", "precedes", "concurrent", "temporalDistance", "commonAncestor", "hasAncestor", "nothing"};
#define OF(t) t[s.idx(sizeof t / sizeof *t)]
  std::vector<S> types{"int", "bool", "float", "string"}, classes{"Object", "Timeline"}, vars;
  std::vector<std::pair<S, S>> preds;
  auto type = [&]() { return s.chance(1, 8) ? S(OF(TYPE)) : s.flip() ? s.pick(types) : s.pick(classes); };
  auto cls = [&]() { return s.chance(1, 8) ? S(OF(TYPE)) : s.pick(classes); };
  auto newClass = [&]() { static const char* N[] = {"A", "B", "C", "D", "E"}; return s.chance(1, 12) ? type() : S(OF(N)); };
  auto name = [&]() { return S(OF(NAME)); };
  auto known = [&]() { return vars.empty() || s.chance(1, 6) ? name() : s.pick(vars); };
  auto fact = [&]() { std::pair<S, S> q = preds.empty() || s.chance(1, 6) ? std::make_pair(cls(), S(OF(PRED))) : s.pick(preds); return q; };
  auto path = [&]() { S r = known(); while (s.chance(1, 4)) r += "." + name(); return r; };
  auto value = [&]() -> S {
    switch (s.idx(9)) {
      case 0: return num(s.draw(-2, 5)); case 1: return "[" + num(s.draw(-1, 3)) + " " + num(s.draw(-1, 6)) + "]"; case 2: return "{" + num(s.draw(0, 2)) + ", " + num(s.draw(0, 4)) + "}"; case 3: return "\"s\"";
      case 4: return s.flip() ? "true" : "1.5"; case 5: return "new " + cls() + "()"; case 6: return "{" + known() + ", " + known() + "}"; case 7: return path() + " + " + num(s.draw(0, 3)); default: return path();
    }
  };
  auto args = [&]() { S r; for (long n = s.geo(3), i = 0; i < n; i++) r += (i ? ", " : "") + value(); return r; };
  std::function<S(int)> body = [&](int depth) -> S {
    S r;
    for (long n = s.geo(3); n > 0; n--) switch (s.idx(8)) {
      case 0: r += type() + " " + name() + "; "; break;
      case 1: r += S(OF(CON)) + "(" + args() + "); "; break;
      case 2: { auto q = fact(); r += S(OF(REL)) + "(" + q.first + "." + q.second + " " + name() + "); "; break; }
      case 3: r += path() + " = " + value() + "; "; break;
      case 4: if (depth < 2) r += "if (" + path() + (s.flip() ? " == " : " != ") + value() + ") { " + body(depth + 1) + "} " + (s.flip() ? "else { " + body(depth + 1) + "} " : ""); break;
      case 5: if (depth < 2) r += "foreach (" + name() + " in " + path() + ") { " + body(depth + 1) + "} "; break;
      case 6: r += path() + (s.flip() ? " < " : " == ") + value() + "; "; break;
      case 7: r += S(OF(REL)) + "(" + path() + (s.flip() ? "." + name() : S()) + "); "; break;
    }
    return r;
  };
  S r;
  for (long n = 2 + s.draw(0, 9); n > 0; n--) switch (s.weighted({5, 1, 1, 1, 3, 3, 2, 3, 3, 2, 1, 2, 1})) {
    case 0: {
      S c = newClass();
      r += "class " + c + (s.flip() ? " extends " + cls() : S()) + " { ";
      for (long m = s.geo(3); m > 0; m--) r += type() + " " + name() + "; ";
      for (long m = s.geo(1); m > 0; m--) {
        r += (s.chance(19, 20) ? c : type()) + "(" + (s.flip() ? type() + " " + name() : S()) + ") { ";
        if (s.chance(1, 3)) r += "super(" + args() + "); ";
        for (long k = s.geo(2); k > 0; k--) r += name() + " = " + value() + "; ";
        r += "} ";
      }
      for (long m = s.geo(2); m > 0; m--) { S q = OF(PRED); preds.push_back({c, q}); r += "predicate " + q + " { "; for (long k = s.geo(2); k > 0; k--) r += type() + " " + name() + "; "; r += (s.chance(1, 6) ? body(1) : S()) + "} "; }
      r += "}\n"; classes.push_back(c); break;
    }
    case 1: { S c = newClass(); r += "class " + c + ";\n"; classes.push_back(c); break; }
    case 2: { S c = newClass(); r += "enum " + c + " { " + name() + ", " + name() + " }\n"; types.push_back(c); break; }
    case 3: { S c = newClass(); r += "typedef " + type() + " " + value() + " " + c + ";\n"; types.push_back(c); break; }
    case 4: { S c = cls(), v = name(); r += (s.chance(1, 6) ? cls() : c) + " " + v + " = new " + c + "(" + args() + ");\n"; vars.push_back(v); break; }
    case 5: { S v = name(); r += type() + " " + v + (s.flip() ? " = " + value() : S()) + ";\n"; vars.push_back(v); break; }
    case 6: { auto q = fact(); r += q.first + "::" + q.second + " { " + body(0) + "}\n"; break; }
    case 7: { auto q = fact(); S v = name(); r += S(s.flip() ? "goal" : s.flip() ? "fact" : "rejectable") + "(" + q.first + "." + q.second + " " + v + ");\n"; vars.push_back(v); break; }
    case 8: r += path() + "." + (s.flip() ? "activate" : s.flip() ? "cancel" : s.flip() ? "reject" : s.flip() ? "merge" : s.flip() ? "specify" : s.flip() ? "reset" : "close") + "(" + args() + ");\n"; break;
    case 9: r += S(OF(CON)) + "(" + args() + ");\n"; break;
    case 10: r += (s.flip() ? cls() + "." : S()) + "close();\n"; break;
    case 11: r += path() + " " + OF(REL) + " " + path() + ";\n"; break;
    case 12: r += (s.flip() ? "constrain(" : "free(") + args() + ");\n"; break;
  }
#undef OF
  return r;
}
void propTotal(Src& s) {
  S text;
  bool program = true;
  size_t kind = s.weighted({6, 2, 1, 3, 4});
  if (kind == 1) {  // token soup
    program = false;
    long n = s.draw(1, 60);
    for (long i = 0; i < n; i++) text += word(s) + (s.chance(9, 10) ? " " : "");
  } else if (kind == 2) {
    program = false;
    long n = s.draw(0, 200);
    for (long i = 0; i < n; i++) text += (char)(s.flip() ? s.draw(32, 126) : s.draw(0, 255));
  } else if (kind == 4) text = clashing(s);
  else {
    Prog p(s);
    p.generate();
    std::vector<std::vector<S>> st;
    for (auto& x : p.stmts) st.push_back(lex(x.text));
    if (kind == 3) {  // statements left out, repeated, moved
      long n = s.flip() ? 0 : s.draw(1, 3);
      for (long i = 0; i < n && !st.empty(); i++) {
        size_t a = s.idx(st.size()), b = s.idx(st.size());
        size_t k = s.idx(3);
        if (k == 0) st.erase(st.begin() + (long)a);
        else if (k == 1) { auto c = st[a]; st.insert(st.begin() + (long)b, c); }
        else std::swap(st[a], st[b]);
      }
    }
    std::vector<S> w;
    for (auto& x : st) for (auto& y : x) w.push_back(y);
    if (kind == 0 || s.chance(1, 4)) {
      long n = s.flip() ? 1 : s.draw(1, 6);
      for (long i = 0; i < n && !w.empty(); i++) {
        size_t a = s.idx(w.size());
        switch (s.idx(8)) {
          case 0: w.erase(w.begin() + (long)a); break;
          case 1: w[a] = word(s); break;
          case 2: w.insert(w.begin() + (long)a, word(s)); break;
          case 3: w[a] = w[s.idx(w.size())]; break;
          case 4: std::swap(w[a], w[s.idx(w.size())]); break;
          case 5: { size_t e = std::min(w.size(), a + (size_t)s.draw(1, 12)); w.erase(w.begin() + (long)a, w.begin() + (long)e); break; }
          case 6: { size_t e = std::min(w.size(), a + (size_t)s.draw(1, 12)); std::vector<S> c(w.begin() + (long)a, w.begin() + (long)e); size_t b = s.idx(w.size()); w.insert(w.begin() + (long)b, c.begin(), c.end()); break; }
          case 7: if (s.chance(1, 4)) w.resize(a); else if (!w[a].empty()) w[a][s.idx(w[a].size())] = (char)s.draw(0, 255); break;
        }
      }
    }
    for (auto& x : w) text += x + (s.chance(1, 12) ? "\n" : " ");
  }
  s.note() << text;
  s.label(kind == 0 ? "mutated" : kind == 1 ? "token soup" : kind == 2 ? "bytes" : kind == 3 ? "rearranged" : "clashing");
  if (program) s.nontrivial();
  std::vector<S> parts(1, text);
  if (s.chance(1, 4)) { size_t a = s.idx(text.size() + 1); parts[0] = text.substr(0, a); parts.push_back(text.substr(a)); }
  if (parts.size() > 1) s.note() << "\n(in two parts, the second from: " << parts[1] << ")";
  bool elsewhere = s.chance(1, 3);
  int fd[2];
  REQUIRE(pipe(fd) == 0, "pipe");
  pid_t pid = fork();
  REQUIRE(pid >= 0, "fork");
  if (pid == 0) {
    close(fd[0]);
    dup2(fd[1], 2);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = tooLong;
    sigaction(SIGVTALRM, &sa, NULL);
    struct itimerval tv;
    memset(&tv, 0, sizeof tv);
    tv.it_value.tv_sec = 6;
    setitimer(ITIMER_PROF, &tv, NULL);  // no more than this in any case
    tv.it_value.tv_sec = 4;
    setitimer(ITIMER_VIRTUAL, &tv, NULL);
    S bad;
    int code = 40;
    {
      nddl::Env e;
      g_ce = &e.ce();
      for (auto& t : parts) {
        try {
          S err = e.run(t);
          if (!err.empty()) { code = 41; }
        } catch (const Error& x) { code = 41; }
        catch (const std::string& x) { code = 41; }
        catch (const char* x) { code = 41; }
        catch (const std::exception& x) { code = 41; }
        catch (...) { bad = "an exception of an unknown type reached the caller"; }
      }
      try {
        if (bad.empty() && !e.db().isClosed()) bad = recovers(e, false);
        if (!bad.empty()) bad = "afterwards in the same engine, " + bad;
      } catch (const Error& x) { bad = "afterwards in the same engine: " + x.getMsg(); }
      catch (const std::string& x) { bad = "afterwards in the same engine: " + x; }
      g_ce = NULL;
    }
    if (bad.empty() && elsewhere) {
      try {
        nddl::Env e;
        g_ce = &e.ce();
        bad = recovers(e, true);
        if (!bad.empty()) bad = "afterwards in another engine, " + bad;
      } catch (const Error& x) { bad = "afterwards in another engine: " + x.getMsg(); }
      g_ce = NULL;
    }
    if (!bad.empty()) { bad += "\n"; if (write(fd[1], bad.data(), bad.size()) < 0) _exit(44); _exit(45); }
    _exit(code);
  }
  close(fd[1]);
  S out;
  char buf[4096];
  for (ssize_t n; (n = read(fd[0], buf, sizeof buf)) > 0;) if (out.size() < 60000) out.append(buf, (size_t)n);
  close(fd[0]);
  int st = 0;
  REQUIRE(waitpid(pid, &st, 0) == pid, "waitpid");
  if (WIFEXITED(st) && WEXITSTATUS(st) == 40) { s.label("accepted"); return; }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 41) { s.label("refused"); return; }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 42) { s.label("propagation took too long"); return; }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 45) pbt::fail(out);
  if (out.find("stack-overflow") != S::npos) {
    // Classes whose objects contain new objects of the class are the program's doing.
    if (out.find("ExprNewObject") != S::npos) { s.label("objects without end"); return; }
  }
  REQUIRE(!(WIFEXITED(st) && WEXITSTATUS(st) == 43) && !(WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF), "no answer within 4 s of CPU time");
  size_t at = out.find("ERROR: AddressSanitizer");
  pbt::fail("the process ended (" + S(WIFSIGNALED(st) ? "signal " + num(WTERMSIG(st)) : "exit " + num(WEXITSTATUS(st))) + ")\n" + (at == S::npos ? out.substr(0, 1500) : out.substr(at, 3500)));
}
}  // namespace
PBT_PROP("N01", "total", propTotal, 5000, 20, 25, 120);
