// X01: XML print/parse round trip.  X02: the parser on arbitrary input.
#include "pbt.hh"
#include "tinyxml.h"
#include <cstdlib>
#include <cstring>
#include <memory>
#include <sstream>
#include <stdio.h>
#include <unistd.h>
using namespace pbt;
using namespace EUROPA;

PBT_RULE("X01", "random document trees (declaration, comments, unknown tags, nested elements, attributes, mixed text over an alphabet of markup characters, quotes, entities' spellings, control and high bytes) "
         "built through the editing interface, printed by every printer and re-read by every reader; non-trivial when the tree has an attribute or text holding a character that needs escaping",
         {"texts hold no '&#x' sequence: the library passes existing hexadecimal references through unchanged by design",
          "runs of blanks in element text are condensed and trimmed on reading, as documented; expected texts are normalised the same way",
          "comments hold no '--' and end in no '-'; unknown tags hold no '>'"});
PBT_RULE("X02", "byte strings: random bytes, token soup over XML fragments, printed random documents truncated, with bytes deleted, replaced, duplicated or inserted; read through every entry point under AddressSanitizer; "
         "non-trivial when the input has a '<' and the parser either built at least one node or reported an error",
         {"nesting depth is at most about 300 levels (the parser recurses)", "inputs hold no NUL except at the end, as the interface takes C strings"});

// ---------------------------------------------------------------- model
struct Node {
  enum T { ELEM, TEXT, COMMENT, UNKNOWN, DECL } t;
  std::string name;                                          // tag, text, ...
  std::vector<std::pair<std::string, std::string> > attrs;   // also version/encoding/standalone
  std::vector<Node> kids;
};
static std::string genName(Src& s) {
  static const char* n[] = {"a", "b", "Item", "x-y", "n.s", "p:q", "_u", "a1", "A", "versions"};
  return n[s.draw(0, 9)];
}
static std::string genText(Src& s, int kind) {  // kind 0 text, 1 attribute, 2 comment, 3 unknown
  static const char* frag[] = {"a", "Z", " ", "1", "&", "<", ">", "\"", "'", "&amp;", "&lt;", "&quot", "\t", "\n", "\r", "\x01", "\x7f", "\xe9", "\xff", "\xc3\xa9",
                               ";", "#", "x41;", "]]>", "--", "=", "/", "word", "  ", "&#65;", "\x1f"};
  std::string t;
  long n = s.chance(1, 20) ? s.draw(10, 60) : s.draw(0, 6);
  for (long i = 0; i < n; i++) t += frag[s.draw(0, 30)];
  auto strip = [&](const std::string& w, const std::string& by) { size_t p; while ((p = t.find(w)) != std::string::npos) t.replace(p, w.size(), by); };
  strip("&#x", "&x");
  if (kind == 2) { strip("--", "-"); if (!t.empty() && t.back() == '-') t += "."; }
  if (kind == 3) {
    for (char& c : t) if (c == '>') c = ')';
    t = "!" + t;
    if (t.compare(0, 3, "!--") == 0) t = "!D" + t;
  }
  return t;
}
static Node genElem(Src& s, int depth) {
  Node e; e.t = Node::ELEM; e.name = genName(s);
  long na = s.geo(4);
  for (long i = 0; i < na; i++) {
    std::string n = genName(s), v = genText(s, 1);
    bool dup = false;
    for (auto& a : e.attrs) if (a.first == n) { dup = true; break; }
    if (!dup) e.attrs.push_back({n, v});
  }
  long nk = depth <= 0 ? 0 : s.geo(4);
  for (long i = 0; i < nk; i++) {
    Node k;
    switch (s.weighted({5, 5, 1, 1})) {
    case 0: k.t = Node::TEXT; k.name = genText(s, 0); break;
    case 1: k = genElem(s, depth - 1); break;
    case 2: k.t = Node::COMMENT; k.name = genText(s, 2); break;
    default: k.t = Node::UNKNOWN; k.name = genText(s, 3); break;
    }
    e.kids.push_back(k);
  }
  return e;
}
static std::vector<Node> genDoc(Src& s, int depth) {
  std::vector<Node> d;
  if (s.flip()) {
    Node k; k.t = Node::DECL;
    static const char* v[] = {"1.0", "1.1", "UTF-8", "yes", "no", "a b", ""};
    k.attrs = {{"version", v[s.draw(0, 6)]}, {"encoding", v[s.draw(0, 6)]}, {"standalone", v[s.draw(0, 6)]}};
    d.push_back(k);
  }
  for (long i = s.geo(2); i > 0; i--) { Node k; k.t = Node::COMMENT; k.name = genText(s, 2); d.push_back(k); }
  if (s.chance(1, 4)) { Node k; k.t = Node::UNKNOWN; k.name = genText(s, 3); d.push_back(k); }
  d.push_back(genElem(s, depth));
  for (long i = s.geo(2); i > 0; i--) { Node k; if (s.flip()) { k.t = Node::COMMENT; k.name = genText(s, 2); } else k = genElem(s, depth - 1); d.push_back(k); }
  return d;
}
// what reading back is documented to give: blanks condensed and trimmed, blank texts dropped, adjacent texts joined
static bool isSpace(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static std::string condense(const std::string& t) {
  std::string r; bool sp = false;
  for (char c : t) { if (c == ' ') { sp = true; continue; } if (sp && !r.empty()) r += ' '; sp = false; r += c; }
  return r;
}
static Node norm(const Node& n) {
  Node r = n;
  r.kids.clear();
  std::vector<Node> joined;
  for (auto& k : n.kids) {
    if (k.t == Node::TEXT && !joined.empty() && joined.back().t == Node::TEXT) joined.back().name += k.name;
    else joined.push_back(k);
  }
  for (auto& k : joined) {
    if (k.t == Node::TEXT) {
      Node x = k; x.name = condense(k.name);
      bool blank = true;
      for (char c : x.name) if (!isSpace(c)) blank = false;
      if (!blank) r.kids.push_back(x);
    } else r.kids.push_back(norm(k));
  }
  return r;
}
static std::string dump(const Node& n) {
  std::ostringstream o;
  auto q = [](const std::string& s) { std::string r = "'"; for (unsigned char c : s) { if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\x%02x", c); r += b; } else r += c; } return r + "'"; };
  o << "(" << "ETCUD"[n.t] << q(n.name);
  for (auto& a : n.attrs) o << " " << a.first << "=" << q(a.second);
  for (auto& k : n.kids) o << " " << dump(k);
  o << ")";
  return o.str();
}
static std::string dump(const std::vector<Node>& d) { std::string r; for (auto& n : d) r += dump(n) + "\n"; return r; }

// ---------------------------------------------------------------- build by editing
static TiXmlNode* toXml(Src& s, const Node& n);
static void addKids(Src& s, TiXmlNode* e, const std::vector<Node>& kids) {
  for (size_t i = 0; i < kids.size(); i++) {
    std::unique_ptr<TiXmlNode> k(toXml(s, kids[i]));
    switch (s.draw(0, 4)) {
    case 0: e->InsertEndChild(*k); break;
    case 1: if (e->LastChild()) e->InsertAfterChild(e->LastChild(), *k); else e->InsertEndChild(*k); break;
    case 2: { TiXmlElement dummy("dummy"); TiXmlNode* d = e->InsertEndChild(dummy); e->InsertBeforeChild(d, *k); e->RemoveChild(d); break; }
    case 3: { TiXmlElement dummy("dummy"); TiXmlNode* d = e->InsertEndChild(dummy); e->ReplaceChild(d, *k); break; }
    default: e->LinkEndChild(k.release()); break;
    }
  }
}
static TiXmlNode* toXml(Src& s, const Node& n) {
  switch (n.t) {
  case Node::TEXT: return new TiXmlText(n.name.c_str());
  case Node::COMMENT: { TiXmlComment* c = new TiXmlComment(); c->SetValue(n.name.c_str()); return c; }
  case Node::UNKNOWN: { TiXmlUnknown* c = new TiXmlUnknown(); c->SetValue(n.name.c_str()); return c; }
  case Node::DECL: return new TiXmlDeclaration(n.attrs[0].second.c_str(), n.attrs[1].second.c_str(), n.attrs[2].second.c_str());
  default: break;
  }
  TiXmlElement* e = new TiXmlElement(n.name.c_str());
  for (size_t i = 0; i < n.attrs.size(); i++) {
    if (s.chance(1, 6)) { e->SetAttribute("zz_tmp", "gone"); e->SetAttribute(n.attrs[i].first.c_str(), "first"); e->SetAttribute(n.attrs[i].first.c_str(), n.attrs[i].second.c_str()); e->RemoveAttribute("zz_tmp"); }
    else e->SetAttribute(n.attrs[i].first.c_str(), n.attrs[i].second.c_str());
  }
  addKids(s, e, n.kids);
  return e;
}
static Node fromXml(const TiXmlNode* x) {
  Node n;
  n.name = x->Value();
  if (x->ToElement()) {
    n.t = Node::ELEM;
    for (TiXmlAttribute* a = x->ToElement()->FirstAttribute(); a; a = a->Next()) n.attrs.push_back({a->Name(), a->Value()});
  } else if (x->ToText()) n.t = Node::TEXT;
  else if (x->ToComment()) n.t = Node::COMMENT;
  else if (x->ToDeclaration()) { n.t = Node::DECL; n.name = ""; n.attrs = {{"version", x->ToDeclaration()->Version()}, {"encoding", x->ToDeclaration()->Encoding()}, {"standalone", x->ToDeclaration()->Standalone()}}; }
  else n.t = Node::UNKNOWN;
  for (TiXmlNode* k = x->FirstChild(); k; k = k->NextSibling()) {
    REQUIRE(k->Parent() == x, "child's parent link is wrong");
    REQUIRE(k->NextSibling() || x->LastChild() == k, "last child link is wrong");
    REQUIRE(!k->NextSibling() || k->NextSibling()->PreviousSibling() == k, "sibling links disagree");
    n.kids.push_back(fromXml(k));
  }
  return n;
}
static std::vector<Node> fromDoc(const TiXmlDocument& d) { return fromXml(&d).kids; }

struct Tmp {
  std::string path;
  Tmp() { char t[] = "/tmp/pbtxml.XXXXXX"; int fd = mkstemp(t); if (fd >= 0) close(fd); path = t; }
  ~Tmp() { unlink(path.c_str()); }
};
static std::string slurp(const std::string& p) { FILE* f = fopen(p.c_str(), "r"); std::string r; char b[4096]; size_t k; while (f && (k = fread(b, 1, sizeof b, f)) > 0) r.append(b, k); if (f) fclose(f); return r; }
static Tmp& tmp() { static pid_t p = 0; static std::unique_ptr<Tmp> t; if (p != getpid()) { t.release(); t.reset(new Tmp()); p = getpid(); } return *t; }
static std::string filePrint(const TiXmlDocument& d) { REQUIRE(d.SaveFile(tmp().path.c_str()), "could not save"); std::string r = slurp(tmp().path); unlink(tmp().path.c_str()); return r; }
static std::string streamPrint(const TiXmlNode& d) { std::ostringstream o; o << d; return o.str(); }

static void queries(const TiXmlNode* x, const Node& m) {
  if (m.t == Node::ELEM && x->ToElement()) {
    const TiXmlElement* e = x->ToElement();
    for (auto& a : m.attrs) {
      const char* v = e->Attribute(a.first.c_str());
      REQUIRE(v && a.second == v, "attribute " << a.first << " not found or different");
      int i = 0, j = 0; double d = 0;
      e->Attribute(a.first.c_str(), &i);
      REQUIRE(i == atoi(a.second.c_str()), "integer attribute");
      bool isInt = sscanf(a.second.c_str(), "%d", &j) == 1;
      int i2 = 0;
      REQUIRE((e->QueryIntAttribute(a.first.c_str(), &i2) == TIXML_SUCCESS) == isInt && (!isInt || i2 == j), "QueryIntAttribute of '" << a.second << "'");
      double dj = 0; bool isD = sscanf(a.second.c_str(), "%lf", &dj) == 1;
      REQUIRE((e->QueryDoubleAttribute(a.first.c_str(), &d) == TIXML_SUCCESS) == isD && (!isD || d == dj || dj != dj), "QueryDoubleAttribute of '" << a.second << "'");
    }
    REQUIRE(e->Attribute("no-such") == 0 && e->QueryIntAttribute("no-such", 0) == TIXML_NO_ATTRIBUTE, "absent attribute found");
    size_t c = 0; for (TiXmlAttribute* a = e->FirstAttribute(); a; a = a->Next()) c++;
    REQUIRE(c == m.attrs.size(), "attribute count " << c << " instead of " << m.attrs.size());
    c = 0; for (TiXmlAttribute* a = e->LastAttribute(); a; a = a->Previous()) { c++; REQUIRE(m.attrs[m.attrs.size() - c].first == a->Name(), "backward attribute order"); }
    REQUIRE(c == m.attrs.size(), "backward attribute count");
  }
  std::vector<TiXmlNode*> k; for (TiXmlNode* n = 0; (n = x->IterateChildren(n));) k.push_back(n);
  REQUIRE(k.size() == m.kids.size(), "IterateChildren visits " << k.size() << " of " << m.kids.size());
  REQUIRE(x->NoChildren() == m.kids.empty(), "NoChildren");
  std::vector<TiXmlElement*> el;
  for (TiXmlElement* n = x->FirstChildElement(); n; n = n->NextSiblingElement()) el.push_back(n);
  size_t ne = 0;
  for (size_t i = 0; i < m.kids.size(); i++) if (m.kids[i].t == Node::ELEM) { REQUIRE(ne < el.size() && el[ne] == k[i], "child element " << ne); ne++; }
  REQUIRE(ne == el.size(), "number of child elements");
  for (auto& kk : m.kids) if (kk.t == Node::ELEM) {
    std::vector<size_t> want; for (size_t i = 0; i < m.kids.size(); i++) if (m.kids[i].name == kk.name && m.kids[i].t != Node::DECL) want.push_back(i);
    size_t w = 0;
    for (TiXmlNode* n = x->FirstChild(kk.name.c_str()); n; n = n->NextSibling(kk.name.c_str())) { REQUIRE(w < want.size() && k[want[w]] == n, "children named " << kk.name); w++; }
    REQUIRE(w == want.size(), "count of children named " << kk.name);
    REQUIRE(x->LastChild(kk.name.c_str()) == k[want.back()], "last child named " << kk.name);
    std::vector<size_t> we; for (size_t i : want) if (m.kids[i].t == Node::ELEM) we.push_back(i);
    w = 0;
    for (TiXmlElement* n = x->FirstChildElement(kk.name.c_str()); n; n = n->NextSiblingElement(kk.name.c_str())) { REQUIRE(w < we.size() && k[we[w]] == n, "child elements named " << kk.name); w++; }
    REQUIRE(w == we.size(), "count of child elements named " << kk.name);
    TiXmlHandle h(const_cast<TiXmlNode*>(x));
    REQUIRE(h.ChildElement(kk.name.c_str(), (int)we.size() - 1).Element() == k[we.back()] && h.ChildElement(kk.name.c_str(), (int)we.size()).Element() == 0 && h.FirstChildElement(kk.name.c_str()).Element() == k[we[0]], "handle for " << kk.name);
  }
  for (size_t i = 0; i < k.size(); i++) queries(k[i], m.kids[i]);
}
static bool needsEscape(const Node& n) {
  auto f = [](const std::string& t) { for (unsigned char c : t) if (c < 32 || c > 126 || strchr("&<>\"'", c)) return true; return false; };
  for (auto& a : n.attrs) if (f(a.second)) return true;
  if (n.t == Node::TEXT && f(n.name)) return true;
  for (auto& k : n.kids) if (needsEscape(k)) return true;
  return false;
}
static std::vector<Node> normDoc(const std::vector<Node>& d, bool untilRoot) {
  std::vector<Node> r;
  for (auto& n : d) { r.push_back(norm(n)); if (untilRoot && n.t == Node::ELEM) break; }
  return r;
}
static void roundTrip(Src& s) {
  std::vector<Node> d = genDoc(s, 4);
  for (auto& n : d) if (needsEscape(n)) s.nontrivial();
  s.note() << dump(d);
  TiXmlDocument doc;
  addKids(s, &doc, d);
  REQUIRE(dump(fromDoc(doc)) == dump(d), "building the document gave\n" << dump(fromDoc(doc)));
  for (size_t i = 0; i < 1; i++) { Node top; top.t = Node::UNKNOWN; top.kids = d; queries(&doc, top); }
  { // neighbouring texts that join into a hexadecimal reference are passed through by design
    std::function<bool(const Node&)> ref = [&](const Node& n) { if (n.name.find("&#x") != std::string::npos) return true; for (auto& k : n.kids) if (ref(k)) return true; return false; };
    for (auto& n : d) if (ref(norm(n))) throw Discard(); }
  std::string all = dump(normDoc(d, false)), first = dump(normDoc(d, true));
  // stream printer: up to and including the root element
  std::string text = streamPrint(doc);
  s.note() << "stream: " << text << "\n";
  { TiXmlDocument p; p.Parse(text.c_str()); REQUIRE(!p.Error(), "parsing the streamed document failed: " << p.ErrorDesc());
    REQUIRE(dump(fromDoc(p)) == first, "streamed then parsed:\n" << dump(fromDoc(p)) << "expected\n" << first);
    std::string t2 = streamPrint(p); TiXmlDocument p2; p2.Parse(t2.c_str());
    REQUIRE(streamPrint(p2) == t2, "printing is not stable: " << t2 << " then " << streamPrint(p2));
    REQUIRE(p.RootElement() && std::string(p.RootElement()->Value()) == [&] { for (auto& n : d) if (n.t == Node::ELEM) return n.name; return std::string(); }(), "root element"); }
  { std::string app; app << doc; REQUIRE(app == text, "append to string differs from stream output"); }
  { TiXmlDocument p; std::istringstream is(text); is >> p; REQUIRE(!p.Error(), "reading the streamed document failed: " << p.ErrorDesc() << " " << text);
    REQUIRE(dump(fromDoc(p)) == first, "streamed out and in:\n" << dump(fromDoc(p)) << "expected\n" << first); }
  // file printer: everything
  std::string ftext = filePrint(doc);
  s.note() << "file: " << ftext;
  { TiXmlDocument p; p.Parse(ftext.c_str()); REQUIRE(!p.Error(), "parsing the printed document failed: " << p.ErrorDesc());
    REQUIRE(dump(fromDoc(p)) == all, "printed then parsed:\n" << dump(fromDoc(p)) << "expected\n" << all);
    std::string t2 = filePrint(p); TiXmlDocument p2; p2.Parse(t2.c_str());
    REQUIRE(filePrint(p2) == t2, "file printing is not stable");
    { Node top; top.t = Node::UNKNOWN; top.kids = normDoc(d, false); queries(&p, top); } }
  if (!ftext.empty()) {
    FILE* f = fopen(tmp().path.c_str(), "w"); fwrite(ftext.data(), 1, ftext.size(), f); fclose(f);
    TiXmlDocument p(tmp().path.c_str()); bool ok = p.LoadFile(); unlink(tmp().path.c_str());
    REQUIRE(ok && !p.Error(), "loading the printed file failed: " << p.ErrorDesc());
    REQUIRE(dump(fromDoc(p)) == all, "loaded from file:\n" << dump(fromDoc(p)) << "expected\n" << all);
  }
  // clone
  { std::unique_ptr<TiXmlNode> c(static_cast<const TiXmlNode&>(doc).Clone()); REQUIRE(c->ToDocument() && dump(fromDoc(*c->ToDocument())) == dump(d), "clone differs:\n" << dump(fromDoc(*c->ToDocument()))); }
  // a single element through a stream, as the transaction player reads them
  for (auto& n : d) if (n.t == Node::ELEM) {
    std::unique_ptr<TiXmlNode> e(toXml(s, n));
    std::string et = streamPrint(*e);
    std::istringstream is("\n " + et + et);
    TiXmlElement r1(""), r2(""); is >> r1; is >> r2;
    REQUIRE(dump(fromXml(&r1)) == dump(norm(n)), "element through a stream: " << et << " gave\n" << dump(fromXml(&r1)) << "expected\n" << dump(norm(n)));
    REQUIRE(dump(fromXml(&r2)) == dump(norm(n)), "second element through a stream: " << et << " gave\n" << dump(fromXml(&r2)));
  }
}
PBT_PROP("X01", "round_trip", roundTrip, 150000, 30, 2000);

static void numbers(Src& s) {
  TiXmlElement e("n");
  int v = s.flip() ? (int)s.draw(-100, 100) : (int)s.draw(-2147483647L - 1, 2147483647L);
  s.note() << v;
  if (v < 0 || v > 99) s.nontrivial();
  e.SetAttribute("i", v);
  std::ostringstream w; w << v;
  REQUIRE(w.str() == e.Attribute("i"), "integer attribute " << v << " stored as " << e.Attribute("i"));
  int r = 0; REQUIRE(e.QueryIntAttribute("i", &r) == TIXML_SUCCESS && r == v, "integer attribute " << v << " read as " << r);
  e.FirstAttribute()->SetIntValue(v); REQUIRE(e.FirstAttribute()->IntValue() == v, "SetIntValue");
  double d = (double)s.draw(-2000000, 2000000) / 64; e.FirstAttribute()->SetDoubleValue(d);
  REQUIRE(e.FirstAttribute()->DoubleValue() == d, "SetDoubleValue of " << d << " reads " << e.FirstAttribute()->DoubleValue());
}
PBT_PROP("X01", "numeric_attributes", numbers, 20000, 10, 2000);

// ---------------------------------------------------------------- X02
static std::string genBytes(Src& s, bool& wellFormed) {
  static const char* frag[] = {"<", ">", "/", "</", "/>", "<a", "<a>", "</a>", "<b x=", "\"", "'", "=", " ", "\n", "&", "&#x", "&#x4", "&#x41;", ";", "&amp;", "<!--", "-->", "--", "<!", "<?xml", "?>",
                               "<?xml version", "version=", "encoding", "standalone=\"", "x", "text", "\t", "\r\n", "\xe9", "\xff", "<?", "<a b=\"c\" b=\"d\">", "_", ":", "-", "<![CDATA[", "]]>", "&lt", "<1>", "<a/", "a=b"};
  wellFormed = false;
  std::string t;
  size_t k = s.weighted({2, 6, 8});
  if (k == 0) { long n = s.draw(0, 40); for (long i = 0; i < n; i++) { char c = (char)s.draw(1, 255); t += c; } return t; }
  if (k == 1) { long n = s.draw(0, 25); for (long i = 0; i < n; i++) t += frag[s.draw(0, 46)]; return t; }
  std::vector<Node> d = genDoc(s, s.chance(1, 30) ? 8 : 3);
  TiXmlDocument doc; for (auto& n : d) doc.LinkEndChild(toXml(s, n));
  t = s.flip() ? streamPrint(doc) : filePrint(doc);
  if (s.chance(1, 40)) { long m = s.draw(1, 300); std::string o, c; for (long i = 0; i < m; i++) { o += "<q>"; c += "</q>"; } t = o + t + c; }
  long muts = s.draw(0, 4);
  for (long i = 0; i < muts && !t.empty(); i++) {
    size_t p = s.idx(t.size());
    switch (s.draw(0, 6)) {
    case 0: t.resize(p); break;
    case 1: t.erase(p, 1); break;
    case 2: t[p] = (char)s.draw(1, 255); break;
    case 3: t.insert(p, frag[s.draw(0, 46)]); break;
    case 4: { size_t q = std::min(t.size() - p, (size_t)s.draw(1, 20)); t.insert(p, t.substr(p, q)); break; }
    case 5: t.erase(p, s.draw(1, 12)); break;
    default: t[p] = "<>/\"'&= -!?"[s.draw(0, 10)]; break;
    }
  }
  return t;
}
static void use(const TiXmlDocument& d) {  // traverse, print, copy, destroy
  std::string a = dump(fromDoc(d));
  std::string x = streamPrint(d), y = filePrint(d);
  { std::unique_ptr<TiXmlNode> c(static_cast<const TiXmlNode&>(d).Clone()); REQUIRE(dump(fromDoc(*c->ToDocument())) == a, "the copy of an accepted document differs"); }
  REQUIRE(!d.Error() || d.ErrorDesc()[0] != 0, "error without a description");
}
static void total(Src& s) {
  bool wf;
  std::string t = genBytes(s, wf);
  for (char& c : t) if (c == 0) c = ' ';
  s.note() << t;
  bool lt = t.find('<') != std::string::npos;
  { // exactly sized heap copy, so that any overrun is seen
    std::unique_ptr<char[]> buf(new char[t.size() + 1]);
    memcpy(buf.get(), t.c_str(), t.size() + 1);
    TiXmlDocument d;
    d.Parse(buf.get());
    if (lt && (d.FirstChild() || d.Error())) s.nontrivial();
    s.label(d.Error() ? "rejected" : d.FirstChild() ? "accepted" : "empty");
    use(d);
    d.Clear();
    d.Parse("<again>ok</again>");
    REQUIRE(!d.Error() && d.RootElement() && std::string(d.RootElement()->Value()) == "again", "document object unusable after parsing");
  }
  { TiXmlDocument d; std::istringstream is(t); is >> d; use(d); }
  { TiXmlElement e(""); std::istringstream is(t); is >> e; streamPrint(e); fromXml(&e); }
  if (s.chance(1, 4)) {
    FILE* f = fopen(tmp().path.c_str(), "w"); fwrite(t.data(), 1, t.size(), f); fclose(f);
    TiXmlDocument d(tmp().path.c_str()); d.LoadFile(); unlink(tmp().path.c_str()); use(d);
  }
}
PBT_PROP("X02", "arbitrary_input", total, 250000, 30, 1000, 10);

// damaged documents must be reported: cutting inside the root element, or renaming one closing tag
static void damaged(Src& s) {
  Node n = genElem(s, 3);
  std::unique_ptr<TiXmlNode> e(toXml(s, n));
  std::string t = streamPrint(*e);
  std::string how;
  switch (s.draw(0, 2)) {
  case 0: { // not closed
    size_t p = s.idx(t.size() - 1) + 1; t.resize(p); how = "cut"; break; }
  case 1: { size_t p = t.rfind("</"); if (p == std::string::npos) throw Discard(); t.replace(p, t.size() - p, "</other>"); how = "wrong closing tag"; break; }
  default: { t = "<r k=\"1\" k=\"2\">" + t + "</r>"; how = "repeated attribute"; break; }
  }
  s.note() << how << ": " << t;
  s.nontrivial();
  TiXmlDocument d;
  d.Parse(t.c_str());
  REQUIRE(d.Error(), "a document with " << how << " was accepted without an error: " << t);
  use(d);
}
PBT_PROP("X02", "damaged_is_reported", damaged, 120000, 30, 1000, 10);
