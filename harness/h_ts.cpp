// T01: type systems. Random type trees, feature declarations and definition histories against an independent model.
#include "cas.hpp"
#include "uima/typesystem.hpp"
#include "uima/lowlevel_typesystem.hpp"
#include "uima/typesystemdescription.hpp"
#include "uima/xmltypesystemreader.hpp"
#include "uima/xmltypesystemwriter.hpp"
#include <fstream>
using namespace vp; using namespace uima;
typedef lowlevel::TypeSystem LL;

struct MF { std::string name, intro, range; bool multi; };
struct MT { std::string name, parent, creator; std::vector<std::string> allowed; bool builtin; };
struct Model {
  std::vector<MT> t; std::vector<MF> f; std::map<std::string, int> ix;
  void type(const std::string & n, const std::string & p, const std::string & c = "", bool b = false) { ix[n] = (int) t.size(); t.push_back({ n, p, c, {}, b }); }
  void feat(const std::string & n, const std::string & i, const std::string & r, bool m = false) { f.push_back({ n, i, r, m }); }
  bool has(const std::string & n) const { return ix.count(n) != 0; }
  bool isa(std::string sub, const std::string & sup) const { for (;;) { if (sub == sup) return true; if (sub == "uima.cas.TOP") return false; sub = t[ix.at(sub)].parent; } }
  std::vector<const MF *> feats(const std::string & n) const { std::vector<const MF *> o; for (auto & x : f) if (isa(n, x.intro)) o.push_back(&x); return o; }
  const MF * find(const std::string & n, const std::string & b) const { for (auto x : feats(n)) if (x->name == b) return x; return 0; }
  bool below(const std::string & n, const std::string & b) const { for (auto & x : f) if (x.name == b && isa(x.intro, n)) return true; return false; }
  bool stringSub(const std::string & n) const { return n != "uima.cas.String" && isa(n, "uima.cas.String"); }
};
static const char * PRIMS[] = { "Integer", "Float", "String", "Boolean", "Byte", "Short", "Long", "Double" };
static const char * ARRS[] = { "FSArray", "IntegerArray", "FloatArray", "StringArray", "BooleanArray", "ByteArray", "ShortArray", "LongArray", "DoubleArray" };
static const char * SEALED[] = { "uima.cas.Integer", "uima.cas.Float", "uima.cas.String", "uima.cas.Boolean", "uima.cas.Byte", "uima.cas.Short", "uima.cas.Long", "uima.cas.Double", "uima.cas.ArrayBase",
  "uima.cas.FSArray", "uima.cas.IntegerArray", "uima.cas.FloatArray", "uima.cas.StringArray", "uima.cas.BooleanArray", "uima.cas.ByteArray", "uima.cas.ShortArray", "uima.cas.LongArray", "uima.cas.DoubleArray" };
static const int NSEALED = 18;
static Model builtins() {
  Model m; std::string C = "uima.cas."; m.type("uima.cas.TOP", "", "", true);
  for (auto p : PRIMS) m.type(C + p, C + "TOP", "System", true);
  m.type(C + "ArrayBase", C + "TOP", "System", true); for (auto a : ARRS) m.type(C + a, C + "ArrayBase", "System", true);
  m.type(C + "ListBase", C + "TOP", "System", true);
  const char * L[4] = { "FSList", "IntegerList", "FloatList", "StringList" }, * H[4] = { "TOP", "Integer", "Float", "String" };
  for (int i = 0; i < 4; ++i) { m.type(C + L[i], C + "ListBase", "System", true); m.type(C + "Empty" + L[i], C + L[i], "System", true); m.type(C + "NonEmpty" + L[i], C + L[i], "System", true);
    m.feat("head", C + "NonEmpty" + L[i], C + H[i]); m.feat("tail", C + "NonEmpty" + L[i], C + L[i], true); }
  return m;
}
static void casTypes(Model & m) {
  m.type("uima.cas.Sofa", "uima.cas.TOP", "CAS", true); m.type("uima.cas.AnnotationBase", "uima.cas.TOP", "CAS", true); m.type("uima.tcas.Annotation", "uima.cas.AnnotationBase", "CAS", true); m.type("uima.tcas.DocumentAnnotation", "uima.tcas.Annotation", "CAS", true);
  m.feat("sofaNum", "uima.cas.Sofa", "uima.cas.Integer"); m.feat("sofaID", "uima.cas.Sofa", "uima.cas.String"); m.feat("mimeType", "uima.cas.Sofa", "uima.cas.String"); m.feat("sofaArray", "uima.cas.Sofa", "uima.cas.TOP"); m.feat("sofaString", "uima.cas.Sofa", "uima.cas.String"); m.feat("sofaURI", "uima.cas.Sofa", "uima.cas.String");
  m.feat("sofa", "uima.tcas.Annotation", "uima.cas.Sofa"); m.feat("begin", "uima.tcas.Annotation", "uima.cas.Integer"); m.feat("end", "uima.tcas.Annotation", "uima.cas.Integer"); m.feat("language", "uima.tcas.DocumentAnnotation", "uima.cas.String");
}
static std::string nm(const Type & t) { return t.isValid() ? utf8(us(t.getName())) : "<invalid>"; }
static std::string join(const std::set<std::string> & s) { std::string o; for (auto & x : s) o += x + ","; return o; }

// the public API against the model
static void checkAll(Rng & r, const TypeSystem & ts, const Model & m, const std::string & route) {
  std::string K = route + "-"; std::vector<Type> all; ts.getAllTypes(all); std::set<std::string> an, mn; for (auto & t : all) if (!an.insert(nm(t)).second) violation(K + "duplicate-type", nm(t));
  for (auto & t : m.t) mn.insert(t.name); if (an != mn) { std::string d; for (auto & x : an) if (!mn.count(x)) d += "+" + x + " "; for (auto & x : mn) if (!an.count(x)) d += "-" + x + " "; violation(K + "types", d); return; }
  std::vector<Type> ty; for (auto & t : m.t) { Type x = ts.getType(us(t.name)); if (!x.isValid() || nm(x) != t.name) { violation(K + "type-lookup", t.name + " -> " + nm(x)); return; } ty.push_back(x); }
  if (nm(ts.getTopType()) != "uima.cas.TOP") violation(K + "top", nm(ts.getTopType()));
  for (auto & n : { "", "uima.cas", "uima.cas.TOP ", "uima.cas.top", "Integer", "v.NoSuchType", "INVALID_TYPE" }) if (!m.has(n) && ts.getType(us(n)).isValid()) violation(K + "phantom-type", n);
  std::map<std::string, std::set<std::string>> kids, desc; for (auto & t : m.t) { if (t.name != "uima.cas.TOP") kids[t.parent].insert(t.name); for (auto & s : m.t) if (m.isa(s.name, t.name)) desc[t.name].insert(s.name); }
  for (size_t i = 0; i < m.t.size(); ++i) { const MT & t = m.t[i];
    for (size_t k = 0; k < m.t.size(); ++k) { bool e = m.isa(m.t[k].name, t.name); if (ty[i].subsumes(ty[k]) != e) violation(K + "subsumes", t.name + " over " + m.t[k].name + " should be " + (e ? "true" : "false")); if ((ty[i] == ty[k]) != (i == k) || (ty[i] != ty[k]) != (i != k)) violation(K + "type-equality", t.name + " and " + m.t[k].name); }
    std::vector<Type> v; ty[i].getDirectSubTypes(v); std::set<std::string> s; for (auto & x : v) s.insert(nm(x)); if (s != kids[t.name] || s.size() != v.size()) violation(K + "direct-subtypes", t.name + ": " + join(s) + " instead of " + join(kids[t.name]));
    ty[i].getSubTypes(v); s.clear(); for (auto & x : v) s.insert(nm(x)); if (s != desc[t.name] || s.size() != v.size()) violation(K + "subtypes", t.name + ": " + join(s) + " instead of " + join(desc[t.name]));
    bool ss = m.stringSub(t.name); if (ty[i].isStringSubType() != ss) violation(K + "string-subtype", t.name);
    lowlevel::TyFSType c = internal::FSPromoter::demoteType(ty[i]); bool prim = ss; for (auto p : PRIMS) if (t.name == std::string("uima.cas.") + p) prim = true; if (ts.isPrimitive(c) != prim) violation(K + "primitive", t.name);
    if (!t.builtin) { std::string cr = utf8(us(ty[i].getCreatorID())); if (cr != t.creator) violation(K + "type-creator", t.name + ": '" + cr + "' instead of '" + t.creator + "'"); }
    if (ss) { auto & got = LL::promoteTypeSystem(ts).getStringsForStringSubtype(c); std::vector<std::string> g; for (auto & x : got) g.push_back(utf8(x)); if (g != t.allowed) violation(K + "allowed-values", t.name); }
    auto mf = m.feats(t.name); std::vector<Feature> fs; ty[i].getAppropriateFeatures(fs); std::multiset<std::string> gn, en; for (auto & f : fs) { Type in; f.getIntroType(in); gn.insert(nm(in) + ":" + utf8(us(f.getName()))); } for (auto f : mf) en.insert(f->intro + ":" + f->name);
    if (gn != en) { std::string d; for (auto & x : gn) if (gn.count(x) != en.count(x)) d += "+" + x + " "; for (auto & x : en) if (gn.count(x) != en.count(x)) d += "-" + x + " "; violation(K + "features", t.name + ": " + d); }
    for (auto f : mf) { Feature x = ty[i].getFeatureByBaseName(us(f->name)); if (!x.isValid()) { violation(K + "feature-lookup", t.name + ":" + f->name); continue; } Type in, ra; x.getIntroType(in); x.getRangeType(ra);
      if (nm(in) != f->intro || nm(ra) != f->range || utf8(us(x.getName())) != f->name || x.isMultipleReferencesAllowed() != f->multi) violation(K + "feature-properties", f->intro + ":" + f->name + " got " + nm(in) + " " + nm(ra) + (x.isMultipleReferencesAllowed() ? " multi" : ""));
      Feature y = ts.getFeatureByFullName(us(t.name + ":" + f->name)); if (y != x || !(y == x)) violation(K + "full-name-lookup", t.name + ":" + f->name); if (!ty[i].isAppropriateFeature(x)) violation(K + "appropriate", t.name + " " + f->name);
      std::string cr = utf8(us(x.getCreatorID())), ec = m.t[m.ix.at(f->intro)].builtin ? cr : m.t[m.ix.at(f->intro)].creator; if (cr != ec) violation(K + "feature-creator", t.name + ":" + f->name + ": '" + cr + "' instead of '" + ec + "'"); count("evals"); }
    // features of unrelated types
    for (int k = 0; k < 3; ++k) { auto & f = m.f[r.below(m.f.size())]; if (!m.isa(t.name, f.intro)) { Feature x = ts.getType(us(f.intro)).getFeatureByBaseName(us(f.name)); if (x.isValid() && ty[i].isAppropriateFeature(x)) violation(K + "inappropriate", t.name + " " + f.intro + ":" + f.name); }
      if (!m.find(t.name, f.name) && (ty[i].getFeatureByBaseName(us(f.name)).isValid() || ts.getFeatureByFullName(us(t.name + ":" + f.name)).isValid())) violation(K + "phantom-feature", t.name + ":" + f.name); }
    for (auto & n : { "", "noSuch", "INVALIDFEATURE" }) if (ty[i].getFeatureByBaseName(us(n)).isValid() || ts.getFeatureByFullName(us(t.name + ":" + n)).isValid() || ts.getFeatureByFullName(us(t.name + n)).isValid()) violation(K + "phantom-feature", t.name + ":" + n);
    count("evals"); }
  std::vector<Feature> af; ts.getAllFeatures(af); std::multiset<std::string> gn, en; for (auto & f : af) { Type in; f.getIntroType(in); gn.insert(nm(in) + ":" + utf8(us(f.getName()))); } for (auto & f : m.f) en.insert(f.intro + ":" + f.name); if (gn != en) violation(K + "all-features", std::to_string(gn.size()) + " instead of " + std::to_string(en.size()));
  count("types", m.t.size()); count("features", m.f.size());
  std::string sig; for (auto & t : m.t) if (!t.builtin) sig += t.name + "<" + t.parent + ";"; for (auto & f : m.f) sig += f.intro + ":" + f.name + ":" + f.range + ";"; seen(hashStr(sig));
  Type bad; Feature badf; for (int k = 0; k < 8; ++k) { Type o; std::vector<Type> v; std::vector<Feature> fv; std::string oc = outcome([&] { switch (k) { case 0: bad.getName(); break; case 1: bad.getSubTypes(v); break; case 2: bad.getAppropriateFeatures(fv); break; case 3: bad.subsumes(ty[0]); break; case 4: ty[0].subsumes(bad); break; case 5: badf.getName(); break; case 6: badf.getIntroType(o); break; default: bad.isStringSubType(); } }); if (!isUima(oc)) violation(K + "invalid-object", "call " + std::to_string(k) + " on an invalid type or feature: " + oc); }
}

static std::string ident(Rng & r) { static const char * W[] = { "Token", "Sent", "x", "A1", "_p", "Ann", "lemma", "T", "value", "Foo_Bar", "caf\xc3\xa9", "\xe8\xaa\x9e", "TOP", "Integer", "begin" }; return std::string(W[r.below(15)]) + (r.chance(70) ? std::to_string(r.below(40)) : ""); }
static std::string typeName(Rng & r) { static const char * N[] = { "v.", "org.apache.uima.test.", "a.b.c.d.", "", "uima.cas.sub.", "V." }; return N[r.below(6)] + ident(r); }
static void grow(Rng & r, Model & m, const std::string & creator, int nt, int nf) {
  std::vector<std::string> parents, intros, ranges; auto usable = [&](const MT & t) { if (m.isa(t.name, "uima.cas.String")) return false; for (auto s : SEALED) if (t.name == s) return false; return true; };
  for (auto & t : m.t) { ranges.push_back(t.name); if (usable(t)) { parents.push_back(t.name); if (!t.builtin) for (int k = 0; k < 3; ++k) parents.push_back(t.name); } }
  for (int i = 0; i < nt; ++i) { std::string n = typeName(r); if (m.has(n)) continue; if (r.chance(12)) { m.type(n, "uima.cas.String", creator); int k = r.range(1, 4); for (int q = 0; q < k; ++q) m.t.back().allowed.push_back("v" + std::to_string(q) + (r.chance(20) ? " <&>" : "")); ranges.push_back(n); continue; }
    m.type(n, r.pick(parents), creator); ranges.push_back(n); for (int k = r.range(1, 4); k--; ) parents.push_back(n); if (r.chance(30)) parents.assign(1, n), parents.push_back("uima.cas.TOP"); }
  std::vector<std::string> own; for (auto & t : m.t) if (usable(t) && !t.builtin) own.push_back(t.name); if (r.chance(30)) own.push_back("uima.tcas.DocumentAnnotation"); own.erase(std::remove_if(own.begin(), own.end(), [&](const std::string & s) { return !m.has(s); }), own.end());
  for (int i = 0; i < nf && !own.empty(); ++i) { std::string in = r.pick(own), n = ident(r); if (m.find(in, n) || m.below(in, n)) continue; m.feat(n, in, r.pick(ranges), r.chance(25)); }
}
static std::string typeXml(const Model & m, const MT & t, const std::vector<std::string> & extra = {}) {
  std::string x = "<typeDescription><name>" + t.name + "</name><description/><supertypeName>" + t.parent + "</supertypeName>";
  if (!t.allowed.empty()) { x += "<allowedValues>"; for (auto & a : t.allowed) x += "<value><string>" + esc(a) + "</string><description/></value>"; x += "</allowedValues>"; }
  std::string f; for (auto & q : m.f) if (q.intro == t.name && !(t.builtin && m.t.size() == 0)) f += "<featureDescription><name>" + q.name + "</name><description/><rangeTypeName>" + q.range + "</rangeTypeName>" + (q.multi ? "<multipleReferencesAllowed>true</multipleReferencesAllowed>" : "") + "</featureDescription>";
  for (auto & e : extra) f += e; if (!f.empty()) x += "<features>" + f + "</features>"; return x + "</typeDescription>";
}
static std::string tsXml(const std::vector<std::string> & types, const std::string & attrs = "") { std::string x = "<?xml version=\"1.0\" encoding=\"UTF-8\"?><typeSystemDescription xmlns=\"http://uima.apache.org/resourceSpecifier\"" + attrs + "><name>ts</name><description/><version>1.0</version><vendor/><types>"; for (auto & t : types) x += t; return x + "</types></typeSystemDescription>"; }
static std::string aeOf(const std::vector<std::string> & types) { std::string t = "<typeSystemDescription><types>"; for (auto & x : types) t += x; t += "</types></typeSystemDescription>"; Schema s; std::string a = aeXml(s); size_t p = a.find("<typeSystemDescription>"), q = a.find("</typeSystemDescription>"); return a.substr(0, p) + t + a.substr(q + 24); }

struct TS { std::unique_ptr<TypeSystem> own; std::unique_ptr<AnalysisEngineDescription> desc; std::unique_ptr<internal::CASDefinition> def; std::unique_ptr<TypeSystemDescription> tsd; TypeSystem * ts = 0; };
static const char * ROUTE[] = { "ae", "buffer", "ubuffer", "file", "api", "tsdesc" };
static void buildTS(Rng & r, Args & a, int route, const std::vector<std::string> & types, const Model & m, TS & o) {
  ErrorInfo e; std::string x = tsXml(types);
  switch (route) {
    case 0: { o.desc.reset(new AnalysisEngineDescription()); XMLParser p; std::string y = aeOf(types); xercesc::MemBufInputSource src((const XMLByte *) y.data(), y.size(), "gen"); p.parseAnalysisEngineDescription(*o.desc, src); o.desc->validate(); o.desc->commit(); o.def.reset(internal::CASDefinition::createCASDefinition(*o.desc)); o.ts = &o.def->getTypeSystem(); break; }
    case 1: o.own.reset(Framework::createTypeSystemFromXMLBuffer(x.c_str(), e)); o.ts = o.own.get(); break;
    case 2: { UnicodeString u = us(x); std::vector<UChar> b(u.getBuffer(), u.getBuffer() + u.length()); o.own.reset(Framework::createTypeSystem(b.data(), b.size(), e)); o.ts = o.own.get(); break; }
    case 3: { std::string fn = a.tmp + "/ts.xml"; { std::ofstream f(fn.c_str(), std::ios::binary); f << x; } o.own.reset(Framework::createTypeSystem(fn.c_str(), e)); o.ts = o.own.get(); break; }
    case 4: { o.tsd.reset(new TypeSystemDescription()); XMLParser p; for (auto & t : types) { TypeSystemDescription one; std::string y = tsXml({ t }); xercesc::MemBufInputSource src((const XMLByte *) y.data(), y.size(), "gen"); p.parseTypeSystemDescription(one, src); o.tsd->mergeTypeDescriptions(one.getTypeDescriptions()); } o.own.reset(Framework::createTypeSystem(*o.tsd, us("gen"), e)); o.ts = o.own.get(); break; }
    default: { o.tsd.reset(new TypeSystemDescription()); XMLParser p; xercesc::MemBufInputSource src((const XMLByte *) x.data(), x.size(), "gen"); p.parseTypeSystemDescription(*o.tsd, src); o.tsd->validate(); o.own.reset(Framework::createTypeSystem(*o.tsd, us("gen"), e)); o.ts = o.own.get(); }
  }
  if (!o.ts) throw std::runtime_error("no type system, error " + std::to_string(e.getErrorId()));
}
static const char * creatorOf(int route) { return route == 0 || route > 3 ? "gen" : ""; }
static std::vector<std::string> texts(Rng & r, const Model & m) { std::vector<std::string> o; for (auto & t : m.t) { bool has = false; if (t.builtin) { for (auto & f : m.f) if (f.intro == t.name && t.name == "uima.tcas.DocumentAnnotation" && f.name != "language") has = true; if (!has && !(t.name != "uima.cas.TOP" && r.chance(3) && !m.isa(t.name, "uima.cas.ArrayBase"))) continue; bool sealed = false; for (auto s : SEALED) if (t.name == s) sealed = true; if (sealed) continue; } std::vector<std::string> ex; if (!t.builtin && t.allowed.empty() && r.chance(20)) { auto v = m.feats(t.name); if (!v.empty()) { auto f = v[r.below(v.size())]; if (f->intro != t.name) ex.push_back("<featureDescription><name>" + f->name + "</name><description/><rangeTypeName>" + f->range + "</rangeTypeName></featureDescription>"); } } o.push_back(typeXml(m, t, ex)); } for (size_t i = o.size(); i > 1; --i) std::swap(o[i - 1], o[r.below(i)]); return o; }

static void typesystem(Rng & r, Args & a) {
  int route = (int) r.below(6); Model m = builtins(); casTypes(m); grow(r, m, creatorOf(route), r.range(1, r.chance(10) ? 120 : 15), r.range(0, r.chance(10) ? 200 : 25)); std::vector<std::string> x = texts(r, m);
  if (route == 4 || (route == 0 && 0)) { for (auto & t : m.t) if (!t.builtin && t.allowed.empty() && r.chance(10)) x.push_back(typeXml(m, t)); } // declared twice, equal
  op(std::string("route ") + ROUTE[route] + " " + std::to_string(x.size()) + " types"); TS o; std::string oc = outcome([&] { buildTS(r, a, route, x, m, o); }); if (oc != "ok") { violation(std::string(ROUTE[route]) + "-refused", oc + " for a legal type system"); return; }
  count(std::string("route-") + ROUTE[route]); checkAll(r, *o.ts, m, ROUTE[route]);
  // a committed type system takes no more definitions
  Model before = m; LL & ll = LL::promoteTypeSystem(*o.ts); std::string nn = "v.Late"; switch (r.below(5)) {
    case 0: oc = outcome([&] { ll.createType(ll.getTopType(), us(nn), us("x")); }); break;
    case 1: oc = outcome([&] { ll.createFeature(ll.getTypeByName(us("uima.tcas.Annotation")), ll.getTopType(), false, us("late"), us("x")); }); break;
    case 2: { std::vector<UnicodeString> v(1, us("a")); oc = outcome([&] { ll.createStringSubtype(us(nn), v, us("x")); }); break; }
    case 3: { std::string y = "<typeHierarchy><type name=\"uima.cas.TOP\"><type name=\"v.Late\"><feature name=\"late\" range=\"uima.cas.Integer\"/></type></type></typeHierarchy>"; oc = outcome([&] { XMLTypeSystemReader rd(*o.ts); rd.readMemory(y.c_str(), us("late")); }); break; }
    default: oc = outcome([&] { ll.addTypePriority(ll.getTypeByName(us("uima.tcas.Annotation")), ll.getTypeByName(us("uima.cas.Sofa"))); }); break; }
  if (!isUima(oc)) violation("committed", "a change of a committed type system is not refused: " + oc); else count("refusals"); checkAll(r, *o.ts, m, "committed");
}
static void illegal(Rng & r, Args & a) {
  int route = (int) r.below(6); Model m = builtins(); casTypes(m); grow(r, m, creatorOf(route), r.range(2, 12), r.range(2, 15)); std::vector<std::string> x = texts(r, m); std::vector<std::string> plain; for (auto & t : m.t) if (!t.builtin && t.allowed.empty()) plain.push_back(t.name); std::string bad, what; auto decl = [](const std::string & n, const std::string & p, const std::string & f = "", const std::string & al = "") { return "<typeDescription><name>" + n + "</name><description/><supertypeName>" + p + "</supertypeName>" + al + (f.empty() ? "" : "<features>" + f + "</features>") + "</typeDescription>"; };
  auto fd = [](const std::string & n, const std::string & rg) { return "<featureDescription><name>" + n + "</name><description/><rangeTypeName>" + rg + "</rangeTypeName></featureDescription>"; }; auto drop = [&](const std::string & n) { std::vector<std::string> y; for (auto & t : x) if (t.find("<name>" + n + "</name><description/><supertypeName>") == std::string::npos) y.push_back(t); x = y; };
  std::string ss; for (auto & t : m.t) if (!t.allowed.empty()) ss = t.name;
  switch (r.below(14)) {
    case 0: what = "missing-parent"; bad = decl("v.Bad", r.chance(50) ? "v.NoSuchType" : ""); break;
    case 1: { what = "sealed-parent"; std::string s = SEALED[r.below(NSEALED)]; if (s == "uima.cas.String") s = "uima.cas.Long"; bad = decl("v.Bad", s); break; }
    case 2: what = "unknown-range"; bad = decl("v.Bad", "uima.cas.TOP", fd("f", r.chance(50) ? "v.NoSuchType" : "")); break;
    case 3: { what = "feature-on-sealed"; std::string s = SEALED[r.below(NSEALED)]; bad = decl(s, m.t[m.ix[s]].parent, fd("f", "uima.cas.Integer")); break; }
    case 4: what = "duplicate-feature"; bad = decl("v.Bad", "uima.cas.TOP", fd("f", "uima.cas.Integer") + fd("f", "uima.cas.String")); break;
    case 5: { if (plain.empty()) return; what = "duplicate-type"; std::string n = r.pick(plain), p = m.t[m.ix[n]].parent; bad = decl(n, p == "uima.cas.TOP" ? "uima.tcas.Annotation" : "uima.cas.TOP"); break; }
    case 6: { what = "inherited-feature"; std::string s; const MF * f = 0; for (auto & q : m.f) if (q.intro.compare(0, 9, "uima.cas.") && (!f || r.chance(30))) f = &q; bad = decl("v.Bad", f->intro, fd(f->name, f->range == "uima.cas.Integer" ? "uima.cas.Float" : "uima.cas.Integer")); break; }
    case 7: { what = "builtin-parent"; auto & t = m.t[1 + r.below(30)]; bad = decl(t.name, t.parent == "uima.tcas.Annotation" ? "uima.cas.TOP" : "uima.tcas.Annotation"); break; }
    case 8: { what = "redeclared-range"; const MF * f = 0; for (auto & q : m.f) if (!m.t[m.ix[q.intro]].builtin && (!f || r.chance(30))) f = &q; if (!f) return; bad = decl("v.Bad0", f->intro) + decl("v.Bad", "v.Bad0", fd(f->name, f->range == "uima.cas.String" ? "uima.cas.Float" : "uima.cas.String")); break; }
    case 9: what = "subtype-of-string-subtype"; if (ss.empty()) return; bad = decl("v.Bad", ss); break;
    case 10: { what = "cycle"; int n = r.range(1, 4); for (int i = 0; i < n; ++i) bad += decl("v.Cy" + std::to_string(i), "v.Cy" + std::to_string((i + 1) % n)); break; }
    case 11: { what = "builtin-as-string-subtype"; auto & t = m.t[1 + r.below(30)]; if (t.name == "uima.cas.String") return; bad = decl(t.name, "uima.cas.String"); break; }
    case 12: what = "feature-on-string-subtype"; bad = decl("v.Bad", "uima.cas.String", fd("f", "uima.cas.Integer"), "<allowedValues><value><string>a</string><description/></value></allowedValues>"); break;
    default: what = "feature-on-top"; bad = decl("uima.cas.TOP", "", fd("f", "uima.cas.Integer")); }
    if (what == "builtin-parent" || what == "feature-on-sealed" || what == "builtin-as-string-subtype") { size_t q = bad.find("<name>"); std::string n = bad.substr(q + 6, bad.find("</name>") - q - 6); drop(n); }
  if (what == "cycle" && route == 4) { size_t p0 = 0; while (p0 < bad.size()) { size_t e0 = bad.find("</typeDescription>", p0) + 18; x.insert(x.begin() + r.below(x.size() + 1), bad.substr(p0, e0 - p0)); p0 = e0; } } else x.insert(x.begin() + r.below(x.size() + 1), bad);
  op(what + " by " + ROUTE[route] + ": " + bad); TS o; std::string oc = outcome([&] { buildTS(r, a, route, x, m, o); }); if (!isUima(oc)) violation("illegal-" + what, std::string(ROUTE[route]) + ": " + oc); count("refusals"); count("evals"); count("fault-" + what); seen(hashStr(what + ROUTE[route] + bad)); (void) fd;
}
// definition histories on an uncommitted type system
static void history(Rng & r, Args & a) {
  struct Def : internal::CASDefinition { Def() : internal::CASDefinition((AnnotatorContext const *) 0) { createPredefinedCASTypes(); } } def; LL & ll = def.getTypeSystem(); Model m = builtins(); casTypes(m);
  auto quick = [&](const char * at) { std::vector<lowlevel::TyFSType> v; ll.getAllTypes(v); std::vector<lowlevel::TyFSFeature> fv; ll.getAllFeatures(fv); std::set<std::string> tn, fn, en; for (auto t : v) tn.insert(utf8(ll.getTypeName(t))); for (auto f : fv) fn.insert(utf8(ll.getFeatureName(f))); for (auto & f : m.f) en.insert(f.intro + ":" + f.name);
    if (v.size() != m.t.size() || tn.size() != v.size()) violation("history-types", std::string(at) + ": " + std::to_string(v.size()) + " types instead of " + std::to_string(m.t.size())); if (fn != en || fv.size() != m.f.size()) violation("history-features", std::string(at) + ": " + std::to_string(fv.size()) + " features instead of " + std::to_string(m.f.size()));
    for (int k = 0; k < 6; ++k) { auto & x = m.t[r.below(m.t.size())], & y = m.t[r.below(m.t.size())]; lowlevel::TyFSType p = ll.getTypeByName(us(x.name)), q = ll.getTypeByName(us(y.name)); if (ll.subsumes(p, q) != m.isa(y.name, x.name)) violation("history-subsumes", x.name + " " + y.name);
      std::string mc = x.name; while (!m.isa(y.name, mc)) mc = m.t[m.ix[mc]].parent; if (utf8(ll.getTypeName(ll.getMostSpecificCommonSupertype(p, q))) != mc) violation("history-common-supertype", x.name + " " + y.name); if (x.name != "uima.cas.TOP" && utf8(ll.getTypeName(ll.getParentType(p))) != x.parent) violation("history-parent", x.name); } };
  int n = r.range(5, 60); for (int i = 0; i < n; ++i) { std::string oc; int w = r.range(0, 99);
    if (w < 45) { std::string nmn = r.chance(15) ? m.t[r.below(m.t.size())].name : typeName(r), par = m.t[r.below(m.t.size())].name; if (r.chance(60) && m.t.size() > 40) par = m.t[m.t.size() - 1 - r.below(m.t.size() - 38)].name; bool legal = !m.has(nmn) && !m.isa(par, "uima.cas.String"); for (auto s : SEALED) if (par == s) legal = false; op("createType " + nmn + " < " + par); lowlevel::TyFSType t = 0; oc = outcome([&] { t = ll.createType(ll.getTypeByName(us(par)), us(nmn), us("hist")); });
      if (legal ? oc != "ok" : !isUima(oc)) { violation(legal ? "history-legal-type" : "history-illegal-type", nmn + " < " + par + ": " + oc); return; } if (legal) { if (ll.getTypeByName(us(nmn)) != t) violation("history-type-lookup", nmn); m.type(nmn, par, "hist"); } else count("refusals"); }
    else if (w < 55) { std::string nmn = r.chance(25) ? m.t[r.below(m.t.size())].name : typeName(r); std::vector<UnicodeString> v; std::vector<std::string> vs; int k = r.range(0, 3); for (int q = 0; q < k; ++q) { vs.push_back("a" + std::to_string(q)); v.push_back(us(vs.back())); } bool legal = !m.has(nmn); op("createStringSubtype " + nmn); oc = outcome([&] { ll.createStringSubtype(us(nmn), v, us("hist")); }); if (legal ? oc != "ok" : !isUima(oc)) { violation(legal ? "history-legal-type" : "history-illegal-type", nmn + ": " + oc); return; } if (legal) { m.type(nmn, "uima.cas.String", "hist"); m.t.back().allowed = vs; } else count("refusals"); }
    else { std::string in = m.t[r.below(m.t.size())].name, ra = m.t[r.below(m.t.size())].name, f = r.chance(25) ? m.f[r.below(m.f.size())].name : ident(r); if (r.chance(70) && m.t.size() > 40) in = m.t[40 + r.below(m.t.size() - 40)].name; bool legal = in != "uima.cas.TOP" && !m.isa(in, "uima.cas.String") && !m.find(in, f); for (auto s : SEALED) if (in == s) legal = false; bool mu = r.chance(30);
      if (legal && m.below(in, f)) continue; // known finding: a feature added above an equally named one
      op("createFeature " + in + ":" + f + " " + ra); oc = outcome([&] { ll.createFeature(ll.getTypeByName(us(in)), ll.getTypeByName(us(ra)), mu, us(f), us("hist")); }); if (legal ? oc != "ok" : !isUima(oc)) { violation(legal ? "history-legal-feature" : "history-illegal-feature", in + ":" + f + ": " + oc); return; } if (legal) m.feat(f, in, ra, mu); else count("refusals"); }
    count("definitions"); if (r.chance(20)) quick(oc == "ok" ? "after a definition" : "after a refusal"); }
  quick("end"); for (auto & f : m.f) if (m.t[m.ix[f.intro]].builtin) m.t[m.ix[f.intro]].creator = m.t[m.ix[f.intro]].creator;
  std::string oc = outcome([&] { ll.commit(); }); if (oc != "ok") { violation("history-commit", oc); return; } checkAll(r, ll, m, "history");
}
// XMLTypeSystemWriter and XMLTypeSystemReader
static void xmlts(Rng & r, Args & a) {
  Model m = builtins(); casTypes(m); grow(r, m, "gen", r.range(1, 15), r.range(0, 25)); { Model k = builtins(); casTypes(k); std::vector<MF> fs; for (auto & t : m.t) if (!t.builtin && t.allowed.empty()) k.type(t.name, t.parent, t.creator); for (auto & f : m.f) if (std::find_if(k.f.begin(), k.f.end(), [&](const MF & q) { return q.name == f.name && q.intro == f.intro; }) == k.f.end() && k.has(f.range)) k.f.push_back(f); m = k; } // known finding: string subtypes are not written
  TS o; std::string oc = outcome([&] { buildTS(r, a, 0, texts(r, m), m, o); }); if (oc != "ok") { violation("xmlts-refused", oc); return; } ErrorInfo e; std::unique_ptr<CAS> c(Framework::createCAS(*o.def, e)); std::ostringstream os; XMLTypeSystemWriter w(*c); w.write(os); std::string x = os.str();
  struct Def : internal::CASDefinition { Def() : internal::CASDefinition((AnnotatorContext const *) 0) { createPredefinedCASTypes(); } } def; for (auto & t : m.t) if (!t.builtin) t.creator = "again"; LL & ll = def.getTypeSystem(); op("read " + std::to_string(x.size()) + " bytes");
  int how = r.range(0, 3), times = r.range(1, 2); for (int k = 0; k < times; ++k) { oc = outcome([&] { XMLTypeSystemReader rd(def); if (how == 0) rd.readMemory(x.c_str(), us("again")); else if (how == 1) rd.readMemory(us(x), us("again")); else { std::string fn = a.tmp + "/th.xml"; { std::ofstream f(fn.c_str(), std::ios::binary); f << x; } if (how == 2) rd.readFile(fn.c_str(), us("again")); else rd.readFile(us(fn), us("again")); } }); if (oc != "ok") { violation("xmlts-read", oc); return; } }
  ll.commit(); count("round-trips"); checkAll(r, ll, m, "xmlts");
}
// type priorities: a pair that contradicts the accepted ones is refused without effect; the committed order is total and honours all accepted pairs
static void priorities(Rng & r, Args &) {
  struct Def : internal::CASDefinition { Def() : internal::CASDefinition((AnnotatorContext const *) 0) { createPredefinedCASTypes(); } } def; LL & ll = def.getTypeSystem(); int n = r.range(2, 12); std::vector<lowlevel::TyFSType> t;
  for (int i = 0; i < n; ++i) t.push_back(ll.createType(i && r.chance(60) ? r.pick(t) : ll.getTopType(), us("p.T" + std::to_string(i)), us("p"))); if (r.chance(30)) { t.push_back(ll.getTypeByName(us("uima.tcas.Annotation"))); t.push_back(ll.getTopType()); n = (int) t.size(); }
  std::vector<std::vector<char> > reach(n, std::vector<char>(n, 0)); int m = r.chance(10) ? 0 : r.range(1, 25); std::string what; std::vector<int> line; for (int i = 0; i < n; ++i) line.push_back(i); for (int i = n - 1; i > 0; --i) std::swap(line[i], line[r.below(i + 1)]); int cyc = 0, ok = 0;
  for (int k = 0; k < m; ++k) { int a = r.below(n), b = r.below(n); if (r.chance(60)) { a = r.below(n - 1); b = a + 1 + r.below(n - 1 - a); a = line[a]; b = line[b]; } bool want = a != b && !reach[b][a]; bool got = false; op("priority " + std::to_string(a) + " " + std::to_string(b) + (want ? "" : " cyclic")); std::string oc = outcome([&] { got = ll.addTypePriority(t[a], t[b]); }); count("evals");
    if (oc != "ok") { violation("priority-exception", oc); return; } if (got != want) { violation(want ? "priority-refused" : "cyclic-priority-accepted", std::to_string(a) + " " + std::to_string(b)); return; } if (!want) { ++cyc; count("cyclic-priorities"); continue; } ++ok; what += std::to_string(a) + "<" + std::to_string(b) + " ";
    for (int i = 0; i < n; ++i) if (i == a || reach[i][a]) for (int j = 0; j < n; ++j) if (j == b || reach[b][j]) reach[i][j] = 1; }
  std::string oc = outcome([&] { ll.commit(); }); if (oc != "ok") { violation("priority-commit", oc); return; }
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (reach[i][j]) { count("evals"); if (!(ll.getTypePriorityNumber(t[i]) < ll.getTypePriorityNumber(t[j]))) { violation("priority-not-honoured", std::to_string(i) + " before " + std::to_string(j)); return; } }
  std::vector<lowlevel::TyFSType> all; ll.getAllTypes(all); std::set<size_t> nums; for (auto q : all) nums.insert(ll.getTypePriorityNumber(q)); if (nums.size() != all.size()) violation("priority-not-total", std::to_string(nums.size()) + " numbers for " + std::to_string(all.size()) + " types");
  bool late = false; oc = outcome([&] { late = ll.addTypePriority(t[0], t[n - 1]); }); if (!isUima(oc)) violation("priority-after-commit", oc + (late ? " true" : " false")); count("priority-histories"); seen(hashStr(what + std::to_string(n)));
}
static void pinned(Rng & r, Args & a) {
  { struct Def : internal::CASDefinition { Def() : internal::CASDefinition((AnnotatorContext const *) 0) { createPredefinedCASTypes(); } } def; LL & ll = def.getTypeSystem(); auto A = ll.createType(ll.getTopType(), us("v.A"), us("p")), B = ll.createType(A, us("v.B"), us("p")); ll.createFeature(B, ll.getTopType(), false, us("f"), us("p")); std::string oc = outcome([&] { ll.createFeature(A, ll.getTopType(), false, us("f"), us("p")); }); std::vector<lowlevel::TyFSFeature> v; ll.commit(); ll.getAppropriateFeatures(B, v); if (!isUima(oc) && v.size() != 1) violation("feature-above-equal-name", "v.B gets two features f when v.A declares f after v.B did"); }
  { Model m = builtins(); casTypes(m); m.type("v.E", "uima.cas.String", "gen"); m.t.back().allowed.push_back("a"); TS o; buildTS(r, a, 0, { typeXml(m, m.t.back()) }, m, o); ErrorInfo e; std::unique_ptr<CAS> c(Framework::createCAS(*o.def, e)); std::ostringstream os; XMLTypeSystemWriter w(*c); w.write(os); struct Def : internal::CASDefinition { Def() : internal::CASDefinition((AnnotatorContext const *) 0) { createPredefinedCASTypes(); } } def; std::string oc = outcome([&] { XMLTypeSystemReader rd(def); rd.readMemory(os.str().c_str(), us("again")); }); if (oc != "ok") violation("xmlts-string-subtype", "the type system writer's output for a string subtype is refused by its reader: " + oc.substr(0, 120)); }
  count("evals", 2); seen(r.next());
}
int main(int argc, char ** argv) { ResourceManager::createInstance("vp"); return drive(argc, argv, { { "typesystem", typesystem }, { "illegal", illegal }, { "history", history }, { "xmlts", xmlts }, { "priorities", priorities }, { "pinned", pinned } }); }
