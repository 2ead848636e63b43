// D01, D02: component descriptors. Random descriptor models rendered as XML documents (imports, nesting, lexical noise) against what
// the parsed description exposes, and faulty descriptors against the framework's error reporting.
#include "dgen.hpp"
#include "uima/taespecifierbuilder.hpp"
#include "uima/typesystemdescription.hpp"
#include "uima/capability.hpp"
#include "uima/sofamapping.hpp"
#include "uima/importdescription.hpp"
#include "uima/casdefinition.hpp"
#include "uima/resmgr.hpp"
#include "xercesc/framework/MemBufInputSource.hpp"
#include "xercesc/parsers/XercesDOMParser.hpp"
#include "xercesc/dom/DOM.hpp"
using namespace vp; using namespace uima;
typedef AnalysisEngineMetaData MD; typedef AnalysisEngineDescription AED;

typedef std::vector<std::string> Lines;         // "kind|path|content"

// ---- expected content ------------------------------------------------------------------------
static std::string q(const std::string & s) { return "'" + u8(us(s)) + "'"; }
static std::string q(const UnicodeString & s) { return "'" + u8(s) + "'"; }
static std::string fv(float f) { char b[48]; snprintf(b, sizeof b, "%.9g/%08x", f, (unsigned) fbits(f)); return b; }
static void put(Lines & o, const std::string & kind, const std::string & path, const std::string & c) { o.push_back(kind + "|" + path + "|" + c); }
static std::string joinQ(const Strs & v) { std::string s; for (auto & x : v) s += q(x) + " "; return s; }
static std::string showIdx(const DIndex & d) { std::string s = q(d.label) + " " + q(d.type) + " " + std::to_string(d.kind); for (auto & k : d.keys) s += k.prio ? " <prio>" : " " + q(k.feat) + (k.rev ? "-" : "+"); return s; }
static std::string showVals(const DVal & v) { std::string s = std::string(PTN[v.type]) + (v.multi ? "[] " : " "); for (auto & x : v.v) { if (v.type == P_FLOAT) s += fv(strtof(x.c_str(), 0)) + " "; else if (v.type == P_STRING) s += q(x) + " "; else s += x + " "; } return s; }
static void expTypes(Lines & o, const std::string & path, const std::vector<DType> & ts) { for (auto & t : ts) { put(o, "type", path, q(t.name) + " super " + q(t.super) + " desc " + q(t.desc)); for (auto & f : t.feats) put(o, "feature", path + "/" + t.name, q(f.name) + " " + q(f.range) + " " + q(f.elem) + (f.multi ? " multi " : " single ") + q(f.desc)); for (auto & a : t.allowed) put(o, "allowed", path + "/" + t.name, q(a.first) + " " + q(a.second)); } }
struct Ctx { const Gen * g; bool files = true, merged = false; };
static std::vector<DType> merged(const Gen & g, const DAe & a) { std::vector<DType> o = g.flat(a); DTs t; t.types = o; for (auto & d : a.dels) { std::vector<DType> m = merged(g, d.second); std::set<std::string> done; DTs x; x.types = m; g.collect(x, done, o); } return o; }
static void expect(Lines & o, const std::string & path, const DAe & a, const Ctx & c) {
  put(o, "root", path, ROOTS[a.root]); put(o, "framework", path, a.cpp ? "cpp" : "java"); put(o, "primitive", path, a.prim ? "yes" : "no"); put(o, "implementation", path, a.prim ? q(a.impl) : q(std::string())); if (c.files) put(o, "location", path, a.xmlLoc);
  put(o, "name", path, q(a.name)); put(o, "description", path, q(a.desc)); put(o, "version", path, q(a.version)); put(o, "vendor", path, q(a.vendor));
  put(o, "groups", path, a.grouped() ? "yes" : "no"); if (a.grouped() && !a.defGroup.empty()) put(o, "default-group", path, q(a.defGroup)); if (a.grouped() || c.files) put(o, "strategy", path, std::to_string(a.strategy));
  auto pv = [&](const std::string & g, const DParam & p) { std::string id = g + "/" + p.name; std::string vis; for (auto & d : a.dels) if (p.restr.empty() || std::find(p.restr.begin(), p.restr.end(), d.first) != p.restr.end()) vis += q(d.first) + " "; for (int k = 0; k < 9; ++k) { std::string n = "k" + std::to_string(k); if (p.restr.empty() || std::find(p.restr.begin(), p.restr.end(), n) != p.restr.end()) vis += n + " "; } put(o, "parameter", path, q(id) + " visible to " + vis); const DVal * v = valueOf(a, g, p.name); put(o, "value", path, q(id) + " = " + (v ? showVals(*v) : "none")); };
  if (a.grouped()) { for (auto & g : allGroups(a)) for (auto & p : paramsOf(a, g)) pv(g, p); } else for (auto & p : a.plain) pv("", p);
  std::vector<DType> ts = c.merged ? merged(*c.g, a) : c.g->flat(a); expTypes(o, path, ts); for (auto & n : a.ts.importNames) put(o, "import-name", path, q(n));
  auto pr = [&](const std::vector<Strs> & v) { for (auto & s : v) put(o, "priority", path, joinQ(s)); }; for (auto & f : a.prioImports) pr(f.second); pr(a.prios);
  auto ix = [&](const std::vector<DIndex> & v) { for (auto & d : v) put(o, "index", path, showIdx(d)); }; for (auto & f : a.idxImports) ix(f.second); ix(a.idx);
  for (size_t i = 0; i < a.caps.size(); ++i) { const DCap & k = a.caps[i]; std::string s = std::to_string(i) + ":"; for (int j = 0; j < 2; ++j) { s += " types " + joinQ(k.types[j]) + "features "; Strs f; for (auto & t : k.types[j]) if (std::find(k.all[j].begin(), k.all[j].end(), t) != k.all[j].end()) for (auto & x : a.ts.types) if (x.name == t) for (auto & y : x.feats) f.push_back(t + ":" + y.name); for (auto & x : k.feats[j]) f.push_back(x); s += joinQ(f); s += "sofas " + joinQ(k.sofas[j]); } put(o, "capability", path, s + " languages " + joinQ(k.langs)); }
  if (a.flow) put(o, "flow", path, std::to_string(a.flow) + " " + joinQ(a.nodes));
  put(o, "operational", path, std::string(a.mod || !a.op ? "modifies " : "") + (a.multiDep || !a.op ? "multiple " : "") + (a.op && a.outCas ? "outputs" : ""));
  for (size_t i = 0; i < a.sofas.size(); ++i) put(o, "sofa-mapping", path, std::to_string(i) + " " + q(a.sofas[i].key) + " " + q(a.sofas[i].comp) + " " + q(a.sofas[i].agg));
  for (auto & d : a.dels) { put(o, "delegate", path, q(d.first)); expect(o, path + ">" + d.first, d.second, c); } }

// ---- observed content ------------------------------------------------------------------------
static std::string obsVals(const NameValuePair & v) { std::string s = std::string(PTN[v.getType()]) + (v.isMultiValued() ? "[] " : " "); std::string tmp;
  switch (v.getType()) { case ConfigurationParameter::STRING: if (v.isMultiValued()) { for (auto & x : v.extractStringValues()) s += q(x) + " "; std::vector<std::string *> b; v.extractSingleByteStringValues(b); std::string t = s.substr(0, s.find(' ') + 1); for (auto p : b) { t += q(*p) + " "; delete p; } if (t != s) violation("parse-single-byte-values", s + " / " + t); } else { s += q(v.extractStringValue()) + " "; if (v.extractSingleByteStringValue() != utf8(v.extractStringValue())) violation("parse-single-byte-value", s); } break;
    case ConfigurationParameter::INTEGER: if (v.isMultiValued()) for (int x : v.extractIntValues()) s += std::to_string(x) + " "; else s += std::to_string(v.extractIntValue()) + " "; break;
    case ConfigurationParameter::FLOAT: if (v.isMultiValued()) for (float x : v.extractFloatValues()) s += fv(x) + " "; else s += fv(v.extractFloatValue()) + " "; break;
    default: if (v.isMultiValued()) for (bool x : v.extractBoolValues()) s += x ? "true " : "false "; else s += v.extractBoolValue() ? "true " : "false "; }
  auto refuses = [&](int t, bool m) { std::string oc = outcome([&] { switch (t * 2 + m) { case 0: v.extractStringValue(); break; case 1: v.extractStringValues(); break; case 2: v.extractIntValue(); break; case 3: v.extractIntValues(); break; case 4: v.extractFloatValue(); break; case 5: v.extractFloatValues(); break; case 6: v.extractBoolValue(); break; default: v.extractBoolValues(); } }); bool fits = t == (int) v.getType() && m == v.isMultiValued(); if (fits ? oc != "ok" : !isUima(oc)) violation("parse-extractor-mismatch", s + " read as " + PTN[t] + (m ? "[]: " : ": ") + oc); };
  for (int t = 0; t < 4; ++t) { refuses(t, false); refuses(t, true); } return s; }
static void obsTypes(Lines & o, const std::string & path, const TypeSystemDescription & t) { for (auto td : t.getTypeDescriptions()) { put(o, "type", path, q(td->getName()) + " super " + q(td->getSuperTypeName()) + " desc " + q(td->getDescription())); for (auto f : td->getFeatureDescriptions()) put(o, "feature", path + "/" + utf8(td->getName()), q(f->getName()) + " " + q(f->getRangeTypeName()) + " " + q(f->getElementType()) + (f->isMultipleReferencesAllowed() ? " multi " : " single ") + q(f->getDescription())); for (auto a : td->getAllowedValues()) put(o, "allowed", path + "/" + utf8(td->getName()), q(a->getName()) + " " + q(a->getDescription())); } }
static std::string obsIdx(const FSIndexDescription & d) { std::string s = q(d.getLabel()) + " " + q(d.getTypeName()) + " " + std::to_string(d.getIndexKind() == FSIndexDescription::SORTED ? 0 : d.getIndexKind() == FSIndexDescription::SET ? 1 : 2); for (auto k : d.getFSIndexKeys()) s += k->isTypePriority() ? std::string(" <prio>") : " " + q(k->getFeatureName()) + (k->getComparator() == FSIndexKeyDescription::REVERSE ? "-" : "+"); return s; }
static std::string joinU(const std::vector<UnicodeString> & v) { std::string s; for (auto & x : v) s += q(x) + " "; return s; }
static std::string relTo(const std::string & loc, const std::string & dir) { char b[PATH_MAX]; std::string p = realpath(loc.c_str(), b) ? b : loc; char c[PATH_MAX]; std::string d = realpath(dir.c_str(), c) ? c : dir; return p.compare(0, d.size() + 1, d + "/") == 0 ? p.substr(d.size() + 1) : p; }
static void observe(Lines & o, const std::string & path, AED & d, const DAe & a, const Ctx & c) {
  std::string root = utf8(d.getXmlRootTag()); put(o, "root", path, root); put(o, "framework", path, d.getFrameworkImplName() == AED::CPLUSPLUS ? "cpp" : "java"); put(o, "primitive", path, d.isPrimitive() ? "yes" : "no"); put(o, "implementation", path, q(d.getAnnotatorImpName())); if (c.files) put(o, "location", path, relTo(utf8(d.getXmlFileLocation()), c.g->fs.dir));
  MD * m = d.getAnalysisEngineMetaData(); if (!m) { put(o, "metadata", path, "missing"); return; }
  put(o, "name", path, q(m->getName())); put(o, "description", path, q(m->getDescription())); put(o, "version", path, q(m->getVersion())); put(o, "vendor", path, q(m->getVendor()));
  put(o, "groups", path, m->hasGroups() ? "yes" : "no"); if (m->hasGroups() && m->hasDefaultGroup()) put(o, "default-group", path, q(m->getGroupNameWhenNotSpec())); if (m->hasGroups() || c.files) put(o, "strategy", path, std::to_string((int) m->getSearchStrategy()));
  auto pv = [&](const std::string & g, const DParam & p) { std::string id = g + "/" + p.name; UnicodeString G = us(g), P = us(p.name); auto vis1 = [&](const std::string & k) { return a.grouped() ? m->isParameterDefined(G, P, us(k)) : m->isParameterDefined(P, us(k)); }; if (!vis1("")) { put(o, "parameter", path, q(id) + " undefined"); return; }
    std::string vis; for (auto & x : a.dels) if (vis1(x.first)) vis += q(x.first) + " "; for (int k = 0; k < 9; ++k) { std::string n = "k" + std::to_string(k); if (vis1(n)) vis += n + " "; } put(o, "parameter", path, q(id) + " visible to " + vis);
    NameValuePair * v = a.grouped() ? m->getNameValuePair(G, P, MD::NONE) : m->getNameValuePair(P); put(o, "value", path, q(id) + " = " + (v ? obsVals(*v) : "none")); };
  if (a.grouped()) { for (auto & g : allGroups(a)) for (auto & p : paramsOf(a, g)) pv(g, p); } else for (auto & p : a.plain) pv("", p);
  obsTypes(o, path, *m->getTypeSystemDescription()); for (auto i : m->getTypeSystemDescription()->getImportDescriptions()) put(o, "import-name", path, q(i->getName()) + (i->getLocation().length() ? " at " + q(i->getLocation()) : ""));
  for (auto p : m->getTypePriorities()) put(o, "priority", path, joinU(p->getTypeOrder())); for (auto i : m->getFSIndexDescriptions()) put(o, "index", path, obsIdx(*i));
  auto & cp = m->getCapabilites(); for (size_t i = 0; i < cp.size(); ++i) { std::string s = std::to_string(i) + ":"; Capability::EnTypeStyle T[2] = { Capability::INPUT, Capability::OUTPUT }, S[2] = { Capability::INPUTSOFA, Capability::OUTPUTSOFA }; for (int j = 0; j < 2; ++j) s += " types " + joinU(cp[i]->getCapabilityTypes(T[j])) + "features " + joinU(cp[i]->getCapabilityFeatures(T[j])) + "sofas " + joinU(cp[i]->getCapabilitySofas(S[j])); put(o, "capability", path, s + " languages " + joinU(cp[i]->getSupportedLanguages())); }
  if (FlowConstraints * f = (FlowConstraints *) m->getFlowConstraints()) put(o, "flow", path, std::string(f->getFlowConstraintsType() == FlowConstraints::FIXED ? "1 " : "2 ") + joinU(f->getNodes()));
  if (auto op = m->getOperationalProperties()) put(o, "operational", path, std::string(op->getModifiesCas() ? "modifies " : "") + (op->isMultipleDeploymentAllowed() ? "multiple " : "") + (op->getOutputsNewCASes() ? "outputs" : "")); else put(o, "operational", path, "modifies multiple ");
  int n = 0; for (auto s : d.getSofaMappings()) put(o, "sofa-mapping", path, std::to_string(n++) + " " + q(s->getComponentKey()) + " " + q(s->getComponentSofaName()) + " " + q(s->getAggregateSofaName()));
  for (auto & x : d.getDelegates()) { std::string k = utf8(x.first); put(o, "delegate", path, q(k)); const DAe * md = 0; for (auto & y : a.dels) if (y.first == k) md = &y.second; if (md && x.second) observe(o, path + ">" + k, *x.second, *md, c); if (d.getDelegate(x.first) != x.second) violation("parse-get-delegate", k); }
  if (d.getDelegate("no such delegate")) violation("parse-get-delegate", "phantom"); }
static bool compare(const Lines & e, const Lines & o, const std::string & route) {
  std::multiset<std::string> E(e.begin(), e.end()), O(o.begin(), o.end()); count("facts", (long) e.size()); if (E == O) return true;
  std::string miss, extra; int n = 0; for (auto & x : E) if (O.count(x) < E.count(x) && ++n < 4) miss += " missing: " + x; n = 0; for (auto & x : O) if (E.count(x) < O.count(x) && ++n < 4) extra += " instead: " + x;
  std::string k; for (auto & x : E) if (O.count(x) < E.count(x)) { k = x.substr(0, x.find('|')); break; } if (k.empty()) for (auto & x : O) if (E.count(x) < O.count(x)) { k = x.substr(0, x.find('|')); break; }
  violation(route + "-" + k, miss + extra); return false; }

// ---- D01 ---------------------------------------------------------------------------------------

static void declarations(AED & d, const DAe & a, const std::string & path) { // types and multiplicities accepted for new values
  MD * m = d.getAnalysisEngineMetaData(); auto one = [&](const std::string & g, const DParam & p) { for (int t = 0; t < 4; ++t) for (int k = 0; k < 2; ++k) { NameValuePair v; v.setName(us(p.name)); v.define((ConfigurationParameter::EnParameterType) t, (ConfigurationParameter::EnParameterAggregation) (k != 0)); TyErrorId e = a.grouped() ? m->setNameValuePair(us(g), v) : m->setNameValuePair(v); TyErrorId want = t == p.type && (k != 0) == p.multi ? UIMA_ERR_NONE : UIMA_ERR_CONFIG_INVALID_TYPE_FOR_PARAM; count("declarations"); if (e != want) violation("declaration-type", path + " " + g + "/" + p.name + " declared " + PTN[p.type] + (p.multi ? "[]" : "") + " offered " + PTN[t] + (k ? "[]" : "") + ": " + std::to_string(e)); } };
  if (a.grouped()) { for (auto & g : allGroups(a)) for (auto & p : paramsOf(a, g)) one(g, p); } else for (auto & p : a.plain) one("", p);
  for (auto & x : a.dels) if (AED * y = d.getDelegate(us(x.first))) declarations(*y, x.second, path + ">" + x.first); }
static void frozen(AED & d) { MD * m = d.getAnalysisEngineMetaData(); bool own; TypeDescription * td = new TypeDescription(); td->setName("late.Type"); ImportDescription * im = new ImportDescription(); auto chk = [&](const char * w, TyErrorId e) { count("frozen"); if (e != UIMA_ERR_CONFIG_OBJECT_COMITTED) violation(std::string("commit-") + w, std::to_string(e)); };
  chk("name", m->setName("x")); chk("desc", m->setDescription("x")); chk("version", m->setVersion("x")); chk("vendor", m->setVendor("x")); chk("default-group", m->setDefaultGroupName("x")); chk("strategy", m->setSearchStrategy(MD::NONE)); chk("type", m->getTypeSystemDescription()->addTypeDescription(td, own)); if (own) violation("commit-type-owned", ""); chk("import", m->getTypeSystemDescription()->addImportDescription(im, own)); delete td; delete im; chk("primitive", d.setPrimitive(true));
  for (auto t : m->getTypeSystemDescription()->getTypeDescriptions()) { chk("type-name", t->setName("x")); for (auto f : t->getFeatureDescriptions()) chk("feature-name", f->setName("x")); } for (auto c : m->getCapabilites()) chk("capability", c->addCapabilityType("x", Capability::INPUT)); for (auto i : m->getFSIndexDescriptions()) { chk("index-label", i->setLabel("x")); for (auto k : i->getFSIndexKeys()) chk("index-key", k->setFeatureName("x")); } for (auto p : m->getTypePriorities()) chk("priority", p->addType("x"));
  if (FlowConstraints * f = (FlowConstraints *) m->getFlowConstraints()) chk("flow", f->addNode("x")); for (auto & x : d.getDelegates()) frozen(*x.second); }

static void parseRoute(int route, AED & d, const std::string & file, const std::string & xml) {
  XMLParser p; TextAnalysisEngineSpecifierBuilder b; switch (route) { case 0: p.parseAnalysisEngineDescription(d, file.c_str()); break; case 1: p.parseAnalysisEngineDescription(d, us(file)); break; case 2: b.buildTaeFromFile(d, file.c_str()); break; case 3: b.buildTaeFromFile(d, us(file)); break;
    default: { xercesc::MemBufInputSource src((XMLByte const *) xml.data(), xml.size(), file.c_str()); p.parseAnalysisEngineDescription(d, src); } } }
static void d01(Rng & r, Args & args) {
  Scratch sc(args.tmp); Gen g(r); g.fs.dir = sc.d; g.mkPool(); DAe a = g.mk(0); std::string self = newFile(r, g.fs, "main"); std::string xml = renderAe(r, a, g.fs, self); g.fs.files.push_back({ self, xml }); long bytes = 0; for (auto & f : g.fs.files) { writeFile(sc.d + "/" + f.first, f.second); bytes += (long) f.second.size(); }
  count("files", (long) g.fs.files.size()); count("bytes", bytes); seen(hashStr(xml)); static const bool dump = getenv("VP_DUMP"); if (dump) for (auto & f : g.fs.files) fprintf(stderr, "=== %s\n%s\n", f.first.c_str(), f.second.c_str());
  Ctx c; c.g = &g; AED d; int route = r.below(5); std::string oc; try { parseRoute(route, d, sc.d + "/" + self, xml); oc = "ok"; } catch (uima::Exception & e) { oc = e.asString(); } if (oc != "ok") { violation("valid-rejected", "route " + std::to_string(route) + ": " + oc); return; }
  Lines E, O; expect(E, "", a, c); observe(O, "", d, a, c); count("evals"); if (!compare(E, O, "parse")) return; if (args.first == 0) sample(xml.substr(0, 500));
  // written and read again
  bool flowless = false; std::function<void(const DAe &)> fl = [&](const DAe & x) { if (!x.prim && !x.flow) flowless = true; for (auto & y : x.dels) fl(y.second); }; fl(a);
  UnicodeString out; d.toXMLBuffer(out); AED d2; TextAnalysisEngineSpecifierBuilder b; oc = outcome([&] { if (r.chance(50)) b.buildTaeFromMemory(d2, out); else b.buildTaeFromMemory(d2, utf8(out).c_str()); }); if (oc != "ok") { violation("rewrite-rejected", oc + " " + utf8(out)); return; }
  c.files = false; Lines E2, O2; expect(E2, "", a, c); observe(O2, "", d2, a, c); if (!compare(E2, O2, "rewrite")) return; count("rewrites"); (void) flowless;
  UnicodeString out2; d2.toXMLBuffer(out2); if (out2 != out) violation("rewrite-unstable", utf8(out) + " / " + utf8(out2));
  // the partial writers
  { UnicodeString s; MD * m = d.getAnalysisEngineMetaData(); b.appendToXMLBuffer(m->getFSIndexDescriptions(), s); MD::TyVecpFSIndexDescriptions v; b.buildFromXMLBuffer(v, s); Lines x, y; for (auto i : m->getFSIndexDescriptions()) put(x, "index", "", obsIdx(*i)); for (auto i : v) { put(y, "index", "", obsIdx(*i)); delete i; } compare(x, y, "partial");
    if (!m->getTypePriorities().empty()) { UnicodeString s2; b.appendToXMLBuffer(m->getTypePriorities(), s2); MD::TyVecpTypePriorities w; b.buildFromXMLBuffer(w, s2); Lines p, o; for (auto i : m->getTypePriorities()) put(p, "priority", "", joinU(i->getTypeOrder())); for (auto i : w) { put(o, "priority", "", joinU(i->getTypeOrder())); delete i; } compare(p, o, "partial"); }
    if (!d.getSofaMappings().empty()) { UnicodeString s3; b.appendToXMLBuffer(d.getSofaMappings(), s3); AED::TyVecpSofaMappings w; b.buildFromXMLBuffer(w, s3); Lines p, o; auto sh = [](SofaMapping * k) { return q(k->getComponentKey()) + q(k->getComponentSofaName()) + q(k->getAggregateSofaName()); }; for (auto i : d.getSofaMappings()) put(p, "sofa-mapping", "", sh(i)); for (auto i : w) { put(o, "sofa-mapping", "", sh(i)); delete i; } compare(p, o, "partial"); } }
  declarations(d2, a, "");
  // validation merges the type systems of the delegates, commit freezes
  std::string prob = valProblem(a); oc = outcome([&] { d.validate(); }); if (prob.empty() ? oc != "ok" : !isUima(oc)) { violation(prob.empty() ? "validate-rejects" : "validate-accepts", oc + " " + prob); return; } count(prob.empty() ? "validated" : "refused"); if (!prob.empty()) return;
  c.files = true; c.merged = true; Lines E3, O3; expect(E3, "", a, c); observe(O3, "", d, a, c); if (!compare(E3, O3, "validate")) return; d.commit(); Lines O4; observe(O4, "", d, a, c); compare(E3, O4, "commit"); frozen(d); }

int main(int argc, char ** argv) {
  std::string mode = argc > 1 ? argv[1] : ""; if (mode == "schema") { gSchema = true; setenv("UIMACPP_HOME", "/repo", 1); } else unsetenv("UIMACPP_HOME");
  ResourceManager::createInstance("vp");
  if (gSchema && !ResourceManager::getInstance().isSchemaAvailable()) { fprintf(stderr, "schema not found\n"); return 3; }
  int rc = drive(argc, argv, { { "decl", d01 }, { "schema", d01 } });
  ResourceManager::deleteInstance(); return rc; }
