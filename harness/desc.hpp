#pragma once
// Independent model of component descriptors: random generation, rendering as XML and the expected content.
#include "cas.hpp"
#include <sys/stat.h>
#include <unistd.h>
#include <functional>
namespace vp {
typedef std::vector<std::string> Strs;
static bool gSchema = false;        // descriptors have to satisfy the XML schema
enum PT { P_STRING, P_INT, P_FLOAT, P_BOOL };
static const char * const PTN[] = { "String", "Integer", "Float", "Boolean" };
static const char * const PTAG[] = { "string", "integer", "float", "boolean" };
struct DParam { std::string name, desc; int type = 0; bool multi = false, mand = false; Strs restr; };
struct DVal { std::string name; int type = 0; bool multi = false; Strs v; };     // v: canonical values
struct DFeat { std::string name, range, elem, desc; bool multi = false; };
struct DType { std::string name, super, desc; std::vector<DFeat> feats; std::vector<std::pair<std::string, std::string>> allowed; };
struct DKey { bool prio = false, rev = false; std::string feat; };
struct DIndex { std::string label, type; int kind = 0; std::vector<DKey> keys; };
struct DCap { Strs types[2], feats[2], sofas[2], langs; Strs all[2]; };
struct DSofa { std::string key, comp, agg; };
struct DImport { std::string file; int form = 0; };         // file: name inside the scratch directory
struct DTs { std::vector<DType> types; Strs importFiles, importNames; };
struct DAe {
  int root = 0; bool cpp = true, prim = true; std::string impl, name, desc, version, vendor, xmlLoc;
  std::vector<DParam> common, plain; std::vector<std::pair<Strs, std::vector<DParam>>> groups; std::string defGroup; int strategy = 0; bool strategySet = false;
  std::vector<std::pair<Strs, std::vector<DVal>>> settings;      // group names ({} = not grouped)
  DTs ts; std::vector<Strs> prios; std::vector<DIndex> idx; std::vector<DCap> caps; int flow = 0; Strs nodes; bool op = false, mod = true, multiDep = true, outCas = false;
  std::vector<std::pair<std::string, DAe>> dels; std::vector<DSofa> sofas;
  std::vector<std::pair<std::string, std::vector<DIndex>>> idxImports; std::vector<std::pair<std::string, std::vector<Strs>>> prioImports;
  bool grouped() const { for (auto & g : groups) if (!g.second.empty()) return true; return !common.empty(); }
};
static const char * const ROOTS[] = { "analysisEngineDescription", "taeDescription", "casConsumerDescription" };

// ---- text ------------------------------------------------------------------------------
inline std::string trimIcu(const std::string & s) { UnicodeString u = us(s); u.trim(); return utf8(u); }
inline std::string freeText(Rng & r, int max = 20) { UnicodeString u = randString(r, S_XML, max); u.trim(); return utf8(u); }
inline std::string xname(Rng & r) { static const char * const P[] = { "a", "Param", "x.y", "n-1", "\xc3\xa9t\xc3\xa9", "\xe6\x96\x87", "_u", "k:z", "q9", "Very.Long-Name_" }; std::string s = P[r.below(10)]; if (r.chance(60)) s += std::to_string(r.below(100)); return s; }
// text content in some lexical form
inline std::string lex(Rng & r, const std::string & s) {
  std::string o; if (r.chance(15)) o += r.chance(50) ? "\n   " : " "; UnicodeString u = us(s); int cd = r.chance(12) ? 1 : 0; bool fancy = r.chance(30);
  auto put = [&](UChar32 c, bool cdata) { char b[16]; if (!cdata && (c == '\r' || (fancy && r.chance(20)) || c == 0x85 || c == 0x2028)) { snprintf(b, sizeof b, r.chance(50) ? "&#%d;" : "&#x%x;", (int) c); o += b; return; }
    if (!cdata && c == '<') o += "&lt;"; else if (!cdata && c == '&') o += "&amp;"; else if (!cdata && c == '>') o += "&gt;"; else if (!cdata && c == '"' && r.chance(50)) o += "&quot;"; else { UnicodeString x; x.append(c); o += utf8(x); } };
  int n = u.countChar32(), a = cd ? r.below(n + 1) : 0, b = cd ? a + r.below(n - a + 1) : 0; if (cd) { for (int k = 0, p = 0; k < n; ++k, p = u.moveIndex32(p, 1)) { UChar32 c = u.char32At(p); if (k >= a && k < b && (c == '\r' || c == '>' || c == 0x85 || c == 0x2028)) cd = 0; } }
  int k = 0; for (int p = 0; p <= u.length(); p = u.moveIndex32(p, 1), ++k) { if (cd && k == a) o += "<![CDATA["; if (cd && k == b) o += "]]>"; if (p == u.length()) break; if (fancy && r.chance(4) && !(cd && k >= a && k < b)) o += r.chance(50) ? "<!-- c -->" : "<?pi x?>"; put(u.char32At(p), cd && k >= a && k < b); }
  if (r.chance(15)) o += r.chance(50) ? "\n  " : "\t"; return o; }
inline std::string attr(const std::string & s) { std::string o; for (char c : s) { if (c == '<') o += "&lt;"; else if (c == '&') o += "&amp;"; else if (c == '"') o += "&quot;"; else if (c == '\n') o += "&#10;"; else if (c == '\t') o += "&#9;"; else if (c == '\r') o += "&#13;"; else o += c; } return o; }
struct Xml { Rng & r; bool ws; std::string o; explicit Xml(Rng & r_) : r(r_), ws(r_.chance(50)) {}
  void nl() { if (ws && r.chance(60)) o += r.chance(15) ? "<!-- note -->" : "\n  "; }
  void t(const std::string & tag, const std::string & text) { nl(); o += "<" + tag + ">" + lex(r, text) + "</" + tag + ">"; }
  void raw(const std::string & tag, const std::string & body) { nl(); o += "<" + tag + ">" + body + "</" + tag + ">"; }
  void open(const std::string & tag) { nl(); o += "<" + tag + ">"; } void close(const std::string & tag) { nl(); o += "</" + tag + ">"; }
  void b(const std::string & tag, bool v) { t2(tag, r.chance(15) ? (v ? "1" : "0") : v ? "true" : "false"); } void t2(const std::string & tag, const std::string & v) { nl(); o += "<" + tag + ">" + (r.chance(10) && !gSchema ? " " + v + "\n" : v) + "</" + tag + ">"; } };

// ---- rendering ---------------------------------------------------------------------------
struct Files { std::string dir; std::vector<std::pair<std::string, std::string>> files; int n = 0; std::function<std::string(const std::string & from, const std::string & to)> rel; };
inline std::string relPath(Rng & r, const std::string & dir, const std::string & from, const std::string & to) { // from, to: paths below dir ("a/b.xml")
  if (r.chance(15)) return dir + "/" + to; std::string f = from; std::vector<std::string> fp, tp; auto split = [](const std::string & s, std::vector<std::string> & v) { std::string c; for (char ch : s) { if (ch == '/') { v.push_back(c); c.clear(); } else c += ch; } v.push_back(c); }; split(from, fp); split(to, tp); fp.pop_back();
  size_t k = 0; while (k < fp.size() && k + 1 < tp.size() && fp[k] == tp[k]) ++k; std::string o; for (size_t i = k; i < fp.size(); ++i) o += "../"; for (size_t i = k; i < tp.size(); ++i) o += tp[i] + (i + 1 < tp.size() ? "/" : ""); if (o[0] != '.' && r.chance(10)) o = "./" + o; return o; }
static const char * const NSD = " xmlns=\"http://uima.apache.org/resourceSpecifier\"";
inline void renderTs(Xml & x, const DTs & ts, const std::string & self, const std::string & dir, const std::string & tag) {
  Rng & r = x.r; x.nl(); x.o += tag; if (r.chance(30)) x.t("name", "ts"); if (r.chance(20)) x.t("description", freeText(r));
  if (!ts.importFiles.empty() || !ts.importNames.empty() || r.chance(10)) { x.open("imports"); for (auto & f : ts.importFiles) { x.nl(); x.o += "<import location=\"" + attr(relPath(r, dir, self, f)) + "\"/>"; } for (auto & f : ts.importNames) { x.nl(); x.o += "<import name=\"" + attr(f) + "\"/>"; } x.close("imports"); }
  if (!ts.types.empty() || r.chance(50)) { x.open("types"); for (auto & t : ts.types) { x.open("typeDescription"); x.t2("name", t.name); if (!t.desc.empty() || r.chance(50)) x.t("description", t.desc); x.t2("supertypeName", t.super);
      if (!t.feats.empty()) { x.open("features"); for (auto & f : t.feats) { x.open("featureDescription"); x.t2("name", f.name); if (!f.desc.empty() || r.chance(50)) x.t("description", f.desc); x.t2("rangeTypeName", f.range); if (!f.elem.empty()) x.t2("elementType", f.elem); if (f.multi || r.chance(20)) x.b("multipleReferencesAllowed", f.multi); x.close("featureDescription"); } x.close("features"); }
      if (!t.allowed.empty()) { x.open("allowedValues"); for (auto & a : t.allowed) { x.open("value"); x.t("string", a.first); if (!a.second.empty()) x.t("description", a.second); x.close("value"); } x.close("allowedValues"); }
      x.close("typeDescription"); } x.close("types"); }
  x.close("typeSystemDescription"); }
inline void renderIdx(Xml & x, const std::vector<DIndex> & v) { static const char * K[] = { "sorted", "set", "bag" }; for (auto & i : v) { x.open("fsIndexDescription"); x.t2("label", i.label); x.t2("typeName", i.type); if (i.kind || x.r.chance(70)) x.t2("kind", K[i.kind]); if (!i.keys.empty() || x.r.chance(20)) { x.open("keys"); for (auto & k : i.keys) { x.open("fsIndexKey"); if (k.prio) x.o += "<typePriority/>"; else { x.t2("featureName", k.feat); if (k.rev || x.r.chance(80)) x.t2("comparator", k.rev ? "reverse" : "standard"); } x.close("fsIndexKey"); } x.close("keys"); } x.close("fsIndexDescription"); } }
inline void renderPrios(Xml & x, const std::vector<Strs> & v) { for (auto & p : v) { x.open("priorityList"); for (auto & t : p) x.t2("type", t); x.close("priorityList"); } }
inline void renderParams(Xml & x, const std::vector<DParam> & v) { for (auto & p : v) { x.open("configurationParameter"); x.t2("name", p.name); if (!p.desc.empty() || x.r.chance(30)) x.t("description", p.desc); x.t2("type", PTN[p.type]); if (p.multi || x.r.chance(50)) x.b("multiValued", p.multi); if (p.mand || x.r.chance(50)) x.b("mandatory", p.mand);
    if (!p.restr.empty()) { std::string s; for (auto & k : p.restr) s += (s.empty() ? "" : x.r.chance(20) ? "  " : " ") + k; x.t2("restrictOverrideTo", s); } x.close("configurationParameter"); } }
inline void renderVals(Xml & x, const std::vector<DVal> & v) { for (auto & p : v) { x.open("nameValuePair"); x.t2("name", p.name); x.open("value"); if (p.multi) x.open("array"); for (auto & s : p.v) { if (p.type == P_STRING) x.t("string", s); else x.t2(PTAG[p.type], s); } if (p.multi) x.close("array"); x.close("value"); x.close("nameValuePair"); } }
inline std::string joinNames(Rng & r, const Strs & v) { std::string s; for (auto & n : v) s += (s.empty() ? "" : r.chance(15) ? "  " : " ") + n; return s; }
inline std::string groupsOf(const Strs & v) { std::string s; for (auto & x : v) s += x + ","; return s; }

struct RenderOpts { bool schemaOrder = true; };
inline std::string renderAe(Rng & r, DAe & a, Files & fs, const std::string & self, bool nested = false);
inline void renderMeta(Xml & x, DAe & a, Files & fs, const std::string & self) {
  Rng & r = x.r; std::string mt = a.root == 2 ? "processingResourceMetaData" : "analysisEngineMetaData"; x.open(mt); x.t("name", a.name); if (!a.desc.empty() || r.chance(50)) x.t("description", a.desc); if (!a.version.empty() || r.chance(50)) x.t("version", a.version); if (!a.vendor.empty() || r.chance(50)) x.t("vendor", a.vendor);
  if (a.grouped() || !a.plain.empty() || !a.groups.empty() || !a.defGroup.empty() || a.strategySet || r.chance(30)) { static const char * S[] = { "none", "default_fallback", "language_fallback" }; x.nl(); x.o += "<configurationParameters"; if (!a.defGroup.empty()) x.o += " defaultGroup=\"" + attr(a.defGroup) + "\""; if (a.strategySet) x.o += std::string(" searchStrategy=\"") + S[a.strategy] + "\""; x.o += ">";
    renderParams(x, a.plain); if (!a.common.empty()) { x.open("commonParameters"); renderParams(x, a.common); x.close("commonParameters"); }
    for (auto & g : a.groups) { x.nl(); x.o += "<configurationGroup names=\"" + attr(joinNames(r, g.first)) + "\">"; renderParams(x, g.second); x.close("configurationGroup"); } x.close("configurationParameters"); }
  if (!a.settings.empty() || r.chance(30)) { x.open("configurationParameterSettings"); for (auto & s : a.settings) if (s.first.empty()) renderVals(x, s.second); for (auto & s : a.settings) if (!s.first.empty()) { x.nl(); x.o += "<settingsForGroup name=\"" + attr(joinNames(r, s.first)) + "\">"; renderVals(x, s.second); x.close("settingsForGroup"); } x.close("configurationParameterSettings"); }
  if (a.flow) { std::string t = a.flow == 1 ? "fixedFlow" : "capabilityLanguageFlow"; x.open("flowConstraints"); x.open(t); for (auto & n : a.nodes) x.t2("node", n); x.close(t); x.close("flowConstraints"); }
  if (!a.ts.types.empty() || !a.ts.importFiles.empty() || !a.ts.importNames.empty() || r.chance(40)) renderTs(x, a.ts, self, fs.dir, "<typeSystemDescription>");
  if (!a.prios.empty() || !a.prioImports.empty() || r.chance(20)) { x.open("typePriorities"); if (!a.prioImports.empty()) { x.open("imports"); for (auto & p : a.prioImports) { x.nl(); x.o += "<import location=\"" + attr(relPath(r, fs.dir, self, p.first)) + "\"/>"; } x.close("imports"); }
    bool wrap = r.chance(25); if (wrap) x.open("priorityLists"); renderPrios(x, a.prios); if (wrap) x.close("priorityLists"); x.close("typePriorities"); }
  if (!a.idx.empty() || !a.idxImports.empty() || r.chance(20)) { int form = a.idxImports.empty() ? r.below(3) : r.below(2); std::string t = form == 2 ? "fsIndexes" : "fsIndexCollection"; x.open(t); if (!a.idxImports.empty()) { x.open("imports"); for (auto & p : a.idxImports) { x.nl(); x.o += "<import location=\"" + attr(relPath(r, fs.dir, self, p.first)) + "\"/>"; } x.close("imports"); }
    if (form == 0) x.open("fsIndexes"); renderIdx(x, a.idx); if (form == 0) x.close("fsIndexes"); x.close(t); }
  if (!a.caps.empty() || r.chance(20)) { x.open("capabilities"); for (auto & c : a.caps) { x.open("capability"); if (r.chance(15)) x.t("description", freeText(r)); static const char * T[2] = { "inputs", "outputs" }, * S[2] = { "inputSofas", "outputSofas" };
      for (int k = 0; k < 2; ++k) if (!c.types[k].empty() || !c.feats[k].empty() || !c.all[k].empty() || r.chance(40)) { x.open(T[k]); for (auto & t : c.types[k]) { x.nl(); bool all = std::find(c.all[k].begin(), c.all[k].end(), t) != c.all[k].end(); if (all) x.o += "<type allAnnotatorFeatures=\"true\">" + t + "</type>"; else if (r.chance(15)) x.o += "<type allAnnotatorFeatures=\"false\">" + t + "</type>"; else x.o += "<type>" + t + "</type>"; } for (auto & f : c.feats[k]) x.t2("feature", f); x.close(T[k]); }
      for (int k = 0; k < 2; ++k) if (!c.sofas[k].empty() || r.chance(30)) { x.open(S[k]); for (auto & s : c.sofas[k]) x.t2("sofaName", s); x.close(S[k]); }
      if (!c.langs.empty() || r.chance(30)) { x.open("languagesSupported"); for (auto & l : c.langs) x.t2("language", l); x.close("languagesSupported"); } if (r.chance(10)) { x.open("mimeTypesSupported"); x.t2("mimeType", "text/plain"); x.close("mimeTypesSupported"); } x.close("capability"); } x.close("capabilities"); }
  if (a.op) { x.open("operationalProperties"); x.b("modifiesCas", a.mod); x.b("multipleDeploymentAllowed", a.multiDep); x.b("outputsNewCASes", a.outCas); x.close("operationalProperties"); }
  x.close(mt); }
inline std::string newFile(Rng & r, Files & fs, const char * stem) { static const char * D[] = { "", "", "sub/", "sub/deep/", "other/" }; return std::string(D[r.below(5)]) + stem + std::to_string(fs.n++) + (r.chance(10) ? "x y" : "") + ".xml"; }
inline std::string renderAe(Rng & r, DAe & a, Files & fs, const std::string & self, bool nested) {
  Xml x(r); std::string root = ROOTS[a.root]; x.o = std::string(nested ? "" : r.chance(70) ? "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n" : r.chance(50) ? "<?xml version=\"1.0\"?>" : "") + "<" + root + (nested && r.chance(50) ? "" : NSD) + ">"; a.xmlLoc = self;
  x.t2("frameworkImplementation", a.cpp ? "org.apache.uima.cpp" : "org.apache.uima.java");
  if (a.root == 2) x.t("implementationName", a.impl); else { x.b("primitive", a.prim); if (a.prim) x.t("annotatorImplementationName", a.impl); else { x.open("delegateAnalysisEngineSpecifiers");
    for (auto & d : a.dels) { x.nl(); x.o += "<delegateAnalysisEngine key=\"" + attr(d.first) + "\">"; int how = r.below(gSchema ? 2 : 3);
      if (how == 0) { x.nl(); x.o += renderAe(r, d.second, fs, self, true); x.nl(); } else { std::string f = newFile(r, fs, "ae"); std::string body = renderAe(r, d.second, fs, f, false); fs.files.push_back({ f, body }); std::string loc = relPath(r, fs.dir, self, f); x.nl(); if (how == 1) x.o += "<import location=\"" + attr(loc) + "\"/>"; else x.t("includeFile", loc); x.nl(); }
      x.close("delegateAnalysisEngine"); } x.close("delegateAnalysisEngineSpecifiers"); } }
  renderMeta(x, a, fs, self);
  if (!a.sofas.empty()) { x.open("sofaMappings"); for (auto & s : a.sofas) { x.open("sofaMapping"); x.t2("componentKey", s.key); if (!s.comp.empty()) x.t2("componentSofaName", s.comp); x.t2("aggregateSofaName", s.agg); x.close("sofaMapping"); } x.close("sofaMappings"); }
  x.close(root); return x.o; }

inline void mkdirs(const std::string & path) { for (size_t i = 1; i < path.size(); ++i) if (path[i] == '/') mkdir(path.substr(0, i).c_str(), 0755); }
inline void writeFile(const std::string & path, const std::string & body) { mkdirs(path); FILE * f = fopen(path.c_str(), "wb"); if (f) { fwrite(body.data(), 1, body.size(), f); fclose(f); } }
}
