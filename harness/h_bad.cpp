// D02: invalid descriptors. Executable random descriptors receive one semantic fault (which must be reported) or hostile text mutations
// (which must be accepted or reported); a control engine must still be creatable afterwards.
#include "eng.hpp"
using namespace vp; using namespace uima;
static LifeHook hook;

static void nodes(DAe & a, std::vector<DAe *> & v, bool reach = true) { v.push_back(&a); for (auto & d : a.dels) nodes(d.second, v); }
// every component below the flow of its parents (a delegate outside the flow is never instantiated)
static void reached(DAe & a, std::vector<DAe *> & v) { v.push_back(&a); for (auto & d : a.dels) if (std::find(a.nodes.begin(), a.nodes.end(), d.first) != a.nodes.end()) reached(d.second, v); }
static DParam mkParam(Gen & g, const std::string & n) { DParam p; p.name = n; p.type = g.r.below(4); p.multi = g.r.chance(40); return p; }
static std::string wrongVal(Rng & r, int t) { static const char * const I[] = { "", "abc", "1.5", "12x", "2147483648", "-2147483649", "0x10", "1 2", "99999999999999999999", "--1", "true", "1e3" }, * const F[] = { "", "abc", "1.5x", "1,5", "1e", "--1", "0x", "true", "1 2" }; return t == P_INT ? I[r.below(12)] : F[r.below(9)]; }
// settings the component may have; groups are created when needed
static std::vector<DVal> & settingsOf(DAe & a, std::string g) { for (auto & s : a.settings) if ((g.empty() && s.first.empty()) || (!g.empty() && s.first.size() == 1 && s.first[0] == g)) return s.second; Strs n; if (!g.empty()) n.push_back(g); a.settings.push_back({ n, {} }); return a.settings.back().second; }
struct Where { std::string g; std::vector<DParam> * v; };
static Where where(Gen & g, DAe & a) { Where w; if (a.grouped() && !a.groups.empty()) { auto & x = g.r.pick(a.groups); w.g = g.r.pick(x.first); w.v = &x.second; } else { if (a.grouped()) { a.common.clear(); a.settings.clear(); } a.groups.clear(); a.defGroup.clear(); a.strategySet = false; a.strategy = 0; w.v = &a.plain; } return w; }

// returns the name of the fault ("" = not applicable here)
static std::string inject(Gen & g, DAe & root) {
  Rng & r = g.r; std::vector<DAe *> all, live; nodes(root, all); reached(root, live); DAe & a = *all[r.below((int) all.size())]; DAe & l = *live[r.below((int) live.size())]; std::vector<DAe *> aggs; for (auto x : all) if (!x->prim) aggs.push_back(x);
  switch (r.below(34)) {
    case 0: { Where w = where(g, a); DParam p = mkParam(g, "dupl"); w.v->push_back(p); if (r.chance(50)) p.type = r.below(4); w.v->push_back(p); return "duplicate-parameter"; }
    case 1: { if (a.groups.empty()) return ""; DParam p = mkParam(g, "dupl"); a.plain.clear(); a.common.push_back(p); r.pick(a.groups).second.push_back(p); return "duplicate-common-parameter"; }
    case 2: { Where w = where(g, a); DVal v = g.valFor(mkParam(g, "undeclared")); settingsOf(a, w.g).push_back(v); return "undeclared-parameter"; }
    case 3: { Where w = where(g, a); DParam p = mkParam(g, "wrongtype"); w.v->push_back(p); p.type = (p.type + r.range(1, 3)) % 4; p.multi = false; w.v->back().multi = false; settingsOf(a, w.g).push_back(g.valFor(p)); return "value-of-wrong-type"; }
    case 4: { Where w = where(g, a); DParam p = mkParam(g, "wrongmult"); p.multi = true; w.v->push_back(p); DVal v = g.valFor(p); if (v.v.empty()) v.v.push_back(g.mkVal(p.type)); w.v->back().multi = false; settingsOf(a, w.g).push_back(v); return "array-for-single-value"; }
    case 5: { Where w = where(g, a); DParam p = mkParam(g, "wrongmult"); p.multi = false; w.v->push_back(p); DVal v = g.valFor(p); w.v->back().multi = true; settingsOf(a, w.g).push_back(v); return "single-value-for-array"; }
    case 6: { Where w = where(g, a); DParam p = mkParam(g, "number"); p.type = r.chance(50) ? P_INT : P_FLOAT; w.v->push_back(p); DVal v; v.name = p.name; v.type = p.type; v.multi = p.multi; if (p.multi && r.chance(50)) v.v.push_back("1"); v.v.push_back(wrongVal(r, p.type)); settingsOf(a, w.g).push_back(v); return "malformed-number"; }
    case 7: { if (aggs.empty()) return ""; DAe & x = *r.pick(aggs); x.nodes.insert(x.nodes.begin() + r.below((int) x.nodes.size() + 1), "no-such-delegate"); return "unknown-delegate-in-flow"; }
    case 8: { if (aggs.empty()) return ""; r.pick(aggs)->flow = 0; return "aggregate-without-flow"; }
    case 9: { if (l.caps.empty()) l.caps.push_back(DCap()); r.pick(l.caps).types[1].push_back("no.such.Type"); return "unknown-output-type"; }
    case 10: { if (l.caps.empty()) l.caps.push_back(DCap()); r.pick(l.caps).feats[1].push_back(r.chance(50) ? "uima.tcas.Annotation:nosuch" : r.chance(50) ? "no.such.Type:f" : "nocolon"); return "unknown-output-feature"; }
    case 11: { DIndex d; d.label = "bad"; d.type = "no.such.Type"; d.kind = r.below(3); if (d.kind != 2) { DKey k; k.prio = true; d.keys.push_back(k); } a.idx.push_back(d); return "index-over-unknown-type"; }
    case 12: { DIndex d; d.label = "bad"; d.type = "uima.tcas.Annotation"; d.kind = r.below(2); DKey k; k.feat = r.chance(50) ? "nosuch" : ""; d.keys.push_back(k); a.idx.push_back(d); return "index-over-unknown-feature"; }
    case 13: { Strs p; p.push_back("uima.tcas.Annotation"); p.insert(p.begin() + r.below(2), "no.such.Type"); a.prios.push_back(p); return "priority-of-unknown-type"; }
    case 14: { a.ts.importFiles.push_back("missing.xml"); return "missing-type-system-import"; }
    case 15: { a.idxImports.push_back({ "missing.xml", {} }); return "missing-index-import"; }
    case 16: { a.prioImports.push_back({ "missing.xml", {} }); return "missing-priority-import"; }
    case 17: { DAe * p = 0; for (auto x : live) if (x->prim) p = x; if (!p) return ""; static const char * const L[] = { "no-such-library", "/no/such/dir/lib.so", "lib\xc3\xa9\xe6\x96\x87", "" , "%s%n", "." , "/" }; int k = r.below(9); p->impl = k < 7 ? L[k] : std::string(r.range(100, 6000), 'x'); return "missing-library"; }
    case 18: { DAe * p = 0; for (auto x : live) if (x->prim) p = x; if (!p) return ""; p->impl = r.chance(50) ? "/etc/passwd" : "libm.so.6"; return "library-without-annotator"; }
    case 19: { if (aggs.empty()) return ""; DAe & x = *r.pick(aggs); if (x.dels.empty()) return ""; auto d = r.pick(x.dels); x.dels.push_back(d); return "duplicate-delegate"; }
    case 20: { Where w = where(g, a); DParam p = mkParam(g, "mandatory"); p.mand = true; w.v->push_back(p); return "mandatory-without-value"; }
    case 21: { DType t; t.name = "bad.T"; t.super = "no.such.Super"; a.ts.types.push_back(t); return "unknown-supertype"; }
    case 22: { DType t; t.name = "bad.T"; t.super = "uima.cas.TOP"; DFeat f; f.name = "f"; f.range = "no.such.Range"; t.feats.push_back(f); a.ts.types.push_back(t); return "unknown-range"; }
    case 23: { DType t; t.name = "bad.T"; t.super = "bad.U"; a.ts.types.push_back(t); t.name = "bad.U"; t.super = "bad.T"; a.ts.types.push_back(t); return "cyclic-supertypes"; }
    case 24: { DType t; t.name = "bad.T"; t.super = "uima.cas.TOP"; a.ts.types.push_back(t); t.super = "uima.tcas.Annotation"; DAe & b = *r.pick(all); b.ts.types.push_back(t); return "conflicting-supertypes"; }
    case 25: { DType t; t.name = "bad.T"; t.super = "uima.cas.TOP"; DFeat f; f.name = "f"; f.range = "uima.cas.Integer"; t.feats.push_back(f); a.ts.types.push_back(t); t.feats[0].range = "uima.cas.Float"; DAe & b = *r.pick(all); b.ts.types.push_back(t); return "conflicting-ranges"; }
    case 26: { DType t; t.name = "bad.T"; t.super = "uima.cas.TOP"; a.ts.types.push_back(t); t.name = "bad.U"; a.ts.types.push_back(t); a.prios.push_back({ "bad.T", "bad.U" }); DAe & b = *r.pick(all); if (&b != &a) { t.name = "bad.T"; b.ts.types.push_back(t); t.name = "bad.U"; b.ts.types.push_back(t); } b.prios.push_back({ "bad.U", "bad.T" }); return "cyclic-priorities"; }
    case 27: { DIndex d; d.label = "same"; d.type = "uima.tcas.Annotation"; d.kind = 0; DKey k; k.feat = "begin"; d.keys.push_back(k); a.idx.push_back(d); d.keys[0].feat = "end"; a.idx.push_back(d); return "duplicate-index-label"; }
    case 28: { Where w = where(g, a); if (w.g.empty()) return ""; DParam p = mkParam(g, "pp"); w.v->push_back(p); Strs n; n.push_back("no-such-group"); a.settings.push_back({ n, { g.valFor(p) } }); return "settings-for-undeclared-group"; }
    case 29: { DType t; t.name = "bad.T"; t.super = "uima.cas.Integer"; a.ts.types.push_back(t); return "supertype-final"; }
    case 30: { DType t; t.name = "bad.T"; t.super = "uima.tcas.Annotation"; DFeat f; f.name = "begin"; f.range = "uima.cas.Float"; t.feats.push_back(f); a.ts.types.push_back(t); return "inherited-feature-redefined"; }
    case 31: { Where w = where(g, a); DParam p = mkParam(g, "twice"); w.v->push_back(p); auto & s = settingsOf(a, w.g); s.push_back(g.valFor(p)); if (w.g.empty() || r.chance(50)) s.push_back(g.valFor(p)); else { Strs n; for (auto & x : a.groups) for (auto & q : x.first) if (&x.second == w.v && q != w.g && r.chance(60)) n.push_back(q); n.insert(n.begin() + r.below((int) n.size() + 1), w.g); std::vector<DVal> v; if (r.chance(50)) { DParam o = mkParam(g, "other"); w.v->push_back(o); v.push_back(g.valFor(o)); } v.insert(v.begin() + r.below((int) v.size() + 1), g.valFor(p)); a.settings.push_back({ n, v }); } return "value-set-twice"; }
    case 32: { if (a.groups.empty() || !a.grouped()) return ""; DParam p = mkParam(g, "common2"); a.common.push_back(p); std::string q = r.pick(r.pick(a.groups).first); settingsOf(a, q).push_back(g.valFor(p)); Strs n; n.push_back(q); a.settings.push_back({ n, { g.valFor(p) } }); return "common-value-set-twice"; }
    default: { Where w = where(g, a); DParam p = mkParam(g, "mixed"); p.multi = true; p.type = P_INT; w.v->push_back(p); DVal v = g.valFor(p); v.v.push_back("1</integer><string>x</string><integer>2"); settingsOf(a, w.g).push_back(v); return "mixed-array"; } } }
static void replaceAll(std::string & s, const std::string & a, const std::string & b) { for (size_t p = 0; (p = s.find(a, p)) != std::string::npos; p += b.size()) s.replace(p, a.size(), b); }
// faults in the rendered documents
static std::string injectText(Gen & g, const std::string & self, bool prim) {
  Rng & r = g.r; auto & fs = g.fs.files; std::vector<size_t> ae; for (size_t i = 0; i < fs.size(); ++i) if (fs[i].first.find("ae") != std::string::npos || fs[i].first == self) ae.push_back(i);
  size_t k = ae[r.below((int) ae.size())]; std::string & x = fs[k].second;
  switch (r.below(9)) {
    case 0: { if (fs[k].first == self) return ""; fs.erase(fs.begin() + k); return "missing-delegate-import"; }
    case 1: { if (fs[k].first == self) return ""; for (auto & f : fs) if (f.first == self) { // a delegate that imports itself
        std::string loc = fs[k].first.substr(fs[k].first.rfind('/') == std::string::npos ? 0 : fs[k].first.rfind('/') + 1); x = std::string("<analysisEngineDescription") + NSD + "><frameworkImplementation>org.apache.uima.cpp</frameworkImplementation><primitive>false</primitive><delegateAnalysisEngineSpecifiers><delegateAnalysisEngine key=\"me\"><import location=\"" + attr(loc) + "\"/></delegateAnalysisEngine></delegateAnalysisEngineSpecifiers><analysisEngineMetaData><name>n</name><flowConstraints><fixedFlow><node>me</node></fixedFlow></flowConstraints></analysisEngineMetaData></analysisEngineDescription>"; return "cyclic-delegate-import"; } return ""; }
    case 2: { bool any = false; for (const char * t : ROOTS) { if (x.find(t) != std::string::npos) any = true; replaceAll(x, t, "fooDescription"); } return any ? "wrong-root" : ""; }
    case 3: { for (const char * t : { "analysisEngineMetaData>", "processingResourceMetaData>" }) { size_t p = x.find(std::string("<") + t), q = x.rfind(std::string("</") + t); if (p == std::string::npos || q == std::string::npos || q < p) continue; x.erase(p, q + 2 + strlen(t) - p); return "missing-metadata"; } return ""; }
    case 4: { size_t n = x.size() / 2 + r.below(x.size() / 2); while (n > 0 && x[n - 1] == '\n') --n; if (n + 3 > x.size()) return ""; x.resize(n); return "truncated"; }
    case 5: { x = r.chance(50) ? "" : r.chance(50) ? "   " : r.chance(50) ? std::string(1, '\0') : "not xml"; return "no-xml"; }
    case 6: { if (!prim || fs[k].first != self) return ""; size_t p = x.find("<annotatorImplementationName>"); if (p == std::string::npos) return ""; size_t q = x.find("</annotatorImplementationName>", p); x.erase(p, q + 30 - p); return "missing-implementation-name"; }
    case 7: { size_t p = x.find("<name>"); if (p == std::string::npos) return ""; x.insert(p, r.chance(50) ? "<unclosed>" : r.chance(50) ? "&undefined;" : "<a b=c/>"); return "ill-formed"; }
    default: { std::string t = "<typeSystemDescription" + std::string(NSD) + "><types/></typeSystemDescription>"; x = t; return "type-system-as-component"; } } }

static std::string hostile(Rng & r) { static const char * const H[] = { "", " ", "0", "-1", "true", "false", "2147483648", "uima.cas.TOP", "uima.tcas.Annotation", "uima.cas.String", "uima.cas.Integer", "uima.cas.FSArray", "no.such", "&#10;", "&lt;x&gt;", "..", "/", "/dev/null", "x y", "en-us", "x-unspecified", ":", "a:b", "uima.tcas.Annotation:begin", "reverse", "sorted", "String", "Integer", "language_fallback", "org.apache.uima.java", "\xc3\xa9", "%s%n" }; if (r.chance(8)) return std::string(r.range(100, 9000), "aZ9.-: "[r.below(7)]); return H[r.below(sizeof H / sizeof *H)]; }
static std::vector<std::string> tokens(const std::string & x) { std::vector<std::string> t; size_t p = 0; while (p < x.size()) { size_t e = x[p] == '<' ? x.find('>', p) : x.find('<', p); if (e == std::string::npos) e = x.size(); else if (x[p] == '<') ++e; t.push_back(x.substr(p, e - p)); p = e; } return t; }
static std::string mutate(Rng & r, const std::string & x) {
  if (x.empty()) return "<"; if (r.chance(25)) { std::string y = x; int n = r.range(1, 6); for (int i = 0; i < n && !y.empty(); ++i) { size_t p = r.below(y.size()); switch (r.below(6)) { case 0: y[p] = (char) r.next(); break; case 1: y[p] ^= 1 << r.below(8); break; case 2: y.erase(p, r.range(1, r.chance(20) ? 200 : 4)); break; case 3: y.insert(p, std::string(r.range(1, 3), "<>\"'&;/=\0 \x80\xff]!-"[r.below(16)])); break; case 4: { std::string c = y.substr(p, r.range(1, 60)); y.insert(r.below(y.size()), c); break; } default: y.resize(p); } } return y; }
  std::vector<std::string> t = tokens(x); int n = r.chance(60) ? 1 : r.range(2, 5);
  for (int i = 0; i < n && !t.empty(); ++i) { size_t p = r.below(t.size()), q = r.below(t.size()); auto tagName = [&](size_t k) { size_t b = t[k].compare(0, 2, "</") == 0 ? 2 : 1, e = t[k].find_first_of(" />", b); return t[k].substr(b, e == std::string::npos ? std::string::npos : e - b); };
    auto elemEnd = [&](size_t k) { int d = 0; for (size_t z = k; z < t.size(); ++z) { if (t[z][0] != '<' || t[z][1] == '!' || t[z][1] == '?') continue; if (t[z][1] == '/') --d; else if (t[z].size() < 2 || t[z][t[z].size() - 2] != '/') ++d; if (d <= 0) return z; } return t.size() - 1; };
    int k = r.below(10); bool isOpen = t[p].size() > 2 && t[p][0] == '<' && isalpha((unsigned char) t[p][1]);
    if (k < 3) { for (int z = 0; z < 30 && (t[p].empty() || t[p][0] == '<'); ++z) p = r.below(t.size()); if (!t[p].empty() && t[p][0] != '<') t[p] = r.chance(60) ? hostile(r) : t[q].empty() || t[q][0] == '<' ? hostile(r) : t[q]; }
    else if (k < 5 && isOpen) { size_t e = elemEnd(p); t.erase(t.begin() + p, t.begin() + e + 1); }                              // element removed
    else if (k < 7 && isOpen) { size_t e = elemEnd(p); std::vector<std::string> c(t.begin() + p, t.begin() + e + 1); t.insert(t.begin() + (r.chance(60) ? p : q), c.begin(), c.end()); } // element copied (same place or elsewhere)
    else if (k == 7 && isOpen) { size_t e = elemEnd(p); static const char * const N[] = { "name", "string", "integer", "array", "import", "imports", "types", "value", "foo", "primitive", "node", "keys", "typePriority", "analysisEngineMetaData", "analysisEngineDescription", "typeSystemDescription", "delegateAnalysisEngine", "xi:include", "type", "feature" }; std::string nn = N[r.below(20)], old = tagName(p); t[p].replace(1, old.size(), nn); if (e != p && t[e].compare(0, 2, "</") == 0) t[e] = "</" + nn + ">"; }
    else if (k == 8) { size_t a = t[p].find("=\""); if (a != std::string::npos) { size_t b = t[p].find('"', a + 2); if (b != std::string::npos) { if (r.chance(25)) { size_t s = t[p].rfind(' ', a); if (s != std::string::npos) t[p].erase(s, b + 1 - s); } else t[p].replace(a + 2, b - a - 2, hostile(r)); } } }
    else { t.insert(t.begin() + p, r.chance(50) ? "stray" : r.chance(50) ? "<foo bar=\"1\">x</foo>" : "<!-- c --><?pi?><![CDATA[<&]]>"); } }
  std::string y; for (auto & s : t) y += s; return y; }

struct Made { bool ok = false; std::string how, msg; };
static Made create(int route, const std::string & file, const std::string & xml, std::vector<AnalysisEngine *> & out) {
  Made m; ErrorInfo err; AnalysisEngine * e = 0; static const char * RN[] = { "file", "description", "buffer", "tae-file" };
  std::string oc; AnalysisEngineDescription * d = 0;
  oc = outcome([&] { switch (route) { case 0: e = Framework::createAnalysisEngine(file.c_str(), err); break;
      case 1: { std::unique_ptr<AnalysisEngineDescription> p(new AnalysisEngineDescription()); XMLParser x; // a parser that refused a document must judge the next one on its own
        try { x.parseAnalysisEngineDescription(*p, us(file)); } catch (uima::Exception & first) { std::string a = first.asString(), b = "accepted"; try { AnalysisEngineDescription q; x.parseAnalysisEngineDescription(q, us(file)); } catch (uima::Exception & second) { b = second.asString(); } count("parsed-again"); if (a != b) violation("parser-spoilt", a + " then " + b); throw; }
        p->validate(); p->commit(); e = Framework::createAnalysisEngine(*p, err); if (e) d = p.release(); break; }
      case 2: { UnicodeString u = us(xml); e = Framework::createAnalysisEngine(u.getBuffer(), u.length(), err); break; }
      default: e = TextAnalysisEngine::createTextAnalysisEngine(file.c_str(), err); } });
  m.how = std::string(RN[route]) + ": " + oc + " error " + std::to_string((long) err.getErrorId()); count(std::string("route-") + RN[route]);
  m.msg = err.getErrorId() ? err.asString() : "";
  if (e) { m.ok = true; if (oc != "ok" || err.getErrorId() != 0) violation("engine-and-error", m.how); CAS * c = e->newCAS(); std::string po = outcome([&] { UnicodeString t("some text"); c->setDocumentText(t.getBuffer(), t.length(), true); if (TyErrorId rc = e->process(*c)) m.how += " process " + std::to_string((long) rc); }); if (po != "ok" && !isUima(po)) violation("process-escapes", po); delete c; delete e; delete d; }
  else if (oc == "ok" ? err.getErrorId() == 0 : !isUima(oc)) violation(oc == "ok" ? "no-engine-no-error" : "foreign-exception", m.how);
  if (!hook.live.empty() || !hook.bad.empty()) { violation("annotators-left", std::to_string(hook.live.size()) + " " + hook.bad); hook.live.clear(); hook.bad.clear(); }
  (void) out; return m; }

struct BadWorld { Gen g; DAe a; std::string self, xml; BadWorld(Rng & r) : g(r) {} };
static bool conflictFree(const DAe & a) { return valProblem(a).empty(); }
static void model(BadWorld & w, Args & args, const std::string & dir) { w.g.fs.dir = dir; w.g.mkPool(); for (;;) { w.a = w.g.mk(0); makeExecutable(w.g, w.a, args.extra["--plugins"] + "/trace.so"); if (conflictFree(w.a)) break; w.g.fs.files.clear(); w.g.tsFiles.clear(); } }
static void render(BadWorld & w) { w.self = newFile(w.g.r, w.g.fs, "main"); w.xml = renderAe(w.g.r, w.a, w.g.fs, w.self); w.g.fs.files.push_back({ w.self, w.xml }); }

static void d02fault(Rng & r, Args & args) {
  Scratch sc(args.tmp); Cwd cwd; BadWorld w(r); model(w, args, sc.d); std::vector<AnalysisEngine *> es; DAe good = w.a; Files base = w.g.fs; bool text = r.chance(30); std::string fault; int route = r.below(4);
  // the faulty descriptor
  if (!text) { for (int k = 0; k < 200 && fault.empty(); ++k) { DAe before = w.a; fault = inject(w.g, w.a); if (fault.empty()) w.a = before; } render(w); } else { render(w); for (int k = 0; k < 200 && fault.empty(); ++k) fault = injectText(w.g, w.self, w.a.prim); }
  writeAll(w.g.fs); dumpFiles(w.g.fs); cd(sc.d + "/" + w.self); for (auto & f : w.g.fs.files) if (f.first == w.self) w.xml = f.second; op("fault " + fault + " route " + std::to_string(route)); count("fault-" + fault); seen(hashStr(w.xml)); if (args.first == 0) sample(fault);
  Made m = create(route, sc.d + "/" + w.self, w.xml, es); count("evals"); if (m.ok) { violation("accepted-" + fault, m.how); }
  // the control
}
static void d02(Rng & r, Args & args) { d02fault(r, args);
  { Scratch sc(args.tmp); Cwd cwd; BadWorld w(r); model(w, args, sc.d); render(w); writeAll(w.g.fs); dumpFiles(w.g.fs); cd(sc.d + "/" + w.self); std::vector<AnalysisEngine *> es; long before = hook.inits; int route = r.below(4); Made m = create(route, sc.d + "/" + w.self, w.xml, es); count("controls"); if (!m.ok) violation("control-rejected", m.how + " " + m.msg); else if (hook.inits - before != (long) countPrims(w.a)) violation("control-annotators", std::to_string(hook.inits - before) + " of " + std::to_string(countPrims(w.a))); } }
static void d02text(Rng & r, Args & args) {
  Scratch sc(args.tmp); Cwd cwd; BadWorld w(r); model(w, args, sc.d); render(w); std::vector<AnalysisEngine *> es; auto & fs = w.g.fs.files; int n = r.chance(80) ? 1 : r.range(2, 3); for (int i = 0; i < n; ++i) { size_t k = r.chance(50) ? fs.size() - 1 : r.below(fs.size()); fs[k].second = mutate(r, fs[k].second); }
  w.xml = fs.back().second; writeAll(w.g.fs); dumpFiles(w.g.fs); cd(sc.d + "/" + w.self); seen(hashStr(w.xml)); int route = r.below(4); Made m = create(route, sc.d + "/" + w.self, w.xml, es); count("evals"); count(m.ok ? "accepted" : "rejected");
  // type-system documents through their own routes
  { std::string t; if (!w.g.tsFiles.empty()) { for (auto & f : fs) if (f.first == w.g.tsFiles[0].first) t = f.second; } else { Xml x(r); DTs ts; ts.types = w.g.closed(60); renderTs(x, ts, "t.xml", sc.d, std::string("<typeSystemDescription") + NSD + ">"); t = x.o; } if (r.chance(85)) t = mutate(r, t); if (t.find('\0') != std::string::npos) return; writeFile(sc.d + "/only.xml", t); cd(sc.d + "/only.xml");
    ErrorInfo err; TypeSystem * ts = 0; TypeSystemDescription * td = 0; int k = r.below(5); UnicodeString u = us(t); std::string oc = outcome([&] { switch (k) { case 0: ts = Framework::createTypeSystem((sc.d + "/only.xml").c_str(), err); break; case 1: ts = Framework::createTypeSystem(u.getBuffer(), u.length(), err); break; case 2: ts = Framework::createTypeSystemFromXMLBuffer(t.c_str(), err); break; case 3: td = Framework::createTypeSystemDescription(u.getBuffer(), u.length()); break; default: td = Framework::createTypeSystemDescription((sc.d + "/only.xml").c_str()); } });
    count("type-systems"); if (oc != "ok" && !isUima(oc)) violation("ts-foreign-exception", std::to_string(k) + " " + oc); if (oc == "ok" && !ts && !td && err.getErrorId() == 0) violation("ts-nothing-no-error", std::to_string(k)); if (td) { std::string o2 = outcome([&] { td->validate(); td->commit(); }); if (o2 != "ok" && !isUima(o2)) violation("ts-validate-foreign", o2); delete td; } count(ts || td ? "ts-accepted" : "ts-rejected"); delete ts; } }

int main(int argc, char ** argv) {
  unsetenv("UIMACPP_HOME"); if (argc > 1 && std::string(argv[1]) == "badschema") { setenv("UIMACPP_HOME", "/repo", 1); }
  ResourceManager::createInstance("vp"); Args a = parseArgs(argc, argv); installHook(a.extra["--plugins"], &hook);
  int rc = drive(argc, argv, { { "fault", d02 }, { "mutate", d02text }, { "badschema", d02text } });
  ResourceManager::deleteInstance(); return rc; }
