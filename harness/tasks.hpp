#pragma once
// Self-contained pieces of work on the framework: each creates what it needs from a seed, uses it, destroys it again and returns a
// digest of everything it observed. Used concurrently (H01) and repeatedly (M01).
#include "eng.hpp"
#include "snap.hpp"
#include "mutate.hpp"
#include "uima/xmishareddata.hpp"
#include "uima/internal_casserializer.hpp"
#include "uima/internal_casdeserializer.hpp"
#include "uima/internal_serializedcas.hpp"
#include "uima/caspool.hpp"
#include "uima/fsfilterbuilder.hpp"
#include "uima/casiterator.hpp"
#include "uima/language.hpp"
#include "uima/xmltypesystemwriter.hpp"
namespace vp {
typedef std::vector<std::string> Digest;
inline void note(Digest & d, const std::string & what, const std::string & text) { char b[40]; snprintf(b, sizeof b, "=%016llx", (unsigned long long) hashStr(text)); d.push_back(what + b); }
struct TaskEnv { std::string plugins, dir, examples; std::function<void()> pause; const Schema * schema = 0; const Env * env = 0; /* type system shared with other threads */ AnalysisEngineDescription * desc = 0; /* description shared with other engines */  void p() const { if (pause) pause(); } };
// the annotators of trace.so report to the hook of the thread they run in
inline AnnHook *& threadHook() { static thread_local AnnHook * h = 0; return h; }
struct ThreadedHook : AnnHook { AnnHook none; AnnHook & k() { return threadHook() ? *threadHook() : none; }
  void created(Annotator * a) override { k().created(a); } void deleted(Annotator * a) override { k().deleted(a); }
  TyErrorId initialize(Annotator * a, AnnotatorContext & c) override { return k().initialize(a, c); } TyErrorId typeSystemInit(Annotator * a, TypeSystem const & t) override { return k().typeSystemInit(a, t); }
  TyErrorId reconfigure(Annotator * a) override { return k().reconfigure(a); } TyErrorId process(Annotator * a, CAS & c, ResultSpecification const & s) override { return k().process(a, c, s); }
  TyErrorId batch(Annotator * a) override { return k().batch(a); } TyErrorId collection(Annotator * a) override { return k().collection(a); } TyErrorId destroy(Annotator * a) override { return k().destroy(a); }
  bool hasNext(Annotator * a) override { return k().hasNext(a); } CAS & next(Annotator * a) override { return k().next(a); } int casInstances(Annotator * a) override { return k().casInstances(a); } };
struct UseHook { AnnHook * old; explicit UseHook(AnnHook * h) : old(threadHook()) { threadHook() = h; } ~UseHook() { threadHook() = old; } };

inline std::string wXmi(CAS & c, XmiSerializationSharedData * sd = 0) { std::ostringstream os; if (sd) { XmiWriter w(c, true, sd); w.write(os); } else { XmiWriter w(c, true); w.write(os); } return os.str(); }
inline std::string wXcas(CAS & c) { std::ostringstream os; XCASWriter w(c, true); w.write(os); return os.str(); }
inline void rXmi(const std::string & x, CAS & c, XmiSerializationSharedData * sd = 0, bool lenient = false) { xercesc::MemBufInputSource src((const XMLByte *) x.data(), x.size(), "doc"); if (sd) XmiDeserializer::deserialize(src, c, *sd); else XmiDeserializer::deserialize(src, c, lenient); }
inline void rXcas(const std::string & x, CAS & c) { xercesc::MemBufInputSource src((const XMLByte *) x.data(), x.size(), "doc"); XCASDeserializer::deserialize(src, c); }
inline std::string errText(uima::ErrorInfo & e) { return e.getErrorId() ? std::to_string((long) e.getErrorId()) + " " + e.asString() : "none"; }
// outcome including the whole text of the exception
template<class F> std::string outcomeText(F f) { try { f(); return "ok"; } catch (uima::Exception & e) { std::string s = "uima:" + e.asString(); return s; } catch (std::exception & e) { return std::string("std:") + e.what(); } }

enum Task { K_XMI, K_XCAS, K_BLOB, K_SERCAS, K_SHARED, K_HOSTILE, K_ITER, K_LIFE, K_FAULT, K_BAD, K_POOL, K_MULT, K_TS, K_TEXT, K_ERR, K_LOG, K_EXAMPLE, K_CAS, K_N, K_SHAREDDESC = K_N, K_ALL };
static const char * const KN[K_ALL] = { "xmi", "xcas", "blob", "sercas", "shared", "hostile", "iterate", "life", "fault", "bad-descriptor", "pool", "multiplier", "typesystem", "text", "errors", "log", "example", "cas", "shared-description" };

// a type system of its own or the shared one
struct Types { Schema s; std::unique_ptr<Env> own; const Env * e; Types(Rng & r, const TaskEnv & t) { if (t.env) { s = *t.schema; e = t.env; } else { s = genSchema(r); own.reset(new Env(s)); e = own.get(); } } internal::CASDefinition & def() { return *e->def; } CAS * newCAS() { ErrorInfo x; CAS * c = Framework::createCAS(*e->def, x); if (!c) throw std::runtime_error("createCAS: " + x.asString()); return c; } };
inline Digest taskCas(int kind, Rng & r, const TaskEnv & t) { Digest d; Types ty(r, t); Schema & s = ty.s; t.p(); std::unique_ptr<CAS> a(ty.newCAS()), b(ty.newCAS()); GenCas g(s); GenOpts o; if (kind == K_BLOB || kind == K_SERCAS || kind == K_CAS) { o.strFlags = S_ANY; o.privateMulti = false; } genCas(g, r, *a, o); t.p(); SnapOpts so; so.indexOrder = true; Snap sa = snapshot(s, *a, so); note(d, "source", sa.text()); count("nodes", sa.nodes); t.p(); std::string oc;
  if (kind == K_XMI) { std::string x = wXmi(*a); note(d, "xmi", x); oc = outcomeText([&] { rXmi(x, *b); }); t.p(); if (r.chance(50)) { b->reset(); oc += outcomeText([&] { rXmi(x, *b, 0, true); }); } }
  else if (kind == K_XCAS) { std::string x = wXcas(*a); note(d, "xcas", x); oc = outcomeText([&] { rXcas(x, *b); }); t.p(); }
  else if (kind == K_BLOB) { internal::CASSerializer ser(r.chance(50)); size_t n = ser.getBlobSize(*a); std::vector<int32_t> v(n / 4 + 4); size_t got = ser.getBlob(*a, v.data(), n); note(d, "blob", std::string((char *) v.data(), got)); t.p(); oc = outcomeText([&] { internal::CASDeserializer de; de.deserializeBlob(v.data(), *b); }); }
  else if (kind == K_SERCAS) { internal::CASSerializer ser(r.chance(50)); internal::SerializedCAS sc; ser.serializeData(*a, sc); if (r.chance(50)) ser.serializeDefinitions(ty.def(), sc); t.p(); internal::CASDeserializer de; oc = outcomeText([&] { de.deserializeData(sc, *b); }); }
  else if (kind == K_SHARED) { std::string x = wXmi(*a); XmiSerializationSharedData sd; oc = outcomeText([&] { rXmi(x, *b, &sd); }); t.p(); note(d, "xmi", wXmi(*b, &sd)); }
  else if (kind == K_HOSTILE) { bool xmi = r.chance(60); std::string x = xmi ? wXmi(*a) : wXcas(*a); int n = r.range(1, 4); for (int i = 0; i < n; ++i) { std::string y = mutate(r, x, s); note(d, "mutated", y); oc = outcomeText([&] { if (xmi) rXmi(y, *b, 0, r.chance(30)); else rXcas(y, *b); }); note(d, "outcome " + oc.substr(0, 12), oc); count(oc == "ok" ? "hostile-accepted" : "hostile-rejected"); b->reset(); t.p(); } return d; }
  else if (kind == K_CAS) { // reset and reuse, views, removal
    for (int i = 0; i < 3; ++i) { a->reset(); t.p(); GenCas h(s); genCas(h, r, *a, o); note(d, "again", snapshot(s, *a, so).text()); for (size_t k = 0; k < h.fs.size(); k += 2) outcome([&] { h.views[h.vw[k]]->getIndexRepository().removeFS(h.fs[k]); }); note(d, "removed", snapshot(s, *a, so).text()); } return d; }
  note(d, "outcome " + oc.substr(0, 12), oc); t.p(); note(d, "copy", snapshot(s, *b, so).text()); return d; }

inline Digest taskIter(Rng & r, const TaskEnv & t) { Digest d; Types ty(r, t); Schema & s = ty.s; std::unique_ptr<CAS> a(ty.newCAS()); GenCas g(s); GenOpts o; o.doubleAdd = true; genCas(g, r, *a, o); std::map<lowlevel::TyFS, int> num; for (size_t i = 0; i < g.fs.size(); ++i) num[addr(g.fs[i])] = (int) i; auto id = [&](const FeatureStructure & f) { auto i = num.find(addr(f)); return i == num.end() ? std::string("x") : std::to_string(i->second); };
  for (auto v : g.views) { std::vector<std::string> labels; for (auto & x : s.indexes) labels.push_back(x.label); labels.push_back("AnnotationIndex"); for (auto & l : labels) { t.p(); FSIndex ix = v->getIndexRepository().getIndex(us(l)); std::string q = std::to_string(ix.getSize()) + ":"; FSIterator it = ix.iterator(); for (it.moveToFirst(); it.isValid(); it.moveToNext()) q += id(it.get()) + ","; std::unique_ptr<FSIterator> c(new FSIterator(it)); for (c->moveToLast(); c->isValid(); c->moveToPrevious()) q += id(c->get()) + ";";
      if (!g.fs.empty() && l != "AnnotationIndex") { Type ty = s.types[s.idx(s.indexes[&l - &labels[0]].type)].t; for (int k = 0; k < 3; ++k) { FeatureStructure f = r.pick(g.fs); if (!ty.subsumes(f.getType())) continue; it.moveTo(f); q += it.isValid() ? id(it.get()) : "-"; FeatureStructure h = ix.find(f); q += h.isValid() ? "+" : "-"; } }
      FSFilterBuilder const & b = v->getFSFilterBuilder(); FSFilter * f = b.createTypeFilter(s.types[s.idx("v.Anno")].t, true); if (r.chance(50)) f = b.createNOTFilter(f); { FSIterator fi = ix.filteredIterator(f); for (fi.moveToFirst(); fi.isValid(); fi.moveToNext()) q += "f" + id(fi.get()); } f->deInit(); delete f; note(d, l, q); }
    ANIndex an = v->getAnnotationIndex(); std::string q; ANIterator u = an.unambiguousIterator(); for (u.moveToFirst(); u.isValid(); u.moveToNext()) q += id(u.get()); ANIterator ai = an.iterator(); int n = 0; for (ai.moveToFirst(); ai.isValid() && n < 5; ai.moveToNext(), ++n) { AnnotationFS f = ai.get(); ANIterator si = an.subIterator(f, r.chance(50) ? enUnambiguous : enAmbiguous); for (si.moveToFirst(); si.isValid(); si.moveToNext()) q += "s" + id(si.get()); } note(d, "annotations", q); }
  count("evals"); return d; }

// the callbacks of one engine as text
struct TextHook : AnnHook { std::map<Annotator *, int> id; int n = 0; std::string log; const TaskEnv & t; int failCb = 0, failAt = -1, hits = 0; bool throws_ = false, mark = true; explicit TextHook(const TaskEnv & e) : t(e) {}
  TyErrorId ev(char c, Annotator * a) { log += c + std::to_string(id[a]) + " "; t.p(); if (failCb == c && hits++ == failAt) { if (throws_) { UIMA_EXC_THROW_NEW(ExcInvalidRequest, 4712, ErrorMessage(UIMA_MSG_ID_LITERAL_STRING, "scripted failure"), ErrorMessage(UIMA_MSG_ID_LITERAL_STRING, "testing"), ErrorInfo::recoverable); } return 4711; } return 0; }
  void created(Annotator * a) override { id[a] = n++; log += "c" + std::to_string(id[a]) + " "; } void deleted(Annotator * a) override { log += "D" + std::to_string(id[a]) + " "; id.erase(a); }
  TyErrorId initialize(Annotator * a, AnnotatorContext & c) override { log += utf8(c.getTaeSpecifier().getAnalysisEngineMetaData()->getName()) + ":"; return ev('I', a); } TyErrorId typeSystemInit(Annotator * a, TypeSystem const & x) override { std::vector<Type> v; x.getAllTypes(v); log += std::to_string(v.size()); return ev('T', a); }
  TyErrorId reconfigure(Annotator * a) override { return ev('R', a); } TyErrorId batch(Annotator * a) override { return ev('B', a); } TyErrorId collection(Annotator * a) override { return ev('C', a); } TyErrorId destroy(Annotator * a) override { return ev('d', a); }
  TyErrorId process(Annotator * a, CAS & c, ResultSpecification const & s) override { if (!mark) return ev('p', a); Type m = c.getTypeSystem().getType(us("Mark")); FeatureStructure f = c.createFS(m); f.setIntValue(m.getFeatureByBaseName(us("seq")), id[a]); f.setStringValue(m.getFeatureByBaseName(us("who")), us("annotator " + std::to_string(id[a]))); c.getIndexRepository().addFS(f); log += std::to_string(s.getSize()); return ev('p', a); } };
inline Digest taskLife(Rng & r, const TaskEnv & t, bool faults) { Digest d; Scratch sc(t.dir, "work"); TextHook h(t); UseHook use(&h); if (faults) { h.failCb = "ITpRBCd"[r.below(7)]; h.failAt = r.below(4); h.throws_ = r.chance(50); }
  Tree tree(r, t.plugins, sc.d); tree.dress = [&](DAe & a) { if (r.chance(30)) { DCap c; c.types[1].push_back(tn(r.below(NT))); a.caps.push_back(c); } }; tree.root = tree.mk(0, r.range(0, 3), false); tree.types(); tree.renderOnly(); t.p(); Eng e; int route = r.below(3); if (route == 2) route = 3; create(r, tree, e, route); note(d, "create " + e.oc, errText(e.err)); t.p();
  if (e.e) { std::unique_ptr<CAS> c(e.e->newCAS()); int n = r.range(1, 6); for (int i = 0; i < n; ++i) { int k = r.below(8); TyErrorId rc = 0; std::string oc; UnicodeString txt = randString(r, S_XML, 40); if (k > 2) { c->reset(); c->setDocumentText(txt.getBuffer(), txt.length(), true); } t.p();
      oc = outcomeText([&] { switch (k) { case 0: rc = e.e->reconfigure(); break; case 1: rc = e.e->batchProcessComplete(); break; case 2: rc = e.e->collectionProcessComplete(); break; case 3: { ResultSpecification rs; rc = e.e->process(*c, rs); break; } default: rc = e.e->process(*c); } });
      note(d, "step" + std::to_string(k) + " " + std::to_string((long) rc), oc); if (k > 2) { note(d, "xmi", wXmi(*c)); count("processed"); } t.p(); }
    c.reset(); if (r.chance(30)) note(d, "destroy", std::to_string((long) e.e->destroy())); delete e.e; e.e = 0; t.p(); }
  note(d, "log", h.log); if (!h.id.empty()) note(d, "alive", std::to_string(h.id.size())); count("engines"); return d; }
// an engine made from a description that other engines use, too
inline Digest taskShared(Rng & r, const TaskEnv & t) { Digest d; TextHook h(t); h.mark = false; UseHook use(&h); ErrorInfo e; std::unique_ptr<AnalysisEngine> ae; std::string oc = outcomeText([&] { ae.reset(Framework::createAnalysisEngine(*t.desc, e)); }); note(d, "create", oc + errText(e)); if (!ae) return d; std::unique_ptr<CAS> c(ae->newCAS()); Schema s = *t.schema; Env::bind(s, c->getTypeSystem()); for (int i = 0; i < 2; ++i) { c->reset(); GenCas g(s); GenOpts o; genCas(g, r, *c, o); TyErrorId rc = 0; oc = outcomeText([&] { rc = ae->process(*c); }); note(d, "process " + std::to_string((long) rc), oc); t.p(); note(d, "xmi", wXmi(*c)); count("processed"); } c.reset(); ae.reset(); note(d, "log", h.log); count("engines"); return d; }
inline Digest taskBad(Rng & r, const TaskEnv & t) { Digest d; TextHook h(t); UseHook use(&h); Schema s = genSchema(r); std::string x = aeXml(s, r.chance(70) ? t.plugins + "/trace.so" : r.chance(50) ? t.plugins + "/missing.so" : "NoSuchAnnotator"); int k = r.range(0, 4);
  auto drop = [&](const char * what, const char * by) { size_t p = 0; std::vector<size_t> at; while ((p = x.find(what, p)) != std::string::npos) { at.push_back(p); ++p; } if (!at.empty()) x.replace(r.pick(at), strlen(what), by); };
  switch (k) { case 0: x.resize(r.below(x.size())); break; case 1: drop("<supertypeName>", "<supertypeName>no.such."); break; case 2: drop("<rangeTypeName>", "<rangeTypeName>no.such."); break; case 3: drop("</", "<"); break; default: drop("<featureName>", "<featureName>none"); } t.p();
  ErrorInfo e; AnalysisEngine * ae = 0; std::string oc; Scratch sc(t.dir, "work"); std::string file = sc.d + "/x.xml"; bool viaFile = r.chance(50); if (viaFile) writeFile(file, x);
  oc = outcomeText([&] { if (viaFile) ae = Framework::createAnalysisEngine(file.c_str(), e); else { UnicodeString u = us(x); ae = Framework::createAnalysisEngine(u.getBuffer(), u.length(), e); } }); std::string et = errText(e); size_t p; while ((p = et.find(sc.d)) != std::string::npos) et.replace(p, sc.d.size(), "DIR"); while ((p = oc.find(sc.d)) != std::string::npos) oc.replace(p, sc.d.size(), "DIR"); note(d, "oc", oc); note(d, std::string("error ") + (ae ? "created" : "refused"), et); count(ae ? "created" : "refused-descriptors"); delete ae; note(d, "log", h.log);
  if (r.chance(50)) { ErrorInfo e2; TypeSystem * ts = 0; oc = outcomeText([&] { ts = Framework::createTypeSystem((file + ".none").c_str(), e2); }); delete ts; note(d, ts ? "made" : "no file", ""); TypeSystemDescription * td = 0; std::string y = typeSystemXml(s); y.resize(r.below(y.size())); UnicodeString u = us(y); oc = outcomeText([&] { td = Framework::createTypeSystemDescription(u.getBuffer(), u.length()); }); delete td; note(d, "td", oc); }
  return d; }
inline Digest taskPool(Rng & r, const TaskEnv & t) { Digest d; Schema s = genSchema(r); Env env(s); int n = r.range(1, 4); CASPool pool(*env.desc, n); std::vector<CAS *> held; GenOpts o; o.maxFS = 8; Schema ps = s; bool bound = false; SnapOpts so; for (int i = 0; i < 8; ++i) { t.p(); if ((int) held.size() < n && r.chance(60)) { CAS * c = 0; std::string oc = outcomeText([&] { c = &pool.getCAS(); }); note(d, "get", oc); if (!c) break; if (!bound) { Env::bind(ps, c->getTypeSystem()); bound = true; } note(d, "empty", snapshot(ps, *c, so).text()); GenCas g(ps); genCas(g, r, *c, o); note(d, "filled", snapshot(ps, *c, so).text()); held.push_back(c); } else if (!held.empty()) { size_t k = r.below(held.size()); pool.releaseCAS(*held[k]); held.erase(held.begin() + k); } else { std::string oc; } }
  for (auto c : held) pool.releaseCAS(*c); count("evals"); return d; }
struct MultHook : AnnHook { AnnotatorContext * ctx = 0; int left = 0, k = 2, out = 0; Schema * s = 0; const TaskEnv & t; bool fail = false; explicit MultHook(const TaskEnv & e) : t(e) {}
  TyErrorId initialize(Annotator *, AnnotatorContext & c) override { ctx = &c; return 0; } int casInstances(Annotator *) override { return k; } TyErrorId process(Annotator *, CAS &, ResultSpecification const &) override { left = out; return 0; } bool hasNext(Annotator *) override { return left > 0; }
  CAS & next(Annotator *) override { t.p(); CAS & c = ctx->getEmptyCAS(); --left; if (fail && left == 0) { ctx->releaseCAS(c); UIMA_EXC_THROW_NEW(ExcInvalidRequest, 4713, ErrorMessage(UIMA_MSG_ID_LITERAL_STRING, "scripted failure"), ErrorMessage(UIMA_MSG_ID_LITERAL_STRING, "testing"), ErrorInfo::recoverable); } UnicodeString x = us("output " + std::to_string(left)); c.setDocumentText(x.getBuffer(), x.length(), true); return c; } };
inline Digest taskMult(Rng & r, const TaskEnv & t) { Digest d; Schema s = genSchema(r); MultHook h(t); UseHook use(&h); h.k = r.range(1, 3); h.out = r.range(0, 5); h.fail = r.chance(20); std::string x = aeXml(s, t.plugins + "/trace.so"); ErrorInfo e; UnicodeString u = us(x); std::unique_ptr<AnalysisEngine> ae(Framework::createAnalysisEngine(u.getBuffer(), u.length(), e)); if (!ae) { note(d, "not created", errText(e)); return d; }
  std::unique_ptr<CAS> in(ae->newCAS()); for (int i = 0; i < 2; ++i) { in->reset(); UnicodeString x = us("in"); in->setDocumentText(x.getBuffer(), x.length(), true); std::string oc = outcomeText([&] { CASIterator it = ae->processAndOutputNewCASes(*in); while (it.hasNext()) { t.p(); CAS & c = it.next(); note(d, "out", utf8(us(c.getDocumentText()))); ae->getAnnotatorContext().releaseCAS(c); } }); note(d, "oc", oc); } return d; }
inline Digest taskTs(Rng & r, const TaskEnv & t) { Digest d; Schema s = genSchema(r); std::string x = typeSystemXml(s); ErrorInfo e; int route = r.below(3); std::unique_ptr<TypeSystem> ts; std::unique_ptr<TypeSystemDescription> td; UnicodeString u = us(x); std::string oc = outcomeText([&] { switch (route) { case 0: ts.reset(Framework::createTypeSystemFromXMLBuffer(x.c_str(), e)); break; case 1: ts.reset(Framework::createTypeSystem(u.getBuffer(), u.length(), e)); break; default: td.reset(Framework::createTypeSystemDescription(u.getBuffer(), u.length())); ts.reset(Framework::createTypeSystem(*td, us("x"), e)); } }); note(d, "ts" + std::to_string(route), oc + errText(e)); t.p(); if (!ts) return d;
  std::vector<Type> all; ts->getAllTypes(all); std::string q; for (auto & y : all) { q += nameOf(y); std::vector<Feature> fs; y.getAppropriateFeatures(fs); for (auto & f : fs) { UnicodeString n; q += utf8(us(f.getName())); Type rt; f.getRangeType(rt); q += nameOf(rt); } std::vector<Type> sub; y.getSubTypes(sub); q += std::to_string(sub.size()); } note(d, "types", q); t.p();
  ErrorInfo e2; std::unique_ptr<CAS> c(Framework::createCAS(*ts, e2)); note(d, "cas", errText(e2)); if (c) { UnicodeString x = us("text"); c->setDocumentText(x.getBuffer(), x.length(), true); note(d, "xmi", wXmi(*c)); std::ostringstream os; XMLTypeSystemWriter w(*c); w.write(os); note(d, "written", os.str()); } count("evals"); return d; }
inline Digest taskText(Rng & r, const TaskEnv & t) { Digest d; for (int i = 0; i < 12; ++i) { UnicodeString a = randString(r, S_ANY, 60), b = randString(r, S_ANY, 3); UnicodeStringRef x(a.getBuffer(), a.length()), y(b.getBuffer(), b.length()); std::string s; x.extract(0, a.length(), s); note(d, "ext", s + x.asUTF8()); static const char * const CP[] = { "UTF-8", "ISO-8859-1", "windows-1252", "UTF-16", "Shift_JIS", "US-ASCII", "no-such-encoding", "EBCDIC-CP-US" }; const char * cp = CP[r.below(8)]; note(d, cp, outcome([&] { std::string z; x.extract(0, a.length(), z, cp); note(d, "conv", z); })); std::string q = std::to_string(x.indexOf(y)) + " " + std::to_string(x.compare(y) < 0); note(d, "ops", q); t.p();
    Language l(r.chance(50) ? "en-US" : "de"); note(d, "lang", l.asString() + std::to_string(l.getLanguage()) + std::to_string(l.hasTerritory())); std::ostringstream os; os << x; note(d, "out", os.str()); } count("evals", 12); return d; }
inline Digest taskErr(Rng & r, const TaskEnv & t) { Digest d; for (int i = 0; i < 10; ++i) { int id = r.range(1, 200); ErrorMessage m(id, "some parameter"); m.addParam((int) r.next()); note(d, "msg", m.asString()); t.p(); ErrorInfo e; e.setErrorId(id); e.setMessage(m); e.setSeverity(ErrorInfo::recoverable); note(d, "info", e.asString()); note(d, "exc", outcomeText([&] { try { throw Uima_runtime_error(ErrorMessage(id, "abc"), UIMA_MSG_ID_NO_MESSAGE_AVAILABLE, ErrorInfo::unrecoverable); } catch (Exception & x) { note(d, "what", x.what()); throw; } })); } count("evals", 10); return d; }
// logging: `base` makes the messages of different tasks distinguishable
inline Digest taskLog(Rng & r, const TaskEnv & t, const std::string & base, long & sent) { Digest d; ResourceManager & rm = ResourceManager::getInstance(); std::unique_ptr<LogFacility> own(new LogFacility(us("facility " + base))); LogFacility & log = *own; sent = 0; for (int i = 0; i < 12; ++i) { std::string m = base + "/" + std::to_string(i) + ";"; switch (r.below(4)) { case 0: log.logWarning(m); break; case 1: log.logError(m); break; case 2: log.logError(m, 42); break; default: rm.getLogger().logError(m); } ++sent; t.p(); } note(d, "last", "x"); count("evals"); return d; }
inline Digest taskExample(Rng & r, const TaskEnv & t) { Digest d; if (t.examples.empty()) return d; static const char * const D[] = { "SimpleTextSegmenter.xml", "DaveDetector.xml", "SofaExampleAnnotator.xml" }; int k = r.below(3); std::string file = t.examples + "/descriptors/" + D[k]; ErrorInfo e; std::unique_ptr<AnalysisEngine> ae; std::string oc = outcomeText([&] { ae.reset(Framework::createAnalysisEngine(file.c_str(), e)); }); note(d, std::string("example ") + D[k], oc + errText(e)); if (!ae) { count("example-not-created"); return d; } count("examples"); std::unique_ptr<CAS> c(ae->newCAS());
  for (int i = 0; i < 2; ++i) { c->reset(); UnicodeString txt = us("First line\n\nHello Dave, this is Dave\nthis beer is good\n\n") + randString(r, S_XML, 60); TyErrorId rc = 0; if (k == 2) { CAS * v = c->createView(us("EnglishDocument")); UnicodeString q = us("this beer is good"); v->setDocumentText(q.getBuffer(), q.length(), true); } else c->setDocumentText(txt.getBuffer(), txt.length(), true); t.p(); oc = outcomeText([&] { rc = ae->process(*c); }); note(d, "process " + std::to_string((long) rc), oc); note(d, "xmi", wXmi(*c)); note(d, "xcas", wXcas(*c)); count("processed"); }
  note(d, "end", std::to_string((long) ae->collectionProcessComplete())); return d; }

inline Digest runTask(int kind, u64 seed, const TaskEnv & t, const std::string & base, long & sent) { Rng r(seed); sent = 0; count(std::string("task-") + KN[kind]);
  switch (kind) { case K_ITER: return taskIter(r, t); case K_LIFE: return taskLife(r, t, false); case K_FAULT: return taskLife(r, t, true); case K_BAD: return taskBad(r, t); case K_POOL: return taskPool(r, t); case K_MULT: return taskMult(r, t); case K_TS: return taskTs(r, t); case K_TEXT: return taskText(r, t); case K_ERR: return taskErr(r, t); case K_LOG: return taskLog(r, t, base, sent); case K_EXAMPLE: return taskExample(r, t); case K_SHAREDDESC: return taskShared(r, t); default: return taskCas(kind, r, t); } }
}
