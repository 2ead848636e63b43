// M01: the tasks of tasks.hpp, one per case, for the growth monitor
#include "tasks.hpp"
#include "uima/dirwalk.hpp"
using namespace vp; using namespace uima;
static ThreadedHook gHook;
static void tasks(Rng & r, Args & a) { int kind = r.below(K_N); u64 seed = r.next(); op(std::string(KN[kind])); TaskEnv t; t.plugins = a.extra["--plugins"]; t.examples = a.extra["--examples"]; t.dir = a.tmp; t.pause = [] { }; long sent; runTask(kind, seed, t, "b", sent); }
// uses of the API that the other workloads do not repeat
struct PoolHook : AnnHook { int n = 1, k = 0; bool fail = false; TyErrorId initialize(Annotator *, AnnotatorContext & c) override { for (int i = 0; i < n; ++i) { c.defineCASPool(i + 1); if (i == 0) { CAS & e = c.getEmptyCAS(); c.releaseCAS(e); } } if (fail) { UIMA_EXC_THROW_NEW(ExcInvalidRequest, 4711, UIMA_MSG_ID_EXC_WRONG_FSTYPE, ErrorMessage(UIMA_MSG_ID_EXCON_EXECUTING_ANNOTATOR), ErrorInfo::recoverable); } return 0; } int casInstances(Annotator *) override { return k; } };
static void extra(Rng & r, Args & a) { int kind = r.below(6); Schema s = genSchema(r); std::string x = aeXml(s, a.extra["--plugins"] + "/trace.so"), tsx = typeSystemXml(s); Scratch sc(a.tmp, "extra"); ErrorInfo e; count("extra-" + std::to_string(kind)); op("extra " + std::to_string(kind));
  auto types = [&](AnalysisEngineDescription & d) { XMLParser p; xercesc::MemBufInputSource src((const XMLByte *) x.data(), x.size(), "d"); p.parseAnalysisEngineDescription(d, src); };
  if (kind == 0) { PoolHook h; UseHook use(&h); h.n = r.below(3); h.k = r.below(3); h.fail = r.chance(30); UnicodeString u = us(x); AnalysisEngine * ae = Framework::createAnalysisEngine(u.getBuffer(), u.length(), e); if (ae) { std::unique_ptr<CAS> c(ae->newCAS()); outcome([&] { ae->process(*c); }); c.reset(); if (r.chance(50)) ae->destroy(); delete ae; } }
  else if (kind == 1) { AnalysisEngineDescription d; types(d); d.validate(); d.commit(); AnalysisEngineMetaData * m = d.getAnalysisEngineMetaData(); for (int i = 0; i < 3; ++i) { std::unique_ptr<TypeSystem> ts; outcome([&] { ts.reset(i == 0 ? Framework::createTypeSystem(*m, e) : i == 1 ? Framework::createTypeSystem(*m->getTypeSystemDescription(), us("me"), e) : Framework::createTypeSystem(*m->getTypeSystemDescription(), m->getTypePriorities(), us("me"), e)); }); if (!ts) continue;
      std::unique_ptr<CAS> c; outcome([&] { c.reset(i == 0 ? Framework::createCAS(*ts, e) : Framework::createCAS(*ts, *m, e)); }); if (c) { UnicodeString t = us("text"); c->setDocumentText(t.getBuffer(), t.length(), true); AnnotationFS f = c->createAnnotation(c->getTypeSystem().getType(us("uima.tcas.Annotation")), 0, 2); c->getIndexRepository().addFS(f); count("cases-with-cas"); } }
    if (r.chance(50)) { std::unique_ptr<internal::CASDefinition> def; outcome([&] { def.reset(internal::CASDefinition::createCASDefinition(d)); }); if (def) { std::unique_ptr<CAS> c(Framework::createCAS(*def, e)); } } }
  else if (kind == 2) { Env env(s); std::unique_ptr<CAS> c(env.newCAS()), b(env.newCAS()); UnicodeString t = randString(r, S_XML, 40); c->setDocumentText(t.getBuffer(), t.length(), true); std::string doc = wXmi(*c), xd = wXcas(*c); if (r.chance(40)) doc.resize(r.below(doc.size())); if (r.chance(40)) xd.resize(r.below(xd.size())); std::string f = sc.d + "/x.xmi", g = sc.d + "/x.xcas"; writeFile(f, doc); writeFile(g, xd); if (r.chance(20)) f += ".none"; if (r.chance(20)) g += ".none";
    int v = r.below(4); UnicodeString uf = us(f), ug = us(g); XmiSerializationSharedData sd; count(outcome([&] { switch (v) { case 0: XmiDeserializer::deserialize(f.c_str(), *b, r.chance(50)); break; case 1: XmiDeserializer::deserialize(uf, *b, r.chance(50)); break; case 2: XmiDeserializer::deserialize(f.c_str(), *b, sd); break; default: XmiDeserializer::deserialize(uf, *b, sd); } }) == "ok" ? "files-read" : "files-refused"); b->reset();
    count(outcome([&] { if (v & 1) XCASDeserializer::deserialize(g.c_str(), *b); else XCASDeserializer::deserialize(ug, *b); }) == "ok" ? "files-read" : "files-refused"); }
  else if (kind == 3) { for (int i = 0; i < 3; ++i) writeFile(sc.d + "/f" + std::to_string(i), "x"); mkdir((sc.d + "/sub").c_str(), 0755); for (auto & d : { sc.d, sc.d + "/none", sc.d + "/f0" }) { util::DirectoryWalk w(d.c_str()); int n = 0; while (w.isValid() && n < 20) { ++n; w.setToNext(); } count("entries-walked", n); } }
  else if (kind == 4) { std::string f = sc.d + "/d.xml"; writeFile(f, r.chance(50) ? x : x.substr(0, r.below(x.size()))); AnalysisEngine * ae = 0; count(outcome([&] { ae = r.chance(50) ? (AnalysisEngine *) TextAnalysisEngine::createTextAnalysisEngine(f.c_str(), e) : Framework::createAnalysisEngine(f.c_str(), e); }) == "ok" && ae ? "file-engines" : "file-engines-refused"); delete ae; }
  else { std::string f = sc.d + "/t.xml"; writeFile(f, r.chance(50) ? tsx : tsx.substr(0, r.below(tsx.size()))); std::string none = sc.d + "/no.xml"; std::unique_ptr<TypeSystem> ts, ts2; std::unique_ptr<TypeSystemDescription> td, td2; outcome([&] { ts.reset(Framework::createTypeSystem(f.c_str(), e)); }); outcome([&] { ts2.reset(Framework::createTypeSystemFromXMLBuffer(tsx.c_str(), e)); }); outcome([&] { td.reset(Framework::createTypeSystemDescription(f.c_str())); }); outcome([&] { td2.reset(Framework::createTypeSystemDescription(none.c_str())); }); if (ts) { std::unique_ptr<CAS> c(Framework::createCAS(*ts, e)); std::ostringstream os; if (c) { XMLTypeSystemWriter w(*c); w.write(os); } } } }
int main(int argc, char ** argv) { unsetenv("UIMACPP_HOME"); ResourceManager::createInstance("vp").setLoggingLevel(LogStream::EnMessage); Args a = parseArgs(argc, argv); installHook(a.extra["--plugins"], &gHook); return drive(argc, argv, { { "tasks", tasks }, { "extra", extra } }); }
