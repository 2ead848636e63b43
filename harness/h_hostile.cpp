// P01: malformed XMI / XCAS documents. Valid documents of random CASes are mutated at several levels and read; whatever happens,
// the CAS must be resettable and usable like a new one afterwards.
#include "snap.hpp"
#include "mutate.hpp"
#include "uima/xmishareddata.hpp"
using namespace vp; using namespace uima;

static std::string writeXmi(CAS & c) { std::ostringstream os; XmiWriter w(c, true); w.write(os); return os.str(); }
static std::string writeXcas(CAS & c) { std::ostringstream os; XCASWriter w(c, true); w.write(os); return os.str(); }
static void readXmi(const std::string & x, CAS & c, int how) { xercesc::MemBufInputSource src((const XMLByte *) x.data(), x.size(), "doc"); if (how == 2) { XmiSerializationSharedData sd; XmiDeserializer::deserialize(src, c, sd); } else XmiDeserializer::deserialize(src, c, how == 1); }
static void readXcas(const std::string & x, CAS & c) { xercesc::MemBufInputSource src((const XMLByte *) x.data(), x.size(), "doc"); XCASDeserializer::deserialize(src, c); }

// array sizes are bounded (what the reader makes of a declared size of gigabytes is memory, not behaviour); the reader uses atoi
static void boundSizes(std::string & x) { for (size_t p = 0; (p = x.find("size", p)) != std::string::npos; p += 4) { size_t q = p + 4; while (q < x.size() && isspace((unsigned char) x[q])) ++q; if (q >= x.size() || x[q] != '=') continue; ++q; while (q < x.size() && isspace((unsigned char) x[q])) ++q; if (q >= x.size() || (x[q] != '"' && x[q] != '\'')) continue; char c = x[q]; size_t e = x.find(c, ++q); if (e == std::string::npos) e = x.size();
  if (x.find('&', q) < e) { x.replace(q, e - q, "7"); continue; } int v = atoi(x.substr(q, e - q).c_str()); if (v > 2000000 && v < 2147483647) x.replace(q, e - q, "1999999"); } }

static void run(Rng & r, bool isXmi) {
  Schema s = genSchema(r); Env env(s); std::unique_ptr<CAS> src(env.newCAS()), use(env.newCAS()), fresh(env.newCAS());
  GenCas g(s); GenOpts o; o.maxFS = 8; genCas(g, r, *src, o); std::string doc; doc = isXmi ? writeXmi(*src) : writeXcas(*src);
  std::unique_ptr<CAS> src2(env.newCAS()); GenCas g2(s); GenOpts o2; o2.privateMulti = false; genCas(g2, r, *src2, o2); std::string good = r.chance(50) ? writeXmi(*src2) : writeXcas(*src2); bool goodXmi = good.find("<xmi:XMI") != std::string::npos;
  SnapOpts so; so.sofaNums = true; so.indexOrder = true; outcome([&] { goodXmi ? readXmi(good, *fresh, 0) : readXcas(good, *fresh); }); Snap expect = snapshot(s, *fresh, so); seen(expect.hash());
  int rounds = 8;
  for (int i = 0; i < rounds; ++i) {
    std::string bad; int w = r.range(0, 30); op("round " + std::to_string(i));
    if (w == 0) { Schema s2 = genSchema(r); Env e2(s2); std::unique_ptr<CAS> c(e2.newCAS()); GenCas g3(s2); GenOpts o3; o3.privateMulti = false; genCas(g3, r, *c, o3); bad = isXmi ? writeXmi(*c) : writeXcas(*c); op("other type system"); }
    else if (w == 1) { bad = isXmi ? writeXcas(*src) : writeXmi(*src); op("other format"); }
    else if (w == 2) { int n = r.range(0, 40); for (int k = 0; k < n; ++k) bad += (char) r.next(); op("garbage"); }
    else bad = mutate(r, doc, s);
    int how = r.range(0, 2); if (getenv("VP_DUMP")) { std::ofstream f(std::string(getenv("VP_DUMP")) + "/bad.xml"); f << bad; std::ofstream f2(std::string(getenv("VP_DUMP")) + "/ts.xml"); f2 << aeXml(s); std::ofstream f3(std::string(getenv("VP_DUMP")) + "/a.xml"); f3 << doc; }
    boundSizes(bad);
    std::string oc = outcome([&] { isXmi ? readXmi(bad, *use, how) : readXcas(bad, *use); }); op(oc); seen(hashStr(bad)); count("evals"); count("docs");
    if (oc == "ok") { count("accepted"); Snap sn; std::string so1 = outcome([&] { sn = snapshot(s, *use, so); }); if (so1 == "ok") count("accepted-and-walked", sn.nodes > 0); else if (isUima(so1)) { count("accepted-walk-refused"); op("walk refused " + so1); } else violation("accepted-document-unusable", so1);
      std::string w1 = outcome([&] { writeXmi(*use); }), w2 = outcome([&] { writeXcas(*use); }); if (w1 != "ok" && !isUima(w1)) violation("accepted-document-unusable", "write xmi " + w1); if (w2 != "ok" && !isUima(w2)) violation("accepted-document-unusable", "write xcas " + w2); }
    else if (isUima(oc)) count("rejected"); else { violation("foreign-exception", oc); }
    TyErrorId e = use->reset(); if (e != UIMA_ERR_NONE) violation("reset-after-failure", std::to_string(e));
    if (i % 2 == 1 || i == rounds - 1) { oc = outcome([&] { goodXmi ? readXmi(good, *use, 0) : readXcas(good, *use); }); if (oc != "ok") { violation("unusable-after-failure", oc); return; }
      Snap sn = snapshot(s, *use, so); count("evals", sn.nodes); count("used-afterwards"); if (sn.text() != expect.text()) { violation("different-after-failure" + diffKey(expect, sn), firstDiff(expect, sn)); return; } use->reset(); } }
}
static void xmi(Rng & r, Args &) { run(r, true); }
static void xcas(Rng & r, Args &) { run(r, false); }
int main(int argc, char ** argv) { ResourceManager::createInstance("vp"); return drive(argc, argv, { { "xmi", xmi }, { "xcas", xcas } }); }
