// X01 X02 X03 B01 R01: serialization round trips of random CASes, and reset CASes against fresh ones.
#include "snap.hpp"
#include "uima/xmishareddata.hpp"
#include "uima/internal_casserializer.hpp"
#include "uima/internal_casdeserializer.hpp"
#include "uima/internal_serializedcas.hpp"
#include "uima/caspool.hpp"
using namespace vp; using namespace uima;

static std::string writeXmi(CAS & c, XmiSerializationSharedData * sd = 0) { std::ostringstream os; if (sd) { XmiWriter w(c, true, sd); w.write(os); } else { XmiWriter w(c, true); w.write(os); } return os.str(); }
static void readXmi(const std::string & x, CAS & c, bool lenient = false) { xercesc::MemBufInputSource src((const XMLByte *) x.data(), x.size(), "xmi"); XmiDeserializer::deserialize(src, c, lenient); }
static void readXmi(const std::string & x, CAS & c, XmiSerializationSharedData & sd) { xercesc::MemBufInputSource src((const XMLByte *) x.data(), x.size(), "xmi"); XmiDeserializer::deserialize(src, c, sd); }
static std::string writeXcas(CAS & c) { std::ostringstream os; XCASWriter w(c, true); w.write(os); return os.str(); }
static void readXcas(const std::string & x, CAS & c) { xercesc::MemBufInputSource src((const XMLByte *) x.data(), x.size(), "xcas"); XCASDeserializer::deserialize(src, c); }

typedef std::vector<int32_t> Blob;
// the output buffer is surrounded by guard words and filled with noise first
static std::string writeBlob(CAS & c, Blob & out, u64 noise, size_t * announced = 0, internal::CASSerializer * useSer = 0) {
  internal::CASSerializer own(false); internal::CASSerializer & ser = useSer ? *useSer : own; size_t sz = ser.getBlobSize(c); if (announced) *announced = sz; if (sz % 4) return "size not a multiple of four";
  size_t n = sz / 4; std::vector<int32_t> b(n + 16); Rng r(noise); for (auto & x : b) x = (int32_t) r.next(); std::vector<int32_t> guard(b); 
  size_t got = ser.getBlob(c, b.data() + 8, sz); if (got > sz || got == 0) return "wrote " + std::to_string(got) + " announced " + std::to_string(sz);
  for (size_t i = 0; i < 8; ++i) if (b[i] != guard[i] || b[n + 8 + i] != guard[n + 8 + i]) return "wrote outside the buffer";
  if (sz > 4) { std::vector<int32_t> t(b.size(), 77); internal::CASSerializer s2(false); s2.getBlobSize(c); if (s2.getBlob(c, t.data() + 8, sz - 4) != 0) return "wrote into a buffer that is too small"; for (auto x : t) if (x != 77) return "touched a buffer that is too small"; }
  out.assign(b.begin() + 8, b.begin() + 8 + got / 4); return ""; }
static void readBlob(Blob b, CAS & c) { internal::CASDeserializer d; d.deserializeBlob(b.data(), c); }
// independent implementation of the documented blob layout in the other byte order
static Blob swapped(const Blob & in) {
  Blob o(in); auto s4 = [](int32_t x) { return (int32_t) __builtin_bswap32((uint32_t) x); }; size_t p = 0; auto words = [&](size_t n) { for (size_t i = 0; i < n; ++i, ++p) o[p] = s4(in[p]); };
  auto bytes = [&](size_t n, size_t w) { char * d = (char *) &o[p]; for (size_t i = 0; i < n; ++i) std::reverse(d + i * w, d + (i + 1) * w); p += (n * w + 3) / 4; };
  words(2); size_t n = in[p]; words(1); words(n); n = in[p]; words(1); bytes(n, 2); n = in[p]; words(1); words(n); n = in[p]; words(1); words(n); n = in[p]; words(1); p += (n + 3) / 4; n = in[p]; words(1); bytes(n, 2); n = in[p]; words(1); bytes(n, 8); return o; }

static void dump(const char * name, const std::string & s) { if (getenv("VP_DUMP")) { std::ofstream f(std::string(getenv("VP_DUMP")) + "/" + name); f << s; } }
static void statCas(GenCas & g, const Snap & s) { count("cases-with-data", s.nodes > 1); count("nodes", s.nodes); count("views", (long) s.views.size()); count("fs", (long) g.fs.size()); count("arrays", g.arrs); count("lists", g.lists); count("edges", g.edges); count("strings", g.strs); if (s.nodes > 3) seen(s.hash()); }

template<class W, class R> static void roundTrip(Rng & r, const char * fmt, GenOpts o, SnapOpts so, W write, R read) {
  Schema s = genSchema(r); Env env(s); std::unique_ptr<CAS> a(env.newCAS()), b(env.newCAS());
  GenCas g(s); genCas(g, r, *a, o);
  SnapOpts strict; strict.sofaNums = true; strict.indexOrder = true;
  Snap before = snapshot(s, *a, strict); Snap sa = snapshot(s, *a, so); statCas(g, sa); dump("ts.xml", aeXml(s));
  CAS & from = *g.views[r.below(g.views.size())];
  std::string x; std::string oc = outcome([&] { x = write(from); }); op("write " + oc + " " + std::to_string(x.size())); dump("a.xml", x);
  if (oc != "ok") { violation(std::string(fmt) + "-write-fails", oc); return; }
  count("bytes", (long) x.size());
  Snap after = snapshot(s, *a, strict); if (after.text() != before.text()) violation(std::string(fmt) + "-writing-changes-cas", firstDiff(before, after));
  if (r.chance(40)) { // the receiving CAS has been used before
    GenCas g2(s); GenOpts o2; genCas(g2, r, *b, o2); b->reset(); op("receiver reused"); count("reused-receivers"); }
  oc = outcome([&] { read(x, *b); }); dump("before.txt", sa.text());
  if (oc != "ok") { violation(std::string(fmt) + "-own-output-rejected", oc); return; }
  Snap sb = snapshot(s, *b, so); dump("after.txt", sb.text());
  if (sb.text() != sa.text()) { violation(std::string(fmt) + "-round-trip" + diffKey(sa, sb), firstDiff(sa, sb)); return; }
  std::string x2; oc = outcome([&] { x2 = write(*b); }); if (oc != "ok") { violation(std::string(fmt) + "-rewrite-fails", oc); return; }
  std::unique_ptr<CAS> c(env.newCAS()); oc = outcome([&] { read(x2, *c); }); if (oc != "ok") { violation(std::string(fmt) + "-own-output-rejected", "second generation: " + oc); return; }
  Snap sc = snapshot(s, *c, so); if (sc.text() != sa.text()) violation(std::string(fmt) + "-second-round-trip" + diffKey(sa, sc), firstDiff(sa, sc));
  count("round-trips", 2); count("evals", 2 * sa.nodes);
  if (sa.nodes > 6) sample(std::string(fmt) + ": " + std::to_string(sa.nodes) + " nodes, views " + std::to_string(sa.views.size()) + ", " + x.substr(0, 300));
}
// xmi:id -> element name and uid of every element of an XMI document
static std::map<std::string, std::string> idMap(const std::string & x, std::string & dup) {
  std::map<std::string, std::string> m; size_t p = 0;
  while ((p = x.find('<', p)) != std::string::npos) { size_t e = x.find('>', p); if (e == std::string::npos) break; std::string el = x.substr(p + 1, e - p - 1); p = e + 1;
    auto attr = [&](const char * n) { std::string k = std::string(" ") + n + "=\""; size_t q = el.find(k); if (q == std::string::npos) return std::string("-"); q += k.size(); return el.substr(q, el.find('"', q) - q); };
    std::string id = attr("xmi:id"); if (id == "-") continue; std::string n = el.substr(0, el.find(' ')); n = n.substr(n.find(':') == std::string::npos ? 0 : n.find(':') + 1); if (!m.insert({ id, n + " uid=" + attr("uid") + " " + attr("sofaID") }).second) dup = id; }
  return m; }
static std::string mapDiff(const std::map<std::string, std::string> & a, const std::map<std::string, std::string> & b, bool extraOk) {
  for (auto & p : a) { auto i = b.find(p.first); if (i == b.end()) return "id " + p.first + " (" + p.second + ") disappeared"; if (i->second != p.second) return "id " + p.first + " was " + p.second + " is " + i->second; }
  if (!extraOk) for (auto & p : b) if (!a.count(p.first)) return "id " + p.first + " (" + p.second + ") appeared"; return ""; }
// reading and writing with shared data keeps identifiers, also after feature structures were added
static void shared(Rng & r, Args &) {
  Schema s = genSchema(r); Env env(s); std::unique_ptr<CAS> a(env.newCAS()), b(env.newCAS()), c(env.newCAS()); GenCas g(s); GenOpts o; SnapOpts so; so.nullElemAsEmpty = true; genCas(g, r, *a, o);
  Snap sa = snapshot(s, *a, so); statCas(g, sa); std::string x = writeXmi(*a), dup; auto ids = idMap(x, dup); if (!dup.empty()) violation("xmi-duplicate-id", dup); dump("a.xml", x); dump("ts.xml", aeXml(s));
  XmiSerializationSharedData sd; std::string oc = outcome([&] { readXmi(x, *b, sd); }); if (oc != "ok") { violation("xmi-shared-own-output-rejected", oc); return; }
  Snap sb = snapshot(s, *b, so); if (sb.text() != sa.text()) { violation("xmi-shared-read" + diffKey(sa, sb), firstDiff(sa, sb)); return; }
  std::string x2; oc = outcome([&] { x2 = writeXmi(*b, &sd); }); if (oc != "ok") { violation("xmi-shared-write-fails", oc); return; } dump("b.xml", x2);
  auto ids2 = idMap(x2, dup); if (!dup.empty()) violation("xmi-duplicate-id", dup); std::string d = mapDiff(ids, ids2, false); if (!d.empty()) violation("xmi-shared-ids-change", d);
  oc = outcome([&] { readXmi(x2, *c); }); if (oc != "ok") { violation("xmi-own-output-rejected", "with shared data: " + oc); return; }
  Snap sc = snapshot(s, *c, so); if (sc.text() != sa.text()) { violation("xmi-shared-round-trip" + diffKey(sa, sc), firstDiff(sa, sc)); return; }
  // additions get fresh identifiers
  int n = r.range(1, 5), base = 100000; for (int i = 0; i < n; ++i) { int t = s.fsTypes[r.below(s.fsTypes.size())]; CAS & v = *b->getBaseCas()->getView(us(CAS::NAME_DEFAULT_SOFA)); FeatureStructure f;
    if (s.subsumes("uima.tcas.Annotation", s.types[t].name)) f = v.createAnnotation(s.types[t].t, 100 + i, 200); else f = v.createFS(s.types[t].t); f.setIntValue(s.feat(t, "uid")->f, base + i); v.getIndexRepository().addFS(f); }
  Snap sn = snapshot(s, *b, so); std::string x3; oc = outcome([&] { x3 = writeXmi(*b, &sd); }); if (oc != "ok") { violation("xmi-shared-write-fails", oc); return; } dump("c.xml", x3);
  auto ids3 = idMap(x3, dup); if (!dup.empty()) violation("xmi-duplicate-id", dup); d = mapDiff(ids, ids3, true); if (!d.empty()) violation("xmi-shared-ids-change", "after additions: " + d); if (sn.nodes > sa.nodes && (long) ids3.size() < (long) ids.size() + n) violation("xmi-shared-addition-lost", std::to_string(ids3.size()));
  std::unique_ptr<CAS> e(env.newCAS()); oc = outcome([&] { readXmi(x3, *e); }); if (oc != "ok") { violation("xmi-own-output-rejected", "with shared data: " + oc); return; }
  Snap se = snapshot(s, *e, so); if (se.text() != sn.text()) violation("xmi-shared-round-trip" + diffKey(sn, se), firstDiff(sn, se));
  count("evals", sa.nodes * 3); count("ids-compared", (long) ids.size() * 2);
}
static Schema subSchema(Rng & r, const Schema & s) {
  std::set<std::string> gone; for (size_t i = s.types.size(); i--; ) { auto & t = s.types[i]; if (t.builtin || t.name == "v.Base" || t.name == "v.Anno") continue; bool leaf = true; for (auto & u : s.types) if (u.super == t.name && !gone.count(u.name)) leaf = false; if (leaf && r.chance(35)) gone.insert(t.name); }
  Schema n; int pf = r.range(0, 50); for (auto & t : s.types) { if (gone.count(t.name)) continue; TypeDef d = t; d.own.clear(); for (auto & f : t.own) { if (gone.count(f.range)) continue; if (!t.builtin && f.name != "uid" && r.chance(pf)) continue; FeatDef e = f; e.owner = (int) n.types.size(); d.own.push_back(e); } int k = n.add(d); if (d.stringSub) n.strSubs.push_back(k); else if (!d.builtin) n.fsTypes.push_back(k); }
  for (auto & d : s.indexes) { int t = n.idx(d.type); if (t < 0) continue; bool ok = true; for (auto & k : d.keys) if (!k.first.empty() && !n.feat(t, k.first)) ok = false; if (ok) n.indexes.push_back(d); }
  for (auto c : s.priorities) { std::vector<std::string> k; for (auto & t : c) if (n.idx(t) >= 0) k.push_back(t); if (k.size() > 1) n.priorities.push_back(k); }
  return n; }
static void oots(Rng & r, Args &) {
  Schema s = genSchema(r); Schema k = subSchema(r, s); Env env(s), kenv(k); std::unique_ptr<CAS> a(env.newCAS()), b(kenv.newCAS()), c(env.newCAS()), l(kenv.newCAS()); GenCas g(s); GenOpts o; genCas(g, r, *a, o);
  SnapOpts so; so.nullElemAsEmpty = true; Snap sa = snapshot(s, *a, so); SnapOpts ko = so; ko.known = &k; Snap sk = snapshot(s, *a, ko); statCas(g, sa); count("docs-with-unknown", sk.unknown);
  std::string x = writeXmi(*a), dup; auto ids = idMap(x, dup); dump("ts.xml", aeXml(s)); dump("ts2.xml", aeXml(k)); dump("a.xml", x); dump("before.txt", sk.text());
  // strict
  { std::unique_ptr<CAS> t(kenv.newCAS()); std::string oc = outcome([&] { readXmi(x, *t); });
    bool any = sk.unknown; Snap full = sk; if (any ? !isUima(oc) : oc != "ok") violation(any ? "oots-strict-read-accepts" : "oots-strict-read-rejects", oc); count("strict-rejections", any); }
  // lenient without shared data
  std::string oc = outcome([&] { readXmi(x, *l, true); }); if (oc != "ok") { violation("oots-lenient-read-fails", oc); return; }
  Snap sl = snapshot(k, *l, so); dump("after.txt", sl.text()); if (sl.text() != sk.text()) { violation("oots-lenient-known-part" + diffKey(sk, sl), firstDiff(sk, sl)); return; }
  XmiSerializationSharedData sd; oc = outcome([&] { readXmi(x, *b, sd); }); if (oc != "ok") { violation("oots-shared-read-fails", oc); return; }
  Snap sb = snapshot(k, *b, so); if (sb.text() != sk.text()) { violation("oots-shared-known-part" + diffKey(sk, sb), firstDiff(sk, sb)); return; }
  std::string x2; oc = outcome([&] { x2 = writeXmi(*b, &sd); }); dump("b.xml", x2); if (oc != "ok") { violation("oots-write-fails", oc); return; }
  auto ids2 = idMap(x2, dup); if (!dup.empty()) violation("oots-duplicate-id", dup); std::string d = mapDiff(ids, ids2, false); if (!d.empty()) violation("oots-ids-change", d);
  oc = outcome([&] { readXmi(x2, *c); }); if (oc != "ok") { violation("oots-rewritten-rejected", oc); return; }
  Snap sc = snapshot(s, *c, so); dump("before.txt", sa.text()); dump("after.txt", sc.text()); if (sc.text() != sa.text()) { violation("oots-preservation" + diffKey(sa, sc), firstDiff(sa, sc)); return; }
  // a second write with the same shared data gives the same document
  std::string x3; oc = outcome([&] { x3 = writeXmi(*b, &sd); }); if (oc != "ok" || x3 != x2) violation("oots-second-write-differs", oc);
  count("evals", sa.nodes + 2 * sk.nodes); count("unknown-nodes", sa.nodes - sk.nodes); count("ids-compared", (long) ids.size());
  if (sa.nodes > sk.nodes + 2) sample("unknown nodes " + std::to_string(sa.nodes - sk.nodes) + " of " + std::to_string(sa.nodes) + ": " + x.substr(0, 300));
}
static GenOpts anyOpts() { GenOpts o; o.strFlags = S_ANY; o.privateMulti = false; return o; }
static void history(Rng & r, Schema & s, CAS & c, bool io) { // arbitrary earlier use of a CAS
  GenCas g(s); GenOpts o; o.doubleAdd = true; if (r.chance(30)) o.maxFS = 60; genCas(g, r, c, o);
  for (auto v : g.views) { uima::FSIterator it = v->getIndexRepository().getIndex(us("AnnotationIndex")).iterator(); it.moveToFirst(); if (r.chance(50)) for (auto & d : s.indexes) { uima::FSIterator j = v->getIndexRepository().getIndex(us(d.label)).iterator(); j.moveToLast(); } }
  if (r.chance(30) && !g.fs.empty()) { size_t k = r.below(g.fs.size()); outcome([&] { g.views[g.vw[k]]->getIndexRepository().removeFS(g.fs[k]); }); }
  if (io && r.chance(40)) { std::string x = r.chance(50) ? writeXmi(c) : writeXcas(c); }
  if (r.chance(10)) { for (int i = 0; i < 3000; ++i) c.createFS(s.types[s.fsTypes[0]].t); for (int i = 0; i < 300; ++i) c.createStringArrayFS(20).set(3, uima::UnicodeStringRef(us("some string of the earlier life of this CAS"))); c.createLongArrayFS(5000); c.createByteArrayFS(9000); c.createShortArrayFS(3000); }
}
static void blob(Rng & r, Args &) {
  Schema s = genSchema(r); Env env(s); std::unique_ptr<CAS> a(env.newCAS()), b(env.newCAS()); GenCas g(s); GenOpts o = anyOpts(); genCas(g, r, *a, o);
  SnapOpts so; so.sofaNums = true; SnapOpts strict = so; strict.indexOrder = true; Snap before = snapshot(s, *a, strict), sa = snapshot(s, *a, so); statCas(g, sa);
  Blob x, x2; std::string err = writeBlob(*g.views[r.below(g.views.size())], x, r.next()); if (!err.empty()) { violation("blob-write", err); return; } err = writeBlob(*a, x2, r.next()); if (!err.empty()) { violation("blob-write", err); return; }
  if (x != x2) violation("blob-not-deterministic", "two serializations of the same CAS differ");
  Snap after = snapshot(s, *a, strict); if (after.text() != before.text()) violation("blob-writing-changes-cas", firstDiff(before, after));
  bool dirty = r.chance(50); if (dirty) { history(r, s, *b, false); op("receiver dirty"); count("dirty-receivers"); if (r.chance(30)) { b->reset(); op("receiver reset"); } }
  bool swap = r.chance(40); if (swap) count("swapped"); op(swap ? "swapped" : "native");
  std::string oc = outcome([&] { readBlob(swap ? swapped(x) : x, *b); }); if (oc != "ok") { violation("blob-own-output-rejected", oc); return; }
  Snap sb = snapshot(s, *b, so); if (sb.text() != sa.text()) { violation("blob-round-trip" + diffKey(sa, sb), firstDiff(sa, sb)); return; }
  Blob x3; err = writeBlob(*b, x3, r.next()); if (!err.empty()) { violation("blob-write", err); return; } std::unique_ptr<CAS> c(env.newCAS()); oc = outcome([&] { readBlob(x3, *c); }); if (oc != "ok") { violation("blob-own-output-rejected", "second: " + oc); return; }
  Snap sc = snapshot(s, *c, so); if (sc.text() != sa.text()) { violation("blob-second-round-trip" + diffKey(sa, sc), firstDiff(sa, sc)); return; }
  // the copy can be worked with like the original
  u64 seed = r.next(); Rng r1(seed), r2(seed); { auto extend = [&](CAS & k, Rng & q) { CAS & v = *k.getBaseCas()->getView(us(CAS::NAME_DEFAULT_SOFA)); int n = q.range(1, 4); for (int i = 0; i < n; ++i) { int t = s.fsTypes[q.below(s.fsTypes.size())]; FeatureStructure f = s.subsumes("uima.tcas.Annotation", s.types[t].name) ? FeatureStructure(v.createAnnotation(s.types[t].t, i, i + 3)) : v.createFS(s.types[t].t);
        f.setIntValue(s.feat(t, "uid")->f, 5000 + i); for (auto d : s.feats(t)) if (d->kind != R_REF && d->name != "uid" && d->name != "begin" && d->name != "end") { if (d->kind == R_STRING && d->range != "uima.cas.String") continue; ValOpts vo; setFeat(f, d->f, d->kind, randPrim(q, d->kind, vo)); } v.getIndexRepository().addFS(f); }
      CAS * nv = k.getBaseCas()->createView(us("addedView")); UnicodeString t = us("text of the added view"); nv->setDocumentText(uima::UnicodeStringRef(t)); };
    std::string o1 = outcome([&] { extend(*a, r1); }), o2 = outcome([&] { extend(*b, r2); }); if (o1 != o2) violation("blob-copy-behaves-differently", o1 + " vs " + o2); else { Snap ea = snapshot(s, *a, so), eb = snapshot(s, *b, so); if (ea.text() != eb.text()) violation("blob-copy-extended" + diffKey(ea, eb), firstDiff(ea, eb)); } }
  count("evals", 3 * sa.nodes); count("blob-words", (long) x.size()); if (sa.nodes > 6) sample("blob of " + std::to_string(x.size()) + " words, nodes " + std::to_string(sa.nodes) + (swap ? " swapped" : ""));
}
static void sercas(Rng & r, Args &) {
  Schema s = genSchema(r); Env env(s); std::unique_ptr<CAS> a(env.newCAS()), b(env.newCAS()); GenCas g(s); GenOpts o = anyOpts(); genCas(g, r, *a, o);
  SnapOpts so; so.sofaNums = true; SnapOpts strict = so; strict.indexOrder = true; Snap before = snapshot(s, *a, strict), sa = snapshot(s, *a, so); statCas(g, sa);
  bool copy = r.chance(50); internal::CASSerializer ser(copy); internal::SerializedCAS sc; if (r.chance(40)) { GenCas g3(s); std::unique_ptr<CAS> t(env.newCAS()); GenOpts o3; genCas(g3, r, *t, o3); ser.serializeData(*t, sc); op("serialized object reused"); count("reused-serialized"); }
  std::string oc = outcome([&] { ser.serializeData(*g.views[r.below(g.views.size())], sc); }); if (oc != "ok") { violation("sercas-write-fails", oc); return; }
  Snap after = snapshot(s, *a, strict); if (after.text() != before.text()) violation("sercas-writing-changes-cas", firstDiff(before, after));
  if (r.chance(50)) { history(r, s, *b, false); op("receiver dirty"); count("dirty-receivers"); }
  // a serialized CAS whose strings are copied does not depend on the CAS it came from
  if (copy) { int w = r.range(0, 2); op("source afterwards " + std::to_string(w)); if (w == 1) { a->reset(); history(r, s, *a, true); } else if (w == 2) { a.reset(); } count("source-gone"); }
  internal::CASDeserializer de; oc = outcome([&] { de.deserializeData(sc, *b); }); if (oc != "ok") { violation("sercas-own-output-rejected", oc); return; }
  Snap sb = snapshot(s, *b, so); if (sb.text() != sa.text()) { violation("sercas-round-trip" + diffKey(sa, sb), firstDiff(sa, sb)); return; }
  // definitions: a type system and index definition rebuilt from the serialized form is equivalent
  internal::SerializedCAS sd; std::unique_ptr<Schema> ts(new Schema(s)); std::unique_ptr<Env> tmp(new Env(*ts)); oc = outcome([&] { ser.serializeDefinitions(*tmp->def, sd); }); if (copy && r.chance(60)) { tmp.reset(); ts.reset(); op("source definition destroyed"); count("definition-gone"); } if (oc != "ok") { violation("sercas-definitions-write", oc); return; }
  Schema s2 = s, other = r.chance(50) ? s : genSchema(r); Env target(other); internal::CASDefinition * def2 = target.def.get(); oc = outcome([&] { de.deserializeDefinitions(sd, *def2); }); if (oc != "ok") { violation("sercas-definitions-read", oc); return; }
  oc = outcome([&] { Env::bind(s2, def2->getTypeSystem()); }); if (oc != "ok") { violation("sercas-definitions-incomplete", oc); return; }
  for (size_t i = 0; i < s.types.size(); ++i) { if (nameOf(s2.types[i].t) != s.types[i].name) violation("sercas-definitions-type", s.types[i].name); std::vector<uima::Type> k1, k2; s.types[i].t.getDirectSubTypes(k1); s2.types[i].t.getDirectSubTypes(k2); std::set<std::string> m1, m2; for (auto & t : k1) m1.insert(nameOf(t)); for (auto & t : k2) m2.insert(nameOf(t)); if (m1 != m2) violation("sercas-definitions-subtypes", s.types[i].name); std::vector<uima::Feature> f1, f2; if (!s.types[i].stringSub) { s.types[i].t.getAppropriateFeatures(f1); s2.types[i].t.getAppropriateFeatures(f2); }
    std::set<std::string> n1, n2; auto d = [](uima::Feature & f) { uima::Type r; f.getRangeType(r); return utf8(us(f.getName())) + ":" + nameOf(r) + (f.isMultipleReferencesAllowed() ? "*" : ""); }; for (auto & f : f1) n1.insert(d(f)); for (auto & f : f2) n2.insert(d(f)); if (n1 != n2) violation("sercas-definitions-features", s.types[i].name);
    if (s.types[i].stringSub) { lowlevel::TypeSystem & l2 = def2->getTypeSystem(); std::vector<UnicodeString> v = l2.getStringsForStringSubtype(l2.getTypeByName(us(s.types[i].name))); std::set<UnicodeString> x(v.begin(), v.end()), y(s.types[i].allowed.begin(), s.types[i].allowed.end()); if (x != y || v.size() != y.size()) violation("sercas-definitions-allowed-values", s.types[i].name + " has " + std::to_string(v.size()) + " of " + std::to_string(y.size())); count("string-subtypes-compared"); }
    count("evals"); }
  ErrorInfo e; std::unique_ptr<CAS> c(Framework::createCAS(*def2, e)); if (!c) { violation("sercas-definitions-no-cas", e.asString()); return; }
  oc = outcome([&] { de.deserializeData(sc, *c); }); if (oc != "ok") { violation("sercas-own-output-rejected", "new definition: " + oc); return; }
  Snap sn = snapshot(s2, *c, so); if (sn.text() != sa.text()) { violation("sercas-definitions-round-trip" + diffKey(sa, sn), firstDiff(sa, sn)); return; }
  count("evals", 2 * sa.nodes);
}
// what a view shows before anything is put into it
static std::string lookAt(CAS & v) { std::string o = utf8(us(v.getViewName())); o += " text " + std::to_string(v.getDocumentText().length()); std::string t; std::string oc = outcome([&] { t = " uri " + std::to_string(v.getSofaDataURI().length()) + (v.getSofaDataArray().isValid() ? " array" : ""); }); o += t + (oc == "ok" ? "" : " " + oc);
  oc = outcome([&] { FSIterator it = v.getIndexRepository().getIndex("AnnotationIndex").iterator(); int n = 0; for (it.moveToFirst(); it.isValid() && n < 99; it.moveToNext()) ++n; t = " annotations " + std::to_string(n); }); return o + (oc == "ok" ? t : " " + oc); }
static void resetMode(Rng & r, Args &) {
  Schema s = genSchema(r); Env env(s); std::unique_ptr<CAS> a(env.newCAS()), b(env.newCAS()); int cyc = r.range(1, 4); CAS * use = a.get();
  for (int i = 0; i < cyc; ++i) { int k = r.range(0, 5); op("history " + std::to_string(k)); 
    if (k == 5) { std::unique_ptr<CAS> t(env.newCAS()); GenCas g(s); GenOpts o; genCas(g, r, *t, o); int w = r.range(0, 2); if (w == 0) { std::string x = writeXmi(*t); if (r.chance(30)) x.resize(x.size() * 2 / 3); outcome([&] { readXmi(x, *use); }); } else if (w == 1) { std::string x = writeXcas(*t); if (r.chance(30)) x.resize(x.size() * 2 / 3); outcome([&] { readXcas(x, *use); }); } else { Blob x; writeBlob(*t, x, 1); readBlob(x, *use); } }
    else history(r, s, *use, true);
    TyErrorId e = r.chance(70) ? use->reset() : use->getBaseCas()->reset(); if (e != UIMA_ERR_NONE) violation("reset-fails", std::to_string(e)); count("resets"); }
  SnapOpts so; so.sofaNums = true; so.indexOrder = true; auto compare = [&](const char * when) { Snap sa = snapshot(s, *a, so), sb = snapshot(s, *b, so); count("evals", sb.nodes + 1); if (sa.text() != sb.text()) { violation(std::string("reset-differs-") + when + diffKey(sb, sa), firstDiff(sb, sa)); return false; } return true; };
  std::vector<std::string> gone; if (!compare("empty")) return;
  for (int i = 0; i < 3; ++i) { std::string n = "view" + std::to_string(i); std::string x = outcome([&] { a->getView(us(n)); }), y = outcome([&] { b->getView(us(n)); }); if (x != y) { violation("reset-view-still-there", n + " " + x + " vs " + y); return; } }
  { std::string x = lookAt(*a), y = lookAt(*b); count("looks"); if (x != y) { violation("reset-view-differs", x + " vs " + y); return; } }
  if (r.chance(40)) { int n = r.range(1, 3); for (int i = 0; i < n; ++i) { std::string nm = "look" + std::to_string(i), x, y; std::string ox = outcome([&] { x = lookAt(*a->createView(us(nm))); }), oy = outcome([&] { y = lookAt(*b->createView(us(nm))); }); count("looks"); if (x != y || ox != oy) { violation("reset-view-differs", ox + " " + x + " vs " + oy + " " + y); return; } } }
  u64 seed = r.next(); Rng r1(seed), r2(seed); GenCas g1(s), g2(s); GenOpts o = r.chance(30) ? anyOpts() : GenOpts(); o.doubleAdd = true; std::string x = outcome([&] { genCas(g1, r1, *a, o); }), y = outcome([&] { genCas(g2, r2, *b, o); }); if (x != y) { violation("reset-later-operations-differ", x + " vs " + y); return; }
  if (!compare("used")) return; Snap sn = snapshot(s, *b, so); statCas(g2, sn);
  if (o.strFlags == S_XML) { std::string m1 = writeXmi(*a), m2 = writeXmi(*b); if (m1 != m2) violation("reset-xmi-differs", std::to_string(m1.size()) + " vs " + std::to_string(m2.size())); std::string c1 = writeXcas(*a), c2 = writeXcas(*b); if (c1 != c2) violation("reset-xcas-differs", std::to_string(c1.size()) + " vs " + std::to_string(c2.size())); }
  Blob b1, b2; writeBlob(*a, b1, 5); writeBlob(*b, b2, 5); if (b1 != b2) { size_t i = 0; while (i < b1.size() && i < b2.size() && b1[i] == b2[i]) ++i; violation("reset-blob-differs", "word " + std::to_string(i) + " of " + std::to_string(b1.size()) + "/" + std::to_string(b2.size())); }
  // reading documents into a reset CAS equals reading into a new one
  std::unique_ptr<CAS> t(env.newCAS()); GenCas g(s); GenOpts po; po.privateMulti = false; genCas(g, r, *t, po); std::string doc = r.chance(50) ? writeXmi(*t) : writeXcas(*t); bool isXmi = doc.find("<xmi:XMI") != std::string::npos; std::unique_ptr<CAS> f(env.newCAS()); a->reset(); b.reset(f.release());
  x = outcome([&] { isXmi ? readXmi(doc, *a) : readXcas(doc, *a); }); y = outcome([&] { isXmi ? readXmi(doc, *b) : readXcas(doc, *b); }); if (x != y) { violation("reset-read-differs", x + " vs " + y); return; } compare("read");
}
static void pool(Rng & r, Args &) {
  Schema s = genSchema(r); AnalysisEngineDescription desc; { XMLParser p; std::string x = aeXml(s); xercesc::MemBufInputSource src((const XMLByte *) x.data(), x.size(), "gen"); p.parseAnalysisEngineDescription(desc, src); } desc.validate(); desc.commit();
  int n = r.range(1, 4); CASPool pl(desc, n); Env env(s); std::unique_ptr<CAS> fresh(env.newCAS()); Schema ps = s; std::vector<CAS *> held; std::set<CAS *> all; std::vector<CAS *> idle; int steps = r.range(10, 40); SnapOpts so; so.sofaNums = true; so.indexOrder = true; bool bound = false;
  for (int i = 0; i < steps; ++i) { int k = r.range(0, 9);
    if (k < 5) { CAS * c = 0; std::string oc = outcome([&] { c = &pl.getCAS(); }); op("get " + oc); count("evals");
      if ((int) held.size() == n) { if (!isUima(oc)) violation("pool-hands-out-too-many", oc + " with " + std::to_string(held.size()) + " of " + std::to_string(n) + " in use"); count("refusals"); if (oc != "ok") continue; }
      if (oc != "ok") { violation("pool-refuses", oc + " with " + std::to_string(held.size()) + " of " + std::to_string(n) + " in use"); continue; }
      for (auto h : held) if (h->getBaseCas() == c->getBaseCas()) violation("pool-two-holders", ""); all.insert(c->getBaseCas()); if ((int) all.size() > n) violation("pool-too-many-instances", "");
      if (!bound) { Env::bind(ps, c->getTypeSystem()); bound = true; }
      Snap e = snapshot(s, *fresh, so), got = snapshot(ps, *c, so); if (e.text() != got.text()) violation("pool-cas-not-empty" + diffKey(e, got), firstDiff(e, got));
      u64 seed = r.next(); Rng r1(seed), r2(seed); std::unique_ptr<CAS> ref(env.newCAS()); GenCas g1(ps), g2(s); GenOpts o; std::string x = outcome([&] { genCas(g1, r1, *c, o); }), y = outcome([&] { genCas(g2, r2, *ref, o); });
      if (x != y) violation("pool-cas-differs", x + " vs " + y); else { Snap u = snapshot(ps, *c, so), v = snapshot(s, *ref, so); seen(v.hash()); count("evals", v.nodes); if (u.text() != v.text()) violation("pool-cas-differs" + diffKey(v, u), firstDiff(v, u)); }
      held.push_back(c); count("handed-out"); }
    else if (!held.empty()) { size_t j = r.below(held.size()); CAS * c = held[j]; held.erase(held.begin() + j); CAS * rel = c; int w = r.range(0, 9); if (w == 0) rel = c->getBaseCas(); else if (w == 1) { rel = c->getBaseCas()->createView(us("releasedThroughThis")); } op("release " + std::to_string(w)); pl.releaseCAS(*rel); count("releases");
      if (w == 2) { pl.releaseCAS(*rel); op("release again"); count("double-releases"); } } }
}
static void xmi(Rng & r, Args & a) {
  GenOpts o; SnapOpts so; so.nullElemAsEmpty = true;
  roundTrip(r, "xmi", o, so, [](CAS & c) { return writeXmi(c); }, [](const std::string & x, CAS & c) { readXmi(x, c); });
}
static void xcas(Rng & r, Args & a) {
  GenOpts o; o.privateMulti = false; SnapOpts so; so.nullElemAsEmpty = true;
  roundTrip(r, "xcas", o, so, [](CAS & c) { return writeXcas(c); }, [](const std::string & x, CAS & c) { readXcas(x, c); });
}
// very long chains of references: through features, arrays, list elements and list tails
static Schema deepSchema() {
  Schema s; addBuiltins(s); TypeDef t; t.name = "v.Anno"; t.super = "uima.tcas.Annotation"; auto F = [&](const char * n, const char * rg, bool m) { FeatDef f = mkFeat(n, rg, R_REF); f.multi = m; t.own.push_back(f); };
  t.own.push_back(mkFeat("uid", "uima.cas.Integer", R_INT)); F("next", "v.Anno", false); F("any", "uima.cas.TOP", false); F("arr", "uima.cas.FSArray", false); F("sharr", "uima.cas.FSArray", true); F("lst", "uima.cas.FSList", false); F("shlst", "uima.cas.FSList", true);
  int k = s.add(t); for (auto & f : s.types[k].own) f.owner = k; s.fsTypes.push_back(k); s.annTypes.push_back(k); return s; }
static void deep(Rng & r, Args & a, int which) {
  Schema s = deepSchema(); Env env(s); std::unique_ptr<CAS> c(env.newCAS()), b(env.newCAS()); CAS & v = *c->getView(us(CAS::NAME_DEFAULT_SOFA)); int n = r.range(8000, a.thorough ? 120000 : 30000), mask = r.range(1, 63); Type t = env.ts->getType(us("v.Anno")), ne = env.ts->getType(us("uima.cas.NonEmptyFSList")), em = env.ts->getType(us("uima.cas.EmptyFSList")); Feature h = ne.getFeatureByBaseName("head"), tl = ne.getFeatureByBaseName("tail");
  v.setDocumentText(UnicodeStringRef(u"deep", 4)); FeatureStructure cur; static const char * FN[] = { "next", "any", "arr", "sharr", "lst", "shlst" }; std::vector<Feature> f; for (auto q : FN) f.push_back(t.getFeatureByBaseName(q)); Feature uid = t.getFeatureByBaseName("uid"); FeatureStructure tail = v.createFS(em); u64 sh = 0;
  for (int i = 0; i < n; ++i) { FeatureStructure x = v.createFS(t); x.setIntValue(uid, i); if (cur.isValid()) { int k; do k = r.range(0, 5); while (!(mask >> k & 1)); sh = mix(sh, k);
      if (k < 2) x.setFSValue(f[k], cur); else if (k < 4) { ArrayFS ar = v.createArrayFS(1); ar.set(0, cur); x.setFSValue(f[k], ar); } else if (k == 4) { FeatureStructure l = v.createFS(ne), e = v.createFS(em); l.setFSValue(h, cur); l.setFSValue(tl, e); x.setFSValue(f[k], l); } else { FeatureStructure l = v.createFS(ne); l.setFSValue(h, cur); l.setFSValue(tl, tail); tail = l; x.setFSValue(f[k], l); } }
    cur = x; }
  AnnotationFS root = v.createAnnotation(t, 0, 1); root.setIntValue(uid, n); root.setFSValue(f[1], cur); v.getIndexRepository().addFS(root);
  op("chain of " + std::to_string(n) + " mask " + std::to_string(mask)); SnapOpts so; Snap sa = snapshot(s, *c, so); seen(sh); count("nodes", sa.nodes); count("chain-length", n);
  for (int k = 0; k < 2; ++k) { if (k != which) continue; std::string x, oc = outcome([&] { x = k ? writeXcas(*c) : writeXmi(*c); }); if (oc != "ok") { violation(k ? "xcas-deep-write" : "xmi-deep-write", oc); continue; } b->reset(); oc = outcome([&] { if (k) readXcas(x, *b); else readXmi(x, *b); }); if (oc != "ok") { violation(k ? "xcas-deep-read" : "xmi-deep-read", oc); continue; }
    Snap sb = snapshot(s, *b, so); if (sb.text() != sa.text()) violation(std::string(k ? "xcas-deep" : "xmi-deep") + diffKey(sa, sb), firstDiff(sa, sb)); count("round-trips"); count("evals", sa.nodes); }
  if (which != 2) return; b->reset(); Blob bl; std::string e = writeBlob(*c, bl, r.next()); if (!e.empty()) { violation("blob-deep", e); return; } readBlob(bl, *b); Snap sb = snapshot(s, *b, so); if (sb.text() != sa.text()) violation("blob-deep", firstDiff(sa, sb)); count("evals", sa.nodes);
}
int main(int argc, char ** argv) {
  ResourceManager::createInstance("vp");
  return drive(argc, argv, { { "xmi", xmi }, { "shared", shared }, { "oots", oots }, { "blob", blob }, { "sercas", sercas }, { "reset", resetMode }, { "pool", pool }, { "xcas", xcas }, { "deepxmi", [](Rng & r, Args & a) { deep(r, a, 0); } }, { "deepxcas", [](Rng & r, Args & a) { deep(r, a, 1); } }, { "deepblob", [](Rng & r, Args & a) { deep(r, a, 2); } } });
}
