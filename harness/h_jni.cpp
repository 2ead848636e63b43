// J01: the native methods of the Java bridge, called through a JNIEnv of a stand-in VM that checks the rules of JNI (fakevm.hpp).
#include "snap.hpp"
#include "eng.hpp"
#include "fakevm.hpp"
#include "uima/internal_casserializer.hpp"
#include "uima/internal_casdeserializer.hpp"
#include "uima/internal_serializedcas.hpp"
#include "uima/org_apache_uima_uimacpp_UimacppEngine.h"
using namespace vp; using namespace uima;
#define J(NAME) Java_org_apache_uima_uimacpp_UimacppEngine_##NAME
#define JC(NAME) org_apache_uima_uimacpp_UimacppEngine_##NAME
typedef internal::SerializedCAS SC; typedef std::vector<SC::TyNum> Nums; typedef std::vector<UnicodeStringRef> Strs16;
static const char * const EXC = "org/apache/uima/uimacpp/InternalTafException";

// ---- Java side data
static VmObj * ints(const Nums & v) { VmObj * o = V().make(VmObj::INTS); o->i.assign(v.begin(), v.end()); return o; }
static VmObj * strs(const Strs16 & v) { VmObj * o = V().make(VmObj::OBJS); for (auto & x : v) o->objs.push_back(x.getBuffer() ? V().str(us(x)) : 0); return o; }
static VmObj * bytes(const std::vector<char> & v) { VmObj * o = V().make(VmObj::BYTES); o->b.assign(v.begin(), v.end()); return o; }
static VmObj * shorts(const std::vector<short> & v) { VmObj * o = V().make(VmObj::SHORTS); o->h.assign(v.begin(), v.end()); return o; }
static VmObj * longs(const std::vector<INT64> & v) { VmObj * o = V().make(VmObj::LONGS); o->l.assign(v.begin(), v.end()); return o; }
struct Data { Nums heap, idx; std::vector<char> b; std::vector<short> h; std::vector<INT64> l; std::vector<std::pair<bool, UnicodeString>> s;
  static Data of(const SC & c) { Data d; d.heap = c.iv_vecFSHeapArray; d.idx = c.iv_vecIndexedFSs; d.b = c.iv_vecByteHeapArray; d.h = c.iv_vecShortHeapArray; d.l = c.iv_vecLongHeapArray; for (auto & x : c.iv_vecStringSymbolTable) d.s.push_back({ x.getBuffer() != 0, us(x) }); return d; }
  void to(SC & c) const { c.iv_vecFSHeapArray = heap; c.iv_vecIndexedFSs = idx; c.iv_vecByteHeapArray = b; c.iv_vecShortHeapArray = h; c.iv_vecLongHeapArray = l; for (auto & x : s) c.iv_vecStringSymbolTable.push_back(x.first ? UnicodeStringRef(x.second) : UnicodeStringRef()); }
  std::string diff(const Data & o) const { if (heap != o.heap) return "heap"; if (idx != o.idx) return "indexed"; if (b != o.b) return "bytes"; if (h != o.h) return "shorts"; if (l != o.l) return "longs"; if (s != o.s) return "strings"; return ""; } };

// ---- the Java object
struct Engine { VmObj * jo; Schema schema; int state = 0; /* 0 constructed 1 initialized 2 gone */ bool full = false, other = false; CAS * seen = 0; };
template<class F> static VmObj * nat(const char * name, F f, VmObj ** result = 0) { static const bool quiet = [] { return true; }(); (void) quiet; V().enter(name); jobject res = 0; std::string esc = outcome([&] { res = f(&V().env); });
  if (esc != "ok") { V().bad("exception-escapes", esc); } VmObj * o = V().leave(res); if (result) *result = o; VmObj * e = V().take(); op(std::string(name) + (e ? " -> " + e->cls + " " + std::to_string((long) e->code) : ""));
  if (e) { count("java-exceptions"); if (e->cls != EXC) violation("jni-unexpected-java-exception", std::string(name) + " " + e->cls + " " + utf8(e->s)); else if (!e->code || e->fields.count("null-message")) violation("jni-error-without-code", std::string(name) + ": code " + std::to_string((long) e->code) + " " + utf8(e->s)); } count("evals"); return e; }
static jobject A(VmObj * o) { return V().arg(o); }
static VmObj * construct(Engine & e) { e.jo = V().make(VmObj::PLAIN); e.jo->cls = "org/apache/uima/uimacpp/UimacppEngine"; e.jo->fields["cppEnginePointer"] = 0; return nat("constructorJNI", [&](JNIEnv * v) -> jobject { J(constructorJNI)(v, A(e.jo)); return 0; }); }
static VmObj * initialize(Engine & e, const std::string & xml) { VmObj * s = V().str(us(xml)); return nat("initializeJNI", [&](JNIEnv * v) -> jobject { J(initializeJNI)(v, A(e.jo), (jstring) A(s)); return 0; }); }
static VmObj * typeSystem(Engine & e, const SC & d, int top) { return nat("typeSystemInitJNI", [&](JNIEnv * v) -> jobject { auto I = [&](const Nums & n) { return (jintArray) A(ints(n)); }; auto S = [&](const Strs16 & n) { return (jobjectArray) A(strs(n)); };
  J(typeSystemInitJNI)(v, A(e.jo), S(d.iv_vecTypeSymbolTable), S(d.iv_vecFeatureSymbolTable), I(d.iv_vecTypeInheritanceTable), I(d.iv_vecFeatureDefinitionTable), top, I(d.iv_vecFeatureOffsetTable), I(d.iv_vecTypePriorityTable), I(d.iv_stringSubTypes), S(d.iv_stringSubTypeValues), I(d.iv_stringSubTypeValuePos), S(d.iv_vecIndexIDTable), I(Nums()), I(d.iv_vecIndexKindTable), I(d.iv_vecComparatorStartTable), I(d.iv_vecComparatorDefinitionTable)); return 0; }); }
static VmObj * fill(Engine & e, const Data & d) { Strs16 s; for (auto & x : d.s) s.push_back(x.first ? UnicodeStringRef(x.second) : UnicodeStringRef()); return nat("fillCASJNI", [&](JNIEnv * v) -> jobject { J(fillCASJNI)(v, A(e.jo), (jintArray) A(ints(d.heap)), (jintArray) A(ints(d.idx)), (jobjectArray) A(strs(s)), (jbyteArray) A(bytes(d.b)), (jshortArray) A(shorts(d.h)), (jlongArray) A(longs(d.l))); return 0; }); }
static VmObj * process(Engine & e, const std::string * view, const Nums & t, const Nums & f) { return nat("processJNI", [&](JNIEnv * v) -> jobject { J(processJNI)(v, A(e.jo), view ? 1 : 0, view ? (jstring) A(V().str(us(*view))) : 0, (jintArray) A(ints(t)), (jintArray) A(ints(f))); return 0; }); }
#define SIMPLE(FN, NAME) static VmObj * FN(Engine & e) { return nat(#NAME, [&](JNIEnv * v) -> jobject { J(NAME)(v, A(e.jo)); return 0; }); }
SIMPLE(reset, resetJNI) SIMPLE(destroy, destroyJNI) SIMPLE(destruct, destructorJNI) SIMPLE(batch, batchProcessCompleteJNI) SIMPLE(collection, collectionProcessCompleteJNI) SIMPLE(nextSeg, nextSegmentJNI) SIMPLE(releaseSeg, releaseSegmentJNI)
static VmObj * serialize(Engine & e, bool seg) { return nat(seg ? "serializeSegmentJNI" : "serializeCASJNI", [&](JNIEnv * v) -> jobject { (seg ? J(serializeSegmentJNI) : J(serializeCASJNI))(v, A(e.jo), JNI_TRUE); return 0; }); }
static VmObj * hasNext(Engine & e, bool & b) { return nat("hasNextSegmentJNI", [&](JNIEnv * v) -> jobject { b = J(hasNextSegmentJNI)(v, A(e.jo)); return 0; }); }
static VmObj * part(Engine & e, bool seg, int which, VmObj ** r) { return nat(seg ? "getSerializedSegmentDataJNI" : "getSerializedDataJNI", [&](JNIEnv * v) -> jobject { return (seg ? J(getSerializedSegmentDataJNI) : J(getSerializedDataJNI))(v, A(e.jo), which); }, r); }
static bool get(Engine & e, bool seg, Data & d) { bool ok = true; auto p = [&](int w, VmObj::K k) { VmObj * o = 0; VmObj * x = part(e, seg, w, &o); if (x || !o || o->kind != k) { violation("jni-data-missing", "part " + std::to_string(w) + (x ? " " + utf8(x->s) : "")); ok = false; static VmObj none; return &none; } return o; };
  VmObj * o = p(JC(FSHEAP), VmObj::INTS); d.heap.assign(o->i.begin(), o->i.end()); o = p(JC(INDEXEDFSS), VmObj::INTS); d.idx.assign(o->i.begin(), o->i.end()); o = p(JC(BYTEHEAP), VmObj::BYTES); d.b.assign(o->b.begin(), o->b.end()); o = p(JC(SHORTHEAP), VmObj::SHORTS); d.h.assign(o->h.begin(), o->h.end()); o = p(JC(LONGHEAP), VmObj::LONGS); d.l.assign(o->l.begin(), o->l.end());
  o = p(JC(STRINGSYMBOL), VmObj::OBJS); for (auto * x : o->objs) d.s.push_back({ x != 0, x ? x->s : UnicodeString() }); return ok; }

// ---- the native annotator
struct BridgeHook : LifeHook {
  std::function<TyErrorId(CAS &, ResultSpecification const &)> onProcess; std::function<TyErrorId(char)> onOther; AnnotatorContext * ctx = 0; std::map<Annotator *, AnnotatorContext *> ctxs; std::function<bool()> onHasNext; std::function<CAS &(AnnotatorContext &)> onNext; int pool = 0; std::map<Annotator *, bool> failedInit;
  TyErrorId other(char c) { return onOther ? onOther(c) : 0; }
  TyErrorId initialize(Annotator * a, AnnotatorContext & c) override { LifeHook::initialize(a, c); ctxs[a] = &c; return other('I'); }
  TyErrorId typeSystemInit(Annotator * a, TypeSystem const & t) override { LifeHook::typeSystemInit(a, t); return other('T'); }
  TyErrorId process(Annotator * a, CAS & c, ResultSpecification const & r) override { LifeHook::process(a, c, r); ctx = ctxs[a]; TyErrorId e = other('p'); return e ? e : onProcess ? onProcess(c, r) : 0; }
  TyErrorId batch(Annotator * a) override { LifeHook::batch(a); return other('B'); }
  TyErrorId collection(Annotator * a) override { LifeHook::collection(a); return other('C'); }
  TyErrorId destroy(Annotator * a) override { LifeHook::destroy(a); return other('d'); }
  bool hasNext(Annotator *) override { other('h'); return onHasNext && onHasNext(); }
  CAS & next(Annotator * a) override { other('n'); return onNext(*ctxs[a]); }
  int casInstances(Annotator *) override { return pool; }
};
static void addData(Rng & r, Schema & s, CAS & c) { ValOpts vo; vo.strFlags = S_ANY; int n = r.range(0, 6); std::vector<FeatureStructure> made; ANIterator old = c.getAnnotationIndex().iterator(); for (int k = 0; k < 5 && old.isValid(); ++k, old.moveToNext()) made.push_back(old.get());
  for (int i = 0; i < n; ++i) { int t = s.fsTypes[r.below(s.fsTypes.size())]; bool ann = s.subsumes("uima.tcas.Annotation", s.types[t].name); int b = r.range(0, 20); FeatureStructure f = ann ? (FeatureStructure) c.createAnnotation(s.types[t].t, b, b + r.range(0, 9)) : c.createFS(s.types[t].t); f.setIntValue(s.feat(t, "uid")->f, 1000 + i);
    for (auto d : s.feats(t)) { if (d->name == "sofa" || d->name == "begin" || d->name == "end" || d->name == "uid" || r.chance(30)) continue; if (d->kind == R_STRING) { int q = s.idx(d->range); f.setStringValue(d->f, q >= 0 && s.types[q].stringSub ? r.pick(s.types[q].allowed) : randPrim(r, R_STRING, vo).s); } else if (d->kind != R_REF) setFeat(f, d->f, d->kind, randPrim(r, d->kind, vo)); else if (int ok = arrKind(d->range)) { FeatureStructure a = createArr(c, ok, r.range(0, 4)); for (size_t q = 0; q < arrSize(a, ok); ++q) if (ok == O_AFS) { if (!made.empty()) ArrayFS(a).set(q, r.pick(made)); } else setElem(a, ok, q, randPrim(r, ARR_RK[ok], vo)); f.setFSValue(d->f, a); } }
    if (r.chance(80)) c.getIndexRepository().addFS(f); made.push_back(f); }
  count("fs-added-natively", n); }

static void installJvm(BridgeHook & h, Args & a) { installHook(a.extra["--plugins"], &h); }
static SnapOpts so() { return SnapOpts(); }
static std::string describe(Rng & r, Schema & s, const std::string & plugins, bool multi) { std::string x = aeXml(s, plugins + "/trace.so"); (void) r; (void) multi; return x; }

// Java work flow over one to three engines
static void exchange(Rng & r, Args & a) {
  BridgeHook h; installJvm(h, a); std::string plugins = a.extra["--plugins"]; int n = r.range(1, 3); size_t refsBefore = V().refs.size();
  Schema s = genSchema(r); Env env(s); internal::SerializedCAS defs; internal::CASSerializer cs(false); cs.serializeDefinitions(*env.def, defs); int top = (int) ((lowlevel::TypeSystem &) env.def->getTypeSystem()).getTopType();
  std::vector<std::unique_ptr<Engine>> es; bool multi = r.chance(35); h.pool = multi ? r.range(1, 3) : 0; Engine * cur = 0;
  auto engine = [&]() { es.emplace_back(new Engine()); Engine & e = *es.back(); e.schema = s; if (construct(e)) { violation("jni-constructor-fails", ""); return false; } bool same = r.chance(60); Schema other = same ? s : genSchema(r); VmObj * x = initialize(e, describe(r, other, plugins, multi)); if (x) { violation("jni-initialize-fails", utf8(x->s)); return false; } e.state = 1; e.other = !same;
    if (!same || r.chance(50)) { count(same ? "typesystem-same" : "typesystem-other"); x = typeSystem(e, defs, top); if (x) { violation("jni-typesystem-fails", utf8(x->s)); return false; } } return true; };
  for (int i = 0; i < n; ++i) if (!engine()) return;
  int docs = r.range(1, 5);
  for (int d = 0; d < docs; ++d) { Engine & e = *es[r.below(es.size())]; cur = &e; std::unique_ptr<CAS> src(env.newCAS()), dst(env.newCAS()); GenCas g(s); GenOpts o; o.strFlags = S_ANY; o.privateMulti = false; genCas(g, r, *src, o); SC sc; cs.serializeData(*src, sc); Data in = Data::of(sc); Snap sa = snapshot(s, *src, so());
    if (r.chance(60)) if (VmObj * x = reset(e)) { violation("jni-reset-fails", utf8(x->s)); return; }
    if (VmObj * x = fill(e, in)) { violation("jni-fill-fails", utf8(x->s)); return; }
    std::string vn; bool named = false;
    // a view can be named when it has a sofa
    std::vector<std::string> sofas; { FSIterator it = g.base->getSofaIterator(); for (it.moveToFirst(); it.isValid(); it.moveToNext()) sofas.push_back(utf8(us(SofaFS(it.get()).getSofaID()))); } if (!sofas.empty() && r.chance(60)) { vn = r.pick(sofas); named = true; }
    Nums rt, rf; lowlevel::TypeSystem & lts = env.def->getTypeSystem(); std::vector<lowlevel::TyFSType> ty; std::vector<lowlevel::TyFSFeature> fe; lts.getAllTypes(ty); lts.getAllFeatures(fe); std::set<std::string> want; int k = r.range(0, 4); for (int i = 0; i < k; ++i) { auto t = r.pick(ty); if (rt.empty() || r.chance(80)) { rt.push_back(t); want.insert(utf8(us(lts.getTypeName(t)))); } auto f = r.pick(fe); rf.push_back(f); want.insert(utf8(us(lts.getFeatureName(f)))); }
    Snap after; bool ran = false; e.seen = 0;
    h.onProcess = [&](CAS & c, ResultSpecification const & rs) -> TyErrorId { ran = true; e.seen = &c; std::string oc = outcome([&] { Env::bind(e.schema, c.getTypeSystem()); }); if (oc != "ok") { violation("jni-typesystem-incomplete", oc); return 0; } Snap sb = snapshot(e.schema, c, so()); count("evals", sb.nodes + 1); count("nodes-exchanged", sb.nodes); if (sb.text() != sa.text()) violation("jni-cas-to-native" + diffKey(sa, sb), firstDiff(sa, sb));
      if (named) { if (utf8(us(c.getSofa().getSofaID())) != vn) violation("jni-wrong-view", "asked for " + vn); }
      (void) rs; if (r.chance(85)) { CAS * t = c.getBaseCas() != &c ? &c : c.getView(us(CAS::NAME_DEFAULT_SOFA)); addData(r, e.schema, *t); } after = snapshot(e.schema, c, so()); return 0; };
    int segs = multi && !e.other ? r.range(0, 4) : 0, out = 0; Snap segSnap; Schema segSchema = s; Data segData; 
    h.onHasNext = [&] { return out < segs; };
    h.onNext = [&](AnnotatorContext & c) -> CAS & { CAS & x = c.getEmptyCAS(); ++out; Env::bind(segSchema, x.getTypeSystem()); GenCas g2(segSchema); GenOpts o2; o2.strFlags = S_ANY; o2.privateMulti = false; genCas(g2, r, x, o2); segSnap = snapshot(segSchema, x, so()); return x; };
    VmObj * x = process(e, named ? &vn : 0, rt, rf); if (x) { violation("jni-process-fails", utf8(x->s)); return; } if (!ran) { violation("jni-annotator-not-called", ""); return; } if (!want.empty()) count("result-specs");
    auto back = [&](bool seg, const Snap & expect, const char * what) { if (VmObj * q = serialize(e, seg)) { violation(std::string("jni-serialize-fails-") + what, utf8(q->s)); return false; } Data dd; if (!get(e, seg, dd)) return false; int times = r.chance(20) ? 2 : 1; if (times == 2) { Data again; get(e, seg, again); std::string df = again.diff(dd); if (!df.empty()) violation("jni-data-not-repeatable", df); }
      SC rc; dd.to(rc); dst.reset(env.newCAS()); internal::CASDeserializer de; std::string oc = outcome([&] { de.deserializeData(rc, *dst); }); if (oc != "ok") { violation(std::string("jni-data-rejected-") + what, oc); return false; } Snap sd = snapshot(s, *dst, so()); count("evals", sd.nodes + 1); count(std::string("returned-") + what); if (sd.text() != expect.text()) { violation(std::string("jni-") + what + "-to-java" + diffKey(expect, sd), firstDiff(expect, sd)); return false; }
      seen(mix(hashStr(sd.text()), dd.heap.size())); if (sd.nodes > 8) sample(std::string(what) + ": " + std::to_string(sd.nodes) + " nodes, heap " + std::to_string(dd.heap.size()) + ", strings " + std::to_string(dd.s.size()) + ", indexed " + std::to_string(dd.idx.size())); return true; };
    if (!back(false, after, "cas")) return;
    { VmObj * o2 = 0; if (part(e, false, JC(TOPTYPE), &o2) || !o2 || o2->cls != "java/lang/Integer" || o2->code != top) violation("jni-top-type", o2 ? std::to_string((long) o2->code) : "none"); o2 = 0; if (part(e, false, JC(DOCUMENT), &o2) || o2) violation("jni-document-part", ""); }
    if (multi) for (int guard = 0; guard < 10; ++guard) { bool b = false; if (VmObj * q = hasNext(e, b)) { violation("jni-has-next-fails", utf8(q->s)); return; } if (b != (out < segs)) { violation("jni-has-next", std::to_string(b)); return; } if (!b) break; if (r.chance(10)) break; if (VmObj * q = nextSeg(e)) { violation("jni-next-segment-fails", utf8(q->s)); return; } if (!back(true, segSnap, "segment")) return; if (r.chance(70)) if (VmObj * q = releaseSeg(e)) { violation("jni-release-segment-fails", utf8(q->s)); return; } if (r.chance(30)) { Data dd; if (!back(false, after, "cas")) return; } }
    if (multi && r.chance(80)) releaseSeg(e);
    if (r.chance(40)) if (VmObj * q = batch(e)) { violation("jni-batch-fails", utf8(q->s)); return; }
    if (r.chance(20)) { // a document that leaves nothing behind
      if (VmObj * q = reset(e)) { violation("jni-reset-fails", utf8(q->s)); return; } std::unique_ptr<CAS> empty(env.newCAS()); if (!back(false, snapshot(s, *empty, so()), "reset")) return; }
    if (r.chance(15) && es.size() < 5) if (!engine()) return;
    if (r.chance(15) && es.size() > 1) { size_t k2 = r.below(es.size()); if (VmObj * q = destroy(*es[k2])) { violation("jni-destroy-fails", utf8(q->s)); return; } if (es[k2]->jo->fields["cppEnginePointer"]) violation("jni-pointer-after-destroy", ""); es.erase(es.begin() + k2); }
    std::vector<VmObj *> roots; for (auto & p : es) roots.push_back(p->jo); V().collect(roots); }
  for (auto & p : es) { if (r.chance(50)) if (VmObj * q = collection(*p)) violation("jni-collection-fails", utf8(q->s)); if (VmObj * q = destroy(*p)) { violation("jni-destroy-fails", utf8(q->s)); return; } if (p->jo->fields["cppEnginePointer"]) violation("jni-pointer-after-destroy", ""); }
  es.clear(); if (!h.bad.empty()) violation("jni-life-cycle", h.bad); if (!h.live.empty()) violation("jni-annotators-left", std::to_string(h.live.size())); V().collect({}); if (V().refs.size() != refsBefore && V().refs.size() > refsBefore + 1) violation("jni-references-left", std::to_string(V().refs.size() - refsBefore)); count("exchanges"); }

// errors: every failure of the native side arrives as an exception with the code and text the C++ interface reports for the same failure
static void faults(Rng & r, Args & a) {
  BridgeHook h; installJvm(h, a); std::string plugins = a.extra["--plugins"]; Schema s = genSchema(r); std::string xml = aeXml(s, plugins + "/trace.so"); int broken = r.chance(25) ? r.range(1, 4) : 0;
  if (broken == 1) xml = xml.substr(0, r.below(xml.size())); else if (broken == 2) { size_t p = xml.find("/trace.so"); if (p != std::string::npos) xml.replace(p, 9, "/absent.so"); } else if (broken == 3) { size_t p = xml.find("<fsIndexes>"); if (p == std::string::npos) p = xml.find("<capabilities"); if (p != std::string::npos) xml.insert(p, "<fsIndexCollection><fsIndexes><fsIndexDescription><label>q</label><typeName>no.such.Type</typeName><kind>bag</kind></fsIndexDescription></fsIndexes></fsIndexCollection>"); } else if (broken == 4) xml = utf8(randString(r, S_XML, 60));
  char at = broken ? 0 : "ITpBCdhnpRR"[r.below(11)]; int how = r.range(0, 3); int hits = 0; int code = r.range(1, 9) == 1 ? r.range(-50, -1) : r.range(1, 9000); bool armed = false, logs = r.chance(50);
  h.pool = at == 'h' || at == 'n' ? 2 : 0; h.onHasNext = [] { return true; }; h.onNext = [](AnnotatorContext & c) -> CAS & { return c.getEmptyCAS(); };
  h.onOther = [&](char c) -> TyErrorId { if (!armed || c != (at == 'R' ? 'T' : at)) return 0; ++hits; if (logs && h.ctxs.size()) { h.ctxs.begin()->second->getLogger().logError("scripted log", code); } if (how == 0 && c != 'h' && c != 'n') return code; if (how == 3) throw std::runtime_error("scripted std exception"); if (how == 2) throw 42;
    { UIMA_EXC_THROW_NEW(ExcInvalidRequest, code, ErrorMessage(UIMA_MSG_ID_LITERAL_STRING, "scripted failure"), ErrorMessage(UIMA_MSG_ID_LITERAL_STRING, "testing"), ErrorInfo::recoverable); } };
  op(std::string("fault at ") + (at ? at : '-') + " how " + std::to_string(how) + " broken " + std::to_string(broken));
  // the C++ interface
  armed = at != 'R'; hits = 0; std::string twin = "none", twinText; long twinCode = 0; { ErrorInfo e; UnicodeString u = us(xml); std::unique_ptr<AnalysisEngine> ae; auto fail = [&](const ErrorInfo & i, const std::string & t) { twinCode = i.getErrorId(); twinText = t; };
    auto run = [&](std::function<TyErrorId()> f) { try { TyErrorId rc = f(); if (rc) { ErrorInfo i; i.setErrorId(rc); fail(i, ""); } } catch (uima::Exception & x) { fail(x.getErrorInfo(), x.asString()); } catch (...) { ErrorInfo i; i.setErrorId(UIMA_ERR_ENGINE_UNEXPECTED_EXCEPTION); fail(i, ""); } };
    run([&]() -> TyErrorId { ae.reset(Framework::createAnalysisEngine(u.getBuffer(), u.length(), e)); if (e.getErrorId()) fail(e, e.asString()); return 0; });
    if (ae) { std::unique_ptr<CAS> c(ae->newCAS()); if (at == 'p' || at == 'h' || at == 'n') run([&]() -> TyErrorId { CASIterator it = ae->processAndOutputNewCASes(*c); if (at != 'p') while (it.hasNext()) { it.next(); break; } return 0; }); if (at == 'R') { armed = true; run([&] { return internal::EngineBase::promoteEngine(*ae).reinitTypeSystem(); }); armed = false; } if (at == 'B') run([&] { return ae->batchProcessComplete(); }); if (at == 'C') run([&] { return ae->collectionProcessComplete(); }); if (at == 'd') run([&] { return ae->destroy(); }); armed = false; } }
  armed = false; std::string badTwin = h.bad; h.bad.clear(); h.ctxs.clear(); size_t liveTwin = h.live.size();
  // the bridge
  armed = true; hits = 0; Engine e; if (construct(e)) { violation("jni-constructor-fails", ""); return; } int docs = r.range(0, 2); armed = at == 'I' || at == 'T'; VmObj * x = initialize(e, xml); bool inited = !x;
  auto judge = [&](VmObj * q, const char * where) { count("evals"); count("faults-judged"); if (twinCode == 0) { if (q) violation(std::string("jni-error-invented-") + where, utf8(q->s)); return; } if (!q) { violation(std::string("jni-error-lost-") + where, "C++ interface reports " + std::to_string(twinCode) + " " + twinText); return; }
    if (q->code != twinCode) violation(std::string("jni-error-code-") + where, "Java " + std::to_string((long) q->code) + " C++ " + std::to_string(twinCode) + " " + utf8(q->s)); if (!twinText.empty() && utf8(q->s) != twinText && q->s != UnicodeString(twinText.c_str())) violation(std::string("jni-error-text-") + where, "Java " + utf8(q->s) + " C++ " + twinText); if (q->s.isEmpty()) violation(std::string("jni-error-text-") + where, "empty"); seen(mix(hashStr(utf8(q->s)), q->code)); };
  if (broken || at == 'I' || at == 'T') judge(x, "initialize"); else if (x) { violation("jni-initialize-fails", utf8(x->s)); }
  if (inited) { auto work = [&](bool arm) { std::unique_ptr<CAS> c; Env env(s); c.reset(env.newCAS()); GenCas g(s); GenOpts o; o.strFlags = S_ANY; o.privateMulti = false; genCas(g, r, *c, o); SC sc; internal::CASSerializer cs(false); cs.serializeData(*c, sc); if (VmObj * q = fill(e, Data::of(sc))) violation("jni-fill-fails", utf8(q->s)); armed = arm; VmObj * q = process(e, 0, Nums(), Nums()); armed = false; return q; };
    for (int d = 0; d < docs; ++d) if (VmObj * q = work(false)) violation("jni-process-fails", utf8(q->s));
    if (at == 'p') judge(work(true), "process"); if (at == 'h' || at == 'n') { if (VmObj * q = work(false)) violation("jni-process-fails", utf8(q->s)); armed = true; bool b = false; VmObj * q = hasNext(e, b); if (at == 'h') judge(q, "hasnext"); else judge(nextSeg(e), "next"); armed = false; }
    if (at == 'B') { armed = true; judge(batch(e), "batch"); armed = false; } if (at == 'C') { armed = true; judge(collection(e), "collection"); armed = false; }
    bool dead = false;
    if (at == 'R') { Env env(s); internal::SerializedCAS defs; internal::CASSerializer cs(false); cs.serializeDefinitions(*env.def, defs); int top = (int) ((lowlevel::TypeSystem &) env.def->getTypeSystem()).getTopType(); armed = true; VmObj * q = typeSystem(e, defs, top); armed = false; judge(q, "typesystem"); dead = q != 0; if (q && r.chance(70)) { bool b = false; if (!process(e, 0, Nums(), Nums())) violation("jni-process-after-failed-typesystem", ""); batch(e); hasNext(e, b); reset(e); serialize(e, false); h.bad.clear(); } if (q && how >= 2 && r.chance(50)) { if (VmObj * z = typeSystem(e, defs, top)) violation("jni-typesystem-again-fails", utf8(z->s)); else { dead = false; count("typesystem-recovered"); } } }
    // the engine goes on after an error
    if (r.chance(60) && at != 'd' && !dead) { bool ran = false; h.onProcess = [&](CAS &, ResultSpecification const &) -> TyErrorId { ran = true; return 0; }; if (VmObj * q = work(false)) violation("jni-unusable-after-error", utf8(q->s)); else if (!ran) violation("jni-unusable-after-error", "annotator not called"); reset(e); }
    if (at == 'd') { armed = true; VmObj * q = destroy(e); armed = false; judge(q, "destroy"); if (q) { count("destroy-retried"); h.bad.clear(); if (e.jo->fields["cppEnginePointer"] && destroy(e)) count("destroy-fails-again"); h.bad.clear(); } } else if (VmObj * q = destroy(e)) { if (!dead) violation("jni-destroy-fails", utf8(q->s)); h.bad.clear(); } if (e.jo->fields["cppEnginePointer"]) violation("jni-pointer-after-destroy", "fault"); }
  else { armed = false; VmObj * q = r.chance(50) ? destroy(e) : destruct(e); if (q) violation("jni-destroy-after-failed-initialize", utf8(q->s)); count("destroyed-uninitialized"); }
  if (!h.bad.empty()) violation("jni-life-cycle", h.bad); if (h.live.size() > liveTwin) violation("jni-annotators-left", std::to_string(h.live.size() - liveTwin)); count("faults"); count(std::string("fault-") + (at ? std::string(1, at) : "descriptor")); seen(mix(hashStr(std::string(1, at ? at : '-')), how * 100 + broken)); V().collect({}); }

// the known findings, each by its own directed case
static void pinned(Rng & r, Args & a) {
  BridgeHook h; installJvm(h, a); std::string plugins = a.extra["--plugins"]; h.pool = 1; Rng fix(7); Schema s = genSchema(fix), other; do other = genSchema(fix); while (other.fsTypes.size() == s.fsTypes.size()); Env env(s); internal::SerializedCAS defs; internal::CASSerializer cs(false); cs.serializeDefinitions(*env.def, defs); lowlevel::TypeSystem & lts = env.def->getTypeSystem();
  Engine e; construct(e); if (VmObj * x = initialize(e, aeXml(other, plugins + "/trace.so"))) { violation("jni-initialize-fails", utf8(x->s)); return; } if (VmObj * x = typeSystem(e, defs, (int) lts.getTopType())) { violation("jni-typesystem-fails", utf8(x->s)); return; }
  std::unique_ptr<CAS> c(env.newCAS()); SC sc; cs.serializeData(*c, sc); if (fill(e, Data::of(sc))) violation("jni-fill-fails", ""); Nums rt, rf; rt.push_back(env.def->getTypeSystem().getTopType()); bool asked = false; size_t inCas = 0, inSeg = 0; int left = 1;
  auto types = [](CAS & x) { std::vector<Type> v; x.getTypeSystem().getAllTypes(v); return v.size(); };
  h.onProcess = [&](CAS & x, ResultSpecification const & rs) -> TyErrorId { asked = rs.getTypeOrFeatureSTLSet().size() == 1; inCas = types(x); return 0; }; h.onHasNext = [&] { return left > 0; }; h.onNext = [&](AnnotatorContext & n) -> CAS & { --left; CAS & x = n.getEmptyCAS(); inSeg = types(x); return x; };
  if (VmObj * x = process(e, 0, rt, rf)) violation("jni-process-fails", utf8(x->s)); else if (!asked) violation("jni-result-specification-ignored", "asked for uima.cas.TOP"); bool b = false; hasNext(e, b); if (VmObj * x = nextSeg(e)) violation("jni-next-segment-fails", utf8(x->s)); else if (inSeg != inCas) violation("jni-segment-typesystem", std::to_string(inSeg) + " types in the segment, " + std::to_string(inCas) + " in the CAS"); releaseSeg(e);
  if (VmObj * x = destroy(e)) violation("jni-destroy-fails", utf8(x->s)); V().collect({}); count("evals", 2); seen(r.next()); }

// calls in any order, as a faulty Java program may make them
static void misuse(Rng & r, Args & a) {
  BridgeHook h; installJvm(h, a); Schema s = genSchema(r); Env env(s); std::string xml = aeXml(s, a.extra["--plugins"] + "/trace.so"); internal::SerializedCAS defs; internal::CASSerializer cs(false); cs.serializeDefinitions(*env.def, defs); int top = (int) ((lowlevel::TypeSystem &) env.def->getTypeSystem()).getTopType(); h.pool = 2; int left = 0;
  h.onProcess = [&](CAS &, ResultSpecification const &) -> TyErrorId { left = 2; return 0; }; h.onHasNext = [&] { return left > 0; }; h.onNext = [&](AnnotatorContext & c) -> CAS & { --left; return c.getEmptyCAS(); };
  std::unique_ptr<CAS> c(env.newCAS()); GenCas g(s); GenOpts o; genCas(g, r, *c, o); SC sc; cs.serializeData(*c, sc); Data d = Data::of(sc);
  Engine e; e.jo = V().make(VmObj::PLAIN); e.jo->cls = "org/apache/uima/uimacpp/UimacppEngine"; e.jo->fields["cppEnginePointer"] = 0; bool con = false, ini = false; if (r.chance(80)) { construct(e); con = true; } int n = r.range(3, 14); std::string seq;
  for (int i = 0; i < n; ++i) { int k = r.range(0, 13); VmObj * x = 0; bool valid = con && ini; bool known = true; seq += (char)('a' + k);
    switch (k) { case 0: if (ini) continue; x = initialize(e, xml); valid = con; if (con && !x) ini = true; break; case 1: x = typeSystem(e, defs, top); break; case 2: x = fill(e, d); break; case 3: x = process(e, 0, Nums(), Nums()); break; case 4: x = reset(e); break; case 5: x = serialize(e, false); break; case 6: x = serialize(e, true); known = false; break;
      case 7: { VmObj * p = 0; static const int W[] = { 0, 1, 2, 3, 4, 5, 6, 10, 11, 12, 13, 14, 20, 30, 40, 41, 42, 43, 99, -1 }; x = part(e, r.chance(30), W[r.below(20)], &p); known = false; break; } case 8: { bool b; x = hasNext(e, b); break; } case 9: x = nextSeg(e); known = false; break; case 10: x = releaseSeg(e); break; case 11: x = batch(e); break; case 12: x = collection(e); break;
      case 13: if (!con || r.chance(60)) continue; x = destroy(e); valid = con; if (x) violation("jni-destroy-fails", utf8(x->s)); con = ini = false; if (e.jo->fields["cppEnginePointer"]) violation("jni-pointer-after-destroy", ""); if (r.chance(50)) { construct(e); con = true; } break; }
    count("misuse-calls"); if (known && valid && x) violation("jni-valid-call-fails", seq + " " + utf8(x->s)); if (!valid) count("calls-in-wrong-order"); if (known && !valid && !x && k != 10 && !(k == 7)) violation("jni-wrong-order-accepted", seq); seen(mix(hashStr(seq), con * 2 + ini)); }
  if (con) { if (ini || r.chance(50)) { if (VmObj * x = destroy(e)) violation("jni-destroy-fails", utf8(x->s)); } else { if (VmObj * x = destruct(e)) violation("jni-destroy-fails", utf8(x->s)); if (e.jo->fields["cppEnginePointer"]) violation("jni-pointer-after-destroy", "destructor"); } }
  if (!h.live.empty()) violation("jni-annotators-left", std::to_string(h.live.size())); V().collect({}); count("misuses"); }

// static methods, configuration and the logger
static void statics(Rng & r, Args & a) {
  BridgeHook h; installJvm(h, a); VmObj * o = 0; if (nat("getVersionJNI", [&](JNIEnv * v) -> jobject { return J(getVersionJNI)(v, 0); }, &o) || !o || o->s.isEmpty()) violation("jni-version", "");
  for (int i = 0; i < 20; ++i) { jlong id = r.chance(50) ? r.range(0, 9000) : r.chance(50) ? (jlong) r.next() : -r.range(1, 1000); o = 0; VmObj * x = nat("getErrorMessageJNI", [&](JNIEnv * v) -> jobject { return J(getErrorMessageJNI)(v, 0, id); }, &o); if (x || !o || utf8(o->s) != AnalysisEngine::getErrorIdAsCString((TyErrorId) id)) violation("jni-error-name", std::to_string((long) id)); else seen(hashStr(utf8(o->s))); }
  std::string work = a.tmp + "/wörk" + std::to_string(r.below(3)), data = a.tmp + "/data"; if (r.chance(50)) work = a.tmp + "/w" + std::to_string(r.below(3)); bool exists = r.chance(60), dex = r.chance(60); if (exists) mkdir(work.c_str(), 0755); else rmdir(work.c_str()); if (dex) mkdir(data.c_str(), 0755); else rmdir(data.c_str()); std::string dp = data; int form = r.range(0, 2); if (form == 1) dp = a.tmp + "/absent:" + data; if (form == 2) dp = data + ":" + a.tmp;
  std::string oldWork = ResourceManager::getInstance().getLocationWork().getAsCString(); VmObj * x = nat("configureResourceManagerJNI", [&](JNIEnv * v) -> jobject { J(configureResourceManagerJNI)(v, 0, (jstring) A(V().str(us(work))), (jstring) A(V().str(us(dp)))); return 0; }); std::string now = ResourceManager::getInstance().getLocationWork().getAsCString(), nd = ResourceManager::getInstance().getLocationData().getAsCString();
  bool ascii = true; for (unsigned char ch : work) if (ch > 126) ascii = false; auto trim = [](std::string z) { while (z.size() > 1 && z.back() == '/') z.pop_back(); return z; }; if (ascii) { if (exists) { if (x) violation("jni-configure-fails", utf8(x->s)); else if (trim(now) != work) violation("jni-work-directory", now); if (!x && form != 2 && dex && trim(nd) != data) violation("jni-data-directory", nd + " for " + dp); } else { if (!x || x->code != UIMA_ERR_RESMGR_WORK_DIR_DOES_NOT_EXIST) violation("jni-configure-accepts", work); if (now != oldWork) violation("jni-work-directory", "changed by a failed configuration"); } }
  rmdir(work.c_str()); rmdir(data.c_str());
  // messages logged by annotators arrive in the Java logger
  Schema s; SchemaOpts q; q.maxTypes = 2; s = genSchema(r, q); Engine e; construct(e); bool init = false; if (VmObj * y = initialize(e, aeXml(s, a.extra["--plugins"] + "/trace.so"))) violation("jni-initialize-fails", utf8(y->s)); else init = true;
  if (init) { struct L { int level; std::string text; long code; }; std::vector<L> sent; h.onProcess = [&](CAS &, ResultSpecification const &) -> TyErrorId { int n = r.range(1, 5); for (int i = 0; i < n; ++i) { L l; l.level = r.range(1, 3); l.text = "message " + std::to_string(r.below(100000)); if (r.chance(20)) l.text += std::string(r.range(1, 3000), 'm'); l.code = r.range(1, 500); LogFacility & f = h.ctx->getLogger(); if (l.level == 1) f.logMessage(l.text, l.code); else if (l.level == 2) f.logWarning(l.text, l.code); else f.logError(l.text, l.code); sent.push_back(l); } return 0; };
    V().logs.clear(); V().logThrows = r.chance(20); if (VmObj * y = process(e, 0, Nums(), Nums())) violation("jni-process-fails", utf8(y->s)); V().logThrows = false; std::vector<VmLog> got; for (auto & l : V().logs) if (utf8(l.msg).find("message ") != std::string::npos) got.push_back(l);
    std::vector<L> expect; for (auto & l : sent) if (l.level >= V().logLevel) expect.push_back(l); if (got.size() != expect.size()) violation("jni-log-count", std::to_string(got.size()) + " of " + std::to_string(expect.size())); else for (size_t i = 0; i < got.size(); ++i) { count("evals"); if (got[i].level != expect[i].level || utf8(got[i].msg).find(expect[i].text) == std::string::npos || utf8(got[i].msg).find(std::to_string(expect[i].code)) == std::string::npos) violation("jni-log-entry", utf8(got[i].msg).substr(0, 200) + " level " + std::to_string(got[i].level) + " expected " + expect[i].text.substr(0, 100) + " level " + std::to_string(expect[i].level)); else count("log-entries"); } }
  if (init) destroy(e); else destruct(e); V().collect({}); count("statics"); }

int main(int argc, char ** argv) {
  Args a = parseArgs(argc, argv); V().frames.emplace_back(); V().logLevel = 1 + (int)((a.seed + hashStr(a.out)) % 3); if (const char * p = getenv("VP_LOGLEVEL")) V().logLevel = atoi(p);
  V().enter("createResourceManagerJNI"); J(createResourceManagerJNI)(&V().env, 0); V().leave(); if (V().take()) { violation("jni-resource-manager", ""); }
  { Engine e; construct(e); destruct(e); }
  ResourceManager::getInstance().enableSchemaValidation(false); // as initializeJNI does for the process: the C++ twin of the first case must see the same
  return drive(argc, argv, { { "exchange", exchange }, { "faults", faults }, { "misuse", misuse }, { "statics", statics }, { "pinned", pinned } });
}
