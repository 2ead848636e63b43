// V01 V02: views, subjects of analysis, their annotations and their data, against a model.
#include "snap.hpp"
#include "stream_content.hpp"
#include "uima/sofastream.hpp"
#include "uima/sofaid.hpp"
using namespace vp; using namespace uima;

static const char * INIT = "_InitialView";
struct Data { int kind = 0; /* 0 none 1 string 2 array 3 uri */ UnicodeString s; lowlevel::TyFS arr = 0; int ok = 0; size_t n = 0; };
struct Ann { AnnotationFS f; int b, e, type; bool indexed; bool sofaAtCreation; };
struct Subject { UnicodeString name; CAS * view = 0; bool hasSofa = true; Data d; UnicodeString mime; bool mimeKnown = false; std::vector<Ann> anns; UnicodeString lang; bool docAnn = false; };
struct World {
  Schema s; std::unique_ptr<Env> env; std::unique_ptr<CAS> cas; CAS * base = 0; std::vector<Subject> subs; // subs[0] is the initial view
  std::vector<int> annTypes; ValOpts vo;
};
static UnicodeString randName(Rng & r, World & w) {
  static const char * fixed[] = { "_InitialView", "a", "A", "view", "view ", "", "_DefaultTextSofaName", "v.w", "x/y", "*", "EnglishDocument", "_initialview", "1", "2" };
  if (r.chance(25)) return w.subs[r.below(w.subs.size())].name; if (r.chance(40)) return us(fixed[r.below(sizeof fixed / sizeof *fixed)]);
  if (r.chance(30)) { UnicodeString n = w.subs[r.below(w.subs.size())].name; n.append((UChar) r.range('a', 'c')); return n; } return randString(r, S_ANY | S_NONUL, 8); }
static Subject * find(World & w, const UnicodeString & n) { for (auto & s : w.subs) if (s.name == n) return &s; return 0; }
static UnicodeString uref(const UnicodeStringRef & x) { return us(x); }

static void checkData(World & w, Subject & s, const char * when) {
  std::string who = u8(s.name) + " after " + when; CAS & v = *s.view; SofaFS sf = v.getSofa();
  if (sf.isValid() != s.hasSofa) { violation("sofa-existence", who); return; }
  UnicodeString t = uref(v.getDocumentText()); UnicodeString want = s.d.kind == 1 ? s.d.s : UnicodeString(); count("evals", 4);
  if (t != want) violation("document-text", who + ": " + u8(t) + " instead of " + u8(want));
  UnicodeString uri = uref(v.getSofaDataURI()), wu = s.d.kind == 3 ? s.d.s : UnicodeString(); if (uri != wu) violation("sofa-uri", who + ": " + u8(uri) + " instead of " + u8(wu));
  FeatureStructure a = v.getSofaDataArray(); if (a.isValid() != (s.d.kind == 2) || (a.isValid() && addr(a) != s.d.arr)) violation("sofa-array", who);
  if (s.hasSofa) { SofaFS f(sf); if (uref(f.getSofaID()) != s.name) violation("sofa-name", who + ": " + u8(f.getSofaID())); if (s.mimeKnown && uref(f.getSofaMime()) != s.mime) violation("sofa-mime", who + ": " + u8(f.getSofaMime()) + " instead of " + u8(s.mime));
    if (uref(f.getLocalStringData()) != want) violation("sofa-string", who + ": " + u8(f.getLocalStringData())); if (uref(f.getSofaURI()) != wu) violation("sofa-uri", who); FeatureStructure b = f.getLocalFSData(); if (b.isValid() != (s.d.kind == 2) || (b.isValid() && addr(b) != s.d.arr)) violation("sofa-array", who);
    if (f.getSofaRef() != v.getSofaNum()) violation("sofa-number", who);
    if (uref(v.getViewName()) != s.name) violation("view-name", who + ": " + u8(v.getViewName())); } }

static void checkAll(World & w, const char * when) {
  Report & rep = Report::get(); long before = rep.violations; std::set<int> nums; std::set<CAS *> ptrs; u64 h = 7; std::set<lowlevel::TyFS> everything;
  for (auto & s : w.subs) { std::string who = u8(s.name) + " after " + when;
    if (w.base->getView(s.name) != s.view) violation("view-lookup", who + ": getView returned another view"); if (!ptrs.insert(s.view).second) violation("view-shared", who); if (!nums.insert(s.view->getSofaNum()).second) violation("sofa-number-shared", who + ": " + std::to_string(s.view->getSofaNum()));
    if (s.view->getBaseCas() != w.base) violation("base-cas", who);
    SofaID id; id.setSofaId(s.name); SofaFS bs = w.base->getSofa(id); if (bs.isValid() != s.hasSofa) violation("sofa-lookup", who); else if (s.hasSofa) { if (w.base->getView(bs) != s.view) violation("view-lookup", who + ": getView(sofa) returned another view"); if (addr(bs) != addr(s.view->getSofa())) violation("sofa-lookup", who); }
    checkData(w, s, when);
    // annotations
    std::map<lowlevel::TyFS, int> want, got; for (auto & a : s.anns) { if (a.indexed) want[addr(a.f)]++; count("evals");
      if (!everything.insert(addr(a.f)).second) violation("annotation-shared", who);
      if (a.f.getView() != s.view) violation("annotation-view", who); if ((int) a.f.getBeginPosition() != a.b || (int) a.f.getEndPosition() != a.e) violation("annotation-span", who);
      if (a.sofaAtCreation) { FeatureStructure sf = a.f.getFSValue(a.f.getType().getFeatureByBaseName("sofa")); if (!sf.isValid() || addr(sf) != addr(s.view->getSofa())) violation("annotation-sofa", who); }
      if (s.d.kind == 1 && s.d.s.length() && a.b <= a.e && a.e <= s.d.s.length()) { UnicodeString c = uref(a.f.getCoveredText()), e(s.d.s, a.b, a.e - a.b); count("covered-texts"); if (c != e) violation("covered-text", who + ": " + u8(c) + " instead of " + u8(e)); }
      else { UnicodeString c; std::string oc = outcome([&] { c = uref(a.f.getCoveredText()); }); if (oc != "ok" && !isUima(oc)) violation("covered-text", who + " " + oc); if (s.d.kind != 1 ? c.length() != 0 : (c.length() > 0 && s.d.s.indexOf(c) < 0)) violation("covered-text", who + ": not part of the text: " + u8(c)); } }
    lowlevel::TyFS doc = 0; if (s.docAnn) { DocumentFS d = s.view->getDocumentAnnotation(); if (!d.isValid()) violation("document-annotation", who + ": none"); else { doc = addr(d); int end = s.d.kind == 1 ? s.d.s.length() : 0; if ((int) d.getBeginPosition() != 0 || (int) d.getEndPosition() != end) violation("document-annotation", who + ": " + std::to_string(d.getBeginPosition()) + "-" + std::to_string(d.getEndPosition()) + " instead of 0-" + std::to_string(end)); if (!everything.insert(doc).second) violation("document-annotation", who + ": shared with another view");
      if (d.getView() != s.view) violation("document-annotation", who + ": belongs to another view"); UnicodeString l = uref(d.getLanguage().asUnicodeString()); if (l != s.lang) violation("document-language", who + ": " + u8(l) + " instead of " + u8(s.lang)); count("evals", 2); } }
    // a document annotation is in the annotation index exactly when the text is not empty (the initial one may be created by looking at it)
    ANIndex ix = s.view->getAnnotationIndex(); ANIterator it = ix.iterator(); int docs = 0, lastB = -1, lastE = 0; for (it.moveToFirst(); it.isValid(); it.moveToNext()) { AnnotationFS a = it.get(); if (nameOf(a.getType()) == "uima.tcas.DocumentAnnotation") { docs++; if (s.docAnn && addr(a) != doc) violation("document-annotation", who + ": another one is indexed"); } else got[addr(a)]++; if (a.getView() != s.view) violation("annotation-view", who + ": found in the index"); int b = (int) a.getBeginPosition(), e = (int) a.getEndPosition(); if (b < lastB || (b == lastB && e > lastE)) violation("annotation-order", who); lastB = b; lastE = e; }
    if (got != want) violation("view-index", who + ": " + std::to_string(got.size()) + " annotations indexed, expected " + std::to_string(want.size())); if (docs > 1 || (docs == 0 && s.d.kind == 1 && s.d.s.length() > 0)) violation("document-annotation", who + ": indexed " + std::to_string(docs) + " times");
    h = mix(h, hashStr(u8(s.name)) ^ (u64) s.d.kind * 77 ^ (u64) s.d.s.hashCode() ^ ((u64) got.size() << 40)); count("view-states"); }
  // enumeration
  std::multiset<std::string> want, got; for (auto & s : w.subs) if (s.hasSofa) want.insert(u8(s.name)); FSIterator it = w.base->getSofaIterator(); for (it.moveToFirst(); it.isValid(); it.moveToNext()) { SofaFS f(it.get()); got.insert(u8(f.getSofaID())); }
  if (want != got) { std::string x, y; for (auto & n : want) x += n + ","; for (auto & n : got) y += n + ","; violation("sofa-enumeration", std::string(when) + ": " + y + " instead of " + x); }
  if (w.subs.size() > 1) seen(h); (void) before; }

static void startWorld(World & w, Rng & r) {
  SchemaOpts so; so.maxTypes = 5; so.maxFeats = 3; w.s = genSchema(r, so); w.env.reset(new Env(w.s)); w.cas.reset(w.env->newCAS()); w.base = w.cas->getBaseCas();
  for (int t : w.s.fsTypes) if (w.s.subsumes("uima.tcas.Annotation", w.s.types[t].name)) w.annTypes.push_back(t); if (w.annTypes.empty()) w.annTypes.push_back(w.s.idx("uima.tcas.Annotation")); }
static void initialOnly(World & w) { w.subs.clear(); Subject s; s.name = us(INIT); s.view = w.base->getView(us(INIT)); s.hasSofa = false; w.subs.push_back(s); }
static void setText(World & w, Subject & s, const UnicodeString & t) { s.hasSofa = true; s.d.kind = 1; s.d.s = t; if (t.length()) { if (!s.docAnn) { s.docAnn = true; s.lang = UnicodeString(); } } }

static void rejected(const std::string & oc, const std::string & key, const std::string & what) { count("rejections"); if (!isUima(oc)) violation(key, what + ": " + oc); }

// sets data in one of the ways the API offers; true if it succeeded
static void dataOp(World & w, Rng & r, Subject & s, int strFlags) {
  int how = r.range(0, 7); bool first = s.d.kind == 0; std::string oc; UnicodeString t, mime = r.chance(30) ? UnicodeString() : us(r.chance(50) ? "text/plain" : "x/" + std::to_string(r.below(9))); bool hadSofa = s.hasSofa; CAS & v = *s.view; bool mimeGiven = false; int kind = 0; Data d;
  t = randString(r, strFlags, 40); if (r.chance(4)) { t = UnicodeString(); int n = r.range(3000, 40000); for (int i = 0; i < n; ++i) t.append((UChar) r.range('a', 'z')); }
  if (r.chance(12)) t = UnicodeString();
  op("set data " + std::to_string(how) + " in " + u8(s.name) + " length " + std::to_string(t.length()) + (first ? "" : " again"));
  switch (how) {
    case 0: kind = 1; oc = outcome([&] { v.setDocumentText(UnicodeStringRef(t)); }); break;
    case 1: kind = 1; mimeGiven = !hadSofa; oc = outcome([&] { v.setSofaDataString(UnicodeStringRef(t), mime); }); break;
    case 2: kind = 1; oc = outcome([&] { v.setDocumentText(t.getBuffer(), t.length(), true); }); break;
    case 3: if (!hadSofa) return; kind = 1; oc = outcome([&] { SofaFS f = v.getSofa(); f.setLocalSofaData(UnicodeStringRef(t)); }); break;
    case 4: case 5: { int ok = r.range(1, 9); size_t n = r.range(0, 40); FeatureStructure a = createArr(v, ok, n); for (size_t i = 0; i < n; ++i) if (ok != O_AFS) setElem(a, ok, i, randPrim(r, ARR_RK[ok], w.vo)); d.arr = addr(a); d.ok = ok; d.n = n; kind = 2;
      if (how == 4 || !hadSofa) { mimeGiven = !hadSofa; oc = outcome([&] { v.setSofaDataArray(a, mime); }); } else oc = outcome([&] { SofaFS f = v.getSofa(); f.setLocalSofaData(a); }); break; }
    default: { kind = 3; int len = r.range(0, 60); t = us("vp:" + std::to_string(len) + ":" + std::to_string(r.below(1000))); if (r.chance(20)) t.append(us("\xC3\xA9\xE6\x97\xA5")); if (r.chance(10)) t = us(r.chance(50) ? "nosuchscheme:abc" : r.chance(50) ? "nocolon" : ""); 
      if (how == 6 || !hadSofa) { mimeGiven = !hadSofa; oc = outcome([&] { v.setSofaDataURI(t, mime); }); } else oc = outcome([&] { SofaFS f = v.getSofa(); f.setRemoteSofaURI(t); }); } }
  count("data-sets");
  if (!first) { rejected(oc, "sofa-data-set-twice", std::to_string(how)); return; }
  if (oc != "ok") { violation("sofa-data-set-fails", std::to_string(how) + ": " + oc); return; }
  if (!hadSofa) { s.hasSofa = true; s.mimeKnown = true; s.mime = how == 0 || how == 2 ? us("text") : mime; }
  else if ((how == 1 || how == 4 || how == 6) && mime.length()) { s.mimeKnown = true; s.mime = mime; }
  d.kind = kind; if (kind != 2) d.s = t; s.d = d; if (kind == 1) setText(w, s, t); }

static void views(Rng & r, Args &) {
  World w; startWorld(w, r); initialOnly(w); std::vector<CAS *> stale; int n = r.range(8, 45); checkAll(w, "start");
  for (int i = 0; i < n; ++i) { int k = r.range(0, 23); Subject & s = w.subs[r.below(w.subs.size())]; CAS & any = r.chance(30) ? *w.base : *w.subs[r.below(w.subs.size())].view; std::string what;
    if (k < 5) { UnicodeString nm = randName(r, w); what = "createView " + u8(nm); op(what); Subject x; x.name = nm; CAS * v = 0; std::string oc = outcome([&] { v = any.createView(nm); });
      if (nm == us(INIT) || find(w, nm)) rejected(oc, "view-created-twice", u8(nm)); else if (oc != "ok" || !v) violation("view-creation-fails", u8(nm) + " " + oc); else { x.view = v; x.mimeKnown = true; w.subs.push_back(x); count("views-created"); } }
    else if (k < 7) { UnicodeString nm = randName(r, w), m = us(r.chance(50) ? "text" : "a/b"); what = "createSofa " + u8(nm); op(what); SofaID id; id.setSofaId(nm); std::string ms = utf8(m); lowlevel::TyFS a = 0; CAS * v = 0; Subject * ex = find(w, nm); std::string oc = outcome([&] { SofaFS f = any.createSofa(id, ms.c_str()); a = addr(f); v = any.getView(f); });
      if (ex && ex->hasSofa) rejected(oc, "sofa-created-twice", u8(nm)); else if (oc != "ok") violation("sofa-creation-fails", u8(nm) + " " + oc); else if (ex) { ex->hasSofa = true; ex->mimeKnown = true; ex->mime = m; } else { Subject x; x.name = nm; x.view = v; x.mime = m; x.mimeKnown = true; w.subs.push_back(x); count("views-created"); } }
    else if (k == 7) { UnicodeString nm = randName(r, w); what = "getView " + u8(nm); op(what); CAS * v = 0; std::string oc = outcome([&] { v = any.getView(nm); }); Subject * ex = find(w, nm); if (ex) { if (oc != "ok" || v != ex->view) violation("view-lookup", u8(nm) + " " + oc); } else rejected(oc, "unknown-view-found", u8(nm)); }
    else if (k < 11) { // a document annotation which others were sorted behind already when the text gives it its extent
      if (s.d.kind == 0 && r.chance(30)) { op("annotations before the text in " + u8(s.name)); DocumentFS d = s.view->getDocumentAnnotation(); if (!s.docAnn) { s.docAnn = true; s.lang = UnicodeString(); } int m = r.range(1, 4);
        for (int q = 0; q < m; ++q) { Ann a; a.type = w.annTypes[r.below(w.annTypes.size())]; a.b = 0; a.e = r.range(0, 30); a.indexed = true; a.sofaAtCreation = s.hasSofa; a.f = s.view->createAnnotation(w.s.types[a.type].t, a.b, a.e); s.view->getIndexRepository().addFS(a.f); s.anns.push_back(a); count("annotations"); } }
      dataOp(w, r, s, r.chance(70) ? S_XML : S_ANY); what = "set data"; }
    else if (k < 16) { int t = w.annTypes[r.below(w.annTypes.size())], L = s.d.kind == 1 ? s.d.s.length() : 20; Ann a; a.b = r.range(0, std::max(0, L)); a.e = r.range(a.b, std::max(a.b, L)); if (r.chance(20)) a.b = 0; if (r.chance(6)) a.e = r.range(0, L + 50); if (r.chance(3)) a.b = L + r.range(1, 100); a.type = t; a.indexed = r.chance(75); a.sofaAtCreation = s.hasSofa; what = "createAnnotation in " + u8(s.name) + " " + std::to_string(a.b) + "-" + std::to_string(a.e); op(what);
      std::string oc = outcome([&] { if (r.chance(80)) a.f = s.view->createAnnotation(w.s.types[t].t, a.b, a.e); else { FeatureStructure f = s.view->createFS(w.s.types[t].t); f.setIntValue(f.getType().getFeatureByBaseName("begin"), a.b); f.setIntValue(f.getType().getFeatureByBaseName("end"), a.e); a.f = AnnotationFS(f); } if (a.indexed) s.view->getIndexRepository().addFS(a.f); }); if (oc != "ok") violation("annotation-creation-fails", oc); else { s.anns.push_back(a); count("annotations"); } }
    else if (k == 16) { if (s.anns.empty()) continue; size_t q = r.below(s.anns.size()); what = "toggle index of annotation in " + u8(s.name); op(what); Ann & a = s.anns[q]; if (a.indexed) s.view->getIndexRepository().removeFS(a.f); else s.view->getIndexRepository().addFS(a.f); a.indexed = !a.indexed; }
    else if (k == 17) { what = "getDocumentAnnotation in " + u8(s.name); op(what); DocumentFS d = s.view->getDocumentAnnotation(); if (!d.isValid()) violation("document-annotation", "none"); if (!s.docAnn) { s.docAnn = true; s.lang = UnicodeString(); } }
    else if (k < 20) { static const char * L[] = { "en", "de", "en-US", "de-DE", "fr", "zh-TW", "", "mx_xh" }; const char * l = L[r.below(8)]; what = std::string("setLanguage ") + l + " in " + u8(s.name); op(what); s.view->getDocumentAnnotation().setLanguage(Language(l)); s.docAnn = true; s.lang = us(l).toLower(); s.lang.findAndReplace(us("_"), us("-")); }
    else if (k == 20) { what = "base CAS methods"; op(what); CAS & b = *w.base; Type at = w.s.types[w.annTypes[0]].t; UnicodeString t = us("x"), m = us("m"); FeatureStructure arr = b.createIntArrayFS(1);
      rejected(outcome([&] { b.getIndexRepository(); }), "base-cas-method", "getIndexRepository"); rejected(outcome([&] { b.setDocumentText(UnicodeStringRef(t)); }), "base-cas-method", "setDocumentText"); rejected(outcome([&] { b.setDocumentText(t.getBuffer(), 1, true); }), "base-cas-method", "setDocumentText(buffer)"); rejected(outcome([&] { b.setSofaDataString(UnicodeStringRef(t), m); }), "base-cas-method", "setSofaDataString"); rejected(outcome([&] { b.setSofaDataArray(arr, m); }), "base-cas-method", "setSofaDataArray"); rejected(outcome([&] { b.setSofaDataURI(t, m); }), "base-cas-method", "setSofaDataURI");
      if (uref(b.getDocumentText()).length()) violation("base-cas-method", "getDocumentText"); std::string oc = outcome([&] { if (b.getSofa().isValid()) violation("base-cas-method", "getSofa"); if (b.getSofaDataURI().length() || b.getSofaDataArray().isValid()) violation("base-cas-method", "data"); if (b.createAnnotation(at, 0, 1).isValid()) violation("base-cas-method", "createAnnotation"); }); if (oc != "ok" && !isUima(oc)) violation("base-cas-method", oc); }
    else if (k == 21) { // growth of the heap must not disturb what was handed out
      what = "growth"; op(what); int m = r.range(1, 300); for (int q = 0; q < m; ++q) { FeatureStructure f = s.view->createFS(w.s.types[w.s.idx("v.Base")].t); (void) f; } s.view->createIntArrayFS(r.range(0, 9000)); }
    else if (k == 22) { if (r.chance(60)) continue; what = "reset"; op(what); (r.chance(50) ? w.base : w.subs[r.below(w.subs.size())].view)->reset(); initialOnly(w); count("resets"); }
    else { Subject * o = &w.subs[r.below(w.subs.size())]; if (o == &s || s.anns.empty() || o->anns.empty()) continue; // a reference across views
      what = "cross reference"; op(what); auto & x = s.anns[r.below(s.anns.size())]; auto & y = o->anns[r.below(o->anns.size())]; const FeatDef * rf = 0; for (auto f : w.s.feats(x.type)) if (f->kind == R_REF && f->range == "uima.cas.TOP") rf = f; if (!rf) continue; x.f.setFSValue(rf->f, y.f); FeatureStructure g = x.f.getFSValue(rf->f); if (addr(g) != addr(y.f)) violation("cross-view-reference", "other object"); else { AnnotationFS ga(g); if (ga.getView() != o->view) violation("cross-view-reference", "annotation thinks it belongs to another view"); bool unowned = !g.getFSValue(g.getType().getFeatureByBaseName("sofa")).isValid(); if (!unowned && &g.getCAS() != o->view) violation("cross-view-reference", "the referenced annotation is handed out with another view"); if (o->d.kind == 1 && o->d.s.length() && y.b <= y.e && y.e <= o->d.s.length() && uref(ga.getCoveredText()) != UnicodeString(o->d.s, y.b, y.e - y.b)) violation("cross-view-reference", "covered text"); count("cross-references");
        // the same through an array and through a list of this view
        if (!unowned) { ArrayFS arr = s.view->createArrayFS(2); arr.set(1, y.f); FeatureStructure e = arr.get(1); if (addr(e) != addr(y.f) || &e.getCAS() != o->view) violation("cross-view-reference", "array element handed out with another view");
          if (addr(arr.get(1)) == addr(y.f) && AnnotationFS(e).getView() != o->view) violation("cross-view-reference", "array element");
          ListFS l = s.view->createListFS(); l.addFirst(y.f); e = l.getHead(); if (addr(e) != addr(y.f) || &e.getCAS() != o->view) violation("cross-view-reference", "list head handed out with another view"); count("cross-references-in-containers"); } } }
    if (Report::get().violations > 200) return; checkAll(w, what.c_str()); }
  sample("views: " + std::to_string(w.subs.size()) + " subjects, last operations " + (Report::get().trace.empty() ? "" : Report::get().trace.back())); }

// ---- V02 ------------------------------------------------------------------------------------
static std::vector<unsigned char> streamBytes(World & w, Subject & s, bool & readable, size_t & es) {
  std::vector<unsigned char> v; readable = true; es = 1; CAS & c = *s.view;
  if (s.d.kind == 1) { UErrorCode e = U_ZERO_ERROR; int32_t n = 0; u_strToUTF8(0, 0, &n, s.d.s.getBuffer(), s.d.s.length(), &e); if (e == U_INVALID_CHAR_FOUND) { readable = false; return v; } std::string x = utf8(s.d.s); v.assign(x.begin(), x.end()); return v; }
  if (s.d.kind == 3) { std::string u = utf8(s.d.s); if (u.compare(0, 3, "vp:")) { readable = false; return v; } return vpStreamContent(u); }
  FeatureStructure a = internal::FSPromoter::promoteFS(s.d.arr, c); auto put = [&](const void * p, size_t n) { v.insert(v.end(), (const unsigned char *) p, (const unsigned char *) p + n); };
  for (size_t i = 0; i < s.d.n; ++i) { Val x; if (s.d.ok != O_AFS) x = getElem(a, s.d.ok, i); switch (s.d.ok) {
    case O_AINT: { int y = (int) x.i; put(&y, es = 4); break; } case O_AFLOAT: { float y = asF(x.i); put(&y, es = 4); break; } case O_ABOOL: { char y = x.i ? 1 : 0; put(&y, es = 1); break; } case O_ABYTE: { char y = (char) x.i; put(&y, es = 1); break; }
    case O_ASHORT: { short y = (short) x.i; put(&y, es = 2); break; } case O_ALONG: { i64 y = x.i; put(&y, es = 8); break; } case O_ADOUBLE: { double y = asD(x.i); put(&y, es = 8); break; } default: readable = false; } }
  if (s.d.n == 0) { static const size_t E[] = { 1, 1, 4, 4, 1, 1, 1, 2, 8, 8 }; es = E[s.d.ok]; if (s.d.ok == O_AFS || s.d.ok == O_ASTR) readable = false; }
  return v; }
static void grow(World & w, Rng & r, Subject & s) { int m = r.range(1, 3); for (int i = 0; i < m; ++i) { int ok = r.range(1, 9); createArr(*s.view, ok, r.range(0, 6000)); } UnicodeString big; for (int i = 0; i < 2000; ++i) big.append((UChar) 'x'); FeatureStructure sa = s.view->createStringArrayFS(8); for (int i = 0; i < r.range(0, 8); ++i) StringArrayFS(sa).set(i, UnicodeStringRef(big)); op("growth"); count("growths"); }
static void streamSession(World & w, Rng & r, Subject & s, bool thoroughOps) {
  bool readable; size_t es; std::vector<unsigned char> v = streamBytes(w, s, readable, es); std::string who = u8(s.name) + " kind " + std::to_string(s.d.kind) + "/" + std::to_string(s.d.ok) + " bytes " + std::to_string(v.size()); bool local = s.d.kind != 3; if (!local && readable) { static const size_t E[] = { 1, 1, 2, 4, 8 }; es = E[r.below(5)]; count("remote-element-size-" + std::to_string(es)); }
  SofaDataStream * p = 0; std::string oc = outcome([&] { if (r.chance(50) || !s.hasSofa) p = s.view->getSofaDataStream(); else { SofaFS f = s.view->getSofa(); p = f.getSofaDataStream(); } });
  if (s.d.kind == 0) { if (!(oc == "ok" && !p) && !isUima(oc)) violation("stream-without-data", who + " " + oc); delete p; return; }
  if (oc != "ok" || !p) { violation("stream-missing", who + " " + oc); return; }
  std::unique_ptr<SofaDataStream> st(p); op("stream of " + who);
  if (r.chance(15)) { char b[8]; oc = outcome([&] { st->read(b, 1, 8); }); if (!isUima(oc)) violation("stream-read-before-open", who + " " + oc); }
  int opens = r.chance(15) ? 2 : 1;
  for (int o = 0; o < opens; ++o) {
    oc = outcome([&] { int rc = r.chance(50) ? st->open() : st->open(r.range(1, 5000)); if (rc != 0) violation("stream-open", who + " returned " + std::to_string(rc)); });
    if (!readable) { rejected(oc, "unreadable-stream-opened", who); return; }
    if (oc != "ok") { violation("stream-open", who + " " + oc); return; }
    size_t pos = 0; count("streams"); int n = r.range(3, 25); u64 h = hashStr(who);
    for (int i = 0; i < n; ++i) { int k = r.range(0, 11); count("evals"); size_t left = v.size() - pos;
      if (k < 6) { size_t num = r.chance(15) ? 0 : r.chance(20) ? v.size() / es + r.range(0, 5) : r.range(1, 9); std::vector<unsigned char> buf(num * es + 16, 0xA5); int got = -77; oc = outcome([&] { got = st->read(buf.data() + 8, (int) es, num); }); op("read " + std::to_string(num) + "x" + std::to_string(es) + " at " + std::to_string(pos) + " -> " + std::to_string(got)); if (oc != "ok") { violation("stream-read", who + " " + oc); return; }
        size_t whole = std::min(num, left / es); int expect = whole ? (int) whole : num == 0 ? got : -1; if (num == 0 && got != 0 && got != -1) violation("stream-read-count", who + ": nothing requested, returned " + std::to_string(got));
        if (num && got != expect && !(!local && !whole && left && got == 0)) { violation("stream-read-count", who + ": read at " + std::to_string(pos) + " of " + std::to_string(num) + "x" + std::to_string(es) + " returned " + std::to_string(got) + " instead of " + std::to_string(expect)); return; }
        size_t nb = whole * es; std::vector<unsigned char> e(v.begin() + pos, v.begin() + pos + nb); if (!local && es > 1) for (size_t q = 0; q + es <= nb; q += es) std::reverse(e.begin() + q, e.begin() + q + es);
        if (nb && memcmp(e.data(), buf.data() + 8, nb)) { violation("stream-content", who + " at " + std::to_string(pos)); return; } for (size_t q = 0; q < buf.size(); ++q) if ((q < 8 || q >= 8 + num * es) && buf[q] != 0xA5) { violation("stream-overrun", who); return; }
        pos += nb; h = mix(h, nb * 31 + 1); if (whole < left / es ? false : left % es) { op("reposition"); st->seek((i64) pos, SEEK_SET); } }
      else if (k < 8) { i64 to = r.range(0, (int) v.size()); to -= to % (i64) es; int how = r.range(0, 1); oc = outcome([&] { int rc = how == 0 ? st->seek(to, SEEK_SET) : st->seek(to - (i64) pos, SEEK_CUR); if (rc != 0) violation("stream-seek", who + " returned " + std::to_string(rc)); }); op("seek " + std::to_string(to)); if (oc != "ok") violation("stream-seek", who + " " + oc); pos = (size_t) to; h = mix(h, to * 17 + 2); }
      else if (k == 8) { i64 off = r.chance(50) ? 0 : (i64) es * r.range(-(int) (v.size() / es) - 2, (int) (v.size() / es) + 2); int rc = -77; oc = outcome([&] { rc = st->seek(off, SEEK_END); }); op("seek end " + std::to_string(off) + " -> " + std::to_string(rc)); i64 np = (i64) v.size() - (off < 0 ? -off : off); if (off == 0 && (oc != "ok" || rc != 0)) violation("stream-seek", who + " to the end: " + oc + " " + std::to_string(rc)); if (oc == "ok" && rc == 0) { if (np < 0) { violation("stream-seek", who + ": out of range accepted"); np = 0; st->seek(0, SEEK_SET); } pos = (size_t) np; } else st->seek((i64) pos, SEEK_SET); }
      else if (k == 9) { static const i64 far[] = { -1, -2, -100, -4, -8, 1, 2, 8, 1000, INT32_MAX, INT64_MAX / 2, INT64_MIN / 2 }; i64 off = far[r.below(12)]; i64 tgt = off < 0 ? off : (i64) v.size() + off; int rc = 0; oc = outcome([&] { rc = r.chance(50) ? st->seek(tgt, SEEK_SET) : st->seek(tgt - (i64) pos, SEEK_CUR); }); op("seek out of range " + std::to_string(tgt) + " -> " + std::to_string(rc)); count("hostile-seeks");
        std::vector<unsigned char> buf(64, 0xA5); int got = -1; if (oc == "ok" && rc == 0) { // a position past the end may be accepted, but then there is nothing to read
            std::string o2 = outcome([&] { got = st->read(buf.data(), (int) es, 64 / es); }); if (tgt < 0) violation("stream-seek", who + ": negative position accepted"); else if (o2 == "ok" && got > 0) violation("stream-seek", who + ": read " + std::to_string(got) + " elements past the end"); }
        if (outcome([&] { if (st->seek((i64) pos, SEEK_SET)) throw std::runtime_error("seek"); }) != "ok") violation("stream-seek", who + ": cannot return after an out of range seek"); }
      else if (k == 10) { i64 t = st->getTotalStreamSizeInBytes(), a = st->howManyBytesAvailable(); if (t != (i64) v.size()) violation("stream-size", who + ": " + std::to_string(t)); if (a != (i64) left) violation("stream-available", who + ": " + std::to_string(a) + " instead of " + std::to_string(left)); }
      else if (r.chance(50)) grow(w, r, s);
      else if (es > 1 && (s.d.ok == O_AINT || s.d.ok == O_AFLOAT)) { char b[16]; int rc = 0; oc = outcome([&] { rc = st->read(b, 1, 1); }); if (left && !(isUima(oc) || (oc == "ok" && rc == -2))) violation("stream-element-size", who + " " + oc + " " + std::to_string(rc)); st->seek((i64) pos, SEEK_SET); } }
    seen(h);
    if (r.chance(30)) { st->close(); op("close"); if (local) { char b[8]; oc = outcome([&] { st->read(b, 1, 8); }); if (!isUima(oc)) violation("stream-read-after-close", who + " " + oc); } } } }
static void sofadata(Rng & r, Args &) {
  World w; startWorld(w, r); initialOnly(w); w.vo.strFlags = S_ANY; int nv = r.range(1, 5); for (int i = 0; i < nv; ++i) { Subject s; s.name = us("v" + std::to_string(i)); s.view = w.base->createView(s.name); s.mimeKnown = true; w.subs.push_back(s); }
  int n = r.range(6, 30);
  for (int i = 0; i < n; ++i) { Subject & s = w.subs[r.below(w.subs.size())]; int k = r.range(0, 9); if (s.d.kind == 0 && k < 7) k = 0;
    if (k == 0) dataOp(w, r, s, r.chance(60) ? S_XML : S_ANY); else if (k < 7) streamSession(w, r, s, false); else if (k < 8) grow(w, r, s); else if (k == 8) { if (r.chance(15)) { op("reset"); w.base->reset(); initialOnly(w); for (int q = 0; q < nv; ++q) { Subject x; x.name = us("v" + std::to_string(q)); x.view = w.base->createView(x.name); x.mimeKnown = true; w.subs.push_back(x); } } }
    else if (s.d.kind) dataOp(w, r, s, S_XML);
    for (auto & x : w.subs) checkData(w, x, "data operation"); if (Report::get().violations > 100) return; }
  // data survives an XMI and an XCAS round trip
  if (r.chance(60)) { bool xmlOk = true; for (auto & s : w.subs) if (s.d.kind == 2 && s.d.ok == O_ASTR) xmlOk = false; for (auto & s : w.subs) if (s.d.kind == 1 || s.d.kind == 3) for (int i = 0; i < s.d.s.length(); ++i) { UChar32 c = s.d.s.char32At(i); if ((c < 0x20 && c != 9 && c != 10 && c != 13) || (c >= 0xd800 && c < 0xe000 && !U16_IS_TRAIL(s.d.s[i])) || (c & 0xfffe) == 0xfffe) xmlOk = false; if (U16_IS_TRAIL(s.d.s[i]) && (i == 0 || !U16_IS_LEAD(s.d.s[i - 1]))) xmlOk = false; } if (!xmlOk) return;
    bool x = r.chance(50); std::ostringstream os; if (x) { XmiWriter wr(*w.base, true); wr.write(os); } else { XCASWriter wr(*w.base, true); wr.write(os); } std::string doc = os.str(); std::unique_ptr<CAS> c(w.env->newCAS()); xercesc::MemBufInputSource src((const XMLByte *) doc.data(), doc.size(), "d"); std::string oc = outcome([&] { if (x) XmiDeserializer::deserialize(src, *c); else XCASDeserializer::deserialize(src, *c); }); if (oc != "ok") { violation("sofa-data-document", oc); return; }
    for (auto & s : w.subs) { if (!s.hasSofa) continue; CAS * v = 0; oc = outcome([&] { v = c->getBaseCas()->getView(s.name); }); if (oc != "ok") { violation("sofa-lost", u8(s.name)); continue; } if (uref(v->getDocumentText()) != (s.d.kind == 1 ? s.d.s : UnicodeString())) violation("sofa-data-document", "text of " + u8(s.name)); if (uref(v->getSofaDataURI()) != (s.d.kind == 3 ? s.d.s : UnicodeString())) violation("sofa-data-document", "uri"); if (v->getSofaDataArray().isValid() != (s.d.kind == 2)) violation("sofa-data-document", "array");
      World w2; w2.s = w.s; Subject y = s; y.view = v; if (s.d.kind == 2) y.d.arr = addr(v->getSofaDataArray()); bool nulls = s.d.kind == 2 && s.d.ok == O_ASTR; if (s.d.kind && !nulls) { w2.env = nullptr; streamSession(w2, r, y, false); } count("evals", 3); } }
}
int main(int argc, char ** argv) {
  setenv("UIMACPP_STREAMHANDLERS", "vp:stream other:nosuchlibrary", 1);
  ResourceManager::createInstance("vp");
  return drive(argc, argv, { { "views", views }, { "sofadata", sofadata } });
}
