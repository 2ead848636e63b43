// Random CAS contents over a random type system, and canonical snapshots of whole CASes.
#pragma once
#include "cas.hpp"
#include "uima/xmiwriter.hpp"
#include "uima/xmlwriter.hpp"
#include "uima/xmideserializer.hpp"
#include "uima/xcasdeserializer.hpp"
namespace vp {
using uima::FeatureStructure; using uima::CAS;

struct SnapOpts { bool sofaNums = false; bool nullElemAsEmpty = false; bool indexOrder = false; bool unindexedHeap = false; bool sets = true; const Schema * known = 0; /* ignore types and features outside this schema */ };
struct Snap {
  std::vector<std::string> lines; long nodes = 0, strings = 0, refs = 0; std::vector<std::string> views; bool unknown = false; /* something outside SnapOpts::known has a value */
  std::string text() const { std::string s; for (auto & l : lines) { s += l; s += "\n"; } return s; }
  u64 hash() const { return hashStr(text()); }
};
inline std::string firstDiff(const Snap & a, const Snap & b) {
  size_t i = 0; while (i < a.lines.size() && i < b.lines.size() && a.lines[i] == b.lines[i]) ++i;
  if (i == a.lines.size() && i == b.lines.size()) return "";
  auto cut = [](const std::string & x, size_t p) { size_t s = p > 200 ? p - 200 : 0; return x.substr(s, 500); };
  std::string x = i < a.lines.size() ? a.lines[i] : "<end>", y = i < b.lines.size() ? b.lines[i] : "<end>";
  size_t p = 0; while (p < x.size() && p < y.size() && x[p] == y[p]) ++p;
  std::string h = x.substr(0, x.find(' '));
  return h + " line " + std::to_string(i) + " expected: " + cut(x, p) + "  ### got: " + cut(y, p);
}
// name of the first differing part, usable as a stable key: node kind and feature kind
inline std::string diffKey(const Snap & a, const Snap & b) {
  size_t i = 0; while (i < a.lines.size() && i < b.lines.size() && a.lines[i] == b.lines[i]) ++i;
  std::string x = i < a.lines.size() ? a.lines[i] : "", y = i < b.lines.size() ? b.lines[i] : "";
  auto tag = [](const std::string & s) { return s.substr(0, s.find(' ')); };
  if (tag(x) != tag(y)) return "structure";
  return tag(x);
}

class Snapper {
  Schema & s; SnapOpts o; Snap out; CAS * base; std::map<uima::lowlevel::TyFS, int> num; std::vector<FeatureStructure> queue;
  std::map<std::string, std::vector<std::pair<std::string, uima::Feature>>> fcache; std::map<std::string, std::vector<uima::Feature>> ufeats;
  bool isKnown(const std::string & t) { return !o.known || t.compare(0, 5, "uima.") == 0 || o.known->idx(t) >= 0; }
  int ref(const FeatureStructure & f) { if (!f.isValid()) return -1; if (o.known && !isKnown(nameOf(f.getType()))) { out.unknown = true; return -1; } auto a = addr(f); auto it = num.find(a); if (it != num.end()) return it->second; int n = (int) num.size(); num[a] = n; queue.push_back(f); return n; }
  std::string prim(const Val & v, RK k) {
    if (k == R_STRING) { out.strings++; return v.null ? "null" : "'" + u8(v.s) + "'"; }
    if (k == R_FLOAT && asF(v.i) != asF(v.i)) return "NaN"; if (k == R_DOUBLE && asD(v.i) != asD(v.i)) return "NaN"; return show(v, k); }
  const std::vector<std::pair<std::string, uima::Feature>> & feats(const uima::Type & t, const std::string & n) {
    auto it = fcache.find(n); if (it != fcache.end()) return it->second; std::vector<uima::Feature> fs; t.getAppropriateFeatures(fs); auto & v = fcache[n];
    for (auto & f : fs) { std::string fn = utf8(us(f.getName())); if (o.known && o.known->idx(n) >= 0 && !o.known->feat(o.known->idx(n), fn)) { ufeats[n].push_back(f); continue; } v.push_back({ fn, f }); } std::sort(v.begin(), v.end(), [](const std::pair<std::string, uima::Feature> & a, const std::pair<std::string, uima::Feature> & b) { return a.first < b.first; }); return v; }
  RK kind(const uima::Feature & f) { uima::Type r; f.getRangeType(r); if (r.isStringSubType()) return R_STRING; std::string n = nameOf(r); for (int i = 0; i < 8; ++i) if (n == PRIM_TYPE[i]) return (RK) i; return R_REF; }
  std::string sofaName(const FeatureStructure & f) { if (!f.isValid()) return "null"; if (nameOf(f.getType()) != "uima.cas.Sofa") return "NOT-A-SOFA"; return u8(uima::SofaFS(f).getSofaID()); }
public:
  Snapper(Schema & sc, const SnapOpts & op) : s(sc), o(op) {}
  std::string node(FeatureStructure f) {
    std::string t = nameOf(f.getType()); int ok = arrKind(t); std::string l = t;
    if (ok) { size_t n = arrSize(f, ok); l += " size=" + std::to_string(n) + " [";
      for (size_t i = 0; i < n; ++i) { if (ok == O_AFS) { int r = ref(uima::ArrayFS(f).get(i)); out.refs++; l += r < 0 ? "null," : "#" + std::to_string(r) + ","; }
        else { Val v = getElem(f, ok, i); if (o.nullElemAsEmpty && ok == O_ASTR && v.null) v = vStr(UnicodeString()); l += prim(v, ARR_RK[ok]) + ","; } }
      return l + "]"; }
    bool list = t.compare(0, 17, "uima.cas.NonEmpty") == 0;
    const auto & fl = feats(f.getType(), t);
    if (o.known) for (auto & u : ufeats[t]) { RK k = kind(u); if (k == R_REF ? f.getFSValue(u).isValid() : k == R_STRING ? f.getStringValue(u).getBuffer() != 0 : true) out.unknown = true; }
    for (auto & p : fl) { RK k = kind(p.second);
      if (t == "uima.cas.Sofa") { if (p.first == "sofaNum" && !o.sofaNums) continue; }
      if (p.first == "sofa" && k == R_REF) { l += " sofa=" + sofaName(f.getFSValue(p.second)); continue; }
      if (k == R_REF) { int r = ref(f.getFSValue(p.second)); out.refs++; l += " " + p.first + "=" + (r < 0 ? "null" : "#" + std::to_string(r)); }
      else { Val v = getFeat(f, p.second, k); if (list && o.nullElemAsEmpty && k == R_STRING && v.null) v = vStr(UnicodeString()); l += " " + p.first + "=" + prim(v, k); } }
    return l; }
  std::string rootKey(FeatureStructure f) { // unique among indexed FSs of a view by construction of the generator
    std::string t = nameOf(f.getType()); char b[80]; uima::Feature u = f.getType().getFeatureByBaseName("uid"); std::string k = t;
    if (u.isValid()) { snprintf(b, sizeof b, " uid=%010d", f.getIntValue(u)); k += b; }
    uima::Feature bg = f.getType().getFeatureByBaseName("begin"), en = f.getType().getFeatureByBaseName("end");
    if (bg.isValid()) { snprintf(b, sizeof b, " %010d-%010d", f.getIntValue(bg), f.getIntValue(en)); k += b; }
    return k; }
  struct ViewRef { std::string name; CAS * cas; FeatureStructure sofa; };
  std::vector<ViewRef> viewsOf(CAS & any) {
    base = any.getBaseCas(); std::vector<ViewRef> vs; bool init = false; uima::FSIterator it = base->getSofaIterator();
    for (it.moveToFirst(); it.isValid(); it.moveToNext()) { uima::SofaFS sf(it.get()); ViewRef v; v.name = utf8(us(sf.getSofaID())); v.sofa = sf; v.cas = base->getView(sf); if (v.name == CAS::NAME_DEFAULT_SOFA) init = true; vs.push_back(v); }
    if (!init) { ViewRef v; v.name = "<initial>"; v.cas = base->getView(us(CAS::NAME_DEFAULT_SOFA)); vs.push_back(v); }
    std::sort(vs.begin(), vs.end(), [](const ViewRef & a, const ViewRef & b) { return a.name < b.name; }); return vs; }
  Snap take(CAS & any) {
    auto vs = viewsOf(any); std::vector<std::vector<FeatureStructure>> ind(vs.size());
    for (size_t i = 0; i < vs.size(); ++i) { out.views.push_back(vs[i].name);
      if (vs[i].sofa.isValid()) { int n = ref(vs[i].sofa); out.lines.push_back("@sofa " + vs[i].name + " node " + std::to_string(n)); }
      else out.lines.push_back("@nosofa " + vs[i].name);
      std::vector<uima::lowlevel::TyFS> a; vs[i].cas->getLowlevelIndexRepository().getIndexedFSs(a);
      for (auto x : a) ind[i].push_back(uima::internal::FSPromoter::promoteFS(x, *vs[i].cas));
      std::vector<std::pair<std::string, FeatureStructure>> ks; for (auto & f : ind[i]) { if (!isKnown(nameOf(f.getType()))) { out.unknown = true; continue; } ks.push_back({ rootKey(f), f }); }
      std::stable_sort(ks.begin(), ks.end(), [](const std::pair<std::string, FeatureStructure> & x, const std::pair<std::string, FeatureStructure> & y) { return x.first < y.first; });
      std::string l = "@roots " + vs[i].name + " n=" + std::to_string(ks.size()) + ":"; for (auto & k : ks) { l += " [" + k.first + "]=#" + std::to_string(ref(k.second)); } out.lines.push_back(l); }
    for (size_t q = 0; q < queue.size(); ++q) { FeatureStructure f = queue[q]; std::string l = node(f); out.lines.push_back("@node #" + std::to_string(q) + " " + l); out.nodes++; }
    // index contents
    for (size_t i = 0; i < vs.size(); ++i) {
      UnicodeStringRefDoc(vs[i]);
      std::vector<std::pair<std::string, int>> labels; for (auto & d : (o.known ? *o.known : s).indexes) labels.push_back({ d.label, d.kind }); labels.push_back({ "AnnotationIndex", 0 });
      for (auto & d : labels) { uima::FSIndex ix = vs[i].cas->getIndexRepository().getIndex(us(d.first)); std::vector<int> ids; uima::FSIterator it = ix.iterator();
        for (it.moveToFirst(); it.isValid(); it.moveToNext()) { if (!isKnown(nameOf(it.get().getType()))) continue; auto f = num.find(addr(it.get())); ids.push_back(f == num.end() ? -7 : f->second); }
        std::string l = "@index " + vs[i].name + " " + d.first + " n=" + std::to_string(ids.size());
        if (d.second != 1 || o.indexOrder) { if (!o.indexOrder) std::sort(ids.begin(), ids.end()); l += ":"; for (int x : ids) l += " " + std::to_string(x); }
        out.lines.push_back(l); } }
    return out; }
  void UnicodeStringRefDoc(ViewRef & v) { out.lines.push_back("@text " + v.name + " " + u8(us(v.cas->getDocumentText())) + " uri=" + (v.sofa.isValid() ? u8(v.cas->getSofaDataURI()) : "") ); }
};
inline Snap snapshot(Schema & s, CAS & c, const SnapOpts & o = SnapOpts()) { Snapper p(s, o); return p.take(c); }

// ---- generator -------------------------------------------------------------------------------
struct GenOpts {
  int strFlags = S_XML; bool nan = true; bool privateMulti = true;   // features that do not allow multiple references get arrays / lists of their own
  bool views = true; bool sofaArrays = true; bool nullStrElems = true; bool indexedArrays = true; bool cyclicLists = true; int maxFS = 14; bool plainAnnots = true; bool doubleAdd = false; bool crossView = true; bool noSofaView = true;
  bool identNames = false;   // sofa names that survive XML names etc.
};
struct GenCas {
  Schema & s; CAS * base; std::vector<CAS *> views; std::vector<std::string> names; std::vector<FeatureStructure> fs; std::vector<int> ti, vw; std::vector<FeatureStructure> shared; // arrays and list heads that may be shared
  std::vector<std::string> sharedType; long edges = 0, strs = 0, arrs = 0, lists = 0;
  GenCas(Schema & sc) : s(sc), base(0) {}
};
inline FeatureStructure genArr(GenCas & g, Rng & r, const GenOpts & o, int ok, CAS & c) {
  size_t n = r.chance(20) ? 0 : r.chance(4) ? r.range(20, 120) : r.range(1, 6); FeatureStructure a = createArr(c, ok, n); g.arrs++; ValOpts vo; vo.strFlags = o.strFlags; vo.nan = o.nan;
  for (size_t i = 0; i < n; ++i) {
    if (ok == O_AFS) { if (!g.fs.empty() && r.chance(75)) { bool sh = !g.shared.empty() && r.chance(12); uima::ArrayFS(a).set(i, sh ? r.pick(g.shared) : r.pick(g.fs)); g.edges++; } }
    else if (ok == O_ASTR) { if (r.chance(85)) { setElem(a, ok, i, randPrim(r, R_STRING, vo)); g.strs++; } else if (!o.nullStrElems) setElem(a, ok, i, vStr(UnicodeString())); }
    else if (r.chance(80)) setElem(a, ok, i, randPrim(r, ARR_RK[ok], vo)); }
  return a; }
inline FeatureStructure genList(GenCas & g, Rng & r, const GenOpts & o, int lk, CAS & c, FeatureStructure tail, bool cyc) { // lk: 0 FS 1 int 2 float 3 string
  std::string L = LISTS[lk]; uima::Type ne = c.getTypeSystem().getType(us("uima.cas.NonEmpty" + L)), e = c.getTypeSystem().getType(us("uima.cas.Empty" + L));
  uima::Feature h = ne.getFeatureByBaseName("head"), t = ne.getFeatureByBaseName("tail"); ValOpts vo; vo.strFlags = o.strFlags; vo.nan = o.nan; g.lists++;
  FeatureStructure cur = tail.isValid() ? tail : c.createFS(e); int n = r.chance(20) ? 0 : r.range(1, 5); if (r.chance(3)) n = r.range(20, 60); FeatureStructure last;
  for (int i = 0; i < n; ++i) { FeatureStructure x = c.createFS(ne); if (i == 0) last = x; x.setFSValue(t, cur);
    if (lk == 0) { if (!g.fs.empty() && r.chance(80)) { x.setFSValue(h, r.pick(g.fs)); g.edges++; } }
    else if (lk == 1) x.setIntValue(h, (int) randPrim(r, R_INT, vo).i); else if (lk == 2) x.setFloatValue(h, asF(randPrim(r, R_FLOAT, vo).i));
    else { if (r.chance(85)) x.setStringValue(h, randPrim(r, R_STRING, vo).s); else if (!o.nullStrElems) x.setStringValue(h, UnicodeString()); g.strs++; }
    cur = x; }
  if (cyc && last.isValid()) last.setFSValue(t, cur);
  return cur; }
inline FeatureStructure refTarget(GenCas & g, Rng & r, const std::string & range) {
  std::vector<FeatureStructure> c; for (size_t i = 0; i < g.fs.size(); ++i) if (g.s.subsumes(range, g.s.types[g.ti[i]].name)) c.push_back(g.fs[i]);
  if (range == "uima.cas.TOP" && r.chance(30)) for (auto & x : g.shared) c.push_back(x);
  return c.empty() ? FeatureStructure() : c[r.below(c.size())]; }
inline void genCas(GenCas & g, Rng & r, CAS & any, const GenOpts & o) {
  g.base = any.getBaseCas(); Schema & s = g.s; g.views.push_back(g.base->getView(us(CAS::NAME_DEFAULT_SOFA))); g.names.push_back(CAS::NAME_DEFAULT_SOFA);
  int nv = o.views ? (r.chance(40) ? 0 : r.range(1, 3)) : 0;
  for (int i = 0; i < nv; ++i) { std::string n = "view" + std::to_string(i); if (r.chance(30)) n = r.chance(50) ? "Sofa " + std::to_string(i) + ".x" : "\xC3\xA9t" + std::to_string(i); g.names.push_back(n); g.views.push_back(g.base->createView(us(n))); }
  ValOpts vo; vo.strFlags = o.strFlags; vo.nan = o.nan;
  auto sofaData = [&](size_t v) { CAS & c = *g.views[v]; int k = r.range(0, 9); op("sofa data kind " + std::to_string(k) + " in " + g.names[v]);
    if (k < 5) { UnicodeString t = randString(r, o.strFlags, 60); c.setDocumentText(uima::UnicodeStringRef(t)); if (r.chance(40)) c.getDocumentAnnotation().setLanguage(uima::Language(r.chance(50) ? "en" : "de-DE")); }
    else if (k == 5) { UnicodeString u = us("file:///x/" + std::to_string(r.below(99)) + (r.chance(50) ? " &<\"" : "")), m = us("text/plain"); c.setSofaDataURI(u, m); }
    else if (k == 6 && o.sofaArrays) { int ok = r.range(2, 9); if (ok == O_ASTR) ok = O_ABYTE; FeatureStructure a = genArr(g, r, o, ok, c); UnicodeString m = us("application/x"); c.setSofaDataArray(a, m); }
    else if (k == 7) { UnicodeString t = randString(r, o.strFlags, 60); UnicodeString m = us("text/html"); c.setSofaDataString(uima::UnicodeStringRef(t), m); } };
  std::vector<size_t> late; for (size_t v = 0; v < g.views.size(); ++v) { if (v == 0 && !o.noSofaView) { UnicodeString t = us("text"); g.views[0]->setDocumentText(uima::UnicodeStringRef(t)); } else if (r.chance(80)) sofaData(v); else late.push_back(v); }
  int n = r.chance(8) ? 0 : r.range(1, o.maxFS); int uid = 1;
  for (int i = 0; i < n; ++i) { int t = s.fsTypes[r.below(s.fsTypes.size())]; size_t v = r.below(g.views.size()); CAS & c = *g.views[v]; FeatureStructure f;
    if (s.subsumes("uima.tcas.Annotation", s.types[t].name)) { int b = r.range(0, 30); f = c.createAnnotation(s.types[t].t, b, b + r.range(0, 20)); } else f = c.createFS(s.types[t].t);
    f.setIntValue(s.feat(t, "uid")->f, uid++); g.fs.push_back(f); g.ti.push_back(t); g.vw.push_back((int) v); }
  // shared arrays and lists
  int ns = r.range(0, 5); for (int i = 0; i < ns; ++i) { CAS & c = *g.views[r.below(g.views.size())]; FeatureStructure x;
    if (r.chance(55)) { int ok = r.range(1, 9); x = genArr(g, r, o, ok, c); g.sharedType.push_back(ARR_TYPE[ok]); }
    else { int lk = (int) r.below(4); FeatureStructure tail; if (r.chance(40)) for (size_t k = 0; k < g.shared.size(); ++k) if (g.sharedType[k] == std::string("uima.cas.") + LISTS[lk]) tail = g.shared[k]; x = genList(g, r, o, lk, c, tail, o.cyclicLists && r.chance(10)); g.sharedType.push_back(std::string("uima.cas.") + LISTS[lk]); }
    g.shared.push_back(x); }
  for (size_t i = 0; i < g.fs.size(); ++i) { CAS & c = *g.views[g.vw[i]];
    for (auto f : s.feats(g.ti[i])) { if (f->name == "sofa" || f->name == "begin" || f->name == "end" || f->name == "uid" || !r.chance(70)) continue;
      if (f->kind == R_STRING) { int t = s.idx(f->range); if (t >= 0 && s.types[t].stringSub) g.fs[i].setStringValue(f->f, r.pick(s.types[t].allowed)); else setFeat(g.fs[i], f->f, R_STRING, randPrim(r, R_STRING, vo)); g.strs++; }
      else if (f->kind != R_REF) setFeat(g.fs[i], f->f, f->kind, randPrim(r, f->kind, vo));
      else { int ok = arrKind(f->range); int lk = -1; for (int k = 0; k < 4; ++k) if (f->range == std::string("uima.cas.") + LISTS[k]) lk = k; FeatureStructure x;
        if (ok || lk >= 0) { bool mayShare = f->multi || !o.privateMulti;
          if (mayShare && r.chance(60)) { std::vector<FeatureStructure> cand; for (size_t k = 0; k < g.shared.size(); ++k) if (g.sharedType[k] == f->range) cand.push_back(g.shared[k]); if (!cand.empty()) x = r.pick(cand); }
          if (!x.isValid()) { if (ok) x = genArr(g, r, o, ok, c); else x = genList(g, r, o, lk, c, FeatureStructure(), mayShare && o.cyclicLists && r.chance(6)); if (mayShare && r.chance(30)) { g.shared.push_back(x); g.sharedType.push_back(f->range); } } }
        else x = refTarget(g, r, f->range);
        if (x.isValid()) { g.fs[i].setFSValue(f->f, x); g.edges++; } } } }
  for (size_t v : late) if (r.chance(50)) sofaData(v);
  // indexing
  for (size_t i = 0; i < g.fs.size(); ++i) { bool ann = s.subsumes("uima.tcas.Annotation", s.types[g.ti[i]].name);
    if (r.chance(70)) { g.views[g.vw[i]]->getIndexRepository().addFS(g.fs[i]); if (o.doubleAdd && r.chance(10)) g.views[g.vw[i]]->getIndexRepository().addFS(g.fs[i]); }
    if (o.crossView && !ann && g.views.size() > 1 && r.chance(15)) { size_t v = r.below(g.views.size()); if ((int) v != g.vw[i]) g.views[v]->getIndexRepository().addFS(g.fs[i]); } }
  if (o.indexedArrays && r.chance(35)) { std::set<std::string> done; for (size_t k = 0; k < g.shared.size(); ++k) { std::string t = nameOf(g.shared[k].getType()); if (arrKind(t) && r.chance(50) && done.insert(t).second) g.views[r.below(g.views.size())]->getIndexRepository().addFS(g.shared[k]); } }
}
} // namespace vp
