// I01 / I02 / I03: index contents, index order and navigation, derived iterators; compared with a model of every view.
#include "cas.hpp"
#include "uima/fsfilterbuilder.hpp"
using namespace vp; using namespace uima;
typedef lowlevel::TyFS TyFS;

struct Obj { int ti; int view; FeatureStructure fs; TyFS a; std::map<std::string, Val> v; };
struct VView { CAS * cas; std::string name; std::vector<int> added; /* multiset of object numbers in order of addition */ std::map<std::string, std::map<std::string, std::vector<int>>> setRep; /* label -> exact type -> kept */ };
struct World {
  Schema s; std::unique_ptr<Env> env; std::unique_ptr<CAS> cas; std::vector<VView> views; std::vector<Obj> o; std::map<TyFS, int> byAddr;
  lowlevel::TypeSystem const * lts = 0; IndexDef annIdx;
  std::vector<IndexDef> all;    // user indexes and the annotation index
  const std::string & tn(int i) const { return s.types[o[i].ti].name; }
};
static Val get(World & w, int i, const FeatDef & f) { auto it = w.o[i].v.find(f.name); if (it != w.o[i].v.end()) return it->second; return f.kind == R_STRING ? Val() : vInt(0); }
static int cmp3(bool l, bool g) { return l ? -1 : g ? 1 : 0; }
// -1: i is ordered before j, 0: equal keys
static int cmpKeys(World & w, const IndexDef & d, int i, int j) {
  int it = w.s.idx(d.type);
  for (auto & k : d.keys) { int c;
    if (k.first.empty()) { if (w.o[i].ti == w.o[j].ti) c = 0; else c = w.lts->hasPriorityOver(internal::FSPromoter::demoteType(w.s.types[w.o[i].ti].t), internal::FSPromoter::demoteType(w.s.types[w.o[j].ti].t)) ? -1 : 1; }
    else { const FeatDef * f = w.s.feat(it, k.first); Val a = get(w, i, *f), b = get(w, j, *f);
      switch (f->kind) {
        case R_STRING: { int n = std::min(a.s.length(), b.s.length()); c = 0; for (int x = 0; x < n && !c; ++x) c = cmp3(a.s[x] < b.s[x], a.s[x] > b.s[x]); if (!c) c = cmp3(a.s.length() < b.s.length(), a.s.length() > b.s.length()); break; }
        case R_FLOAT: { float x = asF(a.i), y = asF(b.i); c = cmp3(x < y || (x == x && y != y), x > y || (x != x && y == y)); break; }
        case R_DOUBLE: { double x = asD(a.i), y = asD(b.i); c = cmp3(x < y || (x == x && y != y), x > y || (x != x && y == y)); break; }
        default: c = cmp3(a.i < b.i, a.i > b.i); } }
    if (k.second) c = -c;
    if (c) return c; }
  return 0;
}
static Val keyVal(Rng & r, const World & w, const FeatDef & f) {
  if (f.kind == R_STRING) { int t = w.s.idx(f.range); if (t >= 0 && w.s.types[t].stringSub) return vStr(w.s.types[t].allowed[r.below(w.s.types[t].allowed.size())]);
    static const char * p[] = { "", "a", "ab", "b", "aa", "\xC3\xA9", "\xF0\x9F\x98\x80", "\xEF\xBF\xBD" }; return r.chance(85) ? vStr(us(p[r.below(8)])) : vStr(randString(r, S_XML, 8)); }
  if (f.kind == R_INT) { static const i64 p[] = { 0, 1, 2, -1, INT32_MAX, INT32_MIN }; return vInt(r.chance(70) ? p[r.below(3)] : p[r.below(6)]); }
  if (f.kind == R_FLOAT) { static const float p[] = { 0.f, -0.f, 1.5f, -1.5f, INFINITY, -INFINITY, NAN, 1e-40f }; return vInt(fbits(p[r.chance(70) ? r.below(4) : r.below(8)])); }
  if (f.kind == R_DOUBLE) { static const double p[] = { 0., -0., 1.5, -1.5, INFINITY, -INFINITY, NAN, 4e9 }; return vInt(dbits(p[r.chance(70) ? r.below(4) : r.below(8)])); }
  if (f.kind == R_LONG) { static const i64 p[] = { 0, 1, -1, 1ll << 32, -(1ll << 32), INT64_MAX, INT64_MIN, (1ll << 32) + 1 }; return vInt(p[r.below(8)]); }
  if (f.kind == R_BOOL) return vInt(r.below(2)); if (f.kind == R_BYTE) return vInt(r.chance(50) ? r.range(-1, 1) : r.range(-128, 127)); return vInt(r.chance(50) ? r.range(-1, 1) : r.range(-32768, 32767));
}
static void fill(World & w, Rng & r, int i) { Obj & x = w.o[i];
  for (auto f : w.s.feats(x.ti)) { if (f->kind == R_REF) continue; if (f->name == "begin" || f->name == "end") continue; if (!r.chance(75)) continue; Val v = keyVal(r, w, *f); setFeat(x.fs, f->f, f->kind, v); x.v[f->name] = v; } }
static bool isAnn(World & w, int ti) { return w.s.subsumes("uima.tcas.Annotation", w.s.types[ti].name); }
static int newObj(World & w, Rng & r, bool annOnly) {
  Obj x; x.ti = annOnly ? w.s.annTypes[r.below(w.s.annTypes.size())] : w.s.fsTypes[r.below(w.s.fsTypes.size())]; x.view = (int) r.below(w.views.size()); CAS * c = w.views[x.view].cas;
  if (isAnn(w, x.ti)) { if (r.chance(10)) x.ti = w.s.idx("uima.tcas.Annotation"); int b = r.range(0, r.chance(80) ? 12 : 60), e = r.chance(90) ? b + r.range(0, 8) : r.range(0, 40); x.fs = c->createAnnotation(w.s.types[x.ti].t, b, e); x.v["begin"] = vInt(b); x.v["end"] = vInt(e); }
  else x.fs = c->createFS(w.s.types[x.ti].t);
  x.a = addr(x.fs); w.o.push_back(x); int i = (int) w.o.size() - 1;
  if (!w.byAddr.insert({ x.a, i }).second) violation("objects-share-identity", "new object has the address of another");
  fill(w, r, i); return i;
}
static void makeWorld(World & w, Rng & r, bool annHeavy) {
  SchemaOpts o; o.arrays = false; o.lists = false; o.maxTypes = 9; o.maxFeats = 4; o.dblIndexKeys = true; w.s = genSchema(r, o);
  if (r.chance(40)) w.s.indexes.erase(w.s.indexes.begin());   // types without any index
  if (annHeavy && r.chance(60)) { IndexDef d; d.label = "AnnSet"; d.type = "v.Anno"; d.kind = r.range(0, 1); d.keys = { { "begin", false }, { "end", r.chance(50) } }; if (r.chance(50)) d.keys.push_back({ "", false }); w.s.indexes.push_back(d); }
  { TypeDef t; t.name = "uima.tcas.DocumentAnnotation"; t.super = "uima.tcas.Annotation"; t.builtin = true; t.own.push_back(mkFeat("language", "uima.cas.String", R_STRING)); w.s.add(t); }
  w.env.reset(new Env(w.s)); w.cas.reset(w.env->newCAS());
  w.lts = internal::FSPromoter::getTypeSystem(w.s.types[w.s.idx("v.Base")].t);
  w.annIdx.label = "AnnotationIndex"; w.annIdx.type = "uima.tcas.Annotation"; w.annIdx.kind = 0; w.annIdx.keys = { { "begin", false }, { "end", true }, { "", false } };
  w.all = w.s.indexes; w.all.push_back(w.annIdx);
  int nv = r.range(1, 3);
  for (int i = 0; i < nv; ++i) { VView v; v.name = "view" + std::to_string(i); v.cas = w.cas->createView(us(v.name)); w.views.push_back(v); }
  // type priorities: a total order that keeps the declared chains
  std::vector<std::string> names; for (int t : w.s.fsTypes) names.push_back(w.s.types[t].name); names.push_back("uima.tcas.Annotation"); names.push_back("uima.tcas.DocumentAnnotation");
  auto prio = [&](const std::string & a, const std::string & b) { return w.lts->hasPriorityOver(internal::FSPromoter::demoteType(w.s.types[w.s.idx(a)].t), internal::FSPromoter::demoteType(w.s.types[w.s.idx(b)].t)); };
  for (auto & a : names) for (auto & b : names) { if (a == b) continue; count("evals"); if (prio(a, b) == prio(b, a)) violation("priority-not-total", a + " vs " + b); for (auto & c : names) if (c != a && c != b && prio(a, b) && prio(b, c) && !prio(a, c)) violation("priority-not-transitive", a + " " + b + " " + c); }
  for (auto & ch : w.s.priorities) for (size_t i = 0; i < ch.size(); ++i) for (size_t j = i + 1; j < ch.size(); ++j) if (!prio(ch[i], ch[j])) violation("priority-ignored", ch[i] + " is declared before " + ch[j]);
}
static const std::string & setType(World & w, int i) { return w.tn(i); }
static void modelAdd(World & w, int v, int i) { VView & V = w.views[v]; V.added.push_back(i);
  for (auto & d : w.all) if (d.kind == 1 && w.s.subsumes(d.type, w.tn(i))) { auto & rep = V.setRep[d.label][setType(w, i)]; bool dup = false; for (int k : rep) if (cmpKeys(w, d, i, k) == 0) dup = true; if (!dup) rep.push_back(i); else count("set_duplicates"); } }
static bool modelRemove(World & w, int v, int i) { VView & V = w.views[v]; auto it = std::find(V.added.begin(), V.added.end(), i); bool was = it != V.added.end(); if (was) V.added.erase(it);
  for (auto & d : w.all) if (d.kind == 1) { auto & rep = V.setRep[d.label][setType(w, i)]; auto k = std::find(rep.begin(), rep.end(), i); if (k != rep.end()) rep.erase(k); }
  return was; }
static std::vector<int> expected(World & w, int v, const IndexDef & d, const std::string & type) { std::vector<int> e; VView & V = w.views[v];
  if (d.kind == 1) { for (auto & p : V.setRep[d.label]) if (w.s.subsumes(type, p.first)) for (int i : p.second) e.push_back(i); }
  else for (int i : V.added) if (w.s.subsumes(d.type, w.tn(i)) && w.s.subsumes(type, w.tn(i))) e.push_back(i);
  return e; }
static std::string who(World & w, TyFS a) { auto it = w.byAddr.find(a); if (it == w.byAddr.end()) return "unknown@" + std::to_string((long) a); int i = it->second; std::string s = "#" + std::to_string(i) + ":" + w.tn(i); if (isAnn(w, w.o[i].ti)) s += "[" + std::to_string((long) w.o[i].v["begin"].i) + "," + std::to_string((long) w.o[i].v["end"].i) + ")"; return s; }
static std::string showSeq(World & w, const std::vector<TyFS> & s) { std::string o; for (size_t i = 0; i < s.size() && i < 40; ++i) o += who(w, s[i]) + " "; return o; }
static std::vector<TyFS> walk(FSIterator it, size_t limit, bool back = false) { std::vector<TyFS> o; if (back) it.moveToLast(); else it.moveToFirst(); while (it.isValid() && o.size() <= limit) { o.push_back(addr(it.get())); if (back) it.moveToPrevious(); else it.moveToNext(); } return o; }

struct Seq { std::vector<TyFS> a; std::vector<int> id; };
// Contents (and for sorted indexes the order) of one index; returns the sequence.
static Seq checkIndex(World & w, int v, const IndexDef & d, const std::string & type, const char * when) {
  VView & V = w.views[v]; std::string at = std::string(when) + ": " + V.name + "/" + d.label + "<" + type + ">"; Seq q;
  FSIndex ix = V.cas->getIndexRepository().getIndex(us(d.label), w.s.types[w.s.idx(type)].t);
  std::vector<int> e = expected(w, v, d, type); count("evals"); count("index_checks");
  q.a = walk(ix.iterator(), e.size() + 50);
  std::vector<TyFS> ee; for (int i : e) ee.push_back(w.o[i].a); std::sort(ee.begin(), ee.end()); std::vector<TyFS> gg = q.a; std::sort(gg.begin(), gg.end());
  static const char * K[] = { "sorted", "set", "bag" };
  if (ee != gg) violation(std::string("content-") + K[d.kind], at + " enumerates { " + showSeq(w, q.a) + "} expected { " + showSeq(w, ee) + "}");
  if (ix.getSize() != q.a.size()) violation("size", at + " size " + std::to_string(ix.getSize()) + " enumerated " + std::to_string(q.a.size()));
  u64 h = hashStr(d.label + type) + d.kind;
  for (TyFS a : q.a) { auto it = w.byAddr.find(a); if (it == w.byAddr.end()) { q.id.clear(); return q; } q.id.push_back(it->second); h = mix(h, hashStr(w.tn(it->second)) + (u64) w.o[it->second].v["begin"].i * 31); }
  if (q.a.size() > 1) seen(h);
  if (d.kind == 0) for (size_t i = 0; i + 1 < q.id.size(); ++i) { count("order_checks"); if (cmpKeys(w, d, q.id[i], q.id[i + 1]) > 0) { violation("order", at + " " + who(w, q.a[i]) + " before " + who(w, q.a[i + 1]) + " in " + showSeq(w, q.a)); break; } }
  if (d.kind == 1) for (size_t i = 0; i + 1 < q.id.size(); ++i) for (size_t j = i + 1; j < q.id.size(); ++j) if (w.o[q.id[i]].ti == w.o[q.id[j]].ti && cmpKeys(w, d, q.id[i], q.id[j]) == 0) violation("set-equal-elements", at + " holds equal " + who(w, q.a[i]) + " and " + who(w, q.a[j]));
  return q;
}
static void checkFind(World & w, int v, const IndexDef & d, const std::string & type, const Seq & q, int probe) {
  if (!w.s.subsumes(type, w.tn(probe))) return; count("evals"); count("finds");
  FSIndex ix = w.views[v].cas->getIndexRepository().getIndex(us(d.label), w.s.types[w.s.idx(type)].t);
  FeatureStructure f = ix.find(w.o[probe].fs); std::string at = w.views[v].name + "/" + d.label + "<" + type + "> find " + who(w, w.o[probe].a);
  bool any = false; for (int i : q.id) if (d.kind == 2 ? i == probe : cmpKeys(w, d, i, probe) == 0) any = true;
  if (f.isValid() != any) { violation("find", at + (any ? " finds nothing" : " finds " + who(w, addr(f))) + " in " + showSeq(w, q.a)); return; }
  if (any) { TyFS a = addr(f); if (std::find(q.a.begin(), q.a.end(), a) == q.a.end()) violation("find-foreign", at + " returns " + who(w, a) + " which is not in the index"); else { int i = w.byAddr[a]; if (d.kind == 2 ? i != probe : cmpKeys(w, d, i, probe) != 0) violation("find-unequal", at + " returns " + who(w, a)); } }
}
static std::vector<std::string> subTypes(World & w, const std::string & t) { std::vector<std::string> o; for (auto & d : w.s.types) if (!d.stringSub && w.s.subsumes(t, d.name) && (d.name.compare(0, 9, "uima.cas.") || d.name == "uima.cas.AnnotationBase")) o.push_back(d.name); return o; }
static void checkWorld(World & w, Rng & r, const char * when, bool all) {
  for (size_t v = 0; v < w.views.size(); ++v) {
    for (auto & d : w.all) { auto st = subTypes(w, d.type); for (auto & t : st) { if (t != d.type && !all && !r.chance(40)) continue; Seq q = checkIndex(w, (int) v, d, t, when); if (!w.o.empty() && r.chance(40)) checkFind(w, (int) v, d, t, q, (int) r.below(w.o.size())); } }
    // the feature structures the view holds in any index
    std::set<TyFS> want; for (int i : w.views[v].added) { bool anyIdx = false, kept = false; for (auto & d : w.all) if (w.s.subsumes(d.type, w.tn(i))) { anyIdx = true; if (d.kind != 1) kept = true; else { auto & rep = w.views[v].setRep[d.label][w.tn(i)]; if (std::find(rep.begin(), rep.end(), i) != rep.end()) kept = true; } } if (!anyIdx || kept) want.insert(w.o[i].a); }
    std::vector<TyFS> got; w.views[v].cas->getLowlevelIndexRepository().getIndexedFSs(got); std::vector<TyFS> g2; for (TyFS a : got) if (w.byAddr.count(a)) g2.push_back(a); else if (w.lts->getTypeName(internal::FSPromoter::getFSHeap(*w.cas)->getType(a)) != icu::UnicodeString("uima.cas.Sofa")) violation("indexed-unknown", "getIndexedFSs returns something unknown");
    std::sort(g2.begin(), g2.end()); std::vector<TyFS> ws(want.begin(), want.end()); count("evals");
    if (g2 != ws) violation("indexed-fss", std::string(when) + ": " + w.views[v].name + " getIndexedFSs { " + showSeq(w, g2) + "} expected { " + showSeq(w, ws) + "}");
  }
}
static void step(World & w, Rng & r, bool annHeavy, bool dupAdds) {
  int k = r.range(0, 99);
  if (k < 35 || w.o.empty()) { int i = newObj(w, r, annHeavy && r.chance(80)); op("new " + who(w, w.o[i].a)); if (r.chance(85)) { int v = w.o[i].view; if (!isAnn(w, w.o[i].ti)) v = (int) r.below(w.views.size()); w.views[v].cas->getIndexRepository().addFS(w.o[i].fs); modelAdd(w, v, i); op("add to " + w.views[v].name); count("adds"); } return; }
  int i = (int) r.below(w.o.size()); int v = isAnn(w, w.o[i].ti) ? w.o[i].view : (int) r.below(w.views.size()); VView & V = w.views[v];
  bool in = std::find(V.added.begin(), V.added.end(), i) != V.added.end();
  if (k < 60) { if (in && !dupAdds) return; op("add " + who(w, w.o[i].a) + " to " + V.name + (in ? " again" : "")); V.cas->getIndexRepository().addFS(w.o[i].fs); modelAdd(w, v, i); count("adds"); }
  else if (k < 85) { op("remove " + who(w, w.o[i].a) + " from " + V.name + (in ? "" : " (absent)")); V.cas->getIndexRepository().removeFS(w.o[i].fs); modelRemove(w, v, i); count(in ? "removes" : "removes_absent"); }
  else { // take it out of every index of every view, change it, put it back
    std::vector<std::pair<int, int>> had; for (size_t x = 0; x < w.views.size(); ++x) { int n = (int) std::count(w.views[x].added.begin(), w.views[x].added.end(), i); for (int y = 0; y < n; ++y) { w.views[x].cas->getIndexRepository().removeFS(w.o[i].fs); modelRemove(w, (int) x, i); } if (n) had.push_back({ (int) x, n }); }
    // set indexes drop an element with the first removal; the others are gone as well now
    fill(w, r, i); if (isAnn(w, w.o[i].ti) && r.chance(60)) { auto T = w.s.idx("uima.tcas.Annotation"); int b = r.range(0, 12), e = b + r.range(0, 6); setFeat(w.o[i].fs, w.s.feat(T, "begin")->f, R_INT, vInt(b)); setFeat(w.o[i].fs, w.s.feat(T, "end")->f, R_INT, vInt(e)); w.o[i].v["begin"] = vInt(b); w.o[i].v["end"] = vInt(e); }
    op("reindex " + who(w, w.o[i].a)); for (auto & p : had) for (int y = 0; y < p.second; ++y) { w.views[p.first].cas->getIndexRepository().addFS(w.o[i].fs); modelAdd(w, p.first, i); } count("reindexes"); }
}
static void illegal(World & w, Rng & r) { // requests that have no meaning
  count("evals"); FSIndexRepository & ir = w.views[0].cas->getIndexRepository();
  std::string o = outcome([&] { ir.getIndex(us("NoSuchIndex")); }); if (!isUima(o)) violation("unknown-index-accepted", o);
  auto & d = r.pick(w.all); auto & t = w.s.types[w.s.fsTypes[r.below(w.s.fsTypes.size())]];
  o = outcome([&] { ir.getIndex(us(d.label), t.t); }); bool legal = w.s.subsumes(d.type, t.name); if (legal ? o != "ok" : !isUima(o)) violation("index-type-check", d.label + " over " + d.type + " requested for " + t.name + ": " + o);
  o = outcome([&] { ir.addFS(FeatureStructure()); }); if (!isUima(o)) violation("invalid-fs-indexed", o);
  o = outcome([&] { ir.removeFS(FeatureStructure()); }); if (!isUima(o)) violation("invalid-fs-removed", o);
  o = outcome([&] { ir.getIndex(us(d.label)).find(FeatureStructure()); }); if (!isUima(o)) violation("invalid-fs-found", o);
  o = outcome([&] { FSIndex().getSize(); }); if (!isUima(o)) violation("invalid-index-used", o);
  auto ids = ir.getAllIndexIDs(); for (auto & x : w.all) { bool f = false; for (auto & id : ids) if (id == us(x.label)) f = true; if (!f || !ir.isValidIndexID(us(x.label))) violation("index-missing", x.label); if (nameOf(ir.getTypeForIndex(us(x.label))) != x.type) violation("index-type", x.label); }
}
static void modeIndex(Rng & r, Args & a) {
  World w; makeWorld(w, r, r.chance(40)); bool ah = r.chance(30), dup = r.chance(50); int n = r.range(10, a.thorough ? 220 : 90);
  for (int k = 0; k < n; ++k) { step(w, r, ah, dup); if (r.chance(12)) checkWorld(w, r, "during", false); if (r.chance(3)) illegal(w, r);
    if (r.chance(1)) { int v = (int) r.below(w.views.size()); if (r.chance(50)) { w.views[v].cas->getLowlevelIndexRepository().reset(); w.views[v].added.clear(); w.views[v].setRep.clear(); op("reset " + w.views[v].name); count("view_index_resets"); } } }
  checkWorld(w, r, "end", true); illegal(w, r);
  // the heap iterator: everything ever created, in order of creation
  if (r.chance(50)) { std::vector<TyFS> got; FSIterator it = w.cas->iterator(); for (it.moveToFirst(); it.isValid() && got.size() < 100000; it.moveToNext()) got.push_back(addr(it.get())); std::vector<TyFS> g2; for (auto x : got) if (w.byAddr.count(x)) g2.push_back(x); std::vector<TyFS> want; for (auto & p : w.byAddr) want.push_back(p.first); count("evals"); if (g2 != want) violation("heap-iterator", "yields " + std::to_string(g2.size()) + " of " + std::to_string(want.size())); }
  sample("views=" + std::to_string(w.views.size()) + " objects=" + std::to_string(w.o.size()) + " indexes=" + std::to_string(w.all.size()) + " types=" + std::to_string(w.s.types.size()));
}

// ---- navigation --------------------------------------------------------------------------------
// Random walk of an iterator against the sequence E. canBack: moveToLast/moveToPrevious are defined.
// loBound: for moveTo of something that is not in E: returns allowed positions [lo,hi] (n = none), or lo>hi = anything
struct Nav { std::string what; std::vector<TyFS> E; bool canBack = true; bool canMoveTo = true; std::function<std::pair<int, int>(int)> bound; bool clampOnFail = true; };
static void navigate(World & w, Rng & r, FSIterator it, const Nav & N, const std::vector<int> & probes, int steps) {
  int n = (int) N.E.size(); int pos; std::string log;
  auto bad = [&](const std::string & k, const std::string & d) { violation("nav-" + k, N.what + ": " + d + " after " + log + " over " + showSeq(w, N.E)); };
  auto check = [&](const char * k) -> bool { count("evals"); count("nav_checks"); bool v = pos >= 0 && pos < n; if (it.isValid() != v) { bad(k, std::string("validity is ") + (it.isValid() ? "true at " + who(w, addr(it.get())) : "false") + " expected position " + std::to_string(pos) + " of " + std::to_string(n)); return false; } if (v && addr(it.get()) != N.E[pos]) { bad(k, "at " + who(w, addr(it.get())) + " expected " + who(w, N.E[pos])); return false; } return true; };
  pos = n ? 0 : -1; if (!check("initial")) return;
  std::vector<std::pair<FSIterator, int>> clones; u64 h = hashStr(N.what);
  for (int s = 0; s < steps; ++s) {
    int k = r.range(0, 99); bool v = pos >= 0 && pos < n; const char * nm = "?";
    if (k < 25) { if (!v) continue; nm = "next"; log += "N "; it.moveToNext(); pos++; if (pos >= n) pos = -1; }
    else if (k < 45) { if (!v || !N.canBack) continue; nm = "previous"; log += "P "; it.moveToPrevious(); pos--; }
    else if (k < 52) { nm = "first"; log += "F "; it.moveToFirst(); pos = n ? 0 : -1; }
    else if (k < 60) { if (!N.canBack) continue; nm = "last"; log += "L "; it.moveToLast(); pos = n - 1; }
    else if (k < 80) { if (!N.canMoveTo || probes.empty()) continue; nm = "moveTo"; int p = probes[r.below(probes.size())]; TyFS pa = w.o[p].a; log += "M(" + who(w, pa) + ") "; count("movetos"); it.moveTo(w.o[p].fs);
      auto f = std::find(N.E.begin(), N.E.end(), pa); int was = pos;
      if (f != N.E.end()) { // any occurrence of it
        if (!it.isValid() || addr(it.get()) != pa) { bad("moveTo", "moving to a contained element ends at " + (it.isValid() ? who(w, addr(it.get())) : std::string("invalid"))); return; }
        if (std::count(N.E.begin(), N.E.end(), pa) > 1) { it.moveToFirst(); pos = 0; log += "F "; } else pos = (int) (f - N.E.begin()); }
      else { std::pair<int, int> b = N.bound ? N.bound(p) : std::make_pair(1, 0);
        if (b.first > b.second) { it.moveToFirst(); pos = n ? 0 : -1; log += "F "; }      // not specified
        else if (b.first >= n) { // nothing is not less: invalid or where it was
          if (it.isValid()) { bool ok = was >= 0 && was < n && addr(it.get()) == N.E[was]; if (!ok) { bad("moveTo-none", "nothing is not less, but the iterator is at " + who(w, addr(it.get()))); return; } pos = was; } else pos = -1; }
        else { if (!it.isValid()) { bool may = b.second >= n; if (!may) { bad("moveTo", "invalid, expected a position in [" + std::to_string(b.first) + "," + std::to_string(b.second) + "]"); return; } pos = -1; }
          else { TyFS g = addr(it.get()); int at = -1; for (int x = b.first; x <= b.second && x < n; ++x) if (N.E[x] == g) { at = x; break; } if (at < 0) { bad("moveTo", "at " + who(w, g) + " expected a position in [" + std::to_string(b.first) + "," + std::to_string(b.second) + "]"); return; } if (std::count(N.E.begin(), N.E.end(), g) > 1) { it.moveToFirst(); pos = 0; } else pos = at; } } } }
    else if (k < 85) { nm = "clone"; log += "C "; if (clones.size() < 3) clones.push_back({ FSIterator(it), pos }); else { FSIterator t; t = it; it = t; } }
    else if (k < 90) { if (clones.empty()) continue; nm = "assign"; log += "A "; auto & c = clones[r.below(clones.size())]; it = c.first; pos = c.second; }
    else if (k < 95) { if (!v) continue; nm = "peekNext"; FeatureStructure f = it.peekNext(); count("evals"); bool e = pos + 1 < n; if (f.isValid() != e || (e && addr(f) != N.E[pos + 1])) { bad("peekNext", "wrong"); return; } }
    else { if (!v || !N.canBack) continue; nm = "peekPrevious"; FeatureStructure f = it.peekPrevious(); count("evals"); bool e = pos > 0; if (f.isValid() != e || (e && addr(f) != N.E[pos - 1])) { bad("peekPrevious", "wrong"); return; } }
    h = mix(h, (u64) pos * 100 + k);
    if (!check(nm)) return;
  }
  for (auto & c : clones) { count("evals"); bool v = c.second >= 0 && c.second < n; if (c.first.isValid() != v || (v && addr(c.first.get()) != N.E[c.second])) bad("clone", "a clone moved"); }
  if (n > 1) seen(h);
}
static std::function<std::pair<int, int>(int)> boundFor(World & w, const IndexDef & d, const std::vector<int> & ids, bool composite, bool derived) {
  if (d.kind == 2 || (d.kind == 1 && composite)) return [](int) { return std::make_pair(1, 0); };
  return [&w, &d, ids, derived](int p) { int n = (int) ids.size(), lo = n, hi = n; for (int i = n; i-- > 0; ) if (cmpKeys(w, d, ids[i], p) >= 0) lo = i; for (int i = n; i-- > 0; ) if (cmpKeys(w, d, ids[i], p) > 0) hi = i; return derived ? std::make_pair(lo, hi) : std::make_pair(lo, lo); };
}
static void buildWorld(World & w, Rng & r, bool ah, bool dup, int n) { makeWorld(w, r, ah); for (int k = 0; k < n; ++k) step(w, r, ah, dup); 
  for (size_t v = 0; v < w.views.size(); ++v) if (r.chance(30)) { w.views[v].cas->setDocumentText(UnicodeStringRef(us("some document text that is long enough for all annotations of this view ............"))); AnnotationFS da = w.views[v].cas->getDocumentAnnotation(); Obj x; x.ti = w.s.idx("uima.tcas.DocumentAnnotation"); x.view = (int) v; x.fs = da; x.a = addr(da); x.v["begin"] = vInt(da.getBeginPosition()); x.v["end"] = vInt(da.getEndPosition()); x.v["language"] = vStr(us("x-unspecified")); if (w.byAddr.count(x.a)) continue; w.o.push_back(x); w.byAddr[x.a] = (int) w.o.size() - 1; modelAdd(w, (int) v, (int) w.o.size() - 1); } }
static std::vector<int> probesFor(World & w, const std::string & type) { std::vector<int> p; for (size_t i = 0; i < w.o.size(); ++i) if (w.s.subsumes(type, w.tn((int) i))) p.push_back((int) i); return p; }
static void modeIter(Rng & r, Args & a) {
  World w; bool ah = r.chance(50); buildWorld(w, r, ah, r.chance(40), r.range(0, a.thorough ? 120 : 60));
  for (size_t v = 0; v < w.views.size(); ++v) for (auto & d : w.all) { auto st = subTypes(w, d.type);
    for (auto & t : st) { if (t != d.type && !r.chance(35)) continue;
      Seq q = checkIndex(w, (int) v, d, t, "iter"); if (q.id.size() != q.a.size()) continue;
      FSIndex ix = w.views[v].cas->getIndexRepository().getIndex(us(d.label), w.s.types[w.s.idx(t)].t);
      std::vector<TyFS> back = walk(ix.iterator(), q.a.size() + 5, true); std::reverse(back.begin(), back.end()); count("evals"); if (back != q.a) violation("backward", w.views[v].name + "/" + d.label + "<" + t + "> backward is " + showSeq(w, back) + " forward is " + showSeq(w, q.a));
      bool comp = subTypes(w, t).size() > 1;
      auto probes = probesFor(w, t); Nav N; N.what = d.label + "<" + t + ">"; N.E = q.a; N.bound = boundFor(w, d, q.id, comp, false); navigate(w, r, ix.iterator(), N, probes, r.range(5, 40));
      if (!w.o.empty()) checkFind(w, (int) v, d, t, q, (int) r.below(w.o.size()));
      // type sets (exact types)
      std::set<Type> ts; std::set<std::string> tsn; for (auto & x : subTypes(w, t)) if (r.chance(45)) { ts.insert(w.s.types[w.s.idx(x)].t); tsn.insert(x); }
      Nav M; M.what = N.what + ".typeSet(" + std::to_string(tsn.size()) + ")"; std::vector<int> ids; for (size_t i = 0; i < q.a.size(); ++i) if (tsn.count(w.tn(q.id[i]))) { M.E.push_back(q.a[i]); ids.push_back(q.id[i]); }
      M.bound = boundFor(w, d, ids, comp, true); if (d.kind == 0) navigate(w, r, ix.typeSetIterator(ts), M, probes, r.range(5, 30)); else { M.canMoveTo = false; navigate(w, r, ix.typeSetIterator(ts), M, probes, r.range(5, 30)); } count("typeset_walks");
      // a type that does not belong to the index
      if (r.chance(10)) for (auto & x : w.s.fsTypes) if (!w.s.subsumes(t, w.s.types[x].name)) { std::set<Type> b; b.insert(w.s.types[x].t); std::string o = outcome([&] { ix.typeSetIterator(b); }); count("evals"); if (!isUima(o)) violation("typeset-foreign-type", o); break; }
    } }
  { FSIterator e; FSIterator c(e); FSIterator x; x = e; count("evals"); if (e.isValid() || c.isValid() || x.isValid()) violation("default-iterator-valid", ""); }
  sample("iterators over " + std::to_string(w.all.size()) + " indexes, " + std::to_string(w.views.size()) + " views, " + std::to_string(w.o.size()) + " objects");
}
// ---- filters -----------------------------------------------------------------------------------
struct Flt { FSFilter * f; std::function<bool(int)> ex; std::string txt; };
static Flt genFilter(World & w, Rng & r, const std::string & type, int depth) {
  FSFilterBuilder const & b = w.cas->getFSFilterBuilder(); int k = r.range(0, depth > 0 ? 9 : 5);
  auto feats = w.s.feats(w.s.idx(type)); std::vector<const FeatDef *> usable; for (auto f : feats) if (f->kind == R_INT || f->kind == R_FLOAT || f->kind == R_STRING) usable.push_back(f);
  if (k <= 5 && !usable.empty() && k != 5) {
    const FeatDef * f = usable[r.below(usable.size())]; std::vector<Feature> path(1, f->f); FSFilterBuilder::EnComparisonOperator ops[] = { FSFilterBuilder::EQUALS, FSFilterBuilder::LESS, FSFilterBuilder::GREATER }; int oi = r.range(0, 2); Val v = keyVal(r, w, *f); Flt F;
    std::string nm = f->name;
    if (f->kind == R_INT) { if (nm == "begin" || nm == "end") v = vInt(r.range(0, 15)); int c = (int) v.i; F.f = b.createIntFeatureFilter(path, ops[oi], c); F.ex = [&w, f, oi, c](int i) { int x = (int) get(w, i, *f).i; return oi == 0 ? x == c : oi == 1 ? x < c : x > c; }; }
    else if (f->kind == R_FLOAT) { float c = asF(v.i); F.f = b.createFloatFeatureFilter(path, ops[oi], c); F.ex = [&w, f, oi, c](int i) { float x = asF(get(w, i, *f).i); return oi == 0 ? x == c : oi == 1 ? x < c : x > c; }; }
    else { icu::UnicodeString c = v.s.length() ? v.s : us("a"); F.f = b.createStringFeatureFilter(path, c.getBuffer(), c.length()); F.ex = [&w, f, c](int i) { Val x = get(w, i, *f); return !x.null && x.s == c; }; oi = 0; }
    F.txt = nm + " op" + std::to_string(oi); return F; }
  if (k <= 5) { auto st = subTypes(w, "uima.cas.TOP"); std::string t = st[r.below(st.size())]; bool sub = r.chance(50); Flt F; F.f = b.createTypeFilter(w.s.types[w.s.idx(t)].t, sub); F.ex = [&w, t, sub](int i) { return sub ? w.s.subsumes(t, w.tn(i)) : w.tn(i) == t; }; F.txt = "type " + t; return F; }
  if (k == 6) { Flt A = genFilter(w, r, type, depth - 1); Flt F; F.f = b.createNOTFilter(A.f); F.ex = [A](int i) { return !A.ex(i); }; F.txt = "not(" + A.txt + ")"; return F; }
  if (k == 9) { Flt A = genFilter(w, r, type, depth - 1); Flt F; F.f = b.createMatchFilter(std::vector<Feature>(), A.f); F.ex = A.ex; F.txt = "match(" + A.txt + ")"; return F; }
  Flt A = genFilter(w, r, type, depth - 1), B = genFilter(w, r, type, depth - 1); Flt F;
  if (k == 7) { F.f = b.createANDFilter(A.f, B.f); F.ex = [A, B](int i) { return A.ex(i) && B.ex(i); }; F.txt = "(" + A.txt + " and " + B.txt + ")"; }
  else { F.f = b.createORFilter(A.f, B.f); F.ex = [A, B](int i) { return A.ex(i) || B.ex(i); }; F.txt = "(" + A.txt + " or " + B.txt + ")"; }
  return F;
}
static void modeSub(Rng & r, Args & a) {
  World w; buildWorld(w, r, true, false, r.range(0, a.thorough ? 140 : 70));
  const IndexDef & d = w.annIdx;
  for (size_t v = 0; v < w.views.size(); ++v) { auto st = subTypes(w, d.type); std::vector<std::string> use; use.push_back(d.type); for (int k = 0; k < 3; ++k) use.push_back(st[r.below(st.size())]);
    for (auto & t : use) { Seq q = checkIndex(w, (int) v, d, t, "sub"); if (q.id.size() != q.a.size()) continue;
      ANIndex ix = w.views[v].cas->getAnnotationIndex(w.s.types[w.s.idx(t)].t);
      auto B = [&](int i) { return (int) w.o[i].v["begin"].i; }; auto E = [&](int i) { return (int) w.o[i].v["end"].i; };
      // subiterators under annotations inside and outside of the index
      auto anchors = probesFor(w, d.type); for (int rep = 0; rep < 4 && !anchors.empty(); ++rep) { int an = anchors[r.below(anchors.size())]; if (w.o[an].view != (int) v) continue;
        std::vector<int> ids; size_t from; auto f = std::find(q.a.begin(), q.a.end(), w.o[an].a); if (f != q.a.end()) from = (f - q.a.begin()) + 1; else for (from = 0; from < q.id.size(); ++from) if (cmpKeys(w, d, q.id[from], an) >= 0) break;
        for (size_t i = from; i < q.id.size(); ++i) if (B(q.id[i]) >= B(an) && B(q.id[i]) < E(an)) ids.push_back(q.id[i]); else break;
        bool un = r.chance(50); if (un) { std::vector<int> g; int last = -1; for (int i : ids) { if (g.empty() || B(i) >= last) { g.push_back(i); last = E(i); } } ids = g; }
        Nav N; N.what = std::string(un ? "unambiguous " : "") + "subiterator<" + t + "> under " + who(w, w.o[an].a); for (int i : ids) N.E.push_back(w.o[i].a); count(un ? "sub_unambiguous" : "sub_ambiguous"); if (!ids.empty()) count("sub_nonempty");
        ANIterator it = ix.subIterator(AnnotationFS(w.o[an].fs), un ? enUnambiguous : enAmbiguous);
        std::vector<TyFS> fw = walk(it, N.E.size() + 5), bw = walk(it, N.E.size() + 5, true); std::reverse(bw.begin(), bw.end()); count("evals");
        if (fw != N.E) violation(un ? "unambiguous-subiterator" : "subiterator", N.what + " yields " + showSeq(w, fw) + " expected " + showSeq(w, N.E) + " of " + showSeq(w, q.a)); else if (bw != N.E) violation("subiterator-backward", N.what + " backward yields " + showSeq(w, bw) + " expected " + showSeq(w, N.E));
        std::vector<int> probes = ids; navigate(w, r, it, N, probes, r.range(5, 30)); }
      // unambiguous iterator over the whole index
      { Nav N; N.what = "unambiguous<" + t + ">"; int last = -1; std::vector<int> ids; for (int i : q.id) if (ids.empty() || B(i) >= last) { ids.push_back(i); last = E(i); } for (int i : ids) N.E.push_back(w.o[i].a); N.canBack = false; ANIterator it = ix.unambiguousIterator(); std::vector<TyFS> fw = walk(it, N.E.size() + 5); count("evals"); count("unambiguous"); if (fw != N.E) violation("unambiguous-iterator", N.what + " yields " + showSeq(w, fw) + " expected " + showSeq(w, N.E) + " of " + showSeq(w, q.a)); navigate(w, r, it, N, ids, r.range(5, 20));
        std::string o = outcome([&] { ANIterator z = ix.unambiguousIterator(); z.moveToLast(); if (z.isValid() != !N.E.empty() || (z.isValid() && addr(z.get()) != N.E.back())) violation("unambiguous-last", N.what); }); if (o != "ok" && !isUima(o)) violation("unambiguous-last-outcome", o); }
    }
    // filtered iterators over every kind of index
    for (auto & dd : w.all) { auto st2 = subTypes(w, dd.type); std::string t = r.chance(60) ? dd.type : st2[r.below(st2.size())]; Seq q = checkIndex(w, (int) v, dd, t, "filter"); if (q.id.size() != q.a.size()) continue; FSIndex ix = w.views[v].cas->getIndexRepository().getIndex(us(dd.label), w.s.types[w.s.idx(t)].t);
      if (t == "uima.cas.AnnotationBase") continue;
      for (int rep = 0; rep < 2; ++rep) { Flt F = genFilter(w, r, t, 3); Nav N; N.what = dd.label + "<" + t + "> filtered by " + F.txt; std::vector<int> ids; for (int i : q.id) if (!F.ex(i)) { ids.push_back(i); N.E.push_back(w.o[i].a); }
        FSIterator it = ix.filteredIterator(F.f); std::vector<TyFS> fw = walk(it, N.E.size() + 5), bw = walk(it, N.E.size() + 5, true); std::reverse(bw.begin(), bw.end()); count("evals"); count("filtered"); if (!N.E.empty() && N.E.size() < q.a.size()) count("filtered_nontrivial");
        if (fw != N.E) violation("filtered-iterator", N.what + " yields " + showSeq(w, fw) + " expected " + showSeq(w, N.E)); else if (bw != N.E) violation("filtered-backward", N.what + " backward yields " + showSeq(w, bw) + " expected " + showSeq(w, N.E));
        N.bound = boundFor(w, dd, ids, st2.size() > 1, true); N.canMoveTo = dd.kind == 0; navigate(w, r, it, N, probesFor(w, t), r.range(5, 25)); it = FSIterator(); F.f->deInit(); delete F.f; } }
  }
  sample("annotations=" + std::to_string(w.o.size()) + " views=" + std::to_string(w.views.size()));
}
int main(int argc, char ** argv) { uima::ResourceManager::createInstance("vp"); return drive(argc, argv, { { "index", modeIndex }, { "iter", modeIter }, { "subiter", modeSub } }); }
