// F01 / F02 / F03: values, arrays, lists compared against an independent model after every few operations.
#include "cas.hpp"
#include "uima/listfs.hpp"
#include <list>
using namespace vp; using namespace uima;

struct Obj { int ok = O_FS; int ti = -1; FeatureStructure fs; std::map<std::string, Val> v; std::vector<Val> e; };
struct World {
  Schema s; std::unique_ptr<Env> env; std::unique_ptr<CAS> cas; std::vector<CAS *> views; std::vector<Obj> o; std::vector<int> byKind[O_N];
  bool nestedTypes = true;
  std::string tname(int i) const { return o[i].ok == O_FS ? s.types[o[i].ti].name : ARR_TYPE[o[i].ok]; }
};
static Val dflt(RK k) { if (k == R_REF || k == R_STRING) return Val(); return vInt(0); }

static int findByAddr(World & w, const FeatureStructure & fs) { if (!fs.isValid()) return -1; auto a = addr(fs); for (size_t i = 0; i < w.o.size(); ++i) if (addr(w.o[i].fs) == a) return (int) i; return -2; }
static std::map<lowlevel::TyFS, int> addrMap(World & w) { std::map<lowlevel::TyFS, int> m; for (size_t i = 0; i < w.o.size(); ++i) { if (!m.insert({ addr(w.o[i].fs), (int) i }).second) violation("objects-share-identity", "two live objects have the same identity"); } return m; }

static void checkObj(World & w, int i, const std::map<lowlevel::TyFS, int> & am, const char * when) {
  Obj & x = w.o[i]; u64 h = hashStr(w.tname(i));
  if (nameOf(x.fs.getType()) != w.tname(i)) { violation("type-changed", std::string(when) + ": type of #" + std::to_string(i) + " is " + nameOf(x.fs.getType()) + " expected " + w.tname(i)); return; }
  if (x.ok == O_FS) {
    for (auto f : w.s.feats(x.ti)) {
      auto it = x.v.find(f->name); Val want = it == x.v.end() ? dflt(f->kind) : it->second;
      count("evals"); count("feature_reads");
      if (f->kind == R_REF) {
        if (f->name == "sofa" ) { continue; }
        FeatureStructure g = x.fs.getFSValue(f->f); int got = -1;
        if (g.isValid()) { auto a = am.find(addr(g)); got = a == am.end() ? -2 : a->second; }
        if (got != want.ref) violation(std::string("value-ref"), std::string(when) + ": #" + std::to_string(i) + "." + f->name + " got " + std::to_string(got) + " want " + std::to_string(want.ref));
        if (x.fs.isUntouchedFSValue(f->f) != (want.ref < 0)) violation("untouched-ref", std::string(when) + ": isUntouchedFSValue of " + f->name);
        h = mix(h, want.ref >= 0);
      } else {
        Val got = getFeat(x.fs, f->f, f->kind);
        if (!sameVal(got, want, f->kind)) violation("value-" + std::to_string(f->kind), std::string(when) + ": #" + std::to_string(i) + " " + w.s.types[x.ti].name + "." + f->name + ":" + f->range + " got " + show(got, f->kind) + " want " + show(want, f->kind));
        h = mix(h, f->kind * 1000 + (f->kind == R_STRING ? hashStr(u8(want.s)) : (u64) want.i));
      }
    }
  } else {
    size_t n = arrSize(x.fs, x.ok); count("evals");
    if (n != x.e.size()) { violation("array-size", std::string(when) + ": array #" + std::to_string(i) + " size " + std::to_string(n) + " want " + std::to_string(x.e.size())); return; }
    for (size_t k = 0; k < n; ++k) { count("evals"); count("element_reads");
      if (x.ok == O_AFS) { FeatureStructure g = ArrayFS(x.fs).get(k); int got = -1; if (g.isValid()) { auto a = am.find(addr(g)); got = a == am.end() ? -2 : a->second; }
        if (got != x.e[k].ref) violation("element-ref", std::string(when) + ": FSArray #" + std::to_string(i) + "[" + std::to_string(k) + "]"); }
      else { Val g = getElem(x.fs, x.ok, k); if (!sameVal(g, x.e[k], ARR_RK[x.ok])) violation(std::string("element-") + ARR_TYPE[x.ok], std::string(when) + ": #" + std::to_string(i) + "[" + std::to_string(k) + "] got " + show(g, ARR_RK[x.ok]) + " want " + show(x.e[k], ARR_RK[x.ok])); h = mix(h, (u64) x.e[k].i + hashStr(u8(x.e[k].s))); }
    }
  }
  seen(h);
}
static void checkAll(World & w, const char * when) { auto am = addrMap(w); for (size_t i = 0; i < w.o.size(); ++i) checkObj(w, (int) i, am, when); count("full_checks"); }

static int addObj(World & w, Obj x) { w.o.push_back(x); int i = (int) w.o.size() - 1; w.byKind[x.ok].push_back(i); return i; }
static const std::vector<int> & instantiable(World & w) { static std::vector<int> v; v = w.s.fsTypes; for (int k = 0; k < 4; ++k) { v.push_back(w.s.idx(std::string("uima.cas.Empty") + LISTS[k])); v.push_back(w.s.idx(std::string("uima.cas.NonEmpty") + LISTS[k])); } return v; }
static int newFS(World & w, Rng & r) {
  Obj x; auto & inst = instantiable(w); x.ti = inst[r.below(inst.size())]; CAS * v = r.pick(w.views);
  bool ann = w.s.subsumes("uima.tcas.Annotation", w.s.types[x.ti].name);
  op("new " + w.s.types[x.ti].name);
  if (ann && r.chance(60)) { int b = r.range(-5, 100), e = r.range(-5, 100); x.fs = v->createAnnotation(w.s.types[x.ti].t, b, e); x.v["begin"] = vInt(b); x.v["end"] = vInt(e); }
  else x.fs = v->createFS(w.s.types[x.ti].t);
  return addObj(w, x);
}
static int newArr(World & w, Rng & r, int ok = 0, size_t n = ~0ull) {
  Obj x; x.ok = ok ? ok : r.range(1, 9); if (n == ~0ull) n = r.chance(15) ? 0 : r.chance(5) ? r.range(100, 2000) : r.range(1, 12);
  op(std::string("newarr ") + ARR_TYPE[x.ok] + " " + std::to_string(n));
  x.fs = createArr(*r.pick(w.views), x.ok, n); x.e.assign(n, dflt(ARR_RK[x.ok])); return addObj(w, x);
}
static void initWorld(World & w, Rng & r) {
  SchemaOpts so; so.indexes = r.chance(50); so.elementTypes = false; w.s = genSchema(r, so); w.env.reset(new Env(w.s)); w.cas.reset(w.env->newCAS());
  w.views.push_back(w.cas->getView(CAS::NAME_DEFAULT_SOFA)); if (r.chance(40)) w.views.push_back(w.cas->createView("second")); if (r.chance(10)) w.views.push_back(w.cas->createView("third"));
  if (r.chance(40)) w.views[0]->setDocumentText(UnicodeStringRef(UnicodeString(u"some text that is there")));
}
static int pickRef(World & w, Rng & r, const std::string & range) { // object assignable to a feature of that range or -1
  std::vector<int> c; for (int tries = 0; tries < 12; ++tries) { if (w.o.empty()) return -1; int i = (int) r.below(w.o.size());
    if (range == w.tname(i) || w.s.subsumes(range, w.tname(i))) return i; } return -1; }
template<class F> static bool mustReject(const char * key, const std::string & what, F f) {
  count("evals"); count("rejections_expected");
  std::string o = outcome(f); if (isUima(o)) return true;
  violation(std::string(key) + (o == "ok" ? "-accepted" : "-wrong-exception"), what + " -> " + o); return false;
}
static void doSet(World & w, Rng & r, int i) {
  Obj & x = w.o[i]; auto fs = w.s.feats(x.ti); if (fs.empty()) return; auto f = fs[r.below(fs.size())];
  if (f->name == "sofa") return;
  if (f->kind == R_REF) { int t = r.chance(12) ? -1 : pickRef(w, r, f->range); if (t < 0) { if (x.v.count(f->name)) return; return; }
    op("#" + std::to_string(i) + "." + f->name + "=#" + std::to_string(t)); x.fs.setFSValue(f->f, w.o[t].fs); x.v[f->name] = vRef(t); return; }
  Val v; int sub = w.s.idx(f->range);
  if (f->kind == R_STRING && sub < 0 && r.chance(20)) { // a string read from another object of the same CAS
    for (int tries = 0; tries < 12; ++tries) {
    int j = (int) r.below(w.o.size()); Obj & y = w.o[j]; UnicodeStringRef ref; v = Val();
    if (y.ok == O_ASTR && !y.e.empty()) { size_t p = r.below(y.e.size()); v = y.e[p]; ref = StringArrayFS(y.fs).get(p); }
    else if (y.ok == O_FS) { std::vector<const FeatDef *> c; for (auto g : w.s.feats(y.ti)) if (g->kind == R_STRING) c.push_back(g); if (c.empty()) continue; auto g = c[r.below(c.size())]; auto it = y.v.find(g->name); v = it == y.v.end() ? Val() : it->second; ref = y.fs.getStringValue(g->f); }
    else continue;
    if (v.null) continue;
    op("#" + std::to_string(i) + "." + f->name + "=string of #" + std::to_string(j)); x.fs.setStringValue(f->f, ref); x.v[f->name] = v; count("string_copies_within_cas"); return; }
    return; }
  if (sub >= 0 && w.s.types[sub].stringSub) v = vStr(r.pick(w.s.types[sub].allowed)); else { ValOpts vo; vo.strFlags = S_XML | S_ANY; v = randPrim(r, f->kind, vo); }
  op("#" + std::to_string(i) + "." + f->name + "=" + show(v, f->kind).substr(0, 60)); setFeat(x.fs, f->f, f->kind, v); x.v[f->name] = v; count("sets");
}
static void doBad(World & w, Rng & r, int i) { // accesses the type system forbids
  Obj & x = w.o[i]; auto mine = w.s.feats(x.ti);
  switch (r.range(0, 6)) {
  case 0: { // foreign feature, matching accessor
    int tj = w.s.fsTypes[r.below(w.s.fsTypes.size())]; auto fs = w.s.feats(tj); if (fs.empty()) return; auto f = fs[r.below(fs.size())];
    if (w.s.subsumes(w.s.types[f->owner].name, w.s.types[x.ti].name)) return;
    op("foreign " + f->name + " on #" + std::to_string(i));
    if (f->kind == R_REF) { mustReject("foreign-get", "getFSValue " + f->name, [&] { x.fs.getFSValue(f->f); });
      int t = pickRef(w, r, f->range); if (t >= 0) mustReject("foreign-set", "setFSValue " + f->name, [&] { x.fs.setFSValue(f->f, w.o[t].fs); });
      if (f->range.find("List") != std::string::npos) { mustReject("foreign-haslist", "hasListElements", [&] { x.fs.hasListElements(f->f); });
        mustReject("foreign-getlist", "get list " + f->range, [&] { if (f->range == "uima.cas.FSList") x.fs.getListFSValue(f->f); else if (f->range == "uima.cas.IntegerList") x.fs.getIntListFSValue(f->f); else if (f->range == "uima.cas.FloatList") x.fs.getFloatListFSValue(f->f); else x.fs.getStringListFSValue(f->f); }); }
      mustReject("foreign-untouched", "isUntouchedFSValue", [&] { x.fs.isUntouchedFSValue(f->f); }); }
    else { mustReject(f->kind == R_STRING ? "foreign-string-get" : "foreign-get", "get " + f->name + " kind " + std::to_string(f->kind), [&] { getFeat(x.fs, f->f, f->kind); });
      Val v; int sub = w.s.idx(f->range); if (sub >= 0 && w.s.types[sub].stringSub) v = vStr(w.s.types[sub].allowed[0]); else v = randPrim(r, f->kind, ValOpts());
      mustReject(f->kind == R_STRING ? "foreign-string-set" : "foreign-set", "set " + f->name + " kind " + std::to_string(f->kind), [&] { setFeat(x.fs, f->f, f->kind, v); }); }
    return; }
  case 1: { // own feature, accessor of another kind
    if (mine.empty()) return; auto f = mine[r.below(mine.size())]; RK k = (RK) r.range(0, 7); if (k == f->kind) return;
    op("wrong kind " + std::to_string(k) + " on " + f->range);
    mustReject("wrong-kind-get", "get as kind " + std::to_string(k) + " feature of range " + f->range, [&] { getFeat(x.fs, f->f, k); });
    mustReject("wrong-kind-set", "set as kind " + std::to_string(k) + " feature of range " + f->range, [&] { setFeat(x.fs, f->f, k, randPrim(r, k, ValOpts())); });
    return; }
  case 2: { // reference accessors on primitive feature
    if (mine.empty()) return; auto f = mine[r.below(mine.size())]; if (f->kind == R_REF) return;
    mustReject("prim-as-ref-get", "getFSValue on range " + f->range, [&] { x.fs.getFSValue(f->f); });
    if (!w.o.empty()) mustReject("prim-as-ref-set", "setFSValue on range " + f->range, [&] { x.fs.setFSValue(f->f, r.pick(w.o).fs); });
    return; }
  case 3: { // incompatible reference
    if (mine.empty() || w.o.empty()) return; auto f = mine[r.below(mine.size())]; if (f->kind != R_REF || f->range == "uima.cas.TOP") return; int t = (int) r.below(w.o.size());
    if (f->range == w.tname(t) || w.s.subsumes(f->range, w.tname(t))) return;
    op("bad ref " + f->range + " <- " + w.tname(t));
    mustReject("incompatible-ref", f->range + " <- " + w.tname(t), [&] { x.fs.setFSValue(f->f, w.o[t].fs); }); return; }
  case 4: { // disallowed enum value
    for (auto f : mine) { int sub = w.s.idx(f->range); if (sub < 0 || !w.s.types[sub].stringSub) continue; UnicodeString bad = r.pick(w.s.types[sub].allowed);
      int m = r.range(0, 3); if (m == 0) bad.append((UChar) 'x'); else if (m == 1) bad.truncate(bad.length() - 1); else if (m == 2) bad.remove(); else bad.toUpper();
      for (auto & a : w.s.types[sub].allowed) if (a == bad) return;
      op("bad enum"); mustReject("enum-value", u8(bad), [&] { x.fs.setStringValue(f->f, bad); }); return; } return; }
  case 5: { // invalid handles
    FeatureStructure none; Feature nf; if (mine.empty()) return; auto f = mine[r.below(mine.size())];
    mustReject("invalid-fs", "access on invalid FS", [&] { if (f->kind == R_REF) none.getFSValue(f->f); else getFeat(none, f->f, f->kind); });
    mustReject("invalid-feature", "access with invalid feature", [&] { RK k = (RK) r.range(0, 7); getFeat(x.fs, nf, k); });
    if (f->kind == R_REF && f->name != "sofa") { mustReject("set-invalid-ref", "setFSValue(invalid)", [&] { x.fs.setFSValue(f->f, none); });
        FeatureStructure cur = x.fs.getFSValue(f->f); if (!cur.isValid()) { std::string o = outcome([&] { x.fs.setFSValue(f->f, cur); }); count("evals"); if (o != "ok" && !isUima(o)) violation("set-null-ref", o); } }
    return; }
  case 6: { // list accessors on non-list features
    if (mine.empty()) return; auto f = mine[r.below(mine.size())]; bool isList = f->range.find("List") != std::string::npos; if (isList) return;
    mustReject("nonlist-as-list", "getListFSValue on " + f->range, [&] { x.fs.getListFSValue(f->f); });
    mustReject("nonlist-haslist", "hasListElements on " + f->range, [&] { x.fs.hasListElements(f->f); });
    if (f->kind == R_REF && arrKind(f->range) == 0) { auto g = x.fs.getFSValue(f->f); if (g.isValid() && nameOf(g.getType()) != "uima.cas.IntegerArray") mustReject("nonarray-as-array", "getIntArrayFSValue on " + f->range, [&] { x.fs.getIntArrayFSValue(f->f); }); }
    return; }
  }
}
static void doClone(World & w, Rng & r, int i) {
  Obj src = w.o[i]; Obj n = src;
  if (r.chance(50)) { op("clone #" + std::to_string(i)); n.fs = src.fs.clone(); }
  else { n.ti = w.s.fsTypes[r.below(w.s.fsTypes.size())]; op("clone #" + std::to_string(i) + " to " + w.s.types[n.ti].name); n.fs = src.fs.clone(w.s.types[n.ti].t);
    // common features: those of the most specific common supertype
    n.v.clear(); int t = src.ti; while (t >= 0 && !w.s.subsumes(w.s.types[t].name, w.s.types[n.ti].name)) t = w.s.idx(w.s.types[t].super);
    if (t >= 0) for (auto f : w.s.feats(t)) { auto it = src.v.find(f->name); if (it != src.v.end()) n.v[f->name] = it->second; } }
  addObj(w, n); count("clones");
}

// Lets the heaps grow (and move) while other values live on them.
static void burst(World & w, Rng & r) {
  int n = r.chance(4) ? r.range(9000, 40000) : r.range(50, 900); op("burst " + std::to_string(n)); count("heap_growth_bursts");
  switch (r.range(0, 4)) {
    case 0: { UnicodeString s = randString(r, S_XML, 30); for (int k = 0; k < n; ++k) w.views[0]->createFS(w.s.types[w.s.fsTypes[0]].t); break; }
    case 1: { StringArrayFS a = w.views[0]->createStringArrayFS(3); UnicodeString s = randString(r, S_XML, 30); for (int k = 0; k < n; ++k) a.set(k % 3, UnicodeStringRef(s)); break; }
    case 2: { LongArrayFS a = w.views[0]->createLongArrayFS(n); DoubleArrayFS d = w.views[0]->createDoubleArrayFS(2); d.set(0, 1.5); a.set(n - 1, 7); break; }
    case 3: { w.views[0]->createByteArrayFS(n).set(0, 'a'); w.views[0]->createShortArrayFS(n).set(n - 1, 77); w.views[0]->createBooleanArrayFS(n); break; }
    default: for (auto & x : w.o) if (x.ok == O_FS) for (auto f : w.s.feats(x.ti)) if (f->kind == R_LONG || f->kind == R_DOUBLE) { int m = std::min(n, 3000); Val v; for (int k = 0; k < m; ++k) { v = randPrim(r, f->kind, ValOpts()); setFeat(x.fs, f->f, f->kind, v); } x.v[f->name] = v; return; }
  }
}
static void mValues(Rng & r, Args & a) {
  World w; initWorld(w, r); int nops = r.range(20, 200); int per = r.range(5, 40);
  for (int k = 0; k < nops; ++k) { int c = r.range(0, 99);
    if (k % 16 == 5 && r.chance(12)) burst(w, r);
    if (c < 18 || w.byKind[O_FS].empty()) newFS(w, r); else if (c < 26) newArr(w, r);
    else { int i = w.byKind[O_FS][r.below(w.byKind[O_FS].size())];
      if (c < 76) doSet(w, r, i); else if (c < 90) doBad(w, r, i); else if (c < 94) doClone(w, r, i);
      else if (c < 97 && !w.s.indexes.empty()) { Obj & x = w.o[i]; (void) x; r.pick(w.views)->getIndexRepository().addFS(x.fs); op("index"); }
      else { int arr = w.byKind[O_AINT].empty() ? -1 : w.byKind[O_AINT][0]; if (arr >= 0 && !w.o[arr].e.empty()) { size_t p = r.below(w.o[arr].e.size()); Val v = randPrim(r, R_INT, ValOpts()); setElem(w.o[arr].fs, O_AINT, p, v); w.o[arr].e[p] = v; } } }
    if (k % per == per - 1) checkAll(w, "mid"); }
  checkAll(w, "end"); if (a.first == Report::get().curCase) sample("ops=" + std::to_string(nops) + " objects=" + std::to_string(w.o.size()) + " types=" + std::to_string(w.s.types.size()) + " last: " + (Report::get().trace.empty() ? "" : Report::get().trace.back()));
}

// ---------------------------------------------------------------------------------------------- arrays
template<class T> struct Prim; 
template<class ARR, class T> static void bulk(World & w, Rng & r, int i, std::function<Val(T)> toV, std::function<T(const Val &)> fromV) {
  Obj & x = w.o[i]; ARR arr(x.fs); size_t n = x.e.size(); RK k = ARR_RK[x.ok];
  size_t start = r.chance(85) ? r.below(n + 2) : (size_t) r.next(), len = r.chance(85) ? r.below(n + 2) : r.below(5), off = r.below(4); if (r.chance(4)) { len = r.range(1, 4); start = (size_t) 0 - r.range(1, 4); }
  bool fits = start <= n && len <= n && start + len <= n;
  size_t destN = off + len + 3; if (destN > 100000) return;
  if (r.chance(50)) { // out
    std::vector<T> dest(destN); std::vector<Val> before; for (size_t q = 0; q < destN; ++q) { Val v = randPrim(r, k, ValOpts()); dest[q] = fromV(v); before.push_back(toV(dest[q])); }
    // exactly sized heap buffer so that an overrun is a memory error
    std::unique_ptr<T[]> buf(new T[destN]); for (size_t q = 0; q < destN; ++q) buf[q] = dest[q];
    bool byLen = r.chance(40);
    op("copyOut #" + std::to_string(i) + " [" + std::to_string(start) + "," + std::to_string(start + len) + ") of " + std::to_string(n) + " off " + std::to_string(off));
    std::string o = outcome([&] { if (byLen) arr.copyToArray(start, buf.get(), off, len); else arr.copyToArray(start, start + len, buf.get(), off); });
    count("evals"); count("bulk_out");
    if (o == "ok" && !fits) { violation("copyout-oob-accepted", "start " + std::to_string(start) + " len " + std::to_string(len) + " size " + std::to_string(n)); return; }
    if (o != "ok" && !isUima(o)) { violation("copyout-exception", o); return; }
    if (o != "ok" && fits) { violation(len == 0 ? "copyout-empty-rejected" : "copyout-rejected", "start " + std::to_string(start) + " len " + std::to_string(len) + " size " + std::to_string(n) + " " + o); return; }
    for (size_t q = 0; q < destN; ++q) { bool in = o == "ok" && q >= off && q < off + len; Val want = in ? x.e[start + q - off] : before[q]; if (!sameVal(toV(buf[q]), want, k)) { violation(in ? "copyout-wrong-element" : "copyout-outside-touched", std::string(ARR_TYPE[x.ok]) + " at " + std::to_string(q)); break; } }
    seen(mix(hashStr("out") + x.ok, start * 1000003 + len * 101 + off + n * 7919 + fits));
  } else { // in: source range [sstart, sstart+len) of a buffer -> destination offset start
    size_t ss = off; std::unique_ptr<T[]> buf(new T[ss + len + 1]); std::vector<Val> sv; for (size_t q = 0; q < ss + len + 1; ++q) { Val v = randPrim(r, k, ValOpts()); buf[q] = fromV(v); sv.push_back(toV(buf[q])); }
    op("copyIn #" + std::to_string(i) + " at " + std::to_string(start) + " len " + std::to_string(len) + " of " + std::to_string(n));
    std::string o = outcome([&] { arr.copyFromArray(buf.get(), ss, ss + len, start); });
    count("evals"); count("bulk_in");
    if (o == "ok" && !fits) { violation("copyin-oob-accepted", "dest " + std::to_string(start) + " len " + std::to_string(len) + " size " + std::to_string(n)); return; }
    if (o != "ok" && !isUima(o)) { violation("copyin-exception", o); return; }
    if (o != "ok" && fits) { violation(len == 0 ? "copyin-empty-rejected" : "copyin-rejected", "dest " + std::to_string(start) + " len " + std::to_string(len) + " size " + std::to_string(n) + " " + o); return; }
    if (o == "ok") for (size_t q = 0; q < len; ++q) x.e[start + q] = sv[ss + q];
    seen(mix(hashStr("in") + x.ok, start * 1000003 + len * 101 + off + n * 7919 + fits));
  }
}
static void doBulk(World & w, Rng & r, int i) {
  switch (w.o[i].ok) {
    case O_AINT: bulk<IntArrayFS, int>(w, r, i, [](int v) { return vInt(v); }, [](const Val & v) { return (int) v.i; }); break;
    case O_AFLOAT: bulk<FloatArrayFS, float>(w, r, i, [](float v) { return vInt(fbits(v)); }, [](const Val & v) { return asF(v.i); }); break;
    case O_ABOOL: bulk<BooleanArrayFS, bool>(w, r, i, [](bool v) { return vInt(v); }, [](const Val & v) { return v.i != 0; }); break;
    case O_ABYTE: bulk<ByteArrayFS, char>(w, r, i, [](char v) { return vInt((signed char) v); }, [](const Val & v) { return (char) v.i; }); break;
    case O_ASHORT: bulk<ShortArrayFS, short>(w, r, i, [](short v) { return vInt(v); }, [](const Val & v) { return (short) v.i; }); break;
    case O_ALONG: bulk<LongArrayFS, INT64>(w, r, i, [](INT64 v) { return vInt((i64) v); }, [](const Val & v) { return (INT64) v.i; }); break;
    case O_ADOUBLE: bulk<DoubleArrayFS, double>(w, r, i, [](double v) { return vInt(dbits(v)); }, [](const Val & v) { return asD(v.i); }); break;
    default: break; }
}
static void mArrays(Rng & r, Args & a) {
  World w; initWorld(w, r); int nops = r.range(20, 160); int per = r.range(5, 30);
  for (int k = 0; k < 3; ++k) newFS(w, r);
  for (int k = 0; k < nops; ++k) { int c = r.range(0, 99); std::vector<int> arrs; for (int q = 1; q < O_N; ++q) arrs.insert(arrs.end(), w.byKind[q].begin(), w.byKind[q].end());
    if (c < 15 || arrs.empty()) { newArr(w, r); } else if (c < 20) newFS(w, r);
    else { int i = arrs[r.below(arrs.size())]; Obj & x = w.o[i]; size_t n = x.e.size();
      if (c < 60) { if (!n) continue; size_t p = r.chance(30) ? (r.chance(50) ? 0 : n - 1) : r.below(n);
        if (x.ok == O_AFS) { int t = r.chance(15) ? -1 : (int) r.below(w.o.size()); ArrayFS(x.fs).set(p, t < 0 ? FeatureStructure() : w.o[t].fs); x.e[p] = vRef(t); }
        else { ValOpts vo; vo.strFlags = S_XML | S_ANY; Val v = randPrim(r, ARR_RK[x.ok], vo); op(std::string(ARR_TYPE[x.ok]) + "#" + std::to_string(i) + "[" + std::to_string(p) + "]=" + show(v, ARR_RK[x.ok]).substr(0, 40)); setElem(x.fs, x.ok, p, v); x.e[p] = v; } count("sets"); }
      else if (c < 70) { size_t p = r.chance(50) ? n : r.chance(50) ? n + r.below(10) : (size_t) -1 - r.below(5);
        if (x.ok == O_AFS) { mustReject("index-oob-get", "FSArray get " + std::to_string(p), [&] { ArrayFS(x.fs).get(p); }); mustReject("index-oob-set", "FSArray set", [&] { ArrayFS(x.fs).set(p, w.o[0].fs); }); }
        else { mustReject("index-oob-get", std::string(ARR_TYPE[x.ok]) + " get " + std::to_string(p) + " of " + std::to_string(n), [&] { getElem(x.fs, x.ok, p); }); mustReject("index-oob-set", std::string(ARR_TYPE[x.ok]) + " set", [&] { setElem(x.fs, x.ok, p, randPrim(r, ARR_RK[x.ok], ValOpts())); }); } }
      else if (c < 92) { for (int q = 0; q < 3; ++q) doBulk(w, r, i); }
      else if (c < 96) { // wrong array class
        int wrong = r.range(1, 9); if (wrong == x.ok) continue; mustReject("wrong-array-class", std::string("view ") + ARR_TYPE[x.ok] + " as " + ARR_TYPE[wrong], [&] { if (wrong == O_AFS) ArrayFS(x.fs).size(); else arrSize(x.fs, wrong); }); }
      else { if (w.byKind[O_FS].empty()) continue; mustReject("nonarray-class", "FS as array", [&] { arrSize(w.o[w.byKind[O_FS][0]].fs, r.range(1, 9)); }); } }
    if (k % per == per - 1) checkAll(w, "mid"); }
  checkAll(w, "end"); if (a.first == Report::get().curCase) sample("ops=" + std::to_string(nops) + " objects=" + std::to_string(w.o.size()) + " last: " + (Report::get().trace.empty() ? "" : Report::get().trace.back()));
}

// ---------------------------------------------------------------------------------------------- lists
template<class L, class T> struct ListWorld {
  struct Node { bool empty; Val head; int tail; lowlevel::TyFS addr; };
  std::vector<Node> nodes; std::vector<std::pair<L, int>> h; // handle -> node
  CAS * cas; RK kind; std::function<T(Rng &, Val &)> gen; std::function<Val(const T &)> toV; std::function<L(CAS &)> mk;
  std::vector<Val> contents(int n) { std::vector<Val> o; while (!nodes[n].empty) { o.push_back(nodes[n].head); n = nodes[n].tail; } return o; }
  bool reaches(int n, int target) { while (true) { if (n == target) return true; if (nodes[n].empty) return false; n = nodes[n].tail; } }
  int lastNode(int n) { while (!nodes[nodes[n].tail].empty) n = nodes[n].tail; return n; }
  int addNode(bool e, Val hd, int tl) { nodes.push_back({ e, hd, tl, 0 }); return (int) nodes.size() - 1; }
  void check(size_t i, const char * when) {
    L l = h[i].first; auto want = contents(h[i].second); u64 hh = hashStr("list") + kind; count("evals", 1 + want.size()); count("list_checks");
    if (l.getLength() != want.size()) { violation("list-length", std::string(when) + ": got " + std::to_string(l.getLength()) + " want " + std::to_string(want.size())); return; }
    size_t k = 0; L c = l; while (!c.isEmpty()) { if (k >= want.size()) { violation("list-too-long", when); return; } Val g = toV(c.getHead()); if (!sameVal(g, want[k], kind) || (kind == R_REF && g.ref != want[k].ref)) { violation("list-element", std::string(when) + " position " + std::to_string(k)); return; } hh = mix(hh, (u64) want[k].i + want[k].ref + hashStr(u8(want[k].s)));
      if (k % 2) c = L(c.getTail()); else c.moveToNext(); ++k; }
    if (k != want.size()) violation("list-too-short", when);
    // meaningless operations are rejected and change nothing
    L e = c; mustReject("head-of-empty", "getHead", [&] { e.getHead(); }); mustReject("tail-of-empty", "getTail", [&] { e.getTail(); }); mustReject("next-of-empty", "moveToNext", [&] { e.moveToNext(); });
    if (k > 0) seen(hh);
  }
  void run(Rng & r, int nops) {
    for (int k = 0; k < nops; ++k) { int c = r.range(0, 99); if (h.empty() || c < 12) { h.push_back({ mk(*cas), addNode(true, Val(), -1) }); op("new"); }
      else { size_t i = r.below(h.size()); L & l = h[i].first; int & n = h[i].second; Val v; 
        if (c < 32) { T t = gen(r, v); op("addFirst h" + std::to_string(i)); L res = L(l.addFirst(t)); n = addNode(false, v, n); if (!(addr(res) == addr(l))) violation("addfirst-result", "addFirst does not return the new list"); }
        else if (c < 55) { T t = gen(r, v); op("addLast h" + std::to_string(i)); L res = L(l.addLast(t)); if (nodes[n].empty) { n = addNode(false, v, n); } else { int ln = lastNode(n); int nn = addNode(false, v, nodes[ln].tail); nodes[ln].tail = nn; }
          count("evals"); if (res.isEmpty() || res.getLength() != 1 || !sameVal(toV(res.getHead()), v, kind)) violation("addlast-result", "addLast does not return the last element"); }
        else if (c < 63) { size_t j = r.below(h.size()); int m = h[j].second;
          if (i == j && !nodes[n].empty) { op("self append h" + std::to_string(i)); mustReject("self-append", "append to itself", [&] { l.append(h[j].first); }); }
          else if (i != j && !reaches(n, m) && !(reaches(m, n)) && (nodes[n].empty || nodes[m].empty || lastNode(n) != lastNode(m))) { bool pre = r.chance(40); op(std::string(pre ? "prepend" : "append") + " h" + std::to_string(i) + " h" + std::to_string(j));
            if (pre) { L res = L(l.prepend(h[j].first)); if (!nodes[m].empty) { nodes[lastNode(m)].tail = n; n = m; } (void) res; }
            else { l.append(h[j].first); if (nodes[n].empty) n = m; else nodes[lastNode(n)].tail = m; } } }
        else if (c < 70) { if (!nodes[n].empty) { T t = gen(r, v); op("setHead"); l.setHead(t); nodes[n].head = v; } else { T t = gen(r, v); mustReject("sethead-empty", "setHead on empty", [&] { l.setHead(t); }); } }
        else if (c < 76) { if (!nodes[n].empty) { op("moveToNext h" + std::to_string(i)); l.moveToNext(); n = nodes[n].tail; } }
        else if (c < 80) { if (!nodes[n].empty) { op("tail -> new handle"); L t = L(l.getTail()); int tn = nodes[n].tail; h.push_back({ t, tn }); } }
        else if (c < 84) { size_t j = r.below(h.size()); int m = h[j].second; if (!nodes[n].empty && !reaches(m, n)) { op("setTail"); l.setTail(h[j].first); nodes[n].tail = m; } else if (nodes[n].empty) mustReject("settail-empty", "setTail on empty", [&] { l.setTail(h[j].first); }); }
        else if (c < 95) { auto cont = contents(n); T t; bool have = false;
          if (!cont.empty() && r.chance(80)) { size_t p = r.below(cont.size()); L q = l; for (size_t z = 0; z < p; ++z) q.moveToNext(); t = q.getHead(); v = cont[p]; have = true; } else t = gen(r, v);
          bool nan = (kind == R_FLOAT && asF(v.i) != asF(v.i)); if (nan || (kind == R_REF && v.null)) continue;
          op("remove h" + std::to_string(i)); L res = L(l.removeElement(t)); int prev = -1, cur = n; auto same = [&](const Val & x, const Val & y) { if (kind == R_FLOAT) return asF(x.i) == asF(y.i); if (kind == R_REF) return x.ref == y.ref; if (kind == R_STRING) return x.null == y.null ? x.s == y.s : (x.s.isEmpty() && y.s.isEmpty()); return sameVal(x, y, kind); };
          while (!nodes[cur].empty && !same(nodes[cur].head, v)) { prev = cur; cur = nodes[cur].tail; }
          bool found = !nodes[cur].empty; (void) have; count("evals"); count("removals");
          if (res.isValid() != found) { violation("remove-result", found ? "element not found" : "something removed"); return; }
          if (found) { if (prev < 0) n = nodes[cur].tail; else nodes[prev].tail = nodes[cur].tail; int e = addNode(true, Val(), -1); nodes[cur].tail = e;
            if (res.isEmpty() || res.getLength() != 1) violation("remove-singleton", "removed element is not a singleton list"); h.push_back({ res, cur }); } }
        else { L none; mustReject("invalid-list", "length of invalid list", [&] { none.getLength(); }); mustReject("invalid-list-add", "addFirst to invalid list", [&] { Val vv; none.addFirst(gen(r, vv)); }); }
      }
      if (k % 7 == 6) for (size_t i = 0; i < h.size(); ++i) check(i, "mid"); }
    for (size_t i = 0; i < h.size(); ++i) check(i, "end");
  }
};
static void mLists(Rng & r, Args & a) {
  World w; initWorld(w, r); for (int k = 0; k < 6; ++k) newFS(w, r); auto am = addrMap(w); CAS * c = w.views[0]; int nops = r.range(10, 90);
  ListWorld<IntListFS, int> li; li.cas = c; li.kind = R_INT; li.mk = [](CAS & c) { return c.createIntListFS(); }; li.gen = [](Rng & r, Val & v) { v = r.chance(60) ? vInt(r.range(0, 5)) : randPrim(r, R_INT, ValOpts()); return (int) v.i; }; li.toV = [](const int & x) { return vInt(x); };
  ListWorld<FloatListFS, float> lf; lf.cas = c; lf.kind = R_FLOAT; lf.mk = [](CAS & c) { return c.createFloatListFS(); }; lf.gen = [](Rng & r, Val & v) { v = r.chance(60) ? vInt(fbits((float) r.range(1, 5))) : randPrim(r, R_FLOAT, ValOpts()); return asF(v.i); }; lf.toV = [](const float & x) { return vInt(fbits(x)); };
  std::list<UnicodeString> keep;
  ListWorld<StringListFS, UnicodeStringRef> ls; ls.cas = c; ls.kind = R_STRING; ls.mk = [](CAS & c) { return c.createStringListFS(); };
  ls.gen = [&](Rng & r, Val & v) { v = r.chance(60) ? vStr(us(std::string("s") + char('0' + r.range(0, 4)))) : vStr(randString(r, S_XML, 12)); keep.push_back(v.s); return UnicodeStringRef(keep.back()); };
  ls.toV = [](const UnicodeStringRef & x) { if (!x.getBuffer()) return Val(); return vStr(UnicodeString(x.getBuffer(), x.length())); };
  ListWorld<ListFS, FeatureStructure> lo; lo.cas = c; lo.kind = R_REF; lo.mk = [](CAS & c) { return c.createListFS(); };
  // elements of FS lists: FSs of one view, null allowed
  std::vector<FeatureStructure> pool; for (int k = 0; k < 5; ++k) pool.push_back(c->createFS(w.s.types[w.s.fsTypes[0]].t)); std::map<lowlevel::TyFS, int> pm; for (int k = 0; k < 5; ++k) pm[addr(pool[k])] = k;
  lo.gen = [&](Rng & r, Val & v) { if (r.chance(8)) { v = Val(); return FeatureStructure(); } int k = r.range(0, 4); v = vRef(k); return pool[k]; };
  lo.toV = [&](const FeatureStructure & f) { if (!f.isValid()) return Val(); auto it = pm.find(addr(f)); return vRef(it == pm.end() ? 99 : it->second); };
  // null FS elements compare through handles without a CAS; keep removal of nulls out of the model
  int which = r.range(0, 3);
  if (which == 0 || r.chance(25)) li.run(r, nops); if (which == 1 || r.chance(25)) lf.run(r, nops); if (which == 2 || r.chance(25)) ls.run(r, nops); if (which == 3) lo.run(r, nops);
  // lists reached through features
  for (int k = 0; k < 3; ++k) { int i = newFS(w, r); for (auto f : w.s.feats(w.o[i].ti)) { if (f->owner < 0 || w.s.types[f->owner].builtin) continue;
      auto & fs = w.o[i].fs;
      if (f->range == "uima.cas.IntegerList") { count("evals"); if (fs.hasListElements(f->f)) violation("haslist-unset", f->name); IntListFS l = fs.getIntListFSValue(f->f); if (!l.isEmpty()) violation("list-feature-unset", "not empty"); l.addLast(7); if (!fs.hasListElements(f->f)) { fs.setFSValue(f->f, l); } if (!fs.hasListElements(f->f) || fs.getIntListFSValue(f->f).getHead() != 7) violation("list-feature", "value lost"); }
      else if (f->range == "uima.cas.FSList") { count("evals"); if (fs.hasListElements(f->f)) violation("haslist-unset", f->name); ListFS l = c->createListFS(); l.addFirst(fs); fs.setFSValue(f->f, l); if (!fs.hasListElements(f->f) || !(addr(fs.getListFSValue(f->f).getHead()) == addr(fs))) violation("list-feature", "value lost"); mustReject("list-wrong-class", "FSList feature as StringList", [&] { fs.getStringListFSValue(f->f); }); }
      else if (f->range == "uima.cas.StringList") { count("evals"); StringListFS l = fs.getStringListFSValue(f->f); UnicodeString t(u"abc"); l.addFirst(UnicodeStringRef(t)); fs.setFSValue(f->f, l); if (!fs.hasListElements(f->f) || us(fs.getStringListFSValue(f->f).getHead()) != t) violation("list-feature", "value lost"); }
      else if (f->range == "uima.cas.FloatList") { count("evals"); FloatListFS l = fs.getFloatListFSValue(f->f); l.addFirst(1.5f); l.addFirst(2.5f); fs.setFSValue(f->f, l); if (fs.getFloatListFSValue(f->f).getLength() != 2) violation("list-feature", "length"); mustReject("list-wrong-class", "FloatList feature as IntList", [&] { fs.getIntListFSValue(f->f); }); } } }
  if (r.chance(2)) { // long list
    IntListFS l = c->createIntListFS(); int n = r.range(20000, 40000); for (int k = 0; k < n; ++k) l.addFirst(k); count("long_lists"); count("evals");
    if ((int) l.getLength() != n) violation("long-list-length", ""); IntListFS x = IntListFS(l.removeElement(0)); if (!x.isValid() || (int) l.getLength() != n - 1) violation("long-list-remove", ""); l.addLast(5); if ((int) l.getLength() != n) violation("long-list-length", ""); }
  if (a.first == Report::get().curCase) sample("nops=" + std::to_string(nops) + " kind=" + std::to_string(which));
}
int main(int argc, char ** argv) {
  ResourceManager::createInstance("vp");
  return drive(argc, argv, { { "values", mValues }, { "arrays", mArrays }, { "lists", mLists } });
}
