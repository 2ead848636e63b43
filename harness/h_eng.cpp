// A01, A02, E01, A03: engines built from random component trees whose primitives are the trace plug-in; every callback is checked
// against an independent model of the flow, the sofa mappings and the life cycle.
#include "eng.hpp"
#include "snap.hpp"
#include "uima/casiterator.hpp"
using namespace vp; using namespace uima;
// ---- recorder ------------------------------------------------------------------------------------------------------------------
enum CB { C_CREATE, C_INIT, C_TS, C_PROC, C_REC, C_BATCH, C_COLL, C_DESTROY, C_DELETE };
static const char CBN[] = "cITpRBCdD";
struct Ev { int cb, inst; bool operator==(const Ev & o) const { return cb == o.cb && inst == o.inst; } };
static std::string showEv(const std::vector<Ev> & v) { std::string s; for (auto & e : v) s += std::string(1, CBN[e.cb]) + std::to_string(e.inst) + " "; return s; }
// callbacks by instance number: the n-th created annotator of the engine under construction is its n-th leaf
struct Recorder : AnnHook { World * w = 0; std::map<Annotator *, int> id; std::vector<Ev> log; int base = 0; std::vector<AnnotatorContext *> ctx; std::string bad;
  std::function<TyErrorId(int cb, int inst, Annotator *)> act; std::function<TyErrorId(int inst, CAS &, ResultSpecification const &)> onProcess;
  void begin(World * x) { w = x; id.clear(); log.clear(); base = 0; ctx.assign(x ? x->leaves.size() : 0, 0); bad.clear(); }
  int at(Annotator * a) { auto i = id.find(a); if (i == id.end()) { bad += "unknown annotator; "; return -1; } return i->second; }
  TyErrorId ev(int cb, Annotator * a) { int k = at(a); log.push_back({ cb, k }); return act ? act(cb, k, a) : 0; }
  void created(Annotator * a) override { if (id.count(a)) bad += "address reused while alive; "; id[a] = base++; log.push_back({ C_CREATE, id[a] }); }
  void deleted(Annotator * a) override { log.push_back({ C_DELETE, at(a) }); id.erase(a); }
  TyErrorId initialize(Annotator * a, AnnotatorContext & c) override { int k = at(a); if (k >= 0 && k < (int) ctx.size()) { ctx[k] = &c; std::string n = utf8(c.getTaeSpecifier().getAnalysisEngineMetaData()->getName()); if (n != w->leaves[k]->a->name) violation("wrong-component", "instance " + std::to_string(k) + " is " + n + " not " + w->leaves[k]->a->name); } else if (w) violation("too-many-instances", std::to_string(k)); return ev(C_INIT, a); }
  TyErrorId typeSystemInit(Annotator * a, TypeSystem const &) override { return ev(C_TS, a); }
  TyErrorId reconfigure(Annotator * a) override { return ev(C_REC, a); }
  TyErrorId process(Annotator * a, CAS & c, ResultSpecification const & s) override { int k = at(a); log.push_back({ C_PROC, k }); if (onProcess) return onProcess(k, c, s); return act ? act(C_PROC, k, a) : 0; }
  TyErrorId batch(Annotator * a) override { return ev(C_BATCH, a); }
  TyErrorId collection(Annotator * a) override { return ev(C_COLL, a); }
  TyErrorId destroy(Annotator * a) override { return ev(C_DESTROY, a); }
};
static Recorder rec;
static void checkGone(const char * where) { if (!rec.id.empty() || !rec.bad.empty()) { violation("annotators-left", std::string(where) + " " + std::to_string(rec.id.size()) + " " + rec.bad); rec.id.clear(); rec.bad.clear(); } rec.act = nullptr; rec.onProcess = nullptr; }

// ---- A01: flow -----------------------------------------------------------------------------------------------------------------
typedef std::set<std::string> Set;
static std::string show(const Set & s) { std::string o; for (auto & x : s) o += x + ","; return o; }
static const char * const LANGS[] = { "en", "en-US", "en_gb", "de", "de-CH", "x-unspecified", "fr-ca", "zh", "X-Unspecified" };
static const char * const DOCLANGS[] = { "en", "en-us", "en-GB", "de", "de-at", "", "fr", "fr-ca", "pt-br", "zh-tw" };
static std::string normLang(std::string s) { for (auto & c : s) c = c == '_' ? '-' : (char) tolower((unsigned char) c); return s == "x-unspecified" ? "" : s; }
// the outputs a component declares for a language; false if it says nothing about it
struct CapTable { std::map<std::string, Set> m, noTerr; bool none = false;
  explicit CapTable(const DAe & a) { none = a.caps.empty(); for (auto & c : a.caps) { Strs ls = c.langs; if (ls.empty()) ls.push_back(""); for (auto & l : ls) { Set & s = m[normLang(l)]; for (auto & t : c.types[1]) s.insert(t); for (auto & f : c.feats[1]) s.insert(f); } }
    auto u = m.find(""); if (u != m.end()) { Set all = u->second; for (auto & p : m) if (!p.first.empty() && !p.second.empty()) p.second.insert(all.begin(), all.end()); }
    for (auto & p : m) if (p.first.find('-') == std::string::npos) noTerr[p.first] = p.second;
    std::vector<std::string> terr; for (auto & p : m) if (p.first.find('-') != std::string::npos) terr.push_back(p.first);
    for (auto & t : terr) { Set & s = m[t.substr(0, 2)]; m[t].insert(s.begin(), s.end()); } for (auto & t : terr) m[t.substr(0, 2)].insert(m[t].begin(), m[t].end()); }
  const Set * find(const std::string & l) const { auto i = m.find(l); if (i != m.end()) return &i->second; i = noTerr.find(l.substr(0, 2)); if (i != noTerr.end()) return &i->second; i = m.find(""); return i == m.end() ? 0 : &i->second; } };
struct Call { int inst; Set spec; };
// true if the component fails: what it was to produce is then still missing
static bool simulate(const Inst & n, const std::string & lang, Set spec, std::vector<Call> & out, const std::set<int> & failing) {
  if (n.a->prim) { out.push_back({ n.leaf, spec }); return failing.count(n.leaf) > 0; }
  bool failed = false;
  for (auto & k : n.kids) { CapTable t(*k->a); const Set * o = t.find(lang); bool empty = t.none || (o && o->empty()); Set m; if (o && !empty) for (auto & x : spec) if (o->count(x)) m.insert(x);
    if (n.a->flow == 1 || empty || !m.empty()) { if (simulate(*k, lang, m, out, failing)) failed = true; else for (auto & x : m) spec.erase(x); } }
  return failed; }
static Set names(ResultSpecification const & s) { Set o; for (auto & t : s.getTypeOrFeatureSTLSet()) { UnicodeString n; if (t.isType()) n = us(t.getType().getName()); else n = us(t.getFeature().getName()); std::string q = utf8(n); if (!t.isType()) { Type it; t.getFeature().getIntroType(it); q = utf8(us(it.getName())) + ":" + q; } o.insert(q); } return o; }
static void flow(Rng & r, Args & args) {
  Scratch sc(args.tmp); Cwd cwd; Tree t(r, args, sc.d); bool cap = r.chance(65); Strs outs; for (int i = 0; i < NT; ++i) { outs.push_back(tn(i)); outs.push_back(tn(i) + ":f"); if (i < 3) outs.push_back(tn(i) + ":g"); } outs.push_back("uima.tcas.Annotation"); outs.push_back("uima.tcas.Annotation:begin");
  int nl = r.range(1, 4), dens = r.range(5, 40); Strs pool; for (int i = 0; i < nl; ++i) pool.push_back(LANGS[r.below(9)]);
  t.dress = [&](DAe & a) { if (!a.prim) a.flow = cap && r.chance(85) ? 2 : 1; int n = r.chance(12) ? 0 : r.chance(60) ? 1 : r.range(2, 4); for (int i = 0; i < n; ++i) { DCap c; int mine = r.chance(12) ? 0 : dens; for (int k = 0; k < 2; ++k) for (auto & o : outs) if (r.chance(k ? mine : 20)) (o.find(':') == std::string::npos ? c.types : c.feats)[k].push_back(o); int q = r.chance(20) ? 0 : r.range(1, 3); for (int j = 0; j < q; ++j) c.langs.push_back(r.pick(pool)); if (r.chance(6)) c.sofas[r.below(2)].push_back("_InitialView"); a.caps.push_back(c); } };
  t.root = t.mk(0, r.range(1, 3), r.chance(93)); t.types(); t.render(); World w; w.build(w.root, t.root, 0, "");
  rec.begin(&w); Eng e; create(r, t, e); if (!e.e) { violation("creation-failed", e.oc + " " + (e.err.getErrorId() ? e.err.asString() : "")); return; } if (rec.base != (int) w.leaves.size()) { violation("instance-count", std::to_string(rec.base) + " of " + std::to_string(w.leaves.size())); checkGone("x"); }
  { CAS * c = e.e->newCAS(); TypeSystem const & ts = c->getTypeSystem(); int docs = r.range(2, 8); std::vector<Call> got; int seq = 0; std::set<int> failing;
    rec.onProcess = [&](int inst, CAS & cas, ResultSpecification const & s) -> TyErrorId { Call k; k.inst = inst; k.spec = names(s); got.push_back(k); CAS & v = *cas.getView(CAS::NAME_DEFAULT_SOFA); FSIndex ix = v.getIndexRepository().getIndex("marks"); Feature fs = ts.getFeatureByFullName("Mark:seq"); Set have; FSIterator it = ix.iterator(); for (it.moveToFirst(); it.isValid(); it.moveToNext()) have.insert(std::to_string(it.get().getIntValue(fs))); if ((int) have.size() != seq || (int) ix.getSize() != seq) violation("earlier-results-missing", std::to_string(have.size()) + " of " + std::to_string(seq));
      FeatureStructure f = v.createFS(ts.getType("Mark")); f.setIntValue(fs, seq++); v.getIndexRepository().addFS(f);
      for (int q = 0; q < 3; ++q) { std::string o = r.pick(outs); bool in = false; size_t p = o.find(':'); in = p == std::string::npos ? s.contains(ts.getType(us(o))) : s.contains(ts.getFeatureByFullName(us(o))); if (in != (k.spec.count(o) > 0)) violation("contains", o); } return failing.count(inst) ? 7000 + inst : 0; };
    for (int d = 0; d < docs; ++d) { if (d && r.chance(30)) { delete c; c = e.e->newCAS(); } else if (d) c->reset(); UnicodeString text = randString(r, S_ANY | S_NONUL, 30); if (text.isEmpty()) text = "x"; c->setDocumentText(text.getBuffer(), text.length(), true); std::string lang = r.chance(60) ? DOCLANGS[r.below(10)] : normLang(r.pick(pool)); DocumentFS doc = c->getDocumentAnnotation(); if (!lang.empty() || r.chance(50)) doc.setLanguage(Language(lang.c_str()));
      Set want; ResultSpecification rs; bool dflt = r.chance(35), all = r.chance(20); if (dflt) { for (auto & q : t.root.caps) { want.insert(q.types[1].begin(), q.types[1].end()); want.insert(q.feats[1].begin(), q.feats[1].end()); } } else for (auto & o : outs) if (all || r.chance(50)) { want.insert(o); if (o.find(':') == std::string::npos) rs.add(TypeOrFeature(ts.getType(us(o)))); else rs.add(TypeOrFeature(ts.getFeatureByFullName(us(o)))); }
      got.clear(); seq = 0; failing.clear(); if (r.chance(20)) for (size_t q = 0; q < w.leaves.size(); ++q) if (r.chance(40)) failing.insert((int) q);
      std::vector<Call> exp; bool fails = simulate(w.root, normLang(lang), want, exp, failing); TyErrorId rc = 0; AnalysisEngine * ae = e.e; std::string oc = outcome([&] { rc = dflt ? ae->process(*c) : ae->process(*c, rs); }); op("doc lang '" + lang + "' " + (dflt ? "default" : "explicit"));
      if (fails) count("failing-documents"); if (oc != "ok" || (rc != 0) != fails || (fails && !failing.count((int) rc - 7000))) { violation("process-failed", oc + " " + std::to_string((long) rc)); break; } std::string a, b; for (auto & k : exp) a += std::to_string(k.inst) + " "; for (auto & k : got) b += std::to_string(k.inst) + " ";
      if (a != b) violation("calls", "lang " + lang + " expected " + a + "got " + b); else for (size_t k = 0; k < exp.size(); ++k) if (exp[k].spec != got[k].spec) { violation("requested-outputs", std::to_string(exp[k].inst) + " expected " + show(exp[k].spec) + " got " + show(got[k].spec)); break; }
      if (!dflt && names(rs) != want) violation("callers-specification-changed", show(names(rs))); count("documents"); count("calls", (long) got.size()); count("skipped", (long) w.leaves.size() - (long) got.size()); count("evals"); seen(hashStr(a + lang + show(want))); if (args.first == 0) sample("lang " + lang + " calls " + a); }
    delete c; }
  delete e.e; e.e = 0; checkGone("flow"); }

// ---- A02: sofa mappings ----------------------------------------------------------------------------------------------------------
static const char * const SN[] = { "A", "B", "C", "D", "x.y", "_InitialView", "n1", "n2", "n3" };      // n*: not created by the application
static std::string res(const Inst * i, std::string n) { for (; i->up; i = i->up) for (auto & s : i->up->a->sofas) if (s.key == i->key && (s.comp.empty() ? "_InitialView" : s.comp) == n) { n = s.agg; break; } return n; }
static bool hasSofas(const DAe & a) { for (auto & c : a.caps) if (!c.sofas[0].empty() || !c.sofas[1].empty()) return true; return false; }
static void sofa(Rng & r, Args & args) {
  Scratch sc(args.tmp); Cwd cwd; Tree t(r, args, sc.d); int dens = r.range(0, 70);
  t.dress = [&](DAe & a) { a.flow = a.prim ? 0 : 1; if (r.chance(65)) { DCap c; int n = r.below(4); for (int k = 0; k < n; ++k) c.sofas[r.below(2)].push_back(SN[r.below(9)]); a.caps.push_back(c); if (r.chance(30)) a.caps.insert(r.chance(50) ? a.caps.begin() : a.caps.end(), DCap()); }
    for (auto & d : a.dels) { std::vector<int> perm; for (int i = 0; i < 9; ++i) perm.push_back(i); int style = r.below(4); // arbitrary, swap, rotation, all to one
      if (style) for (int i = 8; i > 0; --i) std::swap(perm[i], perm[r.below(i + 1)]); for (int i = 0; i < 9; ++i) if (r.chance(dens)) { DSofa s; s.key = d.first; s.comp = i == 5 && r.chance(60) ? "" : SN[i]; s.agg = style == 3 ? SN[perm[0]] : style ? SN[perm[i]] : SN[r.below(9)]; if (s.comp.empty() && s.agg[0] == 'n' && r.chance(80)) s.agg = "A"; a.sofas.push_back(s); } }
    for (size_t i = a.sofas.size(); i > 1; --i) std::swap(a.sofas[i - 1], a.sofas[r.below((int) i)]); };
  t.root = t.mk(0, r.range(1, 3), r.chance(95)); t.types(); t.render(); World w; w.build(w.root, t.root, 0, "");
  int engines = r.chance(25) ? 2 : 1; std::unique_ptr<AnalysisEngineDescription> desc; CAS * keep = 0;
  for (int en = 0; en < engines; ++en) { rec.begin(&w); Eng e;
    if (engines == 2) { std::string file = sc.d + "/" + t.self; if (!desc) { desc.reset(new AnalysisEngineDescription()); XMLParser x; x.parseAnalysisEngineDescription(*desc, us(file)); desc->validate(); desc->commit(); } e.e = Framework::createAnalysisEngine(*desc, e.err); } else create(r, t, e);
    if (!e.e) { violation("creation-failed", e.oc + " " + (e.err.getErrorId() ? e.err.asString() : "")); return; }
    CAS * c = e.e->newCAS(); std::set<std::string> have; bool blocked = false; int calls = 0;
    rec.onProcess = [&](int inst, CAS & cas, ResultSpecification const &) -> TyErrorId { const Inst * me = w.leaves[inst]; ++calls;
      if (!hasSofas(*me->a) && me->up) { std::string want = res(me, "_InitialView"), got = utf8(us(cas.getViewName())); if (want != got) violation("default-view", "instance " + std::to_string(inst) + " expected " + want + " got " + got); }
      int n = r.range(2, 7); for (int q = 0; q < n; ++q) { std::string l = SN[r.below(9)], g = res(me, l), viol; if (!me->up) g = l; op("leaf " + std::to_string(inst) + " " + l + " -> " + g); count("accesses"); if (g != l) count("mapped");
        int how = r.below(5); std::string oc; CAS * v = 0;
        if (how == 0) { std::string m = utf8(rec.ctx[inst]->mapToSofaID(us(l)).getSofaId()), cn = utf8(rec.ctx[inst]->mapToSofaID(us(l)).getComponentSofaName()); if (m != g || cn != l) violation("map-to-sofa-id", "instance " + std::to_string(inst) + " " + l + " expected " + g + " got " + m + "/" + cn); continue; }
        if (how == 1) { oc = outcome([&] { v = cas.createView(us(l)); }); bool ok = !have.count(g); if (ok ? oc != "ok" : !isUima(oc)) { violation("create-view", l + " -> " + g + ": " + oc); continue; } if (!ok) { count("duplicates-refused"); continue; } have.insert(g); UnicodeString txt = us("text of " + g); v->setDocumentText(txt.getBuffer(), txt.length(), true); count("created"); }
        else if (how == 2) { SofaFS s = cas.getSofa(rec.ctx[inst]->mapToSofaID(us(l))); if (s.isValid() != (have.count(g) > 0)) { violation("get-sofa", l + " -> " + g); continue; } if (!s.isValid()) continue; v = cas.getView(s); }
        else { oc = outcome([&] { v = cas.getView(us(l)); }); bool ok = have.count(g) > 0; if (ok ? oc != "ok" : !isUima(oc)) { violation("get-view", "instance " + std::to_string(inst) + " " + l + " -> " + g + ": " + oc); continue; } if (!ok) { count("missing-refused"); continue; } }
        std::string vn = utf8(us(v->getViewName())), tx = utf8(us(v->getDocumentText())); if (vn != g || tx != "text of " + g) violation("wrong-view", "instance " + std::to_string(inst) + " " + l + " expected " + g + " got " + vn + " '" + tx + "'"); }
      return 0; };
    std::function<bool(const Inst &)> reachable = [&](const Inst & i) { if (i.up && !hasSofas(*i.a) && res(&i, "_InitialView")[0] == 'n') return false; for (auto & k : i.kids) if (!reachable(*k)) return false; return true; }; blocked = !reachable(w.root);
    int docs = r.range(1, 4); for (int d = 0; d < docs; ++d) { if (d) c->reset(); have.clear(); calls = 0; std::string oc = outcome([&] { for (int i = 0; i < 6; ++i) { std::string n = SN[i]; CAS * v = n == "_InitialView" ? c : c->createView(us(n)); UnicodeString txt = us("text of " + n); v->setDocumentText(txt.getBuffer(), txt.length(), true); have.insert(n); } }); if (oc != "ok") { violation("application-names-mapped", "creating views before document " + std::to_string(d) + ": " + oc); break; }
      TyErrorId rc = 0; oc = outcome([&] { rc = e.e->process(*c); }); count("documents");
      if (blocked) { count("blocked"); if (oc == "ok" && rc == 0 && calls != (int) w.leaves.size()) violation("delegate-silently-skipped", std::to_string(calls)); } else if (oc != "ok" || rc || calls != (int) w.leaves.size()) { violation("process-failed", oc + " " + std::to_string((long) rc) + " calls " + std::to_string(calls)); break; }
      for (int q = 0; q < 9; ++q) { std::string n = SN[q]; CAS * v = 0; oc = outcome([&] { v = c->getView(us(n)); }); bool ok = have.count(n) > 0; if ((oc == "ok") != ok) violation("application-names-mapped", n + ": " + oc); else if (ok && utf8(us(v->getViewName())) != n) violation("application-names-mapped", n + " gives " + utf8(us(v->getViewName()))); }
      count("evals"); }
    seen(hashStr(t.xml)); if (args.first == 0) sample(std::to_string(w.leaves.size()) + " components, " + std::to_string(docs) + " documents"); delete e.e; e.e = 0; checkGone("sofa");
    if (keep) delete keep; keep = 0; delete c; } }

// ---- E01: life cycle and failures ------------------------------------------------------------------------------------------------
struct Fault { bool exc = false; TyErrorId code = 0; };
static TyErrorId fire(const Fault & f) { if (f.exc) { UIMA_EXC_THROW_NEW(ExcInvalidRequest, f.code, ErrorMessage(UIMA_MSG_ID_LITERAL_STRING, "scripted failure"), ErrorMessage(UIMA_MSG_ID_LITERAL_STRING, "testing"), ErrorInfo::recoverable); } return f.code; }
static void life(Rng & r, Args & args) {
  Scratch sc(args.tmp); Cwd cwd; Tree t(r, args, sc.d); t.dress = [&](DAe & a) { a.flow = a.prim ? 0 : 1; if (r.chance(20)) { DCap c; c.types[1].push_back(tn(r.below(NT))); a.caps.push_back(c); } };
  t.root = t.mk(0, r.range(1, 3), r.chance(85)); t.types(); t.render(); World w; w.build(w.root, t.root, 0, ""); int n = (int) w.leaves.size(); int p = r.chance(40) ? 0 : r.range(2, 25), pInit = r.chance(60) ? 0 : r.range(5, 30); int serial = 0;
  std::vector<Ev> exp; std::vector<TyErrorId> raised; TyErrorId excRaised = 0; std::map<std::pair<int, int>, Fault> plan; auto mkFault = [&]() { Fault f; f.exc = r.chance(50); f.code = r.chance(50) ? 20000 + serial++ : r.chance(50) ? (TyErrorId) UIMA_ERR_USER_ANNOTATOR_COULD_NOT_PROCESS : (TyErrorId) UIMA_ERR_USER_ANNOTATOR_COULD_NOT_INIT; return f; };
  rec.begin(&w); rec.act = [&](int cb, int inst, Annotator *) -> TyErrorId { auto i = plan.find({ cb, inst }); if (i == plan.end()) return 0; Fault f = i->second; raised.push_back(f.code); count(std::string("fault-") + CBN[cb] + (f.exc ? "-exception" : "-code")); return fire(f); };
  auto planFor = [&](int cb, int pct) { for (int i = 0; i < n; ++i) { plan.erase({ cb, i }); if (pct && r.chance(pct)) plan[{ cb, i }] = mkFault(); } }; planFor(C_INIT, pInit); planFor(C_TS, pInit); planFor(C_DESTROY, p ? p : pInit ? 10 : 0);
  // creation
  int failAt = -1, failCb = 0; for (int i = 0; i < n && failAt < 0; ++i) { exp.push_back({ C_CREATE, i }); exp.push_back({ C_INIT, i }); if (plan.count({ C_INIT, i })) { failAt = i; failCb = C_INIT; break; } exp.push_back({ C_TS, i }); if (plan.count({ C_TS, i })) { failAt = i; failCb = C_TS; } }
  Eng e; create(r, t, e); count("engines");
  auto destroyed = [&](const std::vector<Ev> & l) { std::vector<int> o; for (auto & x : l) if (x.cb == C_DESTROY) o.push_back(x.inst); return o; };
  auto checkTeardown = [&](int count_, const char * where, int lenient) { // every annotator below count_ destroyed once in reverse order and deleted
    std::vector<int> d = destroyed(rec.log), x; for (int i = count_ - 1; i >= 0; --i) x.push_back(i); if (lenient >= 0 && (d.empty() || d[0] != lenient) && !x.empty() && x[0] == lenient) x.erase(x.begin()); if (d != x) violation("teardown-order", std::string(where) + " " + showEv(rec.log)); if (!rec.id.empty()) violation("annotators-left", std::string(where) + " " + std::to_string(rec.id.size()) + " " + showEv(rec.log)); };
  if (failAt >= 0) { count("failed-creations"); TyErrorId code = plan[{ failCb, failAt }].code; if (e.e) violation("failure-swallowed", std::string("creation, ") + CBN[failCb]); else if (e.oc == "ok" ? e.err.getErrorId() != code : !isUima(e.oc)) violation("creation-error", e.oc + " " + std::to_string((long) e.err.getErrorId()) + " expected " + std::to_string((long) code));
    if (!e.e) { std::vector<Ev> head(rec.log.begin(), rec.log.begin() + std::min(rec.log.size(), exp.size())); if (!(head == exp)) violation("creation-calls", "expected " + showEv(exp) + " got " + showEv(rec.log)); for (size_t i = exp.size(); i < rec.log.size(); ++i) if (rec.log[i].cb != C_DESTROY && rec.log[i].cb != C_DELETE) { violation("call-after-failed-initialization", showEv(rec.log)); break; } checkTeardown(failAt + 1, "failed creation", failCb == C_INIT ? failAt : -1); count("evals"); seen(hashStr(showEv(rec.log))); rec.id.clear(); checkGone("failed"); return; } }
  if (!e.e) { violation("creation-failed", e.oc + " " + (e.err.getErrorId() ? e.err.asString() : "")); checkGone("x"); return; }
  if (!(rec.log == exp)) violation("creation-calls", "expected " + showEv(exp) + " got " + showEv(rec.log)); if (!e.e->isInitialized()) violation("not-initialized", "");
  AnalysisEngine * ae = e.e; CAS * c = ae->newCAS(); UnicodeString txt("some text"); bool gone = false; int steps = r.range(3, 14); std::string script;
  for (int s = 0; s < steps; ++s) { if (!gone && s == steps - 1 && r.chance(50)) break; int k = r.below(gone ? 9 : 12); rec.log.clear(); raised.clear(); exp.clear(); TyErrorId rc = 0; std::string oc; bool refused = gone; TyErrorId lastCode = 0; bool throws = false;
    auto all = [&](int cb, bool stopAtExc) { for (int i = 0; i < n; ++i) { exp.push_back({ cb, i }); auto f = plan.find({ cb, i }); if (f != plan.end()) { lastCode = f->second.code; if (f->second.exc && stopAtExc) { throws = true; break; } } } };
    switch (k) { case 0: case 1: case 2: case 9: case 10: { planFor(C_PROC, p); if (!gone) { all(C_PROC, true); c->reset(); c->setDocumentText(txt.getBuffer(), txt.length(), true); } oc = outcome([&] { ResultSpecification rs; rc = r.chance(70) ? ae->process(*c) : ae->process(*c, rs); }); script += 'p'; break; }
      case 3: case 11: planFor(C_REC, p); if (!gone) all(C_REC, false); oc = outcome([&] { rc = ae->reconfigure(); }); script += 'R'; break;
      case 4: planFor(C_BATCH, p); if (!gone) all(C_BATCH, false); oc = outcome([&] { rc = ae->batchProcessComplete(); }); script += 'B'; break;
      case 5: planFor(C_COLL, p); if (!gone) all(C_COLL, false); oc = outcome([&] { rc = ae->collectionProcessComplete(); }); script += 'C'; break;
      case 6: refused = true; oc = outcome([&] { rc = ae->initialize(ae->getAnnotatorContext().getTaeSpecifier()); }); script += 'i'; break;
      case 7: if (!gone && r.chance(70)) continue; if (!gone) for (int i = n - 1; i >= 0; --i) { exp.push_back({ C_DESTROY, i }); auto f = plan.find({ C_DESTROY, i }); if (f != plan.end()) lastCode = f->second.code; } oc = outcome([&] { rc = ae->destroy(); }); script += 'd'; break;
      default: { oc = outcome([&] { if (gone) ae->processAndOutputNewCASes(*c); }); if (gone && !isUima(oc)) violation("multiplier-calls", oc); if (!rec.log.empty() && gone) violation("callback-without-request", showEv(rec.log)); script += 'n'; continue; } }
    std::vector<Ev> got; for (auto & x : rec.log) if (x.cb != C_DELETE) got.push_back(x); op(std::string("step ") + script.back() + " -> " + oc + " " + std::to_string((long) rc)); count(std::string("step-") + script.back());
    if (refused) { if (oc != "ok" || rc != UIMA_ERR_ENGINE_INVALID_CALLING_SEQUENCE) violation("not-refused", std::string(1, script.back()) + " " + oc + " " + std::to_string((long) rc)); if (!rec.log.empty()) violation("callback-of-refused-call", showEv(rec.log)); count("refused"); }
    else { if (!(got == exp)) violation(std::string("calls-") + script.back(), "expected " + showEv(exp) + " got " + showEv(rec.log));
      if (throws) { if (oc != "uima:" + std::to_string((long) lastCode)) violation("exception-lost", oc + " rc " + std::to_string((long) rc) + " expected " + std::to_string((long) lastCode)); } else if (oc != "ok") violation("unexpected-exception-from-call", script.back() + oc); else if (raised.empty() ? rc != 0 : std::find(raised.begin(), raised.end(), rc) == raised.end()) violation("error-code", std::string(1, script.back()) + " rc " + std::to_string((long) rc) + " raised " + std::to_string(raised.size())); }
    if (k == 7 && !gone) { gone = true; if (!rec.id.empty()) violation("annotators-left", "after destroy " + showEv(rec.log)); }
    if (ae->isInitialized() == gone) violation("state", script); count("evals"); }
  seen(hashStr(script + t.xml)); rec.log.clear(); delete c; delete e.e; e.e = 0; if (!gone) checkTeardown(n, "delete", -1); else if (!rec.log.empty()) violation("callback-after-destroy", showEv(rec.log)); rec.id.clear(); if (args.first == 0) sample(script + " over " + std::to_string(n) + " annotators"); checkGone("life"); }

// ---- A03: CAS multipliers --------------------------------------------------------------------------------------------------------
struct Multiplier : AnnHook { AnnotatorContext * ctx = 0; int k = 0, left = 0, nextFault = 0, procFault = 0; long nexts = 0; Schema * s = 0; bool bound = false; CAS * last = 0; u64 seed = 0; std::string fillOutcome, emptyText; GenOpts o; SnapOpts so; int nOut = 0; Annotator * me = 0; int lives = 0, inits = 0; std::vector<CAS *> mine;
  void created(Annotator * a) override { me = a; ++lives; } void deleted(Annotator *) override { --lives; }
  TyErrorId initialize(Annotator *, AnnotatorContext & c) override { ctx = &c; ++inits; return 0; }
  int casInstances(Annotator *) override { return k; }
  TyErrorId process(Annotator *, CAS &, ResultSpecification const &) override { if (procFault == 1) return 4711; if (procFault == 2) { UIMA_EXC_THROW_NEW(ExcInvalidRequest, 4712, ErrorMessage(UIMA_MSG_ID_LITERAL_STRING, "scripted failure"), ErrorMessage(UIMA_MSG_ID_LITERAL_STRING, "testing"), ErrorInfo::recoverable); } left = nOut; return 0; }
  bool hasNext(Annotator *) override { return left > 0; }
  CAS & next(Annotator *) override { ++nexts; last = 0; CAS & c = ctx->getEmptyCAS(); last = &c; if (!bound) { Env::bind(*s, c.getTypeSystem()); bound = true; } emptyText = snapshot(*s, c, so).text();
    Rng r(seed); GenCas g(*s); fillOutcome = outcome([&] { genCas(g, r, c, o); }); if (nextFault) { ctx->releaseCAS(c); last = 0; UIMA_EXC_THROW_NEW(ExcInvalidRequest, 4713, ErrorMessage(UIMA_MSG_ID_LITERAL_STRING, "scripted failure"), ErrorMessage(UIMA_MSG_ID_LITERAL_STRING, "testing"), ErrorInfo::recoverable); }
    --left; return c; } };
static void mult(Rng & r, Args & args) {
  Scratch sc(args.tmp); Schema s = genSchema(r), ps = s; Env env(s); Multiplier m; m.k = r.chance(6) ? 0 : r.range(1, 4); m.s = &ps; m.so.sofaNums = true; m.so.indexOrder = true; m.o.maxFS = 8; SnapOpts so = m.so; installHook(args.extra["--plugins"], &m); struct Back { Args & a; ~Back() { installHook(a.extra["--plugins"], &rec); } } back{ args };
  std::string xml = aeXml(s, args.extra["--plugins"] + "/trace.so"), file = sc.d + "/m.xml"; writeFile(file, xml); Eng e; std::unique_ptr<CAS> fresh(env.newCAS()); std::string emptyText = snapshot(s, *fresh, so).text();
  e.oc = outcome([&] { if (r.chance(50)) e.e = Framework::createAnalysisEngine(file.c_str(), e.err); else { UnicodeString u = us(xml); e.e = Framework::createAnalysisEngine(u.getBuffer(), u.length(), e.err); } }); if (!e.e) { violation("creation-failed", e.oc); return; }
  AnalysisEngine & ae = *e.e; std::unique_ptr<CAS> in(ae.newCAS()); AnnotatorContext & pool = ae.getAnnotatorContext(); struct Held { CAS * c; std::string text; int in, nr; }; std::vector<Held> held; std::set<CAS *> all; std::string script;
  auto release = [&](size_t j) { Held h = held[j]; held.erase(held.begin() + j); CAS * v = h.c; int w = r.below(10); if (w == 0) v = h.c->getBaseCas(); else if (w == 1) v = h.c->getBaseCas()->createView(us("releasedThroughThis")); pool.releaseCAS(*v); count("releases"); script += 'r'; if (w == 2) { pool.releaseCAS(*h.c); count("double-releases"); } else if (w == 3) { pool.releaseCAS(*in); pool.releaseCAS(*fresh); count("foreign-releases"); } };
  auto verify = [&](const char * when) { for (auto & h : held) { Snap q = snapshot(ps, *h.c, so); if (q.text() != h.text) { violation("held-cas-changed", std::string(when) + ": " + std::to_string(h.in) + "/" + std::to_string(h.nr) + "\n" + script); h.text = q.text(); } } };
  int inputs = r.range(1, 6); for (int d = 0; d < inputs; ++d) { in->reset(); UnicodeString text = us("input " + std::to_string(d)); in->setDocumentText(text.getBuffer(), text.length(), true); m.nOut = r.chance(15) ? 0 : r.range(1, 7); m.procFault = r.chance(12) ? r.range(1, 2) : 0; m.left = 0; std::unique_ptr<CASIterator> it; script += 'P';
    std::string oc = outcome([&] { it.reset(new CASIterator(ae.processAndOutputNewCASes(*in))); }); count("inputs");
    if (m.procFault) { count("process-faults"); if (!isUima(oc)) violation("failure-swallowed", "process: " + oc); if (m.procFault == 2 && oc != "uima:4712") violation("exception-lost", oc); continue; }
    if (oc != "ok") { violation("process-failed", oc); break; }
    int got = 0, guard = 0; bool abandon = false; while (guard++ < 60) {
      for (int q = r.range(1, 3); q--; ) { bool hn = false; oc = outcome([&] { hn = it->hasNext(); }); if (oc != "ok" || hn != (m.left > 0)) violation("has-next", oc + " " + std::to_string(hn) + " with " + std::to_string(m.left) + " left"); }
      if (!m.left || (abandon = r.chance(3))) break; if (r.chance(10)) { CASIterator copy(*it); it.reset(new CASIterator(copy)); count("iterator-copies"); } if (r.chance(5)) it->release();
      m.seed = r.next(); m.nextFault = r.chance(6); int before = m.left; long nb = m.nexts; CAS * c = 0; oc = outcome([&] { c = &it->next(); }); if (m.nexts != nb + 1) violation("next-calls", std::to_string(m.nexts - nb)); script += oc == "ok" ? 'n' : 'x';
      if ((int) held.size() >= m.k) { count("pool-refusals"); if (!isUima(oc)) violation("more-than-announced", std::to_string(held.size()) + " in use of " + std::to_string(m.k) + " " + oc); if (m.left != before) violation("harness-left", ""); if (held.empty()) break; if (r.chance(80)) release(r.below((int) held.size())); else { abandon = r.chance(20); if (abandon) break; } continue; }
      if (m.nextFault) { count("next-faults"); if (oc != "uima:4713") violation("exception-lost", "next: " + oc); m.nextFault = 0; continue; }
      if (oc != "ok") { violation("pool-refuses", oc + " with " + std::to_string(held.size()) + " of " + std::to_string(m.k) + " in use\n" + script); break; }
      if (c != m.last) violation("other-cas-delivered", ""); if (m.emptyText != emptyText) violation("old-content", script); for (auto & h : held) if (h.c->getBaseCas() == c->getBaseCas()) violation("delivered-twice", script); if (c->getBaseCas() == in->getBaseCas()) violation("input-delivered", ""); all.insert(c->getBaseCas()); if ((int) all.size() > m.k) violation("too-many-instances", std::to_string(all.size()));
      std::unique_ptr<CAS> ref(env.newCAS()); Rng r2(m.seed); GenCas g(s); std::string x = outcome([&] { genCas(g, r2, *ref, m.o); }); Snap want = snapshot(s, *ref, so), have = snapshot(ps, *c, so); if (x != m.fillOutcome || want.text() != have.text()) violation("content" + diffKey(want, have), x + " vs " + m.fillOutcome + " " + firstDiff(want, have)); seen(have.hash()); count("evals"); count("delivered"); count("nodes", have.nodes);
      held.push_back({ c, have.text(), d, got++ }); if (r.chance(35)) verify("after delivery"); while (!held.empty() && r.chance(45)) release(r.below((int) held.size())); }
    if (!abandon && guard < 60 && m.left && !(m.k == 0)) violation("not-all-delivered", std::to_string(m.left)); if (abandon) count("abandoned"); verify("after input"); if (utf8(us(in->getDocumentText())) != "input " + std::to_string(d)) violation("input-changed", "");
    if (r.chance(15)) { m.left = 0; TyErrorId rc = 0; oc = outcome([&] { rc = ae.process(*in); }); if (oc != "ok" || rc) violation("plain-process", oc); if (r.chance(50)) outcome([&] { ae.reconfigure(); ae.batchProcessComplete(); }); } }
  if (args.first == 0) sample("pool " + std::to_string(m.k) + " " + script); in.reset(); delete e.e; e.e = 0; if (m.lives != 0 || m.inits != 1) violation("annotators-left", std::to_string(m.lives)); }

// ---- C01: configuration parameters ------------------------------------------------------------------------------------------------
static const char * const PN[] = { "P0", "P1", "P2", "P3", "P4", "undeclared" }; static const char * const GN[] = { "en", "en-us", "en-us-x", "de", "de-ch", "other", "dflt", "nowhere" };
struct CVal { int type = 0; bool multi = false; Strs v; bool operator==(const CVal & o) const { return type == o.type && multi == o.multi && v == o.v; } };
static std::string show(const CVal & v) { std::string s = std::string(v.multi ? "[" : "") + "SIFB"[v.type] + ":"; for (auto & x : v.v) s += x.substr(0, 40) + "|"; return s; }
struct CState { bool grouped = false, hasDef = false; std::string def; int strategy = 0; std::map<std::string, std::map<std::string, DParam>> decl; std::map<std::string, std::map<std::string, CVal>> val;
  bool declared(const std::string & g, const std::string & n, const std::string & key, DParam * out = 0) const { const DParam * p = 0; for (auto & q : { g, std::string("*") }) { auto i = decl.find(q); if (i == decl.end()) continue; auto j = i->second.find(n); if (j != i->second.end()) { p = &j->second; break; } } if (!p) return false; if (out) *out = *p; return key.empty() || p->restr.empty() || std::find(p->restr.begin(), p->restr.end(), key) != p->restr.end(); }
  // 0 invalid request, 1 no value, 2 value
  int lookup(const std::string & g, const std::string & n, int strat, const std::string & key, CVal & out) const { if (!grouped && !g.empty()) return 0; Strs gs; gs.push_back(g); if (grouped && strat) { if (strat == 2) { std::string x = g; size_t p; while ((p = x.rfind('-')) != std::string::npos) { x = x.substr(0, p); gs.push_back(x); } } if (hasDef) gs.push_back(def); }
    bool ok = false; for (auto & q : gs) if (declared(q, n, key)) { ok = true; auto i = val.find(q); if (i != val.end()) { auto j = i->second.find(n); if (j != i->second.end()) { out = j->second; return 2; } } } return ok ? 1 : 0; } };
struct Conf { std::map<const DAe *, CState> st;
  static std::string canon(int t, const std::string & s) { switch (t) { case P_INT: return std::to_string(atoi(s.c_str())); case P_FLOAT: return std::to_string(fbits((float) strtod(s.c_str(), 0))); case P_BOOL: return s == "true" ? "1" : "0"; default: return s; } }
  void build(const DAe & a) { CState & s = st[&a]; s.grouped = a.grouped(); s.hasDef = !a.defGroup.empty(); s.def = a.defGroup; s.strategy = a.strategy; if (!a.plain.empty()) for (auto & p : a.plain) s.decl[""][p.name] = p; for (auto & p : a.common) s.decl["*"][p.name] = p; for (auto & g : a.groups) for (auto & n : g.first) { s.decl[n]; for (auto & p : g.second) s.decl[n][p.name] = p; } if (s.hasDef) s.decl[s.def];
    for (auto & g : a.settings) { Strs names = g.first; if (names.empty()) names.push_back(""); for (auto & n : names) for (auto & v : g.second) { CVal c; c.type = v.type; c.multi = v.multi; for (auto & x : v.v) c.v.push_back(canon(v.type, x)); s.val[n][v.name] = c; } } for (auto & d : a.dels) build(d.second); }
  int resolve(const Inst * i, bool hg, const std::string & g, const std::string & n, int strat, const std::string & key, CVal & out) { CState & s = st[i->a]; if (!hg && s.grouped && !s.hasDef) return 0; int mine = s.lookup(hg ? g : s.grouped ? s.def : "", n, hg ? strat : s.strategy, key, out); if (!mine) return 0; if (i->up) { CVal o; if (resolve(i->up, hg, g, n, strat, i->key, o) == 2) { out = o; return 2; } } return mine; }
  bool valid(const Inst * i, bool hg, const std::string & g, const std::string & n, int strat, const std::string & key) { CState & s = st[i->a]; if (!hg && s.grouped && !s.hasDef) return false; CVal o; return s.lookup(hg ? g : s.grouped ? s.def : "", n, hg ? strat : s.strategy, key, o) != 0; }
  bool assign(const Inst * i, bool hg, const std::string & g, const std::string & n, const CVal & v, int strat, const std::string & key) { if (i->up && valid(i->up, hg, g, n, strat, i->key) && assign(i->up, hg, g, n, v, strat, i->key)) return true; CState & s = st[i->a]; if (!hg && s.grouped && !s.hasDef) return false; std::string q = hg ? g : s.grouped ? s.def : ""; DParam p; if (!s.decl.count(q) || !s.declared(q, n, key, &p) || p.type != v.type || p.multi != v.multi) return false; s.val[q][n] = v; return true; } };
// one read with the extractor for (type, multi), form: alternative C++ types; result 0 rejected 1 no value 2 value
static int extract(AnnotatorContext & c, bool hg, const std::string & g, const std::string & n, int type, bool multi, int form, CVal & out, bool & touched) {
  UnicodeString G = us(g), N = us(n); TyErrorId rc = 0; std::string oc; out = CVal(); out.type = type; out.multi = multi; touched = false;
#define VP_X(v) oc = outcome([&] { rc = hg ? c.extractValue(G, N, v) : c.extractValue(N, v); }); bool ok = oc == "ok" && rc == 0
  if (!multi) switch (type) {
    case P_STRING: if (form) { std::string v = "before"; VP_X(v); out.v.push_back(v); touched = !ok && v != "before"; if (ok && form == 2) { c.release(v); if (!v.empty()) violation("release", "string not cleared"); } } else { UnicodeString v = us("before"); VP_X(v); out.v.push_back(utf8(v)); touched = !ok && v != us("before"); } break;
    case P_INT: if (form == 1) { size_t v = 77777; VP_X(v); out.v.push_back(std::to_string((int) v)); if (ok && v != (size_t) (int) v) violation("size-value", std::to_string(v)); touched = !ok && v != 77777; } else { int v = 77777; VP_X(v); out.v.push_back(std::to_string(v)); touched = !ok && v != 77777; } break;
    case P_FLOAT: { float v = 77777; VP_X(v); out.v.push_back(std::to_string(fbits(v))); touched = !ok && v != 77777; break; }
    default: for (int pass = 0; pass < 2; ++pass) { bool v = pass; VP_X(v); touched |= !ok && v != (bool) pass; if (!pass) out.v.push_back(v ? "1" : "0"); else if (ok && out.v[0] != (v ? "1" : "0")) violation("boolean-depends-on-previous-value", n); } }
  else switch (type) {
    case P_STRING: if (form) { std::vector<std::string *> v; std::string keep = "before"; VP_X(v); for (auto p : v) out.v.push_back(*p); touched = !ok && !v.empty(); c.release(v); if (!v.empty()) violation("release", "vector not cleared"); } else { std::vector<UnicodeString> v(1, us("before")); VP_X(v); for (auto & x : v) out.v.push_back(utf8(x)); touched = !ok && v.size() != 1; } break;
    case P_INT: { std::vector<int> v(1, 77777); VP_X(v); for (auto x : v) out.v.push_back(std::to_string(x)); touched = !ok && (v.size() != 1 || v[0] != 77777); break; }
    case P_FLOAT: { std::vector<float> v(1, 77777.f); VP_X(v); for (auto x : v) out.v.push_back(std::to_string(fbits(x))); touched = !ok && (v.size() != 1 || v[0] != 77777); break; }
    default: { std::vector<bool> v(3, true); VP_X(v); for (bool x : v) out.v.push_back(x ? "1" : "0"); touched = !ok && v != std::vector<bool>(3, true); } }
#undef VP_X
  if (oc != "ok") { if (!isUima(oc)) violation("foreign-exception", oc); return 0; } if (rc == 0) return 2; if (rc == UIMA_ERR_CONFIG_NAME_VALUE_PAIR_NOT_FOUND) return 1; return 0; }
static bool assignTo(AnnotatorContext & c, bool hg, const std::string & g, const std::string & n, const CVal & v, int form) { UnicodeString G = us(g), N = us(n); TyErrorId rc = 0; std::string oc;
#define VP_A(x) oc = outcome([&] { rc = hg ? c.assignValue(G, N, x) : c.assignValue(N, x); })
  auto I = [](const std::string & s) { return atoi(s.c_str()); }; auto F = [](const std::string & s) { return asF(strtoll(s.c_str(), 0, 10)); };
  if (!v.multi) switch (v.type) { case P_STRING: { UnicodeString x = us(v.v[0]); VP_A(x); break; } case P_INT: if (form) { size_t x = (size_t) I(v.v[0]); VP_A(x); } else { int x = I(v.v[0]); VP_A(x); } break; case P_FLOAT: if (form) { double x = F(v.v[0]); VP_A(x); } else { float x = F(v.v[0]); VP_A(x); } break; default: { bool x = v.v[0] == "1"; VP_A(x); } }
  else switch (v.type) { case P_STRING: { std::vector<UnicodeString> x; for (auto & s : v.v) x.push_back(us(s)); VP_A(x); break; } case P_INT: if (form) { std::vector<size_t> x; for (auto & s : v.v) x.push_back((size_t) I(s)); VP_A(x); } else { std::vector<int> x; for (auto & s : v.v) x.push_back(I(s)); VP_A(x); } break; case P_FLOAT: if (form) { std::vector<double> x; for (auto & s : v.v) x.push_back(F(s)); VP_A(x); } else { std::vector<float> x; for (auto & s : v.v) x.push_back(F(s)); VP_A(x); } break; default: { std::vector<bool> x; for (auto & s : v.v) x.push_back(s == "1"); VP_A(x); } }
#undef VP_A
  if (oc != "ok" && !isUima(oc)) violation("foreign-exception", "assign " + oc); return oc == "ok" && rc == 0; }
static void conf(Rng & r, Args & args) {
  Scratch sc(args.tmp); Cwd cwd; Tree t(r, args, sc.d); int style = r.below(3); struct { int type; bool multi; } pt[6]; for (auto & p : pt) { p.type = r.below(4); p.multi = r.chance(35); } int dens = r.range(25, 85); bool conflicts = r.chance(15);
  t.dress = [&](DAe & a) { a.flow = a.prim ? 0 : 1; int form = style == 0 ? 1 : style == 1 ? 2 : r.below(3); if (r.chance(8)) form = 0; Strs keys; for (auto & d : a.dels) keys.push_back(d.first); if (!form) return;
    auto mkp = [&](int k) { DParam p; p.name = PN[k]; p.type = pt[k].type; p.multi = pt[k].multi; if (conflicts && r.chance(10)) { p.type = r.below(4); p.multi = r.chance(30); } if (r.chance(25)) { int m = r.range(1, 2); while (m--) p.restr.push_back(keys.empty() || r.chance(25) ? "zz" : r.pick(keys)); } return p; };
    if (form == 1) { for (int k = 0; k < 5; ++k) if (r.chance(dens)) a.plain.push_back(mkp(k)); std::vector<DVal> v; for (auto & p : a.plain) if (r.chance(65)) v.push_back(t.g.valFor(p)); if (!v.empty()) a.settings.push_back({ {}, v }); if (r.chance(20)) { a.strategySet = true; a.strategy = 0; } return; }
    std::set<int> com; for (int k = 0; k < 5; ++k) if (r.chance(30)) { com.insert(k); a.common.push_back(mkp(k)); } std::set<std::string> used; int n = r.range(1, 4); for (int i = 0; i < n; ++i) { Strs ns; int m = r.range(1, 2); while (m--) { std::string g = GN[r.below(7)]; if (used.insert(g).second) ns.push_back(g); } if (ns.empty()) continue; std::vector<DParam> ps; for (int k = 0; k < 5; ++k) if (!com.count(k) && r.chance(dens)) ps.push_back(mkp(k)); a.groups.push_back({ ns, ps }); }
    if (!a.grouped()) { a.groups.clear(); return; } Strs all = allGroups(a); if (r.chance(75)) a.defGroup = !all.empty() && r.chance(85) ? r.pick(all) : "dflt"; if (!a.defGroup.empty()) { a.strategySet = r.chance(85); if (a.strategySet) a.strategy = r.below(3); if (std::find(all.begin(), all.end(), a.defGroup) == all.end()) all.push_back(a.defGroup); }
    for (auto & g : all) { std::vector<DVal> v; for (auto & p : paramsOf(a, g)) if (r.chance(50)) v.push_back(t.g.valFor(p)); if (!v.empty()) { Strs ns; ns.push_back(g); a.settings.push_back({ ns, v }); } } };
  t.root = t.mk(0, r.range(1, 3), r.chance(90)); t.types(); t.render(); World w; w.build(w.root, t.root, 0, ""); Conf m; m.build(t.root); rec.begin(&w); std::string script;
  auto read = [&](AnnotatorContext & c, const Inst * i, const char * when) { bool hg = r.chance(55); std::string g = hg ? GN[r.below(8)] : "", n = PN[r.chance(94) ? r.below(5) : 5]; CState & s = m.st[i->a]; if (hg && s.decl.size() && r.chance(40)) { auto k = s.decl.begin(); std::advance(k, r.below((int) s.decl.size())); if (k->first != "*" && !k->first.empty()) g = k->first; } CVal e; int x = m.resolve(i, hg, g, n, s.strategy, "", e); int type = r.below(4); bool multi = r.chance(40); if (x == 2 && r.chance(80)) { type = e.type; multi = e.multi; } else if (x != 2 && r.chance(70)) { type = pt[n == PN[5] ? 0 : n[1] - '0'].type; multi = pt[n == PN[5] ? 0 : n[1] - '0'].multi; }
    CVal got; bool touched; int y = extract(c, hg, g, n, type, multi, r.below(3), got, touched); int want = x == 2 && (type != e.type || multi != e.multi) ? 0 : x; std::string who = std::string(when) + " leaf " + std::to_string(i->leaf) + " (" + (hg ? g : "-") + ") " + n; count("evals"); count(want == 0 ? x == 2 ? "type-mismatches" : "invalid-requests" : want == 1 ? "no-value" : "values");
    if (y != want) violation(want == 2 ? y == 1 ? "value-lost" : "value-rejected" : want == 1 ? y == 2 ? "value-from-nowhere" : "declared-parameter-rejected" : y == 2 ? x == 2 ? "wrong-type-accepted" : "undeclared-parameter-read" : "undeclared-parameter-accepted", who + " model " + std::to_string(x) + " " + show(e) + " got " + std::to_string(y) + " " + show(got)); else if (y == 2 && !(got == e)) violation("wrong-value", who + " expected " + show(e) + " got " + show(got)); if (touched) violation("output-changed-without-value", who); if (y == 2) seen(hashStr(who + show(got) + t.xml));
    bool d = hg ? c.isParameterDefined(us(g), us(n)) : c.isParameterDefined(us(n)), wd = hg ? s.declared(g, n, "") : s.grouped ? s.declared("*", n, "") || (s.hasDef && s.declared(s.def, n, "")) : s.declared("", n, ""); if (d != wd) violation("is-parameter-defined", who + (hg ? " group " : " ") + std::to_string(d));
    if (r.chance(15)) { std::set<std::string> mine, all, have; for (auto & k : s.decl) if (k.first != "*" && !k.first.empty() && s.declared(k.first, n, "")) mine.insert(k.first);
      for (const Inst * p = i; p; p = m.st[p->a].grouped ? p->up : 0) for (auto & k : m.st[p->a].decl) if (k.first != "*" && !k.first.empty() && m.st[p->a].declared(k.first, n, "")) all.insert(k.first); // its own groups and, of a component with groups, those of the aggregates above
      std::set<UnicodeString> gs = c.getGroupNamesForParameter(us(n)); for (auto & q : gs) if (utf8(q) != "CONFIG_GROUP_NAME_WHEN_NO_GROUPS") have.insert(utf8(q)); for (auto & q : all) if (!have.count(q)) violation("group-names", who + " lacks " + q); for (auto & q : have) if (!all.count(q)) violation("group-names", who + " has " + q); if (all.size() > mine.size()) count("inherited-groups");
      for (auto & q : mine) { CVal o; bool tt; DParam p; s.declared(q, n, "", &p); CVal ev; int ex = m.resolve(i, true, q, n, s.strategy, "", ev); int got2 = extract(c, true, q, n, ex == 2 ? ev.type : p.type, ex == 2 ? ev.multi : p.multi, 0, o, tt); if (got2 != ex) violation("listed-group-not-readable", who + " " + q); } count("group-lists"); } };
  rec.act = [&](int cb, int inst, Annotator *) -> TyErrorId { if ((cb == C_INIT || cb == C_REC || cb == C_PROC) && inst >= 0 && inst < (int) w.leaves.size() && rec.ctx[inst]) for (int k = cb == C_INIT ? 6 : 2; k--; ) read(*rec.ctx[inst], w.leaves[inst], cb == C_INIT ? "initialize" : cb == C_REC ? "reconfigure" : "process"); return 0; };
  Eng e; create(r, t, e); if (!e.e) { violation("creation-failed", e.oc + " " + (e.err.getErrorId() ? e.err.asString() : "")); checkGone("x"); return; } AnalysisEngine * ae = e.e; int steps = r.range(4, 20); count("engines"); std::unique_ptr<CAS> cas;
  for (int k = 0; k < steps; ++k) { bool top = r.chance(25); int li = r.below((int) w.leaves.size()); const Inst * i = top ? &w.root : w.leaves[li]; AnnotatorContext * c = top ? &ae->getAnnotatorContext() : rec.ctx[li]; if (!c) { violation("no-context", std::to_string(li)); break; }
    if (r.chance(55)) { bool hg = r.chance(50); std::string g = hg ? GN[r.below(8)] : "", n = PN[r.chance(95) ? r.below(5) : 5]; CVal v; int pi = n == PN[5] ? 0 : n[1] - '0'; v.type = r.chance(88) ? pt[pi].type : r.below(4); v.multi = r.chance(90) ? pt[pi].multi : !pt[pi].multi; int cnt = v.multi ? r.below(4) : 1; while (cnt--) v.v.push_back(Conf::canon(v.type, t.g.mkVal(v.type))); if (v.type == P_STRING) for (auto & s : v.v) s = utf8(randString(r, S_ANY & ~0, 12)); bool want = m.assign(i, hg, g, n, v, m.st[i->a].strategy, ""), got = assignTo(*c, hg, g, n, v, r.below(2)); std::string who = "leaf " + std::to_string(i->leaf) + " (" + (hg ? g : "-") + ") " + n + " = " + show(v); op("assign " + who + (got ? " ok" : " refused")); count(want ? "assignments" : "refused-assignments"); if (want != got) { violation(want ? "assignment-refused" : "assignment-accepted", who); break; } }
    if (r.chance(15)) { if (ae->reconfigure()) violation("reconfigure-failed", ""); } if (r.chance(8)) { if (!cas) cas.reset(ae->newCAS()); cas->reset(); UnicodeString tx = us("t"); cas->setDocumentText(tx.getBuffer(), 1, true); if (ae->process(*cas)) violation("process-failed", ""); }
    for (size_t q = 0; q < w.leaves.size(); ++q) if (w.leaves.size() < 6 || r.chance(50)) for (int z = 0; z < 2; ++z) read(*rec.ctx[q], w.leaves[q], "later"); for (int z = 0; z < 3; ++z) read(ae->getAnnotatorContext(), &w.root, "application"); }
  if (args.first == 0) sample(std::to_string(w.leaves.size()) + " components, " + std::to_string(steps) + " steps"); cas.reset(); delete e.e; e.e = 0; checkGone("conf"); }

int main(int argc, char ** argv) {
  unsetenv("UIMACPP_HOME"); ResourceManager::createInstance("vp"); Args a = parseArgs(argc, argv); installHook(a.extra["--plugins"], &rec);
  int rc = drive(argc, argv, { { "flow", flow }, { "sofa", sofa }, { "life", life }, { "mult", mult }, { "conf", conf } }); installHook(a.extra["--plugins"], 0);
  ResourceManager::deleteInstance(); return rc; }
