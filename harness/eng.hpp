#pragma once
// Executable component descriptors: random trees whose primitives are the trace plug-in, and the recorder of its callbacks.
#include "dgen.hpp"
#include "trace.hpp"
#include <dlfcn.h>
namespace vp {
using namespace uima;
inline void installHook(const std::string & plugins, AnnHook * h) { static void * lib = dlopen((plugins + "/trace.so").c_str(), RTLD_NOW); if (!lib) { fprintf(stderr, "cannot load trace.so: %s\n", dlerror()); exit(3); } ((SetHook) dlsym(lib, "vp_set_hook"))(h); }
// counts the life cycle of every annotator
struct LifeHook : AnnHook {
  struct St { int init = 0, ts = 0, rec = 0, proc = 0, batch = 0, coll = 0, destroy = 0; bool initOk = false; }; std::map<Annotator *, St> live; long created_ = 0, deleted_ = 0, inits = 0, destroys = 0; std::string bad;
  void created(Annotator * a) override { if (live.count(a)) bad += "created twice; "; live[a] = St(); ++created_; }
  void deleted(Annotator * a) override { auto i = live.find(a); if (i == live.end()) bad += "deleted unknown; "; else { if (i->second.initOk && i->second.destroy != 1) bad += "deleted after " + std::to_string(i->second.destroy) + " destroys; "; live.erase(i); } ++deleted_; }
  TyErrorId initialize(Annotator * a, AnnotatorContext &) override { St & s = live[a]; if (s.init++) bad += "initialized twice; "; ++inits; s.initOk = true; return 0; }
  TyErrorId typeSystemInit(Annotator * a, TypeSystem const &) override { St & s = live[a]; if (!s.init) bad += "typeSystemInit before initialize; "; s.ts++; return 0; }
  TyErrorId process(Annotator * a, CAS &, ResultSpecification const &) override { St & s = live[a]; if (!s.ts) bad += "process before typeSystemInit; "; s.proc++; return 0; }
  TyErrorId destroy(Annotator * a) override { St & s = live[a]; if (s.destroy++) bad += "destroyed twice; "; ++destroys; return 0; }
};
inline void makeExecutable(Gen & g, DAe & a, const std::string & lib) { a.cpp = true; a.impl = a.prim ? lib : ""; for (auto & d : a.dels) makeExecutable(g, d.second, lib); }
inline size_t countPrims(const DAe & a) { if (a.prim) return 1; size_t n = 0; for (auto & k : a.nodes) for (auto & d : a.dels) if (d.first == k) n += countPrims(d.second); return n; }
inline bool writeAll(const Files & fs) { for (auto & f : fs.files) writeFile(fs.dir + "/" + f.first, f.second); return true; }
struct Cwd { char b[PATH_MAX]; Cwd() { if (!getcwd(b, sizeof b)) b[0] = 0; } ~Cwd() { if (b[0] && chdir(b)) {} } };
inline void cd(const std::string & file) { size_t p = file.rfind('/'); if (chdir(file.substr(0, p).c_str())) {} }
inline void dumpFiles(const Files & fs) { static const bool dump = getenv("VP_DUMP"); if (dump) for (auto & f : fs.files) fprintf(stderr, "=== %s\n%s\n", f.first.c_str(), f.second.c_str()); }
static const int NT = 6;                                    // types T0..T5 with features f (Integer) and g (String), type Mark with feature seq
inline std::string tn(int i) { return "T" + std::to_string(i); }

// ---- trees ---------------------------------------------------------------------------------------------------------------------
struct Tree { Rng & r; Gen g; DAe root; std::string lib, self, xml; int nLeaf = 0, nAgg = 0;
  Tree(Rng & r_, Args & a, const std::string & dir) : r(r_), g(r_), lib(a.extra["--plugins"] + "/trace.so") { g.fs.dir = dir; }
  Tree(Rng & r_, const std::string & plugins, const std::string & dir) : r(r_), g(r_), lib(plugins + "/trace.so") { g.fs.dir = dir; }
  std::function<void(DAe &)> dress;                         // fills in the aspects a mode is interested in
  DAe mk(int depth, int maxDepth, bool forceAgg) { DAe a; a.root = r.chance(30) ? 1 : 0; a.prim = !forceAgg && (depth >= maxDepth || r.chance(45));
    if (a.prim) { a.name = "leaf" + std::to_string(nLeaf++); a.impl = lib; if (r.chance(10)) a.root = 2; }
    else { a.name = "agg" + std::to_string(nAgg++); int n = r.range(1, depth ? 3 : 4); for (int i = 0; i < n; ++i) a.dels.push_back({ (r.chance(80) ? "d" : "\xc3\xa9.k-") + std::to_string(i), mk(depth + 1, maxDepth, false) }); a.flow = 1 + r.below(2);
      for (auto & d : a.dels) if (r.chance(92)) { a.nodes.push_back(d.first); if (r.chance(8)) a.nodes.push_back(d.first); } if (a.nodes.empty()) a.nodes.push_back(a.dels[0].first); for (size_t i = a.nodes.size(); i > 1; --i) std::swap(a.nodes[i - 1], a.nodes[r.below((int) i)]); }
    if (dress) dress(a); return a; }
  void types() { for (int i = 0; i < NT; ++i) { DType t; t.name = tn(i); t.super = i % 2 ? "uima.tcas.Annotation" : "uima.cas.TOP"; DFeat f; f.name = "f"; f.range = "uima.cas.Integer"; t.feats.push_back(f); f.name = "g"; f.range = "uima.cas.String"; t.feats.push_back(f); root.ts.types.push_back(t); }
    DType t; t.name = "Mark"; t.super = "uima.cas.TOP"; DFeat f; f.name = "seq"; f.range = "uima.cas.Integer"; t.feats.push_back(f); f.name = "who"; f.range = "uima.cas.String"; t.feats.push_back(f); root.ts.types.push_back(t);
    DIndex d; d.label = "marks"; d.type = "Mark"; d.kind = 2; root.idx.push_back(d); }
  void render() { self = newFile(r, g.fs, "main"); xml = renderAe(r, root, g.fs, self); g.fs.files.push_back({ self, xml }); writeAll(g.fs); dumpFiles(g.fs); cd(g.fs.dir + "/" + self); }
  void renderOnly() { self = newFile(r, g.fs, "main"); xml = renderAe(r, root, g.fs, self); g.fs.files.push_back({ self, xml }); writeAll(g.fs); dumpFiles(g.fs); } };   // leaves the working directory alone

// one node of the expanded flow: an instance of a component
struct Inst { const DAe * a; Inst * up; std::string key; std::vector<std::unique_ptr<Inst>> kids; int leaf = -1; };
struct World { Inst root; std::vector<Inst *> leaves;
  void build(Inst & i, const DAe & a, Inst * up, const std::string & key) { i.a = &a; i.up = up; i.key = key; if (a.prim) { i.leaf = (int) leaves.size(); leaves.push_back(&i); return; } for (auto & n : a.nodes) for (auto & d : a.dels) if (d.first == n) { i.kids.emplace_back(new Inst); build(*i.kids.back(), d.second, &i, n); break; } } };

// ---- engines -------------------------------------------------------------------------------------------------------------------
struct Eng { AnalysisEngine * e = 0; AnalysisEngineDescription * d = 0; ErrorInfo err; std::string oc; Eng() {} Eng(const Eng &) = delete; ~Eng() { delete e; delete d; } };
inline void create(Rng & r, Tree & t, Eng & n, int route = -1) { std::string file = t.g.fs.dir + "/" + t.self; if (route < 0) route = r.below(4); count("route-" + std::to_string(route));
  n.oc = outcome([&] { switch (route) { case 0: n.e = Framework::createAnalysisEngine(file.c_str(), n.err); break;
    case 1: { std::unique_ptr<AnalysisEngineDescription> p(new AnalysisEngineDescription()); XMLParser x; x.parseAnalysisEngineDescription(*p, us(file)); p->validate(); p->commit(); n.d = p.release(); n.e = Framework::createAnalysisEngine(*n.d, n.err); break; }
    case 2: { UnicodeString u = us(t.xml); n.e = Framework::createAnalysisEngine(u.getBuffer(), u.length(), n.err); break; }
    default: n.e = TextAnalysisEngine::createTextAnalysisEngine(file.c_str(), n.err); } }); }

}
