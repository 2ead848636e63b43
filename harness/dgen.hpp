#pragma once
// Random generation of component descriptors (models) shared by the descriptor and engine monitors.
#include "desc.hpp"
#include <dirent.h>
#include <climits>
namespace vp {
// ---- model generation ----------------------------------------------------------------------
struct Gen {
  Rng & r; Files fs; std::vector<DType> pool; int nAe = 0, depthMax; std::vector<std::pair<std::string, DTs>> tsFiles; bool consistent;
  Gen(Rng & r_) : r(r_), depthMax(r_.chance(35) ? 0 : r_.chance(60) ? 1 : 2), consistent(true) {}
  std::string text(int max = 20) { return freeText(r, max); }
  void mkPool() { int n = r.range(0, 10); for (int i = 0; i < n; ++i) { DType t; t.name = (r.chance(20) ? "T" : "p.q.T") + std::to_string(i); if (r.chance(40)) t.desc = text();
      if (r.chance(20)) { t.super = "uima.cas.String"; int k = r.range(1, 4); std::set<std::string> used; for (int j = 0; j < k; ++j) { std::string v = text(8); if (used.insert(v).second) t.allowed.push_back({ v, r.chance(50) ? text() : "" }); } pool.push_back(t); continue; }
      std::vector<std::string> sup; sup.push_back("uima.cas.TOP"); sup.push_back("uima.tcas.Annotation"); sup.push_back("uima.cas.AnnotationBase"); for (auto & p : pool) if (p.allowed.empty()) { sup.push_back(p.name); sup.push_back(p.name); } t.super = r.pick(sup);
      int k = r.chance(70) ? r.below(5) : 0; for (int j = 0; j < k; ++j) { DFeat f; f.name = "f" + std::to_string(i) + "_" + std::to_string(j); if (r.chance(40)) f.desc = text();
        switch (r.below(4)) { case 0: f.range = PRIM_TYPE[r.below(8)]; break; case 1: f.range = ARR_TYPE[1 + r.below(9)]; if (f.range == "uima.cas.FSArray" && r.chance(50)) f.elem = "uima.cas.TOP"; f.multi = r.chance(40); break; case 2: f.range = std::string("uima.cas.") + LISTS[r.below(4)]; f.multi = r.chance(40); break; default: f.range = pool.empty() ? "uima.cas.TOP" : r.pick(pool).name; }
        t.feats.push_back(f); } pool.push_back(t); } }
  const DType * find(const std::string & n) const { for (auto & t : pool) if (t.name == n) return &t; return 0; }
  // a sub type system closed under supertypes and ranges
  std::vector<DType> closed(int pct) { std::set<std::string> in; for (auto & t : pool) if (r.chance(pct)) in.insert(t.name); bool ch = true; while (ch) { ch = false; for (auto & t : pool) if (in.count(t.name)) { if (find(t.super) && in.insert(t.super).second) ch = true; for (auto & f : t.feats) if (find(f.range) && in.insert(f.range).second) ch = true; } }
    std::vector<DType> o; for (auto & t : pool) if (in.count(t.name)) o.push_back(t); if (r.chance(40)) for (size_t i = o.size(); i > 1; --i) std::swap(o[i - 1], o[r.below((int) i)]); return o; }
  // distribute types over the descriptor and a graph of imported files
  DTs mkTs(int pct) { DTs top; std::vector<DType> all = closed(pct); int nf = r.chance(40) ? r.range(1, 4) : 0; std::vector<DTs> part(nf); std::vector<std::string> names; for (int i = 0; i < nf; ++i) names.push_back(newFile(r, fs, "ts"));
    for (auto & t : all) { int k = nf ? r.below(nf + 1) : 0; (k ? part[k - 1] : top).types.push_back(t); if (nf && r.chance(25)) { int j = r.below(nf + 1); if (j != k) { DType c = t; for (size_t q = c.feats.size(); q-- > 0; ) if (r.chance(50)) c.feats.erase(c.feats.begin() + q); for (size_t q = c.allowed.size(); q-- > 1; ) if (r.chance(50)) c.allowed.erase(c.allowed.begin() + q); (j ? part[j - 1] : top).types.push_back(c); } } }
    for (int i = 0; i < nf; ++i) { bool imported = i == 0 || r.chance(50); if (imported) top.importFiles.push_back(names[i]); bool any = imported; for (int j = 0; j < i; ++j) if (r.chance(40) || (!any && j == i - 1)) { part[j].importFiles.push_back(names[i]); any = true; } if (r.chance(12)) part[i].importFiles.push_back(names[r.below(nf)]); } // the last form may be cyclic
    if (nf && r.chance(15)) top.importFiles.push_back(r.pick(top.importFiles)); if (r.chance(12)) top.importNames.push_back("x.y.Name" + std::to_string(r.below(9)));
    for (int i = 0; i < nf; ++i) { Xml x(r); renderTs(x, part[i], names[i], fs.dir, std::string("<typeSystemDescription") + (r.chance(80) || gSchema ? NSD : "") + ">"); fs.files.push_back({ names[i], x.o }); tsFiles.push_back({ names[i], part[i] }); }
    return top; }
  std::vector<DIndex> mkIdx(const std::vector<DType> & types, int n, const std::string & pre) { std::vector<DIndex> o; for (int i = 0; i < n; ++i) { DIndex d; d.label = pre + std::to_string(i) + (r.chance(20) ? ".\xc3\xa9" : ""); d.kind = r.below(3); const DType * t = 0; if (!types.empty() && r.chance(70)) { t = &types[r.below((int) types.size())]; if (t->allowed.size()) t = 0; }
      if (t) { d.type = t->name; } else d.type = r.chance(70) ? "uima.tcas.Annotation" : "uima.cas.TOP";
      std::vector<std::string> fe; const DType * q = t; std::string s = d.type; while (q) { for (auto & f : q->feats) if (f.range == "uima.cas.Integer" || f.range == "uima.cas.String" || f.range == "uima.cas.Float") fe.push_back(f.name); s = q->super; q = find(s); } if (s == "uima.tcas.Annotation") { fe.push_back("begin"); fe.push_back("end"); }
      int k = d.kind == 2 && r.chance(60) ? 0 : r.range(0, 3); for (int j = 0; j < k; ++j) { DKey y; if (fe.empty() || r.chance(25)) { bool had = false; for (auto & e : d.keys) had |= e.prio; if (had) continue; y.prio = true; } else { y.feat = r.pick(fe); y.rev = r.chance(40); } d.keys.push_back(y); } o.push_back(d); } return o; }
  std::vector<Strs> mkPrios(const std::vector<DType> & types, int n) { std::vector<Strs> o; std::vector<std::string> nm; for (auto & t : types) if (t.allowed.empty()) nm.push_back(t.name); std::sort(nm.begin(), nm.end()); nm.push_back("uima.tcas.Annotation"); // one order for all components: no contradictions
    for (int i = 0; i < n; ++i) { Strs s; size_t at = 0; while (at < nm.size()) { if (r.chance(50)) s.push_back(nm[at]); ++at; } o.push_back(s); } return o; }
  std::vector<DParam> mkParams(int n, std::set<std::string> & used, const Strs & keys) { std::vector<DParam> o; for (int i = 0; i < n; ++i) { DParam p; do p.name = xname(r); while (!used.insert(p.name).second); if (r.chance(40)) p.desc = text(); p.type = r.below(4); p.multi = r.chance(35); p.mand = r.chance(15); if (!gSchema && r.chance(20)) { int k = r.range(1, 3); for (int j = 0; j < k; ++j) p.restr.push_back(!keys.empty() && r.chance(70) ? r.pick(keys) : "k" + std::to_string(r.below(9))); } o.push_back(p); } return o; }
  std::string mkVal(int t) { char b[64]; switch (t) { case P_STRING: return text(); case P_INT: { static const int E[] = { 0, 1, -1, INT_MAX, INT_MIN, 100, 0x7fff, -40000 }; snprintf(b, sizeof b, "%d", r.chance(40) ? E[r.below(8)] : r.range(-100000, 100000)); return b; }
      case P_FLOAT: { float f = r.chance(30) ? (float) r.range(-1000, 1000) : r.chance(30) ? asF((i64) (uint32_t) r.next()) : (float) (r.range(-100000, 100000) / 977.0); if (!(f == f) || f > 3e38f || f < -3e38f) f = 1.5f; if (f != 0 && f < 1e-30f && f > -1e-30f) f = 2.5e-7f; snprintf(b, sizeof b, r.chance(50) ? "%.9g" : "%.9e", f); return b; }
      default: return r.chance(50) ? "true" : "false"; } }
  DVal valFor(const DParam & p) { DVal v; v.name = p.name; v.type = p.type; v.multi = p.multi; int n = p.multi ? r.range(0, 4) : 1; if (!r.chance(10) && n == 0) n = 1; for (int i = 0; i < n; ++i) v.v.push_back(mkVal(p.type)); return v; }
  void mkConfig(DAe & a) { Strs keys; for (auto & d : a.dels) keys.push_back(d.first); std::set<std::string> cu; int form = r.below(4); if (form == 0) return; a.strategySet = r.chance(60);
    if (form == 1) { a.strategySet = a.strategySet && r.chance(30); a.plain = mkParams(r.range(0, 6), cu, keys); std::vector<DVal> v; for (auto & p : a.plain) if (r.chance(p.mand ? 95 : 75)) v.push_back(valFor(p)); if (!v.empty() || r.chance(30)) a.settings.push_back({ {}, v }); if (a.strategySet) a.strategy = r.below(3); return; }
    if (r.chance(60)) a.common = mkParams(r.range(1, 4), cu, keys); static const char * const G[] = { "en", "en-us", "en-us-x", "de", "x-unspecified", "g\xc3\xa9", "other.Group", "A_1", "de-de", "default" }; std::vector<std::string> gl(G, G + 10); int n = r.range(0, 4); std::set<std::string> gu;
    for (int i = 0; i < n; ++i) { Strs ns; int k = r.range(1, 3); for (int j = 0; j < k; ++j) { std::string g = r.pick(gl); if (gu.insert(g).second) ns.push_back(g); } if (ns.empty()) continue; std::set<std::string> u = cu; a.groups.push_back({ ns, mkParams(r.range(0, 4), u, keys) }); }
    Strs all; for (auto & g : a.groups) for (auto & x : g.first) all.push_back(x);
    if (a.strategySet) a.strategy = r.below(3); if (!all.empty() && (r.chance(70) || a.strategy)) a.defGroup = r.pick(all); if (a.defGroup.empty()) a.strategy = 0;
    if (!a.grouped()) return; // nothing that could have a value
    std::map<std::string, std::vector<DVal>> per; for (auto & g : all) { std::vector<DVal> v; for (auto & x : a.groups) if (std::find(x.first.begin(), x.first.end(), g) != x.first.end()) for (auto & p : x.second) if (r.chance(p.mand ? 90 : 65)) v.push_back(valFor(p)); for (auto & p : a.common) if (r.chance(p.mand ? 90 : 50)) v.push_back(valFor(p)); per[g] = v; }
    if (all.empty()) { return; }
    for (auto & g : all) if (!per[g].empty()) { Strs names; names.push_back(g); a.settings.push_back({ names, per[g] }); }
    if (!a.common.empty() && all.size() > 1 && r.chance(50)) { DParam extra; extra.name = "shared"; if (cu.count("shared")) return; extra.type = r.below(4); extra.multi = r.chance(40); a.common.push_back(extra); Strs sub; for (auto & g : all) if (r.chance(60)) sub.push_back(g); if (sub.size()) { a.settings.push_back({ sub, { valFor(extra) } }); } } }
  DAe mk(int depth) { DAe a; a.name = text(); if (r.chance(70)) a.desc = text(60); if (r.chance(70)) a.version = text(8); if (r.chance(70)) a.vendor = text(); a.cpp = r.chance(85); a.root = r.below(gSchema ? 2 : 3); a.prim = a.root == 2 || depth >= depthMax || r.chance(25); if (a.prim) a.impl = r.chance(80) ? "lib" + xname(r) : text();
    if (!a.prim) { int n = r.range(0, 3); std::set<std::string> ks; for (int i = 0; i < n; ++i) { std::string k = xname(r); if (!ks.insert(k).second) continue; a.dels.push_back({ k, mk(depth + 1) }); } a.flow = gSchema || r.chance(95) ? 1 + r.below(2) : 0; std::vector<std::string> order; for (auto & d : a.dels) order.push_back(d.first); for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.below((int) i)]); for (auto & k : order) if (r.chance(90)) { a.nodes.push_back(k); if (r.chance(10)) a.nodes.push_back(k); }
      if (!a.dels.empty()) { int m = r.below(4); for (int i = 0; i < m; ++i) { DSofa s; s.key = r.pick(a.dels).first; s.comp = r.chance(80) ? xname(r) : ""; s.agg = xname(r); a.sofas.push_back(s); } } }
    a.ts = mkTs(a.prim ? 45 : 30); std::vector<DType> inScope = flat(a); mkConfig(a);
    if (r.chance(50)) { a.idx = mkIdx(inScope, r.range(0, r.chance(15) ? 9 : 3), "ix" + std::to_string(nAe) + "_"); } if (r.chance(40)) a.prios = mkPrios(inScope, r.range(0, r.chance(15) ? 8 : 3));
    if (r.chance(20)) { int n = r.range(1, 2); for (int i = 0; i < n; ++i) { std::string f = newFile(r, fs, "ix"); auto v = mkIdx(inScope, r.range(0, 2), "imp" + std::to_string(nAe) + "_" + std::to_string(i) + "_"); Xml x(r); bool wrap = r.chance(60); const char * root = r.chance(70) ? "fsIndexCollection" : "fsIndexes"; x.o = std::string("<") + root + NSD + ">"; if (r.chance(30)) x.t("name", "nm"); if (r.chance(30)) { x.open("imports"); x.nl(); std::string tgt = f; for (auto & p : a.idxImports) if (r.chance(50)) tgt = p.first; x.o += "<import location=\"" + attr(relPath(r, fs.dir, f, tgt)) + "\"/>"; x.close("imports"); } if (wrap) x.open("fsIndexes"); renderIdx(x, v); if (wrap) x.close("fsIndexes"); x.close(root); fs.files.push_back({ f, x.o }); a.idxImports.push_back({ f, v }); } }
    if (r.chance(20)) { int n = r.range(1, 2); for (int i = 0; i < n; ++i) { std::string f = newFile(r, fs, "tp"); auto v = mkPrios(inScope, r.range(0, r.chance(15) ? 6 : 2)); Xml x(r); bool wrap = r.chance(30); x.o = std::string("<typePriorities") + NSD + ">"; if (r.chance(30)) x.t("name", "nm"); if (r.chance(30)) { x.open("imports"); x.nl(); std::string tgt = f; for (auto & p : a.prioImports) if (r.chance(50)) tgt = p.first; x.o += "<import location=\"" + attr(relPath(r, fs.dir, f, tgt)) + "\"/>"; x.close("imports"); } if (wrap) x.open("priorityLists"); renderPrios(x, v); if (wrap) x.close("priorityLists"); x.close("typePriorities"); fs.files.push_back({ f, x.o }); a.prioImports.push_back({ f, v }); } }
    int nc = r.chance(60) ? r.range(0, 3) : 0; for (int i = 0; i < nc; ++i) { DCap c; for (int k = 0; k < 2; ++k) { for (auto & t : inScope) if (r.chance(25)) { c.types[k].push_back(t.name); if (r.chance(30)) { for (auto & u : a.ts.types) if (u.name == t.name && std::find(c.all[k].begin(), c.all[k].end(), t.name) == c.all[k].end()) c.all[k].push_back(t.name); } else for (auto & f : t.feats) if (r.chance(30)) c.feats[k].push_back(t.name + ":" + f.name); } int ns = r.below(3); for (int j = 0; j < ns; ++j) c.sofas[k].push_back(xname(r)); } static const char * const L[] = { "en", "en-US", "de", "x-unspecified", "fr", "zh-tw" }; int nl = r.chance(85) ? r.below(4) : r.range(4, 9); for (int j = 0; j < nl; ++j) c.langs.push_back(L[r.below(6)]); a.caps.push_back(c); }
    a.op = r.chance(50); if (a.op) { a.mod = r.chance(50); a.multiDep = r.chance(50); a.outCas = r.chance(50); } ++nAe; return a; }
  // all types visible to one component: own, imported
  void collect(const DTs & ts, std::set<std::string> & done, std::vector<DType> & o) const { auto add = [&](const DType & t) { for (auto & e : o) if (e.name == t.name) { for (auto & f : t.feats) { bool h = false; for (auto & g : e.feats) h |= g.name == f.name; if (!h) e.feats.push_back(f); } for (auto & v : t.allowed) { bool h = false; for (auto & g : e.allowed) h |= g.first == v.first; if (!h) e.allowed.push_back(v); } return; } o.push_back(t); };
    for (auto & t : ts.types) add(t); for (auto & f : ts.importFiles) if (done.insert(f).second) for (auto & x : tsFiles) if (x.first == f) collect(x.second, done, o); }
  std::vector<DType> flat(const DAe & a) const { std::vector<DType> o; std::set<std::string> d; collect(a.ts, d, o); return o; }
  void names(const DTs & ts, Strs & o) const { for (auto & n : ts.importNames) o.push_back(n); }
};

inline std::vector<DParam> paramsOf(const DAe & a, const std::string & g) { std::vector<DParam> o; for (auto & x : a.groups) if (std::find(x.first.begin(), x.first.end(), g) != x.first.end()) for (auto & p : x.second) o.push_back(p); for (auto & p : a.common) o.push_back(p); return o; }
inline Strs allGroups(const DAe & a) { Strs s; for (auto & g : a.groups) for (auto & n : g.first) s.push_back(n); return s; }
inline const DVal * valueOf(const DAe & a, const std::string & g, const std::string & p) { for (auto & s : a.settings) if ((g.empty() && s.first.empty()) || std::find(s.first.begin(), s.first.end(), g) != s.first.end()) for (auto & v : s.second) if (v.name == p) return &v; return 0; }
inline std::string valProblem(const DAe & a) { if (!a.prim && !a.flow) return "aggregate without flow"; for (auto & d : a.dels) { std::string s = valProblem(d.second); if (!s.empty()) return s; }
  auto lookup = [&](const std::string & g, const std::string & p) { if (valueOf(a, g, p)) return true; if (!a.grouped()) return false; std::vector<std::string> fb; if (a.strategy == 2) { std::string x = g; for (;;) { size_t i = x.rfind('-'); if (i == std::string::npos) break; x = x.substr(0, i); fb.push_back(x); } } if (a.strategy) fb.push_back(a.defGroup); for (auto & f : fb) if (valueOf(a, f, p)) return true; return false; };
  if (a.grouped()) { for (auto & g : allGroups(a)) for (auto & p : paramsOf(a, g)) if (p.mand && !lookup(g, p.name)) return "mandatory parameter " + g + "/" + p.name; } else for (auto & p : a.plain) if (p.mand && !lookup("", p.name)) return "mandatory parameter " + p.name;
  return ""; }
inline void rmTree(const std::string & d) { if (DIR * h = opendir(d.c_str())) { while (dirent * e = readdir(h)) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::string p = d + "/" + n; struct stat st; if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rmTree(p); else unlink(p.c_str()); } closedir(h); } rmdir(d.c_str()); }
struct Scratch { std::string d; explicit Scratch(const std::string & base) { static long n = 0; d = base + "/desc" + std::to_string(getpid()) + "_" + std::to_string(n++); mkdir(d.c_str(), 0755); } Scratch(const std::string & base, const char * name) { d = base + "/" + name; mkdir(d.c_str(), 0755); } ~Scratch() { rmTree(d); } };
}
