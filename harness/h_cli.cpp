// O01: the command-line driver, run as a process of its own in a scratch directory. Oracle: the same documents driven one by one through the C++ API
// with a new engine and a new CAS each; the recording annotator's log and the output files have to be the same.
#include "snap.hpp"
#include "desc.hpp"
#include <sys/wait.h>
#include <sys/stat.h>
#include <dirent.h>
#include <signal.h>
#include <time.h>
using namespace vp; using namespace uima;
static std::string slurp(const std::string & p) { std::ifstream f(p, std::ios::binary); std::ostringstream o; o << f.rdbuf(); return o.str(); }
static bool exists(const std::string & p) { struct stat s; return stat(p.c_str(), &s) == 0; }
static std::vector<std::string> ls(const std::string & d) { std::vector<std::string> v; if (DIR * x = opendir(d.c_str())) { while (dirent * e = readdir(x)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) v.push_back(e->d_name); closedir(x); } std::sort(v.begin(), v.end()); return v; }
// a directory below the harness's own scratch directory; removed file by file
static void wipe(const std::string & d) { for (auto & n : ls(d)) { std::string p = d + "/" + n; struct stat s; if (lstat(p.c_str(), &s) == 0 && S_ISDIR(s.st_mode)) wipe(p); else unlink(p.c_str()); } rmdir(d.c_str()); }
struct Scratch { std::string d; explicit Scratch(const std::string & p) : d(p) { wipe(d); mkdir(d.c_str(), 0755); } ~Scratch() { wipe(d); } };

struct Ran { int status = -1; bool hang = false; std::string out, err; int code() const { return WIFEXITED(status) ? WEXITSTATUS(status) : -1; } int sig() const { return WIFSIGNALED(status) ? WTERMSIG(status) : 0; } };
static Ran execute(const std::string & exe, const std::vector<std::string> & args, const std::string & dir, const std::vector<std::pair<std::string, std::string>> & env, int seconds) {
  Ran r; std::string o = dir + "/stdout", e = dir + "/stderr"; pid_t p = fork();
  if (p == 0) { int fo = open(o.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644), fe = open(e.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644), fi = open("/dev/null", O_RDONLY); dup2(fi, 0); dup2(fo, 1); dup2(fe, 2); for (int f = 3; f < 64; ++f) close(f); for (auto & x : env) setenv(x.first.c_str(), x.second.c_str(), 1); alarm(0);
    std::vector<char *> v; v.push_back((char *) exe.c_str()); for (auto & a : args) v.push_back((char *) a.c_str()); v.push_back(0); execv(exe.c_str(), v.data()); _exit(126); }
  for (int ms = 0;; ms += 5) { int st; pid_t w = waitpid(p, &st, WNOHANG); if (w == p) { r.status = st; break; } if (ms > seconds * 1000) { kill(p, SIGKILL); waitpid(p, &r.status, 0); r.hang = true; break; } usleep(5000); }
  r.out = slurp(o); r.err = slurp(e); return r; }

enum Fmt { TEXT, XCASF, XMIF };
struct Doc { std::string name, body, kind; bool fails = false, noSofa = false; std::vector<std::string> lines; std::string xmi; std::vector<std::string> segs; };
struct Setup { Schema s; std::string desc, exe, plugins; Fmt fmt = TEXT; bool lenient = false, sofa = false; std::string sofaName; };

// what the C++ API makes of one document
static void oracle(Setup & u, Doc & d, const std::string & log) {
  unlink(log.c_str()); setenv("VP_REC_LOG", log.c_str(), 1); ErrorInfo e; std::unique_ptr<AnalysisEngine> ae(Framework::createAnalysisEngine(u.desc.c_str(), e)); if (!ae) { violation("cli-oracle-engine", e.asString()); return; }
  std::unique_ptr<CAS> c(ae->newCAS());
  std::string oc = outcome([&] {
    if (u.fmt == TEXT) { UnicodeString t(d.body.data(), (int32_t) d.body.size(), "utf-8"); c->setDocumentText(UnicodeStringRef(t)); }
    else { xercesc::MemBufInputSource src((const XMLByte *) d.body.data(), d.body.size(), "doc"); if (u.fmt == XCASF) XCASDeserializer::deserialize(src, *c); else XmiDeserializer::deserialize(src, *c, u.lenient); }
    CAS * on = c.get(); bool named = u.sofa; UnicodeString sn = us(u.sofaName); if (!named && c->isBackwardCompatibleCas()) { named = true; sn = us(CAS::NAME_DEFAULT_TEXT_SOFA); }
    if (named) { std::string n8 = utf8(sn); SofaFS f = c->getSofa(ae->getAnnotatorContext().mapToSofaID(n8.c_str())); if (!f.isValid()) { d.noSofa = true; return; } on = c->getView(f); }
    CASIterator it = ae->processAndOutputNewCASes(*on); while (it.hasNext()) { CAS & x = it.next(); std::ostringstream o; XmiWriter w(x, true); w.write(o); d.segs.push_back(o.str()); ae->getAnnotatorContext().releaseCAS(x); }
    std::ostringstream o; XmiWriter w(*c, true); w.write(o); d.xmi = o.str(); });
  if (oc != "ok") { d.fails = true; d.kind += "!" + oc.substr(0, 5); }
  c.reset(); ae.reset(); std::istringstream in(slurp(log)); std::string l; while (std::getline(in, l)) if (l[0] == 'P') d.lines.push_back(l); unsetenv("VP_REC_LOG"); }

static std::string fileName(Rng & r, int i) { static const char * const P[] = { "doc", "a b", "x.y.z", "-dash", "\xc3\xa9t\xc3\xa9", "\xe6\x96\x87", "UPPER.TXT", "#h", "long-name-of-a-document-that-goes-on-and-on-and-on", "_seg_1", "~q" }; std::string s = P[r.below(11)]; static const char * const E[] = { "", ".txt", ".xmi", ".xml", ".d" }; return s + std::to_string(i) + E[r.below(5)]; }
static std::string textBody(Rng & r, std::string & kind) {
  int k = r.range(0, 19); std::string b = utf8(randString(r, S_XML | S_NONUL, 60)); if (k == 0) { kind = "empty"; return ""; } if (k == 1) { kind = "fail"; b += "@FAIL"; } else if (k == 2) { kind = "std"; b += "@STD"; } else if (k == 3) { kind = "int"; b += "@INT"; } else if (k == 4) { kind = "rc"; b += "@RC"; }
  else if (k <= 7) { kind = "seg"; b += "@SEG" + std::to_string(r.range(0, 5)); } else if (k == 8) { kind = "bom"; b = "\xef\xbb\xbf" + b; } else if (k == 9) { kind = "malformed"; b += "x\xff\xfe\xc3"; } else if (k == 10) { kind = "long"; while (b.size() < 70000) b += "the quick brown fox e "; } else if (k == 11) { kind = "nul"; b += std::string("a\0b", 3); } else kind = "text"; return b; }
static std::string casBody(Rng & r, Setup & u, std::string & kind) {
  int k = r.range(0, 15); Schema s2; Schema * s = &u.s; if (k == 0 || k == 15) { s2 = genSchema(r); s = &s2; kind = "other-types"; } else kind = "cas"; Env env(*s); std::unique_ptr<CAS> c(env.newCAS()); GenCas g(*s); GenOpts o; o.maxFS = r.chance(20) ? 40 : 8; o.privateMulti = false; genCas(g, r, *c, o);
  if (k <= 3 || (u.sofa && u.sofaName == "extra" && (k == 0 || k >= 8))) { std::string t; outcome([&] { static const char * const X[] = { "@FAIL", "@STD", "@INT", "@RC", "@SEG2", "@SEG3", "plain" }; CAS * v = c->createView("extra"); int q = r.range(0, 6); v->setDocumentText(UnicodeStringRef(us(X[q]))); if (q == 4 || (k && k != 15)) kind = std::string("view") + X[q]; }); }
  std::ostringstream os; if (u.fmt == XCASF) { XCASWriter w(*c, true); w.write(os); } else { XmiWriter w(*c, true); w.write(os); } std::string b = os.str(); if (k == 4) { kind = "truncated"; b = b.substr(0, r.below(b.size())); } else if (k == 5) { kind = "garbage"; b = "no xml at all"; } else if (k == 6) { kind = "empty"; b = ""; } return b; }

static void prepare(Rng & r, Args & a, Setup & u, const std::string & dir) { u.plugins = a.extra["--plugins"]; u.exe = u.plugins + "/../runAECpp"; u.s = genSchema(r); u.desc = dir + "/ae.xml"; writeFile(u.desc, aeXml(u.s, u.plugins + "/rec.so")); }
static bool threaded = false;
static void judgeProcess(const Ran & x, const std::string & what) { count("processes"); if (x.err.find("WARNING: ThreadSanitizer") != std::string::npos) violation("cli-race", what + " " + x.err.substr(x.err.find("WARNING: ThreadSanitizer"), 1500)); else if (x.hang) violation("cli-hang", what); else if (x.code() == 77) violation("cli-sanitizer", what + " " + x.err.substr(x.err.find("ERROR") == std::string::npos ? 0 : x.err.find("ERROR"), 1200)); else if (x.sig()) violation("cli-crash", what + ": signal " + std::to_string(x.sig()) + " " + x.err.substr(x.err.size() > 500 ? x.err.size() - 500 : 0)); }

static void runs(Rng & r, Args & a) {
  char cwd[4096]; if (!getcwd(cwd, sizeof cwd)) return; Scratch sc(a.tmp + "/cli"); std::string in = sc.d + "/in", out = sc.d + "/out", log = sc.d + "/log"; mkdir(in.c_str(), 0755); mkdir(out.c_str(), 0755);
  Setup u; prepare(r, a, u, sc.d); u.fmt = (Fmt) r.below(3); u.lenient = u.fmt == XMIF && r.chance(40); u.sofa = u.fmt != TEXT && r.chance(35); if (u.sofa) { static const char * const N[] = { "_InitialView", "extra", "absent", "view1", "extra" }; u.sofaName = N[r.below(5)]; }
  bool single = r.chance(25); int n = single ? 1 : r.range(0, 7); std::vector<Doc> docs; std::set<std::string> names; std::string base = single ? sc.d : in;
  for (int i = 0; i < n; ++i) { Doc d; d.name = fileName(r, i); if (!names.insert(d.name).second) continue; d.body = u.fmt == TEXT ? textBody(r, d.kind) : casBody(r, u, d.kind); writeFile(base + "/" + d.name, d.body); oracle(u, d, sc.d + "/olog"); docs.push_back(d); count("doc-" + d.kind); }
  if (!single && r.chance(30)) { mkdir((in + "/subdir").c_str(), 0755); writeFile(in + "/subdir/not-this", "text"); }
  int inst = threaded || r.chance(25) ? r.range(2, 4) : 1, runsN = r.chance(40) ? r.range(2, 3) : 1; bool rnd = r.chance(15), wantOut = inst == 1 && r.chance(70); int delay = r.chance(10) ? r.range(1, 3) : 0, lvl = r.chance(40) ? r.range(0, 2) : -1; bool noSofa = false, fails = false; for (auto & d : docs) { noSofa |= d.noSofa; fails |= d.fails; }
  // options in any place, positional arguments in their order
  std::vector<std::vector<std::string>> opts, pos; if (u.fmt == XCASF) opts.push_back({ r.chance(50) ? "-x" : "-xcas" }); if (u.fmt == XMIF) opts.push_back({ "-xmi" }); if (u.lenient) opts.push_back({ "-lenient" }); if (u.sofa) opts.push_back({ "-s", u.sofaName }); if (lvl >= 0) opts.push_back({ "-l", std::to_string(lvl) }); if (inst > 1) opts.push_back({ "-n", std::to_string(inst) }); if (runsN > 1) opts.push_back({ "-r", std::to_string(runsN) }); if (rnd) opts.push_back({ "-rand" }); if (delay) opts.push_back({ "-rdelay", std::to_string(delay) });
  for (size_t i = opts.size(); i > 1; --i) std::swap(opts[i - 1], opts[r.below(i)]); std::string inArg = single ? base + "/" + docs[0].name : in + (r.chance(25) ? "/" : ""); if (single && docs.empty()) return; std::vector<std::string> args, p = { u.desc, inArg }; if (wantOut) p.push_back(out); size_t k = 0; for (auto & o : opts) { while (k < p.size() && r.chance(45)) args.push_back(p[k++]); args.insert(args.end(), o.begin(), o.end()); } while (k < p.size()) args.push_back(p[k++]);
  std::string cmd; for (auto & x : args) cmd += x.substr(x.rfind('/') == std::string::npos ? 0 : x.rfind('/')) + " "; op(cmd); for (auto & d : docs) op(d.name + " " + d.kind);
  if (const char * q = getenv("VP_DUMP")) { std::string c = "cd " + sc.d; (void) q; fprintf(stderr, "%s\n", cmd.c_str()); }
  Ran x = execute(u.exe, args, sc.d, { { "VP_REC_LOG", log } }, 120); if (x.hang) { unlink(log.c_str()); wipe(out); mkdir(out.c_str(), 0755); x = execute(u.exe, args, sc.d, { { "VP_REC_LOG", log } }, 240); }
  judgeProcess(x, cmd); count("evals"); seen(mix(hashStr(cmd), docs.size() ? hashStr(docs[0].xmi) : 0)); count("documents", docs.size()); count(single ? "single-file-runs" : "directory-runs"); if (x.sig() || x.hang || x.code() == 77 || x.code() == 66) return;
  std::istringstream is(slurp(log)); std::string l; std::vector<std::vector<std::string>> perRun(1); int I = 0, C = 0, D = 0; while (std::getline(is, l)) { if (l[0] == 'I') ++I; else if (l[0] == 'C') { ++C; perRun.emplace_back(); } else if (l[0] == 'D') ++D; else perRun.back().push_back(l); }
  std::multiset<std::string> all, expect; for (auto & v : perRun) all.insert(v.begin(), v.end()); for (auto & d : docs) expect.insert(d.lines.begin(), d.lines.end());
  std::set<std::string> allowed(expect.begin(), expect.end()); for (auto & z : all) if (!allowed.count(z)) { violation("cli-document-differs", "driver " + z + " expected e.g. " + (expect.empty() ? "" : *expect.begin())); return; }
  if (noSofa) { count("sofa-absent"); if (x.code() == 0 && !fails && x.err.find("Sofa") == std::string::npos) violation("cli-missing-sofa-silent", cmd); if (x.code() != 0) return; }
  if (x.code() != 0) { violation("cli-exit-status", std::to_string(x.code()) + " " + x.err.substr(0, 500)); return; }
  if (fails && !rnd && x.err.empty()) violation("cli-failure-silent", cmd);
  if (I != inst || D != inst || C != inst * runsN) violation("cli-callbacks", "initialize " + std::to_string(I) + " collection " + std::to_string(C) + " destroy " + std::to_string(D) + " for " + std::to_string(inst) + " instances " + std::to_string(runsN) + " runs");
  if (rnd && !docs.empty()) { count("random-runs"); if (!fails && !noSofa && !single && all.size() != expect.size() * runsN * inst) violation("cli-random-count", std::to_string(all.size()) + " of " + std::to_string(expect.size() * runsN * inst)); }
  else if (inst == 1) { for (int q = 0; q < runsN && q < (int) perRun.size(); ++q) { std::multiset<std::string> got(perRun[q].begin(), perRun[q].end()); count("evals", 1 + got.size()); count("documents-processed", got.size()); if (got != expect) violation("cli-not-once-per-run", "run " + std::to_string(q) + ": " + std::to_string(got.size()) + " of " + std::to_string(expect.size()) + " documents"); } }
  else { std::multiset<std::string> e2; for (int q = 0; q < inst * runsN; ++q) e2.insert(expect.begin(), expect.end()); count("documents-processed", all.size()); count("parallel-runs"); if (all != e2) violation("cli-not-once-per-instance", std::to_string(all.size()) + " of " + std::to_string(e2.size())); }
  std::map<std::string, std::string> want; if (wantOut && !rnd) for (auto & d : docs) { if (!d.xmi.empty()) want[d.name] = d.xmi; }
  if (wantOut && !rnd) { std::set<std::string> known; for (auto & d : docs) { if (!d.xmi.empty()) { known.insert(d.name); std::string f = out + "/" + d.name; if (!exists(f)) violation("cli-output-missing", d.name); else if (slurp(f) != d.xmi) violation("cli-output-differs", d.name + " " + d.kind + " " + std::to_string(slurp(f).size()) + " for " + std::to_string(d.xmi.size()) + " bytes"); else count("outputs-compared"); } else if (d.fails && !d.noSofa && exists(out + "/" + d.name)) { if (!d.kind.empty()) violation("cli-output-of-failed-document", d.name); known.insert(d.name); }
      for (size_t q = 0; q < d.segs.size(); ++q) { std::string s = d.name + "_seg_" + std::to_string(q + 1); known.insert(s); if (!exists(out + "/" + s)) violation("cli-segment-missing", s); else if (slurp(out + "/" + s) != d.segs[q]) violation("cli-segment-differs", s); else count("segments-compared"); } }
    for (auto & f : ls(out)) if (!known.count(f)) violation("cli-output-unexpected", f); }
  if (!wantOut && !ls(out).empty()) violation("cli-output-unasked", ls(out)[0]); sample(cmd + "-> " + std::to_string(all.size()) + " documents, " + std::to_string(want.size()) + " outputs"); }

// command lines and components that cannot work: a message, a failure status, nothing processed
static void bad(Rng & r, Args & a) {
  Scratch sc(a.tmp + "/cli"); std::string in = sc.d + "/in", out = sc.d + "/out", log = sc.d + "/log"; mkdir(in.c_str(), 0755); mkdir(out.c_str(), 0755); Setup u; prepare(r, a, u, sc.d); int n = r.range(1, 3); for (int i = 0; i < n; ++i) writeFile(in + "/d" + std::to_string(i), "some text e"); std::vector<std::string> args; std::vector<std::pair<std::string, std::string>> env = { { "VP_REC_LOG", log } }; int k = r.range(0, 18); std::string what; bool ends = false;
  auto S = [&](std::initializer_list<std::string> l) { args = l; };
  switch (k) { case 0: what = "no arguments"; break; case 1: what = "descriptor only"; S({ u.desc }); break; case 2: what = "missing input"; S({ u.desc, sc.d + "/absent" }); break; case 3: what = "same paths"; S({ u.desc, in, in }); break;
    case 4: { what = "option without value"; static const char * const O[] = { "-s", "-l", "-n", "-r", "-rdelay" }; S({ u.desc, in, O[r.below(5)] }); break; } case 5: what = "bad level"; S({ "-l", r.chance(50) ? "3" : "-1", u.desc, in }); break; case 6: what = "bad instances"; S({ "-n", r.chance(50) ? "0" : "x", u.desc, in }); break; case 7: what = "bad runs"; S({ u.desc, "-r", r.chance(50) ? "0" : "-5", in }); break; case 8: what = "bad delay"; S({ u.desc, in, "-rdelay", "0" }); break;
    case 9: what = "instances and output"; if (r.chance(50)) S({ u.desc, in, out, "-n", "2" }); else S({ "-n", "2", u.desc, in, out }); break;
    case 10: what = "missing descriptor"; S({ sc.d + "/absent.xml", in }); break; case 11: what = "broken descriptor"; { std::string x = slurp(u.desc); writeFile(u.desc, x.substr(0, r.below(x.size() - 30))); S({ u.desc, in }); } break; case 12: what = "missing annotator"; writeFile(u.desc, aeXml(u.s, "no-such-annotator")); S({ u.desc, in, out }); break;
    case 13: case 14: { what = "failing initialize"; int how = r.range(1, 4), code = r.chance(40) ? 256 * r.range(1, 20) : r.range(1, 6000); if (how == 1 || how == 4) what += " code " + std::to_string(code); else what += " exception " + std::to_string(how); env.push_back({ "VP_REC_INIT_HOW", std::to_string(how) }); env.push_back({ "VP_REC_CODE", std::to_string(code) }); S({ u.desc, in }); break; }
    case 16: case 17: { ends = true; what = k == 16 ? "failing collection end" : "failing destroy"; int how = r.range(1, 4); what += " exception " + std::to_string(how); env.push_back({ k == 16 ? "VP_REC_END_HOW" : "VP_REC_DESTROY_HOW", std::to_string(how) }); env.push_back({ "VP_REC_CODE", std::to_string(r.range(1, 6000)) }); S({ u.desc, in }); ends = how == 1 || how == 4; break; }
    default: { what = "descriptor is something else"; static const char * const X[] = { "", "<a/>", "<?xml version='1.0'?>", "text", "<analysisEngineDescription/>" }; writeFile(u.desc, X[r.below(5)]); S({ u.desc, in }); } }
  if (k >= 10 && r.chance(40) && args.size() == 2) { args.push_back("-n"); args.push_back("2"); }
  op(what); Ran x = execute(u.exe, args, sc.d, env, 120); if (x.hang) x = execute(u.exe, args, sc.d, env, 240); judgeProcess(x, what); count("evals"); count("bad-" + what.substr(0, what.find(" code")).substr(0, what.find(" exception"))); seen(mix(hashStr(what), args.size())); if (x.sig() || x.hang || x.code() == 77 || x.code() == 66) return;
  if (x.code() == 0 && !ends) violation("cli-success-status", what); if (x.out.empty() && x.err.empty()) violation("cli-no-message", what); std::istringstream is(slurp(log)); std::string l; while (std::getline(is, l)) if (l[0] == 'P' && k != 16 && k != 17) { violation("cli-processed-anyway", what); break; } if (!ls(out).empty()) violation("cli-output-unasked", what); }

int main(int argc, char ** argv) { ResourceManager::createInstance("vp"); return drive(argc, argv, { { "runs", runs }, { "bad", bad }, { "threads", [](Rng & r, Args & a) { threaded = true; runs(r, a); } } }); }
