// H01: independent pieces of framework work in several threads at once under ThreadSanitizer; every digest is compared with the one of
// a sequential run of the same work, every log message must arrive exactly once.
#include "tasks.hpp"
#include <thread>
#include <atomic>
using namespace vp; using namespace uima;
static ThreadedHook gHook;
// sinks are called under the framework's own lock: no synchronization of its own, so that a missing lock shows as a data race
struct Sink : Logger { std::map<std::string, int> got; void log(LogStream::EnEntryType, std::string, std::string, std::string message, long) override { size_t p = message.find("@t"), e = p == std::string::npos ? p : message.find(";", p); if (e != std::string::npos) got[message.substr(p, e - p)]++; } };

struct Job { int kind; u64 seed; std::string base; Digest d; long sent = 0; std::string fail; };
static void work(Job & j, const TaskEnv & t) { try { j.d = runTask(j.kind, j.seed, t, j.base, j.sent); } catch (Exception & e) { j.fail = e.asString(); } catch (std::exception & e) { j.fail = e.what(); } catch (...) { j.fail = "?"; } }
static void run(Rng & r, Args & a, bool shared) {
  int nt = r.range(2, 5), per = r.range(1, 5); std::vector<std::vector<Job>> jobs(nt); int focus = r.chance(60) ? (int) r.below(K_N) : -1; bool same = r.chance(15); int id = 0; static const int ON[] = { K_XMI, K_XCAS, K_BLOB, K_SERCAS, K_SHARED, K_HOSTILE, K_ITER, K_CAS, K_SHAREDDESC, K_SHAREDDESC }; auto kindOf = [&] { return shared ? ON[r.below(10)] : (int) r.below(K_N); }; if (focus >= 0) focus = kindOf();
  for (auto & v : jobs) for (int i = 0; i < per; ++i) { Job j; j.kind = focus >= 0 && r.chance(70) ? focus : kindOf(); j.seed = r.next(); v.push_back(j); } if (same) for (auto & v : jobs) for (int i = 0; i < per; ++i) v[i] = jobs[0][i]; for (auto & v : jobs) for (auto & j : v) j.base = "@t" + std::to_string(id++);
  std::string text; for (auto & v : jobs) { for (auto & j : v) text += std::string(KN[j.kind]) + " "; text += "| "; } op(text);
  Sink sink; bool logging = text.find("log") != std::string::npos; if (logging) ResourceManager::getInstance().registerLogger(&sink);
  // every case loads its annotators under names of its own (one per thread or one for all), so that the first use of a library is concurrent too
  bool own = r.chance(50); auto plugins = [&](int i) { std::string d = a.tmp + "/plug" + std::to_string(Report::get().curCase) + "_" + std::to_string(own ? i : 0); return d; }; std::vector<std::string> plug; for (int i = 0; i < nt; ++i) { plug.push_back(plugins(i)); mkdir(plug[i].c_str(), 0755); if (symlink((a.extra["--plugins"] + "/trace.so").c_str(), (plug[i] + "/trace.so").c_str())) {} }
  Schema schema; std::unique_ptr<Env> env; std::unique_ptr<AnalysisEngineDescription> desc; if (shared) { schema = genSchema(r); env.reset(new Env(schema)); desc.reset(new AnalysisEngineDescription()); XMLParser p; std::string x = aeXml(schema, plug[0] + "/trace.so"); xercesc::MemBufInputSource src((const XMLByte *) x.data(), x.size(), "gen"); p.parseAnalysisEngineDescription(*desc, src); desc->validate(); desc->commit(); }
  auto share = [&](TaskEnv & t) { if (shared) { t.schema = &schema; t.env = env.get(); t.desc = desc.get(); } };
  std::vector<Report> reps(nt); std::atomic<int> ready(0); std::vector<std::thread> th; u64 jitter = r.next(); std::atomic<long> overlap(0), running(0);
  for (int i = 0; i < nt; ++i) th.emplace_back([&, i] { tlReport() = &reps[i]; TaskEnv t; share(t); t.plugins = plug[i]; t.dir = a.tmp + "/t" + std::to_string(i); t.examples = a.extra["--examples"]; mkdir(t.dir.c_str(), 0755); Rng jr(mix(jitter, i)); t.pause = [&jr] { int k = (int) jr.below(12); if (k == 0) std::this_thread::yield(); else if (k == 1) usleep(jr.below(300)); };
      ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < nt) std::this_thread::yield();
      for (auto & j : jobs[i]) { long n = running.fetch_add(1, std::memory_order_relaxed); if (n) overlap.fetch_add(1, std::memory_order_relaxed); work(j, t); running.fetch_sub(1, std::memory_order_relaxed); } tlReport() = 0; });
  for (auto & x : th) x.join(); for (auto & q : reps) for (auto & p : q.stat) count(p.first, p.second); count("threads", nt); count("overlapping-tasks", overlap);
  if (logging) { ResourceManager::getInstance().unregisterLogger(&sink); }
  TaskEnv t; share(t); t.examples = a.extra["--examples"]; Report mute; long expected = 0;
  for (int i = 0; i < nt; ++i) { t.plugins = plug[i]; t.dir = a.tmp + "/t" + std::to_string(i); for (auto & j : jobs[i]) { expected += j.sent; Job s; s.kind = j.kind; s.seed = j.seed; s.base = j.base; Report * keep = tlReport(); tlReport() = &mute; work(s, t); tlReport() = keep; if (j.fail != s.fail) { violation(std::string("task-failed-") + KN[j.kind], "concurrent '" + j.fail + "' sequential '" + s.fail + "'"); continue; } if (!s.fail.empty()) { violation(std::string("task-fails-") + KN[j.kind], s.fail); continue; }
      count("evals"); count("digests", (long) j.d.size()); std::string whole; for (auto & x : j.d) whole += x; seen(hashStr(whole)); if (j.d != s.d) { size_t k = 0; while (k < j.d.size() && k < s.d.size() && j.d[k] == s.d[k]) ++k; violation(std::string("result-differs-") + KN[j.kind], "at " + std::to_string(k) + " concurrent " + (k < j.d.size() ? j.d[k] : "end") + " sequential " + (k < s.d.size() ? s.d[k] : "end")); }
      if (logging) for (int m = 0; m < j.sent; ++m) { std::string key = j.base + "/" + std::to_string(m); int n = sink.got.count(key) ? sink.got[key] : 0; if (n != 1) violation("log-message-count", key + " arrived " + std::to_string(n) + " times"); else count("log-messages"); } } }
  if (a.first == 0) sample(std::to_string(nt) + " threads: " + text); }
static void conc(Rng & r, Args & a) { run(r, a, false); }
static void types(Rng & r, Args & a) { run(r, a, true); }
int main(int argc, char ** argv) { unsetenv("UIMACPP_HOME"); ResourceManager::createInstance("vp").setLoggingLevel(LogStream::EnMessage); Args a = parseArgs(argc, argv); installHook(a.extra["--plugins"], &gHook); int rc = drive(argc, argv, { { "conc", conc }, { "types", types } }); ResourceManager::deleteInstance(); return rc; }
