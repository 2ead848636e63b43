#pragma once
// M01: repeats a case with the same random source and looks for memory obtained by the library in every repetition and still held after the
// last one, and for file descriptors left open. Included by common.hpp; active with --growth 1 in programs linked with AddressSanitizer.
#include <atomic>
#include <dirent.h>
extern "C" { __attribute__((weak)) int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *)); __attribute__((weak)) size_t __asan_get_alloc_stack(void *, void **, size_t, int *); __attribute__((weak)) void __sanitizer_symbolize_pc(void *, const char *, char *, size_t); }
namespace vp { namespace growth {
struct Slot { const void * p; unsigned run, size; };
enum : size_t { SLOTS = 1u << 21 };
inline Slot * slots() { static Slot s[SLOTS]; return s; }   // static storage: it is used inside malloc
inline std::atomic<unsigned> & run() { static std::atomic<unsigned> r(0); return r; }
inline std::atomic_flag & lock() { static std::atomic_flag f = ATOMIC_FLAG_INIT; return f; }
struct Counts { size_t used, allocs, frees, bytes; }; inline Counts & counts() { static Counts c; return c; }
inline const void * gone() { return (const void *) 1; }
inline size_t at(const void * p) { return (size_t) ((((u64) p >> 4) * 0x9E3779B97F4A7C15ull) >> 43) & (SLOTS - 1); }
inline void onMalloc(const volatile void * q, size_t n) { unsigned rn = run().load(std::memory_order_relaxed); if (!rn || !q) return; const void * p = (const void *) q; while (lock().test_and_set()) { } Slot * s = slots(); Counts & c = counts();
  if (c.used < SLOTS / 2) { size_t i = at(p); while (s[i].p && s[i].p != gone()) i = (i + 1) & (SLOTS - 1); if (!s[i].p) ++c.used; s[i].p = p; s[i].run = rn; s[i].size = (unsigned) n; } ++c.allocs; c.bytes += n; lock().clear(); }
inline void onFree(const volatile void * q) { if (!run().load(std::memory_order_relaxed) || !q) return; const void * p = (const void *) q; while (lock().test_and_set()) { } Slot * s = slots();
  for (size_t i = at(p); s[i].p; i = (i + 1) & (SLOTS - 1)) if (s[i].p == p) { s[i].p = gone(); ++counts().frees; break; } lock().clear(); }
inline int descriptors() { int n = 0; if (DIR * d = opendir("/proc/self/fd")) { while (readdir(d)) ++n; closedir(d); } return n; }
// the function of the library that asked for the block: the innermost frame that belongs neither to the allocator, the standard library nor a
// third-party library; "" if that frame is not libuima's
inline std::string whose(const void * p, std::string & stack) { void * tr[60]; int tid; size_t n = __asan_get_alloc_stack((void *) p, tr, 60, &tid); std::string key; bool decided = false;
  for (size_t i = 0; i < n; ++i) { static std::map<void *, std::string> known; std::string & f0 = known[tr[i]]; if (f0.empty()) { char b[2048]; __sanitizer_symbolize_pc(tr[i], "%f|%m", b, sizeof b); f0 = b; } std::string f = f0, mod, head; size_t q = f.rfind('|'); mod = f.substr(q + 1); f = f.substr(0, q); int depth = 0; for (char ch : f) { if (ch == '(' && !depth && !head.empty()) break; if (ch == '<') ++depth; else if (ch == '>') --depth; else if (!depth) head += ch; }
    stack += (i ? " < " : "") + head; bool lib = mod.find("libuima") != std::string::npos, third = mod.compare(0, 5, "/usr/") == 0 || mod.compare(0, 5, "/lib/") == 0; if (decided || third || head.find("std::") != std::string::npos || head.find("__gnu") != std::string::npos || head.find("operator new") != std::string::npos) continue; decided = true; if (lib) key = head; }
  return key; }
struct Held { std::set<unsigned> runs; long bytes = 0, blocks = 0; std::string stack; };
inline void report(const std::string & name, unsigned R, int fdBefore) { Counts c = counts(); int fdAfter = descriptors(); count("allocations", (long) c.allocs); count("repetitions", R); count("descriptors-checked"); count("evals"); if (c.allocs) count("allocating-cases"); if (Report::get().curCase == 0) sample(name + ": " + std::to_string(c.allocs) + " allocations (" + std::to_string(c.bytes) + " bytes) in " + std::to_string(R) + " repetitions"); seen(mix(hashStr(name), mix(c.allocs, c.bytes)));
  if (c.used >= SLOTS / 2) { count("block-table-full"); return; }
  std::map<std::string, Held> held; Slot * s = slots(); for (size_t i = 0; i < SLOTS; ++i) if (s[i].p && s[i].p != gone()) { std::string st, k = whose(s[i].p, st); if (k.empty()) { count("blocks-held-by-harness"); if (getenv("VP_FOREIGN")) fprintf(stderr, "FOREIGN %u %s\n", s[i].run, st.c_str()); continue; } Held & h = held[k]; h.runs.insert(s[i].run); h.bytes += s[i].size; ++h.blocks; h.stack = st; }
  for (auto & x : held) if (x.second.runs.size() >= R) violation("memory-growth:" + x.first, name + ": " + std::to_string(x.second.blocks) + " blocks (" + std::to_string(x.second.bytes) + " bytes) of " + std::to_string(R) + " repetitions still held, e.g. from " + x.second.stack.substr(0, 1200)); else count("blocks-held-once");
  if (fdAfter >= fdBefore + (int) R) violation("descriptor-growth", name + ": " + std::to_string(fdAfter - fdBefore) + " file descriptors opened by " + std::to_string(R) + " repetitions are still open"); }
template<class F> void repeat(const std::string & name, F body) { static bool hooked = false; if (!hooked) { hooked = true; if (__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree); else { fprintf(stderr, "no allocation hooks\n"); _exit(3); } }
  const unsigned R = 3; static Report mute; mute.curCase = Report::get().curCase; auto once = [&] { mute.trace.clear(); tlReport() = &mute; body(); tlReport() = 0; mute.distinct.clear(); }; once(); memset(slots(), 0, sizeof(Slot) * SLOTS); counts() = Counts(); int fd = descriptors(); for (unsigned i = 1; i <= R; ++i) { run() = i; once(); } run() = 0; Report::get().trace = mute.trace; report(name, R, fd); mute.stat.clear(); mute.samples.clear(); }
} }
