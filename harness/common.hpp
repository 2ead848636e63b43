// Shared infrastructure of the monitors: random source, reporting protocol, workload driver.
#pragma once
#include <cstdio>
#include <cstdint>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <sstream>
#include <iostream>
#include <fstream>
#include <memory>
#include <algorithm>
#include <limits>
#include <unistd.h>
#include <fcntl.h>
#include "uima/api.hpp"
#include "uima/internal_casimpl.hpp"
#include "uima/internal_fspromoter.hpp"
#include "uima/casdefinition.hpp"
#include "uima/taespecifierbuilder.hpp"
#include "uima/resmgr.hpp"
#include <xercesc/framework/MemBufInputSource.hpp>

namespace vp {
using icu::UnicodeString;
typedef uint64_t u64; typedef int64_t i64;

struct Rng {
  u64 s;
  explicit Rng(u64 seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  u64 next() { s += 0x9E3779B97F4A7C15ull; u64 z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  u64 below(u64 n) { return n ? next() % n : 0; }
  int range(int lo, int hi) { return lo + (int) below((u64)(hi - lo + 1)); }   // inclusive
  bool chance(int pct) { return (int) below(100) < pct; }
  template<class V> auto pick(V & v) -> decltype(v[0]) { return v[below(v.size())]; }
};
inline u64 mix(u64 a, u64 b) { Rng r(a ^ (b * 0xD6E8FEB86659FD93ull)); return r.next(); }
inline u64 hashStr(const std::string & s) { u64 h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }

struct Report {
  std::map<std::string, long> stat;
  std::unordered_set<u64> distinct;
  std::vector<std::string> samples;
  long violations = 0;
  int progressFd = -1;
  long curCase = -1;
  std::map<std::string, int> perKey;
  std::vector<std::string> trace;       // operations of the current case (for the replay file)
  static Report & get();
};
inline Report *& tlReport() { static thread_local Report * p = 0; return p; }   // report of the current thread, if it has its own
inline Report & Report::get() { static Report r; return tlReport() ? *tlReport() : r; }
inline void count(const std::string & k, long n = 1) { Report::get().stat[k] += n; }
inline void seen(u64 h) { if (Report::get().distinct.size() < 400000) Report::get().distinct.insert(h); }
inline std::string oneLine(std::string s) { for (auto & c : s) if (c == '\n' || c == '\r' || c == '\t') c = ' '; if (s.size() > 1500) s.resize(1500); return s; }
inline void op(const std::string & s) { static const bool live = getenv("VP_TRACE") != 0; if (live) fprintf(stderr, "@T %ld %s\n", Report::get().curCase, s.c_str()); auto & r = Report::get(); if (r.trace.size() < 4000) r.trace.push_back(s); }
inline bool & growthMode() { static bool b = false; return b; }   // see growth.hpp
inline void violation(const std::string & key, const std::string & detail) {
  if (growthMode() && key.find("-growth") == std::string::npos) { count("behaviour-not-judged-here"); return; }
  auto & r = Report::get(); r.violations++;
  if (r.perKey[key]++ > 20) return;
  std::string tail;
  size_t from = r.trace.size() > 30 ? r.trace.size() - 30 : 0;
  for (size_t i = from; i < r.trace.size(); ++i) tail += r.trace[i] + "; ";
  printf("@V\t%s\t%ld\t%s\t%s\n", key.c_str(), r.curCase, oneLine(detail).c_str(), oneLine(tail).c_str()); fflush(stdout);
}
inline void sample(const std::string & s) { auto & r = Report::get(); if (r.samples.size() < 4) r.samples.push_back(oneLine(s).substr(0, 600)); }

// ---- strings -----------------------------------------------------------------------------
inline std::string u8(const UnicodeString & s) { // independent of ICU's default converter; escapes controls
  std::string o; for (int i = 0; i < s.length(); ++i) { unsigned c = s[i];
    if (c >= 0x20 && c < 0x7f && c != '\\') o += (char) c; else { char b[12]; snprintf(b, sizeof b, "\\u%04X", c); o += b; } } return o; }
inline std::string u8(const uima::UnicodeStringRef & r) { return r.getBuffer() ? u8(UnicodeString(r.getBuffer(), r.length())) : std::string("<null>"); }
inline UnicodeString us(const std::string & s) { return UnicodeString::fromUTF8(s); }
inline UnicodeString us(const uima::UnicodeStringRef & r) { return r.getBuffer() ? UnicodeString(r.getBuffer(), r.length()) : UnicodeString(); }
inline std::string utf8(const UnicodeString & s) { std::string o; s.toUTF8String(o); return o; }

enum StrFlags { S_XML = 1, S_NONUL = 2, S_ANY = 4, S_BMPONLY = 8, S_ASCII = 16 };
// S_XML: only characters legal in XML 1.0, well-formed UTF-16.
inline UnicodeString randString(Rng & r, int flags, int maxLen = 24) {
  UnicodeString s; int cls = r.range(0, 11); int n = r.chance(10) ? 0 : r.range(1, maxLen);
  if (r.chance(2)) n = r.range(200, 3000);
  for (int i = 0; i < n; ++i) {
    int c = cls == 11 ? r.range(0, 10) : cls; UChar32 ch;
    switch (c) {
      case 0: case 1: case 2: ch = r.range('a', 'z'); break;
      case 3: ch = r.range(0x20, 0x7e); break;
      case 4: { static const char sp[] = "<>&\"' ;#x]]>-!?/=\\%{}"; ch = sp[r.below(sizeof(sp) - 1)]; break; }
      case 5: { static const UChar32 ws[] = { ' ', '\t', '\n', '\r', ' ', 0x20, 'a', 'b' }; ch = ws[r.below(8)]; break; }
      case 6: ch = r.range(0xa0, 0x2ff); break;
      case 7: ch = r.range(0x4e00, 0x9fff); break;
      case 8: ch = r.range(0x10000, 0x1ffff); if ((ch & 0xfffe) == 0xfffe) ch = 0x1f600; break;
      case 9: { static const UChar32 e[] = { 0xfffd, 0xd7ff, 0xe000, 0x2028, 0x85, 0x7f, 0xfeff, 0x10fffd, 0x301, 0x200d }; ch = e[r.below(10)]; break; }
      default: ch = r.range('0', '9');
    }
    if (flags & S_ASCII) { if (ch >= 0x7f || ch < 0x20) ch = 'q'; }
    if (flags & S_ANY) { if (r.chance(4)) ch = r.range((flags & S_NONUL) ? 1 : 0, 0x1f); if (r.chance(3)) { s.append((UChar)(0xd800 + r.below(0x800))); continue; } }
    s.append(ch);
  }
  return s;
}
// ---- exceptions --------------------------------------------------------------------------
// Runs f. "ok", "uima:<errid>" (framework exception), "std:<what>", "other"
template<class F> std::string outcome(F f) {
  try { f(); return "ok"; }
  catch (uima::Exception & e) { char b[40]; snprintf(b, sizeof b, "uima:%ld", (long) e.getErrorInfo().getErrorId()); return b; }
  catch (std::exception & e) { return std::string("std:") + e.what(); }
  catch (...) { return "other"; }
}
inline bool isUima(const std::string & o) { return o.compare(0, 5, "uima:") == 0; }

// ---- driver ------------------------------------------------------------------------------
struct Args {
  std::string mode; u64 seed = 1; long cases = 10, first = 0; std::string out; std::string tmp = "/tmp"; std::string data; bool thorough = false;
  std::map<std::string, std::string> extra;
};
inline Args parseArgs(int argc, char ** argv) {
  Args a; if (argc > 1) a.mode = argv[1];
  for (int i = 2; i + 1 < argc; i += 2) { std::string k = argv[i], v = argv[i + 1];
    if (k == "--seed") a.seed = strtoull(v.c_str(), 0, 10); else if (k == "--cases") a.cases = atol(v.c_str());
    else if (k == "--first") a.first = atol(v.c_str()); else if (k == "--out") a.out = v; else if (k == "--tmp") a.tmp = v;
    else if (k == "--data") a.data = v; else if (k == "--thorough") a.thorough = v == "1"; else a.extra[k] = v; }
  return a;
}
inline void finish(const Args & a) {
  auto & r = Report::get();
  for (auto & p : r.stat) printf("@S\t%s\t%ld\n", p.first.c_str(), p.second);
  for (auto & s : r.samples) printf("@E\t%s\n", s.c_str());
  if (!a.out.empty()) { std::ofstream f(a.out + ".distinct", std::ios::binary); for (u64 h : r.distinct) f.write((const char *) &h, 8); }
  printf("@DONE\n"); fflush(stdout);
}
inline void setProgress(const Args & a, long c) {
  auto & r = Report::get(); r.curCase = c; r.trace.clear();
  if (a.out.empty()) return;
  if (r.progressFd < 0) r.progressFd = open((a.out + ".progress").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
  char b[32]; int n = snprintf(b, sizeof b, "%-20ld\n", c); if (pwrite(r.progressFd, b, n, 0) < 0) {}
}
// Every case runs with its own random source derived from (seed, case number).
} // namespace vp
#include "growth.hpp"
namespace vp {
inline int drive(int argc, char ** argv, const std::map<std::string, std::function<void(Rng &, Args &)>> & modes) {
  Args a = parseArgs(argc, argv);
  auto it = modes.find(a.mode); if (it == modes.end()) { fprintf(stderr, "unknown mode %s\n", a.mode.c_str()); return 3; }
  setvbuf(stdout, 0, _IOLBF, 0); growthMode() = a.extra.count("--growth") != 0;
  for (long c = a.first; c < a.first + a.cases; ++c) {
    setProgress(a, c);
    if (growthMode()) { growth::repeat(a.mode, [&] { Rng r(mix(a.seed * 1000003ull + hashStr(a.mode), (u64) c)); try { it->second(r, a); } catch (...) { } }); count("cases"); continue; }
    Rng r(mix(a.seed * 1000003ull + hashStr(a.mode), (u64) c));
    try { it->second(r, a); count("cases"); }
    catch (uima::Exception & e) { violation("unexpected-exception", e.asString()); }
    catch (std::exception & e) { violation("unexpected-std-exception", e.what()); }
    catch (...) { violation("unexpected-unknown-exception", "?"); }
  }
  finish(a); return 0;
}
} // namespace vp
