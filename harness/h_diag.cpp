// Monitors for the diagnostics: messages, error information, exceptions (N01 "msg", "exc") and logging (N01 "log", "restart").
#include "common.hpp"
#include <thread>
#include <atomic>
#include <iomanip>
#include <apr_general.h>
#include <apr_pools.h>
#include "uima/log.hpp"
#include "uima/exceptions.hpp"
#include "uima/msg.h"
#include "uima/casexception.hpp"
#include "uima/xmiwriter.hpp"
#include "uima/taespecifierbuilder.hpp"
using namespace vp; using namespace uima;
static const char * const TAB[] = {
#include "msgtab.inc"
};
static const int NTAB = sizeof TAB / sizeof *TAB;
typedef std::vector<std::string> Strs;

// ---- messages ---------------------------------------------------------------------------------------------------------------------
static std::string expand(long id, const Strs & ps) {
  if (id < 0 || id >= NTAB) return "Unknown message id " + std::to_string(id); std::string o; const char * t = TAB[id];
  while (*t) { if (*t != '%') { o += *t++; continue; } ++t; if (*t == '%') { o += *t++; continue; } unsigned long n = 0; while (*t >= '0' && *t <= '9') n = n * 10 + (*t++ - '0'); if (n == 0 || n > ps.size()) o += "???"; else o += ps[n - 1]; }
  if (o.size() > UIMA_MSG_MAX_STR_LEN) o.resize(UIMA_MSG_MAX_STR_LEN); return o; }
struct MMsg { long id = 0; Strs ps; std::string text() const { return expand(id, ps); } };
static std::string randText(Rng & r, int max = 30) { switch (r.below(8)) { case 0: return ""; case 1: return "%1 %2 %% %"; case 2: return std::string(r.range(0, 9000), (char) r.range('a', 'z')); case 3: { std::string s = "a"; s += '\0'; s += "b%3"; return s; } default: return utf8(randString(r, S_ANY, max)); } }
static std::string dbl(double d) { std::ostringstream s; s << d; return s.str(); }
// adds a parameter through a random overload of addParam
static void add(Rng & r, ErrorMessage & m, MMsg & w) {
  switch (r.below(10)) { case 0: { int v = (int) r.next(); m.addParam(v); w.ps.push_back(std::to_string(v)); break; } case 1: { unsigned v = (unsigned) r.next(); m.addParam(v); w.ps.push_back(std::to_string(v)); break; } case 2: { long v = (long) r.next(); m.addParam(v); w.ps.push_back(std::to_string(v)); break; } case 3: { unsigned long v = r.next(); m.addParam(v); w.ps.push_back(std::to_string(v)); break; }
    case 4: { double v = (double) (i64) r.next() / r.range(1, 100000); m.addParam(v); w.ps.push_back(dbl(v)); break; } case 5: { std::string s = randText(r); m.addParam(s.c_str()); w.ps.push_back(s.c_str()); break; } case 6: { UnicodeString u = randString(r, S_XML); m.addParam(u); w.ps.push_back(utf8(u)); break; } case 7: { UnicodeString u = randString(r, S_XML); m.addParam(u.getTerminatedBuffer()); w.ps.push_back(utf8(u)); break; }
    case 8: { UnicodeString u = randString(r, S_XML); UnicodeStringRef f(u); m.addParam(f); w.ps.push_back(utf8(u)); break; } default: { std::string s = randText(r); m.addParam(s); w.ps.push_back(s); } } }
static void build(Rng & r, ErrorMessage & m, MMsg & w, bool anyId = true) {
  w = MMsg(); w.id = r.chance(30) ? UIMA_MSG_ID_LITERAL_STRING : (long) r.range(1, NTAB - 1); if (anyId && r.chance(6)) w.id = r.chance(50) ? NTAB + (long) r.below(100000) : -1 - (long) r.below(100000); TyMessageId id = (TyMessageId) w.id;
  switch (r.below(13)) { case 0: m = ErrorMessage(id); break; case 1: { long v = (long) r.next(); m = ErrorMessage(id, v); w.ps.push_back(std::to_string(v)); break; } case 2: { unsigned long v = r.next(); m = ErrorMessage(id, v); w.ps.push_back(std::to_string(v)); break; } case 3: { int v = (int) r.next(); m = ErrorMessage(id, v); w.ps.push_back(std::to_string(v)); break; } case 4: { unsigned v = (unsigned) r.next(); m = ErrorMessage(id, v); w.ps.push_back(std::to_string(v)); break; }
    case 5: { std::string s = randText(r); m = ErrorMessage(id, s.c_str()); w.ps.push_back(s.c_str()); break; } case 6: { std::string s = randText(r); m = ErrorMessage(id, s); w.ps.push_back(s); break; } case 7: { UnicodeString u = randString(r, S_XML); m = ErrorMessage(id, u.getTerminatedBuffer()); w.ps.push_back(utf8(u)); break; } case 8: { UnicodeString u = randString(r, S_XML); m = ErrorMessage(id, u); w.ps.push_back(utf8(u)); break; } case 9: { double v = (double) (int) r.next() / r.range(1, 1000); m = ErrorMessage(id, v); char b[60]; snprintf(b, sizeof b, "%g", v); w.ps.push_back(b); break; }
    case 10: { int n = r.below(5); for (int i = 0; i < n; ++i) w.ps.push_back(randText(r)); m = ErrorMessage(id, w.ps); break; } default: m = ErrorMessage(id); }
  int n = r.below(5); while (n--) add(r, m, w); }
static void cmp(const ErrorMessage & m, const MMsg & w, const char * what) {
  count("evals"); if (m.getMessageID() != (TyMessageId) w.id) violation("message-id", std::string(what) + " " + std::to_string((long) m.getMessageID()) + " for " + std::to_string(w.id)); if (m.getMessageParams() != w.ps) violation("message-params", std::string(what) + " id " + std::to_string(w.id) + " has " + std::to_string(m.getMessageParams().size()) + " parameters, expected " + std::to_string(w.ps.size()) + (m.getMessageParams().size() && w.ps.size() ? " last " + m.getMessageParams().back().substr(0, 60) + " / " + w.ps.back().substr(0, 60) : ""));
  std::string s = m.asString(); if (s != w.text()) violation("message-text", std::string(what) + " id " + std::to_string(w.id) + ": " + s.substr(0, 200) + " expected " + w.text().substr(0, 200)); std::ostringstream o; o << m; if (o.str() != s) violation("message-stream", what); seen(hashStr(s)); }
static void msg(Rng & r, Args & a) {
  if (NTAB != UIMA_MSG_ID_SIGNATURE_END + 1) violation("message-table-size", std::to_string(UIMA_MSG_ID_SIGNATURE_END)); ErrorMessage m; MMsg w; { ErrorMessage n; MMsg e; e.id = UIMA_MSG_ID_NO_MESSAGE_AVAILABLE; cmp(n, e, "default"); }
  for (int k = 0; k < 8; ++k) { build(r, m, w); op("message " + std::to_string(w.id)); cmp(m, w, "new"); ErrorMessage c(m); cmp(c, w, "copy"); MMsg w2 = w; add(r, c, w2); cmp(c, w2, "extended copy"); cmp(m, w, "copied"); ErrorMessage d(UIMA_MSG_ID_LITERAL_STRING, "x"); d = c; cmp(d, w2, "assigned"); ErrorMessage & self = d; d = self; cmp(d, w2, "self-assigned"); if (r.chance(30)) { d.reset(); MMsg e; e.id = UIMA_MSG_ID_NO_MESSAGE_AVAILABLE; cmp(d, e, "reset"); cmp(c, w2, "source of reset"); } count("messages"); }
  if (!a.first) sample(w.text().substr(0, 200)); for (int i = 0; i < NTAB; ++i) if (i) { ErrorMessage x(i); MMsg e; e.id = i; if (x.asString() != e.text()) violation("message-text", "id " + std::to_string(i) + " " + x.asString()); } }

// ---- error information and exceptions ----------------------------------------------------------------------------------------------
struct MCtx { MMsg m; const char * file = 0, * fun = 0; unsigned long line = 0; };
struct MInfo { MMsg m; TyErrorId id = 0; bool rec = true; std::vector<MCtx> cs; };
static const char * gPre = "   While      : ", * gInd = "";
static std::string text(const MCtx & c) { std::string s = c.m.text(), i = std::string("\n") + gInd; if (c.file) s += i + "     File     : " + c.file; if (c.fun) s += i + "     Function : " + c.fun; if (c.line) s += i + "     Line     : " + std::to_string(c.line); return s; }
static std::string text(const MInfo & x) { if (!x.id) return "No Error\n"; std::string i = std::string("\n") + gInd, s = i + "Error number  : " + std::to_string((long) x.id) + i + "Recoverable   : " + (x.rec ? "Yes" : "No") + i + "Error         : " + x.m.text(); for (auto & c : x.cs) s += i + gPre + text(c); return s + "\n"; }
static void cmp(const ErrorInfo & e, const MInfo & w, const char * what) {
  count("evals"); if (e.getErrorId() != w.id) violation("error-id", std::string(what) + " " + std::to_string((long) e.getErrorId()) + " expected " + std::to_string((long) w.id)); if (e.isRecoverable() != w.rec) violation("severity", what); cmp(e.getMessage(), w.m, what); if (e.contextCount() != w.cs.size()) { violation("contexts", std::string(what) + " " + std::to_string(e.contextCount()) + " expected " + std::to_string(w.cs.size())); return; }
  for (size_t i = 0; i < w.cs.size(); ++i) { const ErrorContext * c = e.contextPtrAtIndex(i); if (!c) { violation("context-missing", what); return; } cmp(c->getMessage(), w.cs[i].m, "context"); if (c->asString() != text(w.cs[i])) violation("context-text", c->asString() + " expected " + text(w.cs[i])); std::ostringstream o; o << *c; if (o.str() != text(w.cs[i])) violation("context-stream", what); } if (e.contextPtrAtIndex(w.cs.size())) violation("context-beyond-end", what);
  if (e.asString() != text(w)) violation("info-text", std::string(what) + ": " + e.asString().substr(0, 400) + " expected " + text(w).substr(0, 400)); std::ostringstream o; o << e; if (o.str() != e.asString()) violation("info-stream", what); }
static MCtx addCtx(Rng & r, ErrorInfo & e) { static const char * const FS[] = { 0, "file.cpp", "" }, * const FN[] = { 0, "fun()" }; MCtx c; ErrorMessage m; build(r, m, c.m); c.file = FS[r.below(3)]; c.fun = FN[r.below(2)]; c.line = r.chance(50) ? 0 : (unsigned long) r.range(1, 2000000000); e.addContext(ErrorContext(m, c.file, c.fun, c.line)); return c; }
struct Kind { const char * name; const char * parent; std::function<void(const ErrorMessage &, TyErrorId, ErrorInfo::EnSeverity, bool)> raise; std::function<bool(const Exception &)> is; std::function<bool(std::function<void()>)> catches; };
template<class X> static Kind kind(const char * n, const char * p) {
  Kind k; k.name = n; k.parent = p; k.raise = [](const ErrorMessage & m, TyErrorId id, ErrorInfo::EnSeverity s, bool viaInfo) { if (viaInfo) { X x((ErrorInfo(m, id, s))); throw x; } X x(m, id, s); throw x; }; k.is = [](const Exception & e) { return dynamic_cast<const X *>(&e) != 0; };
  k.catches = [](std::function<void()> f) { try { f(); } catch (X & x) { return true; } catch (...) { return false; } return false; }; return k; }
#define VK(c, p) kind<c>(#c, #p)
static std::vector<Kind> kinds() { return { VK(Uima_logic_error, Exception), VK(Uima_runtime_error, Exception), VK(Uima_domain_error, Uima_logic_error), VK(Uima_invalid_argument, Uima_logic_error), VK(Uima_length_error, Uima_logic_error), VK(Uima_out_of_range, Uima_logic_error), VK(Uima_range_error, Uima_runtime_error), VK(Uima_overflow_error, Uima_runtime_error), VK(Uima_underflow_error, Uima_runtime_error), VK(ConsoleAbortExc, Exception), VK(ExcDocBuffer, Uima_out_of_range), VK(ParseHandlerExc, Exception), VK(ExcIllFormedInputError, Uima_runtime_error), VK(ExcInvalidParameter, Uima_invalid_argument), VK(ExcIndexOutOfRange, Uima_out_of_range), VK(ExcInvalidRequest, Uima_runtime_error), VK(ExcResourceExhausted, Uima_runtime_error), VK(ExcOutOfMemory, ExcResourceExhausted), VK(ExcFileNotFoundError, Uima_runtime_error), VK(CodePageConversionException, Exception), VK(AprFailureException, Exception), VK(CASException, Exception), VK(InvalidXMLException, Exception), VK(ConfigException, Exception), VK(ConfigParamLookupException, ConfigException), VK(NotYetImplementedException, CASException), VK(SofaDataStreamException, CASException), VK(InvalidFSFeatureObjectException, CASException), VK(ValidationException, Exception) }; }
static void exc(Rng & r, Args & a) {
  static const std::vector<Kind> K = kinds(); static std::map<std::string, int> byName; if (byName.empty()) for (size_t i = 0; i < K.size(); ++i) byName[K[i].name] = (int) i; auto isA = [&](int i, int b) { while (i != b) { auto p = byName.find(K[i].parent); if (p == byName.end()) return false; i = p->second; } return true; };
  { static const char * const PRE[] = { "   While      : ", "", "* " }, * const IND[] = { "", "  ", ">%1>" }; gPre = PRE[r.below(3)]; gInd = IND[r.below(3)]; ErrorInfo::setGlobalErrorInfoContextPrefix(gPre); ErrorInfo::setGlobalErrorInfoIndent(gInd); }
  { ErrorInfo n; MInfo w; w.m.id = UIMA_MSG_ID_NO_MESSAGE_AVAILABLE; cmp(n, w, "no error"); }
  auto randId = [&] { return (TyErrorId) (r.chance(10) ? 0 : r.chance(20) ? -r.range(1, 100000) : r.range(1, 2000000000)); };
  for (int k = 0; k < 5; ++k) { MInfo w; ErrorMessage m; build(r, m, w.m); w.id = randId(); w.rec = r.chance(50); ErrorInfo::EnSeverity sev = w.rec ? ErrorInfo::recoverable : ErrorInfo::unrecoverable;
    { ErrorInfo e(m, w.id, sev); MInfo v = w; cmp(e, v, "new"); int n = r.below(4); while (n--) v.cs.push_back(addCtx(r, e)); cmp(e, v, "with contexts"); ErrorInfo c(e); MInfo v2 = v; v2.cs.push_back(addCtx(r, c)); cmp(c, v2, "copy"); cmp(e, v, "copied"); ErrorInfo d; d = c; cmp(d, v2, "assigned"); c.reset(); cmp(d, v2, "after reset of the source"); MInfo z; z.m.id = UIMA_MSG_ID_NO_MESSAGE_AVAILABLE; cmp(c, z, "reset");
      ErrorMessage m2; build(r, m2, v2.m); d.setMessage(m2); v2.id = randId(); d.setErrorId(v2.id); v2.rec = r.chance(50); d.setSeverity(v2.rec ? ErrorInfo::recoverable : ErrorInfo::unrecoverable); cmp(d, v2, "changed"); std::vector<ErrorInfo> vec(3, d); vec.resize(20, e); cmp(vec[1], v2, "in vector"); cmp(vec[11], v, "in vector"); count("infos"); }
    int ki = r.below((int) K.size()); const Kind & kd = K[ki]; bool via = r.chance(30); int levels = r.range(1, 4), style = r.below(3); op(std::string("throw ") + kd.name + " levels " + std::to_string(levels)); bool got = false;
    std::function<void(int)> nest = [&](int d) { try { if (d == 0) kd.raise(m, w.id, sev, via); else nest(d - 1); } catch (Exception & e) { MCtx c; ErrorMessage cm; build(r, cm, c.m); w.cs.push_back(c); if (style == 2) { e.getErrorInfo().addContext(UIMA_EXC_CONTEXT(cm)); throw; } UIMA_EXC_RETHROW(e, cm); } };
    try { nest(levels); } catch (Exception & e) { got = true; cmp(e.getErrorInfo(), w, "caught"); if (std::string(e.getName()) != kd.name || std::string(e.what()) != kd.name) violation("exception-name", std::string(e.getName()) + " for " + kd.name); for (size_t j = 0; j < K.size(); ++j) if (K[j].is(e) != isA(ki, (int) j)) violation("exception-class", std::string(kd.name) + " / " + K[j].name); Exception c(e); cmp(c.getErrorInfo(), w, "sliced copy"); std::string s = e.asString(), want = std::string("\n") + gInd + "Exception     : " + kd.name + "\n" + text(w) + "\n"; if (s != want) violation("exception-text", s.substr(0, 300) + " expected " + want.substr(0, 300)); std::ostringstream o; o << e; if (o.str() != s) violation("exception-stream", kd.name); const Exception & ce = e; cmp(ce.getErrorInfo(), w, "const"); Exception::release(s); if (!s.empty()) violation("release", s); std::exception & se = e; if (std::string(se.what()) != kd.name) violation("exception-name", "what"); }
    if (!got) violation("exception-lost", kd.name); size_t j = r.below(K.size()); bool caught = K[j].catches([&] { kd.raise(m, w.id, sev, via); }); if (caught != isA(ki, (int) j)) violation("exception-class", std::string(kd.name) + " caught as " + K[j].name); count("exceptions"); seen(hashStr(text(w) + kd.name)); }
  { bool ok = false; try { UIMA_EXC_THROW_NEW(ExcFileNotFoundError, 4711, ErrorMessage(UIMA_MSG_ID_LITERAL_STRING, "what"), ErrorMessage(UIMA_MSG_ID_LITERAL_STRING, "while"), ErrorInfo::recoverable); } catch (Uima_runtime_error & e) { ok = e.getErrorInfo().getErrorId() == 4711 && e.getErrorInfo().isRecoverable() && e.getErrorInfo().getMessage().asString() == "what" && e.getErrorInfo().contextCount() == 1 && e.getErrorInfo().contextPtrAtIndex(0)->getMessage().asString() == "while"; } if (!ok) violation("throw-new", ""); }
  ErrorInfo::setGlobalErrorInfoContextPrefix("   While      : "); ErrorInfo::setGlobalErrorInfoIndent(""); if (!a.first) sample("exceptions of " + std::to_string(K.size()) + " classes"); }

// ---- logging -----------------------------------------------------------------------------------------------------------------------
struct Entry { int type; std::string origin, method, msg; long code; };
static std::string show(const Entry & e) { return std::to_string(e.type) + " [" + e.origin + "] " + std::to_string(e.code) + " " + e.msg.substr(0, 120) + " (" + std::to_string(e.msg.size()) + " bytes)"; }
struct Rec : Logger { std::vector<Entry> got; std::atomic<int> inside{0}; bool overlap = false; int throwAt = -1; bool slow = false; std::vector<const char *> guard; size_t guardSize = 0; void log(LogStream::EnEntryType t, std::string c, std::string m, std::string s, long code) { if (inside++) overlap = true; for (auto p : guard) for (size_t i = 0; i < guardSize; ++i) if (p[i]) { violation("foreign-memory", "memory of another pool is used while logging"); guard.clear(); return; } got.push_back({ (int) t, c, m, s, code }); if (slow) std::this_thread::yield(); inside--; if (throwAt >= 0 && throwAt-- == 0) throw std::runtime_error("logger"); } };
static const long ANYCODE = -987654321;
static void same(const std::vector<Entry> & got, const std::vector<Entry> & want, const char * who) {
  count("evals"); size_t n = std::min(got.size(), want.size()); for (size_t i = 0; i < n; ++i) { const Entry & g = got[i], & w = want[i]; const char * key = g.msg != w.msg ? (w.msg.compare(0, g.msg.size(), g.msg) == 0 ? "log-truncated" : "log-text") : g.type != w.type ? "log-severity" : g.origin != w.origin ? "log-origin" : w.code != ANYCODE && g.code != w.code ? "log-code" : 0; if (key) { if (i && got[i - 1].msg == g.msg && g.msg != w.msg) key = "log-duplicate"; violation(key, std::string(who) + " entry " + std::to_string(i) + ": " + show(g) + " expected " + show(w)); return; } }
  if (got.size() > want.size()) violation("log-extra", std::string(who) + " " + show(got[n])); if (got.size() < want.size()) violation("log-lost", std::string(who) + " " + show(want[n])); }
static void checkFile(const std::string & fn, const std::vector<Entry> & want, bool prefix) {
  std::ifstream f(fn, std::ios::binary); std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); size_t p = 0; count("evals"); if (prefix) { size_t q = s.find("ResourceManager Instance created.\n"); if (q == std::string::npos || q > 200) { violation("log-file", "no start entry: " + s.substr(0, 200)); return; } p = s.find('\n', q) + 1; }
  for (auto & e : want) { const char * lv = e.type == LogStream::EnError ? "SEVERE" : e.type == LogStream::EnWarning ? "WARNING" : "INFO"; size_t q = s.find(lv, p); if (q == std::string::npos || q - p > 40) { violation("log-file", std::string("no ") + lv + " entry at " + s.substr(p, 150) + " for " + show(e)); return; } q += strlen(lv); std::string tail = e.origin + " " + e.msg + "\n"; size_t t = s.find(tail, q); if (t == std::string::npos || t - q > 40) { violation("log-file", "entry " + s.substr(p, 200) + " for " + show(e)); return; } std::string mid = s.substr(q, t - q); if (e.code != ANYCODE && e.code && mid.find(std::to_string(e.code)) == std::string::npos) { violation("log-file", "code " + mid); return; } p = t + tail.size(); }
  if (p != s.size()) violation("log-file", "extra content " + s.substr(p, 200)); count("file-entries", (long) want.size()); }
static bool pass(int type, int level) { return type >= level; }
struct Fac { std::unique_ptr<LogFacility> f; std::string name; int level; std::string pending; int ptype = 0; bool open = false; bool knownErr = false; long errId = 0; std::string errText; bool errIsInfo = false; std::string infoText; bool errUnspecified = false; };
static void logc(Rng & r, Args & a) {
  ResourceManager & rm = ResourceManager::getInstance(); LogStream::EnEntryType old = rm.getLoggingLevel(); std::vector<std::unique_ptr<Rec>> recs; std::vector<std::vector<Entry>> want; int n = r.range(1, 3); for (int i = 0; i < n; ++i) { recs.emplace_back(new Rec); rm.registerLogger(recs.back().get()); want.emplace_back(); } std::vector<char> on(n, 1);
  std::string fn = a.tmp + "/log" + std::to_string(Report::get().curCase) + ".txt"; unlink(fn.c_str()); std::unique_ptr<FileLogger> fl(new FileLogger(fn)); rm.registerLogger(fl.get()); std::vector<Entry> wantFile; auto expect = [&](const Entry & e) { for (int i = 0; i < n; ++i) if (on[i]) want[i].push_back(e); wantFile.push_back(e); count("logged"); };
  std::vector<Fac> fs(r.range(1, 4)); for (auto & f : fs) { f.name = r.chance(70) ? "comp" + std::to_string(r.below(9)) : utf8(randString(r, S_XML | S_NONUL, 12)); f.level = r.below(3); if (r.chance(50)) { rm.setLoggingLevel((LogStream::EnEntryType) f.level); f.f.reset(new LogFacility(us(f.name))); } else f.f.reset(new LogFacility(us(f.name), (LogStream::EnEntryType) f.level)); rm.setLoggingLevel((LogStream::EnEntryType) f.level); op("facility " + f.name + " level " + std::to_string(f.level)); }
  auto flushPending = [&](Fac & f) { if (f.open && !f.pending.empty()) { if (pass(f.ptype, f.level)) expect({ f.ptype, f.name, "", f.pending, 0 }); if (f.ptype == LogStream::EnError) { f.knownErr = true; f.errUnspecified = false; f.errId = 0; f.errText = f.pending; f.errIsInfo = false; } } f.open = false; f.pending.clear(); };
  int steps = r.range(5, 40); for (int k = 0; k < steps; ++k) { Fac & f = fs[r.below(fs.size())]; rm.setLoggingLevel((LogStream::EnEntryType) f.level); int t = r.below(3); long code = r.chance(50) ? 0 : r.range(-1000, 100000); LogFacility & l = *f.f; Entry e{ t, f.name, "", "", code }; int form = r.below(8);
    if (form < 3) { std::string s = randText(r, 60); if (form == 0) s = s.c_str(); UnicodeString u; if (form == 2) { u = randString(r, S_ANY & ~0, 60); for (int i = 0; i < u.length(); ++i) if (U16_IS_SURROGATE(u[i])) u.setCharAt(i, 'x'); s = utf8(u); } e.msg = s; op("log " + show(e)); if (form == 0) { if (t == 0) l.logMessage(s.c_str(), code); else if (t == 1) l.logWarning(s.c_str(), code); else l.logError(s.c_str(), code); } else if (form == 1) { if (t == 0) l.logMessage(s, code); else if (t == 1) l.logWarning(s, code); else l.logError(s, code); } else { if (t == 0) l.logMessage(u, code); else if (t == 1) l.logWarning(u, code); else l.logError(u, code); }
      if (pass(t, f.level)) expect(e); else count("filtered"); if (t == 2) { f.knownErr = true; f.errUnspecified = s.empty(); f.errId = code; f.errText = s; f.errIsInfo = false; } }
    else if (form == 3) { MInfo w; ErrorMessage m; build(r, m, w.m); w.id = r.range(1, 100000); w.rec = r.chance(50); ErrorInfo i(m, w.id, w.rec ? ErrorInfo::recoverable : ErrorInfo::unrecoverable); if (r.chance(50)) w.cs.push_back(addCtx(r, i)); e.type = t = r.range(1, 2); e.msg = text(w); e.code = ANYCODE; op("log info " + show(e)); if (t == 1) l.logWarning(i); else l.logError(i); if (pass(t, f.level)) expect(e); if (t == 2) { f.knownErr = true; f.errUnspecified = false; f.errIsInfo = true; f.errId = w.id; f.infoText = text(w); } else { f.errUnspecified = true; } }
    else if (form == 4) { std::string s = utf8(randString(r, S_XML | S_NONUL, 20)); int v = (int) r.next(); op("stream macro"); if (t == 0) { UIMA_LOG_STREAM_MESSAGE(l, s << v); } else if (t == 1) { UIMA_LOG_STREAM_WARNING(l, s << v << std::hex << 255 << std::dec); s += std::to_string(v) + "ff"; v = 0; } else { UIMA_LOG_STREAM_ERROR(l, s << v); } flushPending(f); e.code = 0; e.msg = t == 1 ? s : s + std::to_string(v); if (pass(t, f.level)) expect(e); if (t == 2) { f.knownErr = true; f.errUnspecified = false; f.errIsInfo = false; f.errId = 0; f.errText = e.msg; } }
    else if (form == 5) { flushPending(f); LogStream & s = l.getLogStream((LogStream::EnEntryType) t); f.open = true; f.ptype = t; std::string x = r.chance(80) ? utf8(randString(r, S_XML | S_NONUL, 20)) : ""; s << x; f.pending = x; op("stream pending " + std::to_string(t) + " " + x.substr(0, 40)); if (r.chance(50)) { s.flush(); flushPending(f); if (r.chance(40)) { std::string y = "again" + std::to_string(k); s << y; f.open = true; f.pending = y; f.ptype = t; if (r.chance(50)) { s.flush(); flushPending(f); } } } }
    else if (form == 6) { int i = r.below(n); if (on[i]) rm.unregisterLogger(recs[i].get()); else rm.registerLogger(recs[i].get()); on[i] = !on[i]; op(std::string(on[i] ? "register " : "unregister ") + std::to_string(i)); if (r.chance(30)) { Rec x; std::string oc = outcome([&] { rm.unregisterLogger(&x); }); if (!isUima(oc)) violation("unregister-unknown", oc); } }
    else if (f.knownErr && !f.errUnspecified) { ErrorInfo const & i = l.getLastError(); count("last-errors"); int times = r.range(1, 2); while (times--) { const ErrorInfo & q = l.getLastError(); if (q.getErrorId() != (f.errIsInfo || f.errId ? f.errId : UIMA_ERR_USER_ANNOTATOR_ERROR_UNSPECIFIED)) violation("last-error-id", std::to_string((long) q.getErrorId()) + " expected " + std::to_string(f.errId)); if (f.errIsInfo) { if (q.asString() != f.infoText) violation("last-error-text", q.asString().substr(0, 200)); } else { MMsg w; w.id = UIMA_MSG_ID_LOG_TO_ERROR_INFO; w.ps.push_back(f.name); w.ps.push_back(f.errText); if (q.getMessage().asString() != w.text()) violation("last-error-text", q.getMessage().asString().substr(0, 200) + " expected " + w.text().substr(0, 200)); } if (r.chance(50)) { std::string all = q.asString(); const char * c = l.getLastErrorAsCStr(); if (!c || std::string(c) != std::string(all.c_str())) violation("last-error-cstr", c ? std::string(c).substr(0, 200) : "null"); } } (void) i; }
    else if (!f.knownErr && !f.errUnspecified) { if (l.getLastErrorAsCStr() || l.getLastError().getErrorId() != UIMA_ERR_NONE) violation("last-error-invented", ""); } }
  while (!fs.empty()) { Fac & f = fs.back(); flushPending(f); f.f.reset(); fs.pop_back(); }
  for (int i = 0; i < n; ++i) { if (on[i]) rm.unregisterLogger(recs[i].get()); same(recs[i]->got, want[i], ("logger " + std::to_string(i)).c_str()); } rm.unregisterLogger(fl.get()); fl.reset(); checkFile(fn, wantFile, false); unlink(fn.c_str()); for (auto & e : wantFile) seen(hashStr(show(e)));
  { std::string oc = outcome([&] { FileLogger bad(a.tmp + "/no/such/dir/x.log"); }); if (!isUima(oc)) violation("unwritable-log", oc); }
  if (r.chance(30)) { Rec boom, ok; boom.throwAt = 0; rm.registerLogger(&boom); LogFacility l(us("boom"), LogStream::EnMessage); std::string oc = outcome([&] { l.logMessage("one"); }); rm.registerLogger(&ok); op("after throwing logger"); l.logMessage("two"); rm.unregisterLogger(&ok); rm.unregisterLogger(&boom); if (ok.got.size() != 1 || boom.got.size() != 2) violation("log-lost", "after a logger threw"); count("throwing-loggers"); }
  if (r.chance(40)) { int nt = r.range(2, 5), per = r.range(5, 60); Rec all; all.slow = r.chance(50); rm.registerLogger(&all); std::vector<std::thread> ts; for (int t = 0; t < nt; ++t) { u64 sd = r.next(); ts.emplace_back([=] { Rng q(sd); LogFacility l(us("t" + std::to_string(t)), LogStream::EnWarning); for (int k = 0; k < per; ++k) { std::string s = std::to_string(t) + ":" + std::to_string(k); if (q.chance(30)) l.logMessage("filtered"); if (q.chance(50)) l.logWarning(s); else { UIMA_LOG_STREAM_ERROR(l, s); } if (q.chance(20)) std::this_thread::yield(); } }); } for (auto & t : ts) t.join(); rm.unregisterLogger(&all);
    if (all.overlap) violation("loggers-overlap", "a logger was entered by two threads"); std::vector<int> next(nt, 0); for (auto & e : all.got) { int t = -1, k = -1; if (sscanf(e.msg.c_str(), "%d:%d", &t, &k) != 2 || t < 0 || t >= nt) { violation("log-text", e.msg); break; } if (k != next[t]) { violation(k < next[t] ? "log-duplicate" : "log-lost", "thread " + e.msg + " expected " + std::to_string(next[t])); break; } next[t]++; if (e.origin != "t" + std::to_string(t)) { violation("log-origin", e.origin + " for " + e.msg); break; } } for (int t = 0; t < nt; ++t) if (next[t] != per) { violation("log-lost", "thread " + std::to_string(t)); break; } count("concurrent-entries", nt * per); count("evals"); }
  rm.setLoggingLevel(old); if (!a.first && !wantFile.empty()) sample(show(wantFile[0])); }
static void restart(Rng & r, Args & a) {
  std::string fn = a.tmp + "/restart.log"; unlink(fn.c_str()); ResourceManager::deleteInstance(); int rounds = r.range(1, 3); std::vector<Entry> want; for (int k = 0; k < rounds; ++k) { unlink(fn.c_str()); bool file = r.chance(80); if (file) setenv("UIMACPP_LOGFILE", fn.c_str(), 1); else unsetenv("UIMACPP_LOGFILE"); apr_initialize(); apr_pool_t * pool = 0; apr_pool_create(&pool, 0); size_t gs = 500; std::vector<const char *> guard; while (guard.size() < 400) guard.push_back((char *) apr_pcalloc(pool, gs)); ResourceManager & rm = ResourceManager::createInstance("again"); op("instance " + std::to_string(k)); want.clear();
    { Rec rec; rec.guard = guard; rec.guardSize = gs; rm.registerLogger(&rec); LogFacility l(us("restarted" + std::to_string(k))); int n = r.range(0, 6); for (int i = 0; i < n; ++i) { Entry e{ r.range(0, 2), "restarted" + std::to_string(k), "", utf8(randString(r, S_XML | S_NONUL)), r.range(0, 99) }; if (e.type == 0) l.logMessage(e.msg, e.code); else if (e.type == 1) l.logWarning(e.msg, e.code); else l.logError(e.msg, e.code); want.push_back(e); } { Entry e{ 1, "org.apache.uima.cpp", "", "framework", 3 }; rm.getLogger().logWarning(e.msg, e.code); want.push_back(e); } same(rec.got, want, "restart"); rm.unregisterLogger(&rec); }
    { AnalysisEngineDescription d; XMLParser p; static const char x[] = "<?xml version=\"1.0\" encoding=\"UTF-8\"?><analysisEngineDescription xmlns=\"http://uima.apache.org/resourceSpecifier\"><frameworkImplementation>org.apache.uima.cpp</frameworkImplementation><primitive>true</primitive><annotatorImplementationName>x</annotatorImplementationName><analysisEngineMetaData><name>n</name><description></description><version>1</version><vendor></vendor><configurationParameters/><configurationParameterSettings/><typeSystemDescription><types><typeDescription><name>t.A</name><description></description><supertypeName>uima.tcas.Annotation</supertypeName></typeDescription></types></typeSystemDescription></analysisEngineMetaData></analysisEngineDescription>"; xercesc::MemBufInputSource src((const XMLByte *) x, sizeof x - 1, "mem"); p.parseAnalysisEngineDescription(d, src); d.validate(); d.commit(); std::unique_ptr<internal::CASDefinition> def(internal::CASDefinition::createCASDefinition(d)); ErrorInfo e; std::unique_ptr<CAS> c(Framework::createCAS(*def, e)); UnicodeString tx = us("text"); c->setDocumentText(tx.getBuffer(), tx.length(), true); Type t = c->getTypeSystem().getType("t.A"); if (!t.isValid()) violation("restart-typesystem", ""); c->getIndexRepository().addFS(c->createAnnotation(t, 0, 2)); std::ostringstream os; XmiWriter w(*c, true); w.write(os); if (os.str().find("begin=\"0\"") == std::string::npos) violation("restart-cas", os.str().substr(0, 200)); }
    ResourceManager::deleteInstance(); apr_pool_destroy(pool); apr_terminate(); if (file) checkFile(fn, want, true); count("restarts"); seen(r.next()); }
  unsetenv("UIMACPP_LOGFILE"); ResourceManager::createInstance("vp"); unlink(fn.c_str()); }
int main(int argc, char ** argv) { ResourceManager::createInstance("vp"); return drive(argc, argv, { { "msg", msg }, { "exc", exc }, { "log", logc }, { "restart", restart } }); }
