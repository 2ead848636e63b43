// Monitors for language codes (L01) and for string references and character conversions (S01). build: san
#include "common.hpp"
#include "uima/language.hpp"
#include "uima/unistrref.hpp"
#include "uima/cp2ucnvrt.hpp"
#include "uima/u2cpcnvrt.hpp"
#include <unicode/ucnv.h>
using namespace vp; using namespace uima;

// ---------------------------------------------------------------------------------- languages
struct LM { std::string text; bool valid() const { return text != "??"; } bool has() const { return !text.empty(); }
  std::string lang() const { return text.substr(0, 2); } std::string terr() const { return text.size() == 5 ? text.substr(3) : std::string(); } };
static bool letter(unsigned c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static char low(unsigned c) { return (char) (c >= 'A' && c <= 'Z' ? c + 32 : c); }
static LM langModel(const UnicodeString & s) { LM m; int n = s.length(); if (n == 0) return m; bool ok = (n == 2 || n == 5) && letter(s[0]) && letter(s[1]); if (ok && n == 5) ok = (s[2] == '-' || s[2] == '_') && letter(s[3]) && letter(s[4]);
  if (!ok) { m.text = "??"; return m; } m.text = std::string(1, low(s[0])) + low(s[1]); if (n == 5) m.text += std::string("-") + low(s[3]) + low(s[4]); return m; }
static long num2(const std::string & s, int sh) { return s.empty() ? 0 : ((long) (unsigned char) s[0] << (sh + 8)) | ((long) (unsigned char) s[1] << sh); }
static void checkLang(const Language & l, const LM & m, const std::string & who) {
  count("evals"); std::string t = l.asString();
  if (t != m.text) { violation("language-text", who + " is \"" + oneLine(t) + "\" instead of \"" + m.text + "\""); return; }
  if (us(t) != l.asUnicodeString()) violation("language-text", who + " unicode");
  if (l.isValid() != m.valid()) violation("language-valid", who); if (l.hasLanguage() != m.has()) violation("language-has", who); if (l.hasTerritory() != (m.text.size() == 5)) violation("language-territory", who + " has");
  if (std::string(l.getLanguageCode()) != m.lang()) violation("language-code", who + " " + l.getLanguageCode()); if (std::string(l.getTerritoryCode()) != m.terr()) violation("language-territory", who + " " + l.getTerritoryCode());
  if (m.valid()) { if (l.asNumber() != (num2(m.lang(), 16) | num2(m.terr(), 0))) violation("language-number", who); if (l.getLanguage() != num2(m.lang(), 16)) violation("language-number", who + " language"); if (l.getTerritory() != num2(m.terr(), 0)) violation("language-number", who + " territory"); }
  Language a(l.asNumber()), b(l.asString()), c(l.asUnicodeString()); Language d(l), e("fr-ca"); e = l;
  if (!(a == l) || a != l || a.asString() != t) violation("language-number-roundtrip", who + " gives " + oneLine(a.asString())); if (a.getTerritoryCode() != m.terr() || a.getLanguageCode() != m.lang() || a.hasTerritory() != l.hasTerritory()) violation("language-number-roundtrip", who + " parts");
  if (!(b == l) || !(c == l)) violation("language-text-roundtrip", who); if (!(d == l) || !(e == l) || d.asString() != t || e.getLanguageCode() != m.lang()) violation("language-copy", who); }
static Language make(Rng & r, const UnicodeString & s, std::string & how) {
  bool ascii = true, nul = false; std::string a; for (int i = 0; i < s.length(); ++i) { if (s[i] >= 0x100) ascii = false; if (s[i] == 0) nul = true; a += (char) s[i]; }
  int k = ascii ? r.range(0, 4) : r.range(0, 1);
  if (k == 2 && nul) k = 1;
  switch (k) { case 0: how = "UnicodeString"; return Language(s);
    case 1: { how = "UnicodeStringRef"; std::unique_ptr<UChar[]> b(new UChar[s.length() ? s.length() : 1]); for (int i = 0; i < s.length(); ++i) b[i] = s[i]; return Language(UnicodeStringRef(b.get(), s.length())); }
    case 2: { how = "char*"; std::unique_ptr<char[]> b(new char[a.size() + 1]); memcpy(b.get(), a.c_str(), a.size() + 1); return Language(b.get()); }
    case 3: how = "string"; return Language(a);
    default: { how = "setValue"; Language l(r.chance(50) ? "en-us" : "xx"); l.setValue(a); return l; } } }
static UnicodeString rndCase(Rng & r, UnicodeString s) { for (int i = 0; i < s.length(); ++i) if (letter(s[i])) s.setCharAt(i, (UChar) (r.chance(50) ? (s[i] | 32) : (s[i] & ~32))); return s; }
static UnicodeString code(Rng & r, const std::string & few) { auto L = [&] { return (UChar) (few.empty() ? (UChar) r.range('a', 'z') : (UChar) few[r.below(few.size())]); }; UnicodeString s; s.append(L()); s.append(L()); if (r.chance(60)) { s.append((UChar) (r.chance(50) ? '-' : '_')); s.append(L()); s.append(L()); } return rndCase(r, s); }
static UnicodeString hostileCode(Rng & r) { UnicodeString s; int k = r.range(0, 7);
  if (k == 0) { int n = r.range(0, 8); for (int i = 0; i < n; ++i) s.append((UChar) r.range('a', 'z')); return s; }
  if (k == 1) { static const char * t[] = { "x-unspecified", "??", "?", "", "e", "en-", "-us", "en--us", "en us", "en-u", "en-usa", "eng", "en-us-x", "e-us", "en.us", "--", "__-__", "    ", "i-klingon" }; return us(t[r.below(sizeof t / sizeof *t)]); }
  s = code(r, ""); int p = r.range(0, s.length()); static const UChar odd[] = { 0, '?', ' ', '0', '@', '[', '`', '{', 0x7f, 0x80, 0xe4, 0xff, 0x100 + 'e', 0x4e65, 0xd83d, 0xdc00, '.', '/', '-', '_', 0x131, 0x17f, 0x212a };
  UChar c = odd[r.below(sizeof odd / sizeof *odd)];
  if (k == 2) s.append((UChar) 0); else if (k == 3) s.insert(p, c); else if (k == 4) { for (int i = r.range(1, 60); i > 0; --i) s.append((UChar) r.range('a', 'z')); } else if (k == 5) s = UnicodeString((UChar) 0) + s; else s.setCharAt(p < s.length() ? p : 0, c);
  return s; }
static bool mMatch(const LM & a, const LM & b) { if (!a.has() || !b.has()) return true; if (a.text == b.text) return true; return a.lang() == b.lang() && (a.terr().empty() || b.terr().empty()); }
static void lang(Rng & r, Args & a) {
  // exhaustive part: case number selects the first letter(s); every two-letter code with every territory of one row
  long c = Report::get().curCase; int f = (int) (c % 26), g = (int) ((c / 26) % 26);
  for (int i = 0; i < 26; ++i) for (int j = -1; j < 26; ++j) { UnicodeString s; s.append((UChar) ('a' + f)); s.append((UChar) ('a' + g)); if (j >= 0) { s.append((UChar) (r.chance(50) ? '-' : '_')); s.append((UChar) ('a' + i)); s.append((UChar) ('a' + j)); } s = rndCase(r, s); std::string how; LM m = langModel(s); Language l = make(r, s, how); checkLang(l, m, u8(s) + " from " + how); if (j < 0 && i) break; count("well-formed"); }
  seen(mix(f, g));
  std::vector<LM> ms; std::vector<Language> ls; std::string few = r.chance(70) ? "ef" : "";
  for (int i = 0; i < 14; ++i) { UnicodeString s = r.chance(15) ? UnicodeString() : r.chance(25) ? hostileCode(r) : code(r, few); std::string how; LM m = langModel(s); Language l = make(r, s, how); op(u8(s) + " " + how); checkLang(l, m, u8(s) + " from " + how); if (!m.valid()) count("invalid"); ms.push_back(m); ls.push_back(l); seen(hashStr(u8(s))); }
  for (int i = 0; i < 40; ++i) { UnicodeString s = hostileCode(r); std::string how; LM m = langModel(s); Language l = make(r, s, how); if (!m.valid()) count("invalid"); checkLang(l, m, u8(s) + " from " + how); seen(hashStr(u8(s))); }
  for (size_t i = 0; i < ls.size(); ++i) for (size_t j = 0; j < ls.size(); ++j) { std::string who = ms[i].text + " / " + ms[j].text; count("evals"); count("pairs"); const Language & x = ls[i], & y = ls[j];
    bool eq = ms[i].text == ms[j].text; if ((x == y) != eq || (x != y) == eq) violation("language-equality", who); if (eq && ((x < y) || (y < x))) violation("language-order", who + " equal"); if (!eq && ((x < y) == (y < x))) violation("language-order", who + " not total"); if (ms[i].valid() && ms[j].valid() && (x.asNumber() == y.asNumber()) != eq) violation("language-number", who);
    if (x.matches(y) != y.matches(x)) violation("language-match-symmetry", who);
    if (ms[i].valid() && ms[j].valid() && x.matches(y) != mMatch(ms[i], ms[j])) violation("language-match", who + " matches=" + std::to_string(x.matches(y)));
    if (i == j && !x.matches(x)) violation("language-match", who + " not reflexive");
    for (size_t k = 0; k < ls.size(); ++k) if ((x < y) && (y < ls[k]) && !(x < ls[k])) violation("language-order", who + " not transitive"); }
  if (c < 2) sample("languages " + ms[0].text + "," + ms[1].text + "," + ms[2].text);
}
// ---------------------------------------------------------------------------- string references
struct Buf { std::unique_ptr<UChar[]> b; int n; UnicodeString s; bool null;   // exact size heap copy so that ASan sees any overrun
  explicit Buf(const UnicodeString & x, bool nul = false) : n(x.length()), s(x), null(nul) { if (!null) { b.reset(new UChar[n]); for (int i = 0; i < n; ++i) b[i] = x[i]; } }
  UnicodeStringRef ref() const { return null ? UnicodeStringRef() : UnicodeStringRef(b.get(), (int32_t) n); } };
static UnicodeString text(Rng & r, int maxLen) { int k = r.range(0, 9); if (k < 5) { static const UChar ab[] = { 'a', 'b', 'A', 0, 0xd83d, 0xde00, 0xffff, 0xe000, ' ', 'a', 'a', 'b' }; UnicodeString s; int n = r.range(0, maxLen); int w = r.range(1, 12); for (int i = 0; i < n; ++i) s.append(ab[r.below(w)]); return s; } return randString(r, S_ANY, maxLen); }
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
static void pin(int len, int & st, int & n) { if (st < 0) st = 0; else if (st > len) st = len; if (n < 0) n = 0; else if (n > len - st) n = len - st; }
static UnicodeString sub(const UnicodeString & s, int st, int n) { pin(s.length(), st, n); UnicodeString o; for (int i = 0; i < n; ++i) o.append(s[st + i]); return o; }
static int cmpUnits(const UnicodeString & a, const UnicodeString & b) { int n = std::min(a.length(), b.length()); for (int i = 0; i < n; ++i) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return sgn(a.length() - b.length()); }
static int find(const UnicodeString & s, const UnicodeString & p, int st, int n, bool last) { pin(s.length(), st, n); if (p.length() == 0) return -1; int res = -1; for (int i = st; i + p.length() <= st + n; ++i) { int j = 0; while (j < p.length() && s[i + j] == p[j]) ++j; if (j == p.length()) { res = i; if (!last) break; } } return res; }
static int offset(Rng & r, int len) { int k = r.range(0, 11); if (k < 8) return r.range(0, len); if (k == 8) return len; if (k == 9) return len + r.range(1, 5); if (k == 10) return -r.range(1, 5); static const int far[] = { INT32_MAX, INT32_MIN / 2, 100000, -100000 }; return far[r.below(4)]; }
static int extent(Rng & r, int len) { int k = r.range(0, 9); if (k < 7) return r.range(0, len); if (k == 7) return len + r.range(1, 4); if (k == 8) return INT32_MAX; return -r.range(1, 5); }
static std::string S(const UnicodeString & s) { return "\"" + u8(s).substr(0, 200) + "\""; }
static void same(const char * key, long got, long want, const std::string & who) { count("evals"); if (got != want) violation(std::string("ref-") + key, who + " gives " + std::to_string(got) + " instead of " + std::to_string(want)); }
static void same(const char * key, const UnicodeString & got, const UnicodeString & want, const std::string & who) { count("evals"); if (got != want) violation(std::string("ref-") + key, who + " gives " + S(got) + " instead of " + S(want)); }
static std::string toCp(const UnicodeString & s, const char * cp, bool & ok) { UErrorCode e = U_ZERO_ERROR; UConverter * c = ucnv_open(cp, &e); ok = U_SUCCESS(e); if (!ok) return ""; int cap = s.length() * 8 + 64; std::string o(cap, 0); int n = ucnv_fromUChars(c, &o[0], cap, s.getBuffer(), s.length(), &e); ok = U_SUCCESS(e); ucnv_close(c); o.resize(n); return o; }
static std::string encUtf8(const UnicodeString & s) { std::string o; for (int i = 0; i < s.length(); ++i) { unsigned c = s[i]; if (c >= 0xd800 && c < 0xdc00 && i + 1 < s.length() && s[i + 1] >= 0xdc00 && s[i + 1] < 0xe000) { c = 0x10000 + ((c - 0xd800) << 10) + (s[i + 1] - 0xdc00); ++i; } else if (c >= 0xd800 && c < 0xe000) c = 0xfffd;
    if (c < 0x80) o += (char) c; else if (c < 0x800) { o += (char) (0xc0 | c >> 6); o += (char) (0x80 | (c & 63)); } else if (c < 0x10000) { o += (char) (0xe0 | c >> 12); o += (char) (0x80 | (c >> 6 & 63)); o += (char) (0x80 | (c & 63)); } else { o += (char) (0xf0 | c >> 18); o += (char) (0x80 | (c >> 12 & 63)); o += (char) (0x80 | (c >> 6 & 63)); o += (char) (0x80 | (c & 63)); } } return o; }
static bool wellFormed(const UnicodeString & s) { for (int i = 0; i < s.length(); ++i) { if (U16_IS_LEAD(s[i]) && i + 1 < s.length() && U16_IS_TRAIL(s[i + 1])) ++i; else if (U16_IS_SURROGATE(s[i])) return false; } return true; }
// ICU's code point order for folded text is only defined for well-formed UTF-16
static void cased(int got, const UnicodeString & x, const UnicodeString & y, uint32_t o, const std::string & who) { if (o == U_COMPARE_CODE_POINT_ORDER && !(wellFormed(x) && wellFormed(y))) return; same("case", sgn(got), sgn(x.caseCompare(y, o)), who); }
static void comparisons(Rng & r, const Buf & A, const Buf & B) {
  UnicodeStringRef a = A.ref(), b = B.ref(); std::string who = S(A.s) + (A.null ? "(null)" : "") + " / " + S(B.s) + (B.null ? "(null)" : ""); int c = cmpUnits(A.s, B.s), cp = A.s.compareCodePointOrder(B.s);
  same("equal", (bool) (a == b), c == 0, who); same("equal", (bool) (a != b), c != 0, who + " !="); same("order", a < b, c < 0, who + " <"); same("order", a <= b, c <= 0, who + " <="); same("order", a > b, c > 0, who + " >"); same("order", a >= b, c >= 0, who + " >=");
  same("compare", sgn(a.compare(b)), c, who); same("compare", sgn(a.compare(B.s)), c, who + " (UnicodeString)"); if (!B.null) same("compare", sgn(a.compare(B.b.get(), B.n)), c, who + " (UChar*)"); same("compare-cp", sgn(a.compareCodePointOrder(b)), sgn(cp), who); if (!B.null) same("compare-cp", sgn(a.compareCodePointOrder(B.b.get(), B.n)), sgn(cp), who + " (UChar*)");
  for (uint32_t o : { (uint32_t) U_FOLD_CASE_DEFAULT, (uint32_t) U_COMPARE_CODE_POINT_ORDER }) { cased(a.caseCompare(b, o), A.s, B.s, o, who); if (!B.null) cased(a.caseCompare(B.b.get(), B.n, o), A.s, B.s, o, who); }
  same("starts", a.startsWith(b), c == 0 || (A.n >= B.n && sub(A.s, 0, B.n) == B.s), who); same("ends", a.endsWith(b), A.n >= B.n && sub(A.s, A.n - B.n, B.n) == B.s, who); if (!B.null) { same("starts", a.startsWith(B.b.get(), B.n), A.n >= B.n && sub(A.s, 0, B.n) == B.s, who); same("ends", a.endsWith(B.b.get(), B.n), A.n >= B.n && sub(A.s, A.n - B.n, B.n) == B.s, who); }
  for (int i = 0; i < 4; ++i) { int st = offset(r, A.n), n = extent(r, A.n), ss = offset(r, B.n), sn = extent(r, B.n); UnicodeString x = sub(A.s, st, n), y = sub(B.s, ss, sn); std::string w = who + " at " + std::to_string(st) + "," + std::to_string(n) + " with " + std::to_string(ss) + "," + std::to_string(sn); uint32_t o = r.chance(50) ? U_FOLD_CASE_DEFAULT : U_COMPARE_CODE_POINT_ORDER;
    same("compare", sgn(a.compare(st, n, b)), cmpUnits(x, B.s), w + " (3)"); same("compare", sgn(a.compare(st, n, b, ss, sn)), cmpUnits(x, y), w); same("compare-cp", sgn(a.compareCodePointOrder(st, n, b)), sgn(x.compareCodePointOrder(B.s)), w + " (3)"); same("compare-cp", sgn(a.compareCodePointOrder(st, n, b, ss, sn)), sgn(x.compareCodePointOrder(y)), w); cased(a.caseCompare(st, n, b, o), x, B.s, o, w + " (3)"); cased(a.caseCompare(st, n, b, ss, sn, o), x, y, o, w);
    same("starts", a.startsWith(b, ss, sn), sub(A.s, 0, sn) == y, w); same("ends", a.endsWith(b, ss, sn), A.n >= y.length() && sub(A.s, A.n - y.length(), y.length()) == y, w);
    // valid windows through the raw pointer and limit forms
    int vs = r.range(0, A.n), ve = r.range(vs, A.n), us_ = r.range(0, B.n), ue = r.range(us_, B.n); UnicodeString vx = sub(A.s, vs, ve - vs), vy = sub(B.s, us_, ue - us_); std::string v = who + " between " + std::to_string(vs) + "," + std::to_string(ve) + " and " + std::to_string(us_) + "," + std::to_string(ue);
    same("compare", sgn(a.compareBetween(vs, ve, b, us_, ue)), cmpUnits(vx, vy), v); same("compare-cp", sgn(a.compareCodePointOrderBetween(vs, ve, b, us_, ue)), sgn(vx.compareCodePointOrder(vy)), v); cased(a.caseCompareBetween(vs, ve, b, us_, ue, o), vx, vy, o, v);
    if (!B.null) { same("compare", sgn(a.compare(st, n, B.b.get(), us_, ue - us_)), cmpUnits(x, vy), w + v); same("compare-cp", sgn(a.compareCodePointOrder(st, n, B.b.get(), us_, ue - us_)), sgn(x.compareCodePointOrder(vy)), w + v); cased(a.caseCompare(st, n, B.b.get(), us_, ue - us_, o), x, vy, o, w + v); same("starts", a.startsWith(B.b.get(), us_, ue - us_), A.n >= vy.length() && sub(A.s, 0, vy.length()) == vy, v); same("ends", a.endsWith(B.b.get(), us_, ue - us_), A.n >= vy.length() && sub(A.s, A.n - vy.length(), vy.length()) == vy, v);
      int cn = std::min(ve - vs, B.n); same("compare", sgn(a.compare(vs, cn, B.b.get())), cmpUnits(sub(A.s, vs, cn), sub(B.s, 0, cn)), v); same("compare-cp", sgn(a.compareCodePointOrder(vs, cn, B.b.get())), sgn(sub(A.s, vs, cn).compareCodePointOrder(sub(B.s, 0, cn))), v); cased(a.caseCompare(vs, cn, B.b.get(), o), sub(A.s, vs, cn), sub(B.s, 0, cn), o, v); } }
}
static void searches(Rng & r, const Buf & A, const Buf & P) {
  UnicodeStringRef a = A.ref(), p = P.ref(); std::string who = S(P.s) + (P.null ? "(null)" : "") + " in " + S(A.s) + (A.null ? "(null)" : "");
  same("index", a.indexOf(p), find(A.s, P.s, 0, A.n, false), who); same("last-index", a.lastIndexOf(p), find(A.s, P.s, 0, A.n, true), who);
  for (int i = 0; i < 4; ++i) { int st = offset(r, A.n), n = extent(r, A.n), ss = offset(r, P.n), sn = extent(r, P.n); if (st < INT32_MIN / 4) st = -3; std::string w = who + " at " + std::to_string(st) + "," + std::to_string(n) + " pattern " + std::to_string(ss) + "," + std::to_string(sn); UnicodeString y = sub(P.s, ss, sn);
    int st0 = st < 0 ? 0 : st; same("index", a.indexOf(p, st), find(A.s, P.s, st0, A.n, false), w + " (2)"); same("last-index", a.lastIndexOf(p, st), find(A.s, P.s, st0, A.n, true), w + " (2)"); same("index", a.indexOf(p, st, n), find(A.s, P.s, st, n, false), w + " (3)"); same("last-index", a.lastIndexOf(p, st, n), find(A.s, P.s, st, n, true), w + " (3)"); same("index", a.indexOf(p, ss, sn, st, n), find(A.s, y, st, n, false), w); same("last-index", a.lastIndexOf(p, ss, sn, st, n), find(A.s, y, st, n, true), w);
    if (!P.null) { int us_ = r.range(0, P.n), un = r.range(0, P.n - us_); UnicodeString z = sub(P.s, us_, un); same("index", a.indexOf(P.b.get(), us_, un, st, n), find(A.s, z, st, n, false), w + " ptr"); same("last-index", a.lastIndexOf(P.b.get(), us_, un, st, n), find(A.s, z, st, n, true), w + " ptr"); same("index", a.indexOf(P.b.get(), P.n, st), find(A.s, P.s, st0, A.n, false), w + " ptr2"); same("last-index", a.lastIndexOf(P.b.get(), P.n, st), find(A.s, P.s, st0, A.n, true), w + " ptr2"); same("index", a.indexOf(P.b.get(), P.n, st, n), find(A.s, P.s, st, n, false), w + " ptr3"); same("last-index", a.lastIndexOf(P.b.get(), P.n, st, n), find(A.s, P.s, st, n, true), w + " ptr3"); }
    UChar32 ch = A.n && r.chance(80) ? A.s.char32At(r.range(0, A.n - 1)) : (UChar32) r.range(0, 0x1ffff); UnicodeString cs(ch); UnicodeString c1((UChar) ch); std::string wc = w + " char " + std::to_string((int) ch);
    same("index", a.indexOf(ch), find(A.s, cs, 0, A.n, false), wc); same("last-index", a.lastIndexOf(ch), find(A.s, cs, 0, A.n, true), wc); same("index", a.indexOf(ch, st), find(A.s, cs, st0, A.n, false), wc + " (2)"); same("last-index", a.lastIndexOf(ch, st), find(A.s, cs, st0, A.n, true), wc + " (2)"); same("index", a.indexOf(ch, st, n), find(A.s, cs, st, n, false), wc + " (3)"); same("last-index", a.lastIndexOf(ch, st, n), find(A.s, cs, st, n, true), wc + " (3)");
    same("index", a.indexOf((UChar) ch), find(A.s, c1, 0, A.n, false), wc + " unit"); same("last-index", a.lastIndexOf((UChar) ch), find(A.s, c1, 0, A.n, true), wc + " unit"); same("index", a.indexOf((UChar) ch, st), find(A.s, c1, st0, A.n, false), wc + " unit (2)"); same("last-index", a.lastIndexOf((UChar) ch, st), find(A.s, c1, st0, A.n, true), wc + " unit (2)"); same("index", a.indexOf((UChar) ch, st, n), find(A.s, c1, st, n, false), wc + " unit (3)"); same("last-index", a.lastIndexOf((UChar) ch, st, n), find(A.s, c1, st, n, true), wc + " unit (3)"); }
}
static const char * CPS[] = { "utf-8", "iso-8859-1", "us-ascii", "utf-16be", "utf-16le", "utf-16", "windows-1252", "iso-8859-15", "utf-7", "gb18030", "shift_jis", "iso-2022-jp", "utf-32", "ebcdic-cp-us", "no-such-encoding" };
static void slices(Rng & r, const Buf & A) {
  UnicodeStringRef a = A.ref(); std::string who = S(A.s); same("length", a.length(), A.n, who); same("length", a.getSizeInBytes(), A.n * 2, who); same("length", a.isEmpty(), A.n == 0, who);
  for (int i = 0; i < 4; ++i) { int o = offset(r, A.n); std::string w = who + " at " + std::to_string(o); if (!A.null) same("char", a.charAt(o), A.s.charAt(o), w); same("char", a.char32At(o), A.s.char32At(o), w + " 32"); same("char-bounds", a.getChar32Start(o), A.s.getChar32Start(o), w + " start"); same("char-bounds", a.getChar32Limit(o), A.s.getChar32Limit(o), w + " limit"); if (o >= 0 && o < A.n) same("char", a[o], A.s[o], w);
    int mo = offset(r, A.n), d = r.range(-A.n - 2, A.n + 2); same("move", a.moveIndex32(mo, d), A.s.moveIndex32(mo, d), who + " move " + std::to_string(mo) + "," + std::to_string(d));
    int st = offset(r, A.n), n = extent(r, A.n); w = who + " slice " + std::to_string(st) + "," + std::to_string(n); UnicodeString x = sub(A.s, st, n);
    { UnicodeString t("left over"); a.extract(st, n, t); same("slice", t, x, w); } { int ds = r.range(0, 3); std::unique_ptr<UChar[]> b(new UChar[x.length() + ds]); for (int q = 0; q < ds; ++q) b[q] = 0x5a5a; a.extract(st, n, b.get(), ds); UnicodeString g; for (int q = 0; q < x.length(); ++q) g.append(b[ds + q]); same("slice", g, x, w + " buffer"); for (int q = 0; q < ds; ++q) if (b[q] != 0x5a5a) violation("ref-slice", w + " wrote before"); }
    int vs = r.range(0, A.n), ve = r.range(vs, A.n); { UnicodeString t("t"); a.extractBetween(vs, ve, t); same("slice", t, sub(A.s, vs, ve - vs), who + " between"); std::unique_ptr<UChar[]> b(new UChar[ve - vs]); a.extractBetween(vs, ve, b.get()); UnicodeString g; for (int q = 0; q < ve - vs; ++q) g.append(b[q]); same("slice", g, sub(A.s, vs, ve - vs), who + " between buffer"); }
    { int cap = r.range(0, A.n + 2); std::unique_ptr<UChar[]> b(new UChar[cap]); UErrorCode e = U_ZERO_ERROR, e2 = U_ZERO_ERROR; std::unique_ptr<UChar[]> b2(new UChar[cap]); int g = a.extract(cap ? b.get() : 0, cap, e), g2 = A.s.extract(cap ? b2.get() : 0, cap, e2); same("slice", g, g2, who + " capacity " + std::to_string(cap)); same("slice", e, e2, who + " status"); if (U_SUCCESS(e)) for (int q = 0; q < std::min(cap, A.n); ++q) if (b[q] != A.s[q]) { violation("ref-slice", who + " content"); break; } }
    same("count", a.countChar32(st, n), A.s.countChar32(st, n), w); }
  same("count", a.countChar32(), A.s.countChar32(), who);
  { UnicodeStringRef t; t.setTo(a); same("set", us(t), A.s, who); t.setTo(A.s); same("set", us(t), A.s, who + " u"); t.setTo(A.b.get(), A.n); same("set", us(t), A.s, who + " p"); UnicodeStringRef u("x" == 0 ? a : a); u = t; same("set", us(u), A.s, who + " ="); UnicodeStringRef v(A.s); same("set", us(v), A.s, who + " ctor"); if (!A.null) { UnicodeStringRef q(A.b.get(), A.b.get() + A.n); same("set", us(q), A.s, who + " range"); std::unique_ptr<UChar[]> z(new UChar[A.n + 1]); int m = 0; while (m < A.n && A.s[m]) { z[m] = A.s[m]; ++m; } z[m] = 0; UnicodeStringRef zt(z.get()); same("set", us(zt), sub(A.s, 0, m), who + " zero-terminated"); } }
  { int b = 0, e = A.n; while (e > b && u_isspace(A.s[e - 1])) --e; while (b < e && u_isspace(A.s[b])) ++b; same("trim", us(strtrim(a)), sub(A.s, b, e - b), who); }
}
static void conversions(Rng & r, const Buf & A) {
  UnicodeStringRef a = A.ref(); std::string who = S(A.s) + " length " + std::to_string(A.n); std::string want = encUtf8(A.s);
  std::string t(r.range(0, 400), 'q'); int n = a.extractUTF8(t); same("utf8-length", n, (long) want.size(), who); if (t != want) violation("ref-utf8", who + " gives " + std::to_string(t.size()) + " bytes instead of " + std::to_string(want.size())); if (a.asUTF8() != want) violation("ref-utf8", who + " asUTF8"); count("evals", 2);
  { std::ostringstream o; o << a; if (o.str() != want) violation("ref-stream", who + ": " + oneLine(o.str())); std::ostringstream o2; a.toSingleByteStream(o2); if (o2.str() != want) violation("ref-stream", who); count("evals"); }
  for (int i = 0; i < 3; ++i) { const char * cp = CPS[r.below(sizeof CPS / sizeof *CPS)]; int st = r.chance(50) ? 0 : offset(r, A.n), ln = r.chance(50) ? A.n : extent(r, A.n); UnicodeString x = sub(A.s, st, ln); bool ok; std::string w = toCp(x, cp, ok); std::string d = who + " to " + cp + " " + std::to_string(st) + "," + std::to_string(ln); if (!ok) { count("unknown-codepage"); std::string t("left"); int g = a.extract(st, ln, t, cp); if (g != 0 || !t.empty()) violation("ref-convert", d + " for an unknown encoding"); continue; }
    op(d);     std::string t(r.range(0, 40), 'z'); int g = a.extract(st, ln, t, cp); count("evals"); if (t != w || g != (int) w.size()) violation("ref-convert", d + " gives " + std::to_string(g) + "/" + std::to_string(t.size()) + " bytes instead of " + std::to_string(w.size())); if (st == 0 && ln == A.n) { std::string t2; a.extract(t2, cp); if (t2 != w) violation("ref-convert", d + " whole"); }
    int pre = a.extract(st, ln, (char *) 0, cp); if (pre != (int) w.size()) violation("ref-convert", d + " preflight " + std::to_string(pre));
    { std::unique_ptr<char[]> b(new char[w.size() + 64 + 4 * A.n]); int q = w.empty() ? 0 : a.extract(st, ln, b.get(), (uint32_t) w.size(), cp); if (q != (int) w.size() || memcmp(b.get(), w.data(), w.size())) violation("ref-convert", d + " sized buffer");  q = a.extract(st, ln, b.get(), cp); if (q != (int) w.size() || memcmp(b.get(), w.data(), w.size())) violation("ref-convert", d + " unsized buffer"); }
    { UErrorCode e = U_ZERO_ERROR; UConverter * c = ucnv_open(cp, &e); int cap = r.range(1, (int) w.size() + 2); std::unique_ptr<char[]> b(new char[cap]); std::unique_ptr<char[]> b2(new char[cap]); UErrorCode e2 = U_ZERO_ERROR; UConverter * c2 = ucnv_open(cp, &e2); int q = a.extract(b.get(), cap, c, e), q2 = A.s.extract(b2.get(), cap, c2, e2); ucnv_close(c2); if (q != q2 || e != e2) violation("ref-convert", d + " converter length " + std::to_string(q) + " instead of " + std::to_string(q2)); else if (U_SUCCESS(e) && memcmp(b.get(), b2.get(), std::min(cap, q))) violation("ref-convert", d + " converter content"); ucnv_close(c); } }
}
static void splits(Rng & r, const Buf & A) {
  UnicodeString del; static const UChar ds[] = { 'a', ' ', 'b', ',', 0xd83d, 'A' }; int nd = r.range(1, 3); for (int i = 0; i < nd; ++i) del.append(ds[r.below(6)]); std::unique_ptr<UChar[]> z(new UChar[nd + 1]); for (int i = 0; i < nd; ++i) z[i] = del[i]; z[nd] = 0; bool trim = r.chance(50), empty = r.chance(50);
  std::vector<UnicodeString> m; UnicodeString cur; for (int i = 0; i <= A.n; ++i) { if (i == A.n || del.indexOf(A.s[i]) >= 0) { m.push_back(cur); cur = UnicodeString(); } else cur.append(A.s[i]); }
  if (trim) for (auto & p : m) { int b = 0, e = p.length(); while (e > b && u_isspace(p[e - 1])) --e; while (b < e && u_isspace(p[b])) ++b; p = sub(p, b, e - b); }
  bool tail = A.n == 0 || del.indexOf(A.s[A.n - 1]) >= 0; if (tail) m.pop_back();   // no piece after a final delimiter
  if (!empty) { std::vector<UnicodeString> k; for (auto & p : m) if (p.length()) k.push_back(p); m = k; }
  std::vector<UnicodeStringRef> out; out.push_back(UnicodeStringRef()); int n = delimitedUnicodeStringRef2Vector(out, A.b.get(), A.n, z.get(), trim, empty); std::string who = S(A.s) + " by " + S(del) + (trim ? " trim" : "") + (empty ? " empty" : "");
  same("split", n, (long) m.size(), who); same("split", (long) out.size(), (long) m.size() + 1, who + " size"); for (size_t i = 0; i < m.size() && i + 1 < out.size(); ++i) same("split", us(out[i + 1]), m[i], who + " piece " + std::to_string(i));
}
static void strref(Rng & r, Args &) {
  for (int i = 0; i < 6; ++i) {
    UnicodeString s = text(r, r.chance(80) ? 10 : 60), t; int k = r.range(0, 5); if (k == 0) t = s; else if (k == 1) t = sub(s, 0, r.range(0, s.length())); else if (k == 2) t = sub(s, r.range(0, s.length()), s.length()); else if (k == 3) { t = s; if (t.length()) t.setCharAt(r.range(0, t.length() - 1), (UChar) r.range(0, 0xffff)); } else if (k == 4) t = s + text(r, 3); else t = text(r, 10);
    if (r.chance(10)) t.toUpper(); if (r.chance(4)) s = UnicodeString(); if (r.chance(4)) t = UnicodeString();
    Buf A(s, s.isEmpty() && r.chance(50)), B(t, t.isEmpty() && r.chance(50)); op(S(s) + " " + S(t)); seen(hashStr(u8(s) + "|" + u8(t))); count("pairs");
    comparisons(r, A, B); comparisons(r, B, A); searches(r, A, B); slices(r, A); splits(r, A);
    UnicodeString q = sub(s, r.range(0, s.length()), r.range(0, 3)); Buf Q(q); searches(r, A, Q); }
  for (int i = 0; i < 4; ++i) { UnicodeString s; int k = r.range(0, 4); if (k == 0) s = text(r, 20); else { // results around the size of internal buffers
      int target = r.chance(60) ? r.range(250, 262) : r.range(1, 3000); UnicodeString unit = k == 1 ? us("x") : k == 2 ? us("\xC3\xA4") : k == 3 ? us("\xE4\xB8\xAD") : us("\xF0\x9F\x98\x80"); int per = k; int pad = r.range(0, 3); for (int q = 0; q < pad; ++q) s.append((UChar) 'p'); while ((s.length() ? (int) encUtf8(s).size() : 0) + per <= target) { s.append(unit); if (s.length() > 40) { int rest = (target - (int) encUtf8(s).size()) / per; for (int q = 0; q < rest; ++q) s.append(unit); } } if (r.chance(20)) s.insert(r.range(0, s.length()), (UChar) (r.chance(50) ? 0xd800 : 0xdc01)); if (r.chance(10)) s.insert(r.range(0, s.length()), (UChar) 0); }
    Buf A(s); conversions(r, A); seen(hashStr(u8(s))); count("texts"); }
}
// --------------------------------------------------------------------------------- converters
static bool representable(UChar32 c, int cp) { switch (cp) { case 1: return c < 0x100; case 2: return c < 0x80; default: return !(c >= 0xd800 && c < 0xe000); } }
static std::string enc(const UnicodeString & s, int cp) { if (cp == 0) return encUtf8(s); std::string o; for (int i = 0; i < s.length(); ++i) { unsigned c = s[i]; if (cp == 1 || cp == 2) o += (char) c; else if (cp == 3) { o += (char) (c >> 8); o += (char) c; } else { o += (char) c; o += (char) (c >> 8); } } return o; }
static void conv(Rng & r, Args &) {
  for (int rep = 0; rep < 6; ++rep) {
    int cp = r.chance(75) ? r.range(0, 4) : r.range(5, (int) (sizeof CPS / sizeof *CPS) - 1); const char * name = CPS[cp]; std::string nm = name;
    if (r.chance(6)) { nm = r.chance(50) ? "no-such-encoding" : "x" + std::to_string(r.range(0, 99999)); std::string o1 = outcome([&] { CodePage2UnicodeConverter c(nm.c_str()); }), o2 = outcome([&] { Unicode2CodePageConverter c(nm.c_str()); }); count("evals", 2); count("unknown-encodings"); if (!isUima(o1) || !isUima(o2)) violation("conv-unknown", nm + ": " + o1 + " " + o2); continue; }
    UErrorCode e = U_ZERO_ERROR; UConverter * pc = ucnv_open(name, &e); bool known = U_SUCCESS(e); ucnv_close(pc); std::string oc = outcome([&] { CodePage2UnicodeConverter c(name); }); if ((oc == "ok") != known || (!known && !isUima(oc))) { violation("conv-unknown", nm + " " + oc); } if (!known) { count("unknown-encodings"); continue; }
    UnicodeString s = r.chance(20) ? randString(r, S_ANY, 3000) : randString(r, r.chance(50) ? S_ASCII : S_XML, r.chance(30) ? 600 : 30); UnicodeString v; for (int i = 0; i < s.length();) { UChar32 c = s.char32At(i); i += c > 0xffff ? 2 : 1; if (cp > 4 ? (c > 0 && c < 0x7f && c != '\\' && c != '~' && c != 0x1a && c != 0x1b && c != '\n' && c != 0x25 && c != '\r' && c > 0x1f) : representable(c, cp) && c != 0xfeff) v.append(c); else v.append((UChar) 'r'); }
    std::string bytes; Unicode2CodePageConverter u2c(name); CodePage2UnicodeConverter c2u(name); std::string who = nm + " text of " + std::to_string(v.length()) + " units"; op(who); Buf V(v);
    size_t need = u2c.getMaximumSize(V.b.get(), v.length()); if (cp <= 4) bytes = enc(v, cp); else { bool ok; bytes = toCp(v, name, ok); } count("evals"); seen(mix(hashStr(u8(v)), cp));
    if (need < bytes.size()) { violation("conv-size", who + " announces " + std::to_string(need) + " bytes, needs " + std::to_string(bytes.size())); continue; }
    for (size_t cap : { bytes.size(), bytes.size() + 1 + r.below(5), (size_t) r.below(bytes.size() + 1) }) { std::unique_ptr<char[]> b(new char[cap]); size_t got = u2c.convertFromUnicode(b.get(), cap, V.b.get(), v.length()); count("evals"); if (cap >= bytes.size() && (got != bytes.size() || memcmp(b.get(), bytes.data(), got))) violation("conv-to-bytes", who + " capacity " + std::to_string(cap) + " gives " + std::to_string(got) + " bytes instead of " + std::to_string(bytes.size())); if (cap < bytes.size() && got != bytes.size()) violation("conv-to-bytes", who + " capacity " + std::to_string(cap) + " reports " + std::to_string(got)); }
    std::unique_ptr<char[]> in(new char[bytes.size()]); memcpy(in.get(), bytes.data(), bytes.size()); size_t len = c2u.getMaximumLength(in.get(), bytes.size()); count("evals"); if (len < (size_t) v.length()) violation("conv-size", who + " announces " + std::to_string(len) + " characters");
    for (size_t cap : { (size_t) v.length(), (size_t) v.length() + 1 + r.below(5), (size_t) r.below(v.length() + 1) }) { std::unique_ptr<UChar[]> b(new UChar[cap]); size_t got = c2u.convertToUnicode(b.get(), cap, in.get(), bytes.size()); count("evals"); if (got != (size_t) v.length()) violation("conv-to-unicode", who + " capacity " + std::to_string(cap) + " gives " + std::to_string(got)); else if (cap >= (size_t) v.length()) { UnicodeString g; for (size_t i = 0; i < got; ++i) g.append(b[i]); if (g != v) violation("conv-to-unicode", who + " content"); }
      std::unique_ptr<UChar[]> b2(new UChar[cap]); got = c2u.convertBytes(b2.get(), cap * sizeof(UChar), in.get(), bytes.size()); if (cap >= (size_t) v.length()) { if (got != bytes.size()) violation("conv-bytes", who + " consumed " + std::to_string(got) + " of " + std::to_string(bytes.size())); UnicodeString g; for (int i = 0; i < v.length(); ++i) g.append(b2[i]); if (g != v) violation("conv-bytes", who + " content"); } }
    // hostile input: any bytes, any units; sizes announced and delivered agree and nothing is written outside the buffers
    std::string junk; int jn = r.range(0, 80); for (int i = 0; i < jn; ++i) junk += r.chance(50) ? (char) r.below(256) : (i < (int) bytes.size() ? bytes[i] : 'x'); std::unique_ptr<char[]> jb(new char[jn]); memcpy(jb.get(), junk.data(), jn);
    std::string o = outcome([&] { size_t l = c2u.getMaximumLength(jb.get(), jn); std::unique_ptr<UChar[]> b(new UChar[l]); size_t g = c2u.convertToUnicode(b.get(), l, jb.get(), jn); if (g != l) violation("conv-size", nm + " hostile bytes"); count("hostile"); }); if (o != "ok" && !isUima(o)) violation("conv-hostile", nm + " " + o);
    UnicodeString hs = text(r, 60); Buf H(hs); o = outcome([&] { size_t l = u2c.getMaximumSize(H.b.get(), H.n); std::unique_ptr<char[]> b(new char[l]); size_t g = u2c.convertFromUnicode(b.get(), l, H.b.get(), H.n); if (g != l) violation("conv-size", nm + " hostile text"); count("hostile"); }); if (o != "ok" && !isUima(o)) violation("conv-hostile", nm + " " + o);
  }
}
int main(int argc, char ** argv) { ResourceManager::createInstance("vp"); return drive(argc, argv, { { "lang", lang }, { "strref", strref }, { "conv", conv } }); }
