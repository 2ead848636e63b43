#pragma once
// Hostile variants of XMI / XCAS documents.
#include "snap.hpp"
namespace vp {
// a document as a sequence of tags and texts
inline std::vector<std::string> tokens(const std::string & x) { std::vector<std::string> t; size_t p = 0; while (p < x.size()) { size_t e = x[p] == '<' ? x.find('>', p) : x.find('<', p); if (e == std::string::npos) e = x.size(); else if (x[p] == '<') ++e; t.push_back(x.substr(p, e - p)); p = e; } return t; }
inline std::string join(const std::vector<std::string> & t) { std::string x; for (auto & s : t) x += s; return x; }
struct Attr { size_t tok, nameB, nameE, valB, valE; };
inline std::vector<Attr> attrs(const std::vector<std::string> & t) { std::vector<Attr> v; for (size_t i = 0; i < t.size(); ++i) { if (t[i][0] != '<' || t[i].compare(0, 2, "<?") == 0) continue; size_t p = 0; while ((p = t[i].find('=', p)) != std::string::npos) { if (p + 1 >= t[i].size() || (t[i][p + 1] != '"' && t[i][p + 1] != '\'')) { ++p; continue; } size_t e = t[i].find(t[i][p + 1], p + 2); if (e == std::string::npos) break; size_t b = t[i].find_last_of(" \t\n", p); if (b == std::string::npos) { p = e; continue; } Attr a = { i, b + 1, p, p + 2, e }; v.push_back(a); p = e + 1; } } return v; }
inline std::string hostileValue(Rng & r, const std::vector<std::string> & t, const std::vector<Attr> & as) {
  static const char * fixed[] = { "", "0", "1", "2", "3", "-1", "-2", "-2147483648", "2147483647", "2147483648", "4294967295", "9999999999999999999999", "-0", "1e400", "NaN", "INF", "abc", "true", "false", " ", "1 2 3 4 5", "0x10", "+7", "1.5", "12abc", "_InitialView", "_DefaultTextSofaName", "&#x10FFFF;", "&#10;&#9;", "\xC3\xA9\xE2\x82\xAC", "xmi:id", "%s%n%d", "256", "-129", "32768", "65536", "1000003" };
  int k = r.range(0, 9);
  if (k < 4) return fixed[r.below(sizeof fixed / sizeof *fixed)];
  if (k == 4) return std::to_string(r.range(-3, 60));
  if (k == 5) { std::string s; int n = r.chance(30) ? r.range(200, 3000) : r.range(1, 80); for (int i = 0; i < n; ++i) s += (i ? " " : "") + std::to_string(r.range(-1, 40)); return s; }
  if (k == 6) return std::string(r.chance(30) ? r.range(1000, 20000) : r.range(1, 400), (char) r.range('0', 'z' - 0) == '<' ? 'x' : "0aF9-"[r.below(5)]);
  if (!as.empty()) { const Attr & a = as[r.below(as.size())]; return t[a.tok].substr(a.valB, a.valE - a.valB); }
  return "7"; }
inline std::string someName(Rng & r, const std::vector<std::string> & t, Schema & s) {
  static const char * fixed[] = { "uima.cas.Sofa", "cas:Sofa", "cas:View", "cas:NULL", "cas:FSArray", "cas:IntegerArray", "cas:ByteArray", "cas:StringArray", "cas:FloatList", "cas:NonEmptyFSList", "cas:EmptyStringList", "tcas:DocumentAnnotation", "tcas:Annotation", "xmi:foo", "i", "uima.cas.FSArray", "uima.cas.IntegerArray", "uima.cas.ByteArray", "uima.cas.LongArray", "uima.cas.StringArray", "uima.tcas.Document", "uima.tcas.DocumentAnnotation", "uima.cas.TOP", "uima.cas.String", "uima.cas.Integer", "uima.cas.ArrayBase", "uima.cas.NonEmptyFSList", "uima.cas.FSList", "CAS", "nosuch", "uima.cas.AnnotationBase" };
  if (r.chance(40)) return fixed[r.below(sizeof fixed / sizeof *fixed)]; if (r.chance(30)) return s.types[r.below(s.types.size())].name;
  for (int k = 0; k < 20; ++k) { const std::string & x = t[r.below(t.size())]; if (x[0] == '<' && x.size() > 2 && isalpha((unsigned char) x[1])) { size_t e = x.find_first_of(" />", 1); return x.substr(1, e - 1); } } return "x"; }
inline std::string someAttrName(Rng & r, const std::vector<std::string> & t, const std::vector<Attr> & as, Schema & s) {
  static const char * fixed[] = { "xmi:id", "_id", "_indexed", "_content", "sofa", "_ref_sofa", "sofaNum", "sofaID", "members", "elements", "size", "begin", "end", "language", "sofaArray", "_ref_sofaArray", "sofaString", "sofaURI", "mimeType", "head", "tail", "_ref_tail", "_", "_ref_", "_ref_x", "xmlns:q" };
  if (r.chance(50)) return fixed[r.below(sizeof fixed / sizeof *fixed)]; if (!as.empty() && r.chance(60)) { const Attr & a = as[r.below(as.size())]; return t[a.tok].substr(a.nameB, a.nameE - a.nameB); }
  auto & ty = s.types[r.below(s.types.size())]; if (!ty.own.empty()) return ty.own[r.below(ty.own.size())].name; return "f"; }

inline std::string mutate(Rng & r, const std::string & x, Schema & s) {
  if (r.chance(22)) { // bytes
    std::string y = x; int n = r.chance(60) ? 1 : r.range(2, 12); op("bytes " + std::to_string(n)); count("byte-mutations");
    for (int i = 0; i < n && !y.empty(); ++i) { size_t p = r.below(y.size()); switch (r.range(0, 6)) {
      case 0: y[p] = (char) r.next(); break; case 1: y[p] ^= 1 << r.range(0, 7); break; case 2: y.erase(p, r.range(1, r.chance(20) ? 200 : 4)); break;
      case 3: y.insert(p, std::string(r.range(1, 3), "<>\"'&;/=\0 \x80\xff]!-"[r.below(16)])); break; case 4: { size_t l = r.range(1, 60); y.insert(r.below(y.size()), y.substr(p, l)); break; }
      case 5: y.resize(p); break; default: { static const char d[] = "0123456789-"; for (int k = 0; k < 200; ++k) { size_t q = r.below(y.size()); if (isdigit((unsigned char) y[q])) { y[q] = d[r.below(11)]; break; } } } } }
    return y; }
  std::vector<std::string> t = tokens(x); int n = r.chance(55) ? 1 : r.range(2, 5); count("structural-mutations", n);
  for (int i = 0; i < n && !t.empty(); ++i) { std::vector<Attr> as = attrs(t); int k = r.range(0, 17); size_t p = r.below(t.size()), q = r.below(t.size());
    if (k <= 6 && !as.empty()) { // one attribute value; prefers the special ones now and then
      Attr a = as[r.below(as.size())]; if (r.chance(35)) for (int z = 0; z < 30; ++z) { Attr b = as[r.below(as.size())]; std::string nm = t[b.tok].substr(b.nameB, b.nameE - b.nameB); if (nm == "sofa" || nm == "_ref_sofa" || nm == "sofaNum" || nm == "sofaID" || nm == "members" || nm == "_indexed" || nm == "size" || nm == "elements" || nm == "_id" || nm == "xmi:id") { a = b; break; } }
      std::string v = hostileValue(r, t, as); op("value " + t[a.tok].substr(a.nameB, a.valE - a.nameB).substr(0, 60) + " := " + v.substr(0, 60)); t[a.tok].replace(a.valB, a.valE - a.valB, v); }
    else if (k == 7 && !as.empty()) { Attr a = as[r.below(as.size())]; op("drop " + t[a.tok].substr(a.nameB, a.valE + 1 - a.nameB).substr(0, 80)); t[a.tok].erase(a.nameB, a.valE + 1 - a.nameB); }
    else if (k == 8 && !as.empty()) { Attr a = as[r.below(as.size())]; std::string nm = someAttrName(r, t, as, s); op("rename " + t[a.tok].substr(a.nameB, a.valE + 1 - a.nameB).substr(0, 80) + " to " + nm); t[a.tok].replace(a.nameB, a.nameE - a.nameB, nm); }
    else if (k == 9 && !as.empty()) { Attr a = as[r.below(as.size())]; std::string nm = someAttrName(r, t, as, s), v = hostileValue(r, t, as); op("add " + nm + "=" + v.substr(0, 60)); t[a.tok].insert(a.nameB, nm + "=\"" + v + "\" "); }
    else if (k == 10) { op("drop token " + t[p].substr(0, 80)); t.erase(t.begin() + p); }
    else if (k == 11) { op("duplicate token " + t[p].substr(0, 80)); std::string c = t[p]; t.insert(t.begin() + q, c); }
    else if (k == 12) { op("swap tokens " + t[p].substr(0, 60) + " | " + t[q].substr(0, 60)); std::swap(t[p], t[q]); }
    else if (k == 13) { // element renamed, consistently when it is a single tag
      for (int z = 0; z < 30 && !(t[p][0] == '<' && t[p].size() > 2 && isalpha((unsigned char) t[p][1])); ++z) p = r.below(t.size());
      if (t[p][0] == '<' && t[p].size() > 2 && isalpha((unsigned char) t[p][1])) { size_t e = t[p].find_first_of(" />", 1); std::string old = t[p].substr(1, e - 1), nn = someName(r, t, s); op("element " + old + " to " + nn); t[p].replace(1, old.size(), nn); if (t[p][t[p].size() - 2] != '/') for (size_t z = p + 1; z < t.size(); ++z) if (t[z].compare(0, 2 + old.size(), "</" + old) == 0) { t[z] = "</" + nn + ">"; break; } } }
    else if (k == 14) { std::string nm = r.chance(50) ? someAttrName(r, t, as, s) : someName(r, t, s), v = hostileValue(r, t, as); op("insert child " + nm + " " + v.substr(0, 60)); std::string el = r.chance(60) ? "<" + nm + ">" + v + "</" + nm + ">" : r.chance(50) ? "<" + nm + "/>" : "<" + nm + " " + someAttrName(r, t, as, s) + "=\"" + v + "\">" + v + "</" + nm + ">";
      if (r.chance(50) && t[p].size() > 3 && t[p][0] == '<' && t[p][t[p].size() - 2] == '/') { std::string nm2 = t[p].substr(1, t[p].find_first_of(" /", 1) - 1); t[p] = t[p].substr(0, t[p].size() - 2) + ">" + el + "</" + nm2 + ">"; } else t.insert(t.begin() + p, el); }
    else if (k == 15) { op("insert text"); t.insert(t.begin() + p, r.chance(50) ? "stray text" : hostileValue(r, t, as)); }
    else if (k == 16) { op("truncate"); t.resize(p); }
    else if (k == 17 && !as.empty()) { // ids renumbered: two attributes exchange their values
      Attr a = as[r.below(as.size())], b = as[r.below(as.size())]; if (a.tok != b.tok) { std::string va = t[a.tok].substr(a.valB, a.valE - a.valB), vb = t[b.tok].substr(b.valB, b.valE - b.valB); op("exchange values " + va.substr(0, 30) + " | " + vb.substr(0, 30)); t[a.tok].replace(a.valB, va.size(), vb); t[b.tok].replace(b.valB, vb.size(), va); } } }
  return join(t); }

// arrays of more than two million elements (and less than the largest possible) only test how much memory there is
}
