// Random type systems, CAS contents with an independent model of them, and snapshots of real CASes.
#pragma once
#include "common.hpp"
namespace vp {
enum RK { R_INT, R_FLOAT, R_STRING, R_BOOL, R_BYTE, R_SHORT, R_LONG, R_DOUBLE, R_REF, R_N };
enum OK_ { O_FS, O_AFS, O_AINT, O_AFLOAT, O_ASTR, O_ABOOL, O_ABYTE, O_ASHORT, O_ALONG, O_ADOUBLE, O_N };
static const char * const ARR_TYPE[O_N] = { "", "uima.cas.FSArray", "uima.cas.IntegerArray", "uima.cas.FloatArray", "uima.cas.StringArray",
  "uima.cas.BooleanArray", "uima.cas.ByteArray", "uima.cas.ShortArray", "uima.cas.LongArray", "uima.cas.DoubleArray" };
static const RK ARR_RK[O_N] = { R_REF, R_REF, R_INT, R_FLOAT, R_STRING, R_BOOL, R_BYTE, R_SHORT, R_LONG, R_DOUBLE };
static const char * const PRIM_TYPE[] = { "uima.cas.Integer", "uima.cas.Float", "uima.cas.String", "uima.cas.Boolean", "uima.cas.Byte", "uima.cas.Short", "uima.cas.Long", "uima.cas.Double" };
static const char * const LISTS[] = { "FSList", "IntegerList", "FloatList", "StringList" };

struct Val { bool null = true; i64 i = 0; UnicodeString s; int ref = -1; Val() {} };
inline Val vInt(i64 x) { Val v; v.null = false; v.i = x; return v; }
inline Val vStr(const UnicodeString & s) { Val v; v.null = false; v.s = s; return v; }
inline Val vRef(int r) { Val v; v.null = r < 0; v.ref = r; return v; }
inline i64 fbits(float f) { int32_t x; memcpy(&x, &f, 4); return x; }
inline i64 dbits(double d) { i64 x; memcpy(&x, &d, 8); return x; }
inline float asF(i64 x) { int32_t y = (int32_t) x; float f; memcpy(&f, &y, 4); return f; }
inline double asD(i64 x) { double d; memcpy(&d, &x, 8); return d; }
inline std::string show(const Val & v, RK k) {
  if (k == R_STRING) return v.null ? "null" : "'" + u8(v.s) + "'";
  if (k == R_REF) return v.null ? "null" : "#" + std::to_string(v.ref);
  char b[80]; if (k == R_FLOAT) { snprintf(b, sizeof b, "%.9g[%llx]", asF(v.i), (unsigned long long)(uint32_t) v.i); return b; }
  if (k == R_DOUBLE) { snprintf(b, sizeof b, "%.17g[%llx]", asD(v.i), (unsigned long long) v.i); return b; }
  return std::to_string(v.i);
}

struct FeatDef { std::string name; std::string range; RK kind = R_INT; bool multi = false; std::string elementType; int owner = -1; uima::Feature f; };
struct TypeDef { std::string name, super; bool stringSub = false; bool builtin = false; std::vector<UnicodeString> allowed; std::vector<FeatDef> own; uima::Type t; };
struct IndexDef { std::string label, type; int kind = 0; /*0 sorted 1 set 2 bag*/ std::vector<std::pair<std::string, bool>> keys; /* "" = type priority; bool reverse */ };

struct Schema {
  std::vector<TypeDef> types;                // user types and the builtin ones that can be instantiated
  std::map<std::string, int> byName;
  std::vector<IndexDef> indexes;
  std::vector<std::vector<std::string>> priorities;
  std::vector<int> fsTypes, annTypes, strSubs;   // instantiable user types etc.
  int add(const TypeDef & t) { byName[t.name] = (int) types.size(); types.push_back(t); return (int) types.size() - 1; }
  int idx(const std::string & n) const { auto it = byName.find(n); return it == byName.end() ? -1 : it->second; }
  bool subsumes(const std::string & sup, std::string sub) const {
    if (sup == "uima.cas.TOP") return true;
    for (int guard = 0; guard < 1000; ++guard) { if (sub == sup) return true; int i = idx(sub); if (i < 0) { // builtin array / list types
        if (sub.compare(0, 9, "uima.cas.") == 0) {
          std::string b = sub.substr(9);
          if (b.size() > 5 && b.substr(b.size() - 5) == "Array") return sup == "uima.cas.ArrayBase" && b != "ArrayBase" ? true : false;
        }
        return false; }
      sub = types[i].super; if (sub.empty() || sub == "uima.cas.TOP") return false; }
    return false; }
  std::vector<const FeatDef *> feats(int ti) const { // inherited first
    std::vector<int> chain; for (int i = ti; i >= 0; ) { chain.push_back(i); i = idx(types[i].super); }
    std::vector<const FeatDef *> o; for (size_t k = chain.size(); k--; ) for (auto & f : types[chain[k]].own) o.push_back(&f); return o; }
  const FeatDef * feat(int ti, const std::string & n) const { for (auto f : feats(ti)) if (f->name == n) return f; return 0; }
};

inline RK kindOf(const Schema & s, const std::string & range) {
  for (int i = 0; i < 8; ++i) if (range == PRIM_TYPE[i]) return (RK) i;
  int i = s.idx(range); if (i >= 0 && s.types[i].stringSub) return R_STRING;
  return R_REF;
}
inline FeatDef mkFeat(const std::string & n, const std::string & range, RK k) { FeatDef f; f.name = n; f.range = range; f.kind = k; return f; }
inline void addBuiltins(Schema & s) {
  auto T = [&](const char * n, const char * sup, std::vector<FeatDef> fs) { TypeDef t; t.name = n; t.super = sup; t.builtin = true; t.own = fs; for (auto & f : t.own) f.owner = (int) s.types.size(); s.add(t); };
  T("uima.cas.AnnotationBase", "uima.cas.TOP", {});
  T("uima.tcas.Annotation", "uima.cas.AnnotationBase", { mkFeat("sofa", "uima.cas.Sofa", R_REF), mkFeat("begin", "uima.cas.Integer", R_INT), mkFeat("end", "uima.cas.Integer", R_INT) });
  const char * heads[4] = { "uima.cas.TOP", "uima.cas.Integer", "uima.cas.Float", "uima.cas.String" }; RK hk[4] = { R_REF, R_INT, R_FLOAT, R_STRING };
  T("uima.cas.ListBase", "uima.cas.TOP", {});
  for (int i = 0; i < 4; ++i) { std::string l = LISTS[i];
    T(("uima.cas." + l).c_str(), "uima.cas.ListBase", {});
    T(("uima.cas.Empty" + l).c_str(), ("uima.cas." + l).c_str(), {});
    T(("uima.cas.NonEmpty" + l).c_str(), ("uima.cas." + l).c_str(), { mkFeat("head", heads[i], hk[i]), mkFeat("tail", "uima.cas." + l, R_REF) }); }
}
struct SchemaOpts { bool lists = true, multi = true, arrays = true, strsub = true, indexes = true, noNamespace = true, elementTypes = false; int maxTypes = 12, maxFeats = 7; bool dblIndexKeys = true; bool randomNamespaces = true; };

// Every user type descends from v.Base (TOP) or v.Anno (Annotation); both carry the integer feature "uid".
inline Schema genSchema(Rng & r, const SchemaOpts & o = SchemaOpts()) {
  Schema s; addBuiltins(s);
  std::vector<std::string> ns = { "v.", "v.sub.", "org.apache.test." };
  if (o.randomNamespaces) { ns.push_back("a.x."); ns.push_back("b.x."); ns.push_back("c.y.x."); }
  if (o.noNamespace) ns.push_back("");
  std::vector<std::string> refTypes = { "uima.cas.TOP", "v.Base", "v.Anno", "uima.tcas.Annotation" };
  { TypeDef t; t.name = "v.Base"; t.super = "uima.cas.TOP"; t.own.push_back(mkFeat("uid", "uima.cas.Integer", R_INT)); s.fsTypes.push_back(s.add(t)); }
  { TypeDef t; t.name = "v.Anno"; t.super = "uima.tcas.Annotation"; t.own.push_back(mkFeat("uid", "uima.cas.Integer", R_INT)); int k = s.add(t); s.fsTypes.push_back(k); s.annTypes.push_back(k); }
  int nss = o.strsub ? r.range(0, 2) : 0;
  for (int i = 0; i < nss; ++i) { TypeDef t; t.name = "v.Enum" + std::to_string(i); t.super = "uima.cas.String"; t.stringSub = true;
    int n = r.range(1, 4); for (int k = 0; k < n; ++k) t.allowed.push_back(us("val" + std::to_string(k) + (r.chance(30) ? " x" : ""))); s.strSubs.push_back(s.add(t)); }
  int n = r.range(1, o.maxTypes);
  for (int i = 0; i < n; ++i) { TypeDef t; t.name = r.pick(ns) + (r.chance(20) ? "X" : "T") + std::to_string(i); int par = s.fsTypes[r.below(s.fsTypes.size())]; t.super = s.types[par].name;
    int k = s.add(t); s.fsTypes.push_back(k); refTypes.push_back(t.name); if (s.subsumes("uima.tcas.Annotation", t.name)) s.annTypes.push_back(k); }
  int fc = 0;
  for (int ti : s.fsTypes) { int nf = r.range(0, o.maxFeats);
    for (int k = 0; k < nf; ++k) { FeatDef f; f.name = std::string(r.chance(8) ? "F_" : "f") + std::to_string(fc++); f.owner = ti;
      int w = r.range(0, 99);
      if (w < 45) { f.kind = (RK) r.range(0, 7); f.range = PRIM_TYPE[f.kind]; }
      else if (w < 50 && !s.strSubs.empty()) { f.kind = R_STRING; f.range = s.types[s.strSubs[r.below(s.strSubs.size())]].name; }
      else if (w < 68) { f.kind = R_REF; f.range = r.pick(refTypes); }
      else if (w < 86 && o.arrays) { f.kind = R_REF; int a = r.range(1, 9); f.range = ARR_TYPE[a]; f.multi = o.multi && r.chance(40); }
      else if (o.lists) { f.kind = R_REF; f.range = std::string("uima.cas.") + LISTS[r.below(4)]; f.multi = o.multi && r.chance(40); }
      else { f.kind = R_INT; f.range = PRIM_TYPE[0]; }
      s.types[ti].own.push_back(f); } }
  for (size_t ti = 0; ti < s.types.size(); ++ti) for (auto & f : s.types[ti].own) f.owner = (int) ti;
  if (o.indexes) {
    { IndexDef d; d.label = "BagBase"; d.type = "v.Base"; d.kind = 2; s.indexes.push_back(d); }
    int ni = r.range(0, 5);
    for (int i = 0; i < ni; ++i) { IndexDef d; d.label = "Idx" + std::to_string(i); int ti = s.fsTypes[r.below(s.fsTypes.size())]; d.type = s.types[ti].name; d.kind = r.range(0, 2);
      std::vector<const FeatDef *> keyable; for (auto f : s.feats(ti)) if ((f->kind == R_INT || f->kind == R_FLOAT || f->kind == R_STRING || (o.dblIndexKeys && f->kind != R_REF))) keyable.push_back(f);
      int nk = d.kind == 2 ? 0 : r.range(1, 3); bool tp = false; std::set<std::string> used;
      for (int k = 0; k < nk; ++k) { if (r.chance(20) && !tp && d.kind == 0) { d.keys.push_back({ "", false }); tp = true; continue; } if (keyable.empty()) continue; auto f = r.pick(keyable); if (used.insert(f->name).second) d.keys.push_back({ f->name, r.chance(40) }); }
      if (d.kind != 2 && d.keys.empty()) d.keys.push_back({ "uid", false });
      s.indexes.push_back(d); }
    if (r.chance(60)) { std::vector<std::string> chain; for (int ti : s.fsTypes) if (r.chance(50)) chain.push_back(s.types[ti].name);
      for (size_t i = chain.size(); i > 1; --i) std::swap(chain[i - 1], chain[r.below(i)]); if (chain.size() >= 2) s.priorities.push_back(chain); }
  }
  return s;
}
inline std::string esc(const std::string & s) { std::string o; for (char c : s) { if (c == '<') o += "&lt;"; else if (c == '&') o += "&amp;"; else if (c == '>') o += "&gt;"; else o += c; } return o; }
inline std::string typeSystemXml(const Schema & s) {
  std::string x = "<typeSystemDescription><types>";
  for (auto & t : s.types) { if (t.builtin) continue;
    x += "<typeDescription><name>" + t.name + "</name><description></description><supertypeName>" + t.super + "</supertypeName>";
    if (t.stringSub) { x += "<allowedValues>"; for (auto & a : t.allowed) x += "<value><string>" + esc(utf8(a)) + "</string><description/></value>"; x += "</allowedValues>"; }
    else { x += "<features>"; for (auto & f : t.own) { x += "<featureDescription><name>" + f.name + "</name><description></description><rangeTypeName>" + f.range + "</rangeTypeName>";
        if (!f.elementType.empty()) x += "<elementType>" + f.elementType + "</elementType>";
        if (f.multi) x += "<multipleReferencesAllowed>true</multipleReferencesAllowed>"; x += "</featureDescription>"; } x += "</features>"; }
    x += "</typeDescription>"; }
  return x + "</types></typeSystemDescription>";
}
inline std::string prioXml(const Schema & s) { std::string x; if (!s.priorities.empty()) { x += "<typePriorities>"; for (auto & c : s.priorities) { x += "<priorityList>"; for (auto & t : c) x += "<type>" + t + "</type>"; x += "</priorityList>"; } x += "</typePriorities>"; } return x; }
inline std::string indexXml(const Schema & s) { std::string x; if (!s.indexes.empty()) { x += "<fsIndexes>"; static const char * K[] = { "sorted", "set", "bag" };
    for (auto & d : s.indexes) { x += "<fsIndexDescription><label>" + d.label + "</label><typeName>" + d.type + "</typeName><kind>" + K[d.kind] + "</kind><keys>";
      for (auto & k : d.keys) { x += "<fsIndexKey>"; if (k.first.empty()) x += "<typePriority/>"; else x += "<featureName>" + k.first + "</featureName><comparator>" + (k.second ? "reverse" : "standard") + "</comparator>"; x += "</fsIndexKey>"; }
      x += "</keys></fsIndexDescription>"; } x += "</fsIndexes>"; } return x; }
inline std::string aeXml(const Schema & s, const std::string & impl = "dummy") {
  return "<?xml version=\"1.0\" encoding=\"UTF-8\"?><taeDescription xmlns=\"http://uima.apache.org/resourceSpecifier\"><frameworkImplementation>org.apache.uima.cpp</frameworkImplementation><primitive>true</primitive><annotatorImplementationName>" + impl +
    "</annotatorImplementationName><analysisEngineMetaData><name>gen</name><description></description><version>1</version><vendor></vendor><configurationParameters/><configurationParameterSettings/>" +
    typeSystemXml(s) + prioXml(s) + indexXml(s) + "<capabilities><capability><inputs/><outputs/><languagesSupported/></capability></capabilities></analysisEngineMetaData></taeDescription>";
}
// The real thing: type system + index definition + CAS factory for a schema.
struct Env {
  std::unique_ptr<uima::AnalysisEngineDescription> desc; std::unique_ptr<uima::internal::CASDefinition> def; Schema * schema = 0;
  uima::TypeSystem * ts = 0;
  explicit Env(Schema & s) : schema(&s) {
    desc.reset(new uima::AnalysisEngineDescription()); uima::XMLParser p; std::string x = aeXml(s);
    xercesc::MemBufInputSource src((const XMLByte *) x.data(), x.size(), "gen");
    p.parseAnalysisEngineDescription(*desc, src);
    desc->validate(); desc->commit();
    def.reset(uima::internal::CASDefinition::createCASDefinition(*desc));
    ts = &def->getTypeSystem(); bind(s, *ts);
  }
  static void bind(Schema & s, const uima::TypeSystem & ts) {
    for (auto & t : s.types) { t.t = ts.getType(us(t.name)); if (!t.t.isValid()) throw std::runtime_error("harness: type missing " + t.name); }
    for (auto & t : s.types) for (auto & f : t.own) { f.f = t.t.getFeatureByBaseName(us(f.name)); if (!f.f.isValid()) throw std::runtime_error("harness: feature missing " + t.name + ":" + f.name); }
  }
  uima::CAS * newCAS() { uima::ErrorInfo e; uima::CAS * c = uima::Framework::createCAS(*def, e); if (!c) throw std::runtime_error("harness: createCAS: " + e.asString()); return c; }
};

// ---- generic access by kind ----------------------------------------------------------------
inline void setFeat(uima::FeatureStructure fs, const uima::Feature & f, RK k, const Val & v) {
  switch (k) {
    case R_INT: fs.setIntValue(f, (int) v.i); break; case R_FLOAT: fs.setFloatValue(f, asF(v.i)); break;
    case R_STRING: fs.setStringValue(f, v.s); break; case R_BOOL: fs.setBooleanValue(f, v.i != 0); break;
    case R_BYTE: fs.setByteValue(f, (char) v.i); break; case R_SHORT: fs.setShortValue(f, (short) v.i); break;
    case R_LONG: fs.setLongValue(f, (INT64) v.i); break; case R_DOUBLE: fs.setDoubleValue(f, asD(v.i)); break; default: break; }
}
inline Val getFeat(const uima::FeatureStructure & fs, const uima::Feature & f, RK k) { // not for R_REF
  switch (k) {
    case R_INT: return vInt(fs.getIntValue(f)); case R_FLOAT: return vInt(fbits(fs.getFloatValue(f)));
    case R_STRING: { uima::UnicodeStringRef r = fs.getStringValue(f); if (r.getBuffer() == 0) return Val(); return vStr(UnicodeString(r.getBuffer(), r.length())); }
    case R_BOOL: return vInt(fs.getBooleanValue(f)); case R_BYTE: return vInt((signed char) fs.getByteValue(f)); case R_SHORT: return vInt(fs.getShortValue(f));
    case R_LONG: return vInt((i64) fs.getLongValue(f)); case R_DOUBLE: return vInt(dbits(fs.getDoubleValue(f))); default: return Val(); }
}
inline bool sameVal(const Val & a, const Val & b, RK k) {
  if (k == R_STRING) return a.null == b.null && (a.null || a.s == b.s);
  if (k == R_FLOAT) { float x = asF(a.i), y = asF(b.i); return (x != x && y != y) || a.i == b.i; }
  if (k == R_DOUBLE) { double x = asD(a.i), y = asD(b.i); return (x != x && y != y) || a.i == b.i; }
  return a.i == b.i;
}
inline uima::FeatureStructure createArr(uima::CAS & c, int ok, size_t n) {
  switch (ok) { case O_AFS: return c.createArrayFS(n); case O_AINT: return c.createIntArrayFS(n); case O_AFLOAT: return c.createFloatArrayFS(n); case O_ASTR: return c.createStringArrayFS(n);
    case O_ABOOL: return c.createBooleanArrayFS(n); case O_ABYTE: return c.createByteArrayFS(n); case O_ASHORT: return c.createShortArrayFS(n); case O_ALONG: return c.createLongArrayFS(n); default: return c.createDoubleArrayFS(n); }
}
inline void setElem(uima::FeatureStructure fs, int ok, size_t i, const Val & v) {
  switch (ok) { case O_AINT: uima::IntArrayFS(fs).set(i, (int) v.i); break; case O_AFLOAT: uima::FloatArrayFS(fs).set(i, asF(v.i)); break;
    case O_ASTR: uima::StringArrayFS(fs).set(i, uima::UnicodeStringRef(v.s)); break; case O_ABOOL: uima::BooleanArrayFS(fs).set(i, v.i != 0); break; case O_ABYTE: uima::ByteArrayFS(fs).set(i, (char) v.i); break;
    case O_ASHORT: uima::ShortArrayFS(fs).set(i, (short) v.i); break; case O_ALONG: uima::LongArrayFS(fs).set(i, (INT64) v.i); break; case O_ADOUBLE: uima::DoubleArrayFS(fs).set(i, asD(v.i)); break; default: break; }
}
inline Val getElem(const uima::FeatureStructure & fs, int ok, size_t i) {
  switch (ok) { case O_AINT: return vInt(uima::IntArrayFS(fs).get(i)); case O_AFLOAT: return vInt(fbits(uima::FloatArrayFS(fs).get(i)));
    case O_ASTR: { uima::UnicodeStringRef r = uima::StringArrayFS(fs).get(i); if (!r.getBuffer()) return Val(); return vStr(UnicodeString(r.getBuffer(), r.length())); }
    case O_ABOOL: return vInt(uima::BooleanArrayFS(fs).get(i)); case O_ABYTE: return vInt((signed char) uima::ByteArrayFS(fs).get(i)); case O_ASHORT: return vInt(uima::ShortArrayFS(fs).get(i));
    case O_ALONG: return vInt((i64) uima::LongArrayFS(fs).get(i)); case O_ADOUBLE: return vInt(dbits(uima::DoubleArrayFS(fs).get(i))); default: return Val(); }
}
inline size_t arrSize(const uima::FeatureStructure & fs, int ok) {
  switch (ok) { case O_AFS: return uima::ArrayFS(fs).size(); case O_AINT: return uima::IntArrayFS(fs).size(); case O_AFLOAT: return uima::FloatArrayFS(fs).size(); case O_ASTR: return uima::StringArrayFS(fs).size();
    case O_ABOOL: return uima::BooleanArrayFS(fs).size(); case O_ABYTE: return uima::ByteArrayFS(fs).size(); case O_ASHORT: return uima::ShortArrayFS(fs).size(); case O_ALONG: return uima::LongArrayFS(fs).size(); default: return uima::DoubleArrayFS(fs).size(); }
}
inline uima::lowlevel::TyFS addr(const uima::FeatureStructure & fs) { return uima::internal::FSPromoter::demoteFS(fs); }
inline std::string nameOf(const uima::Type & t) { return utf8(us(t.getName())); }
inline int arrKind(const std::string & n) { for (int i = 1; i < O_N; ++i) if (n == ARR_TYPE[i]) return i; return 0; }

struct ValOpts { int strFlags = S_XML; bool nan = true; bool denorm = true; int strMax = 20; };
inline Val randPrim(Rng & r, RK k, const ValOpts & o) {
  switch (k) {
    case R_INT: { static const i64 e[] = { 0, 1, -1, INT32_MAX, INT32_MIN, 2, 10, 255, 256, -128 }; return vInt(r.chance(40) ? e[r.below(10)] : (i64)(int32_t) r.next()); }
    case R_BOOL: return vInt(r.below(2)); case R_BYTE: return vInt((signed char) r.next()); case R_SHORT: return vInt(r.chance(20) ? (r.chance(50) ? -32768 : 32767) : (short) r.next());
    case R_LONG: { static const i64 e[] = { 0, 1, -1, INT64_MAX, INT64_MIN, 1ll << 32, -(1ll << 32), 0x123456789abcdefll, INT32_MAX, INT32_MIN }; return vInt(r.chance(40) ? e[r.below(10)] : (i64) r.next()); }
    case R_FLOAT: { if (r.chance(40)) { static const float e[] = { 0.0f, -0.0f, 1.5f, -2.25f, 0.1f, 3.4028235e38f, 1.17549435e-38f, 16777217.f, 1e10f, 123456.789f }; return vInt(fbits(e[r.below(10)])); }
        float f = asF((i64)(int32_t) r.next()); if (f != f) f = o.nan ? f : 1.25f; if (!o.nan && std::isinf(f)) f = -7.5f; if (!o.denorm && std::fpclassify(f) == FP_SUBNORMAL) f = 0.5f;
        if (o.nan && r.chance(10)) f = r.chance(50) ? (r.chance(50) ? INFINITY : -INFINITY) : NAN; return vInt(fbits(f)); }
    case R_DOUBLE: { if (r.chance(40)) { static const double e[] = { 0.0, -0.0, 1.5, -2.25, 0.1, 1.7976931348623157e308, 2.2250738585072014e-308, 9007199254740993.0, 1e100, 123456789.123456789 }; return vInt(dbits(e[r.below(10)])); }
        double f = asD((i64) r.next()); if (f != f) f = o.nan ? f : 1.25; if (!o.nan && std::isinf(f)) f = -7.5; if (!o.denorm && std::fpclassify(f) == FP_SUBNORMAL) f = 0.5;
        if (o.nan && r.chance(10)) f = r.chance(50) ? (r.chance(50) ? INFINITY : -INFINITY) : NAN; return vInt(dbits(f)); }
    case R_STRING: return vStr(randString(r, o.strFlags, o.strMax));
    default: return Val(); }
}
} // namespace vp
