#pragma once
// A small Java VM for the native methods: a real JNIEnv function table over objects kept by the harness. It applies the rules of the JNI
// specification and reports a native method that breaks one (stale or null references, calls with a pending exception, arrays and strings
// that are not released, regions outside an array, unbalanced local frames). Element buffers are exact-size heap blocks, so
// AddressSanitizer sees every access outside them.
#include "common.hpp"
#include <jni.h>
#include <cstdarg>
namespace vp {
struct VmObj { enum K { CLASS, PLAIN, STRING, OBJS, INTS, BYTES, SHORTS, LONGS, THROWABLE } kind = PLAIN; std::string cls; UnicodeString s; std::vector<struct VmObj *> objs; std::vector<jint> i; std::vector<jbyte> b; std::vector<jshort> h; std::vector<jlong> l; std::map<std::string, jlong> fields; jlong code = 0;
  size_t len() const { switch (kind) { case OBJS: return objs.size(); case INTS: return i.size(); case BYTES: return b.size(); case SHORTS: return h.size(); case LONGS: return l.size(); default: return 0; } } };
struct VmRef { VmObj * o; bool global; };
struct VmMember { std::string cls, name, sig; bool isStatic; };
struct VmLog { int level; std::string cls, method; UnicodeString msg; };
struct FakeVm {
  JNINativeInterface_ fn; JNIInvokeInterface_ inv; JNIEnv_ env; JavaVM_ vm; std::set<VmObj *> heap; std::set<VmRef *> refs; std::vector<std::vector<VmRef *>> frames; size_t base = 0; VmObj * pending = 0; std::map<void *, VmObj *> pinned; std::set<VmMember *> members;
  std::map<std::string, VmObj *> classes; std::vector<VmLog> logs; int logLevel = 1; bool logThrows = false; std::string call; long calls = 0, exceptions = 0; std::map<VmObj *, int> globals;
  static FakeVm & g() { static FakeVm v; return v; }
  void bad(const std::string & key, const std::string & d) { violation("jni-" + key, call + ": " + d); }
  VmObj * make(VmObj::K k) { VmObj * o = new VmObj(); o->kind = k; heap.insert(o); return o; }
  VmObj * cls(const std::string & n) { VmObj *& c = classes[n]; if (!c) { c = make(VmObj::CLASS); c->cls = n; } return c; }
  jobject local(VmObj * o) { if (!o) return 0; VmRef * r = new VmRef{ o, false }; refs.insert(r); frames.back().push_back(r); return (jobject) r; }
  VmObj * get(jobject j, const char * what, bool nullOk = false) { if (!j) { if (!nullOk) { bad("null-argument", what); throw 1; } return 0; } if (!refs.count((VmRef *) j)) { bad("stale-reference", what); throw 1; } return ((VmRef *) j)->o; }
  void drop(VmRef * r) { refs.erase(r); delete r; }
  void popFrame() { for (VmRef * r : frames.back()) if (refs.count(r)) drop(r); frames.pop_back(); }
  void raise(const std::string & c, const std::string & m) { VmObj * o = make(VmObj::THROWABLE); o->cls = c; o->s = us(m); pending = o; }
  void pre(const char * name) { calls++; if (pending) bad("call-with-pending-exception", name); }
  // calls from Java code: enter a native method, and leave it with an optional result
  void enter(const std::string & what) { call = what; frames.emplace_back(); base = frames.size(); pending = 0; count("native-calls"); count("native-" + what); }
  VmObj * leave(jobject result = 0) { VmObj * o = 0; if (frames.size() != base) { bad("frames-unbalanced", std::to_string(frames.size()) + " local frames, expected " + std::to_string(base)); while (frames.size() > base) popFrame(); }
    if (!pinned.empty()) { bad("not-released", std::to_string(pinned.size()) + " buffers of arrays or strings are still held"); for (auto & p : pinned) free(p.first); pinned.clear(); }
    if (result) { try { o = get(result, "result"); } catch (int) { } } if (!frames.empty()) popFrame(); return o; }
  VmObj * take() { VmObj * p = pending; pending = 0; if (p) exceptions++; return p; }
  jobject arg(VmObj * o) { return local(o); }
  VmObj * str(const UnicodeString & u) { VmObj * o = make(VmObj::STRING); o->s = u; return o; }
  void collect(const std::vector<VmObj *> & roots) { std::set<VmObj *> keep; std::vector<VmObj *> todo(roots); for (auto & c : classes) todo.push_back(c.second); for (auto * r : refs) todo.push_back(r->o); while (!todo.empty()) { VmObj * o = todo.back(); todo.pop_back(); if (!o || !keep.insert(o).second) continue; for (auto * x : o->objs) todo.push_back(x); }
    for (auto i = heap.begin(); i != heap.end(); ) if (keep.count(*i)) ++i; else { delete *i; i = heap.erase(i); } }
  FakeVm();
};
static inline FakeVm & V() { return FakeVm::g(); }
namespace jn {
template<class T> std::vector<T> & vec(VmObj * o); template<> inline std::vector<jint> & vec(VmObj * o) { return o->i; } template<> inline std::vector<jbyte> & vec(VmObj * o) { return o->b; } template<> inline std::vector<jshort> & vec(VmObj * o) { return o->h; } template<> inline std::vector<jlong> & vec(VmObj * o) { return o->l; }
template<class T> VmObj::K kindOfArr(); template<> inline VmObj::K kindOfArr<jint>() { return VmObj::INTS; } template<> inline VmObj::K kindOfArr<jbyte>() { return VmObj::BYTES; } template<> inline VmObj::K kindOfArr<jshort>() { return VmObj::SHORTS; } template<> inline VmObj::K kindOfArr<jlong>() { return VmObj::LONGS; }
template<class T> VmObj * arrOf(jobject a, const char * w) { VmObj * o = V().get(a, w); if (o->kind != kindOfArr<T>()) { V().bad("wrong-array-kind", w); throw 1; } return o; }
template<class T> T * pin(VmObj * o, const std::vector<T> & v, jboolean * c) { T * p = (T *) malloc(v.size() * sizeof(T) + (v.empty() ? 1 : 0)); if (v.size()) memcpy(p, v.data(), v.size() * sizeof(T)); V().pinned[p] = o; if (c) *c = JNI_TRUE; return p; }
inline void unpin(void * p, VmObj * o, bool freeIt, const char * w) { auto i = V().pinned.find(p); if (i == V().pinned.end() || i->second != o) { V().bad("release-of-unknown-buffer", w); return; } if (freeIt) { free(p); V().pinned.erase(i); } }
template<class T, class A> A JNICALL newArr(JNIEnv *, jsize n) { V().pre("New<T>Array"); if (n < 0) { V().raise("java/lang/NegativeArraySizeException", std::to_string(n)); return 0; } VmObj * o = V().make(kindOfArr<T>()); vec<T>(o).resize(n); return (A) V().local(o); }
template<class T, class A> T * JNICALL getEl(JNIEnv *, A a, jboolean * c) { V().pre("Get<T>ArrayElements"); VmObj * o = arrOf<T>(a, "Get<T>ArrayElements"); return pin<T>(o, vec<T>(o), c); }
template<class T, class A> void JNICALL relEl(JNIEnv *, A a, T * p, jint mode) { V().calls++; VmObj * o = arrOf<T>(a, "Release<T>ArrayElements"); if (mode != JNI_ABORT && V().pinned.count(p)) memcpy(vec<T>(o).data(), p, vec<T>(o).size() * sizeof(T)); unpin(p, o, mode != JNI_COMMIT, "Release<T>ArrayElements"); }
template<class T> bool region(VmObj * o, jsize s, jsize n, const char * w) { if (s < 0 || n < 0 || (size_t) s + (size_t) n > vec<T>(o).size()) { V().bad("region-out-of-bounds", std::string(w) + " " + std::to_string(s) + "+" + std::to_string(n) + " of " + std::to_string(vec<T>(o).size())); V().raise("java/lang/ArrayIndexOutOfBoundsException", w); return false; } return true; }
template<class T, class A> void JNICALL getReg(JNIEnv *, A a, jsize s, jsize n, T * p) { V().pre("Get<T>ArrayRegion"); VmObj * o = arrOf<T>(a, "Get<T>ArrayRegion"); if (region<T>(o, s, n, "Get<T>ArrayRegion") && n) memcpy(p, vec<T>(o).data() + s, n * sizeof(T)); }
template<class T, class A> void JNICALL setReg(JNIEnv *, A a, jsize s, jsize n, const T * p) { V().pre("Set<T>ArrayRegion"); VmObj * o = arrOf<T>(a, "Set<T>ArrayRegion"); if (region<T>(o, s, n, "Set<T>ArrayRegion")) for (jsize k = 0; k < n; ++k) vec<T>(o)[s + k] = p[k]; }
inline void * JNICALL critGet(JNIEnv * e, jarray a, jboolean * c) { VmObj * o = V().get(a, "GetPrimitiveArrayCritical"); switch (o->kind) { case VmObj::INTS: return pin(o, o->i, c); case VmObj::BYTES: return pin(o, o->b, c); case VmObj::SHORTS: return pin(o, o->h, c); default: return pin(o, o->l, c); } }
inline void JNICALL critRel(JNIEnv * e, jarray a, void * p, jint mode) { VmObj * o = V().get(a, "ReleasePrimitiveArrayCritical"); switch (o->kind) { case VmObj::INTS: relEl<jint, jarray>(e, a, (jint *) p, mode); break; case VmObj::BYTES: relEl<jbyte, jarray>(e, a, (jbyte *) p, mode); break; case VmObj::SHORTS: relEl<jshort, jarray>(e, a, (jshort *) p, mode); break; default: relEl<jlong, jarray>(e, a, (jlong *) p, mode); } }
inline jint JNICALL version(JNIEnv *) { return JNI_VERSION_1_8; }
inline jclass JNICALL findClass(JNIEnv *, const char * n) { V().pre("FindClass"); static const std::set<std::string> known = { "java/lang/String", "java/lang/Integer", "java/lang/Object", "org/apache/uima/uimacpp/InternalTafException", "org/apache/uima/uimacpp/UimacppEngine", "org/apache/uima/uimacpp/UimacppAnalysisComponent" };
  if (!known.count(n)) { V().bad("unknown-class", n); V().raise("java/lang/NoClassDefFoundError", n); return 0; } return (jclass) V().local(V().cls(n)); }
inline jclass JNICALL objClass(JNIEnv *, jobject o) { V().pre("GetObjectClass"); VmObj * x = V().get(o, "GetObjectClass"); return (jclass) V().local(V().cls(x->cls)); }
inline void * member(jclass c, const char * n, const char * s, bool st, bool ok) { VmObj * x = V().get(c, "class"); if (!ok) { V().bad("unknown-member", x->cls + "." + n + " " + s); V().raise("java/lang/NoSuchFieldError", n); return 0; } VmMember * m = new VmMember{ x->cls, n, s, st }; V().members.insert(m); return m; }
inline jfieldID JNICALL fieldId(JNIEnv *, jclass c, const char * n, const char * s) { V().pre("GetFieldID"); return (jfieldID) member(c, n, s, false, V().get(c, "class")->cls == "org/apache/uima/uimacpp/UimacppEngine" && !strcmp(n, "cppEnginePointer") && !strcmp(s, "J")); }
inline jmethodID JNICALL methodId(JNIEnv *, jclass c, const char * n, const char * s) { V().pre("GetMethodID"); std::string k = V().get(c, "class")->cls; return (jmethodID) member(c, n, s, false, !strcmp(n, "<init>") && ((k == "java/lang/Integer" && !strcmp(s, "(I)V")) || (k == "org/apache/uima/uimacpp/InternalTafException" && !strcmp(s, "(Ljava/lang/String;J)V")))); }
inline jmethodID JNICALL smethodId(JNIEnv *, jclass c, const char * n, const char * s) { V().pre("GetStaticMethodID"); std::string k = V().get(c, "class")->cls; return (jmethodID) member(c, n, s, true, (k == "org/apache/uima/uimacpp/UimacppAnalysisComponent" && ((!strcmp(n, "getLoggingLevel") && !strcmp(s, "()I")) || (!strcmp(n, "log") && !strcmp(s, "(ILjava/lang/String;Ljava/lang/String;Ljava/lang/String;)V")))) || (k == "java/lang/Integer" && !strcmp(n, "valueOf") && !strcmp(s, "(I)Ljava/lang/Integer;"))); }
inline VmMember * mem(void * id) { if (!V().members.count((VmMember *) id)) { V().bad("unknown-member-id", "?"); throw 1; } return (VmMember *) id; }
inline jlong JNICALL getLong(JNIEnv *, jobject o, jfieldID f) { V().pre("GetLongField"); return V().get(o, "GetLongField")->fields[mem(f)->name]; }
inline void JNICALL setLong(JNIEnv *, jobject o, jfieldID f, jlong v) { V().pre("SetLongField"); V().get(o, "SetLongField")->fields[mem(f)->name] = v; }
inline jobject JNICALL newObjA(JNIEnv *, jclass c, jmethodID m, const jvalue * a) { V().pre("NewObject"); std::string k = V().get(c, "NewObject")->cls; mem(m); VmObj * o;
  if (k == "java/lang/Integer") { o = V().make(VmObj::PLAIN); o->cls = k; o->code = a[0].i; } else { o = V().make(VmObj::THROWABLE); o->cls = k; VmObj * t = V().get(a[0].l, "message", true); if (t) o->s = t->s; else o->fields["null-message"] = 1; o->code = a[1].j; } return V().local(o); }
inline jobject JNICALL newObjV(JNIEnv * e, jclass c, jmethodID m, va_list ap) { jvalue a[2]; if (mem(m)->sig == "(I)V") a[0].i = va_arg(ap, jint); else { a[0].l = va_arg(ap, jobject); a[1].j = va_arg(ap, jlong); } return newObjA(e, c, m, a); }
inline jobject JNICALL newObj(JNIEnv * e, jclass c, jmethodID m, ...) { va_list ap; va_start(ap, m); jobject o = newObjV(e, c, m, ap); va_end(ap); return o; }
inline jint JNICALL sIntA(JNIEnv *, jclass c, jmethodID m, const jvalue *) { V().pre("CallStaticIntMethod"); V().get(c, "class"); mem(m); return V().logLevel; }
inline jint JNICALL sIntV(JNIEnv * e, jclass c, jmethodID m, va_list) { return sIntA(e, c, m, 0); }
inline jint JNICALL sInt(JNIEnv * e, jclass c, jmethodID m, ...) { return sIntA(e, c, m, 0); }
inline void JNICALL sVoidA(JNIEnv *, jclass c, jmethodID m, const jvalue * a) { V().pre("CallStaticVoidMethod"); V().get(c, "class"); if (mem(m)->name != "log") { V().bad("unexpected-call", mem(m)->name); return; } VmLog l; l.level = a[0].i; auto t = [&](jobject o) { VmObj * x = V().get(o, "log argument", true); return x ? x->s : UnicodeString(); }; l.cls = utf8(t(a[1].l)); l.method = utf8(t(a[2].l)); l.msg = t(a[3].l); V().logs.push_back(l); if (V().logThrows) V().raise("java/lang/RuntimeException", "logger"); }
inline void JNICALL sVoidV(JNIEnv * e, jclass c, jmethodID m, va_list ap) { jvalue a[4]; a[0].i = va_arg(ap, jint); for (int k = 1; k < 4; ++k) a[k].l = va_arg(ap, jobject); sVoidA(e, c, m, a); }
inline void JNICALL sVoid(JNIEnv * e, jclass c, jmethodID m, ...) { va_list ap; va_start(ap, m); sVoidV(e, c, m, ap); va_end(ap); }
inline jobject JNICALL sObjV(JNIEnv *, jclass c, jmethodID m, va_list ap) { V().pre("CallStaticObjectMethod"); V().get(c, "class"); mem(m); VmObj * o = V().make(VmObj::PLAIN); o->cls = "java/lang/Integer"; o->code = va_arg(ap, jint); return V().local(o); }
inline jobject JNICALL sObj(JNIEnv * e, jclass c, jmethodID m, ...) { va_list ap; va_start(ap, m); jobject o = sObjV(e, c, m, ap); va_end(ap); return o; }
inline jint JNICALL doThrow(JNIEnv *, jthrowable t) { V().pre("Throw"); VmObj * o = V().get(t, "Throw"); if (o->kind != VmObj::THROWABLE) V().bad("throws-no-throwable", o->cls); V().pending = o; return 0; }
inline jint JNICALL throwNew(JNIEnv *, jclass c, const char * m) { V().pre("ThrowNew"); V().raise(V().get(c, "ThrowNew")->cls, m ? m : ""); return 0; }
inline jthrowable JNICALL excOcc(JNIEnv *) { V().calls++; return (jthrowable) V().local(V().pending); }
inline jboolean JNICALL excCheck(JNIEnv *) { V().calls++; return V().pending != 0; }
inline void JNICALL excDesc(JNIEnv *) { V().calls++; V().pending = 0; }
inline void JNICALL excClear(JNIEnv *) { V().calls++; V().pending = 0; }
inline jint JNICALL pushFrame(JNIEnv *, jint n) { V().calls++; if (n < 0) { V().bad("negative-frame", std::to_string(n)); return -1; } V().frames.emplace_back(); return 0; }
inline jobject JNICALL popFrame(JNIEnv *, jobject r) { V().calls++; VmObj * o = r ? V().get(r, "PopLocalFrame") : 0; if (V().frames.size() <= V().base) { V().bad("frames-unbalanced", "PopLocalFrame without PushLocalFrame"); return 0; } V().popFrame(); return V().local(o); }
inline jint JNICALL ensureCap(JNIEnv *, jint) { return 0; }
inline jobject JNICALL newGlobal(JNIEnv *, jobject o) { V().calls++; VmObj * x = V().get(o, "NewGlobalRef", true); if (!x) return 0; VmRef * r = new VmRef{ x, true }; V().refs.insert(r); count("global-refs"); return (jobject) r; }
inline void JNICALL delGlobal(JNIEnv *, jobject o) { if (o) { V().get(o, "DeleteGlobalRef"); V().drop((VmRef *) o); count("global-refs", -1); } }
inline jobject JNICALL newLocal(JNIEnv *, jobject o) { return V().local(V().get(o, "NewLocalRef", true)); }
inline void JNICALL delLocal(JNIEnv *, jobject o) { V().calls++; if (o) { V().get(o, "DeleteLocalRef"); for (auto & f : V().frames) f.erase(std::remove(f.begin(), f.end(), (VmRef *) o), f.end()); V().drop((VmRef *) o); } }
inline jboolean JNICALL same(JNIEnv *, jobject a, jobject b) { return V().get(a, "IsSameObject", true) == V().get(b, "IsSameObject", true); }
inline jstring JNICALL newString(JNIEnv *, const jchar * p, jsize n) { V().pre("NewString"); if (n < 0) { V().bad("negative-length", "NewString"); return 0; } VmObj * o = V().make(VmObj::STRING); if (!p && n) { V().bad("null-argument", "NewString"); return (jstring) V().local(o); } o->s = UnicodeString((const UChar *) p, n); return (jstring) V().local(o); }
inline jstring JNICALL newUtf(JNIEnv *, const char * p) { V().pre("NewStringUTF"); if (!p) { V().bad("null-argument", "NewStringUTF"); return 0; } VmObj * o = V().make(VmObj::STRING); o->s = us(p); return (jstring) V().local(o); }
inline VmObj * strOf(jobject o, const char * w) { VmObj * x = V().get(o, w); if (x->kind != VmObj::STRING) { V().bad("not-a-string", w); throw 1; } return x; }
inline jsize JNICALL strLen(JNIEnv *, jstring s) { V().pre("GetStringLength"); return strOf(s, "GetStringLength")->s.length(); }
inline const jchar * JNICALL strChars(JNIEnv *, jstring s, jboolean * c) { V().pre("GetStringChars"); VmObj * o = strOf(s, "GetStringChars"); std::vector<jchar> v; for (int k = 0; k < o->s.length(); ++k) v.push_back(o->s[k]); return pin<jchar>(o, v, c); }
inline void JNICALL strRel(JNIEnv *, jstring s, const jchar * p) { V().calls++; unpin((void *) p, strOf(s, "ReleaseStringChars"), true, "ReleaseStringChars"); }
inline jsize JNICALL utfLen(JNIEnv *, jstring s) { V().pre("GetStringUTFLength"); return utf8(strOf(s, "GetStringUTFLength")->s).size(); }
inline const char * JNICALL utfChars(JNIEnv *, jstring s, jboolean * c) { V().pre("GetStringUTFChars"); VmObj * o = strOf(s, "GetStringUTFChars"); std::string x = utf8(o->s); std::vector<char> v(x.begin(), x.end()); v.push_back(0); return pin<char>(o, v, c); }
inline void JNICALL utfRel(JNIEnv *, jstring s, const char * p) { V().calls++; unpin((void *) p, strOf(s, "ReleaseStringUTFChars"), true, "ReleaseStringUTFChars"); }
inline void JNICALL strRegion(JNIEnv *, jstring s, jsize b, jsize n, jchar * p) { V().pre("GetStringRegion"); VmObj * o = strOf(s, "GetStringRegion"); if (b < 0 || n < 0 || b + n > o->s.length()) { V().bad("region-out-of-bounds", "GetStringRegion"); return; } for (int k = 0; k < n; ++k) p[k] = o->s[b + k]; }
inline jsize JNICALL arrLen(JNIEnv *, jarray a) { V().pre("GetArrayLength"); return V().get(a, "GetArrayLength")->len(); }
inline jobjectArray JNICALL newObjs(JNIEnv *, jsize n, jclass c, jobject init) { V().pre("NewObjectArray"); V().get(c, "NewObjectArray"); VmObj * o = V().make(VmObj::OBJS); o->objs.assign(n, V().get(init, "NewObjectArray", true)); return (jobjectArray) V().local(o); }
inline bool inObjs(VmObj * o, jsize i, const char * w) { if (o->kind != VmObj::OBJS || i < 0 || (size_t) i >= o->objs.size()) { V().bad("region-out-of-bounds", w); V().raise("java/lang/ArrayIndexOutOfBoundsException", w); return false; } return true; }
inline jobject JNICALL getObj(JNIEnv *, jobjectArray a, jsize i) { V().pre("GetObjectArrayElement"); VmObj * o = V().get(a, "GetObjectArrayElement"); return inObjs(o, i, "GetObjectArrayElement") ? V().local(o->objs[i]) : 0; }
inline void JNICALL setObj(JNIEnv *, jobjectArray a, jsize i, jobject v) { V().pre("SetObjectArrayElement"); VmObj * o = V().get(a, "SetObjectArrayElement"); VmObj * x = V().get(v, "SetObjectArrayElement", true); if (inObjs(o, i, "SetObjectArrayElement")) o->objs[i] = x; }
inline jint JNICALL getVm(JNIEnv *, JavaVM ** v) { *v = &V().vm; return 0; }
inline jint JNICALL attach(JavaVM *, void ** e, void *) { *e = &V().env; return 0; }
inline jint JNICALL detach(JavaVM *) { count("detach-of-a-java-thread-refused"); return JNI_ERR; }
inline jint JNICALL getEnv(JavaVM *, void ** e, jint) { *e = &V().env; return 0; }
inline void unsupported() { V().bad("unsupported-function", "a JNI function the stand-in VM does not provide"); throw 1; }
}
inline FakeVm::FakeVm() {
  void ** p = (void **) &fn; for (size_t k = 0; k < sizeof fn / sizeof(void *); ++k) p[k] = (void *) &jn::unsupported; memset(&inv, 0, sizeof inv); env.functions = &fn; vm.functions = &inv;
  fn.GetVersion = jn::version; fn.FindClass = jn::findClass; fn.GetObjectClass = jn::objClass; fn.GetFieldID = jn::fieldId; fn.GetMethodID = jn::methodId; fn.GetStaticMethodID = jn::smethodId; fn.GetLongField = jn::getLong; fn.SetLongField = jn::setLong;
  fn.NewObject = jn::newObj; fn.NewObjectV = jn::newObjV; fn.NewObjectA = jn::newObjA; fn.CallStaticIntMethod = jn::sInt; fn.CallStaticIntMethodV = jn::sIntV; fn.CallStaticIntMethodA = jn::sIntA; fn.CallStaticVoidMethod = jn::sVoid; fn.CallStaticVoidMethodV = jn::sVoidV; fn.CallStaticVoidMethodA = jn::sVoidA; fn.CallStaticObjectMethod = jn::sObj; fn.CallStaticObjectMethodV = jn::sObjV;
  fn.Throw = jn::doThrow; fn.ThrowNew = jn::throwNew; fn.ExceptionOccurred = jn::excOcc; fn.ExceptionCheck = jn::excCheck; fn.ExceptionDescribe = jn::excDesc; fn.ExceptionClear = jn::excClear; fn.PushLocalFrame = jn::pushFrame; fn.PopLocalFrame = jn::popFrame; fn.EnsureLocalCapacity = jn::ensureCap; fn.NewGlobalRef = jn::newGlobal; fn.DeleteGlobalRef = jn::delGlobal; fn.NewLocalRef = jn::newLocal; fn.DeleteLocalRef = jn::delLocal; fn.IsSameObject = jn::same;
  fn.NewString = jn::newString; fn.NewStringUTF = jn::newUtf; fn.GetStringLength = jn::strLen; fn.GetStringChars = jn::strChars; fn.ReleaseStringChars = jn::strRel; fn.GetStringCritical = jn::strChars; fn.ReleaseStringCritical = jn::strRel; fn.GetStringUTFLength = jn::utfLen; fn.GetStringUTFChars = jn::utfChars; fn.ReleaseStringUTFChars = jn::utfRel; fn.GetStringRegion = jn::strRegion;
  fn.GetArrayLength = jn::arrLen; fn.NewObjectArray = jn::newObjs; fn.GetObjectArrayElement = jn::getObj; fn.SetObjectArrayElement = jn::setObj; fn.GetPrimitiveArrayCritical = jn::critGet; fn.ReleasePrimitiveArrayCritical = jn::critRel; fn.GetJavaVM = jn::getVm; inv.AttachCurrentThread = jn::attach; inv.DetachCurrentThread = jn::detach; inv.GetEnv = jn::getEnv; inv.AttachCurrentThreadAsDaemon = jn::attach;
#define VP_ARR(N, T) fn.New##N##Array = jn::newArr<T, T##Array>; fn.Get##N##ArrayElements = jn::getEl<T, T##Array>; fn.Release##N##ArrayElements = jn::relEl<T, T##Array>; fn.Get##N##ArrayRegion = jn::getReg<T, T##Array>; fn.Set##N##ArrayRegion = jn::setReg<T, T##Array>;
  VP_ARR(Int, jint) VP_ARR(Byte, jbyte) VP_ARR(Short, jshort) VP_ARR(Long, jlong)
}
}
