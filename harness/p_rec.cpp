// Annotator of the command-line monitor: writes one line per callback to the file named by VP_REC_LOG; the document text chooses its behaviour.
#include "uima/api.hpp"
#include "uima/xmiwriter.hpp"
#include <fcntl.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <sstream>
using namespace uima;
static unsigned long long h64(const std::string & s) { unsigned long long h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }
static void line(const std::string & s) { const char * p = getenv("VP_REC_LOG"); if (!p) return; int fd = open(p, O_WRONLY | O_CREAT | O_APPEND, 0644); if (fd < 0) return; std::string t = s + "\n"; if (write(fd, t.data(), t.size())) {} close(fd); }
static void fail(int how, int code, const char * where) {
  if (how == 1) { UIMA_EXC_THROW_NEW(ExcInvalidRequest, code ? code : 4711, ErrorMessage(UIMA_MSG_ID_LITERAL_STRING, "scripted"), ErrorMessage(UIMA_MSG_ID_LITERAL_STRING, where), ErrorInfo::recoverable); }
  if (how == 2) throw std::runtime_error("scripted"); if (how == 3) throw 42; }
static int env(const char * n) { const char * p = getenv(n); return p ? atoi(p) : 0; }
class RecAnnotator : public Annotator {
  AnnotatorContext * ctx = 0; int segs = 0, nseg = 0; icu::UnicodeString text;
public:
  TyErrorId initialize(AnnotatorContext & c) override { ctx = &c; line("I"); fail(env("VP_REC_INIT_HOW"), env("VP_REC_CODE"), "initialize"); return env("VP_REC_INIT_HOW") == 4 ? env("VP_REC_CODE") : 0; }
  TyErrorId process(CAS & c, ResultSpecification const &) override {
    std::ostringstream x; { XmiWriter w(c, false); w.write(x); } bool base = c.getBaseCas() == &c; std::string vn = "-"; UnicodeStringRef t; if (!base) { t = c.getDocumentText(); icu::UnicodeString n(c.getViewName().getBuffer(), c.getViewName().length()); vn.clear(); n.toUTF8String(vn); }
    text = icu::UnicodeString(t.getBuffer(), t.getBuffer() ? t.length() : 0); std::ostringstream o; o << "P " << vn << " " << text.length() << " " << h64(x.str()); line(o.str()); segs = nseg = 0;
    auto has = [&](const char * k) { return text.indexOf(icu::UnicodeString(k)) >= 0; };
    if (has("@FAIL")) fail(1, 0, "process"); if (has("@STD")) fail(2, 0, "process"); if (has("@INT")) fail(3, 0, "process"); if (has("@RC")) return 77; int i = text.indexOf(icu::UnicodeString("@SEG")); if (i >= 0 && i + 4 < text.length()) segs = text[i + 4] - '0';
    if (!base && t.getBuffer()) for (int k = 0; k < text.length() && k < 400; ++k) if (text[k] == 'e') { AnnotationFS a = c.createAnnotation(c.getTypeSystem().getType(CAS::TYPE_NAME_ANNOTATION), k, k + 1); c.getIndexRepository().addFS(a); }
    return 0; }
  bool hasNext() override { return nseg < segs; }
  CAS & next() override { CAS & c = ctx->getEmptyCAS(); icu::UnicodeString t("segment "); t.append((UChar) ('0' + nseg)).append(text); ++nseg; c.setDocumentText(UnicodeStringRef(t)); return c; }
  int getCasInstancesRequired() override { return 2; }
  TyErrorId collectionProcessComplete() override { line("C"); fail(env("VP_REC_END_HOW"), env("VP_REC_CODE"), "collectionProcessComplete"); return env("VP_REC_END_HOW") == 4 ? env("VP_REC_CODE") : 0; }
  TyErrorId destroy() override { line("D"); fail(env("VP_REC_DESTROY_HOW"), env("VP_REC_CODE"), "destroy"); return env("VP_REC_DESTROY_HOW") == 4 ? env("VP_REC_CODE") : 0; }
};
MAKE_AE(RecAnnotator)
