// Small helper for the demonstrations: a CAS for a type system and index description given as XML.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <memory>
#include <iostream>
#include <sstream>
#include <fstream>
#include <unistd.h>
#include "uima/api.hpp"
#include "uima/internal_casimpl.hpp"
#include "uima/internal_fspromoter.hpp"
#include "uima/casdefinition.hpp"
#include "uima/taespecifierbuilder.hpp"
#include "uima/resmgr.hpp"
#include <xercesc/framework/MemBufInputSource.hpp>
using namespace uima;
static icu::UnicodeString U(const std::string & s) { return icu::UnicodeString::fromUTF8(s); }
static std::string S(const icu::UnicodeString & s) { std::string o; s.toUTF8String(o); return o; }
static std::string S(const UnicodeStringRef & r) { return S(icu::UnicodeString(r.getBuffer(), r.length())); }
static int failures = 0;
#define EXPECT(c) do { if (!(c)) { ++failures; printf("line %d: expected %s\n", __LINE__, #c); } } while (0)
inline std::string type(const std::string & n, const std::string & sup, const std::string & feats = "") { // feats: "f:range f2:range"
  std::string x = "<typeDescription><name>" + n + "</name><description/><supertypeName>" + sup + "</supertypeName><features>"; std::istringstream is(feats); std::string w;
  while (is >> w) { size_t p = w.find(':'); std::string r = w.substr(p + 1); bool m = r[0] == '*'; if (m) r = r.substr(1); x += "<featureDescription><name>" + w.substr(0, p) + "</name><description/><rangeTypeName>" + r + "</rangeTypeName>" + (m ? "<multipleReferencesAllowed>true</multipleReferencesAllowed>" : "") + "</featureDescription>"; }
  return x + "</features></typeDescription>"; }
inline std::string fsindex(const std::string & label, const std::string & t, const std::string & kind, const std::string & keys) { // keys: "f -g ^" (- reverse, ^ type priority)
  std::string x = "<fsIndexDescription><label>" + label + "</label><typeName>" + t + "</typeName><kind>" + kind + "</kind><keys>"; std::istringstream is(keys); std::string w;
  while (is >> w) { if (w == "^") x += "<fsIndexKey><typePriority/></fsIndexKey>"; else { bool r = w[0] == '-'; x += "<fsIndexKey><featureName>" + (r ? w.substr(1) : w) + "</featureName><comparator>" + (r ? "reverse" : "standard") + "</comparator></fsIndexKey>"; } }
  return x + "</keys></fsIndexDescription>"; }
inline std::string aeXml(const std::string & types, const std::string & indexes = "", const std::string & prios = "", const std::string & impl = "dummy") {
  return "<?xml version=\"1.0\" encoding=\"UTF-8\"?><taeDescription xmlns=\"http://uima.apache.org/resourceSpecifier\"><frameworkImplementation>org.apache.uima.cpp</frameworkImplementation><primitive>true</primitive><annotatorImplementationName>" + impl +
    "</annotatorImplementationName><analysisEngineMetaData><name>demo</name><description/><version>1</version><vendor/><configurationParameters/><configurationParameterSettings/><typeSystemDescription><types>" + types + "</types></typeSystemDescription>" + prios +
    (indexes.empty() ? "" : "<fsIndexes>" + indexes + "</fsIndexes>") + "<capabilities><capability><inputs/><outputs/><languagesSupported/></capability></capabilities></analysisEngineMetaData></taeDescription>"; }
struct Demo {
  std::unique_ptr<AnalysisEngineDescription> desc; std::unique_ptr<internal::CASDefinition> def; TypeSystem * ts = 0;
  explicit Demo(const std::string & x) { static ResourceManager & rm = ResourceManager::createInstance("demo"); rm.enableSchemaValidation(false); desc.reset(new AnalysisEngineDescription()); XMLParser p; xercesc::MemBufInputSource src((const XMLByte *) x.data(), x.size(), "demo"); p.parseAnalysisEngineDescription(*desc, src); desc->validate(); desc->commit(); def.reset(internal::CASDefinition::createCASDefinition(*desc)); ts = &def->getTypeSystem(); }
  CAS * cas() { ErrorInfo e; CAS * c = Framework::createCAS(*def, e); if (!c) { printf("no CAS\n"); exit(9); } return c; }
  Type t(const std::string & n) { return ts->getType(U(n)); }
  Feature f(const std::string & tn, const std::string & n) { return t(tn).getFeatureByBaseName(U(n)); }
};
template<class F> std::string tried(F f) { try { f(); return "ok"; } catch (Exception & e) { return "uima"; } catch (std::exception & e) { return std::string("std ") + e.what(); } catch (...) { return "other"; } }
// demonstrations with annotators: the part of demo.cpp within #ifdef ANN becomes ann.so; both sides share the file "notes"
inline void note(const std::string & l) { std::ofstream o("notes", std::ios::app); o << l << "\n"; }
inline std::vector<std::string> notes() { std::vector<std::string> v; std::ifstream i("notes"); std::string l; while (std::getline(i, l)) v.push_back(l); return v; }
inline std::string ann() { char b[4096]; return std::string(getcwd(b, sizeof b)) + "/ann.so"; }
#define NSRS " xmlns=\"http://uima.apache.org/resourceSpecifier\""
inline std::string params(const std::string & declarations, const std::string & settings) { return "<configurationParameters>" + declarations + "</configurationParameters><configurationParameterSettings>" + settings + "</configurationParameterSettings>"; }
inline std::string param(const std::string & n, const std::string & restrictTo = "") { return "<configurationParameter><name>" + n + "</name><type>String</type><multiValued>false</multiValued><mandatory>false</mandatory>" + (restrictTo.empty() ? "" : "<restrictOverrideTo>" + restrictTo + "</restrictOverrideTo>") + "</configurationParameter>"; }
inline std::string value(const std::string & n, const std::string & v) { return "<nameValuePair><name>" + n + "</name><value><string>" + v + "</string></value></nameValuePair>"; }
inline std::string NOCAPS() { return "<capability><inputs/><outputs/><languagesSupported/></capability>"; }
inline std::string meta(const std::string & name, const std::string & par, const std::string & types, const std::string & caps, const std::string & flow = "", const std::string & more = "") { return "<analysisEngineMetaData><name>" + name + "</name><description/><version>1</version><vendor/>" + (par.empty() ? "<configurationParameters/><configurationParameterSettings/>" : par) + "<typeSystemDescription><types>" + types + "</types></typeSystemDescription>" + flow + "<capabilities>" + caps + "</capabilities>" + more + "</analysisEngineMetaData>"; }
inline std::string prim(const std::string & m) { return std::string("<taeDescription" NSRS "><frameworkImplementation>org.apache.uima.cpp</frameworkImplementation><primitive>true</primitive><annotatorImplementationName>") + ann() + "</annotatorImplementationName>" + m + "</taeDescription>"; }
inline std::string agg(const std::vector<std::pair<std::string, std::string> > & dels, const std::string & m, const std::string & sofaMappings = "") { std::string x = "<taeDescription" NSRS "><frameworkImplementation>org.apache.uima.cpp</frameworkImplementation><primitive>false</primitive><delegateAnalysisEngineSpecifiers>"; for (auto & d : dels) x += "<delegateAnalysisEngine key=\"" + d.first + "\">" + d.second + "</delegateAnalysisEngine>"; return x + "</delegateAnalysisEngineSpecifiers>" + m + (sofaMappings.empty() ? "" : "<sofaMappings>" + sofaMappings + "</sofaMappings>") + "</taeDescription>"; }
inline std::string flow(const std::string & nodes) { std::string x = "<flowConstraints><fixedFlow>"; std::istringstream is(nodes); std::string w; while (is >> w) x += "<node>" + w + "</node>"; return x + "</fixedFlow></flowConstraints>"; }
inline std::string mapping(const std::string & key, const std::string & comp, const std::string & ag) { return "<sofaMapping><componentKey>" + key + "</componentKey>" + (comp.empty() ? "" : "<componentSofaName>" + comp + "</componentSofaName>") + "<aggregateSofaName>" + ag + "</aggregateSofaName></sofaMapping>"; }
inline std::unique_ptr<AnalysisEngineDescription> describe(const std::string & x) { static ResourceManager & rm = ResourceManager::createInstance("demo"); rm.enableSchemaValidation(false); std::unique_ptr<AnalysisEngineDescription> d(new AnalysisEngineDescription()); XMLParser p; xercesc::MemBufInputSource src((const XMLByte *) x.data(), x.size(), "demo"); p.parseAnalysisEngineDescription(*d, src); d->validate(); d->commit(); return d; }
inline AnalysisEngine * engine(AnalysisEngineDescription & d) { ErrorInfo e; AnalysisEngine * a = Framework::createAnalysisEngine(d, e); if (!a) { std::cout << "no engine: " << e.asString() << std::endl; _exit(9); } return a; }
inline int result() { printf(failures ? "FAILED (%d)\n" : "passed\n", failures); fflush(stdout); _exit(failures ? 1 : 0); }
