#pragma once
// Interface between the plug-in trace.so and a harness: the plug-in's annotator forwards every callback to the installed hook.
#include "uima/api.hpp"
namespace vp {
struct AnnHook {
  virtual ~AnnHook() {}
  virtual void created(uima::Annotator *) {}
  virtual void deleted(uima::Annotator *) {}
  virtual uima::TyErrorId initialize(uima::Annotator *, uima::AnnotatorContext &) { return 0; }
  virtual uima::TyErrorId typeSystemInit(uima::Annotator *, uima::TypeSystem const &) { return 0; }
  virtual uima::TyErrorId reconfigure(uima::Annotator *) { return 0; }
  virtual uima::TyErrorId process(uima::Annotator *, uima::CAS &, uima::ResultSpecification const &) { return 0; }
  virtual uima::TyErrorId batch(uima::Annotator *) { return 0; }
  virtual uima::TyErrorId collection(uima::Annotator *) { return 0; }
  virtual uima::TyErrorId destroy(uima::Annotator *) { return 0; }
  virtual bool hasNext(uima::Annotator *) { return false; }
  virtual uima::CAS & next(uima::Annotator *) { throw 1; }
  virtual int casInstances(uima::Annotator *) { return 0; }
};
typedef void (*SetHook)(AnnHook *);
}
