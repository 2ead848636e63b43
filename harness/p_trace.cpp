// Annotator whose behaviour is supplied by the harness (see trace.hpp).
#include "trace.hpp"
using namespace uima;
static vp::AnnHook * hook = 0; static vp::AnnHook none;
static vp::AnnHook & h() { return hook ? *hook : none; }
extern "C" void vp_set_hook(vp::AnnHook * k) { hook = k; }
class TraceAnnotator : public Annotator {
public:
  TraceAnnotator() { h().created(this); }
  ~TraceAnnotator() { h().deleted(this); }
  TyErrorId initialize(AnnotatorContext & c) override { return h().initialize(this, c); }
  TyErrorId typeSystemInit(TypeSystem const & t) override { return h().typeSystemInit(this, t); }
  TyErrorId reconfigure() override { return h().reconfigure(this); }
  TyErrorId process(CAS & c, ResultSpecification const & r) override { return h().process(this, c, r); }
  TyErrorId batchProcessComplete() override { return h().batch(this); }
  TyErrorId collectionProcessComplete() override { return h().collection(this); }
  TyErrorId destroy() override { return h().destroy(this); }
  bool hasNext() override { return h().hasNext(this); }
  CAS & next() override { return h().next(this); }
  int getCasInstancesRequired() override { return h().casInstances(this); }
};
MAKE_AE(TraceAnnotator)
