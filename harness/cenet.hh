// A bare constraint engine with the constraint library, for the harnesses.
#ifndef VERIF_CENET_HH
#define VERIF_CENET_HH
#include "pbt.hh"
#include "ConstrainedVariable.hh"
#include "Constraint.hh"
#include "ConstraintEngine.hh"
#include "ConstraintEngineListener.hh"
#include "ConstraintType.hh"
#include "Constraints.hh"
#include "CESchema.hh"
#include "DataTypes.hh"
#include "Domains.hh"
#include "Engine.hh"
#include "LabelStr.hh"
#include "ModuleConstraintEngine.hh"
#include "Variable.hh"
#include <exception>
#include <memory>
struct CeEngine : EUROPA::EngineBase {
  EUROPA::ConstraintEngine* ce;
  CeEngine() {
    addModule((new EUROPA::ModuleConstraintEngine())->getId());
    addModule((new EUROPA::ModuleConstraintLibrary())->getId());
    doStart();
    ce = dynamic_cast<EUROPA::ConstraintEngine*>(getComponent("ConstraintEngine"));
  }
  ~CeEngine() { if (!std::uncaught_exceptions()) doShutdown(); }  // an escaping error leaves the engine in no fit state
};
inline EUROPA::ConstrainedVariableId newVar(EUROPA::ConstraintEngine* ce, const EUROPA::Domain& d, const std::string& name) {
  using namespace EUROPA;
  if (dynamic_cast<const BoolDomain*>(&d)) return (new Variable<BoolDomain>(ce->getId(), d, false, true, name))->getId();
  if (dynamic_cast<const IntervalIntDomain*>(&d)) return (new Variable<IntervalIntDomain>(ce->getId(), d, false, true, name))->getId();
  if (dynamic_cast<const IntervalDomain*>(&d)) return (new Variable<IntervalDomain>(ce->getId(), d, false, true, name))->getId();
  if (dynamic_cast<const NumericDomain*>(&d)) return (new Variable<NumericDomain>(ce->getId(), d, false, true, name))->getId();
  if (dynamic_cast<const StringDomain*>(&d)) return (new Variable<StringDomain>(ce->getId(), d, false, true, name))->getId();
  if (dynamic_cast<const SymbolDomain*>(&d)) return (new Variable<SymbolDomain>(ce->getId(), d, false, true, name))->getId();
  return (new Variable<EnumeratedDomain>(ce->getId(), d, false, true, name))->getId();
}
#endif
