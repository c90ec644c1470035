// An engine with every module a modelling-language program needs, and helpers.
#ifndef VERIF_NDDLENV_HH
#define VERIF_NDDLENV_HH
#include "pbt.hh"
#include "Engine.hh"
#include "ModuleConstraintEngine.hh"
#include "ModulePlanDatabase.hh"
#include "ModuleRulesEngine.hh"
#include "ModuleTemporalNetwork.hh"
#include "ModuleSolvers.hh"
#include "ModuleResource.hh"
#include "ModuleNddl.hh"
#include "NddlInterpreter.hh"
#include "ConstraintEngine.hh"
#include "CESchema.hh"
#include "PlanDatabase.hh"
#include "DbClient.hh"
#include "Schema.hh"
#include "Object.hh"
#include "Timeline.hh"
#include "Token.hh"
#include "TokenVariable.hh"
#include "ConstrainedVariable.hh"
#include "Constraint.hh"
#include "Domains.hh"
#include "RulesEngine.hh"
#include "RuleInstance.hh"
#include "Error.hh"
#include <boost/cast.hpp>
#include <algorithm>
#include <cstdlib>
#include <set>
namespace nddl {
using namespace EUROPA;
struct Env : EngineBase {
  explicit Env(bool solvers = false, bool resources = false) {
    const char* r = getenv("EUROPA_REPO");
    setenv("EUROPA_NDDL", (std::string(r ? r : "/repo") + "/src/PLASMA").c_str(), 1);
    Error::doThrowExceptions();
    addModule((new ModuleConstraintEngine())->getId());
    addModule((new ModuleConstraintLibrary())->getId());
    addModule((new ModulePlanDatabase())->getId());
    addModule((new ModuleRulesEngine())->getId());
    addModule((new ModuleTemporalNetwork())->getId());
    if (solvers) addModule((new ModuleSolvers())->getId());
    if (resources) addModule((new ModuleResource())->getId());
    addModule((new ModuleNddl())->getId());
    doStart();
  }
  ~Env() { doShutdown(); }
  Schema& schema() { return *boost::polymorphic_cast<Schema*>(getComponent("Schema")); }
  ConstraintEngine& ce() { return *boost::polymorphic_cast<ConstraintEngine*>(getComponent("ConstraintEngine")); }
  PlanDatabase& db() { return *boost::polymorphic_cast<PlanDatabase*>(getComponent("PlanDatabase")); }
  RulesEngine& rules() { return *boost::polymorphic_cast<RulesEngine*>(getComponent("RulesEngine")); }
  // Runs a program; the text of the reported errors, empty when there are none.
  std::string run(const std::string& text) {
    try {
      return executeScript("nddl", text, false);
    } catch (PSLanguageExceptionList& e) {
      std::string s;
      for (int i = 0; i < e.getExceptionCount(); i++) s += e.getException(i).asString() + "\n";
      return s.empty() ? "errors" : s;
    }
  }
};
}  // namespace nddl
#endif
