// Stand-in for the SYMDIFF engine (submodule external/symdiff is empty here).
// Own implementation, written for /verif; see DESIGN.md.
#ifndef VERIF_ENGINEAPI_HH
#define VERIF_ENGINEAPI_HH
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace Eqo {
class EquationObject;
typedef std::shared_ptr<EquationObject> EqObjPtr;
}

namespace EngineAPI {
enum EqObjType {
  ADD_OBJ, BLOGICAL_OBJ, CONST_OBJ, EXPONENT_OBJ, IF_OBJ, IFELSE_OBJ, LOG_OBJ,
  MODEL_OBJ, POW_OBJ, PRODUCT_OBJ, ULOGICAL_OBJ, USERFUNC_OBJ, VARIABLE_OBJ
};
typedef bool (*ModelListCallBack_t)(const std::string &);
typedef Eqo::EqObjPtr (*DerivativeRule_t)(Eqo::EqObjPtr, Eqo::EqObjPtr);

EqObjType getEnumeratedType(Eqo::EqObjPtr);
const std::string &getStringValue(Eqo::EqObjPtr);
const std::string &getName(Eqo::EqObjPtr);
double getDoubleValue(Eqo::EqObjPtr);
std::vector<Eqo::EqObjPtr> getArgs(Eqo::EqObjPtr);
std::set<std::string> getReferencedType(Eqo::EqObjPtr, EqObjType);
Eqo::EqObjPtr con(double);
Eqo::EqObjPtr mod(const std::string &);
void SetModelListCallBack(ModelListCallBack_t);
void SetDerivativeRule(DerivativeRule_t);
void ResetAllData();
}
#endif
