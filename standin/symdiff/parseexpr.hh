#ifndef VERIF_PARSEEXPR_HH
#define VERIF_PARSEEXPR_HH
#include "EngineAPI.hh"
#include <list>
#include <string>
namespace EvalExpr {
typedef std::list<std::string> error_t;
Eqo::EqObjPtr evaluateExpression(const std::string &, error_t &);
}
#endif
