// Stand-in for the SYMDIFF expression engine: parser, symbolic differentiation and the EngineAPI
// used by src/AutoEquation.  Not derived from src/adiff.  Thread use: main thread only, as in devsim.
#include "parseexpr.hh"
#include <cctype>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <stdexcept>
#include <cmath>
#include <cfenv>

using Eqo::EqObjPtr;
using EngineAPI::EqObjType;
using namespace EngineAPI;
typedef std::vector<EqObjPtr> Args;

namespace Eqo {
class EquationObject {
  public:
  EqObjType type;
  double value = 0.0;
  std::string name;   // variable, model, function or operator name
  Args args;
  std::string str;
};
}

namespace {
struct UserFunc {
  size_t nargs = 0;
  std::vector<std::string> formals;
  Args diffs;         // empty: declared only
};

struct State {
  std::map<std::string, UserFunc> funcs;
  ModelListCallBack_t inModels = nullptr;
  DerivativeRule_t rule = nullptr;
};
State &S() { static State s; return s; }

struct ParseError : std::runtime_error { using std::runtime_error::runtime_error; };

std::string num(double v)
{
  char buf[64];
  for (int p = 6; p <= 17; ++p)
  {
    snprintf(buf, sizeof buf, "%.*g", p, v);
    if (strtod(buf, nullptr) == v)
      break;
  }
  return buf;
}

std::string join(const Args &a, const char *sep)
{
  std::string r;
  for (size_t i = 0; i < a.size(); ++i)
  {
    if (i) r += sep;
    r += a[i]->str;
  }
  return r;
}

EqObjPtr make(EqObjType t, const std::string &name, const Args &args, double v = 0.0)
{
  auto o = std::make_shared<Eqo::EquationObject>();
  o->type = t; o->name = name; o->args = args; o->value = v;
  switch (t)
  {
    case CONST_OBJ: o->str = num(v); if (v < 0 || std::signbit(v)) o->str = "(" + o->str + ")"; break;
    case VARIABLE_OBJ: case MODEL_OBJ: o->str = name; break;
    case ADD_OBJ: o->str = "(" + join(args, " + ") + ")"; break;
    case PRODUCT_OBJ: o->str = "(" + join(args, " * ") + ")"; break;
    case BLOGICAL_OBJ: o->str = "(" + args[0]->str + " " + name + " " + args[1]->str + ")"; break;
    case ULOGICAL_OBJ: o->str = "(" + name + args[0]->str + ")"; break;
    default: o->str = name + "(" + join(args, ",") + ")"; break;
  }
  return o;
}

EqObjPtr C(double v) { return make(CONST_OBJ, "", {}, v); }
bool isC(const EqObjPtr &e) { return e->type == CONST_OBJ; }
bool isC(const EqObjPtr &e, double v) { return e->type == CONST_OBJ && e->value == v; }

EqObjPtr Add(const Args &in)
{
  Args out; double c = 0.0;
  for (auto &a : in)
  {
    if (a->type == ADD_OBJ)
    {
      for (auto &b : a->args) { if (isC(b)) c += b->value; else out.push_back(b); }
    }
    else if (isC(a)) c += a->value;
    else out.push_back(a);
  }
  if (c != 0.0) out.push_back(C(c));
  if (out.empty()) return C(0.0);
  if (out.size() == 1) return out[0];
  return make(ADD_OBJ, "", out);
}

EqObjPtr Mul(const Args &in)
{
  Args out; double c = 1.0;
  for (auto &a : in)
  {
    if (a->type == PRODUCT_OBJ)
    {
      for (auto &b : a->args) { if (isC(b)) c *= b->value; else out.push_back(b); }
    }
    else if (isC(a)) c *= a->value;
    else out.push_back(a);
  }
  if (c == 0.0) return C(0.0);
  if (c != 1.0) out.insert(out.begin(), C(c));
  if (out.empty()) return C(1.0);
  if (out.size() == 1) return out[0];
  return make(PRODUCT_OBJ, "", out);
}

EqObjPtr Pow(const EqObjPtr &b, const EqObjPtr &e)
{
  if (isC(e, 0.0)) return C(1.0);
  if (isC(e, 1.0)) return b;
  if (isC(b, 1.0)) return C(1.0);
  if (isC(b) && isC(e))
  {
    double r = std::pow(b->value, e->value);
    if (std::isfinite(r)) return C(r);
  }
  return make(POW_OBJ, "pow", {b, e});
}
EqObjPtr Neg(const EqObjPtr &a) { return Mul({C(-1.0), a}); }
EqObjPtr Inv(const EqObjPtr &a) { return Pow(a, C(-1.0)); }

EqObjPtr subst(const EqObjPtr &e, const std::map<std::string, EqObjPtr> &m);

EqObjPtr rebuild(const EqObjPtr &e, const Args &a)
{
  switch (e->type)
  {
    case ADD_OBJ: return Add(a);
    case PRODUCT_OBJ: return Mul(a);
    case POW_OBJ: return Pow(a[0], a[1]);
    default: return make(e->type, e->name, a, e->value);
  }
}

EqObjPtr subst(const EqObjPtr &e, const std::map<std::string, EqObjPtr> &m)
{
  if (e->type == VARIABLE_OBJ)
  {
    auto it = m.find(e->name);
    return it == m.end() ? e : it->second;
  }
  if (e->args.empty()) return e;
  Args a;
  for (auto &x : e->args) a.push_back(subst(x, m));
  return rebuild(e, a);
}

EqObjPtr diff(const EqObjPtr &e, const EqObjPtr &v)
{
  switch (e->type)
  {
    case CONST_OBJ: return C(0.0);
    case VARIABLE_OBJ: return C(e->str == v->str ? 1.0 : 0.0);
    case MODEL_OBJ:
      if (e->str == v->str) return C(1.0);
      return S().rule ? S().rule(e, v) : C(0.0);
    case ADD_OBJ:
    {
      Args a;
      for (auto &x : e->args) a.push_back(diff(x, v));
      return Add(a);
    }
    case PRODUCT_OBJ:
    {
      Args sum;
      for (size_t i = 0; i < e->args.size(); ++i)
      {
        auto d = diff(e->args[i], v);
        if (isC(d, 0.0)) continue;
        Args p;
        for (size_t j = 0; j < e->args.size(); ++j) p.push_back(j == i ? d : e->args[j]);
        sum.push_back(Mul(p));
      }
      return Add(sum);
    }
    case POW_OBJ:
    {
      auto b = e->args[0], p = e->args[1];
      auto db = diff(b, v), dp = diff(p, v);
      Args sum;
      if (!isC(db, 0.0)) sum.push_back(Mul({p, Pow(b, Add({p, C(-1.0)})), db}));
      if (!isC(dp, 0.0)) sum.push_back(Mul({make(LOG_OBJ, "log", {b}), e, dp}));
      return Add(sum);
    }
    case EXPONENT_OBJ: return Mul({e, diff(e->args[0], v)});
    case LOG_OBJ: return Mul({Inv(e->args[0]), diff(e->args[0], v)});
    case BLOGICAL_OBJ: case ULOGICAL_OBJ: return C(0.0);
    case IF_OBJ:
    {
      auto d = diff(e->args[1], v);
      if (isC(d, 0.0)) return d;
      return make(IF_OBJ, "if", {e->args[0], d});
    }
    case IFELSE_OBJ:
    {
      auto d0 = diff(e->args[1], v), d1 = diff(e->args[2], v);
      if (isC(d0, 0.0) && isC(d1, 0.0)) return d0;
      return make(IFELSE_OBJ, "ifelse", {e->args[0], d0, d1});
    }
    case USERFUNC_OBJ:
    {
      Args sum;
      for (size_t i = 0; i < e->args.size(); ++i)
      {
        auto d = diff(e->args[i], v);
        if (isC(d, 0.0)) continue;
        auto it = S().funcs.find(e->name);
        if (it == S().funcs.end() || it->second.diffs.empty())
          throw ParseError("derivative of function \"" + e->name + "\" is not defined");
        std::map<std::string, EqObjPtr> m;
        for (size_t j = 0; j < e->args.size(); ++j) m[it->second.formals[j]] = e->args[j];
        sum.push_back(Mul({subst(it->second.diffs[i], m), d}));
      }
      return Add(sum);
    }
  }
  throw ParseError("unexpected");
}

void referenced(const EqObjPtr &e, EqObjType t, std::set<std::string> &out)
{
  if (e->type == t) out.insert(e->str);
  for (auto &a : e->args) referenced(a, t, out);
}

struct Parser {
  const std::string &s; size_t p = 0; int depth = 0;
  enum T { END, NUM, NAME, OP } t = END;
  std::string text; double val = 0;
  // formal parameter names that shadow models inside declare/define
  std::set<std::string> formals;

  explicit Parser(const std::string &x) : s(x) { next(); }

  static bool is0(unsigned char c) { return isalpha(c) || c == '_' || c >= 0x80; }
  static bool is1(unsigned char c) { return isalnum(c) || c == '_' || c == '@' || c == ':' || c == '.' || c >= 0x80; }

  void next()
  {
    while (p < s.size() && isspace((unsigned char)s[p])) ++p;
    if (p >= s.size()) { t = END; text = "end of input"; return; }
    unsigned char c = s[p];
    if (isdigit(c) || (c == '.' && p + 1 < s.size() && isdigit((unsigned char)s[p+1])))
    {
      size_t q = p;
      while (q < s.size() && isdigit((unsigned char)s[q])) ++q;
      if (q < s.size() && s[q] == '.') { ++q; while (q < s.size() && isdigit((unsigned char)s[q])) ++q; }
      if (q < s.size() && (s[q] == 'e' || s[q] == 'E'))
      {
        size_t r = q + 1;
        if (r < s.size() && (s[r] == '+' || s[r] == '-')) ++r;
        if (r < s.size() && isdigit((unsigned char)s[r]))
        {
          while (r < s.size() && isdigit((unsigned char)s[r])) ++r;
          q = r;
        }
      }
      text = s.substr(p, q - p); val = strtod(text.c_str(), nullptr); t = NUM; p = q; return;
    }
    if (is0(c) || (c == '$' && p + 1 < s.size() && is0(s[p+1])))
    {
      // $name: a name that is taken to be a model
      size_t q = p + 1;
      while (q < s.size() && is1(s[q])) ++q;
      text = s.substr(p, q - p); t = NAME; p = q; return;
    }
    static const char *two[] = {"&&", "||", "==", "!=", "<=", ">="};
    for (auto o : two)
      if (s.compare(p, 2, o) == 0) { text = o; t = OP; p += 2; return; }
    text = std::string(1, s[p]); t = OP; ++p;
  }

  bool is(const char *o) const { return t == OP && text == o; }
  void expect(const char *o)
  {
    if (!is(o)) throw ParseError(std::string("syntax error, expected \"") + o + "\" near \"" + text + "\"");
    next();
  }
  struct Depth { int &d; explicit Depth(int &x) : d(x) { if (++d > 2000) { throw ParseError("expression nested too deeply"); } } ~Depth() { --d; } };

  EqObjPtr expr() { Depth dd(depth); return orE(); }
  EqObjPtr orE() { auto l = andE(); while (is("||")) { next(); l = make(BLOGICAL_OBJ, "||", {l, andE()}); } return l; }
  EqObjPtr andE() { auto l = eqE(); while (is("&&")) { next(); l = make(BLOGICAL_OBJ, "&&", {l, eqE()}); } return l; }
  EqObjPtr eqE() { auto l = relE(); while (is("==") || is("!=")) { auto o = text; next(); l = make(BLOGICAL_OBJ, o, {l, relE()}); } return l; }
  EqObjPtr relE() { auto l = addE(); while (is("<") || is(">") || is("<=") || is(">=")) { auto o = text; next(); l = make(BLOGICAL_OBJ, o, {l, addE()}); } return l; }
  EqObjPtr addE()
  {
    auto l = mulE();
    while (is("+") || is("-")) { bool neg = is("-"); next(); auto r = mulE(); l = Add({l, neg ? Neg(r) : r}); }
    return l;
  }
  EqObjPtr mulE()
  {
    auto l = unE();
    while (is("*") || is("/")) { bool inv = is("/"); next(); auto r = unE(); l = Mul({l, inv ? Inv(r) : r}); }
    return l;
  }
  EqObjPtr unE()
  {
    Depth dd(depth);
    if (is("-")) { next(); return Neg(unE()); }
    if (is("+")) { next(); return unE(); }
    if (is("!")) { next(); return make(ULOGICAL_OBJ, "!", {unE()}); }
    return powE();
  }
  EqObjPtr powE()
  {
    auto b = prim();
    if (is("^")) { next(); return Pow(b, unE()); }
    return b;
  }
  Args list()
  {
    Args a;
    expect("(");
    if (!is(")")) { a.push_back(expr()); while (is(",")) { next(); a.push_back(expr()); } }
    expect(")");
    return a;
  }
  static void count(const std::string &f, const Args &a, size_t n)
  {
    if (a.size() != n)
      throw ParseError("function \"" + f + "\" expects " + std::to_string(n) + " argument(s) and was given " + std::to_string(a.size()));
  }
  EqObjPtr name(const std::string &n)
  {
    if (!formals.count(n) && S().inModels && S().inModels(n)) return make(MODEL_OBJ, n, {});
    return make(VARIABLE_OBJ, n, {});
  }
  std::vector<std::string> formalList()
  {
    std::vector<std::string> f;
    expect("(");
    while (t == NAME) { f.push_back(text); next(); if (is(",")) next(); else break; }
    expect(")");
    if (f.empty()) throw ParseError("empty argument list");
    return f;
  }
  EqObjPtr prim()
  {
    if (t == NUM) { double v = val; next(); return C(v); }
    if (is("(")) { next(); auto e = expr(); expect(")"); return e; }
    if (t != NAME) throw ParseError("syntax error near \"" + text + "\"");
    std::string n = text; next();
    if (n[0] == '$') return make(MODEL_OBJ, n.substr(1), {});
    if (!is("(")) return name(n);
    if (n == "declare" || n == "define")
    {
      expect("(");
      if (t != NAME) throw ParseError("function name expected near \"" + text + "\"");
      std::string f = text; next();
      UserFunc u; u.formals = formalList(); u.nargs = u.formals.size();
      auto saved = formals; formals.insert(u.formals.begin(), u.formals.end());
      auto old = S().funcs.find(f);
      if (old != S().funcs.end() && old->second.nargs != u.nargs)
        throw ParseError("function \"" + f + "\" is already declared with another number of arguments");
      if (old == S().funcs.end()) { S().funcs[f] = u; }
      while (is(",")) { next(); u.diffs.push_back(expr()); }
      formals = saved;
      expect(")");
      if (n == "define")
      {
        if (u.diffs.size() != u.nargs) throw ParseError("define of \"" + f + "\": one derivative per argument is needed");
        S().funcs[f] = u;
      }
      Args a;
      for (auto &x : u.formals) a.push_back(make(VARIABLE_OBJ, x, {}));
      return make(USERFUNC_OBJ, f, a);
    }
    Args a = list();
    if (n == "diff")
    {
      count(n, a, 2);
      if (a[1]->type != VARIABLE_OBJ && a[1]->type != MODEL_OBJ) throw ParseError("second argument of diff is not a variable");
      return diff(a[0], a[1]);
    }
    if (n == "simplify" || n == "scale" || n == "unscale" || n == "factor" || n == "sign") { count(n, a, 1); return a[0]; }
    if (n == "exp") { count(n, a, 1); if (isC(a[0], 0.0)) return C(1.0); return make(EXPONENT_OBJ, n, a); }
    if (n == "log") { count(n, a, 1); if (isC(a[0], 1.0)) return C(0.0); return make(LOG_OBJ, n, a); }
    if (n == "pow") { count(n, a, 2); return Pow(a[0], a[1]); }
    if (n == "if") { count(n, a, 2); return make(IF_OBJ, n, a); }
    if (n == "ifelse") { count(n, a, 3); return make(IFELSE_OBJ, n, a); }
    auto it = S().funcs.find(n);
    if (it == S().funcs.end()) throw ParseError("function \"" + n + "\" is not defined");
    count(n, a, it->second.nargs);
    return make(USERFUNC_OBJ, n, a);
  }
};
}

namespace EngineAPI {
EqObjType getEnumeratedType(EqObjPtr e) { return e->type; }
const std::string &getStringValue(EqObjPtr e) { return e->str; }
const std::string &getName(EqObjPtr e) { return e->name; }
double getDoubleValue(EqObjPtr e) { return e->value; }
std::vector<EqObjPtr> getArgs(EqObjPtr e) { return e->args; }
std::set<std::string> getReferencedType(EqObjPtr e, EqObjType t)
{
  std::set<std::string> r; referenced(e, t, r); return r;
}
EqObjPtr con(double v) { return C(v); }
EqObjPtr mod(const std::string &n) { return make(MODEL_OBJ, n, {}); }
void SetModelListCallBack(ModelListCallBack_t f) { S().inModels = f; }
void SetDerivativeRule(DerivativeRule_t f) { S().rule = f; }
void ResetAllData() { S() = State(); }
}

namespace EvalExpr {
EqObjPtr evaluateExpression(const std::string &in, error_t &errors)
{
  // constant folding must not leave floating point exceptions behind for devsim's FPE check
  std::fenv_t env; std::feholdexcept(&env);
  EqObjPtr out;
  try
  {
    Parser ps(in);
    while (ps.t != Parser::END)
    {
      if (ps.is(";")) { ps.next(); continue; }
      out = ps.expr();
      if (ps.t != Parser::END) ps.expect(";");
    }
    if (!out) throw ParseError("empty expression");
  }
  catch (const ParseError &e)
  {
    errors.push_back(e.what());
    out = C(0.0);
  }
  std::fesetenv(&env);
  return out;
}
}
