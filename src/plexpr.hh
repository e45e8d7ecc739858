// PLEXIL expressions: abstract syntax, XML form, and reference semantics written from the language definition.
#ifndef PLEXPR_HH
#define PLEXPR_HH
#include "genval.hh"
#include "NodeConstants.hh"
#include <functional>
#include <memory>

struct Ref {                     // node reference
  enum Form { Self, Parent, Child, Sibling, Id } form = Self;
  std::string id;
};

struct Ex {
  enum Kind { Lit, Var, Elem, Op, Lookup, NState, NOutcome, NFailure, NHandle, NTime, NPred } k = Lit;
  PLEXIL::ValueType t = PLEXIL::UNKNOWN_TYPE;  // static type
  MVal lit;
  std::string s;                 // variable name, operator or predicate tag
  std::vector<Ex> kid;           // operands; Elem: index; Lookup: name, arguments
  Ref ref;
  PLEXIL::NodeState st = PLEXIL::INACTIVE_STATE;
  bool flag = false;             // NTime: END; Lookup: OnChange
  std::shared_ptr<Ex> tol;       // Lookup: tolerance

  static Ex literal(MVal v) { Ex e; e.k = Lit; e.t = v.t; e.lit = std::move(v); return e; }
  static Ex var(std::string n, PLEXIL::ValueType t) { Ex e; e.k = Var; e.t = t; e.s = std::move(n); return e; }
  static Ex op(std::string tag, PLEXIL::ValueType t, std::vector<Ex> kids) { Ex e; e.k = Op; e.t = t; e.s = std::move(tag); e.kid = std::move(kids); return e; }
};

inline std::string xmlEscape(std::string const &s)
{
  std::string r;
  for (char c : s) switch (c) {
    case '<': r += "&lt;"; break;
    case '>': r += "&gt;"; break;
    case '&': r += "&amp;"; break;
    case '"': r += "&quot;"; break;
    default: r += c;
    }
  return r;
}

inline std::string fmtReal(double d)
{
  char b[40];
  snprintf(b, sizeof b, "%.17g", d);
  return b;
}

inline std::string typeTag(PLEXIL::ValueType t)
{
  using namespace PLEXIL;
  switch (t) {
  case BOOLEAN_TYPE: return "Boolean";
  case INTEGER_TYPE: return "Integer";
  case REAL_TYPE: return "Real";
  case STRING_TYPE: return "String";
  case DATE_TYPE: return "Date";
  case DURATION_TYPE: return "Duration";
  case NODE_STATE_TYPE: return "NodeState";
  case OUTCOME_TYPE: return "NodeOutcome";
  case FAILURE_TYPE: return "NodeFailure";
  case COMMAND_HANDLE_TYPE: return "NodeCommandHandle";
  default: break;
  }
  if (t > ARRAY_TYPE && t < ARRAY_TYPE_MAX) return typeTag(elType(t));
  return "Unknown";
}

inline std::string litText(MVal const &v)
{
  using namespace PLEXIL;
  if (!v.known) return "UNKNOWN";
  switch (v.t) {
  case BOOLEAN_TYPE: return v.b ? "true" : "false";
  case INTEGER_TYPE: return std::to_string(v.i);
  case REAL_TYPE: return fmtReal(v.r);
  case STRING_TYPE: return xmlEscape(v.s);
  case NODE_STATE_TYPE: return nodeStateName((NodeState) v.code);
  case OUTCOME_TYPE: return outcomeName((NodeOutcome) v.code);
  case FAILURE_TYPE: return failureTypeName((FailureType) v.code);
  case COMMAND_HANDLE_TYPE: return commandHandleValueName((CommandHandleValue) v.code);
  default: return "";
  }
}

inline std::string litXml(MVal const &v)
{
  if (v.isArray() && v.known) {
    std::string ty = typeTag(v.t), r = "<ArrayValue Type=\"" + ty + "\">";
    for (MVal const &e : v.el) r += "<" + ty + "Value>" + litText(e) + "</" + ty + "Value>";
    return r + "</ArrayValue>";
  }
  std::string ty = typeTag(v.t);
  return "<" + ty + "Value>" + litText(v) + "</" + ty + "Value>";
}

inline std::string refXml(Ref const &r)
{
  switch (r.form) {
  case Ref::Self: return "<NodeRef dir=\"self\"/>";
  case Ref::Parent: return "<NodeRef dir=\"parent\"/>";
  case Ref::Child: return "<NodeRef dir=\"child\">" + r.id + "</NodeRef>";
  case Ref::Sibling: return "<NodeRef dir=\"sibling\">" + r.id + "</NodeRef>";
  default: return "<NodeId>" + r.id + "</NodeId>";
  }
}

inline std::string varXml(std::string const &n, PLEXIL::ValueType t)
{
  bool arr = t > PLEXIL::ARRAY_TYPE && t < PLEXIL::ARRAY_TYPE_MAX;
  std::string tag = arr ? "ArrayVariable" : typeTag(t) + "Variable";
  return "<" + tag + ">" + n + "</" + tag + ">";
}

inline std::string exXml(Ex const &e)
{
  std::string r;
  switch (e.k) {
  case Ex::Lit: return litXml(e.lit);
  case Ex::Var: return varXml(e.s, e.t);
  case Ex::Elem: return "<ArrayElement><Name>" + e.s + "</Name><Index>" + exXml(e.kid[0]) + "</Index></ArrayElement>";
  case Ex::Op:
    r = "<" + e.s + ">";
    for (Ex const &k : e.kid) r += exXml(k);
    return r + "</" + e.s + ">";
  case Ex::Lookup: {
    std::string tag = e.flag ? "LookupOnChange" : "LookupNow";
    r = "<" + tag + "><Name>" + exXml(e.kid[0]) + "</Name>";
    if (e.tol) r += "<Tolerance>" + exXml(*e.tol) + "</Tolerance>";
    if (e.kid.size() > 1) {
      r += "<Arguments>";
      for (size_t i = 1; i < e.kid.size(); ++i) r += exXml(e.kid[i]);
      r += "</Arguments>";
    }
    return r + "</" + tag + ">";
  }
  case Ex::NState: return "<NodeStateVariable>" + refXml(e.ref) + "</NodeStateVariable>";
  case Ex::NOutcome: return "<NodeOutcomeVariable>" + refXml(e.ref) + "</NodeOutcomeVariable>";
  case Ex::NFailure: return "<NodeFailureVariable>" + refXml(e.ref) + "</NodeFailureVariable>";
  case Ex::NHandle: return "<NodeCommandHandleVariable>" + refXml(e.ref) + "</NodeCommandHandleVariable>";
  case Ex::NTime: return "<NodeTimepointValue>" + refXml(e.ref) + "<NodeStateValue>" + PLEXIL::nodeStateName(e.st) + "</NodeStateValue><Timepoint>" + (e.flag ? "END" : "START") + "</Timepoint></NodeTimepointValue>";
  case Ex::NPred: return "<" + e.s + ">" + refXml(e.ref) + "</" + e.s + ">";
  }
  return r;
}

// ---- reference semantics of the operators ----
// Operands carry their static type in `t' even when unknown.

inline bool isReal(PLEXIL::ValueType t) { return t == PLEXIL::REAL_TYPE || t == PLEXIL::DATE_TYPE || t == PLEXIL::DURATION_TYPE; }
inline bool isNum(PLEXIL::ValueType t) { return t == PLEXIL::INTEGER_TYPE || isReal(t); }

inline MVal realOrUnknown(double d) { return MVal::real(d); }

inline MVal toInt(double d)
{
  if (!(d >= -2147483648.0 && d <= 2147483647.0)) return MVal::unknown(PLEXIL::INTEGER_TYPE);
  return MVal::integer((int32_t) d);
}

inline double roundHalf(double d) { return std::round(d); }

// `t' is the type of the result
inline MVal evalOp(std::string const &op, PLEXIL::ValueType t, std::vector<MVal> const &a)
{
  using namespace PLEXIL;
  size_t n = a.size();
  if (op == "AND" || op == "OR") {
    bool dom = op == "OR", unk = false;
    for (MVal const &x : a) { if (!x.known) unk = true; else if (x.b == dom) return MVal::boolean(dom); }
    return unk ? MVal::unknown(BOOLEAN_TYPE) : MVal::boolean(!dom);
  }
  if (op == "IsKnown") return MVal::boolean(a[0].known);
  if (op == "ALL_KNOWN" || op == "ANY_KNOWN") {
    if (!a[0].known) return MVal::unknown(BOOLEAN_TYPE);
    bool all = true, any = false;
    for (MVal const &e : a[0].el) { all = all && e.known; any = any || e.known; }
    return MVal::boolean(op == "ALL_KNOWN" ? all : any);
  }
  for (MVal const &x : a) if (!x.known) return MVal::unknown(t);
  if (op == "NOT") return MVal::boolean(!a[0].b);
  if (op == "XOR") { bool r = false; for (MVal const &x : a) r = r != x.b; return MVal::boolean(r); }
  if (op.compare(0, 2, "EQ") == 0) return MVal::boolean(meq(a[0], a[1]));
  if (op.compare(0, 2, "NE") == 0) return MVal::boolean(!meq(a[0], a[1]));
  if (op == "GT" || op == "GE" || op == "LT" || op == "LE") {
    int c;
    if (a[0].t == STRING_TYPE) c = a[0].s.compare(a[1].s);
    else {
      double x = a[0].num(), y = a[1].num();
      if (x != x || y != y) return MVal::boolean(false);
      c = x < y ? -1 : x > y ? 1 : 0;
    }
    return MVal::boolean(op == "GT" ? c > 0 : op == "GE" ? c >= 0 : op == "LT" ? c < 0 : c <= 0);
  }
  if (op == "Concat") { std::string r; for (MVal const &x : a) r += x.s; return MVal::string(r); }
  if (op == "STRLEN") return MVal::integer((int32_t) a[0].s.size());
  if (op == "ArraySize" || op == "ArrayMaxSize") return MVal::integer((int32_t) a[0].el.size());
  if (op == "SQRT") { double d = a[0].num(); if (!(d >= 0)) return MVal::unknown(t); return MVal::real(std::sqrt(d)); }
  if (op == "REAL_TO_INT") { double d = a[0].num(); if (d != std::floor(d)) return MVal::unknown(t); return toInt(d); }
  if (op == "CEIL" || op == "FLOOR" || op == "ROUND" || op == "TRUNC") {
    double d = a[0].num();
    d = op == "CEIL" ? std::ceil(d) : op == "FLOOR" ? std::floor(d) : op == "ROUND" ? std::round(d) : std::trunc(d);
    return t == INTEGER_TYPE ? toInt(d) : MVal::real(d);
  }
  if (t == INTEGER_TYPE) {
    auto w = [](int64_t x) { return MVal::integer((int32_t) (uint32_t) (uint64_t) x); };
    int64_t r = a[0].i;
    if (op == "ABS") return w(r < 0 ? -r : r);
    if (op == "SUB" && n == 1) return w(-r);
    for (size_t i = 1; i < n; ++i) {
      int64_t y = a[i].i;
      if (op == "ADD") r = (int32_t) (uint32_t) (r + y);
      else if (op == "SUB") r = (int32_t) (uint32_t) (r - y);
      else if (op == "MUL") r = (int32_t) (uint32_t) (uint64_t) (r * y);
      else if (op == "MIN") r = std::min(r, y);
      else if (op == "MAX") r = std::max(r, y);
      else if (op == "DIV") { if (y == 0) return MVal::unknown(t); r = r / y; if (r > INT32_MAX) return MVal::unknown(t); }
      else if (op == "MOD") { if (y == 0) return MVal::unknown(t); r = r % y; }
    }
    return w(r);
  }
  double r = a[0].num();
  if (op == "ABS") return MVal::real(std::fabs(r));
  if (op == "SUB" && n == 1) return MVal::real(-r);
  for (size_t i = 1; i < n; ++i) {
    double y = a[i].num();
    if (op == "ADD") r += y;
    else if (op == "SUB") r -= y;
    else if (op == "MUL") r *= y;
    else if (op == "MIN") r = std::min(r, y);
    else if (op == "MAX") r = std::max(r, y);
    else if (op == "DIV") { if (y == 0) return MVal::unknown(t); r /= y; }
    else if (op == "MOD") { if (y == 0) return MVal::unknown(t); r = std::fmod(r, y); }
  }
  return MVal::real(r);
}

// A value of the code under test as a model value (through accessors only).
template <typename T> MVal fromArray(PLEXIL::Value const &x, PLEXIL::ValueType t)
{
  PLEXIL::ArrayImpl<T> const *a = nullptr;
  if (!x.getValuePointer(a) || !a) return MVal::unknown(t);
  std::vector<MVal> e;
  for (size_t k = 0; k < a->size(); ++k) {
    T v;
    if (a->getElement(k, v)) e.push_back(MT<T>::mk(v)); else e.push_back(MVal::unknown(elType(t)));
  }
  return MVal::array(t, e);
}

inline MVal fromValue(PLEXIL::Value const &x)
{
  using namespace PLEXIL;
  ValueType t = x.valueType();
  if (!x.isKnown()) return MVal::unknown(t);
  switch (t) {
  case BOOLEAN_TYPE: { bool y = false; x.getValue(y); return MVal::boolean(y); }
  case INTEGER_TYPE: { Integer y = 0; x.getValue(y); return MVal::integer(y); }
  case REAL_TYPE: { double y = 0; x.getValue(y); return MVal::real(y); }
  case STRING_TYPE: { std::string y; x.getValue(y); return MVal::string(y); }
  case NODE_STATE_TYPE: { NodeState y; x.getValue(y); return MVal::constant(t, y); }
  case OUTCOME_TYPE: { NodeOutcome y; x.getValue(y); return MVal::constant(t, y); }
  case FAILURE_TYPE: { FailureType y; x.getValue(y); return MVal::constant(t, y); }
  case COMMAND_HANDLE_TYPE: { CommandHandleValue y; x.getValue(y); return MVal::constant(t, y); }
  case BOOLEAN_ARRAY_TYPE: return fromArray<bool>(x, t);
  case INTEGER_ARRAY_TYPE: return fromArray<int32_t>(x, t);
  case REAL_ARRAY_TYPE: return fromArray<double>(x, t);
  case STRING_ARRAY_TYPE: return fromArray<std::string>(x, t);
  default: return MVal();
  }
}
#endif
