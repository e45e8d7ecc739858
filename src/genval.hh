// A reference model of PLEXIL values, independent of the code under test, and generators for it.
#ifndef GENVAL_HH
#define GENVAL_HH
#include "pbt.hh"
#include "Value.hh"
#include "ArrayImpl.hh"
#include <cmath>
#include <cstdio>

struct MVal {
  PLEXIL::ValueType t = PLEXIL::UNKNOWN_TYPE;
  bool known = false;
  bool b = false;
  int32_t i = 0;
  double r = 0;
  std::string s;
  std::vector<MVal> el;   // array elements
  int code = 0;           // node constants

  static MVal unknown(PLEXIL::ValueType t = PLEXIL::UNKNOWN_TYPE) { MVal v; v.t = t; return v; }
  static MVal boolean(bool x) { MVal v; v.t = PLEXIL::BOOLEAN_TYPE; v.known = true; v.b = x; return v; }
  static MVal integer(int32_t x) { MVal v; v.t = PLEXIL::INTEGER_TYPE; v.known = true; v.i = x; return v; }
  static MVal real(double x) { MVal v; v.t = PLEXIL::REAL_TYPE; v.known = true; v.r = x; return v; }
  static MVal string(std::string x) { MVal v; v.t = PLEXIL::STRING_TYPE; v.known = true; v.s = std::move(x); return v; }
  static MVal constant(PLEXIL::ValueType t, int c) { MVal v; v.t = t; v.known = true; v.code = c; return v; }
  static MVal array(PLEXIL::ValueType t, std::vector<MVal> e) { MVal v; v.t = t; v.known = true; v.el = std::move(e); return v; }

  bool numeric() const { return t == PLEXIL::INTEGER_TYPE || t == PLEXIL::REAL_TYPE; }
  double num() const { return t == PLEXIL::INTEGER_TYPE ? (double) i : r; }
  bool isArray() const { return t > PLEXIL::ARRAY_TYPE && t < PLEXIL::ARRAY_TYPE_MAX; }
};

// Equality as the language defines it: unknowns of one type are equal, Integer and Real compare as numbers.
inline bool meq(MVal const &a, MVal const &b)
{
  if (a.known != b.known) return false;
  if (a.numeric() && b.numeric()) return !a.known || a.num() == b.num();
  if (a.t != b.t) return false;
  if (!a.known) return true;
  switch (a.t) {
  case PLEXIL::BOOLEAN_TYPE: return a.b == b.b;
  case PLEXIL::STRING_TYPE: return a.s == b.s;
  default: break;
  }
  if (a.isArray()) {
    if (a.el.size() != b.el.size()) return false;
    for (size_t k = 0; k < a.el.size(); ++k) {
      if (a.el[k].known != b.el[k].known) return false;
      if (a.el[k].known && !meq(a.el[k], b.el[k])) return false;
    }
    return true;
  }
  return a.code == b.code;
}

inline std::string mstr(MVal const &v)
{
  using namespace PLEXIL;
  std::string ty = v.t == UNKNOWN_TYPE ? "" : ":" + valueTypeName(v.t);
  if (!v.known) return "UNKNOWN" + ty;
  char buf[64];
  switch (v.t) {
  case BOOLEAN_TYPE: return v.b ? "true" : "false";
  case INTEGER_TYPE: return std::to_string(v.i);
  case REAL_TYPE: snprintf(buf, sizeof buf, "%.17gr", v.r); return buf;
  case STRING_TYPE: {
    std::string r = "\"";
    if (v.s.size() > 60) return "string(" + std::to_string(v.s.size()) + " bytes)";
    for (unsigned char c : v.s) if (c >= 32 && c < 127 && c != '"') r += (char) c; else { snprintf(buf, sizeof buf, "\\x%02x", c); r += buf; }
    return r + "\"";
  }
  default: break;
  }
  if (v.isArray()) {
    std::string r = valueTypeName(v.t) + "[" + std::to_string(v.el.size()) + "](";
    for (size_t k = 0; k < v.el.size() && k < 12; ++k) { if (k) r += ' '; r += v.el[k].known ? mstr(v.el[k]) : "?"; }
    return r + (v.el.size() > 12 ? "...)" : ")");
  }
  return valueTypeName(v.t) + "#" + std::to_string(v.code);
}

template <typename T> struct MT;
template <> struct MT<bool> { static bool get(MVal const &v) { return v.b; } static MVal mk(bool x) { return MVal::boolean(x); } static const PLEXIL::ValueType t = PLEXIL::BOOLEAN_TYPE, at = PLEXIL::BOOLEAN_ARRAY_TYPE; };
template <> struct MT<int32_t> { static int32_t get(MVal const &v) { return v.i; } static MVal mk(int32_t x) { return MVal::integer(x); } static const PLEXIL::ValueType t = PLEXIL::INTEGER_TYPE, at = PLEXIL::INTEGER_ARRAY_TYPE; };
template <> struct MT<double> { static double get(MVal const &v) { return v.r; } static MVal mk(double x) { return MVal::real(x); } static const PLEXIL::ValueType t = PLEXIL::REAL_TYPE, at = PLEXIL::REAL_ARRAY_TYPE; };
template <> struct MT<std::string> { static std::string const &get(MVal const &v) { return v.s; } static MVal mk(std::string x) { return MVal::string(std::move(x)); } static const PLEXIL::ValueType t = PLEXIL::STRING_TYPE, at = PLEXIL::STRING_ARRAY_TYPE; };

// Array of the code under test for a model array; `dirt' leaves stale contents under unknown elements.
template <typename T> PLEXIL::ArrayImpl<T> mkArray(MVal const &v, T dirt, bool dirty)
{
  PLEXIL::ArrayImpl<T> a(v.el.size());
  for (size_t k = 0; k < v.el.size(); ++k) {
    if (v.el[k].known) a.setElement(k, MT<T>::get(v.el[k]));
    else if (dirty) { a.setElement(k, dirt); a.setElementUnknown(k); }
  }
  return a;
}

inline PLEXIL::Value mkValue(MVal const &v, int dirt = 0)
{
  using namespace PLEXIL;
  if (!v.known) return v.t == UNKNOWN_TYPE ? Value() : Value(v.t);
  switch (v.t) {
  case BOOLEAN_TYPE: return Value(v.b);
  case INTEGER_TYPE: return Value(v.i);
  case REAL_TYPE: return Value(v.r);
  case STRING_TYPE: return Value(v.s);
  case NODE_STATE_TYPE: return Value((NodeState) v.code);
  case OUTCOME_TYPE: return Value((NodeOutcome) v.code);
  case FAILURE_TYPE: return Value((FailureType) v.code);
  case COMMAND_HANDLE_TYPE: return Value((CommandHandleValue) v.code);
  case BOOLEAN_ARRAY_TYPE: return Value(mkArray<bool>(v, true, dirt != 0));
  case INTEGER_ARRAY_TYPE: return Value(mkArray<int32_t>(v, dirt, dirt != 0));
  case REAL_ARRAY_TYPE: return Value(mkArray<double>(v, dirt * 0.5, dirt != 0));
  case STRING_ARRAY_TYPE: return Value(mkArray<std::string>(v, "dirt" + std::to_string(dirt), dirt != 0));
  default: return Value();
  }
}

// Does a value of the code under test denote the model value?  Looks only through accessors, never operator==.
template <typename T> bool sameArray(PLEXIL::Value const &x, MVal const &v)
{
  PLEXIL::ArrayImpl<T> const *a = nullptr;
  if (!x.getValuePointer(a) || !a) return false;
  if (a->size() != v.el.size()) return false;
  for (size_t k = 0; k < v.el.size(); ++k) {
    T e;
    bool kn = a->getElement(k, e);
    if (kn != v.el[k].known || kn != a->elementKnown(k)) return false;
    if (kn && !(e == MT<T>::get(v.el[k]))) return false;
  }
  return true;
}

inline bool same(PLEXIL::Value const &x, MVal const &v, bool ignoreUnknownType = false)
{
  using namespace PLEXIL;
  if (x.isKnown() != v.known) return false;
  if (!v.known) return ignoreUnknownType || x.valueType() == v.t;
  if (x.valueType() != v.t) return false;
  switch (v.t) {
  case BOOLEAN_TYPE: { bool y; return x.getValue(y) && y == v.b; }
  case INTEGER_TYPE: { Integer y; return x.getValue(y) && y == v.i; }
  case REAL_TYPE: { double y; return x.getValue(y) && (y == v.r || (std::isnan(y) && std::isnan(v.r))); }
  case STRING_TYPE: { std::string y; std::string const *p = nullptr; return x.getValue(y) && y == v.s && x.getValuePointer(p) && p && *p == v.s; }
  case NODE_STATE_TYPE: { NodeState y; return x.getValue(y) && y == v.code; }
  case OUTCOME_TYPE: { NodeOutcome y; return x.getValue(y) && y == v.code; }
  case FAILURE_TYPE: { FailureType y; return x.getValue(y) && y == v.code; }
  case COMMAND_HANDLE_TYPE: { CommandHandleValue y; return x.getValue(y) && y == v.code; }
  case BOOLEAN_ARRAY_TYPE: return sameArray<bool>(x, v);
  case INTEGER_ARRAY_TYPE: return sameArray<int32_t>(x, v);
  case REAL_ARRAY_TYPE: return sameArray<double>(x, v);
  case STRING_ARRAY_TYPE: return sameArray<std::string>(x, v);
  default: return false;
  }
}

// ---- generators ----

inline int32_t genInt(pbt::Gen &g)
{
  static const int32_t edge[] = {0, 1, -1, 2, 3, 7, -2, 10, 100, 127, 128, 255, 256, -128, 32767, 32768, 65535, 65536,
    INT32_MAX, INT32_MIN, INT32_MAX - 1, INT32_MIN + 1, 1 << 30, -(1 << 30), 0x01020304, -0x01020304, 46340, 46341};
  switch (g.weighted({5, 3, 2})) {
  case 0: return (int32_t) g.range(0, 4);
  case 1: return g.pick(edge);
  default: return (int32_t) g.draw(1ull << 32);
  }
}

inline double genReal(pbt::Gen &g)
{
  static const double edge[] = {0, 0.5, 1, -1, 1.5, -0.5, 2, -2.5, 0.1, 1e10, -1e10, 2147483647.0, 2147483648.0, -2147483648.0, -2147483649.0,
    2147483647.5, 1e-300, 1e300, 1.7976931348623157e308, 2.2250738585072014e-308, 4.9e-324, 9007199254740993.0, 3.141592653589793, 0.49999999999999994, -0.0, 4294967296.0};
  switch (g.weighted({5, 3, 2})) {
  case 0: return (double) g.range(0, 8) / 2.0;
  case 1: return g.pick(edge);
  default: {
    double m = (double) (int64_t) g.draw(1ull << 53) - (double) (1ll << 52);
    return std::ldexp(m, (int) g.range(0, 120) - 100);
  }
  }
}

inline std::string genString(pbt::Gen &g, size_t maxLen = 12)
{
  static const char *edge[] = {"", "a", "b", "A", "UNKNOWN", "true", "0", "-1", "3.5", " ", "foo", "foo bar", "a\"b", "\xc3\xa9t\xc3\xa9"};
  if (g.chance(2, 3)) return g.pick(edge);
  size_t n = (size_t) g.range(0, (int64_t) maxLen);
  std::string s;
  for (size_t k = 0; k < n; ++k) s += g.chance(1, 8) ? (char) g.draw(256) : (char) ('a' + g.draw(4));
  return s;
}

inline MVal genScalar(pbt::Gen &g, PLEXIL::ValueType t)
{
  using namespace PLEXIL;
  switch (t) {
  case BOOLEAN_TYPE: return MVal::boolean(g.chance(1, 2));
  case INTEGER_TYPE: return MVal::integer(genInt(g));
  case REAL_TYPE: return MVal::real(genReal(g));
  case STRING_TYPE: return MVal::string(genString(g));
  case NODE_STATE_TYPE: return MVal::constant(t, INACTIVE_STATE + (int) g.draw(NODE_STATE_MAX - INACTIVE_STATE));
  case OUTCOME_TYPE: return MVal::constant(t, SUCCESS_OUTCOME + (int) g.draw(OUTCOME_MAX - SUCCESS_OUTCOME));
  case FAILURE_TYPE: return MVal::constant(t, PRE_CONDITION_FAILED + (int) g.draw(FAILURE_TYPE_MAX - PRE_CONDITION_FAILED));
  case COMMAND_HANDLE_TYPE: return MVal::constant(t, COMMAND_SENT_TO_SYSTEM + (int) g.draw(COMMAND_HANDLE_MAX - COMMAND_SENT_TO_SYSTEM));
  default: return MVal();
  }
}

inline PLEXIL::ValueType elType(PLEXIL::ValueType t) { return (PLEXIL::ValueType) (t - PLEXIL::ARRAY_TYPE); }

inline MVal genArray(pbt::Gen &g, PLEXIL::ValueType t, size_t n)
{
  std::vector<MVal> e;
  bool simple = n > 40;
  for (size_t k = 0; k < n; ++k)
    if (simple ? (k % 7 == 3) : g.chance(1, 4)) e.push_back(MVal::unknown(elType(t)));
    else if (simple) {
      MVal v; v.t = elType(t); v.known = true; v.b = (k * 2654435761u >> 9) & 1; v.i = (int32_t) (k * 2654435761u); v.r = (double) k * 1.25 - 3; v.s = std::string(k % 5, (char) ('a' + k % 26));
      e.push_back(v);
    }
    else e.push_back(genScalar(g, elType(t)));
  return MVal::array(t, e);
}

static const PLEXIL::ValueType USER_TYPES[] = {PLEXIL::INTEGER_TYPE, PLEXIL::BOOLEAN_TYPE, PLEXIL::REAL_TYPE, PLEXIL::STRING_TYPE,
  PLEXIL::INTEGER_ARRAY_TYPE, PLEXIL::BOOLEAN_ARRAY_TYPE, PLEXIL::REAL_ARRAY_TYPE, PLEXIL::STRING_ARRAY_TYPE};
static const PLEXIL::ValueType NODE_TYPES[] = {PLEXIL::COMMAND_HANDLE_TYPE, PLEXIL::NODE_STATE_TYPE, PLEXIL::OUTCOME_TYPE, PLEXIL::FAILURE_TYPE};

inline MVal genValue(pbt::Gen &g, bool nodeTypes = true, size_t arr = 4)
{
  if (g.chance(1, 30)) return MVal();
  PLEXIL::ValueType t = (nodeTypes && g.chance(1, 6)) ? g.pick(NODE_TYPES) : g.pick(USER_TYPES);
  if (g.chance(1, 8)) return MVal::unknown(t);
  if (t > PLEXIL::ARRAY_TYPE && t < PLEXIL::ARRAY_TYPE_MAX) return genArray(g, t, (size_t) g.range(0, (int64_t) arr));
  return genScalar(g, t);
}

// A value close to v: equal, or different in one place.
inline MVal genNear(pbt::Gen &g, MVal const &v)
{
  using namespace PLEXIL;
  MVal w = v;
  switch (g.weighted({4, 3, 1, 2, 1})) {
  case 0: return w;
  case 1: // differs in one place
    if (!w.known) return genValue(g);
    if (w.isArray()) {
      if (w.el.empty() || g.chance(1, 4)) w.el.push_back(g.chance(1, 2) ? MVal::unknown(elType(w.t)) : genScalar(g, elType(w.t)));
      else {
        size_t k = g.draw(w.el.size());
        w.el[k] = g.chance(1, 3) ? MVal::unknown(elType(w.t)) : genScalar(g, elType(w.t));
      }
    }
    else if (w.t == INTEGER_TYPE) w.i = (int32_t) ((uint32_t) w.i + 1u);
    else if (w.t == REAL_TYPE) w.r = std::nextafter(w.r, 1e9);
    else if (w.t == STRING_TYPE) { if (g.chance(1, 2)) w.s += '\0'; else w.s += 'a'; }
    else return genScalar(g, w.t);
    return w;
  case 2: w.known = false; w.el.clear(); return MVal::unknown(w.t);
  case 3: // same number in the other numeric type
    if (!w.known) { if (w.t == INTEGER_TYPE) return MVal::unknown(REAL_TYPE); if (w.t == REAL_TYPE) return MVal::unknown(INTEGER_TYPE); return w; }
    if (w.t == INTEGER_TYPE) return MVal::real(w.i);
    if (w.t == REAL_TYPE && w.r >= -2147483648.0 && w.r <= 2147483647.0) return MVal::integer((int32_t) w.r);
    return w;
  default: return genValue(g);
  }
}
#endif
