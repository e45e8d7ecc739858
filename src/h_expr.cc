// C03 (operators) and C04 (expression graph: activation, notification, saving and restoring)
#include "plexpr.hh"
#include "pbt.hh"
#include "Alias.hh"
#include "ArrayImpl.hh"
#include "ArrayVariable.hh"
#include "Assignable.hh"
#include "Constant.hh"
#include "Error.hh"
#include "ExpressionListener.hh"
#include "InterfaceError.hh"
#include "NodeConnector.hh"
#include "ParserException.hh"
#include "PlanError.hh"
#include "UserVariable.hh"
#include "createExpression.hh"
#include "ArrayVariable.hh"
#include "pugixml.hpp"
#include <climits>
#include <algorithm>
#include <set>
using namespace PLEXIL;
using pbt::Gen; using pbt::Ctx;

static const unsigned XML_OPTIONS = pugi::parse_default | pugi::parse_ws_pcdata_single;
static const ValueType SCALARS[] = {INTEGER_TYPE, BOOLEAN_TYPE, REAL_TYPE, STRING_TYPE};

static void init()
{
  Error::doThrowExceptions(); PlanError::doThrowExceptions(); InterfaceError::doThrowExceptions();
}

// ---- the variables, as the model sees them ----
struct MVar {
  std::string name;
  ValueType t = INTEGER_TYPE;
  bool hasInit = false;
  MVal init;
  int maxSize = -1;               // arrays; -1: none
  MVal val = MVal::unknown();     // while active
  int count = 0;                  // activations
  bool savedValid = false;
  MVal saved;
  bool alias = false;             // a read-only name for an expression
  Ex of;
  std::unique_ptr<Expression> obj;
  std::unique_ptr<Expression> sizeExp;

  bool arr() const { return t > ARRAY_TYPE && t < ARRAY_TYPE_MAX; }
  Variable *var() { return dynamic_cast<Variable *>(obj.get()); }
  MVal pad(MVal v) const
  {
    if (maxSize > 0) while ((int) v.el.size() < maxSize) v.el.push_back(MVal::unknown(elType(t)));
    return v;
  }
  void activate()
  {
    if (count++ || alias) return;
    savedValid = false;
    if (hasInit) val = init.known && arr() ? pad(init) : init;
    else if (arr() && maxSize > 0) val = pad(MVal::array(t, {}));
    else val = MVal::unknown(t);
  }
  MVal now() const { return count > 0 ? val : MVal::unknown(t); }
};

struct Connector : NodeConnector {
  std::vector<MVar> *v;
  std::string id = "Node";
  std::string const &getNodeId() const override { return id; }
  Expression *findVariable(char const *n) override
  {
    for (MVar &x : *v) if (x.name == n) return x.obj.get();
    return nullptr;
  }
  void notifyResourceAvailable() override {}
};

static Expression *mkConst(MVal const &v)
{
  switch (v.t) {
  case BOOLEAN_TYPE: return v.known ? new Constant<Boolean>(v.b) : new Constant<Boolean>();
  case INTEGER_TYPE: return v.known ? new Constant<Integer>(v.i) : new Constant<Integer>();
  case REAL_TYPE: return v.known ? new Constant<Real>(v.r) : new Constant<Real>();
  case STRING_TYPE: return v.known ? new Constant<String>(v.s) : new Constant<String>();
  case BOOLEAN_ARRAY_TYPE: return v.known ? new Constant<BooleanArray>(mkArray<bool>(v, true, false)) : new Constant<BooleanArray>();
  case INTEGER_ARRAY_TYPE: return v.known ? new Constant<IntegerArray>(mkArray<int32_t>(v, 7, false)) : new Constant<IntegerArray>();
  case REAL_ARRAY_TYPE: return v.known ? new Constant<RealArray>(mkArray<double>(v, 7, false)) : new Constant<RealArray>();
  case STRING_ARRAY_TYPE: return v.known ? new Constant<StringArray>(mkArray<std::string>(v, "x", false)) : new Constant<StringArray>();
  default: return nullptr;
  }
}

static Expression *mkVar(MVar &v)
{
  char const *n = v.name.c_str();
  Expression *size = nullptr;
  if (v.arr() && v.maxSize >= 0) size = new Constant<Integer>(v.maxSize);
  switch (v.t) {
  case BOOLEAN_TYPE: return new UserVariable<Boolean>(n);
  case INTEGER_TYPE: return new UserVariable<Integer>(n);
  case REAL_TYPE: return new UserVariable<Real>(n);
  case STRING_TYPE: return new UserVariable<String>(n);
  case BOOLEAN_ARRAY_TYPE: return new ArrayVariableImpl<Boolean>(n, size, size != nullptr);
  case INTEGER_ARRAY_TYPE: return new ArrayVariableImpl<Integer>(n, size, size != nullptr);
  case REAL_ARRAY_TYPE: return new ArrayVariableImpl<Real>(n, size, size != nullptr);
  case STRING_ARRAY_TYPE: return new ArrayVariableImpl<String>(n, size, size != nullptr);
  default: return nullptr;
  }
}

// ---- generation ----
struct World {
  Gen &g;
  std::vector<MVar> vars;
  bool wide;                      // extreme values
  int maxArity = 6;
  std::vector<ValueType> palette{SCALARS, SCALARS + 4}; // scalar types in use
  World(Gen &gen, bool w) : g(gen), wide(w) {}

  MVal scalar(ValueType t)
  {
    if (wide) {
      MVal v = genScalar(g, t);
      if (t == STRING_TYPE) for (char &c : v.s) if ((unsigned char) c < 32 || (unsigned char) c > 126) c = '~';
      return v;
    }
    switch (t) {
    case BOOLEAN_TYPE: return MVal::boolean(g.chance(1, 2));
    case INTEGER_TYPE: return MVal::integer((int32_t) g.range(-1, 3));
    case REAL_TYPE: return MVal::real((double) g.range(-1, 4) / 2);
    default: { static const char *s[] = {"", "a", "b", "ab"}; return MVal::string(g.pick(s)); }
    }
  }
  MVal value(ValueType t, int maxSize = -1, unsigned unk = 8)
  {
    if (unk && g.chance(1, unk)) return MVal::unknown(t);
    if (t < ARRAY_TYPE || t >= ARRAY_TYPE_MAX) return scalar(t);
    std::vector<MVal> e;
    int n = (int) g.range(0, maxSize >= 0 ? std::min(maxSize, 5) : 4);
    for (int i = 0; i < n; ++i) e.push_back(g.chance(1, 4) ? MVal::unknown(elType(t)) : scalar(elType(t)));
    return MVal::array(t, e);
  }
  MVal near(MVal const &v, ValueType t, int maxSize) // often equal to, or close to what is there
  {
    if (v.known && g.chance(1, 3)) {
      MVal w = v;
      if (w.isArray()) {
        if (!w.el.empty() && g.chance(1, 2)) { size_t k = g.draw(w.el.size()); w.el[k] = g.chance(1, 2) ? MVal::unknown(elType(t)) : scalar(elType(t)); }
        return w;
      }
      return w;
    }
    return value(t, maxSize, 5);
  }

  void genVars(int n)
  {
    static const ValueType T[] = {INTEGER_TYPE, BOOLEAN_TYPE, REAL_TYPE, STRING_TYPE, INTEGER_ARRAY_TYPE, BOOLEAN_ARRAY_TYPE, REAL_ARRAY_TYPE, STRING_ARRAY_TYPE};
    for (int i = 0; i < n; ++i) {
      MVar v;
      v.t = g.pick(T);
      if (palette.size() < 4) v.t = (ValueType) (g.pick(palette) + (g.chance(1, 3) ? ARRAY_TYPE : 0));
      v.name = "v" + std::to_string(i);
      if (v.arr() && g.chance(3, 4)) v.maxSize = (int) g.range(0, 5);
      v.hasInit = g.chance(2, 3);
      if (v.hasInit) v.init = value(v.t, v.maxSize, 6);
      vars.push_back(std::move(v));
    }
  }
  void build()
  {
    for (MVar &v : vars) if (!v.alias) {
      v.obj.reset(mkVar(v));
      if (v.hasInit) v.var()->setInitializer(mkConst(v.init), true);
    }
  }

  Ex arrayLit(ValueType t) // no literal denotes an unknown String
  {
    MVal v = value(t, -1, 0);
    if (t == STRING_ARRAY_TYPE) for (MVal &e : v.el) if (!e.known) e = MVal::string("u");
    return Ex::literal(v);
  }
  Ex lit(ValueType t) {
    if (t > ARRAY_TYPE && t < ARRAY_TYPE_MAX) return arrayLit(t);
    return Ex::literal(t == STRING_TYPE ? scalar(t) : value(t, -1, 10)); }

  Ex leaf(ValueType t, int depth)
  {
    std::vector<MVar *> c, a;
    for (MVar &v : vars) {
      if (v.t == t) c.push_back(&v);
      if (!v.alias && v.t == t + ARRAY_TYPE) a.push_back(&v);
    }
    if (!a.empty() && g.chance(1, 3)) {
      Ex e; e.k = Ex::Elem; e.t = t; e.s = g.pick(a)->name;
      e.kid.push_back(depth > 0 && g.chance(1, 2) ? index(depth - 1) : Ex::literal(g.chance(1, 12) ? MVal::unknown(INTEGER_TYPE) : MVal::integer((int32_t) g.range(0, 3))));
      return e;
    }
    if (!c.empty() && g.chance(4, 5)) return Ex::var(g.pick(c)->name, t);
    return lit(t);
  }
  Ex index(int depth)
  {
    if (g.chance(1, 2)) return leaf(INTEGER_TYPE, 0);
    return Ex::op("MOD", INTEGER_TYPE, {Ex::op("ABS", INTEGER_TYPE, {ex(INTEGER_TYPE, depth)}), Ex::literal(MVal::integer((int32_t) g.range(1, 4)))});
  }
  ValueType st() { return g.pick(palette); }
  ValueType num() { return g.chance(1, 2) ? INTEGER_TYPE : REAL_TYPE; }
  Ex anyArray()
  {
    std::vector<MVar *> a;
    for (MVar &v : vars) if (v.arr()) a.push_back(&v);
    if (!a.empty() && g.chance(4, 5)) { MVar *v = g.pick(a); return Ex::var(v->name, v->t); }
    return arrayLit((ValueType) (st() + ARRAY_TYPE));
  }
  std::vector<Ex> many(ValueType t, int depth, int lo, int hi)
  {
    std::vector<Ex> k;
    int n = (int) g.range(lo, g.chance(1, 5) ? hi : std::min(hi, lo + 2));
    for (int i = 0; i < n; ++i) k.push_back(ex(t, depth));
    return k;
  }

  Ex ex(ValueType t, int depth)
  {
    if (depth <= 0 || g.chance(1, 5)) return leaf(t, depth);
    switch (t) {
    case BOOLEAN_TYPE: switch (g.weighted({5, 2, 2, 6, 2, 3, 1})) {
      case 0: { static const char *o[] = {"AND", "OR", "XOR"}; std::string op = g.pick(o); return Ex::op(op, t, many(t, depth - 1, 1, maxArity)); }
      case 1: return Ex::op("NOT", t, {ex(t, depth - 1)});
      case 2: { Ex x = g.chance(1, 4) ? anyArray() : ex(st(), depth - 1); return Ex::op("IsKnown", t, {x}); }
      case 3: {
        static const char *o[] = {"GT", "GE", "LT", "LE", "EQNumeric", "NENumeric"};
        std::string op = g.pick(o);
        Ex x = ex(num(), depth - 1);
        Ex y = ex(num(), g.chance(1, 2) ? 0 : depth - 1);
        if (g.chance(1, 8)) y = x;
        return Ex::op(op, t, {x, y});
      }
      case 4: {
        static const char *o[] = {"EQString", "NEString", "LT", "GE", "GT", "LE"};
        std::string op = g.pick(o);
        Ex x = ex(STRING_TYPE, depth - 1), y = ex(STRING_TYPE, depth - 1);
        return Ex::op(op, t, {x, y});
      }
      case 5: {
        Ex x = anyArray();
        switch (g.draw(4)) {
        case 0: return Ex::op("ALL_KNOWN", t, {x});
        case 1: return Ex::op("ANY_KNOWN", t, {x});
        default: {
          std::vector<Ex> ys;
          for (MVar &v : vars) if (v.t == x.t) ys.push_back(Ex::var(v.name, v.t));
          Ex y = ys.empty() || g.chance(1, 4) ? arrayLit(x.t) : g.pick(ys);
          return Ex::op(g.chance(1, 2) ? "EQArray" : "NEArray", t, {x, y});
        }
        }
      }
      default: return Ex::op(g.chance(1, 2) ? "EQBoolean" : "NEBoolean", t, {ex(t, depth - 1), ex(t, depth - 1)});
      }
    case INTEGER_TYPE: switch (g.weighted({6, 3, 1, 1, 1, 1, 2})) {
      case 0: { static const char *o[] = {"ADD", "SUB", "MUL", "MIN", "MAX"}; std::string op = g.pick(o); return Ex::op(op, t, many(t, depth - 1, 1, maxArity)); }
      case 1: { std::string op = g.chance(1, 2) ? "MOD" : "DIV"; return Ex::op(op, t, {ex(t, depth - 1), ex(t, depth - 1)}); }
      case 2: return Ex::op("ABS", t, {ex(t, depth - 1)});
      case 3: { static const char *o[] = {"CEIL", "FLOOR", "ROUND", "TRUNC"}; std::string op = g.pick(o); return Ex::op(op, t, {ex(t, depth - 1)}); }
      case 4: { Ex x = anyArray(); return Ex::op(g.chance(1, 2) ? "ArraySize" : "ArrayMaxSize", t, {x}); }
      case 5: return Ex::op("STRLEN", t, {ex(STRING_TYPE, depth - 1)});
      default: return Ex::op("REAL_TO_INT", t, {ex(g.chance(1, 6) ? INTEGER_TYPE : REAL_TYPE, depth - 1)});
      }
    case REAL_TYPE: switch (g.weighted({6, 3, 1, 2, 2})) {
      case 0: {
        static const char *o[] = {"ADD", "SUB", "MUL", "MIN", "MAX"};
        std::string op = g.pick(o);
        std::vector<Ex> k;
        int n = (int) g.range(1, maxArity), r = (int) g.range(0, n - 1);
        for (int i = 0; i < n; ++i) k.push_back(ex(i == r ? REAL_TYPE : num(), depth - 1));
        return Ex::op(op, t, k);
      }
      case 1: {
        std::string op = g.chance(1, 2) ? "MOD" : "DIV";
        Ex x = ex(REAL_TYPE, depth - 1), y = ex(num(), depth - 1);
        if (g.chance(1, 2)) std::swap(x, y);
        return Ex::op(op, t, {x, y});
      }
      case 2: return Ex::op("ABS", t, {ex(t, depth - 1)});
      case 3: { static const char *o[] = {"CEIL", "FLOOR", "ROUND", "TRUNC"}; std::string op = g.pick(o); return Ex::op(op, t, {ex(t, depth - 1)}); }
      default: return Ex::op("SQRT", t, {ex(num(), depth - 1)});
      }
    case STRING_TYPE: return Ex::op("Concat", t, many(t, depth - 1, 1, std::min(maxArity, 5)));
    default: // arrays
      return leaf(t, 0);
    }
  }

  // ---- reference evaluation ----
  bool any = false;               // the language leaves this value (or the evaluation) open
  MVar const *find(std::string const &n) const { for (MVar const &v : vars) if (v.name == n) return &v; return nullptr; }

  MVal eval(Ex const &e)
  {
    switch (e.k) {
    case Ex::Lit: return e.lit;
    case Ex::Var: { MVar const *v = find(e.s); if (v->alias) return eval(v->of); MVal x = v->now(); x.t = v->t; return x; }
    case Ex::Elem: {
      MVar const *v = find(e.s);
      MVal i = eval(e.kid[0]), a = v->now();
      if (i.known && i.i < 0) { any = true; return MVal::unknown(e.t); }
      if (!i.known || !a.known) return MVal::unknown(e.t);
      if ((size_t) i.i >= a.el.size()) { any = true; return MVal::unknown(e.t); }
      MVal x = a.el[(size_t) i.i]; x.t = e.t;
      return x;
    }
    default: break;
    }
    std::vector<MVal> k;
    for (Ex const &x : e.kid) { k.push_back(eval(x)); k.back().t = x.t; }
    bool unk = false;
    for (MVal const &x : k) if (!x.known) unk = true;
    if (!unk && e.t == INTEGER_TYPE) { // overflow isn't defined
      __int128 r = k[0].i;
      if (e.s == "ABS" && r == INT32_MIN) any = true;
      if (e.s == "SUB" && k.size() == 1 && r == INT32_MIN) any = true;
      for (size_t i = 1; i < k.size(); ++i) {
        if (e.s == "ADD") r += k[i].i; else if (e.s == "SUB") r -= k[i].i; else if (e.s == "MUL") r *= k[i].i; else break;
        if (r < INT32_MIN || r > INT32_MAX) { any = true; break; }
      }
    }
    if (!unk && e.t == REAL_TYPE) {
      bool nan = false;
      for (MVal const &x : k) if (x.t == REAL_TYPE && std::isnan(x.r)) nan = true;
      if (nan && (e.s == "MIN" || e.s == "MAX" || e.s == "SQRT")) any = true;
    }
    MVal r = evalOp(e.s, e.t, k);
    if (r.known && r.t == REAL_TYPE && e.s == "MOD" && std::isnan(r.r)) {} // fmod(inf, x)
    return r;
  }

  // occurrences of variables, which activating the expression activates
  void leaves(Ex const &e, std::vector<std::string> &out) const
  {
    if (e.k == Ex::Var || e.k == Ex::Elem) out.push_back(e.s);
    for (Ex const &x : e.kid) leaves(x, out);
  }
};

struct Counter : ExpressionListener {
  long n = 0;
  void notifyChanged() override { ++n; }
};

struct Root {
  Ex e;
  std::string xml;
  ValueType desired = UNKNOWN_TYPE;
  Expression *x = nullptr;
  bool created = false;
  pugi::xml_document doc;
  Counter l[2];
  bool on[2] = {false, false};
  int count = 0;
  std::vector<std::string> leaves;
  // before the operation
  bool wasAny = false;
  MVal before;
  long n[2];
  ~Root() { if (x) { for (int i = 0; i < 2; ++i) if (on[i]) x->removeListener(&l[i]); } if (created) delete x; }
};

static bool openNumber(double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b; }

// The value of an active expression, by every way of asking for it.
static void checkValue(World &w, Expression *x, Ex const &e, std::string const &what)
{
  w.any = false;
  MVal v = w.eval(e);
  bool any = w.any;
  try {
    bool kn = x->isKnown();
    Value val = x->toValue();
    std::string str = x->valueString();
    if (any) { if (e.t == BOOLEAN_TYPE) { bool b; x->getValue(b); } return; }
    PBT_CHECK(kn == v.known, what << " is " << mstr(v) << " but isKnown() says " << kn);
    MVal got = fromValue(val);
    PBT_CHECK(got.known == v.known, what << " is " << mstr(v) << " but reads as " << mstr(got));
    if (v.known) {
      PBT_CHECK(val.valueType() == e.t, what << " is of type " << valueTypeName(e.t) << ", its value of type " << valueTypeName(val.valueType()));
      PBT_CHECK(same(val, v), what << " is " << mstr(v) << " but reads as " << mstr(got));
      PBT_CHECK(str == val.valueToString(), what << " prints as " << str << ", its value as " << val.valueToString());
    }
    switch (e.t) {
    case BOOLEAN_TYPE: { bool b = false; bool k = x->getValue(b); PBT_CHECK(k == v.known && (!k || b == v.b), what << " is " << mstr(v) << " but reads as " << (k ? b ? "true" : "false" : "unknown")); break; }
    case INTEGER_TYPE: {
      Integer i = 0; bool k = x->getValue(i);
      PBT_CHECK(k == v.known && (!k || i == v.i), what << " is " << mstr(v) << " but reads as " << (k ? std::to_string(i) : "unknown"));
      Real r = 0; k = x->getValue(r);
      PBT_CHECK(k == v.known && (!k || r == v.i), what << " is " << mstr(v) << " but reads as Real " << (k ? fmtReal(r) : "unknown"));
      break;
    }
    case REAL_TYPE: { Real r = 0; bool k = x->getValue(r); PBT_CHECK(k == v.known && (!k || openNumber(r, v.r)), what << " is " << mstr(v) << " but reads as " << (k ? fmtReal(r) : "unknown")); break; }
    case STRING_TYPE: {
      String s; bool k = x->getValue(s);
      PBT_CHECK(k == v.known && (!k || s == v.s), what << " is " << mstr(v) << " but reads as " << (k ? "\"" + s + "\"" : "unknown"));
      String const *p = nullptr; k = x->getValuePointer(p);
      PBT_CHECK(k == v.known && (!k || (p && *p == v.s)), what << " is " << mstr(v) << " but its pointer reads as " << (k && p ? "\"" + *p + "\"" : "unknown"));
      break;
    }
    default: {
      Array const *p = nullptr; bool k = x->getValuePointer(p);
      PBT_CHECK(k == v.known && (!k || (p && same(Value(*p), v))), what << " is " << mstr(v) << " but its pointer reads otherwise");
    }
    }
  }
  catch (PlanError const &er) { if (!any) PBT_FAIL(what << " is " << mstr(v) << " but reading it gives a plan error: " << er.what()); }
  catch (Error const &er) { PBT_FAIL(what << ": reading it gives an internal error: " << er.what()); }
}

// the expression within a node which declares the variables
static pugi::xml_node load(World &w, Root &r)
{
  r.xml = exXml(r.e);
  std::string x = "<Node NodeType=\"Empty\"><NodeId>Node</NodeId><VariableDeclarations>";
  for (MVar const &v : w.vars)
    if (v.arr()) x += "<DeclareArray><Name>" + v.name + "</Name><Type>" + typeTag(v.t) + "</Type>" + (v.maxSize >= 0 ? "<MaxSize>" + std::to_string(v.maxSize) + "</MaxSize>" : "") + "</DeclareArray>";
    else x += "<DeclareVariable><Name>" + v.name + "</Name><Type>" + typeTag(v.t) + "</Type></DeclareVariable>";
  x += "</VariableDeclarations><EndCondition>" + r.xml + "</EndCondition></Node>";
  pugi::xml_parse_result pr = r.doc.load_buffer(x.data(), x.size(), XML_OPTIONS);
  if (pr.status != pugi::status_ok) PBT_FAIL("generated XML: " << pr.description() << ": " << r.xml);
  return r.doc.document_element().child("EndCondition").first_child();
}

static bool makeRoot(World &w, Connector &c, Root &r)
{
  pugi::xml_node x = load(w, r);
  ValueType t = UNKNOWN_TYPE;
  try {
    t = checkExpression("Node", x, r.desired);
    r.x = createExpression(x, &c, r.created, r.desired);
  }
  catch (ParserException const &e) { PBT_FAIL("an expression which conforms to the language is refused: " << e.what() << "\n" << r.xml); }
  PBT_CHECK(r.x, "no expression made of " << r.xml);
  if (t != UNKNOWN_TYPE && t != ARRAY_TYPE) PBT_CHECK(t == r.e.t, "checked as of type " << valueTypeName(t) << " rather than " << valueTypeName(r.e.t) << ": " << r.xml);
  PBT_CHECK(r.x->valueType() == r.e.t, "of type " << valueTypeName(r.x->valueType()) << " rather than " << valueTypeName(r.e.t) << ": " << r.xml);
  return true;
}

static std::string describe(World &w)
{
  std::string s;
  for (MVar &v : w.vars) {
    s += v.name + " " + valueTypeName(v.t) + (v.maxSize >= 0 ? "(" + std::to_string(v.maxSize) + ")" : "");
    if (v.alias) s += " alias of " + exXml(v.of); else if (v.hasInit) s += " := " + mstr(v.init);
    s += "\n";
  }
  return s;
}

// ---------------------------------------------------------------- C03
static size_t countOps(Ex const &e, std::map<std::string, long> &ops)
{
  size_t n = 0;
  if (e.k == Ex::Op) { ++n; ++ops[e.s + "/" + std::to_string(std::min<size_t>(e.kid.size(), 5))]; }
  for (Ex const &k : e.kid) n += countOps(k, ops);
  return n;
}

static void c03(Gen &g, Ctx &ctx)
{
  World w(g, g.chance(2, 3));
  w.genVars((int) g.range(0, 5));
  w.build();
  Connector c; c.v = &w.vars;
  Root r;
  ValueType t = g.pick(SCALARS);
  if (g.chance(1, 8)) { // what a conversion yields is up to its use
    static const char *o[] = {"CEIL", "FLOOR", "ROUND", "TRUNC"};
    std::string op = g.pick(o);
    t = w.num(); r.desired = t;
    ValueType k = w.num();
    r.e = Ex::op(op, t, {w.ex(k, (int) g.range(0, 2))});
  }
  else {
    r.e = w.ex(t, (int) g.range(1, 4));
    if (r.e.k == Ex::Op && t != INTEGER_TYPE && t != REAL_TYPE && g.chance(1, 2)) r.desired = t;
  }
  std::map<std::string, long> ops;
  size_t n = countOps(r.e, ops);
  if (n > 300) throw pbt::Discard();
  makeRoot(w, c, r);
  ctx.sample = describe(w) + r.xml;
  ctx.addHash(ctx.sample);
  for (auto const &p : ops) ctx.label("operator " + p.first);
  std::set<std::string> results;
  long unknowns = 0, opens = 0;
  r.x->activate();
  for (MVar &v : w.vars) { v.obj->activate(); }
  std::vector<std::string> lv;
  w.leaves(r.e, lv);
  for (std::string const &s : lv) for (MVar &v : w.vars) if (v.name == s) v.activate();
  for (MVar &v : w.vars) v.activate();
  for (int k = 0, m = (int) g.range(1, 6); ; ++k) {
    w.any = false;
    MVal v = w.eval(r.e);
    if (w.any) ++opens; else { if (!v.known) ++unknowns; results.insert(mstr(v)); }
    std::string at = "with";
    for (MVar &x : w.vars) at += " " + x.name + "=" + mstr(x.now());
    if (w.vars.empty()) at = "with no variables";
    checkValue(w, r.x, r.e, at + ", " + r.xml);
    if (k >= m || w.vars.empty()) break;
    for (int j = 0, q = (int) g.range(1, 3); j < q; ++j) {
      MVar &x = w.vars[g.draw(w.vars.size())];
      MVal nv = w.near(x.now(), x.t, x.maxSize);
      x.val = nv.known && x.arr() ? x.pad(nv) : nv;
      if (nv.known) x.var()->setValue(mkValue(nv)); else x.var()->setUnknown();
      ctx.addHash(mstr(nv));
    }
  }
  r.x->deactivate();
  for (MVar &v : w.vars) v.obj->deactivate();
  if (r.created) { delete r.x; r.created = false; r.x = nullptr; }
  ctx.nontrivial = n >= 2 && !results.empty();
  ctx.label("results unknown", unknowns);
  ctx.label("results left open (overflow, index out of range)", opens);
  ctx.label("several results", results.size() > 1);
}

// ---------------------------------------------------------------- C04
struct Elem { Root r; Assignable *a = nullptr; bool saved = false; size_t idx = 0; MVal val; std::string arr; int count = 0; };

static void c04(Gen &g, Ctx &ctx)
{
  World w(g, g.chance(1, 6));
  w.maxArity = g.chance(1, 4) ? 6 : 3;
  if (g.chance(3, 4)) { // few types, so that expressions have much in common
    w.palette.clear();
    w.palette.push_back(g.pick(SCALARS));
    if (g.chance(1, 2)) w.palette.push_back(g.chance(1, 2) ? INTEGER_TYPE : BOOLEAN_TYPE);
  }
  w.genVars((int) g.range(2, 5));
  w.build();
  Connector c; c.v = &w.vars;
  std::vector<std::unique_ptr<Root>> roots, aliased;
  // aliases of expressions, as a library call makes them
  size_t plain = w.vars.size();
  std::vector<MVar> al;
  for (int i = 0, m = g.chance(1, 3) ? (int) g.range(1, 2) : 0; i < m; ++i) {
    auto r = std::unique_ptr<Root>(new Root);
    ValueType t = w.st();
    r->e = w.ex(t, (int) g.range(0, 2));
    makeRoot(w, c, *r);
    MVar v;
    v.name = "a" + std::to_string(i);
    v.t = t; v.alias = true; v.of = r->e;
    v.obj.reset(new Alias(v.name.c_str(), r->x, false));
    al.push_back(std::move(v));
    aliased.push_back(std::move(r));
  }
  for (MVar &v : al) w.vars.push_back(std::move(v));
  int nr = (int) g.range(1, 3);
  for (int i = 0; i < nr; ++i) {
    auto r = std::unique_ptr<Root>(new Root);
    r->e = w.ex(g.chance(1, 3) ? BOOLEAN_TYPE : w.st(), (int) g.range(1, 3));
    std::map<std::string, long> ops;
    if (countOps(r->e, ops) > 200) throw pbt::Discard();
    makeRoot(w, c, *r);
    roots.push_back(std::move(r));
  }
  // assignable elements
  std::vector<std::unique_ptr<Elem>> elems;
  for (size_t k = 0; k < plain; ++k) if (w.vars[k].arr() && g.chance(2, 3)) {
    auto e = std::unique_ptr<Elem>(new Elem);
    e->arr = w.vars[k].name;
    e->r.e.k = Ex::Elem; e->r.e.t = elType(w.vars[k].t); e->r.e.s = w.vars[k].name;
    e->r.e.kid.push_back(w.index(1));
    pugi::xml_node x = load(w, e->r);
    try {
      checkAssignable("Node", x);
      e->a = createAssignable(x, &c, e->r.created);
    }
    catch (ParserException const &er) { PBT_FAIL("an array element is refused as a target: " << er.what() << "\n" << e->r.xml); }
    e->r.x = e->a;
    elems.push_back(std::move(e));
  }
  std::vector<Root *> all;
  for (auto &r : roots) all.push_back(r.get());
  for (auto &r : aliased) all.push_back(r.get());
  for (auto &e : elems) all.push_back(&e->r);
  for (Root *r : all) w.leaves(r->e, r->leaves);
  std::string &log = ctx.sample;
  log = describe(w);
  for (size_t k = 0; k < all.size(); ++k) log += "e" + std::to_string(k) + " = " + all[k]->xml + "\n";

  long changes = 0, notified = 0;
  auto activate = [&](Root *r) {
    r->x->activate();
    if (r->count++ == 0 || r->e.k == Ex::Var) for (std::string const &s : r->leaves) for (MVar &v : w.vars) if (v.name == s) v.activate();
  };
  auto deactivate = [&](Root *r) {
    r->x->deactivate();
    if (--r->count == 0 || r->e.k == Ex::Var) for (std::string const &s : r->leaves) for (MVar &v : w.vars) if (v.name == s) --v.count;
  };
  // is everything the expression depends on through aliases active as well?
  std::function<bool(Ex const &)> live = [&](Ex const &e) -> bool {
    if (e.k == Ex::Var) {
      MVar const *v = w.find(e.s);
      if (v->alias) for (auto &r : aliased) if (exXml(r->e) == exXml(v->of)) { if (!r->count) return false; }
      if (v->alias) return live(v->of);
    }
    for (Ex const &k : e.kid) if (!live(k)) return false;
    return true;
  };
  auto snapshot = [&] {
    for (Root *r : all) { w.any = false; r->before = w.eval(r->e); r->wasAny = w.any; r->n[0] = r->l[0].n; r->n[1] = r->l[1].n; }
  };
  std::vector<int> actBefore(all.size());
  auto check = [&](std::string const &op) {
    for (size_t k = 0; k < all.size(); ++k) {
      Root *r = all[k];
      std::string nm = "after " + op + ", e" + std::to_string(k) + " = " + r->xml;
      if (r->count > 0) PBT_CHECK(r->x->isActive(), nm << " isn't active though activated " << r->count << " times more than deactivated");
      else if (!r->leaves.empty() && r->e.k != Ex::Var) PBT_CHECK(!r->x->isActive(), nm << " is active though deactivated as often as activated");
      if (!r->count || !live(r->e)) continue;
      checkValue(w, r->x, r->e, nm);
      w.any = false;
      MVal now = w.eval(r->e);
      if (actBefore[k] && !w.any && !r->wasAny && !(now.known == r->before.known && (!now.known || meq(now, r->before) || (now.t == REAL_TYPE && std::isnan(now.r) && std::isnan(r->before.r))))) {
        ++changes;
        for (int i = 0; i < 2; ++i) if (r->on[i]) {
          PBT_CHECK(r->l[i].n > r->n[i], nm << " changed from " << mstr(r->before) << " to " << mstr(now) << " without notifying its listener");
          ++notified;
        }
      }
    }
    for (MVar &v : w.vars) if (!v.alias) {
      PBT_CHECK(v.obj->isActive() == (v.count > 0), "after " << op << ", " << v.name << (v.count > 0 ? " isn't active" : " is active") << "; activations less deactivations: " << v.count);
      checkValue(w, v.obj.get(), Ex::var(v.name, v.t), "after " + op + ", " + v.name);
    }
  };
  for (Root *r : all) if (g.chance(5, 6)) activate(r);
  for (size_t k = 0; k < plain; ++k) if (g.chance(1, 2)) { w.vars[k].obj->activate(); w.vars[k].activate(); }
  for (size_t k = plain; k < w.vars.size(); ++k) { w.vars[k].obj->activate(); w.vars[k].activate(); }
  for (Root *r : all) for (int i = 0; i < 2; ++i) if (g.chance(i ? 1 : 4, 5)) { r->x->addListener(&r->l[i]); r->on[i] = true; }
  for (size_t k = 0; k < all.size(); ++k) actBefore[k] = 0;
  snapshot();
  check("the beginning");
  std::vector<int> extra(plain, 0); // activations of ours of variables
  for (size_t k = 0; k < plain; ++k) extra[k] = w.vars[k].count;
  for (Root *r : all) if (r->count) for (std::string const &s : r->leaves) for (size_t k = 0; k < plain; ++k) if (w.vars[k].name == s) --extra[k];

  int steps = (int) g.range(1, 40);
  for (int s = 0; s < steps; ++s) {
    snapshot();
    for (size_t k = 0; k < all.size(); ++k) actBefore[k] = all[k]->count > 0 && live(all[k]->e);
    std::string op;
    size_t vi = g.draw(plain);
    MVar &v = w.vars[vi];
    switch (g.weighted({12, 2, 2, 6, 3, 3, 2, 3, 2, 2, 2, 2})) {
    case 0: { // set
      if (!v.count) continue;
      MVal nv = w.near(v.val, v.t, v.maxSize);
      op = v.name + " := " + mstr(nv);
      if (nv.known) v.var()->setValue(mkValue(nv)); else v.var()->setValue(mkValue(nv));
      v.val = nv.known && v.arr() ? v.pad(nv) : nv;
      break;
    }
    case 1: { // from an expression
      if (!v.count || v.arr()) continue;
      std::vector<Root *> src;
      for (Root *r : all) if (r->count && live(r->e) && (r->e.t == v.t || (v.t == REAL_TYPE && r->e.t == INTEGER_TYPE))) { w.any = false; w.eval(r->e); if (!w.any) src.push_back(r); }
      if (src.empty()) continue;
      Root *r = g.pick(src);
      w.any = false;
      MVal nv = w.eval(r->e);
      if (nv.known && nv.t == STRING_TYPE && nv.s.size() > 200) continue;
      if (v.t == REAL_TYPE && nv.t == INTEGER_TYPE) nv = nv.known ? MVal::real(nv.i) : MVal::unknown(REAL_TYPE);
      op = v.name + " := " + r->xml;
      v.var()->setValue(r->x->toValue());
      v.val = nv;
      break;
    }
    case 2:
      if (!v.count) continue;
      op = v.name + " := unknown";
      v.var()->setUnknown();
      v.val = MVal::unknown(v.t);
      break;
    case 3: { // element
      if (elems.empty()) continue;
      Elem &e = *g.pick(elems);
      MVar *a = nullptr;
      for (MVar &x : w.vars) if (x.name == e.arr) a = &x;
      if (!e.r.count || !live(e.r.e)) continue;
      w.any = false;
      MVal i = w.eval(e.r.e.kid[0]);
      if (w.any) continue;
      MVal nv = w.value(e.r.e.t, -1, 4);
      if (a->val.known && i.known && i.i >= 0 && (size_t) i.i < a->val.el.size() && g.chance(1, 4)) nv = a->val.el[(size_t) i.i];
      nv.t = e.r.e.t;
      bool ok = a->val.known && i.known && i.i >= 0 && (size_t) i.i < a->val.el.size();
      op = e.r.xml + " := " + mstr(nv);
      bool unk = !nv.known && g.chance(1, 2), thr = false;
      bool save = g.chance(1, 2);
      try {
        if (save) { e.a->saveCurrentValue(); }
        if (unk) e.a->setUnknown(); else e.a->setValue(mkValue(nv));
      }
      catch (PlanError const &er) { thr = true; if (ok) PBT_FAIL("after " << op << ": " << er.what()); }
      if (thr || !ok) { // nothing is written; end this history, as a plan would be
        check(op + " (not possible)");
        s = steps;
        continue;
      }
      if (save) { e.saved = true; e.idx = (size_t) i.i; e.val = a->val.el[e.idx]; MVal sv = fromValue(e.a->getSavedValue()); MVal ev = e.val; ev.t = sv.t = e.r.e.t; PBT_CHECK(sv.known == ev.known && (!sv.known || meq(sv, ev)), "after " << op << ": the value saved is " << mstr(sv) << " rather than " << mstr(ev)); }
      a->val.el[(size_t) i.i] = nv;
      break;
    }
    case 4: // save
      if (!v.count) continue;
      op = "saving " + v.name;
      v.var()->saveCurrentValue();
      v.saved = v.val; v.savedValid = true;
      { MVal sv = fromValue(v.var()->getSavedValue()); PBT_CHECK(sv.known == v.saved.known && (!sv.known || meq(sv, v.saved)), op << " = " << mstr(v.saved) << " saved " << mstr(sv)); }
      break;
    case 5: // restore
      if (!v.count || !v.savedValid) continue;
      op = "restoring " + v.name;
      v.var()->restoreSavedValue();
      v.val = v.saved;
      break;
    case 6: { // restore an element
      if (elems.empty()) continue;
      Elem &e = *g.pick(elems);
      MVar *a = nullptr;
      for (MVar &x : w.vars) if (x.name == e.arr) a = &x;
      if (!e.saved || !e.r.count || !a->count) continue;
      if (a->val.known && e.idx >= a->val.el.size()) continue;
      op = "restoring " + e.r.xml;
      e.a->restoreSavedValue();
      if (a->val.known) { a->val.el[e.idx] = e.val; e.saved = false; }
      break;
    }
    case 7: { Root *r = all[g.draw(all.size())]; if (r->count > 3) continue; op = "activating " + r->xml; activate(r); break; }
    case 8: { Root *r = all[g.draw(all.size())]; if (!r->count) continue; op = "deactivating " + r->xml; deactivate(r); break; }
    case 9: if (v.count > 6) continue; op = "activating " + v.name; v.obj->activate(); v.activate(); ++extra[vi]; break;
    case 10: if (extra[vi] <= 0) continue; op = "deactivating " + v.name; v.obj->deactivate(); --v.count; --extra[vi]; break;
    default: {
      Root *r = all[g.draw(all.size())];
      int i = (int) g.draw(2);
      if (r->on[i]) r->x->removeListener(&r->l[i]); else r->x->addListener(&r->l[i]);
      r->on[i] = !r->on[i];
      op = (r->on[i] ? "listening to " : "no longer listening to ") + r->xml;
      for (int j = 0; j < 2; ++j) r->n[j] = r->l[j].n;
      break;
    }
    }
    log += op + "\n";
    check(op);
  }
  ctx.addHash(log);
  // take it all down
  for (Root *r : all) { for (int i = 0; i < 2; ++i) if (r->on[i]) { r->x->removeListener(&r->l[i]); r->on[i] = false; } while (r->count) deactivate(r); }
  for (size_t k = 0; k < plain; ++k) while (extra[k]-- > 0) { w.vars[k].obj->deactivate(); --w.vars[k].count; }
  for (size_t k = plain; k < w.vars.size(); ++k) { w.vars[k].obj->deactivate(); --w.vars[k].count; }
  for (MVar &v : w.vars) {
    if (!v.alias) PBT_CHECK(!v.obj->isActive() && !v.obj->isKnown(), v.name << " is still active though all its activations have been undone");
  }
  elems.clear(); roots.clear();
  for (MVar &v : w.vars) if (v.alias) v.obj.reset();
  aliased.clear();
  ctx.nontrivial = changes >= 2 && notified >= 1;
  ctx.label("changes of active expressions", changes);
  ctx.label("with aliases", w.vars.size() > plain);
  ctx.label("with elements", !elems.empty());
}

int main(int argc, char **argv)
{
  return pbt::main(argc, argv, {
    {"C03", c03, 600000, 60000000, "Random expression trees over all operators, each with 1 to 6 operands, variables of all types and literals (two thirds with extreme values), made by the plan parser and evaluated for up to 7 sets of values through every accessor; the oracle is a reference evaluator written from the language definition. Non-trivial: at least 2 operators and a value the language prescribes.",
     {"Integer overflow, the minimum of NaNs and the root of NaN aren't defined by the language and not judged", "an array index out of range may be refused or give unknown"}, 2000, init},
    {"C04", c04, 160000, 20000000, "Random graphs of expressions over shared variables, arrays, elements and aliases with listeners; histories of activations, deactivations, settings, element writes, saving and restoring, and changes of listeners. After each operation every expression's value is compared with the reference evaluator's, and an expression whose value changed must have notified its listeners. Non-trivial: at least 2 changes of active expressions, one of them with a listener.",
     {"variables are set only while active, as the executive does", "a history ends when a plan error is raised"}, 1000, init},
  });
}
