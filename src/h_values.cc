// C11 (equality, ordering, copies), C12 (serialization), C13 (literals and printing)
#include "genval.hh"
#include "PlexilTypeTraits.hh"
#include "State.hh"
#include "Error.hh"
#include "PlanError.hh"
#include "ParserException.hh"
#include "CommandHandle.hh"
#include "NodeConstants.hh"
#include <algorithm>
#include <cerrno>
#include <functional>
#include <cstring>
#include <cctype>
#include <map>
#include <memory>
#include <set>
using namespace PLEXIL;
using pbt::Gen; using pbt::Ctx;

// ---------------------------------------------------------------- C11

struct MState { std::string name; std::vector<MVal> p; };
static bool meq(MState const &a, MState const &b)
{
  if (a.name != b.name || a.p.size() != b.p.size()) return false;
  for (size_t i = 0; i < a.p.size(); ++i) if (!meq(a.p[i], b.p[i])) return false;
  return true;
}
static std::string mstr(MState const &s)
{
  std::string r = s.name + "(";
  for (size_t i = 0; i < s.p.size(); ++i) r += (i ? ", " : "") + mstr(s.p[i]);
  return r + ")";
}
static MState genState(Gen &g)
{
  static const char *names[] = {"a", "b", "ab", "time", ""};
  MState s; s.name = g.pick(names);
  size_t n = (size_t) g.range(0, 3);
  for (size_t i = 0; i < n; ++i) s.p.push_back(genValue(g, false));
  return s;
}
static MState nearState(Gen &g, MState s)
{
  switch (g.weighted({2, 4, 1, 1, 1})) {
  case 0: break;
  case 1: if (s.p.size()) { size_t k = g.draw(s.p.size()); s.p[k] = genNear(g, s.p[k]); } break;
  case 2: s.p.push_back(genValue(g, false)); break;
  case 3: s.name += "b"; break;
  default: if (s.p.size()) s.p.pop_back(); break;
  }
  return s;
}
static State mkState(Gen &g, MState const &s)
{
  std::vector<Value> v;
  for (MVal const &m : s.p) v.push_back(mkValue(m, (int) g.range(0, 2)));
  switch (g.weighted({2, 1, 1})) {
  case 0: return State(s.name, v);
  case 1: {
    State st(s.name, s.p.size());
    for (size_t i = 0; i < v.size(); ++i) st.setParameter(i, v[i]);
    return st;
  }
  default: {
    State st;
    st.setName(s.name);
    st.setParameterCount(s.p.size() + 1);
    for (size_t i = v.size(); i-- > 0;) st.setParameter(i, v[i]);
    st.setParameterCount(s.p.size());
    return st;
  }
  }
}
static bool sameState(State const &s, MState const &m)
{
  if (s.name() != m.name || s.parameterCount() != m.p.size()) return false;
  for (size_t i = 0; i < m.p.size(); ++i)
    if (!same(s.parameter(i), m.p[i])) return false;
  return true;
}

template <typename V, typename M, typename N>
static void laws(V const &a, V const &b, V const &c, M const &ma, M const &mb, M const &mc, N name)
{
  auto cmp = [](V const &x, V const &y) { return x < y ? -1 : y < x ? 1 : 0; };
  V const *v[3] = {&a, &b, &c};
  M const *m[3] = {&ma, &mb, &mc};
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) {
      bool e = *v[i] == *v[j], lt = *v[i] < *v[j], gt = *v[j] < *v[i], me = meq(*m[i], *m[j]);
      PBT_CHECK(e == me, name << ": " << mstr(*m[i]) << " == " << mstr(*m[j]) << " gives " << e << ", expected " << me);
      PBT_CHECK(!(lt && gt), name << ": " << mstr(*m[i]) << " and " << mstr(*m[j]) << " are each less than the other");
      PBT_CHECK(e == (!lt && !gt), name << ": " << mstr(*m[i]) << " and " << mstr(*m[j]) << ": equal " << e << " less " << lt << " greater " << gt);
    }
  if (cmp(a, b) <= 0 && cmp(b, c) <= 0)
    PBT_CHECK(cmp(a, c) <= 0 && (cmp(a, c) == 0) == (cmp(a, b) == 0 && cmp(b, c) == 0),
              name << ": not transitive on " << mstr(ma) << ", " << mstr(mb) << ", " << mstr(mc));
}

static void orders(Value const &a, Value const &b, std::string const &d)
{
  bool lt = a < b, gt = b < a, eq = a == b;
  PBT_CHECK((a != b) == !eq, "!= disagrees with == on " << d);
  PBT_CHECK((a > b) == gt, "> disagrees with < on " << d);
  PBT_CHECK((a <= b) == (lt || eq), "<= disagrees on " << d);
  PBT_CHECK((a >= b) == (gt || eq), ">= disagrees on " << d);
}

// the arrays' own operators, not through Value
template <typename T> static void arrayLaws(MVal const &x, MVal const &y, T d1, T d2)
{
  ArrayImpl<T> a = mkArray<T>(x, d1, true), b = mkArray<T>(y, d2, true);
  bool me = meq(x, y);
  Array const &ga = a, &gb = b;
  PBT_CHECK((a == b) == me, "array == gives " << (a == b) << " for " << mstr(x) << " and " << mstr(y));
  PBT_CHECK((ga == gb) == me, "generic array == gives " << (ga == gb) << " for " << mstr(x) << " and " << mstr(y));
  PBT_CHECK((a != b) == !me, "array != wrong for " << mstr(x) << " and " << mstr(y));
  bool lt = a < b, gt = b < a;
  PBT_CHECK(me == (!lt && !gt) && !(lt && gt), "array order: " << mstr(x) << " and " << mstr(y) << " less " << lt << " greater " << gt << " equal " << me);
  PBT_CHECK((a <= b) == !gt && (a >= b) == !lt && (a > b) == gt, "array order operators disagree: " << mstr(x) << ", " << mstr(y));
  PBT_CHECK(a.size() == x.el.size(), "array size");
  bool all = true, any = false;
  for (auto const &e : x.el) { all = all && e.known; any = any || e.known; }
  PBT_CHECK(a.anyElementsKnown() == any, "anyElementsKnown of " << mstr(x));
  PBT_CHECK(a.allElementsKnown() == all, "allElementsKnown of " << mstr(x));
}

static void pool(Gen &g, Ctx &ctx)
{
  // A pool of values mutated by copies, moves and assignments of every kind, with a model alongside.
  const size_t N = 4;
  std::vector<Value> v(N);
  std::vector<MVal> m(N);
  std::vector<bool> gone(N, false);      // moved from: may only be assigned to
  std::ostringstream tr;
  size_t steps = (size_t) g.range(1, 20);
  for (size_t s = 0; s < steps; ++s) {
    size_t i = g.draw(N), j = g.draw(N);
    MVal x = genValue(g);
    switch (g.weighted({5, 5, 2, 3, 4, 1, 1})) {
    case 0: // construct and move-assign
      tr << "v" << i << " = " << mstr(x) << "\n";
      v[i] = mkValue(x, 7); m[i] = x; gone[i] = false; break;
    case 1: // copy-assign (also self-assignment)
      if (gone[j]) break;
      tr << "v" << i << " = v" << j << "\n";
      v[i] = v[j]; m[i] = m[j]; gone[i] = false; break;
    case 2: // move-assign
      if (gone[j] || i == j) break;
      tr << "v" << i << " = move(v" << j << ")\n";
      v[i] = std::move(v[j]); m[i] = m[j]; gone[i] = false; gone[j] = true; break;
    case 3: { // copy- and move-construct
      if (gone[j]) break;
      tr << "v" << i << " = Value(Value(v" << j << "))\n";
      Value c(v[j]); Value d(std::move(c)); c = Value(1);
      PBT_CHECK(same(d, m[j]), "move construction of " << mstr(m[j]) << " gave " << d << "\n" << tr.str());
      v[i] = d; m[i] = m[j]; gone[i] = false; break;
    }
    case 4: // assignment from the C++ type
      if (!x.known) break;
      tr << "v" << i << " <- " << mstr(x) << "\n";
      m[i] = x; gone[i] = false;
      switch (x.t) {
      case BOOLEAN_TYPE: v[i] = x.b; break;
      case INTEGER_TYPE: v[i] = x.i; break;
      case REAL_TYPE: v[i] = x.r; break;
      case STRING_TYPE: if (g.chance(1, 3)) { v[i] = x.s.c_str(); m[i].s = x.s.c_str(); } else v[i] = x.s; break;
      case BOOLEAN_ARRAY_TYPE: v[i] = mkArray<bool>(x, true, true); break;
      case INTEGER_ARRAY_TYPE: v[i] = mkArray<int32_t>(x, 5, true); break;
      case REAL_ARRAY_TYPE: v[i] = mkArray<double>(x, 5, true); break;
      case STRING_ARRAY_TYPE: v[i] = mkArray<std::string>(x, "z", true); break;
      case NODE_STATE_TYPE: v[i] = (NodeState) x.code; break;
      case OUTCOME_TYPE: v[i] = (NodeOutcome) x.code; break;
      case FAILURE_TYPE: v[i] = (FailureType) x.code; break;
      case COMMAND_HANDLE_TYPE: v[i] = (CommandHandleValue) x.code; break;
      default: break;
      }
      break;
    case 5: // set unknown
      if (gone[i]) break;
      tr << "v" << i << ".setUnknown()\n";
      v[i].setUnknown();
      PBT_CHECK(!v[i].isKnown(), "known after setUnknown\n" << tr.str());
      m[i] = MVal::unknown(v[i].valueType());
      break;
    default: { // from a vector of values
      static const ValueType ts[] = {INTEGER_TYPE, BOOLEAN_TYPE, REAL_TYPE, STRING_TYPE};
      ValueType t = g.pick(ts);
      size_t n = 1 + g.draw(4), firstKnown = g.draw(n);
      std::vector<Value> vs; std::vector<MVal> ms;
      for (size_t k = 0; k < n; ++k) {
        MVal e = (k != firstKnown && g.chance(1, 3)) ? MVal::unknown(t) : genScalar(g, t);
        ms.push_back(e); vs.push_back(mkValue(e));
      }
      tr << "v" << i << " = vector " << mstr(MVal::array((ValueType) (t + ARRAY_TYPE), ms)) << "\n";
      v[i] = Value(vs); m[i] = MVal::array((ValueType) (t + ARRAY_TYPE), ms); gone[i] = false;
      break;
    }
    }
    for (size_t k = 0; k < N; ++k)
      if (!gone[k])
        PBT_CHECK(same(v[k], m[k]), "value " << k << " should be " << mstr(m[k]) << " but is " << v[k] << " (type " << valueTypeName(v[k].valueType()) << ") after\n" << tr.str());
  }
  ctx.addHash(tr.str());
  ctx.nontrivial = steps >= 3;
  ctx.sample = tr.str();
}

static void arrayPool(Gen &g, Ctx &ctx)
{ // array objects under element operations, copies and resizes
  std::ostringstream tr;
  auto run = [&](auto tag) {
    typedef decltype(tag) T;
    const size_t N = 3;
    std::vector<std::unique_ptr<ArrayImpl<T> > > a;
    std::vector<std::vector<MVal> > m(N);
    for (size_t k = 0; k < N; ++k) a.emplace_back(new ArrayImpl<T>());
    size_t steps = (size_t) g.range(1, 25);
    for (size_t s = 0; s < steps; ++s) {
      size_t i = g.draw(N), j = g.draw(N);
      switch (g.weighted({3, 5, 3, 2, 3, 1, 2, 1})) {
      case 0: { size_t n = (size_t) g.range(0, 6); tr << "resize " << i << " to " << n << "\n"; a[i]->resize(n); m[i].resize(n, MVal::unknown(MT<T>::t)); break; }
      case 1: { size_t k = g.draw(8); MVal e = genScalar(g, MT<T>::t); tr << i << "[" << k << "] = " << mstr(e) << "\n";
        try { a[i]->setElement(k, MT<T>::get(e)); PBT_CHECK(true, ""); } catch (Error const &) { PBT_CHECK(k >= m[i].size(), "setElement threw inside bounds"); }
        if (k < m[i].size()) m[i][k] = e; break; }
      case 2: { size_t k = g.draw(8); MVal e = g.chance(1, 3) ? MVal::unknown(MT<T>::t) : genScalar(g, MT<T>::t); tr << i << "[" << k << "] =value " << mstr(e) << "\n";
        try { a[i]->setElementValue(k, mkValue(e)); } catch (Error const &) { PBT_CHECK(k >= m[i].size(), "setElementValue threw inside bounds"); }
        if (k < m[i].size()) m[i][k] = e; break; }
      case 3: { size_t k = g.draw(8); tr << i << "[" << k << "] unknown\n";
        try { a[i]->setElementUnknown(k); } catch (Error const &) { PBT_CHECK(k >= m[i].size(), "setElementUnknown threw inside bounds"); }
        if (k < m[i].size()) m[i][k] = MVal::unknown(MT<T>::t); break; }
      case 4: tr << i << " = " << j << "\n"; if (g.chance(1, 2)) *a[i] = *a[j]; else { Array &ga = *a[i]; ga = (Array const &) *a[j]; } m[i] = m[j]; break;
      case 5: { tr << i << " = clone " << j << "\n"; Array *c = a[j]->clone(); a[i].reset(dynamic_cast<ArrayImpl<T> *>(c)); PBT_CHECK(a[i], "clone has another type"); m[i] = m[j]; break; }
      case 6: { tr << i << " = move(copy of " << j << ")\n"; ArrayImpl<T> c(*a[j]); if (g.chance(1, 2)) *a[i] = std::move(c); else a[i].reset(new ArrayImpl<T>(std::move(c))); m[i] = m[j]; break; }
      default: tr << "reset " << i << "\n"; a[i]->reset(); for (auto &e : m[i]) e = MVal::unknown(MT<T>::t); break;
      }
      for (size_t k = 0; k < N; ++k) {
        MVal mv = MVal::array(MT<T>::at, m[k]);
        PBT_CHECK(sameArray<T>(Value(*a[k]), mv), "array " << k << " should be " << mstr(mv) << " but is " << *a[k] << " after\n" << tr.str());
        for (size_t q = 0; q < 9; ++q) { // also beyond the end
          T e = T();
          bool kn = false;
          Value val;
          try { kn = a[k]->getElement(q, e); val = a[k]->getElementValue(q); } catch (Error const &) { PBT_CHECK(q >= m[k].size(), "getElement threw inside bounds"); }
          bool mk = q < m[k].size() && m[k][q].known;
          PBT_CHECK(kn == mk && val.isKnown() == mk, "element " << q << " of " << mstr(mv) << " known: " << kn << " value " << val << "\n" << tr.str());
        }
      }
      for (size_t x = 0; x < N; ++x) for (size_t y = 0; y < N; ++y) {
        bool me = meq(MVal::array(MT<T>::at, m[x]), MVal::array(MT<T>::at, m[y]));
        PBT_CHECK((*a[x] == *a[y]) == me, "arrays " << *a[x] << " and " << *a[y] << " compare equal: " << !me << " after\n" << tr.str());
        bool lt = *a[x] < *a[y], gt = *a[y] < *a[x];
        PBT_CHECK(me == (!lt && !gt) && !(lt && gt), "arrays " << *a[x] << " and " << *a[y] << " less " << lt << " greater " << gt << " after\n" << tr.str());
      }
    }
    ctx.nontrivial = steps >= 4;
  };
  switch (g.draw(4)) { case 0: run((int32_t) 0); break; case 1: run(false); break; case 2: run(0.0); break; default: run(std::string()); }
  ctx.addHash(tr.str());
  ctx.sample = tr.str();
}

static void stateMap(Gen &g, Ctx &ctx)
{ // containers keyed by state
  std::vector<MState> base;
  size_t nb = 1 + g.draw(4);
  for (size_t i = 0; i < nb; ++i) base.push_back(i && g.chance(2, 3) ? nearState(g, base[g.draw(base.size())]) : genState(g));
  std::map<State, int> sut;
  std::vector<std::pair<MState, int> > mod;
  std::ostringstream tr;
  size_t n = 4 + g.draw(30);
  for (size_t k = 0; k < n; ++k) {
    MState s = g.chance(1, 2) ? g.pick(base) : nearState(g, g.pick(base));
    State st = mkState(g, s);
    PBT_CHECK(sameState(st, s), "constructed state differs: " << st << " expected " << mstr(s));
    State cp(st), as; as = st;
    State mv(std::move(cp));
    PBT_CHECK(sameState(as, s) && sameState(mv, s) && sameState(st, s), "copied state differs from " << mstr(s));
    auto it = std::find_if(mod.begin(), mod.end(), [&](std::pair<MState, int> const &p) { return meq(p.first, s); });
    auto f = sut.find(st);
    tr << (it == mod.end() ? "new " : "old ") << mstr(s) << "\n";
    PBT_CHECK((f == sut.end()) == (it == mod.end()), "find(" << mstr(s) << ") " << (f == sut.end() ? "misses an equal state" : "finds another state"));
    if (it != mod.end()) PBT_CHECK(f->second == it->second, "find(" << mstr(s) << ") found a different state");
    switch (g.draw(3)) {
    case 0: case 1: sut[st] = (int) k; if (it != mod.end()) it->second = (int) k; else mod.emplace_back(s, (int) k); break;
    default: sut.erase(st); if (it != mod.end()) mod.erase(it); break;
    }
    PBT_CHECK(sut.size() == mod.size(), "size " << sut.size() << " expected " << mod.size());
  }
  ctx.nontrivial = n >= 6;
  ctx.addHash(tr.str());
  ctx.sample = tr.str();
}

template <typename T>
static void getter(Value const &v, MVal const &m, ValueType t, char const *what)
{
  T x = T(); bool got = false, refused = false;
  try { got = v.getValue(x); } catch (PlanError const &) { refused = true; } catch (Error const &) { refused = true; }
  bool fits = m.t == t || (t == REAL_TYPE && m.t == INTEGER_TYPE);
  PBT_CHECK(m.known && !fits ? !got : got == m.known && !refused, "reading " << mstr(m) << " as " << what << (refused ? " was refused" : got ? " gave something" : " gave nothing"));
}
template <typename T>
static void pointer(Value const &v, MVal const &m, bool fits, char const *what)
{
  T const *x = nullptr; bool got = false, refused = false;
  try { got = v.getValuePointer(x); } catch (PlanError const &) { refused = true; } catch (Error const &) { refused = true; }
  PBT_CHECK(m.known && !fits ? !got : got == m.known && !refused && !x == !got, "pointing to " << mstr(m) << " as " << what << (refused ? " was refused" : got ? " gave something" : " gave nothing"));
}
// A value is read as what it is, and as nothing else.
static void getters(Value const &v, MVal const &m)
{
  getter<Boolean>(v, m, BOOLEAN_TYPE, "Boolean"); getter<Integer>(v, m, INTEGER_TYPE, "Integer"); getter<Real>(v, m, REAL_TYPE, "Real"); getter<String>(v, m, STRING_TYPE, "String");
  getter<NodeState>(v, m, NODE_STATE_TYPE, "state"); getter<NodeOutcome>(v, m, OUTCOME_TYPE, "outcome"); getter<FailureType>(v, m, FAILURE_TYPE, "failure"); getter<CommandHandleValue>(v, m, COMMAND_HANDLE_TYPE, "handle");
  pointer<String>(v, m, m.t == STRING_TYPE, "String"); pointer<Array>(v, m, m.isArray(), "Array");
  pointer<BooleanArray>(v, m, m.t == BOOLEAN_ARRAY_TYPE, "BooleanArray"); pointer<IntegerArray>(v, m, m.t == INTEGER_ARRAY_TYPE, "IntegerArray");
  pointer<RealArray>(v, m, m.t == REAL_ARRAY_TYPE, "RealArray"); pointer<StringArray>(v, m, m.t == STRING_ARRAY_TYPE, "StringArray");
}

static void c11(Gen &g, Ctx &ctx)
{
  switch (g.weighted({5, 3, 2, 2, 2})) {
  case 0: {
    MVal a = genValue(g), b = genNear(g, a), c = genNear(g, g.chance(1, 2) ? a : b);
    Value va = mkValue(a, 1), vb = mkValue(b, 2), vc = mkValue(c, 3);
    laws(va, vb, vc, a, b, c, "Value");
    getters(va, a); getters(vb, b);
    orders(va, vb, mstr(a) + ", " + mstr(b)); orders(vb, vc, mstr(b) + ", " + mstr(c));
    if (a.isArray() && a.known && b.known && b.t == a.t)
      switch (a.t) {
      case BOOLEAN_ARRAY_TYPE: arrayLaws<bool>(a, b, true, false); break;
      case INTEGER_ARRAY_TYPE: arrayLaws<int32_t>(a, b, 1, 2); break;
      case REAL_ARRAY_TYPE: arrayLaws<double>(a, b, 1, 2); break;
      default: arrayLaws<std::string>(a, b, "p", "q"); break;
      }
    ctx.label("values");
    ctx.sample = mstr(a) + " | " + mstr(b) + " | " + mstr(c);
    ctx.addHash(ctx.sample);
    ctx.nontrivial = a.known || b.known;
    break;
  }
  case 1: {
    MState a = genState(g), b = nearState(g, a), c = nearState(g, g.chance(1, 2) ? a : b);
    State sa = mkState(g, a), sb = mkState(g, b), sc = mkState(g, c);
    laws(sa, sb, sc, a, b, c, "State");
    ctx.label("states");
    ctx.sample = mstr(a) + " | " + mstr(b) + " | " + mstr(c);
    ctx.addHash(ctx.sample);
    ctx.nontrivial = a.p.size() > 0 && b.p.size() > 0;
    break;
  }
  case 2: ctx.label("value pool"); pool(g, ctx); break;
  case 3: ctx.label("array pool"); arrayPool(g, ctx); break;
  default: ctx.label("state map"); stateMap(g, ctx); break;
  }
}

// ---------------------------------------------------------------- C12

struct Buf { // exactly sized, so that ASan sees any overrun, with a canary to see underruns
  size_t n; std::unique_ptr<char[]> p;
  explicit Buf(size_t s) : n(s), p(new char[s ? s : 1]) { memset(p.get(), 0x5a, s); }
};

static size_t genSize(Gen &g)
{
  static const size_t edge[] = {0, 1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 1000, 4096, 65535, 65536, 65537};
  switch (g.weighted({6, 3, 1})) {
  case 0: return (size_t) g.range(0, 6);
  case 1: return edge[g.draw(20)];
  default: return g.pick(edge);
  }
}

static MVal genSer(Gen &g)
{
  if (g.chance(1, 12)) return MVal::unknown(g.pick(USER_TYPES));
  ValueType t = g.chance(1, 8) ? COMMAND_HANDLE_TYPE : g.pick(USER_TYPES);
  if (t > ARRAY_TYPE && t < ARRAY_TYPE_MAX) return genArray(g, t, genSize(g));
  if (t == STRING_TYPE && g.chance(1, 2)) return MVal::string(std::string(genSize(g), (char) g.draw(256)));
  return genScalar(g, t);
}

template <typename T> static void typedRound(T const &x, T y, std::function<bool(T const &, T const &)> eq, std::string const &d)
{
  size_t n = serialSize(x);
  Buf b(n);
  char *e = serialize(x, b.p.get());
  PBT_CHECK(e == b.p.get() + n, d << ": announced size " << n << ", wrote " << (e ? e - b.p.get() : -1));
  char const *r = deserialize(y, (char const *) b.p.get());
  PBT_CHECK(r == b.p.get() + n, d << ": wrote " << n << " bytes, read " << (r ? r - b.p.get() : -1));
  PBT_CHECK(eq(x, y), d << ": read back a different value");
}

static void c12(Gen &g, Ctx &ctx)
{
  std::ostringstream tr;
  switch (g.weighted({5, 3, 2, 1})) {
  case 0: case 1: { // a sequence of values and states back to back
    size_t n = 1 + g.draw(5);
    struct It { bool isState; MVal v; MState s; };
    std::vector<It> items;
    std::vector<Value> vs; std::vector<State> ss;
    size_t total = 0;
    std::vector<size_t> sizes;
    for (size_t k = 0; k < n; ++k) {
      It it; it.isState = g.chance(1, 3);
      if (it.isState) {
        it.s.name = g.chance(1, 4) ? std::string(genSize(g), 'n') : genString(g);
        size_t np = g.chance(1, 10) ? 100 + g.draw(300) : (size_t) g.range(0, 4);
        for (size_t q = 0; q < np; ++q) it.s.p.push_back(np > 10 ? MVal::integer((int32_t) q) : genSer(g));
        tr << "state " << (np > 10 ? it.s.name + " with " + std::to_string(np) + " parameters" : mstr(it.s)) << "\n";
        ss.push_back(mkState(g, it.s)); vs.emplace_back();
        sizes.push_back(serialSize(ss.back()));
      }
      else {
        it.v = genSer(g);
        tr << mstr(it.v) << "\n";
        vs.push_back(mkValue(it.v, 9)); ss.emplace_back();
        sizes.push_back(serialSize(vs.back()));
        PBT_CHECK(vs.back().serialSize() == sizes.back(), "two announced sizes for " << mstr(it.v));
      }
      items.push_back(it);
      total += sizes.back();
    }
    Buf b(total);
    char *p = b.p.get();
    for (size_t k = 0; k < n; ++k) {
      char *q = items[k].isState ? serialize(ss[k], p) : serialize(vs[k], p);
      PBT_CHECK(q == p + sizes[k], "item " << k << ": announced " << sizes[k] << " bytes, wrote " << (q ? q - p : -1) << "\n" << tr.str());
      p = q;
    }
    char const *r = b.p.get();
    Value reused; State reusedS("old", Value(3), Value("x")); // receivers keep what the last item left
    if (g.chance(1, 2)) reused = mkValue(genValue(g), 3);
    for (size_t k = 0; k < n; ++k) {
      char const *q;
      if (items[k].isState) {
        q = deserialize(reusedS, r);
        PBT_CHECK(q == r + sizes[k], "item " << k << ": wrote " << sizes[k] << " bytes, read " << (q ? q - r : -1) << "\n" << tr.str());
        PBT_CHECK(reusedS.name() == items[k].s.name && reusedS.parameterCount() == items[k].s.p.size(), "item " << k << ": state read back as " << reusedS.name() << "\n" << tr.str());
        for (size_t z = 0; z < items[k].s.p.size(); ++z)
          PBT_CHECK(same(reusedS.parameter(z), items[k].s.p[z], true), "item " << k << ": parameter " << z << " read back as " << reusedS.parameter(z) << "\n" << tr.str());
      }
      else {
        q = deserialize(reused, r);
        PBT_CHECK(q == r + sizes[k], "item " << k << ": wrote " << sizes[k] << " bytes, read " << (q ? q - r : -1) << "\n" << tr.str());
        PBT_CHECK(same(reused, items[k].v, true), "item " << k << ": read back as a value of type " << valueTypeName(reused.valueType()) << (items[k].v.isArray() ? "" : " " + reused.valueToString()) << "\n" << tr.str());
      }
      r = q;
    }
    ctx.label("items", (long) n);
    break;
  }
  case 2: { // the typed functions
    MVal v; do v = genSer(g); while (!v.known);
    tr << "typed " << mstr(v) << "\n";
    switch (v.t) {
    case BOOLEAN_TYPE: typedRound<bool>(v.b, g.chance(1, 2), std::equal_to<bool>(), tr.str()); break;
    case INTEGER_TYPE: typedRound<int32_t>(v.i, 77, std::equal_to<int32_t>(), tr.str()); break;
    case REAL_TYPE: typedRound<double>(v.r, 7.5, [](double a, double b) { return memcmp(&a, &b, 8) == 0; }, tr.str()); break;
    case STRING_TYPE: typedRound<std::string>(v.s, "old contents", std::equal_to<std::string>(), tr.str()); break;
    case COMMAND_HANDLE_TYPE: typedRound<CommandHandleValue>((CommandHandleValue) v.code, NO_COMMAND_HANDLE, std::equal_to<CommandHandleValue>(), tr.str()); break;
    case BOOLEAN_ARRAY_TYPE: typedRound<BooleanArray>(mkArray<bool>(v, true, true), BooleanArray(3), [&](BooleanArray const &, BooleanArray const &y) { return sameArray<bool>(Value(y), v); }, tr.str()); break;
    case INTEGER_ARRAY_TYPE: typedRound<IntegerArray>(mkArray<int32_t>(v, 5, true), IntegerArray(300), [&](IntegerArray const &, IntegerArray const &y) { return sameArray<int32_t>(Value(y), v); }, tr.str()); break;
    case REAL_ARRAY_TYPE: typedRound<RealArray>(mkArray<double>(v, 5, true), RealArray(2, 1.0), [&](RealArray const &, RealArray const &y) { return sameArray<double>(Value(y), v); }, tr.str()); break;
    case STRING_ARRAY_TYPE: typedRound<StringArray>(mkArray<std::string>(v, "dd", true), StringArray(1, "q"), [&](StringArray const &, StringArray const &y) { return sameArray<std::string>(Value(y), v); }, tr.str()); break;
    default: break;
    }
    ctx.label("typed");
    break;
  }
  default: { // a reader of another type refuses and changes nothing it should not
    MVal v; do v = genSer(g); while (!v.known || v.el.size() > 300);
    Value x = mkValue(v, 1);
    Buf b(serialSize(x));
    serialize(x, b.p.get());
    tr << "mismatch " << mstr(v) << "\n";
    bool bo = true; int32_t in = 5; double re = 6; std::string st = "s";
    if (v.t != BOOLEAN_TYPE) PBT_CHECK(!deserialize(bo, (char const *) b.p.get()) && bo, "Boolean read from " << tr.str());
    if (v.t != INTEGER_TYPE) PBT_CHECK(!deserialize(in, (char const *) b.p.get()) && in == 5, "Integer read from " << tr.str());
    if (v.t != REAL_TYPE) PBT_CHECK(!deserialize(re, (char const *) b.p.get()) && re == 6, "Real read from " << tr.str());
    if (v.t != STRING_TYPE) PBT_CHECK(!deserialize(st, (char const *) b.p.get()) && st == "s", "String read from " << tr.str());
    State sta;
    PBT_CHECK(!deserialize(sta, (char const *) b.p.get()), "State read from " << tr.str());
    if (v.t != INTEGER_ARRAY_TYPE) { IntegerArray a; PBT_CHECK(!deserialize(a, (char const *) b.p.get()), "IntegerArray read from " << tr.str()); }
    if (v.t != STRING_ARRAY_TYPE) { StringArray a; PBT_CHECK(!deserialize(a, (char const *) b.p.get()), "StringArray read from " << tr.str()); }
    if (v.t != BOOLEAN_ARRAY_TYPE) { BooleanArray a; PBT_CHECK(!deserialize(a, (char const *) b.p.get()), "BooleanArray read from " << tr.str()); }
    if (v.t != REAL_ARRAY_TYPE) { RealArray a; PBT_CHECK(!deserialize(a, (char const *) b.p.get()), "RealArray read from " << tr.str()); }
    ctx.label("mismatch");
    break;
  }
  }
  ctx.sample = tr.str();
  ctx.addHash(ctx.sample);
  ctx.nontrivial = true;
}

// ---------------------------------------------------------------- C13

enum Exp { MUST, MUST_NOT, MAY };   // accepted with the value; rejected; either, but if accepted with the value

static std::string mutate(Gen &g, std::string s)
{
  static const char alpha[] = "0123456789+-.eExX abcfUNKOW\"\t_,";
  size_t k = (size_t) g.range(1, 2);
  for (size_t i = 0; i < k; ++i) {
    size_t p = g.draw(s.size() + 1);
    switch (g.draw(4)) {
    case 0: s.insert(p, 1, alpha[g.draw(sizeof alpha - 1)]); break;
    case 1: if (p < s.size()) s.erase(p, 1); break;
    case 2: if (p < s.size()) s[p] = alpha[g.draw(sizeof alpha - 1)]; break;
    default: s += alpha[g.draw(sizeof alpha - 1)]; break;
    }
  }
  return s;
}

static Exp classifyInt(std::string const &s0, long long &v)
{
  std::string s = s0;
  bool soft = false;
  size_t p = 0;
  while (p < s.size() && isspace((unsigned char) s[p])) { ++p; soft = true; }
  s = s.substr(p);
  size_t q = 0; bool neg = false;
  if (q < s.size() && (s[q] == '+' || s[q] == '-')) { neg = s[q] == '-'; if (s[q] == '+') soft = true; ++q; }
  int base = 10;
  if (s.size() > q + 2 && s[q] == '0' && (s[q + 1] == 'x' || s[q + 1] == 'X')) { base = 16; q += 2; soft = true; }
  else if (s.size() > q + 1 && s[q] == '0') { base = 8; soft = true; ++q; }
  if (q >= s.size()) return MUST_NOT;
  unsigned long long acc = 0;
  for (; q < s.size(); ++q) {
    int d = isdigit((unsigned char) s[q]) ? s[q] - '0' : isxdigit((unsigned char) s[q]) ? tolower(s[q]) - 'a' + 10 : 99;
    if (d >= base) return MUST_NOT;
    if (acc < (1ull << 50)) acc = acc * (unsigned) base + (unsigned) d;
  }
  v = neg ? -(long long) acc : (long long) acc;
  if (v > INT32_MAX || v < INT32_MIN) return MUST_NOT;
  return soft ? MAY : MUST;
}

static Exp classifyReal(std::string const &s0, double &v)
{
  size_t p = 0; bool soft = false;
  while (p < s0.size() && isspace((unsigned char) s0[p])) { ++p; soft = true; }
  std::string s = s0.substr(p);
  size_t q = 0;
  if (q < s.size() && (s[q] == '+' || s[q] == '-')) { if (s[q] == '+') soft = true; ++q; }
  if (s.size() > q + 1 && s[q] == '0' && (s[q + 1] == 'x' || s[q + 1] == 'X')) return (Exp) 99; // hexadecimal: not judged
  size_t digits = 0;
  while (q < s.size() && isdigit((unsigned char) s[q])) { ++q; ++digits; }
  if (q < s.size() && s[q] == '.') { ++q; if (!digits) soft = true; size_t f = 0; while (q < s.size() && isdigit((unsigned char) s[q])) { ++q; ++f; } if (!f) soft = true; digits += f; }
  if (!digits) return MUST_NOT;
  if (q < s.size() && (s[q] == 'e' || s[q] == 'E')) {
    ++q;
    if (q < s.size() && (s[q] == '+' || s[q] == '-')) ++q;
    size_t e = 0; while (q < s.size() && isdigit((unsigned char) s[q])) { ++q; ++e; }
    if (!e) return MUST_NOT;
  }
  if (q != s.size()) return MUST_NOT;
  v = (double) strtold(s.c_str(), nullptr); // reference: through extended precision
  double d2 = strtod(s.c_str(), nullptr);
  if (std::isinf(d2)) return MUST_NOT;
  v = d2;
  return soft ? MAY : MUST;
}

template <typename T> static int tryParse(std::string const &s, T &x, std::string &err) // 1 known, 0 unknown, -1 rejected
{
  try { return parseValue<T>(s, x) ? 1 : 0; }
  catch (ParserException const &e) { err = e.what(); return -1; }
}

template <typename T> static std::string printed(T const &x) { std::ostringstream os; printValue(x, os); return os.str(); }

static void c13(Gen &g, Ctx &ctx)
{
  std::string err;
  switch (g.weighted({4, 5, 2, 3, 3, 3})) {
  case 0: { // Integer
    long long n = genInt(g);
    if (g.chance(1, 5)) n += (long long) g.range(-2, 2) + (g.chance(1, 2) ? INT32_MAX : 0);
    if (g.chance(1, 12)) n = (long long) g.draw(~0ull) ;
    std::string s = std::to_string(n);
    if (g.chance(1, 6)) { char b[32]; snprintf(b, sizeof b, "%s0x%llx", n < 0 ? "-" : "", n < 0 ? -(unsigned long long) n : (unsigned long long) n); s = b; }
    bool mut = g.chance(1, 3);
    if (mut) s = mutate(g, s);
    if (g.chance(1, 40)) s = "UNKNOWN";
    ctx.sample = "Integer \"" + s + "\"";
    int32_t x = 1234567;
    int r = tryParse(s, x, err);
    if (s == "UNKNOWN" || s.empty()) { PBT_CHECK(r == 0 && x == 1234567, "\"" << s << "\" not read as unknown"); break; }
    long long v = 0;
    Exp e = classifyInt(s, v);
    if (e == MUST) PBT_CHECK(r == 1, "Integer literal \"" << s << "\" rejected: " << err);
    if (e == MUST_NOT) PBT_CHECK(r == -1, "\"" << s << "\" is not an Integer literal, but was read as " << x);
    if (e == MUST_NOT || r != 1) { PBT_CHECK(x == 1234567, "result changed although \"" << s << "\" was rejected"); }
    if (r == 1) {
      PBT_CHECK(x == v, "Integer literal \"" << s << "\" read as " << x);
      int32_t y; PBT_CHECK(tryParse(printed(x), y, err) == 1 && y == x, x << " printed as " << printed(x));
      PBT_CHECK(Value(x).valueToString() == printed(x) && printed(x) == std::to_string(x), x << " printed as " << printed(x) << " and " << Value(x));
    }
    ctx.nontrivial = true; ctx.label(e == MUST_NOT ? "integer refused" : "integer");
    break;
  }
  case 1: { // Real
    std::string s;
    if (g.chance(1, 3)) { char b[64]; snprintf(b, sizeof b, g.chance(1, 2) ? "%.17g" : "%.6f", genReal(g)); s = b; }
    else {
      if (g.chance(1, 3)) s += "-";
      size_t n = 1 + g.draw(15);
      for (size_t k = 0; k < n; ++k) s += (char) ('0' + g.draw(10));
      if (g.chance(2, 3)) s.insert(s[0] == '-' ? 1 + g.draw(s.size()) : g.draw(s.size() + 1), ".");
      if (g.chance(1, 3)) s += (g.chance(1, 2) ? "e" : "E") + std::to_string(g.range(-320, 320));
    }
    if (g.chance(1, 4)) s = mutate(g, s);
    if (g.chance(1, 40)) s = "UNKNOWN";
    ctx.sample = "Real \"" + s + "\"";
    double x = 1234.5;
    int r = tryParse(s, x, err);
    if (s == "UNKNOWN" || s.empty()) { PBT_CHECK(r == 0 && x == 1234.5, "\"" << s << "\" not read as unknown"); break; }
    double v = 0;
    Exp e = classifyReal(s, v);
    if (e == (Exp) 99) throw pbt::Discard();
    if (e == MUST) PBT_CHECK(r == 1, "Real literal \"" << s << "\" rejected: " << err);
    if (e == MUST_NOT && s.find_first_of("nN") == std::string::npos) PBT_CHECK(r == -1, "\"" << s << "\" is not a Real literal, but was read as " << x);
    if (r == 1 && e != MUST_NOT) {
      PBT_CHECK(x == v, "Real literal \"" << s << "\" read as " << x);
      if (std::fabs(x) < 1.797693134862315e308) {
        double y = 0;
        std::string pr = printed(x);
        PBT_CHECK(tryParse(pr, y, err) == 1, "Real printed as " << pr << " which is not accepted");
        if (x == 0 || std::fabs(x) > 1e-300) PBT_CHECK(std::fabs(y - x) <= std::fabs(x) * 5.1e-15, s << " printed as " << pr);
        PBT_CHECK(Value(x).valueToString() == pr, "Value prints " << Value(x) << ", printValue " << pr);
        int sig = 0; bool lead = true;
        for (char c : s) { if (c == 'e' || c == 'E') break; if (isdigit((unsigned char) c)) { if (c != '0') lead = false; if (!lead) ++sig; } }
        if (sig <= 15 && std::fabs(x) > 1e-300) PBT_CHECK(y == x, "literal " << s << " of " << sig << " digits printed as " << pr);
      }
    }
    ctx.nontrivial = true; ctx.label(e == MUST_NOT ? "real refused" : "real");
    break;
  }
  case 2: { // Boolean
    static const char *lits[] = {"true", "false", "TRUE", "False", "1", "0", "tRuE", "UNKNOWN", "unknown", "", "truee", "tru", "10", "01", "yes", "f", " true", "false "};
    std::string s = g.pick(lits);
    if (g.chance(1, 3)) s = mutate(g, s);
    ctx.sample = "Boolean \"" + s + "\"";
    std::string l = s; for (char &c : l) c = (char) tolower(c);
    int want = s == "UNKNOWN" ? 0 : (l == "true" || l == "1") ? 2 : (l == "false" || l == "0") ? 1 : -1;
    bool x = g.chance(1, 2), before = x;
    int r = tryParse(s, x, err);
    if (want == -1) PBT_CHECK(r == -1 || (s.empty() && r == 0), "\"" << s << "\" is not a Boolean literal, but was read");
    else if (want == 0) PBT_CHECK(r == 0 && x == before, "UNKNOWN not read as unknown");
    else {
      PBT_CHECK(r == 1 && x == (want == 2), "Boolean literal \"" << s << "\" misread");
      bool y = !x; PBT_CHECK(tryParse(printed(x), y, err) == 1 && y == x, "Boolean printed as " << printed(x));
      PBT_CHECK(Value(x).valueToString() == printed(x), "Value prints " << Value(x));
    }
    ctx.nontrivial = true; ctx.label("boolean");
    break;
  }
  case 3: { // String
    std::string s = genString(g, 30), x = "before";
    s = s.c_str();
    ctx.sample = "String " + mstr(MVal::string(s));
    PBT_CHECK(tryParse(s, x, err) == 1 && x == s, "String literal " << ctx.sample << " read as " << mstr(MVal::string(x)));
    PBT_CHECK(printed(s) == s && Value(s).valueToString() == s, "String printed as " << printed(s));
    ctx.nontrivial = s.size() > 0; ctx.label("string");
    break;
  }
  case 4: { // names of constants and types, and near misses
    static const char *st[] = {"INACTIVE", "WAITING", "EXECUTING", "ITERATION_ENDED", "FINISHED", "FAILING", "FINISHING"};
    static const char *oc[] = {"SUCCESS", "FAILURE", "SKIPPED", "INTERRUPTED"};
    static const char *fa[] = {"PRE_CONDITION_FAILED", "POST_CONDITION_FAILED", "INVARIANT_CONDITION_FAILED", "PARENT_FAILED", "EXITED", "PARENT_EXITED"};
    static const char *ha[] = {"COMMAND_SENT_TO_SYSTEM", "COMMAND_ACCEPTED", "COMMAND_RCVD_BY_SYSTEM", "COMMAND_FAILED", "COMMAND_DENIED", "COMMAND_SUCCESS", "COMMAND_ABORTED", "COMMAND_ABORT_FAILED", "COMMAND_INTERFACE_ERROR"};
    static const std::pair<const char *, ValueType> ty[] = {{"Boolean", BOOLEAN_TYPE}, {"Integer", INTEGER_TYPE}, {"Real", REAL_TYPE}, {"String", STRING_TYPE}, {"Date", DATE_TYPE}, {"Duration", DURATION_TYPE},
      {"BooleanArray", BOOLEAN_ARRAY_TYPE}, {"IntegerArray", INTEGER_ARRAY_TYPE}, {"RealArray", REAL_ARRAY_TYPE}, {"StringArray", STRING_ARRAY_TYPE},
      {"NodeState", NODE_STATE_TYPE}, {"NodeOutcome", OUTCOME_TYPE}, {"NodeFailure", FAILURE_TYPE}, {"NodeCommandHandle", COMMAND_HANDLE_TYPE}};
    static const NodeState stv[] = {INACTIVE_STATE, WAITING_STATE, EXECUTING_STATE, ITERATION_ENDED_STATE, FINISHED_STATE, FAILING_STATE, FINISHING_STATE};
    static const NodeOutcome ocv[] = {SUCCESS_OUTCOME, FAILURE_OUTCOME, SKIPPED_OUTCOME, INTERRUPTED_OUTCOME};
    static const FailureType fav[] = {PRE_CONDITION_FAILED, POST_CONDITION_FAILED, INVARIANT_CONDITION_FAILED, PARENT_FAILED, EXITED, PARENT_EXITED};
    static const CommandHandleValue hav[] = {COMMAND_SENT_TO_SYSTEM, COMMAND_ACCEPTED, COMMAND_RCVD_BY_SYSTEM, COMMAND_FAILED, COMMAND_DENIED, COMMAND_SUCCESS, COMMAND_ABORTED, COMMAND_ABORT_FAILED, COMMAND_INTERFACE_ERROR};
    std::vector<std::string> all;
    for (auto s : st) all.push_back(s);
    for (auto s : oc) all.push_back(s);
    for (auto s : fa) all.push_back(s);
    for (auto s : ha) all.push_back(s);
    for (auto const &p : ty) all.push_back(p.first);
    std::string s = g.pick(all);
    if (g.chance(1, 3)) s = mutate(g, s);
    ctx.sample = "name \"" + s + "\"";
    NodeState es = NO_NODE_STATE; NodeOutcome eo = NO_OUTCOME; FailureType ef = NO_FAILURE; CommandHandleValue eh = NO_COMMAND_HANDLE; ValueType et = UNKNOWN_TYPE;
    for (size_t i = 0; i < 7; ++i) if (s == st[i]) es = stv[i];
    for (size_t i = 0; i < 4; ++i) if (s == oc[i]) eo = ocv[i];
    for (size_t i = 0; i < 6; ++i) if (s == fa[i]) ef = fav[i];
    for (size_t i = 0; i < 9; ++i) if (s == ha[i]) eh = hav[i];
    for (auto const &p : ty) if (s == p.first) et = p.second;
    PBT_CHECK(parseNodeState(s) == es && parseNodeState(s.c_str()) == es, "\"" << s << "\" as a node state");
    PBT_CHECK(parseNodeOutcome(s) == eo && parseNodeOutcome(s.c_str()) == eo, "\"" << s << "\" as an outcome");
    PBT_CHECK(parseFailureType(s) == ef && parseFailureType(s.c_str()) == ef, "\"" << s << "\" as a failure type");
    PBT_CHECK(parseCommandHandleValue(s) == eh, "\"" << s << "\" as a command handle");
    if (s != "Array" && s != "State") PBT_CHECK(parseValueType(s) == et && parseValueType(s.c_str()) == et, "\"" << s << "\" as a type");
    if (es != NO_NODE_STATE) PBT_CHECK(nodeStateName(es) == s && printed(es) == s && Value(es).valueToString() == s && isNodeStateValid(es), "node state " << s << " printed as " << printed(es));
    if (eo != NO_OUTCOME) PBT_CHECK(outcomeName(eo) == s && printed(eo) == s && Value(eo).valueToString() == s && isNodeOutcomeValid(eo), "outcome " << s << " printed as " << printed(eo));
    if (ef != NO_FAILURE) PBT_CHECK(failureTypeName(ef) == s && printed(ef) == s && Value(ef).valueToString() == s && isFailureTypeValid(ef), "failure " << s << " printed as " << printed(ef));
    if (eh != NO_COMMAND_HANDLE) PBT_CHECK(commandHandleValueName(eh) == s && printed(eh) == s && Value(eh).valueToString() == s && isCommandHandleValid(eh), "handle " << s << " printed as " << printed(eh));
    if (et != UNKNOWN_TYPE) PBT_CHECK(valueTypeName(et) == s, "type " << s << " printed as " << valueTypeName(et));
    ctx.nontrivial = true; ctx.label("names");
    break;
  }
  default: { // printed arrays
    ValueType t = USER_TYPES[4 + g.draw(4)];
    MVal v = genArray(g, t, (size_t) g.range(0, 8));
    std::string want = "#(";
    for (size_t k = 0; k < v.el.size(); ++k) { if (k) want += ' '; want += v.el[k].known ? mkValue(v.el[k]).valueToString() : "UNKNOWN"; }
    want += ")";
    std::string got = mkValue(v, 4).valueToString();
    ctx.sample = "array " + mstr(v);
    PBT_CHECK(got == want, mstr(v) << " printed as " << got << ", expected " << want);
    ctx.nontrivial = v.el.size() > 1; ctx.label("arrays");
    break;
  }
  }
  ctx.addHash(ctx.sample);
}

static void init() { Error::doThrowExceptions(); PlanError::doThrowExceptions(); }

int main(int argc, char **argv)
{
  return pbt::main(argc, argv, {
    {"C11", c11, 300000, 6000000, "Values of every type (edge-biased scalars, arrays with unknown elements and stale contents), triples of near-equal values and states compared against a reference equality; histories of copies, moves, assignments and element writes on pools of values and arrays against a model; containers keyed by states. Non-trivial: at least one known value, two states with parameters, or three or more operations.", {"NaN is excluded: it is not equal to itself by IEEE 754", "a moved-from value is only assigned to or destroyed"}, 2000, init},
    {"C12", c12, 60000, 1500000, "Sequences of values, arrays (sizes around byte and 2- and 3-byte length boundaries, unknown elements), command handles and states written back to back into an exactly sized buffer and read back into reused objects; typed functions; readers of the wrong type. Every case is non-trivial.", {"the type of an unknown value is not serialized; sizes above 2^24 are not generated"}, 500, init},
    {"C13", c13, 400000, 8000000, "Literals of every type from a grammar plus random edits, classified by an independent grammar as accepted with a value, refused or either; printed forms of values read back. Non-trivial: everything except empty strings and arrays of fewer than two elements.", {"leading blanks, an explicit plus sign, hexadecimal and C octal notation may be accepted or refused, but not misread; C locale"}, 4000, init},
  });
}
