// C09: lookups, the state cache and change thresholds
#include "pbt.hh"
#include "genval.hh"
#include "plexpr.hh"
#include "plexil-config.h"
#include "CachedValue.hh"
#include "Constant.hh"
#include "Dispatcher.hh"
#include "Error.hh"
#include "ExprVec.hh"
#include "ExpressionListener.hh"
#include "InterfaceError.hh"
#include "Lookup.hh"
#include "LookupReceiver.hh"
#include "PlanError.hh"
#include "State.hh"
#include "StateCache.hh"
#include "StateCacheEntry.hh"
#include "UserVariable.hh"
#include <cmath>
#include <functional>
#include <memory>
#include <set>
using namespace PLEXIL;
using pbt::Gen; using pbt::Ctx;

// ---------------------------------------------------------------- the world
struct Rec { std::string key; MVal v; };
static std::string keyOf(State const &s)
{
  std::string k = s.name();
  for (Value const &v : s.parameters()) {
    MVal m = fromValue(v);
    if (m.t == INTEGER_TYPE) m = MVal::real(m.i);
    if (m.t == REAL_TYPE) m.r += 0.0;
    k += "|" + mstr(m);
  }
  return k;
}
struct Disp : Dispatcher {
  std::map<std::string, MVal> world;                 // what a query is answered with; absent: not at all
  std::vector<Rec> supplied;                         // in this operation
  std::set<std::string> asked, reals;                // reals: states which have been given a Real (the first value decides the type)
  std::function<ValueType(std::string const &)> typeOf;
  MVal fit(std::string const &k, MVal v)
  {
    if (typeOf(k) != REAL_TYPE || !v.known) return v;
    if (v.t == INTEGER_TYPE && !reals.count(k)) v = MVal::real(v.i);
    reals.insert(k); return v;
  }
  struct Th { bool set = false, real = false; double hi = 0, lo = 0; };
  std::map<std::string, Th> th;
  void lookupNow(State const &s, LookupReceiver *r) override
  {
    std::string k = keyOf(s); asked.insert(k);
    auto it = world.find(k);
    if (it == world.end()) return;
    MVal v = fit(k, it->second);
    supplied.push_back({k, v});
    give(r, v);
  }
  static void give(LookupReceiver *r, MVal const &v)
  {
    if (!v.known) { r->setUnknown(); return; }
    switch (v.t) { // by each of the ways there are
    case BOOLEAN_TYPE: r->update(v.b); break;
    case INTEGER_TYPE: r->update(v.i); break;
    case REAL_TYPE: r->update(v.r); break;
    case STRING_TYPE: if ((v.s.size() & 1) && v.s.find((char) 0) == std::string::npos) r->update(v.s.c_str()); else r->update(v.s); break;
    case INTEGER_ARRAY_TYPE: case REAL_ARRAY_TYPE: case BOOLEAN_ARRAY_TYPE: case STRING_ARRAY_TYPE: {
      bool all = true; for (MVal const &e : v.el) if (!e.known) all = false;
      if (!all) { r->update(mkValue(v)); break; }
      size_t n = v.el.size();
      if (v.t == INTEGER_ARRAY_TYPE) { std::vector<Integer> a; for (MVal const &e : v.el) a.push_back(e.i); r->update(a.data(), n); }
      else if (v.t == REAL_ARRAY_TYPE) { std::vector<Real> a; for (MVal const &e : v.el) a.push_back(e.r); r->update(a.data(), n); }
      else if (v.t == STRING_ARRAY_TYPE) { std::vector<String> a; for (MVal const &e : v.el) a.push_back(e.s); r->update(a.data(), n); }
      else { std::unique_ptr<Boolean[]> a(new Boolean[n + 1]); for (size_t i = 0; i < n; ++i) a[i] = v.el[i].b; r->update(a.get(), n); }
      break;
    }
    default: r->update(mkValue(v)); break;
    }
  }
  void setThresholds(State const &s, Real hi, Real lo) override { th[keyOf(s)] = {true, true, hi, lo}; }
  void setThresholds(State const &s, Integer hi, Integer lo) override { th[keyOf(s)] = {true, false, (double) hi, (double) lo}; }
  void clearThresholds(State const &s) override { th[keyOf(s)].set = false; }
  void executeCommand(Command *) override {} void reportCommandArbitrationFailure(Command *) override {} void invokeAbort(Command *) override {} void executeUpdate(Update *) override {}
};

struct Watch : ExpressionListener { long n = 0; void notifyChanged() override { ++n; } };

// an expression which can be changed from outside, or a constant
struct Slot { Expression *e = nullptr; bool var = false; ValueType t; MVal v; bool shared = false; };
static Expression *mkVar(ValueType t, std::string const &n)
{
  switch (t) { case INTEGER_TYPE: return new UserVariable<Integer>(n.c_str()); case REAL_TYPE: return new UserVariable<Real>(n.c_str()); case BOOLEAN_TYPE: return new UserVariable<Boolean>(n.c_str()); default: return new UserVariable<String>(n.c_str()); }
}
static Expression *mkConst(MVal const &v)
{
  switch (v.t) { case INTEGER_TYPE: return new Constant<Integer>(v.i); case REAL_TYPE: return new Constant<Real>(v.r); case BOOLEAN_TYPE: return new Constant<Boolean>(v.b); default: return new Constant<String>(v.s); }
}

struct LModel {
  std::unique_ptr<Expression> e; Watch w; bool change = false, active = false;
  int name = 0, tol = -1; std::vector<int> par;     // indices of slots
  std::string key; bool hasKey = false;             // the state it looks up now
  bool th = false;                                  // thresholds in force
  MVal rep;                                         // value last reported (with thresholds)
  MVal shown; bool shownSet = false; long seen = 0; // value and notifications at the last look
};

static MVal asNum(MVal const &v) { return v.t == INTEGER_TYPE ? MVal::real(v.i) : v; }

static void c09(Gen &g, Ctx &ctx)
{
  static long serial = 0; ++serial;
  Disp d; g_dispatcher = &d;
  struct Reset { ~Reset() { g_dispatcher = nullptr; } } reset;
  StateCache &sc = StateCache::instance();
  sc.incrementCycleCount();
  std::string h;
  // states: names of one arity, a type each
  size_t nn = (size_t) g.range(1, 3), arity = g.weighted({9, 12, 3, 1, 1, 1, 1});
  static const ValueType types[] = {INTEGER_TYPE, REAL_TYPE, INTEGER_TYPE, REAL_TYPE, BOOLEAN_TYPE, STRING_TYPE, INTEGER_ARRAY_TYPE, STRING_ARRAY_TYPE, REAL_ARRAY_TYPE, BOOLEAN_ARRAY_TYPE};
  std::vector<std::string> names; std::vector<ValueType> nt; std::vector<ValueType> pt;
  std::string base = "q" + std::to_string(serial) + "_";
  for (size_t i = 0; i < nn; ++i) { names.push_back(base + (char) ('a' + i)); nt.push_back(g.pick(types)); }
  auto typeOf = [&](std::string const &key) { for (size_t i = 0; i < nn; ++i) if (key.compare(0, names[i].size(), names[i]) == 0) return nt[i]; return UNKNOWN_TYPE; };
  d.typeOf = typeOf;
  static const ValueType ptypes[] = {INTEGER_TYPE, REAL_TYPE, STRING_TYPE, BOOLEAN_TYPE};
  for (size_t i = 0; i < arity; ++i) pt.push_back(g.pick(ptypes));
  auto parVal = [&](ValueType t) {
    switch (t) { case INTEGER_TYPE: return MVal::integer((int32_t) g.range(0, 2)); case REAL_TYPE: { static const double r[] = {0, 1, -0.0, 0.5, 2}; return MVal::real(g.pick(r)); } case BOOLEAN_TYPE: return MVal::boolean(g.chance(1, 2)); default: { static char const *s[] = {"", "x", "UNKNOWN", "1"}; return MVal::string(g.pick(s)); } }
  };
  auto worldVal = [&](ValueType t) {
    if (g.chance(1, 8)) return MVal::unknown(t);
    if (t == INTEGER_TYPE) { static const int32_t x[] = {2147483647, (int32_t) 0x80000000, 2147483600, -2147483600}; return MVal::integer(g.chance(1, 8) ? g.pick(x) : (int32_t) g.range(0, 12) - 3); }
    if (t == REAL_TYPE) { if (g.chance(1, 8)) return MVal::integer((int32_t) g.range(0, 6)); static const double x[] = {1e15, -1e15, 0.1, -0.0}; return MVal::real(g.chance(1, 6) ? g.pick(x) : (double) g.range(0, 40) / 4 - 2); }
    if (isArrayType(t)) return genArray(g, t, (size_t) g.range(0, 3));
    return genScalar(g, t);
  };
  // slots
  std::vector<Slot> slots; std::vector<std::unique_ptr<Expression>> own;
  std::vector<MVal> tolVals;
  auto slot = [&](ValueType t, MVal v, bool var) {
    Slot s; s.t = t; s.v = v; s.var = var; s.e = var ? mkVar(t, "v" + std::to_string(slots.size())) : mkConst(v);
    own.emplace_back(s.e); s.e->activate(); if (var && v.known) s.e->asAssignable()->setValue(mkValue(v)); else if (var) s.e->asAssignable()->setUnknown();
    slots.push_back(s); return (int) slots.size() - 1;
  };
  auto tolVal = [&](ValueType t) {
    static const int32_t xi[] = {0, 1, 2, 3, 5, -2, 100, 2147483647, (int32_t) 0x80000000}; static const double xr[] = {0, 0.5, 1, 1.5, 2.25, -0.75, 10, 1e6};
    return t == INTEGER_TYPE ? MVal::integer(g.pick(xi)) : MVal::real(g.pick(xr));
  };
  std::vector<std::unique_ptr<LModel>> ls;
  size_t nl = (size_t) g.range(1, 5);
  std::vector<int> vars; // changeable slots
  std::vector<std::vector<int>> parVars(arity); std::vector<int> nameVars, tolVars;
  for (size_t i = 0; i < nl; ++i) {
    std::unique_ptr<LModel> l(new LModel);
    std::vector<std::string> ok; std::vector<ValueType> okT;
    l->change = g.chance(2, 3);
    for (size_t k = 0; k < nn; ++k) if (!l->change || nt[k] == INTEGER_TYPE || nt[k] == REAL_TYPE) { ok.push_back(names[k]); okT.push_back(nt[k]); }
    if (l->change && g.chance(1, 4)) { ok = names; okT = nt; }
    if (ok.empty()) { l->change = false; ok = names; }
    auto reuse = [&](std::vector<int> &pool, ValueType t, std::function<MVal()> mk) {
      if (pool.size() && g.chance(1, 2)) return pool[g.draw(pool.size())];
      bool var = g.chance(2, 3);
      MVal v = mk(); if (var && g.chance(1, 8)) v = MVal::unknown(t);
      int s = slot(t, v, var); if (var) { vars.push_back(s); pool.push_back(s); } return s;
    };
    std::vector<int> none, none2;
    bool anyName = ok.size() == nn;
    l->name = reuse(anyName ? nameVars : none, STRING_TYPE, [&] { return MVal::string(g.pick(ok)); });
    if (!anyName && slots[(size_t) l->name].var) { vars.pop_back(); } // stays as it is
    for (size_t k = 0; k < arity; ++k) l->par.push_back(reuse(parVars[k], pt[k], [&] { return parVal(pt[k]); }));
    bool allInt = true; if (l->change) for (ValueType t : okT) if (t != INTEGER_TYPE) allInt = false;
    bool anyInt = false; if (l->change) for (ValueType t : okT) if (t == INTEGER_TYPE) anyInt = true;
    if (l->change) { ValueType tt = anyInt || g.chance(1, 3) ? INTEGER_TYPE : REAL_TYPE; l->tol = reuse(tt == INTEGER_TYPE ? tolVars : none2, tt, [&] { return tolVal(tt); }); }
    ExprVec *pv = nullptr;
    if (arity) { pv = makeExprVec(arity); for (size_t k = 0; k < arity; ++k) pv->setArgument(k, slots[(size_t) l->par[k]].e, false); }
    ValueType declared = ok.size() == 1 && g.chance(1, 2) ? typeOf(ok[0]) : UNKNOWN_TYPE;
    (void) allInt;
    l->e.reset(l->change ? makeLookupOnChange(slots[(size_t) l->name].e, false, declared, slots[(size_t) l->tol].e, false, pv) : makeLookup(slots[(size_t) l->name].e, false, declared, pv));
    l->e->addListener(&l->w);
    h += (l->change ? " OnChange" : " Now") + std::string("(") + std::to_string(l->name); for (int p : l->par) h += "," + std::to_string(p); if (l->change) h += ";" + std::to_string(l->tol); h += ")";
    ls.push_back(std::move(l));
  }
  h += "; slots"; for (Slot const &s : slots) h += " " + std::string(s.var ? "var=" : "") + (s.t == STRING_TYPE && s.v.known && s.v.s.compare(0, base.size(), base) == 0 ? s.v.s.substr(base.size()) : mstr(s.v)); h += ";";
  struct Clean { std::vector<std::unique_ptr<LModel>> &ls; ~Clean() { for (auto &l : ls) if (l->e) { while (l->active) { l->e->deactivate(); l->active = false; } l->e->removeListener(&l->w); l->e.reset(); } } } clean{ls};

  std::map<std::string, MVal> cache; std::map<std::string, unsigned> fresh; // last supplied, and the cycle
  auto curKey = [&](LModel const &l, std::string &key) {
    MVal const &n = slots[(size_t) l.name].v; if (!n.known) return false;
    std::vector<Value> a;
    for (int p : l.par) { if (!slots[(size_t) p].v.known) return false; a.push_back(mkValue(slots[(size_t) p].v)); }
    key = keyOf(State(n.s, a)); return true;
  };
  auto cached = [&](std::string const &k) { auto it = cache.find(k); return it == cache.end() ? MVal::unknown() : it->second; };
  // is the change from a to b at least tol?  -1: too close to say
  auto beyond = [&](MVal const &a, MVal const &b, MVal const &tol) {
    if (a.t == INTEGER_TYPE && tol.t == INTEGER_TYPE && b.t == INTEGER_TYPE) { int64_t t = tol.i; if (t < 0) t = -t; int64_t df = (int64_t) b.i - a.i; if (df < 0) df = -df; return df >= t ? 1 : 0; }
    double t = std::fabs(asNum(tol).r), x = asNum(a).r, y = asNum(b).r, df = std::fabs(y - x), slack = (std::fabs(x) + std::fabs(y) + t) * 1e-12;
    return df > t + slack ? 1 : df < t - slack ? 0 : t == 0 && df == 0 ? 1 : -1;
  };
  long changes = 0, held = 0;
  std::map<std::string, std::string> lastTh;
  auto show = [&](MVal const &v) { return mstr(v); };
  // what a lookup should show
  auto check = [&](std::vector<Rec> const &sup, int tolSlot) {
    for (size_t i = 0; i < ls.size(); ++i) {
      LModel &l = *ls[i];
      MVal got = fromValue(l.e->toValue());
      MVal want;
      if (!l.active) { want = MVal(); l.th = false; l.hasKey = false; }
      else {
        std::string key; bool has = curKey(l, key);
        bool anew = has != l.hasKey || (has && key != l.key) || !l.shownSet;
        l.hasKey = has; l.key = key;
        if (!has) { want = MVal(); l.th = false; }
        else if (!l.change || !(typeOf(key) == INTEGER_TYPE || typeOf(key) == REAL_TYPE)) { want = cached(key); l.th = false; }
        else {
          MVal const &tol = slots[(size_t) l.tol].v; MVal cur = cached(key);
          if (anew) { l.th = tol.known && cur.known; l.rep = cur; want = cur; }
          else {
            want = l.rep;
            if (!tol.known) { l.th = false; l.rep = want = cur; }
            else {
              std::vector<MVal> evs; for (Rec const &r : sup) if (r.key == key) evs.push_back(asNum(r.v).known && typeOf(key) == REAL_TYPE ? asNum(r.v) : r.v);
              if (l.tol == tolSlot) evs.push_back(cur);
              for (MVal const &v : evs) {
                if (!l.th) { l.rep = v; l.th = v.known; continue; }
                if (!v.known && !l.rep.known) continue;
                if (v.known != l.rep.known) { l.rep = v; continue; }
                int b = beyond(l.rep, v, tol);
                if (b < 0) b = same(l.e->toValue(), v, true) ? 1 : 0;
                if (b) { if (!meq(l.rep, v)) ++changes; l.rep = v; } else ++held;
              }
              want = l.rep;
            }
          }
        }
      }
      ValueType st = l.hasKey && l.active ? typeOf(l.key) : UNKNOWN_TYPE;
      if (want.known && st == REAL_TYPE && want.t == INTEGER_TYPE) want = asNum(want);
      bool ok = want.known ? got.known && meq(got, want) : !got.known;
      PBT_CHECK(ok, h << ": lookup " << i << " of " << (l.hasKey ? l.key.substr(base.size()) : "nothing") << " is " << show(got) << ", not " << show(want));
      PBT_CHECK(l.e->isKnown() == want.known, h << ": lookup " << i << " with value " << show(want) << (l.e->isKnown() ? " claims to be known" : " claims to be unknown"));
      // the ways of reading it agree
      Integer gi; Real gr; Boolean gb; String const *gs;
      try {
      if (want.known && want.t == INTEGER_TYPE) PBT_CHECK(l.e->getValue(gi) && gi == want.i, h << ": lookup " << i << " read as Integer isn't " << want.i);
      if (want.known && want.t == REAL_TYPE) PBT_CHECK(l.e->getValue(gr) && gr == want.r, h << ": lookup " << i << " read as Real isn't " << want.r);
      if (want.known && want.t == BOOLEAN_TYPE) PBT_CHECK(l.e->getValue(gb) && gb == want.b, h << ": lookup " << i << " read as Boolean isn't " << want.b);
      if (want.known && want.t == STRING_TYPE) PBT_CHECK(l.e->getValuePointer(gs) && *gs == want.s, h << ": lookup " << i << " read as String isn't " << want.s);
      if (!want.known && (st == INTEGER_TYPE || st == REAL_TYPE)) PBT_CHECK(!l.e->getValue(gr), h << ": lookup " << i << " which is unknown can be read as " << gr);
      } catch (std::exception const &e) { PBT_FAIL(h << ": reading lookup " << i << " of value " << show(want) << ": " << e.what()); }
      // nobody who watches it misses a change
      if (l.active && l.shownSet) PBT_CHECK(meq(l.shown, got) || l.w.n > l.seen, h << ": lookup " << i << " changed from " << show(l.shown) << " to " << show(got) << " without notice");
      if (l.active) { l.shown = got; l.shownSet = true; } else l.shownSet = false;
      l.seen = l.w.n;
    }
    // thresholds
    std::map<std::string, Disp::Th> want;
    for (auto const &p : ls) {
      LModel const &l = *p;
      if (!l.active || !l.change || !l.hasKey || !l.th || !l.rep.known || !slots[(size_t) l.tol].v.known) continue;
      bool real = typeOf(l.key) == REAL_TYPE;
      double t = std::fabs(asNum(slots[(size_t) l.tol].v).r), r = asNum(l.rep).r, hi = r + t, lo = r - t;
      if (!real) { hi = std::min(hi, 2147483647.0); lo = std::max(lo, -2147483648.0); }
      Disp::Th &w = want[l.key];
      if (!w.set) w = {true, real, hi, lo}; else { w.hi = std::min(w.hi, hi); w.lo = std::max(w.lo, lo); }
    }
    for (auto const &w : want) { auto const &x = d.th[w.first]; PBT_CHECK(x.set && x.real == w.second.real && std::fabs(x.hi - w.second.hi) <= 1e-9 * std::fabs(w.second.hi) && std::fabs(x.lo - w.second.lo) <= 1e-9 * std::fabs(w.second.lo), h << ": the thresholds of " << w.first.substr(base.size()) << " should be " << w.second.lo << " and " << w.second.hi << ", but " << (x.set ? std::to_string(x.lo) + " and " + std::to_string(x.hi) + " were" : "none was") << " asked for"); }
    for (auto const &x : d.th) PBT_CHECK(!x.second.set || want.count(x.first), h << ": thresholds " << x.second.lo << " and " << x.second.hi << " of " << x.first.substr(base.size()) << " were not withdrawn");
  };
  auto stateOf = [&](std::string &key) {
    std::vector<Value> a; for (size_t k = 0; k < arity; ++k) a.push_back(mkValue(parVal(pt[k])));
    if (ls.size() && g.chance(2, 3)) { // one which is looked up
      LModel &l = *ls[g.draw(ls.size())]; std::string kk;
      if (curKey(l, kk)) { a.clear(); for (int p : l.par) a.push_back(mkValue(slots[(size_t) p].v)); State s(slots[(size_t) l.name].v.s, a); key = kk; return s; }
    }
    State s(g.pick(names), a); key = keyOf(s); return s;
  };
  size_t ops = (size_t) g.range(4, 50);
  for (size_t o = 0; o < ops; ++o) {
    d.supplied.clear(); d.asked.clear();
    int tolSlot = -1; std::string key;
    switch (g.weighted({6, 2, 14, 3, 3, 5})) {
    case 0: { // activate, or look elsewhere
      size_t i = g.draw(ls.size());
      if (!ls[i]->active) { h += " activate " + std::to_string(i); ls[i]->active = true; ls[i]->e->activate(); }
      break;
    }
    case 1: { size_t i = g.draw(ls.size()); if (ls[i]->active) { h += " deactivate " + std::to_string(i); ls[i]->active = false; ls[i]->e->deactivate(); } break; }
    case 2: { State s = stateOf(key); MVal v = d.fit(key, worldVal(typeOf(key))); h += " publish " + key.substr(base.size()) + "=" + mstr(v); d.world[key] = v; d.supplied.push_back({key, v}); sc.lookupReturn(s, v.known ? mkValue(v) : Value()); break; }
    case 3: { State s = stateOf(key); if (g.chance(1, 6)) { d.world.erase(key); h += " silence " + key.substr(base.size()); } else { MVal v = worldVal(typeOf(key)); h += " world " + key.substr(base.size()) + "=" + mstr(v); d.world[key] = v; } break; }
    case 4: h += " cycle"; sc.incrementCycleCount(); break;
    default:
      if (vars.size()) {
        int k = vars[g.draw(vars.size())]; Slot &s = slots[(size_t) k];
        bool isTol = false, isName = false; for (auto const &l : ls) { if (l->tol == k) isTol = true; if (l->name == k) isName = true; }
        MVal v = g.chance(1, 7) ? MVal::unknown(s.t) : isName ? MVal::string(g.pick(names)) : isTol ? tolVal(s.t) : parVal(s.t);
        h += " slot " + std::to_string(k) + "=" + (isName && v.known ? v.s.substr(base.size()) : mstr(v)); s.v = v; if (isTol) tolSlot = k;
        if (v.known) s.e->asAssignable()->setValue(mkValue(v)); else s.e->asAssignable()->setUnknown();
      }
      break;
    }
    std::vector<Rec> sup = d.supplied;
    for (Rec const &r : sup) { bool had = cache.count(r.key); if (r.v.known || had) cache[r.key] = typeOf(r.key) == REAL_TYPE ? asNum(r.v) : r.v; fresh[r.key] = sc.getCycleCount(); }
    // a state which begins to be looked up is asked for unless its value is of this cycle
    for (auto const &l : ls) if (l->active) { std::string kk; if (curKey(*l, kk) && !(l->hasKey && l->key == kk) && !(fresh.count(kk) && fresh[kk] == sc.getCycleCount())) PBT_CHECK(d.asked.count(kk), h << ": " << kk.substr(base.size()) << " is not asked for"); }
    check(sup, tolSlot);
  }
  ctx.sample = h; ctx.addHash(h);
  ctx.nontrivial = changes >= 1 && held >= 1;
  ctx.label("values reported beyond the tolerance", changes); ctx.label("values held back", held);
}

static void init() { Error::doThrowExceptions(); PlanError::doThrowExceptions(); InterfaceError::doThrowExceptions(); }

int main(int argc, char **argv)
{
  return pbt::main(argc, argv, {
    {"C09", c09, 60000, 3000000, "One to five lookups, with and without a tolerance, of states of random names, parameters and types, their names, parameters and tolerances constants or variables (some shared); histories of publishing values, changing the world unpublished, cycles, changing the variables (also to unknown), activation and deactivation. After each step every lookup's value in every form it can be read, its notifications and the thresholds the interface was asked for are compared with a model fed with what the interface supplied. Non-trivial: a value beyond the tolerance reported and one within it held back.", {"the interface supplies values of the state's type (or Integers for a Real state)", "differences within 1e-12 of the tolerance may go either way for Reals"}, 400, init},
  });
}
