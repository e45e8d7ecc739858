// Random PLEXIL plans: abstract syntax, generator, XML form.
#ifndef GENPLAN_HH
#define GENPLAN_HH
#include "plexpr.hh"
#include "PlexilNodeType.hh"
#include <algorithm>
#include <deque>
#include <set>

static const int CI_BODY = -1, CI_ALIAS = -2;   // where an expression is used, apart from conditions
enum CondIdx { C_SKIP, C_START, C_PRE, C_EXIT, C_INV, C_END, C_POST, C_REPEAT, C_MAX };
static const char *const COND_TAG[C_MAX] = {"SkipCondition", "StartCondition", "PreCondition", "ExitCondition", "InvariantCondition", "EndCondition", "PostCondition", "RepeatCondition"};

struct PDecl {
  std::string name;
  PLEXIL::ValueType t = PLEXIL::INTEGER_TYPE;
  int maxSize = -1;            // arrays
  bool hasInit = false;
  Ex init;
  bool param = false, inout = false;
  bool hidden = false;         // holds the name of a state
  bool literalInit() const { return !hasInit || init.k == Ex::Lit; }
  bool isArray() const { return t > PLEXIL::ARRAY_TYPE && t < PLEXIL::ARRAY_TYPE_MAX; }
};

struct PRes { Ex name, prio; bool hasMax = false, hasRel = false; Ex max, rel; };

struct PNode {
  PLEXIL::PlexilNodeType type = PLEXIL::NodeType_Empty;
  std::string id;
  PNode *parent = nullptr;
  std::deque<PDecl> decls;             // interface parameters and local variables
  std::vector<std::string> mutexes, usingMutex;
  bool hasCond[C_MAX] = {};
  Ex cond[C_MAX];
  int priority = -1;                   // Assignment; -1: none given
  std::string dest;                    // Assignment, Command
  PLEXIL::ValueType destType = PLEXIL::UNKNOWN_TYPE; // type of the variable named
  bool hasDest = false, hasIdx = false;
  Ex idx, rhs;
  Ex cmdName;
  std::vector<Ex> args;
  std::vector<PRes> res;
  std::vector<std::pair<std::string, Ex>> pairs; // Update pairs, library call aliases
  std::vector<std::unique_ptr<PNode>> kids;
  int lib = -1;
  bool isRootOfLib = false;
};

struct PState { std::string name; PLEXIL::ValueType t; std::vector<PLEXIL::ValueType> params; bool polled, declared; };
struct PCmd { std::string name; std::vector<PLEXIL::ValueType> params; PLEXIL::ValueType ret; bool declared; };
struct PCase {
  std::vector<std::unique_ptr<PNode>> libs, plans;
  std::vector<PState> states;
  std::vector<PCmd> cmds;
  std::vector<std::string> gmutex;
  uint64_t worldSeed = 0;
  int hot = -9;                        // value of the state most conditions are about at which they change; -9: no such state
  std::string hierarchy;               // resource hierarchy file
};

inline MVal smallWorldVal(PLEXIL::ValueType t, uint64_t h)
{
  using namespace PLEXIL;
  if (h % 7 == 0) return MVal::unknown(t);
  h /= 7;
  switch (t) {
  case BOOLEAN_TYPE: return MVal::boolean(h % 2);
  case INTEGER_TYPE: return MVal::integer((int32_t) (h % 5) - 1);
  case REAL_TYPE: return MVal::real((double) (h % 6) / 2 - 0.5);
  case STRING_TYPE: { static const char *p[] = {"a", "b", "ab", ""}; return MVal::string(p[h % 4]); }
  default:
    if (t > ARRAY_TYPE && t < ARRAY_TYPE_MAX) { // of no more elements than any array declared can take
      std::vector<MVal> e;
      for (uint64_t k = 0, n = h % 5 % 3; k < n; ++k) { h = pbt::mix(h); MVal v = smallWorldVal((ValueType) (t - ARRAY_TYPE), h >> 8); e.push_back(v); }
      return MVal::array(t, e);
    }
    return MVal::unknown(t);
  }
}

// the states of a family differ in what follows the name of the first
inline PState const *stateNamed(PCase const &c, std::string const &n)
{
  for (PState const &s : c.states) if (s.name == n) return &s;
  for (PState const &s : c.states) if (n.compare(0, s.name.size(), s.name) == 0) return &s;
  return nullptr;
}

// what a state is until changed: a function of its key
inline MVal initialValue(PCase const &c, std::string const &key)
{
  std::string n = key.substr(0, key.find('|'));
  PState const *s = stateNamed(c, n);
  if (!s) return MVal();
  // state names differ between runs of one case: hash what follows the prefix
  size_t u = key.find('_');
  uint64_t h = c.worldSeed;
  for (size_t k = u == std::string::npos ? 0 : u; k < key.size(); ++k) h = pbt::mix(h ^ (unsigned char) key[k]);
  return smallWorldVal(s->t, h);
}

struct Feat {                          // what plans contain
  int nodes = 9, depth = 3, plans = 1;
  unsigned wEmpty = 4, wAssign = 4, wCmd = 3, wUpd = 1, wList = 5, wLib = 0;
  int libs = 0;
  bool mutex = false, resources = false, dupIds = false, iface = false, shadow = true, arrays = true;
  unsigned condPct[C_MAX] = {10, 40, 12, 14, 14, 22, 20, 16};
  unsigned monoPct = 30, arrayInitVar = 3;
  unsigned prioPct = 40, refPct = 30, lookupPct = 35, declPct = 45;
  int steps = 14;
  unsigned elemPct = 25, arrayPct = 20, tolPct = 30, namePct = 15;
  bool globalMutex = true;
  unsigned trigPct = 35, trigCond = 60;                // cases in which one state decides most conditions
};

struct Vis { PDecl const *d; PNode *owner; bool writable; };

class PlanGen {
public:
  PlanGen(pbt::Gen &g, Feat const &f, PCase &c, std::string const &uniq) : g(g), f(f), c(c), uniq(uniq) {}

  void run()
  {
    using namespace PLEXIL;
    c.worldSeed = g.draw(1 << 20);
    if (pct(f.monoPct)) mono = scalarType();
    int ns = (int) g.range(2, 5);
    for (int k = 0; k < ns; ++k) {
      PState s;
      s.name = "s" + uniq + "_" + std::to_string(k);
      s.t = k == 0 ? BOOLEAN_TYPE : k == 1 ? INTEGER_TYPE : anyType();
      int np = (int) g.weighted({24, 8, 4, 1, 1, 1});
      for (int j = 0; j < np; ++j) s.params.push_back(g.chance(1, 6) ? anyType() : scalarType());
      s.polled = g.chance(1, 3);
      s.declared = !((s.t == BOOLEAN_TYPE || s.t == STRING_TYPE) && g.chance(1, 5));
      c.states.push_back(s);
    }
    if (pct(f.trigPct)) {
      PState s;
      s.name = "s" + uniq + "_t"; s.t = INTEGER_TYPE; s.polled = false; s.declared = true;
      c.states.push_back(s);
      trig = (int) c.states.size() - 1;
      hot = (int) g.range(0, 3);
      MVal v = initialValue(c, s.name);
      if (v.known && v.i == hot) hot = (hot + 1) % 4;
      c.hot = hot;
    }
    int nc = (int) g.range(1, 3);
    for (int k = 0; k < nc; ++k) {
      PCmd m;
      m.name = "c" + std::to_string(k);
      int np = (int) g.weighted({16, 12, 8, 4, 1, 1, 1});
      for (int j = 0; j < np; ++j) m.params.push_back(g.chance(1, 4) ? anyType() : scalarType());
      m.ret = g.chance(1, 3) ? anyType() : scalarType();
      m.declared = g.chance(1, 2);
      c.cmds.push_back(m);
    }
    if (f.mutex && f.globalMutex && !f.libs) for (int k = 0, n = (int) g.range(1, 2); k < n; ++k) c.gmutex.push_back("gm" + uniq + "_" + std::to_string(k));
    if (f.resources && g.chance(2, 3)) {
      static const char *names[] = {"r0", "r1", "r2", "mid", "top"};
      c.hierarchy = g.chance(1, 3) ? "% resources\n" : "";
      for (int k = 4; k >= 0; --k) {
        if (g.chance(1, 4)) continue;
        char b[64];
        snprintf(b, sizeof b, "%s%s %.3g", g.chance(1, 4) ? "  " : "", names[k], (double) g.range(1, 8) / 4);
        c.hierarchy += b;
        if (k >= 3) // top may have mid and the others below it, mid only the others
          for (int j = 0; j < k; ++j) if (g.chance(1, 3)) {
            snprintf(b, sizeof b, "%s%.4g %s", g.chance(1, 4) ? "\t" : " ", (double) g.range(1, 6) / 8 * (g.chance(1, 6) ? -1 : 1), names[j]);
            c.hierarchy += b;
          }
        c.hierarchy += "\n";
      }
    }
    for (int k = 0; k < f.libs; ++k) {
      nextId = 0;
      budget = std::max(2, f.nodes / 2);
      auto n = skeleton(nullptr, 0, k);
      n->isRootOfLib = true;
      n->id = "L" + uniq + "_" + std::to_string(k);
      addParams(n.get());
      c.libs.push_back(std::move(n));
      fillAll(c.libs.back().get());
    }
    for (int k = 0; k < f.plans; ++k) {
      nextId = 0;
      budget = f.nodes;
      c.plans.push_back(skeleton(nullptr, 0, f.libs));
      if (f.plans > 1) c.plans.back()->id = "P" + std::to_string(k);
      fillAll(c.plans.back().get());
    }
  }

  // variables visible at a node
  std::vector<Vis> visible(PNode *n, bool fromParent = false)
  {
    std::vector<Vis> r;
    std::set<std::string> seen;
    for (PNode *m = n; m; m = m->parent) {
      if (!(fromParent && m == n))
        for (PDecl const &d : m->decls)
          if (!d.hidden && !seen.count(d.name)) r.push_back({&d, m, !d.param || d.inout});
      for (PDecl const &d : m->decls) seen.insert(d.name);
    }
    return r;
  }

private:
  pbt::Gen &g;
  Feat f;
  PCase &c;
  std::string uniq;
  int nextId = 0, budget = 0;
  int trig = -1, hot = 0;

  bool pct(unsigned p) { return g.draw(100) >= 100 - p; }
  PLEXIL::ValueType mono = PLEXIL::UNKNOWN_TYPE; // the type of most things in this plan, if any
  PLEXIL::ValueType scalarType() { if (mono != PLEXIL::UNKNOWN_TYPE && g.chance(3, 4)) return mono; return (PLEXIL::ValueType[]) {PLEXIL::INTEGER_TYPE, PLEXIL::BOOLEAN_TYPE, PLEXIL::REAL_TYPE, PLEXIL::STRING_TYPE}[g.weighted({4, 3, 2, 1})]; }
  PLEXIL::ValueType anyType()
  {
    PLEXIL::ValueType t = scalarType();
    if (f.arrays && pct(f.arrayPct)) t = (PLEXIL::ValueType) (t + PLEXIL::ARRAY_TYPE);
    return t;
  }

  std::string freshName(PNode *n)
  {
    static const char *pool[] = {"a", "b", "c", "d", "e", "f", "h"};
    for (int tries = 0; tries < 8; ++tries) {
      std::string s = f.shadow ? std::string(g.pick(pool)) : "v" + std::to_string(++nextId);
      bool dup = false;
      for (PDecl const &d : n->decls) dup = dup || d.name == s;
      if (!dup) return s;
    }
    return "v" + std::to_string(++nextId);
  }

  PDecl *declare(PNode *n, PLEXIL::ValueType t)
  {
    PDecl d;
    d.t = t;
    d.name = freshName(n);
    if (d.isArray()) d.maxSize = (int) g.range(2, 4);
    n->decls.push_back(d);
    return &n->decls.back();
  }

  std::string nodeId(PNode *parent)
  {
    static const char *pool[] = {"N", "M", "K", "J", "I"};
    if (f.dupIds)
      for (int tries = 0; tries < 6; ++tries) {
        std::string s = g.pick(pool);
        bool dup = false;
        if (parent) { dup = parent->id == s; for (auto &k : parent->kids) dup = dup || k->id == s; }
        if (!dup) return s;
      }
    return "n" + std::to_string(nextId++);
  }

  std::unique_ptr<PNode> skeleton(PNode *parent, int depth, int maxLib)
  {
    using namespace PLEXIL;
    std::unique_ptr<PNode> n(new PNode);
    --budget;
    n->parent = parent;
    n->id = nodeId(parent);
    bool canList = depth < f.depth && budget > 0;
    unsigned wl = canList ? (parent ? f.wList : f.wList * 6) : 0;
    size_t k = g.weighted({f.wEmpty, f.wAssign, f.wCmd, f.wUpd, wl, maxLib > 0 ? f.wLib : 0});
    static const PlexilNodeType types[] = {NodeType_Empty, NodeType_Assignment, NodeType_Command, NodeType_Update, NodeType_NodeList, NodeType_LibraryNodeCall};
    n->type = types[k];
    if (n->type == NodeType_LibraryNodeCall) n->lib = (int) g.draw((uint64_t) maxLib);
    if (pct(n->type == NodeType_NodeList ? std::min(95u, 2 * f.declPct) : f.declPct / 3))
      for (int j = 0, m = (int) g.range(1, n->type == NodeType_NodeList ? 4 : 2); j < m; ++j) declare(n.get(), anyType());
    if (f.mutex && pct(n->type == NodeType_NodeList ? 40 : 4))
      for (int j = 0, m = (int) g.range(1, 2); j < m; ++j) n->mutexes.push_back("m" + std::to_string(j));
    if (f.mutex && !c.gmutex.empty() && pct(n->type == NodeType_NodeList ? 25 : 3)) // one hiding a global one
      n->mutexes.push_back(c.gmutex[g.draw(c.gmutex.size())]);
    if (n->type == NodeType_NodeList) {
      int kids = (int) g.weighted({1, 3, 5, 4, 2});
      for (int j = 0; j < kids && budget > 0; ++j) n->kids.push_back(skeleton(n.get(), depth + 1, maxLib));
    }
    return n;
  }

  void addParams(PNode *n)
  {
    for (int j = 0, m = (int) g.range(0, 3); j < m; ++j) {
      PDecl *d = declare(n, g.chance(1, 6) && f.arrays ? anyType() : scalarType());
      d->param = true;
      d->inout = g.chance(1, 2);
      d->hasInit = g.chance(1, 3);
      if (d->hasInit) d->init = d->isArray() ? Ex::literal(smallArray(d->t, d->maxSize)) : Ex::literal(smallVal(d->t));
    }
  }

public:
  MVal smallVal(PLEXIL::ValueType t)
  {
    using namespace PLEXIL;
    switch (t) {
    case BOOLEAN_TYPE: return MVal::boolean(g.chance(1, 2));
    case INTEGER_TYPE: return MVal::integer((int32_t) g.range(0, 3) - (g.chance(1, 8) ? 2 : 0));
    case REAL_TYPE: return MVal::real((double) g.range(0, 4) / 2);
    case STRING_TYPE: { static const char *p[] = {"a", "b", "ab", "c<d"}; return MVal::string(g.pick(p)); }
    default: return MVal::unknown(t);
    }
  }
  MVal smallArray(PLEXIL::ValueType t, int maxSize) // there are no unknown strings in plan text
  {
    using namespace PLEXIL;
    std::vector<MVal> e;
    for (int k = 0, n = (int) g.range(0, maxSize); k < n; ++k)
      e.push_back(elType(t) != STRING_TYPE && g.chance(1, 5) ? MVal::unknown(elType(t)) : smallVal(elType(t)));
    if (e.empty()) e.push_back(smallVal(elType(t))); // an empty ArrayValue is another matter
    return MVal::array(t, e);
  }
private:

  void fillAll(PNode *n)
  {
    fill(n);
    for (auto &k : n->kids) fillAll(k.get());
  }

  // May an expression in condition ci of n use variable d of n itself?
  static bool ownOk(PDecl const &d, int ci)
  {
    if (d.param) return true;
    if (ci == C_INV || ci == C_END || ci == C_POST || ci < 0) return true;
    return d.literalInit();
  }

  std::vector<Vis> usable(PNode *n, int ci, PLEXIL::ValueType t)
  {
    std::vector<Vis> r;
    for (Vis const &v : visible(n)) {
      if (v.d->t != t) continue;
      if (v.owner == n && !ownOk(*v.d, ci)) continue;
      r.push_back(v);
    }
    return r;
  }

  // ---- node references ----
  PNode *calleeRoot(PNode *n) { return n->type == PLEXIL::NodeType_LibraryNodeCall ? c.libs[(size_t) n->lib].get() : nullptr; }
  PNode *childNamed(PNode *n, std::string const &id)
  {
    for (auto &k : n->kids) if (k->id == id) return k.get();
    PNode *cr = calleeRoot(n);
    if (cr && cr->id == id) return cr;
    return nullptr;
  }
  PNode *resolve(PNode *n, Ref const &r)
  {
    switch (r.form) {
    case Ref::Self: return n;
    case Ref::Parent: return n->parent;
    case Ref::Child: return childNamed(n, r.id);
    case Ref::Sibling: return n->parent ? childNamed(n->parent, r.id) : nullptr;
    default:
      for (PNode *m = n; m; m = m->parent) {
        if (m->id == r.id) return m;
        if (PNode *k = childNamed(m, r.id)) return k;
      }
      return nullptr;
    }
  }
  Ref genRef(PNode *n, PLEXIL::PlexilNodeType want, bool &ok)
  {
    std::vector<Ref> cand;
    auto add = [&] (Ref::Form fm, std::string const &id, int times) {
      Ref r; r.form = fm; r.id = id;
      PNode *t = resolve(n, r);
      if (!t || (want != PLEXIL::NodeType_uninitialized && t->type != want)) return;
      for (int k = 0; k < times; ++k) cand.push_back(r);
    };
    add(Ref::Self, "", 1);
    add(Ref::Parent, "", 1);
    auto kidsOf = [&] (PNode *m, Ref::Form fm, int times) {
      for (auto &k : m->kids) add(fm, k->id, times);
      if (PNode *cr = calleeRoot(m)) add(fm, cr->id, times);
    };
    kidsOf(n, Ref::Child, 2);
    if (n->parent) kidsOf(n->parent, Ref::Sibling, 2);
    for (PNode *m = n; m; m = m->parent) { add(Ref::Id, m->id, 1); kidsOf(m, Ref::Id, 2); }
    ok = !cand.empty();
    return ok ? g.pick(cand) : Ref();
  }

  Ex genLookup(PNode *n, int ci, PState const &s, int depth)
  {
    using namespace PLEXIL;
    Ex e;
    e.k = Ex::Lookup;
    e.t = s.t;
    e.flag = g.chance(1, 2);
    ++m_leafLookup; // a deep nest of lookups takes time exponential in its depth
    e.kid.push_back(genStateName(n, ci, s));
    for (ValueType p : s.params) e.kid.push_back(genArg(n, ci, p, g.chance(1, 3) ? std::min(depth, 1) : 0));
    // a tolerance no greater than the distance of any two values makes no difference
    if (e.flag && (s.t == INTEGER_TYPE || s.t == REAL_TYPE) && pct(f.tolPct)) e.tol = std::make_shared<Ex>(genTolerance(n, ci, s.t));
    --m_leafLookup;
    return e;
  }

  Ex genStateName(PNode *n, int ci, PState const &s)
  {
    using namespace PLEXIL;
    Ex lit = Ex::literal(MVal::string(s.name));
    // the parser knows the type of a lookup by a literal name only
    if (ci == CI_ALIAS || !(s.t == BOOLEAN_TYPE || s.t == STRING_TYPE) || !pct(f.namePct)) return lit;
    if (g.chance(1, 2)) return Ex::op("Concat", STRING_TYPE, {lit, genEx(n, ci, STRING_TYPE, 0)});
    PNode *r = n; // a variable nobody else knows of
    while (r->parent) r = r->parent;
    PDecl d;
    for (PDecl const &x : r->decls) if (x.hidden && x.init.lit.s == s.name) return Ex::var(x.name, STRING_TYPE);
    d.t = STRING_TYPE; d.name = "nm" + std::to_string(++nextId); d.hasInit = true; d.init = lit; d.hidden = true;
    r->decls.push_back(d);
    return Ex::var(d.name, STRING_TYPE);
  }

  Ex genTolerance(PNode *n, int ci, PLEXIL::ValueType t)
  {
    using namespace PLEXIL;
    if (g.chance(1, 2)) {
      if (t == REAL_TYPE && g.chance(2, 3)) { static const double v[] = {0.5, 0.25, 0, -0.5, 1e-9}; return Ex::literal(MVal::real(g.pick(v))); }
      return Ex::literal(MVal::integer((int32_t) g.range(0, t == REAL_TYPE ? 0 : 2) - (t == REAL_TYPE ? 0 : 1)));
    }
    int save = m_leafLookup;
    m_leafLookup = 2;
    Ex x = genEx(n, ci, INTEGER_TYPE, 0); // may change, and be unknown
    m_leafLookup = save;
    if (t == REAL_TYPE) return Ex::op("MUL", INTEGER_TYPE, {x, Ex::literal(MVal::integer(0))});
    return Ex::op("MOD", INTEGER_TYPE, {x, Ex::literal(MVal::integer(2))});
  }

  // An argument which, if constant, is known: the executive refuses a constant state with an unknown argument.
  Ex genArg(PNode *n, int ci, PLEXIL::ValueType t, int depth)
  {
    Ex e = genEx(n, ci, t, depth);
    if (e.k == Ex::Lit && !e.lit.known) return Ex::literal(smallVal(t));
    return e;
  }

  Ex genIndex(PNode *n, int ci, int size, int depth)
  {
    using namespace PLEXIL;
    if (depth <= 0 || g.chance(1, 2)) return Ex::literal(g.chance(1, 12) ? MVal::unknown(INTEGER_TYPE) : MVal::integer((int32_t) g.range(0, size - 1)));
    Ex x = genEx(n, ci, INTEGER_TYPE, depth - 1);
    return Ex::op("MOD", INTEGER_TYPE, {Ex::op("ABS", INTEGER_TYPE, {x}), Ex::literal(MVal::integer(size))});
  }

  int m_leafLookup = 0;

public:
  Ex genEx(PNode *n, int ci, PLEXIL::ValueType t, int depth)
  {
    using namespace PLEXIL;
    bool arr = t > ARRAY_TYPE && t < ARRAY_TYPE_MAX;
    if (arr) {
      if (m_leafLookup < 2 && pct(f.lookupPct / 2)) {
        std::vector<PState const *> ss;
        for (PState const &s : c.states) if (s.t == t && (ci != CI_ALIAS || !s.polled)) ss.push_back(&s);
        if (!ss.empty()) return genLookup(n, ci, *g.pick(ss), depth);
      }
      auto vs = usable(n, ci, t);
      if (!vs.empty() && g.chance(3, 4)) { Vis const &v = g.pick(vs); return Ex::var(v.d->name, t); }
      return Ex::literal(smallArray(t, 1));
    }
    if (depth > 0 && g.chance(2, 3)) switch (t) {
      case BOOLEAN_TYPE: return genBoolOp(n, ci, depth);
      case INTEGER_TYPE: {
        static const char *ops[] = {"ADD", "SUB", "MUL", "MIN", "MAX", "ABS", "MOD", "DIV"};
        std::string o = g.pick(ops);
        if (f.arrays && g.chance(1, 10)) {
          for (Vis const &v : visible(n)) if (v.d->isArray() && (v.owner != n || ownOk(*v.d, ci))) return Ex::op("ArraySize", t, {Ex::var(v.d->name, v.d->t)});
        }
        if (g.chance(1, 15)) return Ex::op("STRLEN", t, {genEx(n, ci, STRING_TYPE, depth - 1)});
        std::vector<Ex> k;
        size_t cnt = o == "ABS" ? 1 : o == "MOD" || o == "DIV" ? 2 : o == "SUB" ? (size_t) g.range(1, 2) : (size_t) g.weighted({0, 0, 8, 6, 1, 1});
        for (size_t i = 0; i < cnt; ++i) k.push_back(genEx(n, ci, t, depth - 1));
        return Ex::op(o, t, k);
      }
      case REAL_TYPE: {
        static const char *ops[] = {"ADD", "SUB", "MIN", "MAX", "MUL"};
        std::string o = g.pick(ops);
        std::vector<Ex> k;
        k.push_back(genEx(n, ci, REAL_TYPE, depth - 1));
        if (g.chance(1, 6)) return Ex::op("ABS", t, k);
        k.push_back(genEx(n, ci, g.chance(1, 3) ? INTEGER_TYPE : REAL_TYPE, depth - 1));
        if (g.chance(1, 2)) std::swap(k[0], k[1]);
        return Ex::op(o, t, k);
      }
      default: {
        if (ci < 0) break; // repeated self-concatenation grows exponentially
        std::vector<Ex> k;
        for (int i = 0, m = (int) g.weighted({0, 4, 4, 4, 1, 1}); i < m; ++i) k.push_back(genEx(n, ci, t, depth - 1));
        return Ex::op("Concat", t, k);
      }
      }
    // leaves
    if (m_leafLookup < 2 && pct(f.lookupPct)) {
      std::vector<PState const *> ss;
      for (PState const &s : c.states) if (s.t == t && (ci != CI_ALIAS || (s.declared && !s.polled))) ss.push_back(&s);
      if (!ss.empty()) return genLookup(n, ci, *g.pick(ss), depth);
    }
    if (t == REAL_TYPE && pct(f.refPct / 2)) { bool ok; Ex e = genTime(n, ok); if (ok) return e; }
    auto vs = usable(n, ci, t);
    if (f.arrays && pct(f.elemPct)) {
      auto as = usable(n, ci, (ValueType) (t + ARRAY_TYPE));
      for (size_t k = 0; k < as.size();) // size must be known here
        if (as[k].d->param) as.erase(as.begin() + (long) k); else ++k;
      if (!as.empty()) {
        Vis const &v = g.pick(as);
        Ex e; e.k = Ex::Elem; e.t = t; e.s = v.d->name;
        e.kid.push_back(genIndex(n, ci, v.d->maxSize, depth));
        return e;
      }
    }
    if (!vs.empty() && g.chance(4, 5)) { Vis const &v = g.pick(vs); return Ex::var(v.d->name, t); }
    if (t != STRING_TYPE && g.chance(1, 20)) return Ex::literal(MVal::unknown(t));
    return Ex::literal(smallVal(t));
  }

private:
  Ex genTime(PNode *n, bool &ok)
  {
    using namespace PLEXIL;
    Ex e;
    e.k = Ex::NTime; e.t = DATE_TYPE;
    e.ref = genRef(n, NodeType_uninitialized, ok);
    static const NodeState ss[] = {WAITING_STATE, EXECUTING_STATE, FINISHED_STATE, ITERATION_ENDED_STATE, INACTIVE_STATE, FAILING_STATE, FINISHING_STATE};
    e.st = g.pick(ss);
    e.flag = g.chance(1, 3);
    return e;
  }

  Ex genRefBool(PNode *n, bool &ok)
  {
    using namespace PLEXIL;
    Ex e;
    e.t = BOOLEAN_TYPE;
    size_t k = g.weighted({6, 3, 2, 2, 3, 2});
    if (k == 0) {
      static const char *preds[] = {"Finished", "Executing", "Waiting", "Inactive", "IterationEnded", "Succeeded", "Failed", "Skipped", "PostconditionFailed", "NoChildFailed"};
      e.k = Ex::NPred;
      e.s = g.pick(preds);
      bool nc = e.s == "NoChildFailed";
      e.ref = genRef(n, nc ? NodeType_NodeList : NodeType_uninitialized, ok);
      return e;
    }
    if (k == 5) {
      Ex tm = genTime(n, ok);
      if (!ok) return e;
      Ex other = g.chance(1, 2) ? timeNow() : genTime(n, ok);
      static const char *cmp[] = {"GT", "GE", "LT", "LE"};
      if (g.chance(1, 3)) return Ex::op("IsKnown", BOOLEAN_TYPE, {tm});
      if (g.chance(1, 2)) other = Ex::op("ADD", REAL_TYPE, {other, Ex::literal(MVal::real((double) g.range(0, 3)))});
      return Ex::op(g.pick(cmp), BOOLEAN_TYPE, {tm, other});
    }
    Ex v, l;
    switch (k) {
    case 1: v.k = Ex::NState; v.t = NODE_STATE_TYPE; break;
    case 2: v.k = Ex::NOutcome; v.t = OUTCOME_TYPE; break;
    case 3: v.k = Ex::NFailure; v.t = FAILURE_TYPE; break;
    default: v.k = Ex::NHandle; v.t = COMMAND_HANDLE_TYPE; break;
    }
    v.ref = genRef(n, k == 4 ? NodeType_Command : NodeType_uninitialized, ok);
    if (!ok) return e;
    if (g.chance(1, 8)) return Ex::op("IsKnown", BOOLEAN_TYPE, {v});
    MVal x = genScalar(g, v.t);
    if (v.t == COMMAND_HANDLE_TYPE && x.code > COMMAND_SUCCESS) x.code = COMMAND_SUCCESS; // the others have no literal
    l = Ex::literal(x);
    return Ex::op(g.chance(2, 3) ? "EQInternal" : "NEInternal", BOOLEAN_TYPE, g.chance(4, 5) ? std::vector<Ex>{v, l} : std::vector<Ex>{l, v});
  }

  Ex timeNow()
  {
    Ex e;
    e.k = Ex::Lookup; e.t = PLEXIL::REAL_TYPE;
    e.kid.push_back(Ex::literal(MVal::string("time")));
    return e;
  }

  Ex genBoolOp(PNode *n, int ci, int depth)
  {
    using namespace PLEXIL;
    if (pct(f.refPct)) { bool ok = true; Ex e = genRefBool(n, ok); if (ok) return e; }
    switch (g.weighted({6, 2, 2, 2, 1, 1, 1, 1})) {
    case 0: { // numeric comparison
      static const char *cmp[] = {"GT", "GE", "LT", "LE", "EQNumeric", "NENumeric"};
      ValueType a = g.chance(1, 4) ? REAL_TYPE : INTEGER_TYPE, b = g.chance(1, 4) ? REAL_TYPE : INTEGER_TYPE;
      std::string o = g.pick(cmp);
      Ex x = genEx(n, ci, a, depth - 1);
      Ex y = g.chance(1, 2) ? Ex::literal(smallVal(b)) : genEx(n, ci, b, depth - 1);
      if (x.k == Ex::Lookup && y.k == Ex::Lookup) y = Ex::literal(smallVal(b)); // neither type may be known
      return Ex::op(o, BOOLEAN_TYPE, {x, y});
    }
    case 1: case 2: case 7: {
      static const char *lo[] = {"AND", "OR", "XOR"};
      std::vector<Ex> k;
      std::string o = g.pick(lo);
      for (int i = 0, m = (int) g.weighted({0, 0, 8, 6, 1, 1, 1}); i < m; ++i) k.push_back(genEx(n, ci, BOOLEAN_TYPE, depth - 1));
      return Ex::op(o, BOOLEAN_TYPE, k);
    }
    case 3: return Ex::op("NOT", BOOLEAN_TYPE, {genEx(n, ci, BOOLEAN_TYPE, depth - 1)});
    case 4: return Ex::op("IsKnown", BOOLEAN_TYPE, {genEx(n, ci, scalarType(), depth - 1)});
    case 5: {
      Ex x = genEx(n, ci, STRING_TYPE, depth - 1), y = genEx(n, ci, STRING_TYPE, 0);
      if (x.k == Ex::Lookup && y.k == Ex::Lookup) y = Ex::literal(smallVal(STRING_TYPE));
      static const char *cmp[] = {"EQString", "NEString", "LT", "GE"};
      return Ex::op(g.pick(cmp), BOOLEAN_TYPE, {x, y});
    }
    default:
      if (g.chance(1, 2)) {
        bool ok = false;
        Vis w{};
        for (Vis const &v : visible(n)) if (v.d->isArray() && (v.owner != n || ownOk(*v.d, ci))) { w = v; ok = true; if (g.chance(1, 2)) break; }
        if (ok) {
          Ex x = Ex::var(w.d->name, w.d->t);
          switch (g.draw(3)) {
          case 0: return Ex::op("ALL_KNOWN", BOOLEAN_TYPE, {x});
          case 1: return Ex::op("ANY_KNOWN", BOOLEAN_TYPE, {x});
          default: return Ex::op(g.chance(1, 2) ? "EQArray" : "NEArray", BOOLEAN_TYPE, {x, genEx(n, ci, w.d->t, 0)});
          }
        }
      }
      return Ex::op(g.chance(1, 2) ? "EQBoolean" : "NEBoolean", BOOLEAN_TYPE, {genEx(n, ci, BOOLEAN_TYPE, depth - 1), genEx(n, ci, BOOLEAN_TYPE, depth - 1)});
    }
  }

  bool pickDest(PNode *n, PLEXIL::ValueType want) // UNKNOWN: any
  {
    using namespace PLEXIL;
    std::vector<Vis> w;
    for (Vis const &v : visible(n)) {
      if (!v.writable) continue;
      ValueType t = v.d->t;
      if (want != UNKNOWN_TYPE && t != want && !(v.d->isArray() && !v.d->param && elType(t) == want)) continue;
      w.push_back(v);
      if (v.owner != n) { w.push_back(v); w.push_back(v); }
    }
    if (w.empty()) return false;
    Vis v = g.pick(w);
    n->dest = v.d->name;
    n->destType = v.d->t;
    n->hasDest = true;
    n->hasIdx = false;
    if (v.d->isArray() && ((want != UNKNOWN_TYPE && v.d->t != want) || (!v.d->param && v.d->t != want && g.chance(2, 3)))) {
      n->hasIdx = true;
      // which element a Command's value goes to is evaluated when it arrives; what that means
      // for an index which is a lookup with changing parameters isn't specified
      int save = f.lookupPct;
      if (n->type == NodeType_Command) f.lookupPct = 0;
      n->idx = genIndex(n, -1, v.d->maxSize, 1);
      f.lookupPct = save;
    }
    return true;
  }

  void fill(PNode *n)
  {
    using namespace PLEXIL;
    // initial values
    for (PDecl &d : n->decls) {
      if (d.param) continue;
      if (d.isArray()) {
        size_t w = g.weighted({5, 6, f.arrayInitVar});
        if (w == 1) { d.hasInit = true; d.init = Ex::literal(smallArray(d.t, d.maxSize)); }
        if (w == 2) {
          std::vector<Vis> vs;
          for (Vis const &v : visible(n, true)) if (v.d->t == d.t && !v.d->param && v.d->maxSize <= d.maxSize) vs.push_back(v);
          if (!vs.empty()) { d.hasInit = true; d.init = Ex::var(g.pick(vs).d->name, d.t); }
        }
        continue;
      }
      switch (g.weighted({6, 2, 2})) {
      case 0: d.hasInit = true; d.init = Ex::literal(smallVal(d.t)); break;
      case 1: {
        std::vector<Vis> vs;
        for (Vis const &v : visible(n, true)) if (v.d->t == d.t) vs.push_back(v);
        if (!vs.empty()) { d.hasInit = true; d.init = Ex::var(g.pick(vs).d->name, d.t); }
        break;
      }
      default: break;
      }
    }
    if (f.iface && n->parent && !n->isRootOfLib && pct(20)) addLocalInterface(n);
    // body
    switch (n->type) {
    case NodeType_Assignment:
      if (!pickDest(n, UNKNOWN_TYPE)) { PDecl like; declareHidden(n->parent ? n->parent : n, like); pickDest(n, UNKNOWN_TYPE); }
      {
        ValueType t = n->hasIdx ? elType(n->destType) : n->destType;
        if (t == REAL_TYPE && g.chance(1, 5)) t = INTEGER_TYPE;
        if (t == INTEGER_TYPE && !n->hasIdx && g.chance(1, 3)) // counters make histories
          n->rhs = Ex::op("ADD", t, {Ex::var(n->dest, INTEGER_TYPE), Ex::literal(MVal::integer(1))});
        else n->rhs = genEx(n, -1, t, 2);
        if (n->rhs.t == DATE_TYPE) n->rhs = Ex::literal(smallVal(REAL_TYPE));
        if (n->destType == REAL_TYPE && n->rhs.k == Ex::Op && n->rhs.s == "ADD" && n->rhs.kid[0].k == Ex::Var && n->rhs.kid[0].s == n->dest) n->rhs.kid[0].t = REAL_TYPE, n->rhs.t = REAL_TYPE;
        if (n->rhs.t > ARRAY_TYPE && n->rhs.t < ARRAY_TYPE_MAX) fitArray(n);
      }
      break;
    case NodeType_Command: {
      PCmd const &m = g.pick(c.cmds);
      n->cmdName = Ex::literal(MVal::string(m.name));
      if (!m.declared && g.chance(1, 8)) n->cmdName = genEx(n, -1, STRING_TYPE, 1);
      for (ValueType p : m.params) { Ex a = genEx(n, -1, p, 2); if (a.t == DATE_TYPE) a = Ex::literal(smallVal(REAL_TYPE)); n->args.push_back(a); }
      if (g.chance(2, 5)) pickDest(n, m.ret);
      if (f.resources && g.chance(3, 4)) addResources(n);
      break;
    }
    case NodeType_Update:
      for (int k = 0, m = (int) g.range(1, 3); k < m; ++k) { Ex a = genEx(n, -1, g.chance(1, 4) ? anyType() : scalarType(), 2); if (a.t == DATE_TYPE) a = Ex::literal(smallVal(REAL_TYPE)); n->pairs.emplace_back("p" + std::to_string(k), a); }
      break;
    case NodeType_LibraryNodeCall:
      for (PDecl const &d : c.libs[(size_t) n->lib]->decls) {
        if (!d.param) continue;
        if (d.hasInit && g.chance(1, 4)) continue;
        if (d.inout) {
          std::vector<Vis> w;
          for (Vis const &v : visible(n)) if (v.writable && v.d->t == d.t && !(d.isArray() && v.d->maxSize != d.maxSize)) w.push_back(v);
          if (w.empty()) {
            PNode *o = n->parent && g.chance(2, 3) ? n->parent : n;
            PDecl *nd = declareHidden(o, d);
            n->pairs.emplace_back(d.name, Ex::var(nd->name, d.t));
          }
          else n->pairs.emplace_back(d.name, Ex::var(g.pick(w).d->name, d.t));
        }
        else { Ex a = genArg(n, CI_ALIAS, d.t, 2); if (a.t == DATE_TYPE) a = Ex::literal(smallVal(REAL_TYPE)); n->pairs.emplace_back(d.name, a); }
      }
      break;
    default: break;
    }
    // conditions
    for (int k = 0; k < C_MAX; ++k) {
      unsigned p = f.condPct[k];
      if (k == C_REPEAT && n->type == NodeType_Empty) p /= 3;
      if ((k == C_END) && n->type == NodeType_Command) p /= 2;
      if (!n->parent && (k == C_SKIP || k == C_PRE || k == C_EXIT || k == C_INV || k == C_END || k == C_START)) p /= 3;
      if (!pct(p)) continue;
      n->hasCond[k] = true;
      if (trig >= 0 && pct(f.trigCond)) { // true or false together with others
        static const char *good[] = {"NENumeric", "NENumeric", "LE", "GE"}, *bad[] = {"EQNumeric", "EQNumeric", "GE", "LT", "NENumeric"};
        std::string o = k == C_PRE || k == C_INV || k == C_POST ? g.pick(good) : g.pick(bad);
        Ex l = genLookup(n, k, c.states[(size_t) trig], 0);
        n->cond[k] = Ex::op(o, BOOLEAN_TYPE, {l, Ex::literal(MVal::integer(g.chance(3, 4) ? hot : (int) g.range(-1, 3)))});
        continue;
      }
      n->cond[k] = genEx(n, k, BOOLEAN_TYPE, 2);
      if (k == C_PRE || k == C_INV) { // mostly true, so that things happen
        if (n->cond[k].k == Ex::Lit || g.chance(1, 3)) n->cond[k] = Ex::op("OR", BOOLEAN_TYPE, {n->cond[k], genEx(n, k, BOOLEAN_TYPE, 1)});
      }
    }
    if (f.mutex) addMutexes(n);
    if (n->type == NodeType_Assignment && pct(f.prioPct)) n->priority = (int) g.range(0, 3);
  }

  PDecl *declareHidden(PNode *o, PDecl const &like)
  {
    PDecl d;
    d.t = like.t; d.maxSize = like.maxSize;
    d.name = "x" + std::to_string(++nextId);
    if (!d.isArray()) { d.hasInit = true; d.init = Ex::literal(smallVal(d.t)); }
    o->decls.push_back(d);
    return &o->decls.back();
  }

  void fitArray(PNode *n) // the value must fit the destination
  {
    int size = 0;
    for (Vis const &v : visible(n)) if (v.d->name == n->dest) { size = v.d->maxSize; break; }
    if (n->rhs.k == Ex::Var)
      for (Vis const &v : visible(n)) if (v.d->name == n->rhs.s) { if (v.d->maxSize > size) n->rhs = Ex::literal(smallArray(n->destType, size)); break; }
  }

  void addLocalInterface(PNode *n)
  {
    auto vs = visible(n, true);
    int m = (int) g.range(1, 2);
    for (int k = 0; k < m && !vs.empty(); ++k) {
      Vis v = g.pick(vs);
      bool dup = false;
      for (PDecl const &d : n->decls) dup = dup || d.name == v.d->name;
      if (dup) continue;
      PDecl d;
      d.t = v.d->t; d.name = v.d->name; d.maxSize = v.d->maxSize;
      d.param = true;
      d.inout = v.writable && g.chance(1, 2);
      n->decls.push_back(d);
      vs = visible(n, true);
    }
  }

  void addMutexes(PNode *n)
  {
    if (!pct(n->type == PLEXIL::NodeType_NodeList || n->type == PLEXIL::NodeType_LibraryNodeCall ? 15 : 45)) return;
    std::vector<std::string> av;
    auto add = [&] (std::string const &s) { if (std::find(av.begin(), av.end(), s) == av.end()) av.push_back(s); };
    for (std::string const &s : c.gmutex) add(s);
    for (PNode *m = n; m; m = m->parent) for (std::string const &s : m->mutexes) add(s);
    for (PNode *m = n->parent; m; m = m->parent) // not one held by an ancestor
      for (std::string const &s : m->usingMutex) av.erase(std::remove(av.begin(), av.end(), s), av.end());
    if (n->type == PLEXIL::NodeType_LibraryNodeCall) { // nothing the callee could want
      for (std::string const &s : c.gmutex) av.erase(std::remove(av.begin(), av.end(), s), av.end());
    }
    for (int k = 0, m = (int) g.weighted({3, 2, 1}) + 1; k < m && !av.empty(); ++k) {
      size_t i = g.draw(av.size());
      n->usingMutex.push_back(av[i]);
      av.erase(av.begin() + (long) i);
    }
  }

  void addResources(PNode *n)
  {
    using namespace PLEXIL;
    static const char *names[] = {"r0", "r1", "r2", "mid", "top"};
    std::vector<std::string> used;
    for (int k = 0, m = (int) g.weighted({4, 3, 1}) + 1; k < m; ++k) {
      PRes r;
      std::string nm = g.pick(names);
      if (std::find(used.begin(), used.end(), nm) != used.end()) continue;
      used.push_back(nm);
      r.name = Ex::literal(MVal::string(nm));
      r.prio = g.chance(1, 6) ? genEx(n, -1, INTEGER_TYPE, 1) : Ex::literal(MVal::integer((int32_t) g.range(0, 3)));
      r.hasMax = g.chance(4, 5);
      r.hasRel = g.chance(1, 3);
      bool rel = !r.hasRel || g.chance(2, 3);
      if (r.hasMax) {
        double v = (double) g.range(1, 8) / 8;
        if (g.chance(1, 10)) v = 1.25;
        r.max = Ex::literal(MVal::real(v));
      }
      if (r.hasRel) r.rel = Ex::literal(MVal::boolean(rel));
      n->res.push_back(r);
    }
  }
};

// ---- XML ----

inline std::string declXml(PDecl const &d)
{
  std::string r;
  if (d.isArray()) {
    r = "<DeclareArray><Name>" + d.name + "</Name><Type>" + typeTag(d.t) + "</Type>";
    if (d.maxSize >= 0) r += "<MaxSize>" + std::to_string(d.maxSize) + "</MaxSize>";
  }
  else r = "<DeclareVariable><Name>" + d.name + "</Name><Type>" + typeTag(d.t) + "</Type>";
  if (d.hasInit) r += "<InitialValue>" + exXml(d.init) + "</InitialValue>";
  return r + (d.isArray() ? "</DeclareArray>" : "</DeclareVariable>");
}

inline const char *nodeTypeTag(PLEXIL::PlexilNodeType t)
{
  using namespace PLEXIL;
  switch (t) {
  case NodeType_NodeList: return "NodeList";
  case NodeType_Command: return "Command";
  case NodeType_Assignment: return "Assignment";
  case NodeType_Update: return "Update";
  case NodeType_LibraryNodeCall: return "LibraryNodeCall";
  default: return "Empty";
  }
}

inline std::string destXml(PNode const &n)
{
  if (n.hasIdx) return "<ArrayElement><Name>" + n.dest + "</Name><Index>" + exXml(n.idx) + "</Index></ArrayElement>";
  return varXml(n.dest, n.destType);
}

inline std::string nodeXml(PNode const &n, PCase const &c)
{
  using namespace PLEXIL;
  std::string r = std::string("<Node NodeType=\"") + nodeTypeTag(n.type) + "\"><NodeId>" + n.id + "</NodeId>";
  if (n.priority >= 0) r += "<Priority>" + std::to_string(n.priority) + "</Priority>";
  std::string in, inout, vars;
  for (PDecl const &d : n.decls) (d.param ? (d.inout ? inout : in) : vars) += declXml(d);
  if (!in.empty() || !inout.empty())
    r += "<Interface>" + (in.empty() ? in : "<In>" + in + "</In>") + (inout.empty() ? inout : "<InOut>" + inout + "</InOut>") + "</Interface>";
  for (std::string const &m : n.mutexes) vars += "<DeclareMutex><Name>" + m + "</Name></DeclareMutex>";
  if (!vars.empty()) r += "<VariableDeclarations>" + vars + "</VariableDeclarations>";
  if (!n.usingMutex.empty()) {
    r += "<UsingMutex>";
    for (std::string const &m : n.usingMutex) r += "<Name>" + m + "</Name>";
    r += "</UsingMutex>";
  }
  for (int k = 0; k < C_MAX; ++k)
    if (n.hasCond[k]) r += std::string("<") + COND_TAG[k] + ">" + exXml(n.cond[k]) + "</" + COND_TAG[k] + ">";
  switch (n.type) {
  case NodeType_NodeList:
    r += "<NodeBody><NodeList>";
    for (auto const &k : n.kids) r += nodeXml(*k, c);
    r += "</NodeList></NodeBody>";
    break;
  case NodeType_Assignment: {
    ValueType t = n.hasIdx ? elType(n.destType) : n.destType;
    std::string tag = n.destType > ARRAY_TYPE && !n.hasIdx ? "ArrayRHS" : t == BOOLEAN_TYPE ? "BooleanRHS" : t == STRING_TYPE ? "StringRHS" : "NumericRHS";
    r += "<NodeBody><Assignment>" + destXml(n) + "<" + tag + ">" + exXml(n.rhs) + "</" + tag + "></Assignment></NodeBody>";
    break;
  }
  case NodeType_Command:
    r += "<NodeBody><Command>";
    if (!n.res.empty()) {
      r += "<ResourceList>";
      for (PRes const &x : n.res) {
        r += "<Resource><ResourceName>" + exXml(x.name) + "</ResourceName><ResourcePriority>" + exXml(x.prio) + "</ResourcePriority>";
        if (x.hasMax) r += "<ResourceUpperBound>" + exXml(x.max) + "</ResourceUpperBound>";
        if (x.hasRel) r += "<ResourceReleaseAtTermination>" + exXml(x.rel) + "</ResourceReleaseAtTermination>";
        r += "</Resource>";
      }
      r += "</ResourceList>";
    }
    if (n.hasDest) r += destXml(n);
    r += "<Name>" + exXml(n.cmdName) + "</Name>";
    if (!n.args.empty()) {
      r += "<Arguments>";
      for (Ex const &a : n.args) r += exXml(a);
      r += "</Arguments>";
    }
    r += "</Command></NodeBody>";
    break;
  case NodeType_Update:
    r += "<NodeBody><Update>";
    for (auto const &p : n.pairs) r += "<Pair><Name>" + p.first + "</Name>" + exXml(p.second) + "</Pair>";
    r += "</Update></NodeBody>";
    break;
  case NodeType_LibraryNodeCall:
    r += "<NodeBody><LibraryNodeCall><NodeId>" + c.libs[(size_t) n.lib]->id + "</NodeId>";
    for (auto const &p : n.pairs) r += "<Alias><NodeParameter>" + p.first + "</NodeParameter>" + exXml(p.second) + "</Alias>";
    r += "</LibraryNodeCall></NodeBody>";
    break;
  default: break;
  }
  return r + "</Node>";
}

inline std::string typeDecl(PLEXIL::ValueType t)
{
  return "<Type>" + typeTag(t) + "</Type>" + (t > PLEXIL::ARRAY_TYPE && t < PLEXIL::ARRAY_TYPE_MAX ? "<MaxSize>4</MaxSize>" : "");
}

inline std::string planXml(PNode const &n, PCase const &c)
{
  std::string decls;
  for (PCmd const &m : c.cmds) {
    if (!m.declared) continue;
    decls += "<CommandDeclaration><Name>" + m.name + "</Name><Return><Name>_r</Name>" + typeDecl(m.ret) + "</Return>";
    for (size_t k = 0; k < m.params.size(); ++k) decls += "<Parameter><Name>p" + std::to_string(k) + "</Name>" + typeDecl(m.params[k]) + "</Parameter>";
    decls += "</CommandDeclaration>";
  }
  for (PState const &m : c.states) {
    if (!m.declared) continue;
    decls += "<StateDeclaration><Name>" + m.name + "</Name><Return><Name>_r</Name>" + typeDecl(m.t) + "</Return>";
    for (size_t k = 0; k < m.params.size(); ++k) decls += "<Parameter><Name>p" + std::to_string(k) + "</Name>" + typeDecl(m.params[k]) + "</Parameter>";
    decls += "</StateDeclaration>";
  }
  decls += "<StateDeclaration><Name>time</Name><Return><Name>_r</Name><Type>Real</Type></Return></StateDeclaration>";
  for (std::string const &m : c.gmutex) decls += "<DeclareMutex><Name>" + m + "</Name></DeclareMutex>";
  if (c.worldSeed % 2 == 1) // what libraries there are may be declared, which changes nothing
    for (auto const &l : c.libs) {
      std::string in, inout;
      for (PDecl d : l->decls) if (d.param) { d.hasInit = false; d.maxSize = -1; (d.inout ? inout : in) += declXml(d); }
      decls += "<LibraryNodeDeclaration><Name>" + l->id + "</Name>";
      if (!in.empty() || !inout.empty()) decls += "<Interface>" + (in.empty() ? "" : "<In>" + in + "</In>") + (inout.empty() ? "" : "<InOut>" + inout + "</InOut>") + "</Interface>";
      decls += "</LibraryNodeDeclaration>";
    }
  return "<PlexilPlan><GlobalDeclarations>" + decls + "</GlobalDeclarations>" + nodeXml(n, c) + "</PlexilPlan>";
}
#endif
