// Reference model of the executive: PLEXIL's execution semantics over the generator's syntax trees.
#ifndef MODEL_HH
#define MODEL_HH
#include "sut.hh"

struct MInst;

struct Slot {
  PDecl const *d = nullptr;
  MInst *owner = nullptr;
  enum Kind { Local, AliasVar, AliasEx, Const } kind = Local;
  MVal val, saved;
  Slot *target = nullptr;          // AliasVar
  Ex const *ex = nullptr;          // AliasEx, Const
  MInst *ctx = nullptr;            // where ex is evaluated
  MInst *holder = nullptr;         // assignment node writing it
};

struct MInst {
  PNode const *n = nullptr;
  MInst *up = nullptr;
  std::vector<MInst *> kids;
  int id = 0, plan = 0;
  PLEXIL::NodeState st = PLEXIL::INACTIVE_STATE;
  PLEXIL::NodeOutcome out = PLEXIL::NO_OUTCOME;
  PLEXIL::FailureType fail = PLEXIL::NO_FAILURE;
  std::vector<std::unique_ptr<Slot>> slots;
  double tp[PLEXIL::NODE_STATE_MAX][2];
  bool tpKnown[PLEXIL::NODE_STATE_MAX][2] = {};
  // actions
  int handle = PLEXIL::NO_COMMAND_HANDLE;
  bool active = false, abortAck = false, ack = false, abortComplete = false;
  std::string cmdName;
  std::vector<MVal> args;
  std::map<std::string, MVal> pairs;
  Slot *dest = nullptr;
  int destIdx = -1;                // -1: whole variable; -2: unknown index
  MVal value, saved;
  bool deleted = false;
  long executions = 0;

  bool root() const { return !up; }
  bool executing() const { return st == PLEXIL::EXECUTING_STATE || st == PLEXIL::FINISHING_STATE || st == PLEXIL::FAILING_STATE; }
};

// The resource arbiter: capacities, a hierarchy, commands holding resources.
struct MArb {
  struct Child { double w; std::string name; };
  struct Res { double max; std::vector<Child> kids; };
  struct Req { int prio; std::string name; double ub; bool rel; };
  struct Need { double w; bool rel; };
  std::map<std::string, Res> tree;
  double unit = 1.0;                       // capacity of a resource not in the hierarchy
  std::map<std::string, double> used;
  std::map<int, std::map<std::string, Need>> held; // by command

  double cap(std::string const &n) const { auto i = tree.find(n); return i == tree.end() ? unit : i->second.max; }
  void kids(std::string const &n, bool rel, std::map<std::string, Need> &need) const
  {
    auto i = tree.find(n);
    if (i == tree.end()) return;
    for (Child const &c : i->second.kids) { need.insert({c.name, {c.w, rel}}); kids(c.name, rel, need); }
  }
  std::map<std::string, Need> needs(std::vector<Req> const &rs) const
  {
    std::map<std::string, Need> need;
    for (Req const &r : rs) need[r.name] = {r.ub, r.rel};   // what the plan says stands
    for (Req const &r : rs) kids(r.name, r.rel, need);
    return need;
  }
  // in order of arrival; returns accepted flags
  std::vector<bool> arbitrate(std::vector<std::pair<int, std::vector<Req>>> const &cmds)
  {
    std::vector<bool> ok(cmds.size(), true);
    std::vector<size_t> ord;
    for (size_t k = 0; k < cmds.size(); ++k) if (!cmds[k].second.empty()) ord.push_back(k);
    std::stable_sort(ord.begin(), ord.end(), [&] (size_t a, size_t b) { return cmds[a].second[0].prio < cmds[b].second[0].prio; });
    std::map<std::string, double> pos, neg;
    for (size_t k : ord) {
      auto need = needs(cmds[k].second);
      bool fits = true;
      auto at = [&] (std::map<std::string, double> &m, std::string const &n) { auto i = m.find(n); return i == m.end() ? 0.0 : i->second; };
      for (auto const &p : need) {
        double u = at(used, p.first), hi = u + at(pos, p.first), lo = u + at(neg, p.first);
        if (p.second.w < 0) lo += p.second.w; else hi += p.second.w;
        if (lo < -EPS || lo > cap(p.first) + EPS || hi < -EPS || hi > cap(p.first) + EPS) fits = false;
      }
      ok[k] = fits;
      if (!fits) continue;
      for (auto const &p : need) (p.second.w < 0 ? neg : pos)[p.first] += p.second.w;
      held[cmds[k].first] = need;
    }
    for (size_t k : ord) if (ok[k]) for (auto const &p : held[cmds[k].first]) used[p.first] += p.second.w;
    return ok;
  }
  void release(int cmd)
  {
    auto i = held.find(cmd);
    if (i == held.end()) return;
    for (auto const &p : i->second) if (p.second.rel) used[p.first] -= p.second.w;
    held.erase(i);
  }
  static constexpr double EPS = 1e-9;
};

class Model {
public:
  typedef PLEXIL::NodeState NS;
  struct Dest { bool go = false; NS s = PLEXIL::NO_NODE_STATE; int out = -1, fail = -1; };
  struct Diverged {};                       // the case left the model's domain: no verdict from here on

  PCase const &c;
  std::vector<std::unique_ptr<MInst>> inst; // same numbering as Sut
  std::vector<MInst *> roots;
  std::map<std::string, MVal> cache;        // what the interface supplied
  std::map<std::string, unsigned> stamp;    // ... and in which cycle
  double time = 0, worldTime = 0;
  std::map<std::pair<MInst *, std::string>, MInst *> mutex;
  MArb arb;
  bool anyDeleted = false;

  // work for the end of the step
  std::vector<MInst *> toAssign, toRetract, toSend, toAbort, toUpdate;
  struct Stats {
    long batches = 0, trans = 0, fails = 0, skips = 0, interrupts = 0, iterations = 0, assigns = 0, retracts = 0, cmds = 0, aborts = 0, upds = 0,
      conflicts = 0, waits = 0, denied = 0, multi = 0, exec = 0, mutexWaits = 0, unknownCond = 0, libTrans = 0, elemWrites = 0, simul = 0, lookups = 0, hold = 0, nodeRefs = 0;
  } stats;

  explicit Model(PCase const &c) : c(c) {}

  MInst *add(PNode const *n)
  {
    MInst *r = build(n, nullptr, (int) roots.size());
    roots.push_back(r);
    return r;
  }

  MInst *build(PNode const *n, MInst *up, int plan)
  {
    inst.emplace_back(new MInst);
    MInst *m = inst.back().get();
    m->id = (int) inst.size() - 1;
    m->n = n; m->up = up; m->plan = plan;
    for (PDecl const &d : n->decls) {
      std::unique_ptr<Slot> s(new Slot);
      s->d = &d; s->owner = m;
      if (d.param) {
        if (n->isRootOfLib) {
          Ex const *arg = nullptr;
          if (up) for (auto const &p : up->n->pairs) if (p.first == d.name) arg = &p.second;
          if (!arg) {
            if (d.inout) s->kind = Slot::Local;
            else { s->kind = Slot::Const; s->ex = &d.init; s->ctx = m; }
          }
          else if (arg->k == Ex::Var) { s->kind = Slot::AliasVar; s->target = find(up, arg->s); }
          else { s->kind = Slot::AliasEx; s->ex = arg; s->ctx = up; }
        }
        else { s->kind = Slot::AliasVar; s->target = find(up, d.name); }
      }
      m->slots.push_back(std::move(s));
    }
    if (n->type == PLEXIL::NodeType_LibraryNodeCall) m->kids.push_back(build(c.libs[(size_t) n->lib].get(), m, plan));
    else for (auto const &k : n->kids) { MInst *x = build(k.get(), m, plan); m->kids.push_back(x); }
    return m;
  }

  std::string path(MInst const *m) const { return (m->up ? path(m->up) + "/" : "") + m->n->id; }

  // ---- names and values ----
  static Slot *find(MInst *m, std::string const &name)
  {
    for (; m; m = m->up) {
      for (auto const &s : m->slots) if (s->d->name == name) return s.get();
      if (m->n->isRootOfLib) return nullptr;
    }
    return nullptr;
  }

  static Slot *base(Slot *s) { while (s->kind == Slot::AliasVar) s = s->target; return s; }

  static MVal fit(MVal v, PDecl const &d)
  {
    using namespace PLEXIL;
    if (d.t == REAL_TYPE && v.t == INTEGER_TYPE) return v.known ? MVal::real(v.i) : MVal::unknown(REAL_TYPE);
    if (!v.known) return MVal::unknown(d.t);
    if (d.isArray()) while ((int) v.el.size() < d.maxSize) v.el.push_back(MVal::unknown(elType(d.t)));
    return v;
  }

  MVal initial(Slot *s)
  {
    PDecl const &d = *s->d;
    if (d.hasInit) return fit(eval(d.init, s->owner, true), d);
    if (d.isArray() && d.maxSize >= 0) {
      MVal v = MVal::array(d.t, {});
      return fit(v, d);
    }
    return MVal::unknown(d.t);
  }

  MVal read(Slot *s)
  {
    switch (s->kind) {
    case Slot::Local: return s->owner->executing() ? s->val : initial(s);
    case Slot::AliasVar: return read(s->target);
    case Slot::AliasEx: return eval(*s->ex, s->ctx);
    default: return s->d->isArray() ? eval(*s->ex, s->ctx) : fit(eval(*s->ex, s->ctx), *s->d);
    }
  }

  MInst *resolve(MInst *m, Ref const &r)
  {
    auto kid = [] (MInst *x, std::string const &id) -> MInst * { for (MInst *k : x->kids) if (k->n->id == id) return k; return nullptr; };
    switch (r.form) {
    case Ref::Self: return m;
    case Ref::Parent: return m->up;
    case Ref::Child: return kid(m, r.id);
    case Ref::Sibling: return kid(m->up, r.id);
    default:
      for (MInst *x = m; x; x = x->n->isRootOfLib ? nullptr : x->up) {
        if (x->n->id == r.id) return x;
        if (MInst *k = kid(x, r.id)) return k;
      }
      return nullptr;
    }
  }

  MVal eval(Ex const &e, MInst *m, bool fromParent = false)
  {
    using namespace PLEXIL;
    switch (e.k) {
    case Ex::Lit: return e.lit;
    case Ex::Var: {
      // initial values are resolved outside the node's own declarations
      Slot *s = find(fromParent ? m->up : m, e.s);
      if (!s) PBT_FAIL("model: no variable " << e.s << " at " << path(m));
      MVal v = read(s);
      if (!v.known) return MVal::unknown(e.t);
      return v;
    }
    case Ex::Elem: {
      Slot *s = find(m, e.s);
      MVal a = read(s), i = eval(e.kid[0], m);
      if (!a.known || !i.known || i.i < 0 || (size_t) i.i >= a.el.size()) return MVal::unknown(e.t);
      MVal v = a.el[(size_t) i.i];
      v.t = e.t;
      return v;
    }
    case Ex::Op: {
      std::vector<MVal> a;
      for (Ex const &k : e.kid) a.push_back(eval(k, m));
      if (e.s == "MIN" || e.s == "MAX" || e.s == "SQRT")
        for (MVal const &x : a) if (x.known && x.t == REAL_TYPE && std::isnan(x.r)) throw pbt::Discard(); // not defined
      MVal r = evalOp(e.s, e.t, a);
      if (!r.known) r.t = e.t;
      return r;
    }
    case Ex::Lookup: {
      MVal nm = eval(e.kid[0], m);
      if (!nm.known) return MVal::unknown(e.t);
      if (nm.s == "time") return MVal::real(time);
      std::vector<MVal> a;
      for (size_t k = 1; k < e.kid.size(); ++k) a.push_back(eval(e.kid[k], m));
      std::string key = lookupKey(nm.s, a);
      ++stats.lookups;
      auto it = cache.find(key);
      if (it == cache.end() || !it->second.known) return MVal::unknown(e.t);
      return it->second;
    }
    case Ex::NState: ++stats.nodeRefs; return MVal::constant(NODE_STATE_TYPE, resolve(m, e.ref)->st);
    case Ex::NOutcome: { ++stats.nodeRefs; int o = resolve(m, e.ref)->out; return o == NO_OUTCOME ? MVal::unknown(OUTCOME_TYPE) : MVal::constant(OUTCOME_TYPE, o); }
    case Ex::NFailure: { ++stats.nodeRefs; int o = resolve(m, e.ref)->fail; return o == NO_FAILURE ? MVal::unknown(FAILURE_TYPE) : MVal::constant(FAILURE_TYPE, o); }
    case Ex::NHandle: { ++stats.nodeRefs; int o = resolve(m, e.ref)->handle; return o == NO_COMMAND_HANDLE ? MVal::unknown(COMMAND_HANDLE_TYPE) : MVal::constant(COMMAND_HANDLE_TYPE, o); }
    case Ex::NTime: {
      ++stats.nodeRefs;
      MInst *x = resolve(m, e.ref);
      return x->tpKnown[e.st][e.flag] ? MVal::real(x->tp[e.st][e.flag]) : MVal::unknown(e.t);
    }
    case Ex::NPred: {
      ++stats.nodeRefs;
      MInst *x = resolve(m, e.ref);
      std::string const &p = e.s;
      bool r = false;
      if (p == "Finished") r = x->st == FINISHED_STATE;
      else if (p == "Executing") r = x->st == EXECUTING_STATE;
      else if (p == "Waiting") r = x->st == WAITING_STATE;
      else if (p == "Inactive") r = x->st == INACTIVE_STATE;
      else if (p == "IterationEnded") r = x->st == ITERATION_ENDED_STATE;
      else if (p == "Succeeded") r = x->st == FINISHED_STATE && x->out == SUCCESS_OUTCOME;
      else if (p == "Failed") r = x->st == FINISHED_STATE && x->out == FAILURE_OUTCOME;
      else if (p == "Skipped") r = x->out == SKIPPED_OUTCOME;
      else if (p == "PostconditionFailed") r = x->fail == POST_CONDITION_FAILED;
      else if (p == "NoChildFailed") {
        r = true;
        for (MInst *k : x->kids) if (k->st == FINISHED_STATE && k->out == FAILURE_OUTCOME) r = false;
      }
      return MVal::boolean(r);
    }
    }
    return MVal();
  }

  // ---- conditions: 1 true, 0 false, -1 unknown ----
  int tri(MVal const &v) { if (!v.known) { ++stats.unknownCond; return -1; } return v.b; }
  int cond(MInst *m, CondIdx k, int dflt) { return m->n->hasCond[k] ? tri(eval(m->n->cond[k], m)) : dflt; }
  bool ancestorTrue(MInst *m, CondIdx k) { for (MInst *p = m->up; p; p = p->up) if (cond(p, k, 0) == 1) return true; return false; }
  bool ancestorExit(MInst *m) { return ancestorTrue(m, C_EXIT); }
  bool ancestorInvFalse(MInst *m) { for (MInst *p = m->up; p; p = p->up) if (cond(p, C_INV, 1) == 0) return true; return false; }
  bool ancestorEnd(MInst *m) { return ancestorTrue(m, C_END); }
  bool exitT(MInst *m) { return cond(m, C_EXIT, 0) == 1; }
  bool invF(MInst *m) { return cond(m, C_INV, 1) == 0; }
  bool kidsIn(MInst *m, bool waitingToo)
  {
    for (MInst *k : m->kids) if (k->st != PLEXIL::FINISHED_STATE && !(waitingToo && k->st == PLEXIL::WAITING_STATE)) return false;
    return true;
  }

  static Dest to(NS s, int out = -1, int fail = -1) { Dest d; d.go = true; d.s = s; d.out = out; d.fail = fail; return d; }

  Dest ended(MInst *m)
  {
    using namespace PLEXIL;
    return cond(m, C_POST, 1) == 1 ? to(ITERATION_ENDED_STATE, SUCCESS_OUTCOME) : to(ITERATION_ENDED_STATE, FAILURE_OUTCOME, POST_CONDITION_FAILED);
  }
  // the four ways of being stopped, in order of precedence
  bool stopped(MInst *m, Dest &d, bool direct)
  {
    using namespace PLEXIL;
    if (ancestorExit(m)) { d = to(direct ? FINISHED_STATE : FAILING_STATE, INTERRUPTED_OUTCOME, PARENT_EXITED); return true; }
    if (exitT(m)) { d = to(direct ? ITERATION_ENDED_STATE : FAILING_STATE, INTERRUPTED_OUTCOME, EXITED); return true; }
    if (ancestorInvFalse(m)) { d = to(direct ? FINISHED_STATE : FAILING_STATE, FAILURE_OUTCOME, PARENT_FAILED); return true; }
    if (invF(m)) { d = to(direct ? ITERATION_ENDED_STATE : FAILING_STATE, FAILURE_OUTCOME, INVARIANT_CONDITION_FAILED); return true; }
    return false;
  }

  Dest dest(MInst *m)
  {
    using namespace PLEXIL;
    Dest d;
    PlexilNodeType ty = m->n->type;
    bool list = ty == NodeType_NodeList || ty == NodeType_LibraryNodeCall;
    switch (m->st) {
    case INACTIVE_STATE:
      if (m->root()) return to(WAITING_STATE);
      if (m->up->st == FINISHED_STATE) return to(FINISHED_STATE, SKIPPED_OUTCOME);
      if (m->up->st == EXECUTING_STATE)
        return ancestorExit(m) || ancestorInvFalse(m) || ancestorEnd(m) ? to(FINISHED_STATE, SKIPPED_OUTCOME) : to(WAITING_STATE);
      return d;
    case WAITING_STATE:
      if (!m->root() && m->up->st != EXECUTING_STATE) return to(FINISHED_STATE, SKIPPED_OUTCOME);
      if (ancestorExit(m) || exitT(m) || ancestorInvFalse(m) || ancestorEnd(m) || cond(m, C_SKIP, 0) == 1) return to(FINISHED_STATE, SKIPPED_OUTCOME);
      if (cond(m, C_START, 1) != 1) return d;
      if (cond(m, C_PRE, 1) != 1) return to(ITERATION_ENDED_STATE, FAILURE_OUTCOME, PRE_CONDITION_FAILED);
      return to(EXECUTING_STATE);
    case EXECUTING_STATE:
      if (ty == NodeType_Assignment && !m->ack) return d;
      if (stopped(m, d, ty == NodeType_Empty)) return d;
      if (list) {
        if (m->n->hasCond[C_END] ? cond(m, C_END, 0) == 1 : kidsIn(m, false)) return to(FINISHING_STATE);
        return d;
      }
      if (ty == NodeType_Command) {
        bool stop = m->handle == COMMAND_DENIED || m->handle == COMMAND_FAILED || m->handle == COMMAND_INTERFACE_ERROR;
        if (stop || cond(m, C_END, 1) == 1) return to(FINISHING_STATE);
        return d;
      }
      if (ty == NodeType_Update && !m->ack) return d;
      if (cond(m, C_END, 1) != 1) return d;
      return ended(m);
    case FINISHING_STATE:
      if (stopped(m, d, false)) return d;
      if (list ? kidsIn(m, true) : m->handle != NO_COMMAND_HANDLE) return ended(m);
      return d;
    case FAILING_STATE:
      if (list ? !kidsIn(m, true) : ty == NodeType_Command ? !m->abortAck : ty == NodeType_Update ? !m->ack : !m->abortComplete) return d;
      return to(m->fail == PARENT_FAILED || m->fail == PARENT_EXITED ? FINISHED_STATE : ITERATION_ENDED_STATE);
    case ITERATION_ENDED_STATE: {
      if (ancestorExit(m)) return to(FINISHED_STATE, INTERRUPTED_OUTCOME, PARENT_EXITED);
      if (ancestorInvFalse(m)) return to(FINISHED_STATE, FAILURE_OUTCOME, PARENT_FAILED);
      if (ancestorEnd(m)) return to(FINISHED_STATE);
      int r = cond(m, C_REPEAT, 0);
      if (r < 0) return d;
      return to(r ? WAITING_STATE : FINISHED_STATE);
    }
    case FINISHED_STATE:
      if (!m->root() && m->up->st == WAITING_STATE) return to(INACTIVE_STATE);
      return d;
    default: return d;
    }
  }

  // ---- resources ----
  typedef std::pair<MInst *, std::string> MutexId;
  MutexId findMutex(MInst *m, std::string const &name)
  {
    for (MInst *x = m; x; x = x->up)
      if (std::find(x->n->mutexes.begin(), x->n->mutexes.end(), name) != x->n->mutexes.end()) return {x, name};
    return {nullptr, name};
  }
  struct Wants { std::set<MutexId> mx; Slot *var = nullptr; };
  Wants wants(MInst *m)
  {
    Wants w;
    for (std::string const &s : m->n->usingMutex) w.mx.insert(findMutex(m, s));
    if (m->n->type == PLEXIL::NodeType_Assignment) w.var = base(find(m, m->n->dest));
    return w;
  }
  bool wantsAny(MInst *m) const { return m->n->type == PLEXIL::NodeType_Assignment || !m->n->usingMutex.empty(); }
  bool blocked(Wants const &w) // by something held
  {
    for (MutexId const &x : w.mx) if (mutex.count(x)) return true;
    return w.var && w.var->holder;
  }
  static bool conflict(Wants const &a, Wants const &b)
  {
    for (MutexId const &x : a.mx) if (b.mx.count(x)) return true;
    return a.var && a.var == b.var;
  }
  static int prio(MInst *m) { return m->n->priority < 0 ? 100000 : m->n->priority; }

  struct En { MInst *m; Dest d; bool needs; Wants w; };
  std::vector<En> enabled()
  {
    std::vector<En> r;
    for (auto const &p : inst) {
      MInst *m = p.get();
      if (m->deleted) continue;
      Dest d = dest(m);
      if (!d.go) continue;
      En e{m, d, d.s == PLEXIL::EXECUTING_STATE && wantsAny(m), {}};
      if (e.needs) e.w = wants(m);
      r.push_back(e);
    }
    return r;
  }
  bool runnable() // could anything happen in a step now?
  {
    for (En const &e : enabled()) if (!e.needs || !blocked(e.w)) return true;
    return false;
  }
  std::string describe(std::vector<En> const &es)
  {
    std::string s;
    for (En const &e : es)
      s += "\n    " + path(e.m) + "(" + std::to_string(e.m->id) + ") " + PLEXIL::nodeStateName(e.m->st) + "->" + PLEXIL::nodeStateName(e.d.s)
        + (e.d.out >= 0 ? " " + PLEXIL::outcomeName((PLEXIL::NodeOutcome) e.d.out) : "") + (e.d.fail >= 0 ? " " + PLEXIL::failureTypeName((PLEXIL::FailureType) e.d.fail) : "")
        + (e.needs ? blocked(e.w) ? " [resources held]" : " [needs resources]" : "");
    return s.empty() ? " nothing" : s;
  }
  std::string describe(SBatch const &b)
  {
    std::string s;
    for (Tr const &t : b.tr)
      s += "\n    " + path(inst[(size_t) t.node].get()) + "(" + std::to_string(t.node) + ") " + PLEXIL::nodeStateName(t.o) + "->" + PLEXIL::nodeStateName(t.n)
        + " " + PLEXIL::outcomeName(t.out) + " " + PLEXIL::failureTypeName(t.fail);
    return s.empty() ? " nothing" : s;
  }

  bool queued() const { return !toAssign.empty() || !toRetract.empty() || !toSend.empty() || !toAbort.empty(); }

  void supply(Supply const &s) { cache[s.key] = s.v; stamp[s.key] = s.cycle; }

  // One batch of the code under test against the model.
  void batch(SBatch const &b, std::vector<Supply> const &sup, size_t &supUsed, unsigned cycle)
  {
    using namespace PLEXIL;
    std::vector<En> es = enabled();
    auto ctx = [&] { return "\n  model enables:" + describe(es) + "\n  executive did:" + describe(b); };
    if (queued()) PBT_FAIL("more transitions in a step that already issued assignments, commands or aborts" << ctx());
    std::map<int, En const *> by;
    for (En const &e : es) by[e.m->id] = &e;
    std::set<int> done;
    std::vector<En const *> acc;
    for (Tr const &t : b.tr) {
      auto it = by.find(t.node);
      if (!done.insert(t.node).second) PBT_FAIL("node transitions twice in one micro-step" << ctx());
      if (it == by.end()) PBT_FAIL("transition the rules do not allow: " << path(inst[(size_t) t.node].get()) << " " << nodeStateName(t.o) << "->" << nodeStateName(t.n) << ctx());
      En const &e = *it->second;
      if (t.o != e.m->st || t.n != e.d.s) PBT_FAIL("wrong transition of " << path(e.m) << ": rules say " << nodeStateName(e.m->st) << "->" << nodeStateName(e.d.s) << ctx());
      if (e.needs) {
        if (blocked(e.w)) PBT_FAIL(path(e.m) << " starts although a mutex or variable it needs is held" << ctx());
        for (En const *o : acc) if (conflict(o->w, e.w)) PBT_FAIL(path(e.m) << " and " << path(o->m) << " start together although they conflict" << ctx());
        acc.push_back(&e);
      }
    }
    size_t competing = 0;
    for (En const &e : es) {
      if (e.needs) ++competing;
      if (done.count(e.m->id)) continue;
      if (!e.needs) PBT_FAIL("missed transition of " << path(e.m) << ": " << nodeStateName(e.m->st) << "->" << nodeStateName(e.d.s) << ctx());
      bool why = blocked(e.w);
      for (En const *o : acc) if (prio(o->m) <= prio(e.m) && conflict(o->w, e.w)) why = true;
      if (!why) PBT_FAIL(path(e.m) << " does not start although what it needs is free and no competitor with better priority takes it" << ctx());
      ++stats.waits;
      if (!e.w.mx.empty()) ++stats.mutexWaits;
    }
    if (competing > acc.size()) ++stats.conflicts;
    for (; supUsed < b.supplies; ++supUsed) supply(sup[supUsed]);
    ++stats.batches;
    if (b.tr.size() > 1) ++stats.multi;
    std::vector<MInst *> released;
    for (Tr const &t : b.tr) {
      En const &e = *by[t.node];
      apply(e.m, e.d, cycle);
      if (t.out != e.m->out || t.fail != e.m->fail)
        PBT_FAIL("wrong outcome of " << path(e.m) << " on " << nodeStateName(t.o) << "->" << nodeStateName(t.n) << ": " << outcomeName(t.out) << "/" << failureTypeName(t.fail)
                 << ", rules say " << outcomeName(e.m->out) << "/" << failureTypeName(e.m->fail) << ctx());
    }
    for (auto const &p : inst) { // outside the domain of the language's rules
      MInst *m = p.get();
      if (!m->deleted && m->up && !m->up->executing() && m->st != INACTIVE_STATE && m->st != FINISHED_STATE
          && !(m->st == WAITING_STATE && false)) throw Diverged();
    }
  }

  void acquire(MInst *m)
  {
    Wants w = wants(m);
    for (MutexId const &x : w.mx) { mutex[x] = m; ++stats.hold; }
    if (w.var) w.var->holder = m;
  }
  void release(MInst *m)
  {
    for (auto it = mutex.begin(); it != mutex.end();) if (it->second == m) it = mutex.erase(it); else ++it;
    if (m->n->type == PLEXIL::NodeType_Assignment) { Slot *v = base(find(m, m->n->dest)); if (v->holder == m) v->holder = nullptr; }
  }

  void apply(MInst *m, Dest const &d, unsigned cycle)
  {
    using namespace PLEXIL;
    bool was = m->executing();
    NS o = m->st;
    ++stats.trans;
    if (d.s == INACTIVE_STATE) for (auto &k : m->tpKnown) k[0] = k[1] = false;
    m->tp[o][1] = time; m->tpKnown[o][1] = true;
    m->tp[d.s][0] = time; m->tpKnown[d.s][0] = true;
    m->st = d.s;
    if ((o == ITERATION_ENDED_STATE && d.s == WAITING_STATE) || d.s == INACTIVE_STATE) { m->out = NO_OUTCOME; m->fail = NO_FAILURE; if (d.s == WAITING_STATE) ++stats.iterations; }
    if (d.out >= 0) {
      m->out = (NodeOutcome) d.out;
      m->fail = d.fail >= 0 ? (FailureType) d.fail : NO_FAILURE;
      if (d.out == FAILURE_OUTCOME) ++stats.fails;
      if (d.out == SKIPPED_OUTCOME) ++stats.skips;
      if (d.out == INTERRUPTED_OUTCOME) ++stats.interrupts;
    }
    for (MInst *x = m; x; x = x->up) if (x->n->isRootOfLib) { ++stats.libTrans; break; }
    if (d.s == EXECUTING_STATE) {
      ++stats.exec; ++m->executions;
      for (auto &s : m->slots) if (s->kind == Slot::Local) s->val = initial(s.get());
      acquire(m);
      PNode const &n = *m->n;
      switch (n.type) {
      case NodeType_Assignment:
        m->ack = m->abortComplete = false;
        m->dest = base(find(m, n.dest));
        m->destIdx = -1;
        if (n.hasIdx) { MVal i = eval(n.idx, m); m->destIdx = i.known ? i.i : -2; }
        m->value = eval(n.rhs, m);
        m->saved = current(m);
        toAssign.push_back(m);
        break;
      case NodeType_Command: {
        m->active = true; m->abortAck = false; m->handle = NO_COMMAND_HANDLE;
        MVal nm = eval(n.cmdName, m);
        if (!nm.known) PBT_FAIL(path(m) << " was issued though its name is unknown");
        m->cmdName = nm.s;
        m->args.clear();
        for (Ex const &a : n.args) m->args.push_back(eval(a, m));
        fixResources(m);
        toSend.push_back(m);
        break;
      }
      case NodeType_Update:
        m->active = true; m->ack = false;
        m->pairs.clear();
        for (auto const &p : n.pairs) m->pairs[p.first] = eval(p.second, m);
        toUpdate.push_back(m);
        break;
      default: break;
      }
      (void) cycle;
    }
    if (d.s == FAILING_STATE) {
      if (m->n->type == NodeType_Assignment) toRetract.push_back(m);
      if (m->n->type == NodeType_Command) { m->abortAck = m->abortAck; toAbort.push_back(m); }
    }
    if (was && !m->executing()) {
      release(m);
      m->active = false;
      if (m->n->type == NodeType_Command) { if (m->handle != COMMAND_DENIED || true) arb.release(m->id); }
    }
  }

  // Whether a command about to execute is refused as its name or what it needs is unknown.
  bool mayRefuse(MInst *m)
  {
    auto lit = [] (Ex const &e) { return e.k == Ex::Lit && e.lit.known; };
    if (!lit(m->n->cmdName)) return true; // its value at that moment is not recorded
    for (PRes const &r : m->n->res)
      if (!lit(r.name) || !lit(r.prio) || (r.hasMax && !lit(r.max)) || (r.hasRel && !lit(r.rel))) return true;
    return false;
  }

  std::map<int, std::vector<MArb::Req>> reqs;
  void fixResources(MInst *m)
  {
    std::vector<MArb::Req> rs;
    for (PRes const &r : m->n->res) {
      MVal nm = eval(r.name, m), pr = eval(r.prio, m);
      if (!nm.known || !pr.known) PBT_FAIL(path(m) << " was issued though the name or priority of a resource is unknown");
      MArb::Req q{pr.i, nm.s, 1.0, true};
      if (r.hasMax) { MVal v = eval(r.max, m); if (!v.known) PBT_FAIL(path(m) << " was issued though the limit of a resource is unknown"); q.ub = v.num(); }
      if (r.hasRel) { MVal v = eval(r.rel, m); if (!v.known) PBT_FAIL(path(m) << " was issued though the release of a resource is unknown"); q.rel = v.b; }
      rs.push_back(q);
    }
    reqs[m->id] = rs;
  }

  MVal current(MInst *m)
  {
    MVal v = read(m->dest);
    if (m->destIdx == -1) return v;
    if (!v.known || m->destIdx < 0 || m->destIdx >= (int) v.el.size()) return MVal::unknown(elType(v.t));
    MVal e = v.el[(size_t) m->destIdx];
    e.t = elType(v.t);
    return e;
  }
  void write(MInst *m, MVal const &x)
  {
    Slot *s = m->dest;
    if (s->kind != Slot::Local) PBT_FAIL("model: assignment to something not a variable");
    if (m->destIdx == -1) { s->val = fit(x, *s->d); return; }
    if (m->destIdx < 0 || !s->val.known) return;
    if (m->destIdx >= (int) s->val.el.size()) throw Diverged();
    PLEXIL::ValueType et = elType(s->d->t);
    MVal e = x.known ? x : MVal::unknown(et);
    if (et == PLEXIL::REAL_TYPE && e.t == PLEXIL::INTEGER_TYPE && e.known) e = MVal::real(e.i);
    e.t = et;
    s->val.el[(size_t) m->destIdx] = e;
    ++stats.elemWrites;
  }
  std::string destName(MInst *m) const { return m->dest->d->name + (m->destIdx == -1 ? "" : "[" + (m->destIdx < 0 ? std::string("UNKNOWN") : std::to_string(m->destIdx)) + "]"); }

  // After the last batch: assignments, commands, aborts and updates.
  void finish(std::vector<SAssign> const &as, std::vector<SCmd> const &cmds, std::vector<SUpd> const &upds)
  {
    using namespace PLEXIL;
    struct A { std::string name; MVal v; MInst *m; };
    std::vector<A> exp;
    if (toAssign.size() > 1) ++stats.simul;
    for (MInst *m : toAssign) { write(m, m->value); m->ack = true; exp.push_back({destName(m), m->value, m}); ++stats.assigns; }
    for (MInst *m : toRetract) { write(m, m->saved); m->abortComplete = true; exp.push_back({destName(m), m->saved, m}); ++stats.retracts; }
    if (as.size() != exp.size()) PBT_FAIL("assignments performed: " << as.size() << ", model has " << exp.size());
    for (size_t k = 0; k < exp.size(); ++k)
      if (as[k].name != exp[k].name || (!sameVal(as[k].v, exp[k].v) && as[k].name.find("[UNKNOWN]") == std::string::npos)) // (nothing is written if the index is unknown)
        PBT_FAIL("assignment reported as " << as[k].name << " = " << mstr(as[k].v) << ", model says " << exp[k].name << " = " << mstr(exp[k].v) << " by " << path(exp[k].m));
    toAssign.clear(); toRetract.clear();

    std::vector<std::pair<int, std::vector<MArb::Req>>> rq;
    for (MInst *m : toSend) rq.emplace_back(m->id, reqs[m->id]);
    std::vector<bool> ok = arb.arbitrate(rq);
    std::map<int, int> sent, aborted;
    for (SCmd const &x : cmds) {
      if (x.node < 0) PBT_FAIL("command of no node sent");
      MInst *m = inst[(size_t) x.node].get();
      if (x.kind == 2) {
        if (++aborted[x.node] > 1) PBT_FAIL("command of " << path(m) << " aborted twice in one step");
        if (std::find(toAbort.begin(), toAbort.end(), m) == toAbort.end()) PBT_FAIL("command of " << path(m) << " aborted without reason");
        ++stats.aborts;
      }
      else {
        if (++sent[x.node] > 1) PBT_FAIL("command of " << path(m) << " sent twice in one step");
        size_t k = (size_t) (std::find(toSend.begin(), toSend.end(), m) - toSend.begin());
        if (k == toSend.size()) PBT_FAIL("command of " << path(m) << " sent although the node did not start");
        if ((x.kind == 0) != ok[k]) PBT_FAIL("command of " << path(m) << (ok[k] ? " denied although its resources are available" : " sent although its resources are not available"));
        if (x.kind == 1) ++stats.denied;
        ++stats.cmds;
      }
      if (x.name != m->cmdName) PBT_FAIL("command of " << path(m) << " has name " << x.name << ", should be " << m->cmdName);
      if (x.ret != m->n->hasDest) PBT_FAIL("command of " << path(m) << ": return expected is " << x.ret);
      bool same = x.args.size() == m->args.size();
      for (size_t k = 0; same && k < x.args.size(); ++k) same = sameVal(x.args[k], m->args[k]);
      if (!same) { std::string a, b; for (MVal const &v : x.args) a += " " + mstr(v); for (MVal const &v : m->args) b += " " + mstr(v); PBT_FAIL("command of " << path(m) << " has arguments" << a << ", should be" << b); }
    }
    for (MInst *m : toSend) if (!sent.count(m->id)) PBT_FAIL("command of " << path(m) << " not sent");
    for (MInst *m : toAbort) if (!aborted.count(m->id)) PBT_FAIL("command of " << path(m) << " not aborted");
    toSend.clear(); toAbort.clear();

    std::set<int> u;
    for (SUpd const &x : upds) {
      if (x.node < 0) PBT_FAIL("update of no node sent");
      MInst *m = inst[(size_t) x.node].get();
      if (!u.insert(x.node).second) PBT_FAIL("update of " << path(m) << " sent twice in one step");
      if (std::find(toUpdate.begin(), toUpdate.end(), m) == toUpdate.end()) PBT_FAIL("update of " << path(m) << " sent although the node did not start");
      if (x.pairs.size() != m->pairs.size()) PBT_FAIL("update of " << path(m) << " has " << x.pairs.size() << " pairs, should have " << m->pairs.size());
      for (auto const &p : m->pairs) {
        auto it = x.pairs.find(p.first);
        if (it == x.pairs.end() || !sameVal(it->second, p.second)) PBT_FAIL("update of " << path(m) << ": " << p.first << " should be " << mstr(p.second) << (it == x.pairs.end() ? "" : ", is " + mstr(it->second)));
      }
      ++stats.upds;
    }
    for (MInst *m : toUpdate) if (!u.count(m->id)) PBT_FAIL("update of " << path(m) << " not sent");
    toUpdate.clear();
  }

  // Same value, unknowns alike
  static bool sameVal(MVal const &a, MVal const &b)
  {
    if (a.known != b.known) return false;
    if (!a.known) return true;
    if (a.numeric() && b.numeric()) return a.t == b.t && (a.num() == b.num() || (std::isnan(a.num()) && std::isnan(b.num())));
    return meq(a, b);
  }

  // State of all nodes and variables against the code under test.
  void compare(Sut &s)
  {
    using namespace PLEXIL;
    for (auto const &p : inst) {
      MInst *m = p.get();
      if (m->deleted) continue;
      NodeImpl *n = s.nodes[(size_t) m->id];
      if (n->getNodeId() != m->n->id) PBT_FAIL("node numbering differs: " << n->getNodeId() << " / " << m->n->id);
      if (n->getState() != m->st || n->getOutcome() != m->out || n->getFailureType() != m->fail)
        PBT_FAIL("state of " << path(m) << " is " << nodeStateName(n->getState()) << "/" << outcomeName(n->getOutcome()) << "/" << failureTypeName(n->getFailureType())
                 << ", model says " << nodeStateName(m->st) << "/" << outcomeName(m->out) << "/" << failureTypeName(m->fail));
      if (!m->executing()) continue;
      for (auto const &sl : m->slots) {
        if (sl->kind != Slot::Local) continue;
        Expression *e = n->findLocalVariable(sl->d->name.c_str());
        if (!e) PBT_FAIL("variable " << sl->d->name << " of " << path(m) << " does not exist");
        MVal v = fromValue(e->toValue()), w = read(sl.get());
        if (!sameVal(v, w)) PBT_FAIL("variable " << sl->d->name << " of " << path(m) << " is " << mstr(v) << ", should be " << mstr(w));
      }
    }
  }

  bool allFinished() const
  {
    bool r = anyDeleted, any = false;
    for (MInst *m : roots) {
      if (m->deleted) continue;
      if (m->st != PLEXIL::FINISHED_STATE) return false;
      any = true;
    }
    return any || r;
  }
  void markDeleted(MInst *m)
  {
    release(m);
    m->deleted = true;
    for (MInst *k : m->kids) markDeleted(k);
  }
};
#endif
