// Drives the executive and the reference model together through generated histories.
#ifndef RUNEXEC_HH
#define RUNEXEC_HH
#include "model.hh"
#include <functional>

inline std::string exStr(Ex const &e)
{
  std::string r;
  auto refS = [] (Ref const &f) { return f.form == Ref::Self ? std::string("self") : f.form == Ref::Parent ? std::string("parent") : (f.form == Ref::Child ? "child:" : f.form == Ref::Sibling ? "sibling:" : "") + f.id; };
  switch (e.k) {
  case Ex::Lit: return mstr(e.lit);
  case Ex::Var: return e.s;
  case Ex::Elem: return e.s + "[" + exStr(e.kid[0]) + "]";
  case Ex::Op: r = "(" + e.s; for (Ex const &k : e.kid) r += " " + exStr(k); return r + ")";
  case Ex::Lookup: r = e.flag ? "lookupOnChange(" : "lookup("; for (size_t k = 0; k < e.kid.size(); ++k) r += (k ? "," : "") + exStr(e.kid[k]); if (e.tol) r += "; tolerance " + exStr(*e.tol); return r + ")";
  case Ex::NState: return refS(e.ref) + ".state";
  case Ex::NOutcome: return refS(e.ref) + ".outcome";
  case Ex::NFailure: return refS(e.ref) + ".failure";
  case Ex::NHandle: return refS(e.ref) + ".handle";
  case Ex::NTime: return refS(e.ref) + "." + PLEXIL::nodeStateName(e.st) + (e.flag ? ".END" : ".START");
  case Ex::NPred: return e.s + "(" + refS(e.ref) + ")";
  }
  return r;
}

inline std::string planStr(PNode const &n, PCase const &c, int ind = 0)
{
  std::string p((size_t) ind * 2, ' '), r = p + n.id + ": " + nodeTypeTag(n.type);
  switch (n.type) {
  case PLEXIL::NodeType_Assignment: r += " " + n.dest + (n.hasIdx ? "[" + exStr(n.idx) + "]" : "") + " := " + exStr(n.rhs); if (n.priority >= 0) r += " prio " + std::to_string(n.priority); break;
  case PLEXIL::NodeType_Command: r += " " + (n.hasDest ? n.dest + (n.hasIdx ? "[" + exStr(n.idx) + "]" : "") + " = " : std::string()) + exStr(n.cmdName) + "("; for (size_t k = 0; k < n.args.size(); ++k) r += (k ? ", " : "") + exStr(n.args[k]); r += ")";
    for (PRes const &x : n.res) r += " res(" + exStr(x.name) + " prio " + exStr(x.prio) + (x.hasMax ? " max " + exStr(x.max) : "") + (x.hasRel ? " release " + exStr(x.rel) : "") + ")";
    break;
  case PLEXIL::NodeType_Update: for (auto const &q : n.pairs) r += " " + q.first + "=" + exStr(q.second); break;
  case PLEXIL::NodeType_LibraryNodeCall: r += " " + c.libs[(size_t) n.lib]->id; for (auto const &q : n.pairs) r += " " + q.first + "=" + exStr(q.second); break;
  default: break;
  }
  for (PDecl const &d : n.decls) r += "\n" + p + "  " + (d.param ? d.inout ? "inout " : "in " : "var ") + d.name + ":" + PLEXIL::valueTypeName(d.t) + (d.maxSize >= 0 ? "[" + std::to_string(d.maxSize) + "]" : "") + (d.hasInit ? " = " + exStr(d.init) : "");
  for (std::string const &m : n.mutexes) r += "\n" + p + "  mutex " + m;
  for (std::string const &m : n.usingMutex) r += "\n" + p + "  using " + m;
  for (int k = 0; k < C_MAX; ++k) if (n.hasCond[k]) r += "\n" + p + "  " + COND_TAG[k] + " " + exStr(n.cond[k]);
  r += "\n";
  for (auto const &k : n.kids) r += planStr(*k, c, ind + 1);
  return r;
}

struct Ev {
  enum K { Push, Poll, Time, Handle, Return, AbortAck, UpdAck, Add, Delete, Step } k = Step;
  std::string key;                 // state, without the unique prefix
  MVal v;
  double t = 0;
  int a = 0, b = 0;
  bool auto_ = false;              // sent by the run itself: a denial
};

inline std::string evStr(Ev const &e)
{
  switch (e.k) {
  case Ev::Push: return "push " + e.key + " = " + mstr(e.v);
  case Ev::Poll: return "world " + e.key + " = " + mstr(e.v);
  case Ev::Time: return "time " + fmtReal(e.t);
  case Ev::Handle: return "command#" + std::to_string(e.a) + " handle " + PLEXIL::commandHandleValueName((PLEXIL::CommandHandleValue) e.b);
  case Ev::Return: return "command#" + std::to_string(e.a) + " returns " + mstr(e.v);
  case Ev::AbortAck: return "command#" + std::to_string(e.a) + " abort ack " + (e.b ? "true" : "false");
  case Ev::UpdAck: return "update#" + std::to_string(e.a) + " ack " + (e.b ? "true" : "false");
  case Ev::Add: return "add plan " + std::to_string(e.a);
  case Ev::Delete: return "delete finished plans";
  default: return "step";
  }
}

struct Run {
  pbt::Gen &g;
  pbt::Ctx &ctx;
  PCase &c;
  std::string uniq;
  Sut sut;
  Model m;
  size_t supUsed = 0;
  std::vector<Ev> script;
  struct Issued { int inst; PLEXIL::Command *cmd; PLEXIL::Update *upd; bool answered; };
  std::vector<Issued> cmds, upds;
  std::vector<int> added;          // plan number -> first node, or -1
  bool stop = false;               // no further verdict in this case
  bool endless = false;
  std::string trace;               // filled on demand: externally visible behaviour
  bool wantTrace = false;
  bool wholeRounds = false, unsettled = false; // run until no step is needed before the next events; could not
  std::vector<bool> alive;         // of each event: was the node concerned still there
  std::map<int, std::string> ptrace; std::map<int, std::multiset<std::string>> pissued;
  std::function<void()> afterStep, afterAdd;
  long steps = 0, late = 0, earlyAnswers = 0, extraSteps = 0;

  Run(pbt::Gen &g, pbt::Ctx &ctx, PCase &c, std::string const &uniq) : g(g), ctx(ctx), c(c), uniq(uniq), sut(c), m(c)
  {
    readHierarchy();
    added.assign(c.plans.size(), -1);
  }

  void readHierarchy()
  {
    std::istringstream s(c.hierarchy);
    std::string line;
    while (std::getline(s, line)) {
      std::istringstream l(line);
      std::string n, k;
      double w;
      if (!(l >> n) || n[0] == '%') continue;
      MArb::Res r;
      l >> r.max;
      while (l >> w >> k) r.kids.push_back({w, k});
      m.arb.tree[n] = r;
    }
  }

  std::string fullKey(std::string const &k) const { return "s" + uniq + k; }   // k starts with '_'
  std::string shortKey(std::string const &k) const { return k.substr(k.find('_')); }

  void drain() { for (; supUsed < sut.supplies.size(); ++supUsed) m.supply(sut.supplies[supUsed]); }

  template <typename F> void guarded(const char *what, F f)
  {
    try { f(); }
    catch (PLEXIL::PlanError const &e) {
      PBT_FAIL(what << ": plan error: " << e.what());
    }
    catch (PLEXIL::ParserException const &e) { PBT_FAIL(what << ": the generated plan was rejected: " << e.what()); }
    catch (PLEXIL::InterfaceError const &e) { PBT_FAIL(what << ": interface error: " << e.what()); }
    catch (PLEXIL::Error const &e) { PBT_FAIL(what << ": internal error: " << e.what()); }
  }

  void apply(Ev const &e)
  {
    using namespace PLEXIL;
    script.push_back(e);
    alive.push_back(isAlive(e));
    guarded(evStr(e).c_str(), [&] {
      switch (e.k) {
      case Ev::Push: case Ev::Poll: {
        std::string k = fullKey(e.key);
        sut.world.set[k] = e.v;
        if (e.k == Ev::Poll) break;
        auto it = sut.world.known.find(k);
        if (it == sut.world.known.end()) break;
        m.cache[k] = e.v;
        StateCache::instance().lookupReturn(it->second, e.v.known ? mkValue(e.v) : Value());
        break;
      }
      case Ev::Time: sut.world.time = e.t; break;
      case Ev::Handle: {
        if (e.a >= (int) cmds.size()) break;
        Issued &i = cmds[(size_t) e.a];
        MInst *x = m.inst[(size_t) i.inst].get();
        if (x->deleted) break;
        i.answered = true;
        commandHandle(i, (CommandHandleValue) e.b);
        if (x->active) { x->handle = e.b; if (e.b != COMMAND_SUCCESS) ++earlyAnswers; } else ++late;
        break;
      }
      case Ev::Return: {
        if (e.a >= (int) cmds.size()) break;
        Issued &i = cmds[(size_t) e.a];
        MInst *x = m.inst[(size_t) i.inst].get();
        if (x->deleted) break;
        if (x->active && x->n->hasDest) {
          x->dest = Model::base(Model::find(x, x->n->dest));
          x->destIdx = -1;
          if (x->n->hasIdx) { MVal k = m.eval(x->n->idx, x); x->destIdx = k.known ? k.i : -2; }
          m.write(x, e.v);
        }
        else ++late;
        dynamic_cast<CommandImpl *>(i.cmd)->returnValue(e.v.known ? mkValue(e.v) : Value());
        break;
      }
      case Ev::AbortAck: {
        if (e.a >= (int) cmds.size()) break;
        Issued &i = cmds[(size_t) e.a];
        MInst *x = m.inst[(size_t) i.inst].get();
        if (x->deleted) break;
        dynamic_cast<CommandImpl *>(i.cmd)->acknowledgeAbort(e.b);
        if (x->active) x->abortAck = e.b; else ++late;
        break;
      }
      case Ev::UpdAck: {
        if (e.a >= (int) upds.size()) break;
        Issued &i = upds[(size_t) e.a];
        MInst *x = m.inst[(size_t) i.inst].get();
        if (x->deleted) break;
        i.answered = true;
        i.upd->acknowledge(e.b);
        if (x->active) x->ack = e.b; else ++late;
        break;
      }
      case Ev::Add: {
        if (added[(size_t) e.a] >= 0) break;
        added[(size_t) e.a] = (int) sut.nodes.size();
        NodeImpl *r = Sut::parse(planXml(*c.plans[(size_t) e.a], c));
        m.add(c.plans[(size_t) e.a].get());
        sut.add(r);
        if (sut.nodes.size() != m.inst.size()) PBT_FAIL("parsed plan has " << sut.nodes.size() << " nodes, should have " << m.inst.size());
        break;
      }
      case Ev::Delete:
        if (sut.exec->needsStep()) { sut.exec->deleteFinishedPlans(); break; } // put off
        for (MInst *r : m.roots)
          if (!r->deleted && r->st == FINISHED_STATE) { sut.forget(r->id); m.markDeleted(r); }
        m.anyDeleted = true;
        sut.exec->deleteFinishedPlans();
        break;
      case Ev::Step: step(); break;
      }
    });
    if (!stop) drain();
    if (!stop && e.k != Ev::Step) checkNeedsStep();
  }

  bool isAlive(Ev const &e)
  {
    std::vector<Issued> *v = e.k == Ev::Handle || e.k == Ev::Return || e.k == Ev::AbortAck ? &cmds : e.k == Ev::UpdAck ? &upds : nullptr;
    return !v || (e.a < (int) v->size() && !m.inst[(size_t) (*v)[(size_t) e.a].inst]->deleted);
  }

  void commandHandle(Issued &i, PLEXIL::CommandHandleValue v) { dynamic_cast<PLEXIL::CommandImpl *>(i.cmd)->setCommandHandle(v); }

  void checkNeedsStep()
  {
    if (m.runnable() && !sut.exec->needsStep())
      PBT_FAIL("the executive reports that no step is needed, but the rules enable:" << m.describe(m.enabled()));
  }

  void step()
  {
    using namespace PLEXIL;
    ++steps;
    unsigned cycle = StateCache::instance().getCycleCount();
    bool over = false;
    try { sut.step(); }
    catch (EndlessStep const &) { over = true; }
    catch (PlanError const &e) {
      if (!strstr(e.what(), "Command name is unknown") && !strstr(e.what(), "has unknown or invalid value")) throw;
      // such a command is refused
      m.time = sut.world.time;
      try {
        for (; supUsed < sut.suppliesAtStart; ++supUsed) m.supply(sut.supplies[supUsed]);
        for (SBatch const &b : sut.batches) m.batch(b, sut.supplies, supUsed, cycle);
      }
      catch (Model::Diverged const &) { throw pbt::Discard(); }
      for (Model::En const &x : m.enabled())
        if (x.m->n->type == NodeType_Command && m.mayRefuse(x.m)) throw pbt::Discard();
      throw;
    }
    m.time = sut.world.time;
    try {
      for (; supUsed < sut.suppliesAtStart; ++supUsed) m.supply(sut.supplies[supUsed]);
      for (SBatch const &b : sut.batches) m.batch(b, sut.supplies, supUsed, cycle);
      if (over) { endless = stop = true; ctx.label("endless step"); return; }
      if (!m.queued()) {
        for (Model::En const &e : m.enabled())
          if (!e.needs || !m.blocked(e.w))
            PBT_FAIL("the step ended although nothing was issued and the rules still enable:" << m.describe(m.enabled()));
      }
      drain();
      m.finish(sut.assigns, sut.cmds, sut.upds);
    }
    catch (Model::Diverged const &) { stop = true; ctx.label("left the model's domain"); return; }
    if (sut.completions != 1) PBT_FAIL("step completion reported " << sut.completions << " times");
    checkOrder();
    m.compare(sut);
    if (afterStep) afterStep();
    if (wantTrace) record();
    for (SCmd const &x : sut.cmds) if (x.kind != 2) cmds.push_back({x.node, x.cmd, nullptr, false});
    for (SUpd const &x : sut.upds) upds.push_back({x.node, nullptr, x.upd, false});
    checkNeedsStep();
    if (sut.exec->allPlansFinished() != m.allFinished()) PBT_FAIL("allPlansFinished is " << sut.exec->allPlansFinished() << ", should be " << m.allFinished());
    // denied commands hear so at once
    size_t base = cmds.size();
    long sent = 0;
    for (SCmd const &x : sut.cmds) if (x.kind != 2) ++sent;
    std::vector<std::pair<size_t, int>> denied;
    size_t k = base - (size_t) sent;
    for (SCmd const &x : sut.cmds) if (x.kind != 2) { if (x.kind == 1) denied.push_back({k, x.node}); ++k; }
    for (auto const &d : denied) { Ev e; e.k = Ev::Handle; e.a = (int) d.first; e.b = COMMAND_DENIED; e.auto_ = true; apply(e); }
  }

  void checkOrder() // transitions, assignments, commands, denials, aborts, updates, completion
  {
    int at = 0;
    for (char ch : sut.order) {
      int r = ch == 'T' ? 0 : ch == 'A' ? 1 : ch == 'C' ? 2 : ch == 'D' ? 2 : ch == 'X' ? 3 : ch == 'U' ? 4 : 5;
      if (r < at) PBT_FAIL("order of effects in a step: " << sut.order);
      at = r;
    }
  }

  static std::string tstr(MVal const &v) { return v.known ? mstr(v) : "UNKNOWN"; }

  void record()
  {
    using namespace PLEXIL;
    // the order of what happens at once is not prescribed
    std::ostringstream o;
    for (SBatch const &b : sut.batches) {
      std::multiset<std::string> ls;
      for (Tr const &t : b.tr) { std::ostringstream l; l << t.node << ":" << nodeStateName(t.o) << ">" << nodeStateName(t.n) << "/" << t.out << "/" << t.fail << " "; ls.insert(l.str()); }
      for (auto const &l : ls) o << l;
      o << ";";
    }
    std::multiset<std::string> ls;
    for (SAssign const &a : sut.assigns) ls.insert(" " + a.name + "=" + tstr(a.v));
    for (SCmd const &x : sut.cmds) { std::ostringstream l; l << " cmd" << x.kind << ":" << x.node << ":" << x.name; for (MVal const &v : x.args) l << "," << tstr(v); ls.insert(l.str()); }
    for (SUpd const &x : sut.upds) { std::ostringstream l; l << " upd:" << x.node; for (auto const &p : x.pairs) l << "," << p.first << "=" << tstr(p.second); ls.insert(l.str()); }
    for (auto const &l : ls) o << l;
    if (getenv("PBT_SUPPLIES")) for (auto const &u : sut.supplies) o << " {" << u.key << "=" << mstr(u.v) << "@" << u.cycle << "}";
    for (auto const &t : sut.inForce) o << " " << t.first << " in (" << t.second.first << "," << t.second.second << ")";
    trace += o.str() + "\n";
    if (added.size() < 2) return;
    // the same by plan, without regard to how the work is divided into steps
    auto rel = [&] (int node) { int p = plan(node); return std::to_string(node - added[(size_t) p]); };
    for (SBatch const &b : sut.batches) {
      std::map<int, std::set<std::string>> by;
      for (Tr const &t : b.tr) { std::ostringstream l; l << rel(t.node) << ":" << nodeStateName(t.o) << ">" << nodeStateName(t.n) << "/" << t.out << "/" << t.fail << " "; by[plan(t.node)].insert(l.str()); }
      for (auto const &p : by) { for (auto const &l : p.second) ptrace[p.first] += l; ptrace[p.first] += ";\n"; }
    }
    for (SCmd const &x : sut.cmds) { std::ostringstream l; l << " cmd" << x.kind << ":" << rel(x.node) << ":" << x.name; for (MVal const &v : x.args) l << "," << tstr(v); pissued[plan(x.node)].insert(l.str()); }
    for (SUpd const &x : sut.upds) { std::ostringstream l; l << " upd:" << rel(x.node); for (auto const &p : x.pairs) l << "," << p.first << "=" << tstr(p.second); pissued[plan(x.node)].insert(l.str()); }
  }

  int plan(int inst) const
  {
    int best = -1, from = -1;
    for (size_t k = 0; k < added.size(); ++k) if (added[k] >= 0 && added[k] <= inst && added[k] > from) { best = (int) k; from = added[k]; }
    return best;
  }
  std::vector<std::string> planTraces() { std::vector<std::string> r; for (size_t k = 0; k < added.size(); ++k) { std::string t = ptrace[(int) k] + "issued:\n"; for (auto const &i : pissued[(int) k]) t += i + "\n"; r.push_back(t); } return r; }
  int activePlans() { int n = 0; for (size_t k = 0; k < added.size(); ++k) n += ptrace[(int) k].size() > 60; return n; }
  void settle() // steps until none is needed
  {
    for (int k = 0; k < 60 && !stop; ++k) {
      if (!sut.exec->needsStep()) return;
      Ev e; e.k = Ev::Step;
      apply(e);
    }
    unsettled = true;
  }

  // ---- generated histories ----
  MVal worldVal(PLEXIL::ValueType t) { return smallWorldVal(t, g.draw(420)); }

  bool genEvent(Ev &e)
  {
    using namespace PLEXIL;
    std::vector<int> open, openU;
    for (size_t k = 0; k < cmds.size(); ++k) {
      MInst *x = m.inst[(size_t) cmds[k].inst].get();
      bool latest = true;
      for (size_t j = k + 1; j < cmds.size(); ++j) if (cmds[j].inst == cmds[k].inst) latest = false;
      if (x->active && latest) open.push_back((int) k);
    }
    for (size_t k = 0; k < upds.size(); ++k) {
      MInst *x = m.inst[(size_t) upds[k].inst].get();
      bool latest = true;
      for (size_t j = k + 1; j < upds.size(); ++j) if (upds[j].inst == upds[k].inst) latest = false;
      if (x->active && latest) openU.push_back((int) k);
    }
    size_t k = g.weighted({(unsigned) (sut.world.order.empty() ? 0 : 8), (unsigned) (open.empty() ? 0 : 10), (unsigned) (openU.empty() ? 0 : 5), 2, (unsigned) (cmds.empty() ? 0 : 2), (unsigned) (upds.empty() ? 0 : 1), 1});
    switch (k) {
    case 0: {
      std::string key = g.pick(sut.world.order);
      for (std::string const &o : sut.world.order) if (o.size() > 2 && o.compare(o.size() - 2, 2, "_t") == 0 && g.chance(1, 2)) { key = o; break; }
      PState const *s = sut.world.state(key);
      e.key = shortKey(key);
      e.k = s && s->polled && g.chance(4, 5) && !wholeRounds ? Ev::Poll : Ev::Push; // one plan's lookup could let another see what is polled
      e.v = worldVal(s ? s->t : BOOLEAN_TYPE);
      if (c.hot != -9 && s && s->name.back() == 't' && g.chance(1, 2)) e.v = MVal::integer(c.hot);
      return true;
    }
    case 1: case 4: {
      e.a = k == 1 ? g.pick(open) : (int) g.draw(cmds.size());
      MInst *x = m.inst[(size_t) cmds[(size_t) e.a].inst].get();
      if (x->deleted) return false;
      size_t what = g.weighted({6, x->n->hasDest ? 5u : 0u, x->st == FAILING_STATE ? 8u : 1u});
      if (what == 0) {
        static const int hs[] = {COMMAND_SUCCESS, COMMAND_SUCCESS, COMMAND_ACCEPTED, COMMAND_SENT_TO_SYSTEM, COMMAND_RCVD_BY_SYSTEM, COMMAND_FAILED, COMMAND_DENIED, COMMAND_ABORTED, COMMAND_ABORT_FAILED, COMMAND_INTERFACE_ERROR};
        e.k = Ev::Handle; e.b = g.pick(hs);
      }
      else if (what == 1) {
        e.k = Ev::Return;
        ValueType t = x->n->hasIdx ? elType(x->n->destType) : x->n->destType;
        if (t > ARRAY_TYPE && t < ARRAY_TYPE_MAX) {
          Slot *s = Model::base(Model::find(x, x->n->dest));
          std::vector<MVal> el;
          for (int j = 0, n = (int) g.range(0, s->d->maxSize); j < n; ++j) el.push_back(worldVal(elType(t)));
          e.v = MVal::array(t, el);
        }
        else e.v = worldVal(t);
      }
      else { e.k = Ev::AbortAck; e.b = g.chance(7, 8); }
      return true;
    }
    case 2: case 5:
      e.k = Ev::UpdAck; e.a = k == 2 ? g.pick(openU) : (int) g.draw(upds.size()); e.b = g.chance(7, 8);
      return !m.inst[(size_t) upds[(size_t) e.a].inst]->deleted;
    case 3: e.k = Ev::Time; e.t = sut.world.time + (double) g.range(1, 4) / 2; return true;
    default: return false;
    }
  }

  void drive(int turns, bool multi = false, bool del = false)
  {
    for (size_t k = 0; k < c.plans.size(); ++k)
      if (!multi || k == 0) { Ev e; e.k = Ev::Add; e.a = (int) k; apply(e); }
    int idle = 0;
    for (int t = 0; t < turns && !stop; ++t) {
      if (t > 0) for (int k = 0, n = (int) g.weighted({1, 5, 3, 1}); k < n && !stop; ++k) {
        Ev e;
        if (genEvent(e)) apply(e);
      }
      if (multi && !stop && g.chance(1, 3)) for (size_t k = 0; k < c.plans.size(); ++k) if (added[k] < 0) { Ev e; e.k = Ev::Add; e.a = (int) k; apply(e); break; }
      if (del && !stop && g.chance(1, 3)) { Ev e; e.k = Ev::Delete; apply(e); }
      if (wholeRounds) { settle(); if (unsettled) break; if (m.allFinished() && !multi) break; continue; }
      int n = (int) g.weighted({1, 6, 2});  // no step, as many as needed, one only
      long before = m.stats.trans;
      for (int j = 0; j < (n == 0 ? 0 : n == 1 ? 8 : 1) && !stop; ++j) {
        bool need = sut.exec->needsStep();
        if (!need && !(j == 0 && g.chance(1, 6))) break;
        if (!need) ++extraSteps;
        Ev e; e.k = Ev::Step;
        apply(e);
      }
      if (m.allFinished() && !multi) break;
      idle = m.stats.trans == before ? idle + 1 : 0;
      if (idle > 6) break;
    }
  }

  std::string describe()
  {
    std::string r;
    for (auto const &l : c.libs) r += "library " + planStr(*l, c);
    for (auto const &p : c.plans) r += planStr(*p, c);
    if (!c.hierarchy.empty()) r += "resources:\n" + c.hierarchy;
    r += "history:";
    int st = 0;
    for (Ev const &e : script) r += (e.k == Ev::Step ? " [step " + std::to_string(++st) + "]" : " " + evStr(e) + ";");
    return r;
  }
  std::string xml()
  {
    std::string r;
    for (auto const &l : c.libs) r += planXml(*l, c) + "\n";
    for (auto const &p : c.plans) r += planXml(*p, c) + "\n";
    return r;
  }
};
#endif
