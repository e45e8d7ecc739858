// The executive against the reference model on generated plans and histories.
#include "runexec.hh"
#include "CommandImpl.hh"
#include "Constant.hh"
#include "LinkedQueue.hh"
#include "ResourceArbiterInterface.hh"
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using namespace PLEXIL;

static void init()
{
  Error::doThrowExceptions();
  PlanError::doThrowExceptions();
  InterfaceError::doThrowExceptions();
}

static int s_serial = 0;

static void dumpPlan(PCase const &c)
{
  if (char const *f = getenv("PBT_PLAN")) // what a replay which crashes was about
    if (FILE *o = fopen(f, "w")) {
      for (auto const &l : c.libs) fprintf(o, "library %s\n", planStr(*l, c).c_str());
      for (auto const &p : c.plans) fprintf(o, "%s\n", planStr(*p, c).c_str());
      fclose(o);
    }
}

// What a driven run reports.
static void labels(Run &r, pbt::Ctx &ctx, std::initializer_list<std::pair<char const *, long>> const &l)
{
  ctx.label("steps", r.steps); ctx.label("transitions", r.m.stats.trans);
  for (auto const &p : l) ctx.label(p.first, p.second);
}

// One generated case; `after' sees the finished run.
template <typename F> static void plainCase(pbt::Gen &g, pbt::Ctx &ctx, Feat const &f, F after, bool del = false)
{
  std::string uniq = std::to_string(++s_serial);
  PCase c;
  PlanGen(g, f, c, uniq).run();
  for (auto const &l : c.libs) Sut::loadLib(planXml(*l, c));
  dumpPlan(c);
  Run r(g, ctx, c, uniq);
  try {
    r.drive(f.steps, f.plans > 1, del);
    after(r);
  }
  catch (pbt::Failure &e) {
    ctx.sample = r.describe();
    if (ctx.verbose) ctx.sample += "\n" + r.xml();
    throw;
  }
  ctx.sample = r.describe();
  for (Ev const &e : r.script) ctx.addHash(evStr(e));
  for (auto const &p : c.plans) ctx.addHash(planStr(*p, c));
  for (auto const &p : c.libs) ctx.addHash(planStr(*p, c));
}

// C01: all of the language's transitions
static void c01(pbt::Gen &g, pbt::Ctx &ctx)
{
  Feat f;
  if (g.chance(1, 2)) { // several conditions change at once
    f.nodes = (int) g.range(2, 6); f.trigPct = 95; f.trigCond = 80;
    f.condPct[C_END] = 60; f.condPct[C_EXIT] = 25; f.condPct[C_INV] = 30; f.condPct[C_REPEAT] = 40; f.condPct[C_SKIP] = 6; f.condPct[C_PRE] = 8; f.condPct[C_START] = 20;
  }
  plainCase(g, ctx, f, [&] (Run &r) {
    auto &s = r.m.stats;
    ctx.nontrivial = s.trans >= 8 && s.exec >= 2 && (s.fails || s.skips || s.interrupts || s.iterations);
    labels(r, ctx, {{"failures", s.fails}, {"skips", s.skips}, {"interruptions", s.interrupts}, {"repetitions", s.iterations},
                    {"unknown conditions", s.unknownCond}, {"executions", s.exec}, {"retractions", s.retracts}, {"aborts", s.aborts}});
  });
}

// C02: chains of changes, several causes at once, nodes waiting for resources
static void c02(pbt::Gen &g, pbt::Ctx &ctx)
{
  Feat f;
  f.wEmpty = 7; f.wList = 6; f.nodes = 10;
  f.refPct = 45; f.lookupPct = 45; f.mutex = g.chance(1, 3);
  f.condPct[C_START] = 65; f.condPct[C_END] = 40; f.condPct[C_SKIP] = 18; f.condPct[C_REPEAT] = 30;
  plainCase(g, ctx, f, [&] (Run &r) {
    auto &s = r.m.stats;
    ctx.nontrivial = s.batches >= 8 && s.multi >= 1 && r.steps >= 3;
    labels(r, ctx, {{"batches", s.batches}, {"batches of several transitions", s.multi}, {"lookups read", s.lookups}, {"waits for a mutex or variable", s.waits}, {"steps not needed", r.extraSteps}});
  });
}

// C05: assignments
static void c05(pbt::Gen &g, pbt::Ctx &ctx)
{
  Feat f;
  f.wAssign = 12; f.wCmd = 1; f.wUpd = 0; f.wEmpty = 1;
  f.elemPct = 35; f.declPct = 50; f.prioPct = 55;
  f.condPct[C_INV] = 25; f.condPct[C_EXIT] = 25; f.condPct[C_REPEAT] = 35; f.condPct[C_START] = 30; f.condPct[C_END] = 35;
  plainCase(g, ctx, f, [&] (Run &r) {
    auto &s = r.m.stats;
    ctx.nontrivial = s.assigns >= 3 && (s.retracts || s.conflicts || s.simul);
    labels(r, ctx, {{"assignments", s.assigns}, {"retractions", s.retracts}, {"steps with several assignments", s.simul}, {"conflicts", s.conflicts}, {"element writes", s.elemWrites}});
  });
}

// C06: mutexes
static void c06(pbt::Gen &g, pbt::Ctx &ctx)
{
  Feat f;
  f.mutex = true; f.wList = 6; f.wAssign = 5; f.nodes = 11;
  f.condPct[C_REPEAT] = 35; f.condPct[C_EXIT] = 20; f.condPct[C_INV] = 20; f.condPct[C_SKIP] = 12; f.condPct[C_END] = 35;
  plainCase(g, ctx, f, [&] (Run &r) {
    auto &s = r.m.stats;
    ctx.nontrivial = s.hold >= 3 && s.mutexWaits >= 1;
    labels(r, ctx, {{"mutexes acquired", s.hold}, {"waits for a mutex", s.mutexWaits}, {"conflicts", s.conflicts}, {"failures", s.fails}, {"interruptions", s.interrupts}, {"repetitions", s.iterations}});
  });
}

// The arbiter by itself: long histories of batches and releases.  All levels are multiples of 1/40, which the
// model counts exactly while the arbiter adds and subtracts decimals.
static void arbiter(pbt::Gen &g, pbt::Ctx &ctx)
{
  std::string h; MArb a; a.unit = 40;
  auto num = [&] (long q) { char b[32]; double d = q / 40.0; switch (g.draw(3)) { case 0: snprintf(b, sizeof b, "%g", d); break; case 1: snprintf(b, sizeof b, "%.6f", d); break; default: snprintf(b, sizeof b, "%.3e", d); } return std::string(b); };
  auto ws = [&] { static char const *W[] = {" ", "  ", "\t", " \t "}; return std::string(g.pick(W)); };
  std::vector<std::string> names{"arm", "power", "r2", "wheel.left", "drive", "all"};
  size_t defined = g.draw(names.size() + 1); bool bad = g.chance(1, 20); size_t badAt = bad ? g.draw(defined + 1) : 99;
  auto malformed = [&] { static char const *B[] = {"x9\n", "x9 many\n", "x9 1.0 0.5\n", "x9 1.0 half arm\n", "x9 1\nx9 2\n", "x9 1 0.5 arm 0.5\n"}; h += g.pick(B); };
  for (size_t k = 0; k < defined; ++k) {
    if (k == badAt) malformed();
    while (g.chance(1, 6)) { static char const *C[] = {"\n", "% a comment\n", "   \n", " % x 1.0\n", "\t\n"}; h += g.pick(C); }
    MArb::Res r; static long const M[] = {40, 80, 4, 12, 20, 120, 60, 1, 0, 4000};
    long m = g.chance(1, 2) ? g.range(1, 120) : g.pick(M); r.max = (double) m;
    h += (g.chance(1, 6) ? ws() : std::string()) + names[k] + ws() + num(m);
    for (size_t j = 0; j < k; ++j) if (g.chance(1, 3)) { long w = g.range(1, 60) * (g.chance(1, 8) ? -1 : 1); r.kids.push_back({(double) w, names[j]}); h += ws() + num(w) + ws() + names[j]; }
    h += (g.chance(1, 6) ? ws() : std::string()) + (k + 1 == defined && g.chance(1, 3) ? "" : "\n");
    a.tree[names[k]] = r;
  }
  if (badAt == defined) { if (!h.empty() && h.back() != '\n') h += "\n"; malformed(); }
  std::unique_ptr<ResourceArbiterInterface> arb(makeResourceArbiter());
  if (g.chance(1, 4)) { std::istringstream old("arm 3 1 leg\nleg 2\nlegacy 5\n"); arb->readResourceHierarchy(old); } // replaced by the next
  std::istringstream in(h);
  bool ok = arb->readResourceHierarchy(in);
  ctx.sample = h; ctx.addHash(h);
  PBT_CHECK(ok != bad, "hierarchy " << (ok ? "accepted" : "refused") << ":\n" << h);
  if (bad) { ctx.nontrivial = true; ctx.label("malformed hierarchy"); return; }
  static std::vector<std::string> const extra{"arm", "power", "other", "r2", "drive", "all", "wheel.left"};
  std::vector<std::unique_ptr<CommandImpl>> cmds; std::map<CommandImpl *, int> id; std::vector<CommandImpl *> held;
  long denied = 0, accepted = 0, rel = 0; std::string log;
  // every expression is the command's own
  for (size_t steps = 2 + g.draw(30); steps--; ) {
    if (!held.empty() && g.chance(1, 2)) {
      size_t k = g.draw(held.size()); CommandImpl *c = held[k]; held.erase(held.begin() + k);
      arb->releaseResourcesForCommand(c); a.release(id[c]); ++rel;
      if (g.chance(1, 10)) arb->releaseResourcesForCommand(c); // nothing left to release
      log += "release " + std::to_string(id[c]) + "\n";
      continue;
    }
    std::vector<std::pair<int, std::vector<MArb::Req>>> batch; std::vector<CommandImpl *> order; LinkedQueue<CommandImpl> q, yes, no;
    for (size_t n = 1 + g.weighted({4, 3, 2, 1, 1}); n--; ) {
      cmds.emplace_back(new CommandImpl("n")); CommandImpl *c = cmds.back().get(); int i = (int) cmds.size(); id[c] = i;
      c->setNameExpr(new StringConstant("c" + std::to_string(i)), true);
      std::vector<MArb::Req> rs; ResourceSpecList *l = new ResourceSpecList; l->reserve(4); int prio = (int) g.range(0, 3); std::set<std::string> used;
      log += "command " + std::to_string(i) + " priority " + std::to_string(prio) + ":";
      for (size_t k = g.weighted({1, 5, 3, 2}); k--; ) {
        MArb::Req r; r.prio = prio; r.name = g.pick(extra); if (!used.insert(r.name).second) continue;
        long w = g.chance(1, 8) ? 0 : g.range(1, 44) * (g.chance(1, 6) ? -1 : 1); bool dflt = g.chance(1, 6); r.ub = dflt ? 40 : (double) w; r.rel = !g.chance(1, 8);
        l->emplace_back(); ResourceSpec &s = l->back();
        s.setNameExpression(new StringConstant(r.name), true); s.setPriorityExpression(new IntegerConstant(prio), true);
        if (!dflt) s.setUpperBoundExpression(new RealConstant(w / 40.0), true);
        if (!r.rel || g.chance(1, 2)) s.setReleaseAtTerminationExpression(new BooleanConstant(r.rel), true);
        rs.push_back(r); log += " " + r.name + " " + std::to_string(r.ub / 40) + (r.rel ? "" : " (for good)");
      }
      log += "\n";
      if (rs.empty()) delete l; else c->setResourceList(l);
      c->activate(); c->fixValues();
      q.push(c); order.push_back(c); batch.push_back({i, rs});
    }
    std::vector<bool> want = a.arbitrate(batch);
    arb->arbitrateCommands(q, yes, no);
    PBT_CHECK(q.empty(), "commands left over after arbitration");
    std::map<CommandImpl *, int> got; std::string acc;
    while (CommandImpl *c = yes.front()) { yes.pop(); got[c] += 1; acc += " " + std::to_string(id[c]); }
    while (CommandImpl *c = no.front()) { no.pop(); got[c] += 100; }
    log += "accepted:" + acc + "\n";
    for (size_t k = 0; k < order.size(); ++k) {
      int x = got[order[k]]; got.erase(order[k]);
      PBT_CHECK(x == (want[k] ? 1 : 100), "command " << id[order[k]] << (x == 1 ? " accepted although its resources are not available" : x == 100 ? " denied although its resources are available" : " not decided once") << "\n" << h << log);
      if (want[k]) { ++accepted; if (!batch[k].second.empty()) held.push_back(order[k]); } else ++denied;
    }
    PBT_CHECK(got.empty(), "commands from nowhere");
  }
  for (auto &c : cmds) { c->deactivate(nullptr); c->cleanUp(); }
  ctx.sample = h + log; ctx.addHash(log);
  ctx.nontrivial = accepted >= 2 && denied && rel;
  ctx.label("arbiter histories"); ctx.label("commands arbitrated", accepted + denied); ctx.label("denied by the arbiter", denied);
}

// C07: command resources
static void c07(pbt::Gen &g, pbt::Ctx &ctx)
{
  if (g.chance(1, 3)) { arbiter(g, ctx); return; }
  Feat f;
  f.resources = true; f.wCmd = 12; f.wAssign = 2; f.wUpd = 0; f.wEmpty = 1;
  f.condPct[C_REPEAT] = 40; f.condPct[C_EXIT] = 20; f.condPct[C_INV] = 15;
  plainCase(g, ctx, f, [&] (Run &r) {
    auto &s = r.m.stats;
    ctx.nontrivial = s.cmds >= 3 && s.denied >= 1 && s.cmds > s.denied;
    labels(r, ctx, {{"commands", s.cmds}, {"denied", s.denied}, {"aborts", s.aborts}});
  });
}

// C08: commands and their answers
static void c08(pbt::Gen &g, pbt::Ctx &ctx)
{
  Feat f;
  f.wCmd = 12; f.wAssign = 2; f.wUpd = 0; f.wEmpty = 2; f.resources = g.chance(1, 6);
  f.condPct[C_REPEAT] = 35; f.condPct[C_EXIT] = 28; f.condPct[C_INV] = 28; f.condPct[C_END] = 40; f.elemPct = 20;
  f.steps = 20;
  plainCase(g, ctx, f, [&] (Run &r) {
    auto &s = r.m.stats;
    ctx.nontrivial = s.cmds >= 2 && (s.aborts || r.late || s.iterations);
    labels(r, ctx, {{"commands", s.cmds}, {"denied", s.denied}, {"aborts", s.aborts}, {"late answers", r.late}, {"handles other than success", r.earlyAnswers}, {"repetitions", s.iterations}});
  });
}

// C10: updates
static void c10(pbt::Gen &g, pbt::Ctx &ctx)
{
  Feat f;
  f.wUpd = 12; f.wAssign = 4; f.wCmd = 1; f.wEmpty = 1;
  f.condPct[C_REPEAT] = 40; f.condPct[C_EXIT] = 22; f.condPct[C_INV] = 22; f.condPct[C_END] = 30;
  plainCase(g, ctx, f, [&] (Run &r) {
    auto &s = r.m.stats;
    ctx.nontrivial = s.upds >= 2 && (s.iterations || s.fails || s.interrupts || r.late);
    labels(r, ctx, {{"updates", s.upds}, {"late acknowledgements", r.late}, {"repetitions", s.iterations}, {"interruptions", s.interrupts}, {"failures", s.fails}});
  });
}

static long shadowed(PNode const *n)
{
  long k = 0;
  for (PDecl const &d : n->decls) {
    bool hides = false;
    for (PNode const *m = n->parent; m; m = m->parent)
      for (PDecl const &e : m->decls) if (e.name == d.name) hides = true;
    if (hides) ++k;
  }
  for (auto const &c : n->kids) k += shadowed(c.get());
  return k;
}
static long dupIds(PNode const *n, std::set<std::string> &seen)
{
  long k = seen.insert(n->id).second ? 0 : 1;
  for (auto const &c : n->kids) k += dupIds(c.get(), seen);
  return k;
}

// C15: name resolution
static void c15(pbt::Gen &g, pbt::Ctx &ctx)
{
  Feat f;
  f.dupIds = true; f.iface = true; f.declPct = 70; f.refPct = 45; f.wAssign = 8; f.wList = 7; f.nodes = 12; f.depth = 4;
  f.libs = g.chance(1, 3) ? 1 : 0; f.wLib = f.libs ? 4 : 0;
  plainCase(g, ctx, f, [&] (Run &r) {
    auto &s = r.m.stats;
    long sh = 0, dup = 0;
    for (auto const &p : r.c.plans) { std::set<std::string> seen; sh += shadowed(p.get()); dup += dupIds(p.get(), seen); }
    ctx.nontrivial = sh + dup >= 2 && s.trans >= 8 && s.assigns >= 1;
    labels(r, ctx, {{"declarations hiding another", sh}, {"node names used twice", dup}, {"assignments", s.assigns}});
  });
}

// C16: library calls
static void c16(pbt::Gen &g, pbt::Ctx &ctx)
{
  Feat f;
  f.libs = (int) g.range(1, 2); f.wLib = 12; f.wAssign = 6; f.nodes = 9;
  plainCase(g, ctx, f, [&] (Run &r) {
    auto &s = r.m.stats;
    ctx.nontrivial = s.libTrans >= 4 && s.exec >= 3;
    labels(r, ctx, {{"transitions within called nodes", s.libTrans}, {"assignments", s.assigns}, {"repetitions", s.iterations}});
  });
}

// C28: arrays
static void c28(pbt::Gen &g, pbt::Ctx &ctx)
{
  Feat f;
  f.wAssign = 12; f.wCmd = 3; f.wUpd = 2; f.elemPct = 75; f.arrayPct = 55; f.declPct = 60; f.monoPct = 75; f.arrayInitVar = 8;
  for (unsigned &p : f.condPct) p /= 2;
  f.condPct[C_REPEAT] = 35;
  plainCase(g, ctx, f, [&] (Run &r) {
    auto &s = r.m.stats;
    ctx.nontrivial = s.elemWrites >= 2 && s.assigns >= 3;
    labels(r, ctx, {{"assignments", s.assigns}, {"element writes", s.elemWrites}, {"retractions", s.retracts}});
  });
}

// C29: node states, outcomes, failures, handles and timepoints seen by plans
static void c29(pbt::Gen &g, pbt::Ctx &ctx)
{
  Feat f;
  f.refPct = 85; f.lookupPct = 15; f.wCmd = 4; f.wEmpty = 5;
  for (unsigned &p : f.condPct) p = p * 3 / 2;
  plainCase(g, ctx, f, [&] (Run &r) {
    auto &s = r.m.stats;
    ctx.nontrivial = s.trans >= 8 && s.nodeRefs >= 10;
    labels(r, ctx, {{"node internals read by the model", s.nodeRefs}, {"unknown conditions", s.unknownCond}, {"repetitions", s.iterations}});
  });
}

// ---- C17: repetition and independence ----

static void c17(pbt::Gen &g, pbt::Ctx &ctx)
{
  Feat f;
  f.plans = (int) g.range(1, 3); f.nodes = f.plans > 1 ? 6 : 9; f.mutex = g.chance(1, 4); f.globalMutex = false; // an executive deleted early leaves global mutexes held
  f.libs = g.chance(1, 4) ? 1 : 0; f.wLib = f.libs ? 4 : 0;
  std::string uniq = std::to_string(++s_serial);
  PCase c;
  PlanGen(g, f, c, uniq).run();
  for (auto const &l : c.libs) Sut::loadLib(planXml(*l, c));
  dumpPlan(c);
  struct Ord { int plan; int ordinal; };
  std::vector<Ev> script;
  std::vector<Ord> ords;            // of each issued command and update in the first run
  std::vector<Ord> uords;
  std::string trace, desc;
  std::vector<std::string> planTrace;
  bool usable = true;
  try {
    Run r(g, ctx, c, uniq);
    r.wantTrace = true;
    r.wholeRounds = f.plans > 1;
    try { r.drive(f.steps, f.plans > 1); }
    catch (pbt::Failure &) { ctx.sample = r.describe(); throw; }
    desc = r.describe();
    usable = !r.stop && !r.unsettled;
    script = r.script; trace = r.trace; planTrace = r.planTraces();
    std::map<int, int> n, u;
    for (auto const &i : r.cmds) { int p = r.plan(i.inst); ords.push_back({p, n[p]++}); }
    for (auto const &i : r.upds) { int p = r.plan(i.inst); uords.push_back({p, u[p]++}); }
    ctx.nontrivial = usable && r.m.stats.trans >= 12 && r.m.stats.exec >= 3 && (f.plans == 1 || r.activePlans() > 1);
    labels(r, ctx, {{"plans", (long) c.plans.size()}, {"commands", r.m.stats.cmds}, {"assignments", r.m.stats.assigns}});
  }
  catch (pbt::Failure &) { throw; }
  ctx.sample = desc;
  for (Ev const &e : script) ctx.addHash(evStr(e));
  for (auto const &p : c.plans) ctx.addHash(planStr(*p, c));
  if (!usable) return;

  // some other plan in between
  if (g.chance(1, 2)) {
    Feat o; o.nodes = 5; o.steps = 5;
    pbt::Ctx oc;
    PCase oc2;
    PlanGen(g, o, oc2, std::to_string(++s_serial)).run();
    Run r(g, oc, oc2, std::to_string(s_serial));
    r.drive(o.steps);
  }
  auto again = [&] (int only) {
    Run r(g, ctx, c, uniq);
    r.wantTrace = true;
    for (Ev e : script) {
      if (r.stop) break;
      if (only >= 0) {
        if (e.k == Ev::Add && e.a != only) continue;
        if (e.k == Ev::Handle || e.k == Ev::Return || e.k == Ev::AbortAck) { if (ords[(size_t) e.a].plan != only) continue; e.a = ords[(size_t) e.a].ordinal; }
        if (e.k == Ev::UpdAck) { if (uords[(size_t) e.a].plan != only) continue; e.a = uords[(size_t) e.a].ordinal; }
      }
      // Denials by the arbiter are repeated by the run itself
      if (e.k == Ev::Handle && e.auto_) continue;
      r.apply(e);
    }
    return only >= 0 ? r.planTraces()[(size_t) only] : r.trace;
  };
  std::string t2 = again(-1);
  if (t2 != trace) PBT_FAIL("a second run of the same plan with the same events differs\nfirst run:\n" << trace << "second run:\n" << t2);
  if (f.plans > 1)
    for (size_t k = 0; k < c.plans.size(); ++k) {
      std::string t = again((int) k);
      if (t != planTrace[k]) PBT_FAIL("plan " << k << " behaves differently when run together with others\ntogether:\n" << planTrace[k] << "alone:\n" << t);
    }
}

// ---- C18: reclamation ----

// Applies a recorded history to a fresh or used executive, keeping nothing.
class Lean : public PLEXIL::Dispatcher, public PLEXIL::ExecListenerBase {
public:
  std::unique_ptr<PlexilExec> exec;
  World world;
  std::string uniq;
  std::vector<Command *> cmds;
  std::vector<Update *> upds;
  Lean(PCase const &c, std::string const &u) : uniq(u)
  {
    world.c = &c;
    exec.reset(makePlexilExec());
    g_exec = exec.get();
    g_dispatcher = this;
    exec->setDispatcher(this);
    exec->setExecListener(this);
    if (!c.hierarchy.empty()) { std::istringstream s(c.hierarchy); exec->getArbiter()->readResourceHierarchy(s); }
  }
  ~Lean() { exec.reset(); g_exec = nullptr; g_dispatcher = nullptr; }
  void lookupNow(State const &s, LookupReceiver *r) override
  {
    if (s.name() == "time") { r->update(world.time); return; }
    std::string k = Sut::keyOf(s);
    if (!world.known.count(k)) world.known.emplace(k, s);
    MVal v = world.get(k);
    if (v.known) r->update(mkValue(v)); else r->setUnknown();
  }
  std::set<std::string> thresholds; // of which some are in force
  void setThresholds(State const &s, Real, Real) override { thresholds.insert(Sut::keyOf(s)); }
  void setThresholds(State const &s, Integer, Integer) override { thresholds.insert(Sut::keyOf(s)); }
  void clearThresholds(State const &s) override { thresholds.erase(Sut::keyOf(s)); }
  void executeCommand(Command *c) override { cmds.push_back(c); }
  void reportCommandArbitrationFailure(Command *c) override { cmds.push_back(c); denied.push_back(c); }
  void invokeAbort(Command *) override {}
  void executeUpdate(Update *u) override { upds.push_back(u); }
  std::vector<Command *> denied;

  // a repetition may take another course, as what is cached differs: see what is left of it
  int batches = 0;
  void notifyOfTransitions(std::vector<NodeTransition> const &) override { if (++batches > 2000) throw pbt::Discard(); }
  void notifyOfAssignment(Expression const *, std::string const &, Value const &) override {}
  void stepComplete(unsigned int) override {}
  std::map<NodeImpl *, std::set<void const *>> live; // root -> its commands and updates
  void number(NodeImpl *n, std::set<void const *> &s)
  {
    if (CommandNode *c = dynamic_cast<CommandNode *>(n)) s.insert(static_cast<Command const *>(c->getCommand()));
    if (UpdateNode *u = dynamic_cast<UpdateNode *>(n)) s.insert(static_cast<Update const *>(u->getUpdate()));
    for (auto const &ch : n->getChildren()) number(ch.get(), s);
  }
  void del()
  {
    exec->deleteFinishedPlans();
    std::set<NodeImpl *> left;
    for (auto const &p : exec->getPlans()) left.insert(dynamic_cast<NodeImpl *>(p.get()));
    for (auto i = live.begin(); i != live.end();) if (left.count(i->first)) ++i; else i = live.erase(i);
  }
  template <class T> T *find(std::vector<T *> const &v, int k)
  {
    if (k >= (int) v.size()) return nullptr;
    for (auto const &p : live) if (p.second.count(v[(size_t) k])) return v[(size_t) k];
    return nullptr;
  }

  void rep(PCase const &c, std::vector<Ev> const &script, std::vector<bool> const &alive)
  {
    world.time = 1; world.set.clear(); world.known.clear();
    StateCache::instance().incrementCycleCount(); // what is cached is out of date
    std::set<int> added;
    for (size_t j = 0; j < script.size(); ++j) {
      Ev const &e = script[j];
      switch (e.k) {
      case Ev::Push: case Ev::Poll: {
        std::string k = "s" + uniq + e.key;
        world.set[k] = e.v;
        if (e.k == Ev::Poll) break;
        auto it = world.known.find(k);
        if (it != world.known.end()) StateCache::instance().lookupReturn(it->second, e.v.known ? mkValue(e.v) : Value());
        break;
      }
      case Ev::Time: world.time = e.t; break;
      case Ev::Handle: if (!e.auto_ && alive[j]) if (Command *k = find(cmds, e.a)) dynamic_cast<CommandImpl *>(k)->setCommandHandle((CommandHandleValue) e.b); break;
      case Ev::Return: if (alive[j]) if (Command *k = find(cmds, e.a)) dynamic_cast<CommandImpl *>(k)->returnValue(e.v.known ? mkValue(e.v) : Value()); break;
      case Ev::AbortAck: if (alive[j]) if (Command *k = find(cmds, e.a)) dynamic_cast<CommandImpl *>(k)->acknowledgeAbort(e.b); break;
      case Ev::UpdAck: if (alive[j]) if (Update *k = find(upds, e.a)) k->acknowledge(e.b); break;
      case Ev::Add:
        if (added.insert(e.a).second) {
          NodeImpl *n = Sut::parse(planXml(*c.plans[(size_t) e.a], c));
          number(n, live[n]);
          exec->addPlan(n);
        }
        break;
      case Ev::Delete: del(); break;
      case Ev::Step:
        batches = 0;
        exec->step(StateCache::queryTime());
        for (Command *d : denied) dynamic_cast<CommandImpl *>(d)->setCommandHandle(COMMAND_DENIED);
        denied.clear();
        break;
      }
    }
    del(); batches = 0;
    // the world goes on
    for (auto const &p : world.known) StateCache::instance().lookupReturn(p.second, Value());
    try { exec->step(StateCache::queryTime()); }
    catch (PlanError const &) { if (exec->allPlansFinished()) throw; throw pbt::Discard(); } // e.g. a command whose name is now unknown
    if (exec->getPlans().empty() && !thresholds.empty()) PBT_FAIL("thresholds of " << *thresholds.begin() << " are in force although every plan is gone");
    std::vector<Command *>().swap(cmds);
    std::vector<Update *>().swap(upds);
    std::vector<Command *>().swap(denied);
    world.set.clear();
  }
};

static void c18(pbt::Gen &g, pbt::Ctx &ctx)
{
  Feat f;
  f.plans = (int) g.weighted({5, 2}) + 1; f.nodes = 9; f.wUpd = 2; f.mutex = g.chance(1, 3); f.resources = g.chance(1, 4);
  f.libs = g.chance(1, 3) ? 1 : 0; f.wLib = f.libs ? 4 : 0; f.steps = 25;
  f.condPct[C_REPEAT] = 8; f.condPct[C_END] = 40; f.condPct[C_EXIT] = 20; f.condPct[C_START] = 30;
  std::string uniq = std::to_string(++s_serial);
  PCase c;
  PlanGen(g, f, c, uniq).run();
  for (auto const &l : c.libs) Sut::loadLib(planXml(*l, c));
  dumpPlan(c);
  std::vector<Ev> script;
  std::vector<bool> alive;
  bool finished = false;
  {
    Run r(g, ctx, c, uniq);
    try { r.drive(f.steps, f.plans > 1, true); }
    catch (pbt::Failure &) { ctx.sample = r.describe(); throw; }
    ctx.sample = r.describe();
    if (char const *f = getenv("PBT_PLAN")) if (FILE *o = fopen(f, "a")) { fprintf(o, "%s\n", ctx.sample.c_str()); fclose(o); }
    if (r.stop) throw pbt::Discard();
    script = r.script; alive = r.alive;
    finished = r.m.allFinished();
    if (!finished && !c.gmutex.empty()) throw pbt::Discard(); // an executive deleted early leaves global mutexes held
    ctx.nontrivial = r.m.stats.trans >= 6 && r.m.stats.exec >= 2 && finished;
    labels(r, ctx, {{"finished", finished}, {"commands", r.m.stats.cmds}, {"lookups read", r.m.stats.lookups}});
  }
  for (Ev const &e : script) ctx.addHash(evStr(e));
  for (auto const &p : c.plans) ctx.addHash(planStr(*p, c));
  bool same = finished && !f.resources && g.chance(1, 2); // within one executive; resources may be kept for good
  const int REPS = 4;
  size_t bytes[REPS];
  try {
    if (same) {
      Lean l(c, uniq);
      for (int k = 0; k < REPS; ++k) { l.rep(c, script, alive); bytes[k] = __sanitizer_get_current_allocated_bytes(); }
    }
    else for (int k = 0; k < REPS; ++k) {
      { Lean l(c, uniq); l.rep(c, script, alive); }
      bytes[k] = __sanitizer_get_current_allocated_bytes();
    }
  }
  catch (PLEXIL::Error const &e) { PBT_FAIL("repeating the history: " << e.what()); }
  catch (PlanError const &e) { PBT_FAIL("repeating the history: " << e.what()); }
  // the first repetitions may fill caches; a leak grows every time
  if (bytes[3] > bytes[2] && bytes[2] > bytes[1])
    PBT_FAIL("memory in use grows by " << bytes[2] - bytes[1] << ", then " << bytes[3] - bytes[2] << " bytes each time the plan" << (c.plans.size() > 1 ? "s are" : " is") << " run" << (same ? " in one executive" : ""));
}

#define HIST "Random plans in XML (node trees with conditions, variables, lookups, commands, updates) loaded through the parser, then random histories of state changes, time, command and update answers and steps; every step's transitions, assignments, commands, aborts, updates and variables are compared with a reference model of the language. "

int main(int argc, char **argv)
{
  std::vector<std::string> as = {"execution order among simultaneous, independent transitions is not prescribed", "histories end when a step would never quiesce"};
  return pbt::main(argc, argv, {
    {"C01", c01, 150000, 4000000, HIST "Non-trivial: at least 8 transitions, 2 executions, and a failure, skip, interruption or repetition.", as, 200, init},
    {"C02", c02, 130000, 4000000, HIST "After every event and step the nodes the model enables must be those the executive would move. Non-trivial: at least 3 steps and 8 batches of transitions, one of them of several nodes.", as, 200, init},
    {"C05", c05, 150000, 4000000, HIST "Mostly assignments with priorities, invariants and exits on shared variables and array elements. Non-trivial: at least 3 assignments, and a retraction, a conflict or several assignments in one step.", as, 200, init},
    {"C06", c06, 150000, 4000000, HIST "Local and global mutexes, nested and multiple. Non-trivial: at least 3 acquisitions and one wait for a mutex.", as, 200, init},
    {"C07", c07, 130000, 4000000, HIST "Commands with resource requests and a random resource hierarchy; and histories of up to 32 batches of requests and releases given to the arbiter itself, with an exact model, and hierarchy files good and malformed. Non-trivial: at least 3 commands, one denied and one not; a denial and a release; a refused hierarchy.", as, 200, init},
    {"C08", c08, 150000, 4000000, HIST "Mostly commands, with answers in every order, early, late and repeated. Non-trivial: at least 2 commands, and an abort, late answer or repetition.", as, 200, init},
    {"C10", c10, 150000, 4000000, HIST "Mostly updates. Non-trivial: at least 2 updates, and a repetition, failure, interruption or late acknowledgement.", as, 200, init},
    {"C15", c15, 130000, 4000000, HIST "Few names, used again and again; local interfaces; libraries. Non-trivial: at least two names declared twice, 8 transitions and an assignment.", as, 200, init},
    {"C16", c16, 130000, 4000000, HIST "Library nodes called with aliases; the model executes the called node in place of the call. Non-trivial: at least 4 transitions inside called nodes and 3 executions.", as, 200, init},
    {"C17", c17, 40000, 1200000, HIST "Then the same history once more, after another plan, must give the same trace; and each of several plans, run alone with its own events, the trace it gave in company. Non-trivial: at least 12 transitions, 3 executions, and activity in more than one plan if there are several.", as, 100, init},
    {"C18", c18, 40000, 1000000, HIST "Then the history is repeated four times and heap use compared. Non-trivial: at least 6 transitions, 2 executions and the plan finished.", as, 100, init},
    {"C28", c28, 150000, 4000000, HIST "Mostly arrays, elements and whole-array assignments. Non-trivial: at least 2 element writes and 3 assignments.", as, 200, init},
    {"C29", c29, 150000, 4000000, HIST "Conditions mostly about node states, outcomes, failures, handles and timepoints. Non-trivial: at least 8 transitions and 10 such values read.", as, 200, init},
  });
}
