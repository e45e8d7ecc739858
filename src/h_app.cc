// C19: input queues; C20: the interface manager and the handler registry; C32: messages
#include "pbt.hh"
#include "genval.hh"
#include "plexpr.hh"
#include "plexil-config.h"
#include "AdapterConfiguration.hh"
#include "AdapterFactory.hh"
#include "CommandHandler.hh"
#include "CommandImpl.hh"
#include "Constant.hh"
#include "Dispatcher.hh"
#include "Error.hh"
#include "ExecApplication.hh"
#include "ExecListener.hh"
#include "ExecListenerHub.hh"
#include "ExprVec.hh"
#include "ExpressionListener.hh"
#include "InterfaceAdapter.hh"
#include "InterfaceError.hh"
#include "InterfaceManager.hh"
#include "Lookup.hh"
#include "LookupHandler.hh"
#include "LookupReceiver.hh"
#include "Message.hh"
#include "MessageAdapter.hh"
#include "NodeImpl.hh"
#include "ParserException.hh"
#include "PlanError.hh"
#include "PlannerUpdateHandler.hh"
#include "PlexilExec.hh"
#include "QueueEntry.hh"
#include "ResourceArbiterInterface.hh"
#include "SerializedInputQueue.hh"
#include "SimpleInputQueue.hh"
#include "State.hh"
#include "StateCache.hh"
#include "Timebase.hh"
#include "Update.hh"
#include "UserVariable.hh"
#include "parsePlan.hh"
#include "planLibrary.hh"
#include "pugixml.hpp"
#include <atomic>
#include <condition_variable>
#include <deque>
#include <functional>
#include <memory>
#include <mutex>
#include <set>

#include <poll.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using namespace PLEXIL;
using pbt::Gen; using pbt::Ctx;

static Value val(MVal const &v) { return v.known ? mkValue(v) : Value(); }
static bool sameV(MVal const &a, MVal const &b) { if (!a.known || !b.known) return a.known == b.known; return same(mkValue(a), b); }
static MVal scalar(Gen &g) { static const ValueType t[] = {INTEGER_TYPE, REAL_TYPE, BOOLEAN_TYPE, STRING_TYPE}; return genScalar(g, g.pick(t)); }
static MVal anyVal(Gen &g) { return g.chance(1, 10) ? MVal::unknown(UNKNOWN_TYPE) : genValue(g, false); }

// ================================================================ C19: input queues
struct Ent { int kind = 0; uintptr_t ptr = 0; std::string name; std::vector<MVal> par; MVal v; int hv = 0; bool ack = false; unsigned seq = 0; std::string handle; };
static const int KINDS = 11;
static char const *const kindName[] = {"uninitialised", "lookup", "command ack", "command return", "command abort", "update ack", "add plan", "receive message", "accept message", "release handle", "queue empty", "mark"};
static Ent genEnt(Gen &g, unsigned serial)
{
  Ent e; e.kind = (int) g.range(1, KINDS); e.ptr = 0x1000 + 16 * (uintptr_t) serial; e.seq = serial;
  e.name = "state" + std::to_string(serial);
  if (e.kind == 1) { size_t n = g.draw(3); for (size_t i = 0; i < n; ++i) e.par.push_back(scalar(g)); }
  if (e.kind == 1 || e.kind == 3) e.v = anyVal(g);
  if (e.kind == 2) e.hv = (int) g.range(NO_COMMAND_HANDLE + 1, COMMAND_HANDLE_MAX - 1);
  if (e.kind == 4 || e.kind == 5) e.ack = g.chance(1, 2);
  if (e.kind == 8 || e.kind == 9) e.handle = "handle" + std::to_string(serial);
  return e;
}
static void fillEntry(QueueEntry *q, Ent const &e, int how)
{
  std::vector<Value> pv; for (MVal const &m : e.par) pv.push_back(val(m));
  State s(e.name, pv); State const &cs = s; Value v = val(e.v); Value const &cv = v;
  switch (e.kind) {
  case 1: if (how == 0) q->initForLookup(cs, cv); else if (how == 1) q->initForLookup(cs, std::move(v)); else if (how == 2) q->initForLookup(std::move(s), cv); else q->initForLookup(std::move(s), std::move(v)); break;
  case 2: q->initForCommandAck((Command *) e.ptr, (CommandHandleValue) e.hv); break;
  case 3: if (how & 1) q->initForCommandReturn((Command *) e.ptr, std::move(v)); else q->initForCommandReturn((Command *) e.ptr, cv); break;
  case 4: q->initForCommandAbort((Command *) e.ptr, e.ack); break;
  case 5: q->initForUpdateAck((Update *) e.ptr, e.ack); break;
  case 6: q->initForAddPlan((NodeImpl *) e.ptr); break;
  case 7: q->initForReceiveMessage((Message *) e.ptr); break;
  case 8: q->initForAcceptMessage(new Message(s, "sender" + e.name, e.seq), e.handle); break;
  case 9: q->initForReleaseMessageHandle(e.handle); break;
  case 10: q->initForMessageQueueEmpty(); break;
  case 11: q->initForMark(e.seq); break;
  }
}
static std::string entryDiff(QueueEntry const *q, Ent const &e)
{
  static const QueueEntryType ty[] = {Q_UNINITED, Q_LOOKUP, Q_COMMAND_ACK, Q_COMMAND_RETURN, Q_COMMAND_ABORT, Q_UPDATE_ACK, Q_ADD_PLAN, Q_RECEIVE_MSG, Q_ACCEPT_MSG, Q_RELEASE_MSG_HANDLE, Q_MSG_QUEUE_EMPTY, Q_MARK};
  std::ostringstream o;
  if (q->type != ty[e.kind]) { o << "type " << q->type << " instead of " << kindName[e.kind]; return o.str(); }
  std::vector<Value> pv; for (MVal const &m : e.par) pv.push_back(val(m));
  switch (e.kind) {
  case 0: if (q->command) o << "a pointer left"; else if (q->value.isKnown()) o << "value " << q->value << " left"; break;
  case 1: if (!q->state || q->state->name() != e.name || q->state->parameters() != pv) o << "wrong state"; else if (!sameV(fromValue(q->value), e.v)) o << "value " << q->value << " instead of " << mstr(e.v); break;
  case 2: { CommandHandleValue h; if (q->command != (Command *) e.ptr) o << "wrong command"; else if (!q->value.getValue(h) || h != e.hv) o << "value " << q->value << " instead of handle " << e.hv; break; }
  case 3: if (q->command != (Command *) e.ptr) o << "wrong command"; else if (!sameV(fromValue(q->value), e.v)) o << "value " << q->value << " instead of " << mstr(e.v); break;
  case 4: case 5: { bool b; if (q->command != (Command *) e.ptr) o << "wrong pointer"; else if (!q->value.getValue(b) || b != e.ack) o << "value " << q->value << " instead of " << e.ack; break; }
  case 6: case 7: if (q->plan != (NodeImpl *) e.ptr) o << "wrong pointer"; break;
  case 8: case 9: {
    std::string h; if (!q->value.getValue(h) || h != e.handle) { o << "value " << q->value << " instead of " << e.handle; break; }
    if (e.kind == 8 && (!q->message || q->message->message.name() != e.name || q->message->sender != "sender" + e.name || q->message->timestamp != e.seq)) o << "wrong message";
    break;
  }
  case 11: if (q->sequence != e.seq) o << "mark " << q->sequence << " instead of " << e.seq; break;
  }
  return o.str();
}
struct QOp { int op; Ent e; unsigned i; int how; };
static void queueHistory(std::vector<QOp> const &ops, bool serialized, std::string *hist, long *moved)
{
  std::unique_ptr<InputQueue> q; if (serialized) q.reset(new SerializedInputQueue); else q.reset(new SimpleInputQueue);
  std::deque<std::pair<QueueEntry *, Ent>> model, held; // held: by the test, filled or taken
  std::set<QueueEntry *> out;                            // entries which aren't free
  struct Drop { std::deque<std::pair<QueueEntry *, Ent>> &h; ~Drop() { for (auto &p : h) { p.first->reset(); delete p.first; } } } drop{held};
  std::string h;
  for (QOp const &o : ops) {
    switch (o.op) {
    case 0: {
      QueueEntry *e = q->allocate(); h += " allocate";
      PBT_CHECK(e, h << ": no entry");
      PBT_CHECK(out.insert(e).second, h << ": the entry is in use");
      held.push_back({e, Ent()});
      std::string d = entryDiff(e, Ent()); PBT_CHECK(d.empty(), h << ": allocated entry has " << d);
      break;
    }
    case 1: {
      QueueEntry *e = q->allocate(); h += std::string(" put ") + kindName[o.e.kind];
      PBT_CHECK(out.insert(e).second, h << ": the entry is in use");
      fillEntry(e, o.e, o.how); q->put(e); model.push_back({e, o.e});
      break;
    }
    case 2: // an entry taken earlier goes back in
      if (held.size()) {
        auto p = held[o.i % held.size()]; if (!p.second.kind) break;
        held.erase(held.begin() + o.i % held.size()); h += std::string(" again ") + kindName[p.second.kind];
        q->put(p.first); model.push_back(p);
      }
      break;
    case 3: case 4: {
      QueueEntry *e = q->get(); h += " get";
      if (model.empty()) { PBT_CHECK(!e, h << ": an entry from an empty queue"); break; }
      PBT_CHECK(e, h << ": none although there are " << model.size());
      auto p = model.front(); model.pop_front();
      std::string d = entryDiff(e, p.second); PBT_CHECK(d.empty(), h << " (" << kindName[p.second.kind] << "): " << d);
      PBT_CHECK(e == p.first, h << ": another entry");
      ++*moved; held.push_back(p);
      if (o.op == 4) break;
      held.pop_back();
      if (p.second.kind == 8 && (o.how & 1)) { delete e->message; e->message = nullptr; } // handed over, as processQueue does
      h += " release"; out.erase(e); q->release(e);
      break;
    }
    case 5: if (held.size()) { size_t k = o.i % held.size(); h += " release"; out.erase(held[k].first); q->release(held[k].first); held.erase(held.begin() + (long) k); } break;
    case 6: { h += " empty?"; bool b = q->isEmpty(); PBT_CHECK(b == model.empty(), h << ": " << b << " with " << model.size() << " entries"); break; }
    case 7: h += " flush"; q->flush(); for (auto &p : model) out.erase(p.first); model.clear(); PBT_CHECK(q->isEmpty(), h << ": not empty"); break;
    }
    PBT_CHECK(q->isEmpty() == model.empty(), h << ": isEmpty() is " << q->isEmpty() << " with " << model.size() << " entries");
  }
  h += " delete with " + std::to_string(model.size());
  *hist = h;
}
static void queueThreads(Gen &g, Ctx &ctx)
{
  pbt::racy();
  SerializedInputQueue q;
  int P = (int) g.range(2, 4), n = (int) (g.chance(1, 3) ? g.range(500, 3000) : g.range(1, 200)); bool flushing = g.chance(1, 4), recycle = g.chance(1, 2);
  ctx.sample = "threads: " + std::to_string(P) + " producers of " + std::to_string(n) + (flushing ? ", flushed" : "");
  std::atomic<int> done(0), ready(0); std::atomic<bool> dirty(false);
  std::vector<std::thread> th;
  for (int p = 0; p < P; ++p)
    th.emplace_back([&, p] {
      ++ready; while (ready < P) std::this_thread::yield();
      for (int i = 0; i < n; ++i) {
        QueueEntry *e = q.allocate();
        if (e->type != Q_UNINITED || e->value.isKnown() || e->command) dirty = true;
        if (recycle && i % 3 == 0) { e->initForCommandAbort((Command *) 16, true); q.release(e); e = q.allocate(); if (e->type != Q_UNINITED || e->value.isKnown() || e->command) dirty = true; }
        switch (i % 3) {
        case 0: e->initForCommandReturn((Command *) (uintptr_t) (p + 1), Value((Integer) i)); break;
        case 1: e->initForCommandReturn((Command *) (uintptr_t) (p + 1), Value("entry number " + std::to_string(i))); break;
        default: e->initForLookup(State("a state of producer " + std::to_string(p + 1)), Value((Integer) i)); break;
        }
        q.put(e);
      }
      ++done;
    });
  std::vector<int> next((size_t) P, 0); long got = 0; std::string bad; unsigned rnd = 1;
  for (;;) {
    bool last = done == P;
    QueueEntry *e;
    while ((e = q.get())) {
      ++got;
      int p = -1, i = -1;
      if (e->type == Q_LOOKUP) {
        std::string const &s = e->state->name(); Integer x;
        if (s.compare(0, 20, "a state of producer ") == 0 && e->value.valueType() == INTEGER_TYPE && e->value.getValue(x)) { p = std::stoi(s.substr(20)) - 1; i = x; }
      } else if (e->type == Q_COMMAND_RETURN) {
        Integer x; String s; p = (int) (uintptr_t) e->command - 1;
        if (e->value.valueType() == INTEGER_TYPE) { e->value.getValue(x); i = x; } else if (e->value.valueType() == STRING_TYPE && e->value.getValue(s) && s.compare(0, 13, "entry number ") == 0) i = std::stoi(s.substr(13));
      }
      if (bad.empty()) {
        if (p < 0 || p >= P || i < 0 || i % 3 != (e->type == Q_LOOKUP ? 2 : i % 3)) bad = "an entry nobody put";
        else if (flushing ? i < next[(size_t) p] : i != next[(size_t) p]) bad = "entry " + std::to_string(i) + " of producer " + std::to_string(p) + " where " + std::to_string(next[(size_t) p]) + " was due";
        else next[(size_t) p] = i + 1;
      }
      q.release(e);
      if (flushing && (rnd = rnd * 1103515245 + 12345) % 4096 < 3 * 16) q.flush();
    }
    if (last) { if (!q.isEmpty() && bad.empty()) bad = "not empty although it gives nothing"; break; }
    std::this_thread::yield();
  }
  for (auto &t : th) t.join();
  PBT_CHECK(bad.empty(), ctx.sample << ": " << bad);
  PBT_CHECK(!dirty, ctx.sample << ": an entry with contents was allocated");
  if (!flushing) for (int p = 0; p < P; ++p) PBT_CHECK(next[(size_t) p] == n, ctx.sample << ": " << next[(size_t) p] << " of " << n << " entries of producer " << p << " arrived");
  ctx.nontrivial = got >= 10; ctx.label("concurrent");
}
static void c19(Gen &g, Ctx &ctx)
{
  if (g.chance(1, 20)) { queueThreads(g, ctx); ctx.addHash(ctx.sample); ctx.addHash(g.draw(1 << 30)); return; }
  bool ser = g.chance(2, 3);
  std::vector<QOp> ops; int n = (int) g.range(1, 40);
  for (int i = 0; i < n; ++i) {
    QOp o; o.op = (int) g.weighted({4, 12, 2, 8, 3, 3, 1, 1}); o.i = (unsigned) g.draw(8); o.how = (int) g.draw(4);
    if (o.op == 1) o.e = genEnt(g, (unsigned) i + 1);
    ops.push_back(o);
  }
  std::string hist; hist.reserve(8192); long moved = 0;
  queueHistory(ops, ser, &hist, &moved);
  size_t before = __sanitizer_get_current_allocated_bytes();
  long again = 0;
  { std::string h2; queueHistory(ops, ser, &h2, &again); }
  size_t after = __sanitizer_get_current_allocated_bytes();
  PBT_CHECK(after <= before, (ser ? "serialized:" : "simple:") << hist << ": " << after - before << " bytes are never freed");
  ctx.sample = (ser ? "serialized:" : "simple:") + hist; ctx.addHash(ctx.sample);
  ctx.nontrivial = moved >= 2; ctx.label("entries passed through", moved);
}

// ================================================================ C20: the interface manager
struct UpdStub : Update {
  std::string id; PairValueMap pairs; std::vector<bool> acks; std::function<void(bool)> fn; Update *nx = nullptr;
  PairValueMap const &getPairs() const override { return pairs; }
  std::string const &getNodeId() const override { return id; }
  void acknowledge(bool a) override { acks.push_back(a); if (fn) fn(a); }
  Update *next() const override { return nx; } Update **nextPtr() override { return &nx; }
};
struct Log : std::vector<std::string> { template <typename F> void add(F f) { std::ostringstream o; f(o); push_back(o.str()); } };
struct Told : ExpressionListener { std::function<void()> fn; void notifyChanged() override { fn(); } };
struct HubRec : ExecListener {
  Log *log = nullptr; Log plans, libs;
  void implementNotifyNodeTransition(NodeTransition const &t) const override { log->add([&](std::ostream &o) { o << "node " << t.node->getNodeId() << " -> " << nodeStateName(t.newState); }); }
  void implementNotifyAddPlan(pugi::xml_node const p) const override { const_cast<HubRec *>(this)->plans.push_back(p.child_value("NodeId")); }
  void implementNotifyAddLibrary(pugi::xml_node const p) const override { const_cast<HubRec *>(this)->libs.push_back(p.child_value("NodeId")); }
};
static Expression *newVar(ValueType t, char const *n)
{
  switch (t) { case INTEGER_TYPE: return new UserVariable<Integer>(n); case REAL_TYPE: return new UserVariable<Real>(n); case BOOLEAN_TYPE: return new UserVariable<Boolean>(n); case STRING_TYPE: return new UserVariable<String>(n); default: return nullptr; }
}
struct AOp { int op; int i; MVal v; int hv; bool ack; std::string s; int how; };
static const char *const opName[] = {"value", "ack", "return", "abort ack", "update ack", "plan", "bad plan", "received", "queue empty", "accepted", "released", "null", "event", "command"};
// run the history through the manager (via) or directly
static void appRun(std::vector<std::vector<AOp>> const &batches, std::vector<int> const &modes, std::vector<ValueType> const &dest, bool via, Log &log, Log &plans, bool opportunistic)
{
  std::unique_ptr<ExecApplication> app(makeExecApplication());
  HubRec *rec = new HubRec; rec->log = &log; app->listenerHub()->addListener(rec);
  PBT_CHECK(app->initialize(pugi::xml_node()) && app->startInterfaces(), "the application doesn't start");
  StateCache &sc = StateCache::instance(); InterfaceManager *m = app->manager();
  app->step();
  std::string pre = via ? "A" : "B";
  // lookups
  std::vector<std::unique_ptr<Expression>> ls; std::vector<std::unique_ptr<Told>> ws;
  auto watch = [&](std::string const &nm, Expression *e) {
    ws.emplace_back(new Told); Told *t = ws.back().get();
    t->fn = [&log, nm, e] { log.add([&](std::ostream &o) { o << nm << " is " << e->toValue(); }); };
    e->addListener(t);
  };
  auto stName = [&](int i) { return "st" + std::to_string(i); };
  for (int i = 0; i < 3; ++i) {
    ExprVec *ev = makeExprVec(1); ev->setArgument(0, new Constant<String>(pre), true);
    ls.emplace_back(makeLookup(new Constant<String>(stName(i)), true, UNKNOWN_TYPE, ev)); watch("lookup " + std::to_string(i), ls.back().get()); ls.back()->activate();
  }
  for (char const *n : {"HaveMessage", "PeekAtMessage", "PeekAtMessageSender"}) { ls.emplace_back(makeLookup(new Constant<String>(n), true, UNKNOWN_TYPE, nullptr)); watch(n, ls.back().get()); ls.back()->activate(); }
  for (int i = 0; i < 2; ++i)
    for (char const *n : {"MessageText", "MessageParameterCount", "MessageSender"}) {
      ExprVec *ev = makeExprVec(1); ev->setArgument(0, new Constant<String>(pre + std::to_string(i)), true);
      ls.emplace_back(makeLookup(new Constant<String>(n), true, UNKNOWN_TYPE, ev)); watch(n + std::to_string(i), ls.back().get()); ls.back()->activate();
    }
  // commands
  std::unique_ptr<ResourceArbiterInterface> arb(makeResourceArbiter());
  std::vector<std::unique_ptr<CommandImpl>> cs; std::vector<Expression *> dv; std::vector<bool> active;
  for (size_t i = 0; i < dest.size(); ++i) {
    cs.emplace_back(new CommandImpl("node" + std::to_string(i))); CommandImpl *c = cs.back().get();
    c->setNameExpr(new Constant<String>("cmd" + std::to_string(i)), true);
    Expression *d = newVar(dest[i], "dest"); if (d) { c->setDestination(d, true); watch("dest " + std::to_string(i), d); } dv.push_back(d);
    watch("ack " + std::to_string(i), c->getAck()); watch("abort " + std::to_string(i), c->getAbortComplete());
    c->activate(); c->fixValues();
    active.push_back(true);
  }
  std::vector<std::unique_ptr<UpdStub>> us;
  for (int i = 0; i < 2; ++i) { us.emplace_back(new UpdStub); us.back()->id = "upd" + std::to_string(i); us.back()->fn = [&log, i](bool a) { log.add([&](std::ostream &o) { o << "update " << i << " acknowledged " << a; }); }; }
  std::vector<std::unique_ptr<Message>> received;
  sc.messageQueueEmpty(); // both begin alike
  log.clear();
  auto snapshot = [&] {
    log.add([&](std::ostream &o) {
      for (auto const &l : ls) { Value v = l->toValue(); o << v << ' ' << (v.isKnown() ? (int) v.valueType() : 0) << "; "; }
      for (size_t i = 0; i < cs.size(); ++i) o << cs[i]->getCommandHandle() << ' ' << cs[i]->getAck()->toValue() << ' ' << cs[i]->getAbortComplete()->toValue() << ' ' << (dv[i] ? dv[i]->toValue() : Value()) << "; ";
      o << app->exec()->getPlans().size() << " plans:"; for (auto const &p : app->exec()->getPlans()) o << ' ' << p->getNodeId() << '/' << nodeStateName(p->getState());
    });
  };
  for (size_t b = 0; b < batches.size(); ++b) {
    bool real = false;
    int mode = opportunistic ? 3 : modes[b];
    if (mode == 3) app->setRunExecInBkgndOnly(false);
    for (AOp const &o : batches[b])
      if (o.op == 13) { size_t i = (size_t) o.i % cs.size(); if (active[i]) cs[i]->deactivate(arb.get()); else { cs[i]->activate(); cs[i]->fixValues(); } active[i] = !active[i]; }
    size_t mark = log.size();
    if (!via && mode != 3) log.push_back("--");
    for (AOp const &o : batches[b]) {
      State st(stName(o.i % 3), Value(pre)); CommandImpl *c = cs[(size_t) o.i % cs.size()].get(); Value v = val(o.v);
      std::string hd = pre + std::to_string(o.i % 2);
      pugi::xml_document doc;
      auto planDoc = [&](bool bad) {
        std::string x = bad ? "<Plan><Node NodeType=\"Nonsense\"><NodeId>bad</NodeId></Node></Plan>" : "<PlexilPlan><Node NodeType=\"Empty\"><NodeId>" + o.s + "</NodeId>"
          + (o.how ? "<StartCondition><EQNumeric><LookupOnChange><Name><StringValue>" + stName(0) + "</StringValue></Name><Arguments><StringValue>" + pre + "</StringValue></Arguments></LookupOnChange><IntegerValue>1</IntegerValue></EQNumeric></StartCondition>" : std::string())
          + "</Node></PlexilPlan>";
        doc.load_string(x.c_str());
      };
      if (o.op == 13) continue;
      if (mode == 3 && !via) log.push_back("--");
      size_t omark = log.size();
      bool r = true;
      switch (o.op) {
      case 0: if (!via) sc.lookupReturn(st, v); else if (o.how == 0) m->handleValueChange((State const &) st, (Value const &) v); else if (o.how == 1) m->handleValueChange((State const &) st, std::move(v)); else if (o.how == 2) m->handleValueChange(std::move(st), (Value const &) v); else m->handleValueChange(std::move(st), std::move(v)); break;
      case 1: {
        int h = o.hv; if (via) m->handleCommandAck(c, (CommandHandleValue) h); else commandHandleReturn(c, h <= NO_COMMAND_HANDLE || h >= COMMAND_HANDLE_MAX ? COMMAND_INTERFACE_ERROR : (CommandHandleValue) h);
        break;
      }
      case 2: if (!via) commandReturn(c, v); else if (o.how & 1) m->handleCommandReturn(c, std::move(v)); else m->handleCommandReturn(c, (Value const &) v); break;
      case 3: if (via) m->handleCommandAbortAck(c, o.ack); else commandAbortAcknowledge(c, o.ack); break;
      case 4: if (via) m->handleUpdateAck(us[(size_t) o.i % 2].get(), o.ack); else us[(size_t) o.i % 2]->acknowledge(o.ack); break;
      case 5: planDoc(false); if (via) m->handleAddPlan(doc.document_element()); else { app->exec()->addPlan(parsePlan(doc.document_element())); app->listenerHub()->notifyOfAddPlan(doc.document_element()); } break;
      case 6: r = false; planDoc(true); if (via) { bool threw = false; try { m->handleAddPlan(doc.document_element()); } catch (ParserException const &) { threw = true; } PBT_CHECK(threw, "a malformed plan is accepted"); } break;
      case 7: { Message *msg = new Message(State(o.s, Value(pre)), "sender", 1); received.emplace_back(msg); if (via) m->notifyMessageReceived(msg); else sc.messageReceived(msg); break; }
      case 8: if (via) m->notifyMessageQueueEmpty(); else sc.messageQueueEmpty(); break;
      case 9: { Message *msg = new Message(State(o.s, v), "sender of " + o.s, 2); if (via) m->notifyMessageAccepted(msg, hd); else sc.assignMessageHandle(msg, hd); break; }
      case 10: if (via) m->notifyMessageHandleReleased(hd); else sc.releaseMessageHandle(hd); break;
      case 11: // nothing to be had from these
        r = false;
        if (via) switch (o.how) {
          case 0: m->handleCommandAck(nullptr, COMMAND_SUCCESS); break; case 1: m->handleCommandReturn(nullptr, (Value const &) v); m->handleCommandReturn(nullptr, std::move(v)); break;
          case 2: m->handleCommandAbortAck(nullptr, o.ack); break; case 3: m->handleUpdateAck(nullptr, o.ack); break;
          case 4: m->notifyMessageReceived(nullptr); break; case 5: m->notifyMessageAccepted(nullptr, "A0"); break;
          case 6: { Message t(State("x"), "y", 0); m->notifyMessageAccepted(&t, ""); break; } default: m->notifyMessageHandleReleased(""); break;
        }
        break;
      case 12: r = false; if (via) { if (o.how) m->markQueue(); else if (mode != 3) m->notifyOfExternalEvent(); } break;
      }
      real = real || r;
      if (via && mode == 3) {
        PBT_CHECK(log.size() == omark, "taking notice of " << opName[o.op] << " already does '" << log.back() << "'");
        log.push_back("--"); m->notifyOfExternalEvent();
      } else if (!via && mode == 3) app->runExec();
    }
    if (via && mode != 3) {
      PBT_CHECK(log.size() == mark, "taking notice of events already does '" << log.back() << "'");
      log.push_back("--");
    }
    switch (mode) {
    case 0: if (via) { bool n = m->processQueue(); PBT_CHECK(n == real, "processQueue returns " << n << (real ? " although there was something" : " although there was nothing")); PBT_CHECK(!m->processQueue(), "the queue isn't empty once processed"); } break;
    case 1: app->step(); break;
    case 2: app->runExec(); break;
    }
    snapshot();
  }
  sc.messageQueueEmpty(); for (int i = 0; i < 2; ++i) sc.releaseMessageHandle(pre + std::to_string(i));
  plans = rec->plans;
  for (auto &l : ls) l->deactivate();
  for (size_t i = 0; i < cs.size(); ++i) if (active[i]) cs[i]->deactivate(arb.get());
  // listeners go before what they listen to
  size_t w = 0;
  for (auto &l : ls) l->removeListener(ws[w++].get());
  for (size_t i = 0; i < cs.size(); ++i) { if (dv[i]) dv[i]->removeListener(ws[w++].get()); cs[i]->getAck()->removeListener(ws[w++].get()); cs[i]->getAbortComplete()->removeListener(ws[w++].get()); }
  cs.clear(); ls.clear();
}
static void managed(Gen &g, Ctx &ctx)
{
  std::vector<ValueType> dest; size_t nc = (size_t) g.range(1, 3);
  static const ValueType dt[] = {UNKNOWN_TYPE, INTEGER_TYPE, REAL_TYPE, BOOLEAN_TYPE, STRING_TYPE};
  for (size_t i = 0; i < nc; ++i) dest.push_back(g.pick(dt));
  static const ValueType stt[] = {INTEGER_TYPE, STRING_TYPE, REAL_ARRAY_TYPE}; // by state
  bool opp = g.chance(1, 5); long ops = 0; int plan = 0;
  std::vector<std::vector<AOp>> batches; std::vector<int> modes;
  std::string h = opp ? "in the notifying thread:" : "managed:";
  int nb = (int) g.range(1, 4);
  for (int b = 0; b < nb; ++b) {
    std::vector<AOp> bt; int n = (int) g.range(0, 9);
    h += b ? " |" : "";
    for (int k = 0; k < n; ++k) {
      AOp o; o.op = (int) g.weighted({8, 6, 6, 4, 4, 3, 1, 3, 2, 3, 2, 1, 1, 1}); o.i = (int) g.draw(6); o.hv = 0; o.ack = g.chance(1, 2); o.how = (int) g.draw(4);
      o.v = MVal::unknown(UNKNOWN_TYPE);
      switch (o.op) {
      case 0: o.v = g.chance(1, 6) ? MVal::unknown(UNKNOWN_TYPE) : o.i % 3 == 0 ? MVal::integer((int32_t) g.draw(3)) : o.i % 3 == 1 ? MVal::string(genString(g)) : genArray(g, stt[2], 3); break;
      case 1: { static const int odd[] = {NO_COMMAND_HANDLE, COMMAND_HANDLE_MAX, 0, -1, 1000, INACTIVE_STATE, SUCCESS_OUTCOME}; o.hv = g.chance(1, 6) ? g.pick(odd) : (int) g.range(NO_COMMAND_HANDLE + 1, COMMAND_HANDLE_MAX - 1); break; }
      case 2: {
        ValueType t = dest[(size_t) o.i % nc];
        o.v = g.chance(1, 6) ? MVal::unknown(UNKNOWN_TYPE) : t == UNKNOWN_TYPE ? genValue(g, false) : t == INTEGER_TYPE ? MVal::integer(genInt(g)) : t == REAL_TYPE ? (g.chance(1, 3) ? MVal::integer(genInt(g)) : MVal::real(genReal(g))) : t == BOOLEAN_TYPE ? MVal::boolean(g.chance(1, 2)) : MVal::string(genString(g));
        break;
      }
      case 5: o.s = "plan" + std::to_string(++plan); o.how = g.chance(1, 2); break;
      case 7: o.s = "msg" + std::to_string(g.draw(3)); break;
      case 9: o.s = "msg" + std::to_string(g.draw(3)); o.v = scalar(g); break;
      case 11: o.how = (int) g.draw(8); break;
      case 12: o.how = g.chance(1, 2); break;
      }
      h += std::string(" ") + opName[o.op] + " " + std::to_string(o.i) + (o.op == 1 ? "=" + std::to_string(o.hv) : o.op == 0 || o.op == 2 ? "=" + mstr(o.v) : o.op == 3 || o.op == 4 ? o.ack ? "=true" : "=false" : "");
      if (o.op <= 10 && o.op != 6) ++ops;
      bt.push_back(o);
    }
    batches.push_back(bt); modes.push_back((int) g.draw(3));
    if (!opp) h += modes.back() == 0 ? " process" : modes.back() == 1 ? " step" : " run";
  }
  ctx.sample = h;
  Log a, b, pa, pb;
  try { appRun(batches, modes, dest, true, a, pa, opp); } catch (pbt::Failure const &f) { PBT_FAIL(h << ": " << f.msg); }
  appRun(batches, modes, dest, false, b, pb, opp);
  for (size_t i = 0; i < a.size() || i < b.size(); ++i) {
    std::string x = i < a.size() ? a[i] : "nothing", y = i < b.size() ? b[i] : "nothing";
    PBT_CHECK(x == y, h << ": through the manager: '" << x << "', directly: '" << y << "' (event " << i << ")");
  }
  PBT_CHECK(pa == pb, h << ": listeners are told of " << pa.size() << " plans instead of " << pb.size());
  ctx.nontrivial = ops >= 3; ctx.label("events through the manager", ops);
}

// the worker thread: whoever waits for completion finds everything queued before done
static std::string waitAll(int T, int R, bool opp)
{
  ExecApplication *app = makeExecApplication();
  app->setRunExecInBkgndOnly(!opp);
  if (!app->initialize(pugi::xml_node()) || !app->startInterfaces() || !app->run()) return "the application doesn't run";
  struct U : Update { std::atomic<long> n{0}; std::string id{"u"}; PairValueMap p; Update *nx = nullptr; PairValueMap const &getPairs() const override { return p; } std::string const &getNodeId() const override { return id; } void acknowledge(bool) override { ++n; } Update *next() const override { return nx; } Update **nextPtr() override { return &nx; } };
  std::vector<std::unique_ptr<U>> us;
  std::mutex mx; std::condition_variable cv; int fin = 0; std::string bad;
  std::vector<std::thread> th;
  for (int t = 0; t < T; ++t) us.emplace_back(new U);
  for (int t = 0; t < T; ++t)
    th.emplace_back([&, t] {
      U *u = us[(size_t) t].get();
      for (int r = 1; r <= R; ++r) {
        int k = 1 + (r * 7 + t) % 3; long want = u->n + k, got = 0;
        for (int i = 0; i < k; ++i) app->manager()->handleUpdateAck(u, true);
        if ((r + t) % 4 == 0) app->manager()->notifyOfExternalEvent();
        app->manager()->notifyAndWaitForCompletion();
        if ((got = u->n) != want) { std::lock_guard<std::mutex> l(mx); if (bad.empty()) bad = "thread " + std::to_string(t) + " goes on with " + std::to_string(want - got) + " of its events still in the queue (round " + std::to_string(r) + ")"; break; }
      }
      std::lock_guard<std::mutex> l(mx); ++fin; cv.notify_all();
    });
  { std::unique_lock<std::mutex> l(mx);
    // never: nothing is acknowledged in 20 s (counted in small steps, so a pause of the machine is no reason), or 30 s of CPU
    long seen = -1; int still = 0; double cpu = 0;
    while (!cv.wait_for(l, std::chrono::milliseconds(100), [&] { return fin == T; })) {
      long sum = 0; for (auto &u : us) sum += u->n;
      still = sum == seen ? still + 1 : 0; seen = sum;
      struct timespec ts; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts); cpu = (double) ts.tv_sec;
      if (still >= 200 || cpu > 30) { std::string r = std::to_string(T - fin) + " threads never return"; l.unlock(); for (auto &t : th) t.detach(); return r; }
    } }
  for (auto &t : th) t.join();
  return bad;
}
static void waiting(Gen &g, Ctx &ctx)
{
  int T = (int) g.range(1, 4), R = (int) g.range(1, 60); bool opp = g.chance(1, 2);
  ctx.sample = std::to_string(T) + " threads wait for completion " + std::to_string(R) + " times" + (opp ? ", exec run by whoever notifies" : "");
  pbt::racy();
  int pfd[2]; PBT_CHECK(pipe(pfd) == 0, "pipe");
  pid_t pid = fork(); PBT_CHECK(pid >= 0, "fork");
  if (!pid) { // a process of its own: stopping the worker thread takes a second
    close(pfd[0]); std::string r = waitAll(T, R, opp);
    if (r.size() && write(pfd[1], r.data(), r.size()) < 0) _exit(3);
    _exit(0);
  }
  close(pfd[1]); std::string r; char buf[512]; ssize_t k;
  for (int beats = 0;;) {
    struct pollfd pf = {pfd[0], POLLIN, 0};
    if (poll(&pf, 1, 500) <= 0) { if (++beats < 240) pbt::heartbeat(); continue; }
    if ((k = read(pfd[0], buf, sizeof buf)) <= 0) break;
    r.append(buf, (size_t) k);
  }
  close(pfd[0]); int st = 0; waitpid(pid, &st, 0);
  PBT_CHECK(r.empty(), ctx.sample << ": " << r);
  PBT_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, ctx.sample << ": the process ends with status " << st);
  ctx.nontrivial = true; ctx.label("waiting for completion");
}

// handlers: the one registered last for a name, else the default one
struct Rg {
  std::vector<std::string> log;                          // what was called, by whom
  AdapterExecInterface *intf = nullptr; bool wrongIntf = false;
};
struct HCmd : CommandHandler {
  Rg *r; std::string id; int act;                        // act 0: nothing, 1: throws, 2: answers
  HCmd(Rg *rr, std::string i, int a) : r(rr), id(std::move(i)), act(a) {}
  void executeCommand(Command *c, AdapterExecInterface *i) override { run("execute", c, i, true); }
  void abortCommand(Command *c, AdapterExecInterface *i) override { run("abort", c, i, false); }
  void run(char const *w, Command *c, AdapterExecInterface *i, bool ex)
  {
    r->log.push_back(id + " " + w + " " + c->getName()); if (i != r->intf) r->wrongIntf = true;
    if (act == 1) reportInterfaceError("refused by the handler");
    if (act == 2) { if (ex) i->handleCommandAck(c, COMMAND_RCVD_BY_SYSTEM); else i->handleCommandAbortAck(c, true); }
  }
};
struct HLook : LookupHandler {
  Rg *r; std::string id; int act;
  HLook(Rg *rr, std::string i, int a) : r(rr), id(std::move(i)), act(a) {}
  void now(State const &s, LookupReceiver *rc) { r->log.push_back(id + " lookup " + s.name()); if (act == 1) reportInterfaceError("refused by the handler"); if (act == 2) rc->update((Integer) 7); }
  void th(State const &s, double hi, double lo, bool real) { std::ostringstream o; o << id << (real ? " real " : " integer ") << "thresholds " << s.name() << ' ' << hi << ' ' << lo; r->log.push_back(o.str()); if (act == 1) reportInterfaceError("refused by the handler"); }
  void clr(State const &s) { r->log.push_back(id + " clear " + s.name()); if (act == 1) reportInterfaceError("refused by the handler"); }
  void lookupNow(State const &s, LookupReceiver *rc) override { now(s, rc); }
  void setThresholds(State const &s, Real hi, Real lo) override { th(s, hi, lo, true); }
  void setThresholds(State const &s, Integer hi, Integer lo) override { th(s, hi, lo, false); }
  void clearThresholds(State const &s) override { clr(s); }
};
struct Rcv : LookupReceiver {
  int n = 0, unknown = 0;
  void setUnknown() override { ++unknown; }
  void update(Boolean) override { ++n; } void update(Integer) override { ++n; } void update(Real) override { ++n; } void update(String const &) override { ++n; } void update(char const *) override { ++n; }
  void update(Value const &) override { ++n; }
  void update(Boolean const *, size_t) override { ++n; } void update(Integer const *, size_t) override { ++n; } void update(Real const *, size_t) override { ++n; } void update(String const *, size_t) override { ++n; }
};
static void registry(Gen &g, Ctx &ctx)
{
  std::unique_ptr<ExecApplication> app(makeExecApplication());
  PBT_CHECK(app->initialize(pugi::xml_node()) && app->startInterfaces(), "the application doesn't start");
  AdapterConfiguration *cf = app->configuration(); Rg r; r.intf = app->manager();
  std::unique_ptr<ResourceArbiterInterface> arb(makeResourceArbiter());
  static const char *const nm[] = {"alpha", "beta", "Alpha", "", "alphabet", "time2"};
  struct MC { std::string id; int act = 0; bool deflt = true, abortFn = true, abortDefault = false; };
  struct ML { std::string id; int act = 0; bool deflt = true, ln = true, tr = true, ti = true, cl = true; };
  std::map<std::string, MC> mc; std::map<std::string, ML> ml; MC dc; ML dl; int upd = 0, updAct = 0;
  // the handler functions which every application has are names of their own
  std::string h = "registry:"; int serial = 0; long calls = 0;
  int n = (int) g.range(2, 24);
  for (int k = 0; k < n; ++k) {
    std::string name = g.pick(nm); std::string id = "h" + std::to_string(++serial); int act = (int) g.weighted({3, 2, 3});
    size_t before = r.log.size();
    auto expect = [&](std::string const &what) {
      if (what.empty()) PBT_CHECK(r.log.size() == before, h << ": " << r.log.back() << " although no handler");
      else { PBT_CHECK(r.log.size() == before + 1, h << ": " << r.log.size() - before << " calls instead of '" << what << "'"); PBT_CHECK(r.log.back() == what, h << ": '" << r.log.back() << "' instead of '" << what << "'"); }
      PBT_CHECK(!r.wrongIntf, h << ": the handler isn't given the interface manager"); ++calls;
    };
    switch (g.weighted({3, 3, 3, 3, 2, 2, 1, 8, 8, 2})) {
    case 0: { // handler object
      auto p = std::make_shared<HCmd>(&r, id, act); MC m{id, act, false, true, false};
      if (g.chance(1, 2)) { std::vector<std::string> ns; size_t c = g.draw(4); for (size_t i = 0; i < c; ++i) ns.push_back(g.pick(nm)); for (auto const &s : ns) mc[s] = m; cf->registerCommandHandler(p, ns); h += " commands("; for (auto const &s : ns) h += s + ","; h += ")=" + id; }
      else { mc[name] = m; cf->registerCommandHandler(p, name); h += " command " + name + "=" + id; }
      break;
    }
    case 1: { // functions
      auto p = std::make_shared<HCmd>(&r, id, act); int ab = (int) g.draw(3); MC m{id, act, false, ab == 0, ab != 0};
      ExecuteCommandHandler ex = [p](Command *c, AdapterExecInterface *i) { p->executeCommand(c, i); }; AbortCommandHandler abf = [p](Command *c, AdapterExecInterface *i) { p->abortCommand(c, i); };
      if (g.chance(1, 4)) { dc = m; if (ab == 0) cf->setDefaultCommandHandlerFunction(ex, abf); else if (ab == 1) cf->setDefaultCommandHandlerFunction(ex); else cf->setDefaultCommandHandlerFunction(ex, nullptr); h += " default commands=functions " + id; }
      else { mc[name] = m; if (ab == 0) cf->registerCommandHandlerFunction(name, ex, abf); else if (ab == 1) cf->registerCommandHandlerFunction(name, ex); else cf->registerCommandHandlerFunction(name, ex, nullptr); h += " command " + name + "=functions " + id; }
      break;
    }
    case 2: {
      auto p = std::make_shared<HLook>(&r, id, act); ML m; m.id = id; m.act = act; m.deflt = false;
      if (g.chance(1, 2)) { std::vector<std::string> ns; size_t c = g.draw(4); for (size_t i = 0; i < c; ++i) ns.push_back(g.pick(nm)); for (auto const &s : ns) ml[s] = m; cf->registerLookupHandler(p, ns); h += " lookups("; for (auto const &s : ns) h += s + ","; h += ")=" + id; }
      else { ml[name] = m; cf->registerLookupHandler(p, name); h += " lookup " + name + "=" + id; }
      break;
    }
    case 3: {
      auto p = std::make_shared<HLook>(&r, id, act); ML m; m.id = id; m.act = act; m.deflt = false; m.ln = g.chance(5, 6); m.tr = g.chance(1, 2); m.ti = g.chance(1, 2); m.cl = g.chance(1, 2);
      LookupNowHandler a; SetThresholdsHandlerReal b; SetThresholdsHandlerInteger c; ClearThresholdsHandler d;
      if (m.ln) a = [p](State const &s, LookupReceiver *rc) { p->now(s, rc); };
      if (m.tr) b = [p](State const &s, Real hi, Real lo) { p->th(s, hi, lo, true); };
      if (m.ti) c = [p](State const &s, Integer hi, Integer lo) { p->th(s, hi, lo, false); };
      if (m.cl) d = [p](State const &s) { p->clr(s); };
      if (g.chance(1, 4)) { dl = m; cf->setDefaultLookupHandler(a, b, c, d); h += " default lookups=functions " + id; } else { ml[name] = m; cf->registerLookupHandlerFunction(name, a, b, c, d); h += " lookup " + name + "=functions " + id; }
      break;
    }
    case 4: { dc = MC{id, act, false, true, false}; cf->setDefaultCommandHandler(std::make_shared<HCmd>(&r, id, act)); h += " default commands=" + id; break; }
    case 5: { dl = ML(); dl.id = id; dl.act = act; dl.deflt = false; cf->setDefaultLookupHandler(std::make_shared<HLook>(&r, id, act)); h += " default lookups=" + id; break; }
    case 6: { upd = serial; updAct = act; cf->registerPlannerUpdateHandler([&r, id, act](Update *u, AdapterExecInterface *i) { r.log.push_back(id + " update " + u->getNodeId()); if (i != r.intf) r.wrongIntf = true; if (act == 1) reportInterfaceError("refused by the handler"); if (act == 2) i->handleUpdateAck(u, true); }); h += " updates=" + id; break; }
    case 7: {
      CommandImpl c("node"); c.setNameExpr(new Constant<String>(name), true); c.activate(); c.fixValues();
      struct Off { CommandImpl &c; ResourceArbiterInterface *a; ~Off() { c.deactivate(a); } } off{c, arb.get()};
      MC const &m = mc.count(name) ? mc[name] : dc; bool ab = g.chance(1, 2); h += (ab ? " abort " : " execute ") + name + (m.act == 1 ? " (throws)" : "");
      try { if (ab) cf->invokeAbort(&c); else cf->executeCommand(&c); } catch (InterfaceError const &) { PBT_FAIL(h << ": the handler's error comes back to the executive"); }
      bool called = !m.deflt && !(ab && m.abortDefault);
      expect(called ? m.id + (ab ? " abort " : " execute ") + name : "");
      auto aborted = [&c] { Boolean bv; return c.getAbortComplete()->getValue(bv) && bv; };
      if (called && m.act == 1) { if (ab) PBT_CHECK(!aborted(), h << ": the abort isn't reported as failed"); else PBT_CHECK(c.getCommandHandle() == COMMAND_INTERFACE_ERROR, h << ": the command's handle is " << c.getCommandHandle()); }
      else PBT_CHECK(c.getCommandHandle() == NO_COMMAND_HANDLE && !aborted(), h << ": answered before the queue is processed");
      bool q = app->manager()->processQueue(), ans = called ? m.act == 2 : true;
      PBT_CHECK(q == ans, h << ": " << (q ? "answered" : "not answered"));
      if (ans && ab) PBT_CHECK(aborted() && c.getCommandHandle() == NO_COMMAND_HANDLE, h << ": the abort isn't acknowledged");
      if (ans && !ab) PBT_CHECK(!aborted() && c.getCommandHandle() == (called ? COMMAND_RCVD_BY_SYSTEM : COMMAND_SUCCESS), h << ": the command's handle is " << c.getCommandHandle());
      if (g.chance(1, 6)) { cf->reportCommandArbitrationFailure(&c); PBT_CHECK(c.getCommandHandle() == COMMAND_DENIED, h << ": a command refused by arbitration has handle " << c.getCommandHandle()); }
      break;
    }
    case 8: {
      ML const &m = ml.count(name) ? ml[name] : dl; State s(name); Rcv rc; int what = (int) g.draw(4);
      static const char *const wn[] = {" look up ", " real thresholds ", " integer thresholds ", " clear "}; h += wn[what] + name + (m.act == 1 ? " (throws)" : "");
      try { switch (what) { case 0: cf->lookupNow(s, &rc); break; case 1: cf->setThresholds(s, 2.5, -1.5); break; case 2: cf->setThresholds(s, (Integer) 5, (Integer) -3); break; default: cf->clearThresholds(s); break; } }
      catch (InterfaceError const &) { PBT_FAIL(h << ": the handler's error comes back to the executive"); }
      bool called = !m.deflt && (what == 0 ? m.ln : what == 1 ? m.tr : what == 2 ? m.ti : m.cl);
      expect(!called ? "" : m.id + (what == 0 ? " lookup " + name : what == 1 ? " real thresholds " + name + " 2.5 -1.5" : what == 2 ? " integer thresholds " + name + " 5 -3" : " clear " + name));
      PBT_CHECK(rc.n == (what == 0 && called && m.act == 2), h << ": the value arrives " << rc.n << " times");
      PBT_CHECK(rc.unknown == (what == 0 && called && m.act == 1), h << ": set unknown " << rc.unknown << " times");
      break;
    }
    default: {
      UpdStub u; u.id = "someUpdate"; h += std::string(" update") + (upd && updAct == 1 ? " (throws)" : "");
      try { cf->executeUpdate(&u); } catch (InterfaceError const &) { PBT_FAIL(h << ": the handler's error comes back to the executive"); }
      expect(upd ? "h" + std::to_string(upd) + " update someUpdate" : "");
      if (upd && updAct == 1) PBT_CHECK(u.acks.size() == 1 && !u.acks[0], h << ": not reported as failed");
      else PBT_CHECK(u.acks.empty(), h << ": answered before the queue is processed");
      bool q = app->manager()->processQueue(), ans = !upd || updAct == 2;
      PBT_CHECK(q == ans && (!ans || (u.acks.size() == 1 && u.acks[0])), h << ": " << u.acks.size() << " answers");
      break;
    }
    }
  }
  ctx.sample = h; ctx.nontrivial = calls >= 2; ctx.label("calls to handlers", calls);
}
static void libraries(Gen &g, Ctx &ctx)
{
  static long serial = 0;
  std::unique_ptr<ExecApplication> app(makeExecApplication()); Log log; HubRec *rec = new HubRec; rec->log = &log; app->listenerHub()->addListener(rec);
  PBT_CHECK(app->initialize(pugi::xml_node()) && app->startInterfaces(), "the application doesn't start");
  pugi::xml_document *lastGood = nullptr; std::string lastName; // still the library's
  std::string h = "libraries:"; std::vector<std::string> told; std::set<std::string> have; int n = (int) g.range(1, 5);
  for (int i = 0; i < n; ++i) {
    std::string nm = "lib" + std::to_string(serial) + "_" + std::to_string(g.draw(3)), x; bool ok = false;
    switch (g.weighted({5, 1, 1, 1, 1, 1, 1, 1})) {
    case 0: ok = true; x = "<PlexilPlan><Node NodeType=\"Empty\"><NodeId>" + nm + "</NodeId></Node></PlexilPlan>"; break;
    case 1: x = "<PlexilPlan><Node NodeType=\"Nonsense\"><NodeId>" + nm + "</NodeId></Node></PlexilPlan>"; break;
    case 2: x = "<PlexilPlan/>"; break;
    case 3: x = "<Other><Node NodeType=\"Empty\"><NodeId>" + nm + "</NodeId></Node></Other>"; break;
    case 4: x = "<PlexilPlan><Node NodeType=\"Empty\"></Node></PlexilPlan>"; break;
    case 5: x = "<PlexilPlan><Node><NodeId>" + nm + "</NodeId></Node></PlexilPlan>"; break;
    case 6: x = ""; break;
    default: x = "<PlexilPlan><Node NodeType=\"Command\"><NodeId>" + nm + "</NodeId></Node></PlexilPlan>"; break;
    }
    h += ok ? " good " + nm : " bad";
    pugi::xml_document *doc = new pugi::xml_document; doc->load_string(x.c_str()); bool res;
    if (lastGood && g.chance(1, 5)) { delete doc; doc = lastGood; ok = true; nm = lastName; x = "the same document"; h += " (the last one again)"; }
    if (ok) { lastGood = doc; lastName = nm; }
    try { res = app->addLibrary(doc); } catch (std::exception const &e) { PBT_FAIL(h << ": addLibrary throws " << e.what() << " on " << x); }
    PBT_CHECK(res == ok, h << ": addLibrary returns " << res << " on " << x);
    if (ok) { told.push_back(nm); have.insert(nm); }
    PBT_CHECK((std::vector<std::string>) rec->libs == told, h << ": listeners are told of " << rec->libs.size() << " libraries instead of " << told.size());
    for (int k = 0; k < 3; ++k) { std::string s = "lib" + std::to_string(serial) + "_" + std::to_string(k); PBT_CHECK(app->manager()->isLibraryLoaded(s) == (bool) have.count(s), h << ": isLibraryLoaded(" << s << ") is wrong"); PBT_CHECK(app->loadLibrary(s) == (bool) have.count(s), h << ": loadLibrary(" << s << ") is wrong"); }
  }
  ++serial; ctx.sample = h; ctx.nontrivial = have.size() >= 1; ctx.label("libraries");
}
static void c20(Gen &g, Ctx &ctx)
{
  switch (g.weighted({120, 60, 10, 6})) {
  case 0: managed(g, ctx); break;
  case 1: registry(g, ctx); break;
  case 2: libraries(g, ctx); break;
  default: waiting(g, ctx); break;
  }
  ctx.addHash(ctx.sample);
}

// ================================================================ C32: messages
struct Spy : AdapterExecInterface {
  InterfaceManager *m; std::map<Command *, std::vector<CommandHandleValue>> acks; std::map<Command *, int> returns; std::map<Command *, std::vector<bool>> aborts; long pending = 0;
  void handleValueChange(State const &s, const Value &v) override { m->handleValueChange(s, v); } void handleValueChange(State const &s, Value &&v) override { m->handleValueChange(s, std::move(v)); }
  void handleValueChange(State &&s, const Value &v) override { m->handleValueChange(std::move(s), v); } void handleValueChange(State &&s, Value &&v) override { m->handleValueChange(std::move(s), std::move(v)); }
  void handleCommandAck(Command *c, CommandHandleValue h) override { acks[c].push_back(h); ++pending; m->handleCommandAck(c, h); }
  void handleCommandReturn(Command *c, Value const &v) override { ++returns[c]; ++pending; m->handleCommandReturn(c, v); }
  void handleCommandReturn(Command *c, Value &&v) override { ++returns[c]; ++pending; m->handleCommandReturn(c, std::move(v)); }
  void handleCommandAbortAck(Command *c, bool b) override { aborts[c].push_back(b); m->handleCommandAbortAck(c, b); }
  void handleUpdateAck(Update *u, bool a) override { m->handleUpdateAck(u, a); }
  void notifyMessageReceived(Message *x) override { ++pending; m->notifyMessageReceived(x); } void notifyMessageQueueEmpty() override { ++pending; m->notifyMessageQueueEmpty(); }
  void notifyMessageAccepted(Message *x, std::string const &s) override { ++pending; m->notifyMessageAccepted(x, s); } void notifyMessageHandleReleased(std::string const &s) override { ++pending; m->notifyMessageHandleReleased(s); }
  void handleAddPlan(pugi::xml_node const n) override { m->handleAddPlan(n); } bool handleAddLibrary(pugi::xml_document *d) override { return m->handleAddLibrary(d); }
  void notifyOfExternalEvent() override { pending = 0; m->notifyOfExternalEvent(); }
  void notifyAndWaitForCompletion() override { m->notifyAndWaitForCompletion(); }
};
struct MMsg { std::string name, sender; std::vector<MVal> par; double t0, t1; std::string handle; bool live = false; };
static void c32(Gen &g, Ctx &ctx)
{
  static std::set<std::string> everHandles;              // in this process
  static bool anyMessage = false;                        // HaveMessage is unknown before the first
  std::unique_ptr<ExecApplication> app(makeExecApplication());
  PBT_CHECK(app->initialize(pugi::xml_node()) && app->startInterfaces(), "the application doesn't start");
  app->step();
  Spy spy; spy.m = app->manager();
  pugi::xml_document conf; conf.load_string("<Adapter AdapterType=\"Message\"/>");
  std::unique_ptr<InterfaceAdapter> ad(AdapterFactory::createInstance(conf.document_element(), spy));
  PBT_CHECK(ad, "no message adapter"); MessageAdapter *ma = dynamic_cast<MessageAdapter *>(ad.get()); PBT_CHECK(ma, "the message adapter isn't one");
  AdapterConfiguration *cf = app->configuration();
  PBT_CHECK(ad->initialize(cf) && ad->start(), "the message adapter doesn't start");
  if (anyMessage) { StateCache::instance().messageQueueEmpty(); }
  std::unique_ptr<ResourceArbiterInterface> arb(makeResourceArbiter());

  std::vector<std::unique_ptr<MMsg>> all; std::deque<MMsg *> queue; MMsg *shown = nullptr; // what the plan sees at the head
  struct Ev { int k; MMsg *m; int cmd; std::string handle; };   // 0 head changes, 1 accepted, 2 released
  std::vector<Ev> evs;
  struct MCmd { std::unique_ptr<CommandImpl> c; Expression *dest = nullptr; MMsg *msg = nullptr; CommandHandleValue want; bool returns = false; };
  std::vector<std::unique_ptr<MCmd>> cmds;
  struct Off { std::vector<std::unique_ptr<MCmd>> &c; ResourceArbiterInterface *a; ~Off() { for (auto &p : c) if (p->c->isActive()) p->c->deactivate(a); } } off{cmds, arb.get()};
  // watchers
  struct Wt { std::unique_ptr<Expression> e; std::unique_ptr<Told> told; long n = 0, seen = 0; MVal last; bool first = true; int kind; int idx = 0; std::string handle; std::unique_ptr<Expression> hv; bool active = false; };
  std::vector<std::unique_ptr<Wt>> ws;
  struct OffW { std::vector<std::unique_ptr<Wt>> &w; ~OffW() { for (auto &p : w) { if (p->active) p->e->deactivate(); p->e->removeListener(p->told.get()); if (p->hv) p->hv->deactivate(); p->e.reset(); } } } offw{ws};
  static const char *const kn[] = {"HaveMessage", "PeekAtMessage", "PeekAtMessageSender", "MessageText", "MessageParameterCount", "MessageParameter", "MessageSender", "MessageArrived"};
  std::string h; long accepted = 0, released = 0, reads = 0;

  auto byHandle = [&](std::string const &hd) -> MMsg * { for (auto const &m : all) if (m->handle == hd && m->live) return m.get(); return nullptr; };
  auto expected = [&](int kind, std::string const &hd, int idx) -> MVal {
    MMsg *m = kind < 3 ? shown : byHandle(hd);
    switch (kind) {
    case 0: return MVal::boolean(m);
    case 1: return m ? MVal::string(m->name) : MVal::unknown(STRING_TYPE);
    case 2: return m ? MVal::string(m->sender) : MVal::unknown(STRING_TYPE);
    }
    if (!m) return MVal::unknown(UNKNOWN_TYPE);
    switch (kind) {
    case 3: return MVal::string(m->name);
    case 4: return MVal::integer((int32_t) m->par.size());
    case 5: return idx >= 0 && idx < (int) m->par.size() ? m->par[(size_t) idx] : MVal::unknown(UNKNOWN_TYPE);
    case 6: return MVal::string(m->sender);
    default: return MVal::real(m->t0);
    }
  };
  auto okValue = [&](MVal const &got, int kind, std::string const &hd, int idx) {
    if (kind < 3 && !anyMessage) return true;
    MVal w = expected(kind, hd, idx);
    if (!w.known) return !got.known;
    if (kind == 7) { MMsg *m = byHandle(hd); return got.known && got.t == REAL_TYPE && got.r >= m->t0 - 1e-5 && got.r <= m->t1 + 1e-5; } // to the clock's resolution
    return sameV(got, w);
  };
  auto describe = [&](int kind, std::string const &hd, int idx) { std::string s = kn[kind]; if (kind >= 3) { MMsg *m = nullptr; size_t k = 0; for (size_t i = 0; i < all.size(); ++i) if (all[i]->handle == hd && !hd.empty()) { m = all[i].get(); k = i; } s += m ? "(of message " + std::to_string(k) + (m->live ? "" : ", released") : "(" + hd; if (kind == 5) s += ", " + std::to_string(idx); s += ")"; } return s; };
  auto mkLookup = [&](int kind, Expression *he, bool garbage, int idx) {
    ExprVec *ev = nullptr;
    if (kind >= 3) { ev = makeExprVec(kind == 5 ? 2 : 1); ev->setArgument(0, he, garbage); if (kind == 5) ev->setArgument(1, new Constant<Integer>(idx), true); }
    return makeLookup(new Constant<String>(kn[kind]), true, UNKNOWN_TYPE, ev);
  };
  auto readOnce = [&](int kind, std::string const &hd, int idx) {
    std::unique_ptr<Expression> e(mkLookup(kind, kind >= 3 ? new Constant<String>(hd) : nullptr, true, idx));
    e->activate(); MVal v = fromValue(e->toValue()); e->deactivate(); ++reads;
    PBT_CHECK(okValue(v, kind, hd, idx), h << ": " << describe(kind, hd, idx) << " is " << mstr(v) << " instead of " << mstr(expected(kind, hd, idx)));
  };
  auto verifyW = [&](Wt &w) {
    if (!w.active) return;
    MVal v = fromValue(w.e->toValue());
    PBT_CHECK(okValue(v, w.kind, w.handle, w.idx), h << ": the lookup of " << describe(w.kind, w.handle, w.idx) << " reads " << mstr(v) << " instead of " << mstr(expected(w.kind, w.handle, w.idx)));
    if (!w.first && !sameV(v, w.last) && (v.known || w.last.known)) PBT_CHECK(w.n > w.seen, h << ": the lookup of " << describe(w.kind, w.handle, w.idx) << " becomes " << mstr(v) << " and nobody is told");
    w.first = false; w.last = v; w.seen = w.n;
  };
  auto process = [&] {
    h += " process";
    bool did = app->manager()->processQueue();
    if (spy.acks.size() || evs.size()) PBT_CHECK(did, h << ": nothing to process");
    for (Ev const &e : evs) switch (e.k) {
      case 0: shown = e.m; anyMessage = true; break;
      case 1: {
        MCmd &c = *cmds[(size_t) e.cmd]; MVal v = fromValue(c.dest->toValue());
        PBT_CHECK(v.known && v.t == STRING_TYPE && v.s.size(), h << ": GetMessageHandle returns " << mstr(v));
        PBT_CHECK(everHandles.insert(v.s).second, h << ": GetMessageHandle returns a handle in use");
        e.m->handle = v.s; e.m->live = true; ++accepted; break;
      }
      case 2: { MMsg *m = byHandle(e.handle); if (m) { m->live = false; ++released; } break; }
    }
    evs.clear();
    for (auto &c : cmds) {
      if (!c->c->isActive()) continue;
      auto &a = spy.acks[c->c.get()];
      PBT_CHECK(a.size() == 1, h << ": " << c->c->getName() << " is acknowledged " << a.size() << " times");
      PBT_CHECK(a[0] == c->want && c->c->getCommandHandle() == c->want, h << ": " << c->c->getName() << " is answered with " << commandHandleValueName(a[0]));
      int nr = spy.returns.count(c->c.get()) ? spy.returns[c->c.get()] : 0;
      PBT_CHECK(nr == (c->returns ? 1 : 0), h << ": " << c->c->getName() << " returns " << nr << " values");
      if (c->returns && !c->msg) PBT_CHECK(!c->dest->isKnown(), h << ": GetMessageHandle of an empty queue returns " << c->dest->toValue());
      c->c->deactivate(arb.get());
    }
    spy.acks.clear(); spy.returns.clear();
    for (auto &w : ws) verifyW(*w);
    for (int k = 0; k < 3; ++k) readOnce(k, "", 0);
    for (auto const &m : all) if (m->handle.size()) { for (int k = 3; k < 8; ++k) if (k != 5) readOnce(k, m->handle, 0); for (int i = 0; i < (int) m->par.size() + 1; ++i) readOnce(5, m->handle, i); }
  };
  auto run = [&](std::string const &name, std::vector<MVal> const &args, CommandHandleValue want, bool dest) {
    cmds.emplace_back(new MCmd); MCmd &c = *cmds.back(); c.c.reset(new CommandImpl("node")); c.want = want;
    c.c->setNameExpr(new Constant<String>(name), true);
    if (args.size()) {
      ExprVec *ev = makeExprVec(args.size());
      for (size_t i = 0; i < args.size(); ++i) { Expression *e = args[i].known ? args[i].t == INTEGER_TYPE ? (Expression *) new Constant<Integer>(args[i].i) : args[i].t == BOOLEAN_TYPE ? (Expression *) new Constant<Boolean>(args[i].b) : (Expression *) new Constant<String>(args[i].s) : newVar(args[i].t, "unknown"); ev->setArgument(i, e, true); }
      c.c->setArgumentVector(ev);
    }
    if (dest) { c.dest = newVar(STRING_TYPE, "dest"); c.c->setDestination(c.dest, true); }
    c.c->activate(); c.c->fixValues();
    cf->getCommandHandler(name)->executeCommand(c.c.get(), &spy);
    PBT_CHECK(spy.pending == 0, h << ": nobody is told there is an answer");
    return (int) cmds.size() - 1;
  };
  int n = (int) g.range(2, 30);
  for (int k = 0; k < n; ++k) {
    switch (g.weighted({8, 8, 4, 3, 6, 4, 2})) {
    case 0: {
      all.emplace_back(new MMsg); MMsg *m = all.back().get(); static const char *const nm[] = {"go", "stop", "", "a message, with words"}; static const char *const sn[] = {"sender", "other", "", "192.168.0.1"};
      m->name = g.pick(nm); size_t c = g.draw(4); for (size_t i = 0; i < c; ++i) m->par.push_back(anyVal(g));
      std::vector<Value> pv; for (auto const &p : m->par) pv.push_back(val(p));
      bool anon = g.chance(1, 4); m->sender = anon ? "" : g.pick(sn); h += " receive " + m->name + "/" + std::to_string(c) + (anon ? " anonymously" : " from " + m->sender);
      m->t0 = Timebase::queryTime(); if (anon) ma->receiveMessageAnonymously(State(m->name, pv)); else ma->receiveMessage(m->sender, State(m->name, pv)); m->t1 = Timebase::queryTime();
      PBT_CHECK(spy.pending == 0, h << ": nobody is told there is a message");
      if (queue.empty()) evs.push_back({0, m, -1, ""});
      queue.push_back(m);
      break;
    }
    case 1: {
      h += " accept"; MMsg *m = queue.empty() ? nullptr : queue.front();
      int c = run("GetMessageHandle", {}, COMMAND_SUCCESS, true); cmds[(size_t) c]->msg = m; cmds[(size_t) c]->returns = true;
      if (m) { queue.pop_front(); evs.push_back({1, m, c, ""}); evs.push_back({0, queue.empty() ? nullptr : queue.front(), -1, ""}); }
      break;
    }
    case 2: {
      std::vector<std::string> hs; for (auto const &m : all) if (m->handle.size()) hs.push_back(m->handle); hs.push_back("never a handle");
      std::string hd = g.pick(hs); h += " release"; for (size_t i = 0; i < all.size(); ++i) if (all[i]->handle == hd) h += " " + std::to_string(i);
      run("ReleaseMessageHandle", {MVal::string(hd)}, COMMAND_SUCCESS, false); evs.push_back({2, nullptr, -1, hd});
      break;
    }
    case 3: { // malformed and unimplemented
      int w = (int) g.draw(9); h += " odd " + std::to_string(w);
      MVal s = MVal::string("text"), i = MVal::integer(3), u = MVal::unknown(STRING_TYPE);
      switch (w) {
      case 0: run("ReleaseMessageHandle", {}, COMMAND_FAILED, false); break;
      case 1: run("ReleaseMessageHandle", {i}, COMMAND_FAILED, false); break;
      case 2: run("ReleaseMessageHandle", {u}, COMMAND_SUCCESS, false); break;
      case 3: run("SendMessage", {s}, COMMAND_FAILED, false); break;
      case 4: run("SendMessage", {i, s}, COMMAND_FAILED, false); break;
      case 5: run("SendMessage", {s, g.chance(1, 2) ? i : u}, COMMAND_FAILED, false); break;
      case 6: run("SendMessage", {}, COMMAND_FAILED, false); break;
      case 7: run("PublishMessage", g.chance(1, 2) ? std::vector<MVal>{} : std::vector<MVal>{g.chance(1, 2) ? i : u}, COMMAND_FAILED, false); break;
      default: run("SendMessage", {u, s}, COMMAND_FAILED, false); break;
      }
      break;
    }
    case 4: process(); break;
    case 5: {
      ws.emplace_back(new Wt); Wt &w = *ws.back(); w.kind = (int) g.draw(8); w.idx = (int) g.draw(3);
      std::vector<std::string> hs; for (auto const &m : all) if (m->handle.size()) hs.push_back(m->handle); hs.push_back("nothing yet");
      w.handle = g.pick(hs); Expression *he = nullptr; bool garb = true;
      if (w.kind >= 3) { if (g.chance(1, 2)) { w.hv.reset(newVar(STRING_TYPE, "handle")); w.hv->activate(); w.hv->asAssignable()->setValue(Value(w.handle)); he = w.hv.get(); garb = false; } else he = new Constant<String>(w.handle); }
      w.e.reset(mkLookup(w.kind, he, garb, w.idx)); w.told.reset(new Told); Wt *wp = &w; w.told->fn = [wp] { ++wp->n; }; w.e->addListener(w.told.get());
      w.active = g.chance(3, 4); if (w.active) w.e->activate();
      h += " watch " + std::to_string(ws.size() - 1) + "=" + describe(w.kind, w.handle, w.idx) + (w.active ? "" : " (inactive)");
      if (evs.empty()) verifyW(w);
      break;
    }
    default:
      if (ws.size()) {
        size_t i = g.draw(ws.size()); Wt &w = *ws[i];
        if (w.hv && g.chance(1, 2)) { std::vector<std::string> hs; for (auto const &m : all) if (m->handle.size()) hs.push_back(m->handle); hs.push_back("nothing yet"); w.handle = g.pick(hs); h += " watch " + std::to_string(i) + "=" + describe(w.kind, w.handle, w.idx); w.hv->asAssignable()->setValue(Value(w.handle)); w.first = w.first || !w.active; }
        else if (w.active) { h += " unwatch " + std::to_string(i); w.e->deactivate(); w.active = false; w.first = true; }
        else { h += " rewatch " + std::to_string(i); w.active = true; w.e->activate(); }
        if (evs.empty()) verifyW(w);
      }
      break;
    }
  }
  process();
  ctx.sample = h; ctx.addHash(h); ctx.nontrivial = accepted >= 1 && reads >= 5;
  ctx.label("messages accepted", accepted); ctx.label("handles released", released); ctx.label("reads", reads);
}

static void init() { Error::doThrowExceptions(); PlanError::doThrowExceptions(); InterfaceError::doThrowExceptions(); initMessageAdapter(); }

int main(int argc, char **argv)
{
  return pbt::main(argc, argv, {
    {"C19", c19, 160000, 4000000, "Histories of allocating, filling (each of the eleven kinds), putting, getting, keeping, releasing, flushing and deleting, on both queues, against a deque of the entries put, with the heap compared before and after; and two to four threads putting up to 3000 entries each while another takes them (some flushed, some released by the producers). Non-trivial: at least two entries passed through, ten with threads.", {"a taken message entry's message is the taker's, as the interface manager has it", "plan nodes aren't the queue's to delete"}, 400, init},
    {"C20", c20, 50000, 1500000, "Histories of values, command answers, update answers, plans, messages, null and invalid arguments given to the interface manager in batches and processed, stepped or run (in one thread, or by the notifying one), compared event by event and state by state with the same given to the executive directly; registering command, lookup, update handlers (objects, functions, defaults, some throwing) and calling them, against a map; libraries good and malformed; threads waiting for completion with the worker thread running. Non-trivial: three events taken, two handlers called, one library loaded.", {"commands and updates answered still exist", "values returned fit the command's destination"}, 200, init},
    {"C32", c32, 80000, 3000000, "Histories of receiving messages (also anonymous, with any values), accepting, releasing (also twice, also never given), malformed commands, processing, and lookups of the message states with constant and variable handles begun, changed and ended at any time; every value compared with a model of the queue and the live handles, every command's answers counted. Non-trivial: a message accepted and at least five reads.", {"handles are the ones the adapter gives", "arrival times within the clock's resolution"}, 300, init},
  });
}
