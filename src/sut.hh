// The executive under test, with a recording external interface and listener.
#ifndef SUT_HH
#define SUT_HH
#include "genplan.hh"
#include "AssignmentNode.hh"
#include "Command.hh"
#include "CommandImpl.hh"
#include "CommandNode.hh"
#include "Dispatcher.hh"
#include "Error.hh"
#include "ExecListenerBase.hh"
#include "Expression.hh"
#include "InterfaceError.hh"
#include "LookupReceiver.hh"
#include "NodeImpl.hh"
#include "ParserException.hh"
#include "PlanError.hh"
#include "PlexilExec.hh"
#include "ResourceArbiterInterface.hh"
#include "State.hh"
#include "StateCache.hh"
#include "UpdateImpl.hh"
#include "UpdateNode.hh"
#include "parsePlan.hh"
#include "planLibrary.hh"
#include "pugixml.hpp"
#include <sstream>

inline std::string lookupKey(std::string const &name, std::vector<MVal> const &args)
{
  std::string k = name;
  for (MVal const &a : args) {
    k += '|';
    if (!a.known) k += "UNKNOWN";
    else if (a.t == PLEXIL::INTEGER_TYPE || a.t == PLEXIL::REAL_TYPE) k += mstr(MVal::real((a.t == PLEXIL::REAL_TYPE ? a.r : a.i) + 0.0)); // 1, 1.0 and -0, 0 are the same state
    else k += mstr(a);
  }
  return k;
}

// The external world: every state has a value, a function of its key until changed.
struct World {
  PCase const *c = nullptr;
  double time = 1;
  std::map<std::string, MVal> set;
  std::map<std::string, PLEXIL::State> known;      // keys asked for so far
  std::vector<std::string> order;

  PState const *state(std::string const &key) const
  {
    return stateNamed(*c, key.substr(0, key.find('|')));
  }
  MVal get(std::string const &key) const
  {
    auto it = set.find(key);
    if (it != set.end()) return it->second;
    return initialValue(*c, key);
  }
};

struct Tr { int node; PLEXIL::NodeState o, n; PLEXIL::NodeOutcome out; PLEXIL::FailureType fail; };
struct Supply { std::string key; MVal v; unsigned cycle; };
struct SBatch { std::vector<Tr> tr; size_t supplies; };
struct SCmd { int kind; int node; std::string name; std::vector<MVal> args; bool ret; PLEXIL::Command *cmd; }; // 0 sent, 1 denied, 2 aborted
struct SUpd { int node; std::map<std::string, MVal> pairs; PLEXIL::Update *upd; };
struct SAssign { std::string name; MVal v; std::string raw; };

struct EndlessStep {};
static const unsigned XML_OPTIONS = pugi::parse_default | pugi::parse_ws_pcdata_single; // as parsePlan.cc has it

class Sut : public PLEXIL::Dispatcher, public PLEXIL::ExecListenerBase {
public:
  std::unique_ptr<PLEXIL::PlexilExec> exec;
  World world;
  std::vector<PLEXIL::NodeImpl *> nodes;          // by index; null once deleted
  std::map<PLEXIL::Node const *, int> index;
  std::map<PLEXIL::Command const *, int> cmdNode;
  std::map<PLEXIL::Update const *, int> updNode;

  // of the current step
  std::vector<SBatch> batches;
  std::vector<Supply> supplies;
  size_t suppliesAtStart = 0;                     // the change of the time may have caused some
  std::vector<SAssign> assigns;
  std::vector<SCmd> cmds;
  std::vector<SUpd> upds;
  int completions = 0;
  size_t maxBatches = 150;
  PLEXIL::ExecListenerBase *also = nullptr;        // told of the same
  std::string order;                               // order of notifications of other kinds
  std::vector<std::pair<std::string, std::string>> thresholds;

  explicit Sut(PCase const &c)
  {
    using namespace PLEXIL;
    world.c = &c;
    exec.reset(makePlexilExec());
    g_exec = exec.get();
    g_dispatcher = this;
    exec->setDispatcher(this);
    exec->setExecListener(this);
    StateCache::instance().incrementCycleCount();
    if (!c.hierarchy.empty()) {
      std::istringstream s(c.hierarchy);
      exec->getArbiter()->readResourceHierarchy(s);
    }
  }
  ~Sut()
  {
    exec.reset();
    PLEXIL::g_exec = nullptr;
    PLEXIL::g_dispatcher = nullptr;
  }

  static PLEXIL::NodeImpl *parse(std::string const &xml)
  {
    pugi::xml_document doc;
    pugi::xml_parse_result r = doc.load_buffer(xml.data(), xml.size(), XML_OPTIONS);
    if (r.status != pugi::status_ok) PBT_FAIL("generated XML is not well-formed: " << r.description() << "\n" << xml);
    return PLEXIL::parsePlan(doc.document_element());
  }
  static void loadLib(std::string const &xml)
  {
    pugi::xml_document *doc = new pugi::xml_document;
    pugi::xml_parse_result r = doc->load_buffer(xml.data(), xml.size(), XML_OPTIONS);
    if (r.status != pugi::status_ok) PBT_FAIL("generated XML is not well-formed: " << r.description() << "\n" << xml);
    PLEXIL::loadLibraryDocument(doc);
  }

  void number(PLEXIL::NodeImpl *n)
  {
    using namespace PLEXIL;
    int k = (int) nodes.size();
    nodes.push_back(n);
    index[n] = k;
    if (CommandNode *c = dynamic_cast<CommandNode *>(n)) cmdNode[c->getCommand()] = k;
    if (UpdateNode *u = dynamic_cast<UpdateNode *>(n)) updNode[u->getUpdate()] = k;
    for (auto const &ch : n->getChildren()) number(ch.get());
  }
  void add(PLEXIL::NodeImpl *root) { number(root); exec->addPlan(root); }

  void forget(int node) // and all below: about to be deleted
  {
    using namespace PLEXIL;
    NodeImpl *n = nodes[(size_t) node];
    if (!n) return;
    for (auto const &ch : n->getChildren()) forget(index[ch.get()]);
    index.erase(n);
    if (CommandNode *c = dynamic_cast<CommandNode *>(n)) cmdNode.erase(c->getCommand());
    if (UpdateNode *u = dynamic_cast<UpdateNode *>(n)) updNode.erase(u->getUpdate());
    nodes[(size_t) node] = nullptr;
  }

  void step()
  {
    batches.clear(); assigns.clear(); cmds.clear(); upds.clear(); completions = 0; order.clear();
    double t = PLEXIL::StateCache::queryTime();
    suppliesAtStart = supplies.size();
    exec->step(t);
  }

  // Listener
  void notifyOfTransitions(std::vector<PLEXIL::NodeTransition> const &ts) override
  {
    SBatch b;
    for (auto const &t : ts) {
      auto it = index.find(t.node);
      if (it == index.end()) PBT_FAIL("transition reported for a node of no plan");
      b.tr.push_back({it->second, t.oldState, t.newState, t.node->getOutcome(), t.node->getFailureType()});
    }
    b.supplies = supplies.size();
    batches.push_back(b);
    order += 'T';
    if (also) also->notifyOfTransitions(ts);
    if (batches.size() >= maxBatches) throw EndlessStep();
  }
  void notifyOfAssignment(PLEXIL::Expression const *e, std::string const &rawName, PLEXIL::Value const &v) override
  {
    std::string name = rawName; // a constant and a computed index print differently when unknown
    if (size_t at = name.find("[[unknown_value]]"); at != std::string::npos) name.replace(at, 17, "[UNKNOWN]");
    assigns.push_back({name, fromValue(v), rawName});
    order += 'A';
    if (also) also->notifyOfAssignment(e, rawName, v);
  }
  void stepComplete(unsigned int n) override { ++completions; order += 'S'; if (also) also->stepComplete(n); }

  // Dispatcher
  static std::string keyOf(PLEXIL::State const &s)
  {
    std::vector<MVal> a;
    for (PLEXIL::Value const &v : s.parameters()) a.push_back(fromValue(v));
    return lookupKey(s.name(), a);
  }
  void lookupNow(PLEXIL::State const &s, PLEXIL::LookupReceiver *r) override
  {
    if (s.name() == "time") { r->update(world.time); return; }
    std::string k = keyOf(s);
    if (!world.known.count(k)) { world.known.emplace(k, s); world.order.push_back(k); }
    MVal v = world.get(k);
    supplies.push_back({k, v, PLEXIL::StateCache::instance().getCycleCount()});
    if (v.known) r->update(mkValue(v)); else r->setUnknown();
  }
  std::map<std::string, std::pair<double, double>> inForce; // in force
  void setThresholds(PLEXIL::State const &s, PLEXIL::Real hi, PLEXIL::Real lo) override { inForce[keyOf(s)] = {lo, hi}; }
  void setThresholds(PLEXIL::State const &s, PLEXIL::Integer hi, PLEXIL::Integer lo) override { inForce[keyOf(s)] = {lo, hi}; }
  void clearThresholds(PLEXIL::State const &s) override { inForce.erase(keyOf(s)); }
  void rec(int kind, PLEXIL::Command *c)
  {
    auto it = cmdNode.find(c);
    SCmd r{kind, it == cmdNode.end() ? -1 : it->second, c->getName(), {}, c->isReturnExpected(), c};
    for (PLEXIL::Value const &v : c->getArgValues()) r.args.push_back(fromValue(v));
    cmds.push_back(r);
    order += kind == 0 ? 'C' : kind == 1 ? 'D' : 'X';
  }
  void executeCommand(PLEXIL::Command *c) override { rec(0, c); }
  void reportCommandArbitrationFailure(PLEXIL::Command *c) override { rec(1, c); }
  void invokeAbort(PLEXIL::Command *c) override { rec(2, c); }
  void executeUpdate(PLEXIL::Update *u) override
  {
    auto it = updNode.find(u);
    SUpd r{it == updNode.end() ? -1 : it->second, {}, u};
    for (auto const &p : u->getPairs()) r.pairs[p.first] = fromValue(p.second);
    upds.push_back(r);
    order += 'U';
  }
};
#endif
