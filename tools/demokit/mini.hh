// Drives an executive from a small program: plan text in, transitions, commands and updates out.
#ifndef MINI_HH
#define MINI_HH
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include "CommandImpl.hh"
#include "Dispatcher.hh"
#include "Error.hh"
#include "ExecListenerBase.hh"
#include "InterfaceError.hh"
#include "LookupReceiver.hh"
#include "NodeConstants.hh"
#include "NodeImpl.hh"
#include "NodeTransition.hh"
#include "PlanError.hh"
#include "PlexilExec.hh"
#include "ResourceArbiterInterface.hh"
#include "State.hh"
#include "StateCache.hh"
#include "Update.hh"
#include "parsePlan.hh"
#include "parser-utils.hh"
#include "planLibrary.hh"
#include "lifecycle-utils.h"
#include "pugixml.hpp"
using namespace PLEXIL;

struct Mini : Dispatcher, ExecListenerBase {
  std::unique_ptr<PlexilExec> exec;
  std::map<std::string, Value> world;
  double time = 1;
  std::vector<std::string> log;
  std::vector<Command *> cmds, denied, aborted;
  std::vector<Update *> upds;
  std::map<std::string, int> lookups;
  explicit Mini(std::string const &hierarchy = "")
  {
    exec.reset(makePlexilExec());
    g_exec = exec.get(); g_dispatcher = this;
    exec->setDispatcher(this); exec->setExecListener(this);
    if (!hierarchy.empty()) { std::istringstream s(hierarchy); exec->getArbiter()->readResourceHierarchy(s); }
  }
  ~Mini() { exec.reset(); g_exec = nullptr; g_dispatcher = nullptr; }
  static NodeImpl *parse(std::string const &x)
  {
    pugi::xml_document d;
    std::string t = x.compare(0, 7, "<Plexil") ? "<PlexilPlan>" + x + "</PlexilPlan>" : x;
    if (!d.load_buffer(t.data(), t.size(), pugi::parse_default | pugi::parse_ws_pcdata_single)) { std::cerr << "bad XML in demo\n"; exit(3); }
    return parsePlan(d.document_element());
  }
  NodeImpl *add(std::string const &x) { NodeImpl *n = parse(x); exec->addPlan(n); return n; }
  void step() { exec->step(StateCache::queryTime()); }
  void run() { for (int i = 0; i < 50 && exec->needsStep(); ++i) step(); }
  void set(std::string const &n, Value const &v) { world[n] = v; StateCache::instance().lookupReturn(State(n), v); }
  void handle(size_t i, CommandHandleValue h) { static_cast<CommandImpl *>(cmds.at(i))->setCommandHandle(h); }
  void ret(size_t i, Value const &v) { static_cast<CommandImpl *>(cmds.at(i))->returnValue(v); }
  void abortAck(size_t i, bool b) { static_cast<CommandImpl *>(cmds.at(i))->acknowledgeAbort(b); }
  bool has(std::string const &l) { for (auto const &x : log) if (x == l) return true; return false; }
  int count(std::string const &l) { int k = 0; for (auto const &x : log) k += x == l; return k; }
  void show() { for (auto const &x : log) std::cerr << x << "\n"; }

  void notifyOfTransitions(std::vector<NodeTransition> const &v) override
  { for (auto const &t : v) log.push_back(t.node->getNodeId() + " " + nodeStateName(t.newState) + (t.newState == FINISHED_STATE || t.newState == ITERATION_ENDED_STATE ? " " + outcomeName(t.node->getOutcome()) : "")); }
  void notifyOfAssignment(Expression const *, std::string const &n, Value const &v) override { log.push_back(n + " = " + v.valueToString()); }
  void stepComplete(unsigned int) override {}
  void lookupNow(State const &s, LookupReceiver *r) override
  {
    if (s.name() == "time") { r->update(time); return; }
    ++lookups[s.name()];
    auto it = world.find(s.name());
    if (it == world.end() || !it->second.isKnown()) r->setUnknown(); else r->update(it->second);
  }
  void setThresholds(State const &s, Real h, Real l) override { log.push_back("thresholds " + s.name() + " " + std::to_string(l) + " " + std::to_string(h)); }
  void setThresholds(State const &s, Integer h, Integer l) override { log.push_back("thresholds " + s.name() + " " + std::to_string(l) + " " + std::to_string(h)); }
  void clearThresholds(State const &s) override { log.push_back("clear " + s.name()); }
  static std::string args(Command *c) { std::string r = c->getName() + "("; for (auto const &v : c->getArgValues()) { if (r.back() != '(') r += ","; r += v.valueToString(); } return r + ")"; }
  void executeCommand(Command *c) override { cmds.push_back(c); log.push_back("command " + args(c)); }
  void reportCommandArbitrationFailure(Command *c) override { denied.push_back(c); log.push_back("denied " + args(c)); }
  void invokeAbort(Command *c) override { aborted.push_back(c); log.push_back("abort " + args(c)); }
  void executeUpdate(Update *u) override { upds.push_back(u); std::string r = "update"; for (auto const &p : u->getPairs()) r += " " + p.first + "=" + p.second.valueToString(); log.push_back(r); }
};
inline void miniInit() { Error::doThrowExceptions(); PlanError::doThrowExceptions(); InterfaceError::doThrowExceptions(); }
#define WANT(x) do { if (!(x)) { std::cerr << "demo: not so: " #x "\n"; m.show(); return 1; } } while (0)
#endif
