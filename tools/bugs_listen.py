from mkbug import bug
H = r'''#include "mini.hh"
#include "ExecListener.hh"
#include "ExecListenerHub.hh"
#include "ListenerFilters.hh"
struct Rec : ExecListener {
  mutable std::vector<std::string> log;
  Rec() = default;
  explicit Rec(pugi::xml_node const x) : ExecListener(x) {}
  void implementNotifyNodeTransition(NodeTransition const &t) const override { log.push_back(t.node->getNodeId() + " " + nodeStateName(t.oldState) + " " + nodeStateName(t.newState)); }
  void implementNotifyAssignment(Expression const *, std::string const &n, Value const &) const override { log.push_back(n); }
  void implementNotifyAddPlan(pugi::xml_node const) const override {}
  void implementNotifyAddLibrary(pugi::xml_node const) const override {}
  void show() { for (auto const &x : log) std::cerr << x << "\n"; }
};
'''
bug("state-named-twice", "C21",
 "a NodeState filter whose list of states names one of them twice",
 "transitions into and out of that state aren't reported",
 [("src/app-framework/ListenerFilters.cc", "          m_stateEnabled[parseNodeState(*it)] = true;\n", "          m_stateEnabled[parseNodeState(*it)] ^= true;\n")],
 H + r'''
int main()
{
  miniInit(); registerExecListenerFilters();
  pugi::xml_document d; d.load_string("<Listener><Filter FilterType=\"NodeState\"><States>FINISHED,FAILING,FINISHED</States></Filter></Listener>");
  Rec *r = new Rec(d.document_element()); Rec &m = *r;
  ExecListenerHub hub; hub.addListener(r);
  WANT(hub.initialize() && hub.start());
  NodeImpl *n = Mini::parse("<Node NodeType=\"Empty\"><NodeId>n</NodeId></Node>");
  std::vector<NodeTransition> t;
  t.emplace_back(n, WAITING_STATE, FINISHED_STATE); t.emplace_back(n, INACTIVE_STATE, WAITING_STATE); t.emplace_back(n, EXECUTING_STATE, FAILING_STATE);
  hub.notifyOfTransitions(t); hub.stepComplete(1);
  WANT(m.log.size() == 2 && m.log[0] == "n WAITING FINISHED" && m.log[1] == "n EXECUTING FAILING");
  delete n;
  return 0;
}
''')
bug("one-transition-per-step", "C21",
 "a node which changes state twice in a step, in micro-steps which follow each other",
 "listeners are told of one transition, from the first state to the last, and never of the state in between",
 [("src/app-framework/ExecListenerHub.cc", """    m_transitions.insert(m_transitions.end(),
                         transitions.begin(), transitions.end());
""", """    for (NodeTransition const &trans : transitions) {
      if (!m_transitions.empty()
          && m_transitions.back().node == trans.node
          && m_transitions.back().newState == trans.oldState)
        m_transitions.back().newState = trans.newState;
      else
        m_transitions.push_back(trans);
    }
""")],
 H + r'''
int main()
{
  miniInit();
  Rec *r = new Rec; Rec &m = *r;
  ExecListenerHub hub; hub.addListener(r);
  WANT(hub.initialize() && hub.start());
  NodeImpl *n = Mini::parse("<Node NodeType=\"Empty\"><NodeId>n</NodeId></Node>");
  std::vector<NodeTransition> t;
  t.emplace_back(n, WAITING_STATE, EXECUTING_STATE); hub.notifyOfTransitions(t); t.clear();
  t.emplace_back(n, EXECUTING_STATE, ITERATION_ENDED_STATE); hub.notifyOfTransitions(t);
  hub.stepComplete(1);
  WANT(m.log.size() == 2 && m.log[0] == "n WAITING EXECUTING" && m.log[1] == "n EXECUTING ITERATION_ENDED");
  delete n;
  return 0;
}
''')
bug("outcome-of-the-finished-only", "C21",
 "a viewer, and a node which ends an iteration",
 "the viewer isn't told the outcome of the iteration",
 [("src/interfaces/LuvListener/LuvFormat.cc", "    if (trans.node->getOutcome() != NO_OUTCOME)\n", "    if (trans.newState == FINISHED_STATE)\n")],
 H + r'''#include "LuvFormat.hh"
struct View : Mini {
  std::vector<std::string> out;
  void notifyOfTransitions(std::vector<NodeTransition> const &v) override
  { for (auto const &t : v) { std::ostringstream o; LuvFormat::formatTransition(o, t); out.push_back(o.str()); } }
  void show() { for (auto const &x : out) std::cerr << x << "\n"; }
};
int main()
{
  miniInit();
  View m;
  m.add("<Node NodeType=\"Empty\"><NodeId>n</NodeId><RepeatCondition><LookupOnChange><Name><StringValue>again</StringValue></Name></LookupOnChange></RepeatCondition></Node>");
  m.run();
  bool told = false;
  for (auto const &x : m.out) if (x.find("<NodeState>ITERATION_ENDED</NodeState>") != std::string::npos) told = x.find("<NodeOutcome>SUCCESS</NodeOutcome>") != std::string::npos;
  WANT(told);
  return 0;
}
''', extra={"libs": "-lLuvListener\n"})
