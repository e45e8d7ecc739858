# Planted bugs for properties that had none yet.
from mkbug import bug
M = '#include "mini.hh"\nint main()\n{\n  miniInit();\n'
LK = lambda n: "<LookupOnChange><Name><StringValue>%s</StringValue></Name></LookupOnChange>" % n
def q(s): return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'

def cmd(nid, conds="", name="go", extra="", args=""):
    return ('<Node NodeType="Command"><NodeId>%s</NodeId>%s%s<NodeBody><Command>%s<Name><StringValue>%s</StringValue></Name>%s</Command></NodeBody></Node>'
            % (nid, extra, conds, RES.get(nid, ""), name, args))
RES = {}
def res(*rs):
    return "<ResourceList>" + "".join(
        "<Resource><ResourceName><StringValue>%s</StringValue></ResourceName><ResourcePriority><IntegerValue>%d</IntegerValue></ResourcePriority><ResourceUpperBound><RealValue>%s</RealValue></ResourceUpperBound></Resource>" % r for r in rs) + "</ResourceList>"
def using(m): return "<UsingMutex><Name>%s</Name></UsingMutex>" % m
def start(c): return "<StartCondition>%s</StartCondition>" % c
def lst(nid, kids, decls="", conds=""):
    return '<Node NodeType="NodeList"><NodeId>%s</NodeId>%s%s<NodeBody><NodeList>%s</NodeList></NodeBody></Node>' % (nid, conds, decls and "<VariableDeclarations>%s</VariableDeclarations>" % decls, kids)
ENDNEVER = "<EndCondition><BooleanValue>false</BooleanValue></EndCondition>"

# C06: the first waiter alone is told, although it needs something else as well
bug("first-waiter-only", "C06",
 "two nodes that wait for a mutex, of which the one that has waited longer waits for another mutex as well",
 "only the node that has waited longest is told of the release, and the other waits although nothing stops it",
 [("src/expr/Reservable.cc", "      for (NodeConnector *n : m_waiters)\n        n->notifyResourceAvailable();\n",
   "      if (!m_waiters.empty())\n        m_waiters.front()->notifyResourceAvailable();\n")],
 M + '  Mini m; m.world["x"] = Value((Boolean) false); m.world["z"] = Value((Boolean) false);\n'
   + '  m.add(' + q(lst("p",
     cmd("a", "", "a", using("mx"))
     + cmd("d", ENDNEVER, "d", using("my"))
     + cmd("b", start(LK("x")), "b", "<UsingMutex><Name>mx</Name><Name>my</Name></UsingMutex>")
     + cmd("c", start(LK("z")), "c", using("mx")), "<DeclareMutex><Name>mx</Name></DeclareMutex><DeclareMutex><Name>my</Name></DeclareMutex>")) + ');\n'
   + r"""  m.run();
  WANT(m.cmds.size() == 2);
  m.set("x", Value((Boolean) true)); m.run(); // b waits for both
  m.set("z", Value((Boolean) true)); m.run(); // c waits for mx
  WANT(m.cmds.size() == 2);
  m.handle(m.cmds[0]->getName() == "a" ? 0 : 1, COMMAND_SUCCESS); m.run(); // a ends
  WANT(m.has("a FINISHED SUCCESS"));
  WANT(m.has("command c()"));
  return 0;
}
""")

# C06/C15: a local mutex hides a global one of the same name
bug("global-mutex-first", "C06",
 "a local mutex with the name of a global one",
 "the name means the global mutex, so that nodes of different plans exclude each other",
 [("src/exec/NodeImpl.cc", "    Mutex *result = nullptr;\n    NodeImpl const *node = this;\n    while (node) {\n      std::vector<MutexPtr> const *mutexvec",
   "    Mutex *result = getGlobalMutex(name);\n    NodeImpl const *node = this;\n    while (!result && node) {\n      std::vector<MutexPtr> const *mutexvec")],
 M + r'''  Mini m;
  m.add("<PlexilPlan><GlobalDeclarations LineNo=\"1\" ColNo=\"1\"><DeclareMutex><Name>shared</Name></DeclareMutex></GlobalDeclarations>"
   ''' + q(cmd("one", ENDNEVER, "one", using("shared"))) + r''' "</PlexilPlan>");
  m.run(); WANT(m.has("command one()"));
  m.add(''' + q(lst("p", cmd("two", "", "two", using("shared")), "<DeclareMutex><Name>shared</Name></DeclareMutex>")) + r''');
  m.run();
  WANT(m.has("command two()"));
  return 0;
}
''')

# C07: the estimate of a denied command stays
RES.update({"a": res(("r", 1, "0.3")), "b": res(("r", 2, "0.5"), ("t", 2, "1.5")), "c": res(("r", 3, "0.3"))})
bug("denied-use-stays", "C07",
 "three commands of one step, the second of which is denied for its second resource",
 "what the denied command would have used of its other resources is still counted, and a third command that fits is denied",
 [("src/intfc/ResourceArbiterInterface.cc", "          // Back out effects of rejected command\n          estimates = savedEstimates;\n", "          // Back out effects of rejected command\n          for (ChildResourceNode const &res : requests)\n            if (estimates[res.name].consumable > maxConsumableResourceValue(res.name) + ROUNDING_TOLERANCE)\n              estimates[res.name] = savedEstimates[res.name];\n")],
 M + '  RESOURCES'.replace('RESOURCES', 'Mini m;') + '\n  m.add(' + q(lst("p",
    cmd("a", ENDNEVER, "a")
    + cmd("b", ENDNEVER, "b")
    + cmd("c", ENDNEVER, "c"))) + r''');
  m.run();
  WANT(m.has("command a()"));
  WANT(m.has("denied b()"));
  WANT(m.has("command c()"));
  return 0;
}
''')
RES.clear()

# C28: the value of an earlier iteration
bug("value-of-last-time", "C28",
 "a node that runs again and declares an array whose initial value is unknown the second time",
 "the array still has the value of the iteration before",
 [("src/expr/ArrayVariable.cc", "        // Initial value is unknown, no need to publish change\n        // or to muck with m_value either\n        m_known = false;\n",
   "        // Initial value is unknown, no need to publish change\n        // or to muck with m_value either\n")],
M.replace('"mini.hh"', '"mini.hh"\n#include "ArrayImpl.hh"') + '  Mini m; m.world["go"] = Value((Boolean) true); m.world["v"] = Value(IntegerArray(2, 4));\n  m.add(' + q(lst("o",
   '<Node NodeType="Assignment"><NodeId>s</NodeId><NodeBody><Assignment><ArrayVariable>b</ArrayVariable><ArrayRHS><LookupNow><Name><StringValue>v</StringValue></Name></LookupNow></ArrayRHS></Assignment></NodeBody></Node>'
  + lst("p", '<Node NodeType="NodeList"><NodeId>q</NodeId><VariableDeclarations><DeclareArray><Name>a</Name><Type>Integer</Type><MaxSize>2</MaxSize><InitialValue><ArrayVariable>b</ArrayVariable></InitialValue></DeclareArray></VariableDeclarations><NodeBody><NodeList>'
    + cmd("show", "", "show", "", '<Arguments><IsKnown><ArrayVariable>a</ArrayVariable></IsKnown></Arguments>')
    + '</NodeList></NodeBody></Node>'
    + '<Node NodeType="Assignment"><NodeId>t</NodeId><StartCondition><EQInternal><NodeStateVariable><NodeRef dir="sibling">q</NodeRef></NodeStateVariable><NodeStateValue>FINISHED</NodeStateValue></EQInternal></StartCondition>'
    + '<NodeBody><Assignment><ArrayVariable>b</ArrayVariable><ArrayRHS><LookupNow><Name><StringValue>v</StringValue></Name></LookupNow></ArrayRHS></Assignment></NodeBody></Node>',
    "", start('<EQInternal><NodeStateVariable><NodeRef dir="sibling">s</NodeRef></NodeStateVariable><NodeStateValue>FINISHED</NodeStateValue></EQInternal>') + "<RepeatCondition>%s</RepeatCondition>" % LK("go")),
   '<DeclareArray><Name>b</Name><Type>Integer</Type><MaxSize>2</MaxSize></DeclareArray>')) + r"""); 
  m.run(); WANT(m.cmds.size() == 1 && m.count("command show(true)") == 1);
  m.world.erase("v");
  m.handle(0, COMMAND_SUCCESS); m.run();
  WANT(m.cmds.size() == 2);
  WANT(m.count("command show(false)") == 1);
  return 0;
}
""")

# C29: start times of an earlier run
bug("start-times-stay", "C29",
 "a node that runs again and refers to the start time of one of its own states",
 "the start times of the earlier run are still known in the next",
 [("src/exec/NodeImpl.cc", "      while (tp) {\n        tp->reset();\n        tp = tp->next();\n", "      while (tp) {\n        if (tp->isEnd())\n          tp->reset();\n        tp = tp->next();\n")],
 M + '  Mini m; m.world["go"] = Value((Boolean) true);\n  m.add(' + q(lst("p",
   '<Node NodeType="Empty"><NodeId>e</NodeId></Node>'
   + cmd("c", "<StartCondition><BooleanValue>true</BooleanValue></StartCondition>", "known", "",
     '<Arguments><IsKnown><NodeTimepointValue><NodeRef dir="sibling">e</NodeRef><NodeStateValue>FINISHED</NodeStateValue><Timepoint>START</Timepoint></NodeTimepointValue></IsKnown></Arguments>'),
   "", "<RepeatCondition>%s</RepeatCondition>" % LK("go"))) + r''');
  m.run(); WANT(m.cmds.size() == 1);
  m.handle(0, COMMAND_SUCCESS); m.run();
  WANT(m.cmds.size() == 2);
  WANT(m.count("command known(true)") == 0);
  return 0;
}
''')

# C13
bug("least-integer", "C13",
 "the text of the least Integer",
 "the least Integer is refused as out of range",
 [("src/value/ValueType.cc", "temp >= std::numeric_limits<Integer>::min()", "temp > std::numeric_limits<Integer>::min()")],
 '''#include "ValueType.hh"
#include "ParserException.hh"
#include "lifecycle-utils.h"
#include <iostream>
using namespace PLEXIL;
int main()
{
  try {
    Integer i = 0;
    if (!parseValue<Integer>("-2147483648", i) || i != (-2147483647 - 1)) { std::cerr << "demo: wrong value\\n"; return 1; }
    if (!parseValue<Integer>("2147483647", i) || i != 2147483647) { std::cerr << "demo: wrong value\\n"; return 1; }
  }
  catch (std::exception const &e) { std::cerr << "demo: " << e.what() << "\\n"; return 1; }
  return 0;
}
''')

# C02
bug("recheck-forgets-release", "C02",
 "a node that waits for a mutex, one of whose conditions changes in the step in which the mutex is released",
 "the release is forgotten: the node waits on although nothing stops it",
 [("src/exec/PlexilExec.cc", "        // else still transitioning to EXECUTING and some resource released -\n        // give it a look\n        return true;\n",
   "        // else still transitioning to EXECUTING\n        node->setQueueStatus(QUEUE_PENDING);\n        return false;\n")],
 M + '  Mini m; m.world["x"] = Value((Boolean) true); m.world["y"] = Value((Boolean) false);\n'
   + '  m.add(' + q(lst("p",
     cmd("a", "", "a", using("mx"))
     + cmd("b", start("<OR>%s%s</OR>" % (LK("x"), '<EQInternal><NodeStateVariable><NodeRef dir="sibling">a</NodeRef></NodeStateVariable><NodeStateValue>FINISHED</NodeStateValue></EQInternal>')), "b", using("mx")),
     "<DeclareMutex><Name>mx</Name></DeclareMutex>")) + ');\n'
   + r'''  m.run(); WANT(m.cmds.size() == 1 && m.has("command a()"));
  m.handle(0, COMMAND_SUCCESS); m.run();
  WANT(m.has("a FINISHED SUCCESS"));
  WANT(m.has("command b()"));
  return 0;
}
''')

# C12
bug("large-sizes-signed", "C12",
 "a state with 128 parameters or more",
 "the size is read back wrongly",
 [("src/intfc/State.cc", "    siz = siz + (size_t) (unsigned char) *buf++;\n    m_parameters.resize(siz);\n", "    siz = siz + (size_t) (*buf++ & 0x7F);\n    m_parameters.resize(siz);\n")],
 '''#include "State.hh"
#include "Value.hh"
#include <iostream>
#include <vector>
using namespace PLEXIL;
int main()
{
  for (size_t n : {0, 3, 127, 128, 200, 256, 300}) {
    std::vector<Value> ps;
    for (size_t i = 0; i < n; ++i) ps.push_back(Value((Integer) i));
    State s("s", ps), t;
    std::vector<char> buf(16384);
    char *e = s.serialize(buf.data());
    char const *r = t.deserialize(buf.data());
    if (r != e || !(s == t)) { std::cerr << "demo: a state of " << n << " parameters is not read back\\n"; return 1; }
  }
  return 0;
}
''')

# C11
bug("later-parameters-decide", "C11",
 "states with several parameters whose order differs from one parameter to the next",
 "the order of states is no order: each of two states can be less than the other",
 [("src/intfc/State.cc", "      if (aval < bval)\n        return true;\n      if (aval > bval)\n        return false;\n    }\n    return false; // states are equal",
   "      if (aval < bval)\n        return true;\n      if (aval > bval && i + 1 == sta.parameterCount())\n        return false;\n    }\n    return false; // states are equal")],
 '''#include "State.hh"
#include "Value.hh"
#include <iostream>
using namespace PLEXIL;
int main()
{
  std::vector<Value> p{Value((Integer) 1), Value((Integer) 2)}, q{Value((Integer) 2), Value((Integer) 1)};
  State a("s", p), b("s", q);
  if (!(a < b) || b < a) { std::cerr << "demo: not an order\\n"; return 1; }
  return 0;
}
''')


# C15
def empty(nid, conds=""): return '<Node NodeType="Empty"><NodeId>%s</NodeId>%s</Node>' % (nid, conds)
def nstate(nid, st): return "<EQInternal><NodeStateVariable><NodeId>%s</NodeId></NodeStateVariable><NodeStateValue>%s</NodeStateValue></EQInternal>" % (nid, st)
def decl(n, t, v): return "<DeclareVariable><Name>%s</Name><Type>%s</Type><InitialValue><%sValue>%s</%sValue></InitialValue></DeclareVariable>" % (n, t, t, v, t)
bug("outermost-node-wins", "C15",
 "a node reference by name where the name is found at more than one of the enclosing levels",
 "the reference denotes the outermost node of that name instead of the nearest one",
 [("src/xml-parser/parseNodeReference.cc",
   "    NodeImpl *parent = node->getParentNode();\n    while (parent) {\n      result = findLocalNodeId(name, parent);\n      if (result)\n        return result;\n      parent = parent->getParentNode();\n    }\n",
   "    NodeImpl *parent = node->getParentNode();\n    while (parent) {\n      NodeImpl *found = findLocalNodeId(name, parent);\n      if (found)\n        result = found;\n      parent = parent->getParentNode();\n    }\n    if (result)\n      return result;\n")],
 M + '  Mini m; m.world["x"] = Value((Boolean) false);\n  m.add(' + q(lst("p",
     empty("b", start(LK("x")))
     + lst("q", empty("b") + cmd("c", start(nstate("b", "FINISHED")))))) + r''');
  m.run();
  WANT(m.count("b FINISHED SUCCESS") == 1);
  WANT(m.has("command go()"));
  return 0;
}
''')

# C16
bug("aliases-before-variables", "C16",
 "a library called with an alias whose expression uses a variable of the caller which has the name of a parameter bound before it",
 "the expression uses the value bound to that parameter instead of the caller's variable",
 [("src/exec/NodeImpl.cc", "    Expression *result = nullptr;\n    if (m_variablesByName) {\n      result = m_variablesByName->findVariable(name); // searches ancestor maps\n",
   "    NodeVariableMap const *ownMap = getChildVariableMap();\n    Expression *result = ownMap ? ownMap->findVariable(name) : nullptr;\n    if (result)\n      return result;\n    if (m_variablesByName) {\n      result = m_variablesByName->findVariable(name); // searches ancestor maps\n")],
 M + '  Mini m;\n'
   + '  { pugi::xml_document *d = new pugi::xml_document; std::string t = ' + q('<PlexilPlan><Node NodeType="Command"><NodeId>lib</NodeId><Interface><In>' + decl("a", "Integer", "5") + decl("b", "Integer", "5") + '</In></Interface>'
     '<NodeBody><Command><Name><StringValue>go</StringValue></Name><Arguments><IntegerVariable>a</IntegerVariable><IntegerVariable>b</IntegerVariable></Arguments></Command></NodeBody></Node></PlexilPlan>') + ';\n'
   + '    d->load_buffer(t.data(), t.size(), pugi::parse_default | pugi::parse_ws_pcdata_single); WANT(loadLibraryDocument(d)); }\n'
   + '  m.add(' + q(lst("p", '<Node NodeType="LibraryNodeCall"><NodeId>q</NodeId><NodeBody><LibraryNodeCall><NodeId>lib</NodeId><Alias><NodeParameter>a</NodeParameter><IntegerVariable>b</IntegerVariable></Alias><Alias><NodeParameter>b</NodeParameter><IntegerVariable>a</IntegerVariable></Alias></LibraryNodeCall></NodeBody></Node>', decl("a", "Integer", "1") + decl("b", "Integer", "2"))) + r''');
  m.run();
  WANT(m.has("command go(2,1)"));
  return 0;
}
''')

# C17
bug("same-thresholds-as-before", "C17",
 "a plan with a LookupOnChange with tolerance run a second time while the state has the value it had at first",
 "the thresholds which were cleared when the first plan ended are not asked for again, so the second never hears of changes",
 [("src/intfc/StateCacheEntry.cc", "        if (m_lowThreshold || m_highThreshold) {\n          m_lowThreshold.reset();\n          m_highThreshold.reset();\n          if", "        if (m_lowThreshold || m_highThreshold) {\n          if"),
  ("src/intfc/StateCacheEntry.cc", "        m_lowThreshold->update(timestamp, ilo);\n        m_highThreshold->update(timestamp, ihi);\n        if (g_dispatcher)\n",
   "        bool newLow = m_lowThreshold->update(timestamp, ilo);\n        bool newHigh = m_highThreshold->update(timestamp, ihi);\n        if (g_dispatcher && (newLow || newHigh))\n")],
 M + '  Mini m; m.world["x"] = Value((Integer) 3);\n  std::string p = ' + q(empty("p", "<EndCondition><GT><LookupOnChange><Name><StringValue>x</StringValue></Name><Tolerance><IntegerValue>2</IntegerValue></Tolerance></LookupOnChange><IntegerValue>10</IntegerValue></GT></EndCondition><ExitCondition>" + LK("y") + "</ExitCondition>")) + r''';
  for (int k = 1; k <= 2; ++k) {
    m.add(p); m.run();
    WANT(m.count("thresholds x 1 5") == k);
    m.set("y", Value((Boolean) true)); m.run();
    WANT(m.count("p FINISHED INTERRUPTED") == k);
    m.exec->deleteFinishedPlans(); m.set("y", Value((Boolean) false));
  }
  return 0;
}
''')

# C18
bug("parameters-leak", "C18",
 "a lookup with parameters whose state is named by a variable",
 "the parameters are never freed",
 [("src/intfc/Lookup.cc", "      delete m_paramVec;\n      if (m_stateNameIsGarbage)\n        delete m_stateName;\n", "      if (m_stateNameIsGarbage) {\n        delete m_paramVec;\n        delete m_stateName;\n      }\n")],
 M.replace('#include "mini.hh"', '#include "mini.hh"\n#include <malloc.h>')
   + '  Mini m; m.world["x"] = Value((Boolean) true);\n  std::string p = ' + q(empty("p", "<VariableDeclarations>" + decl("s", "String", "x") + "</VariableDeclarations><StartCondition><LookupNow><Name><StringVariable>s</StringVariable></Name><Arguments><StringValue>a</StringValue><IntegerValue>2</IntegerValue></Arguments></LookupNow></StartCondition>")) + r''';
  size_t before = 0, now = 0;
  for (int k = 0; k < 400; ++k) {
    m.add(p); m.run();
    m.exec->deleteFinishedPlans();
    m.log.clear();
    if (k == 199) before = mallinfo2().uordblks;
  }
  now = mallinfo2().uordblks;
  if (now > before + 10000) { std::cerr << "demo: " << now - before << " bytes more in use after 200 runs\n"; return 1; }
  return 0;
}
''')
# C14: an element of a read-only array is a destination like any other
P14 = open(__file__.replace("bugs_more", "bugs_parse")).read().split("D = r'''")[1].split("'''")[0]
bug("read-only-array-element", "C14",
 "an array that is an In parameter of a node, an element of which the node assigns to or takes a command's return in",
 "the plan is accepted although its destination cannot be written",
 [("src/xml-parser/ArrayReferenceFactory.cc", "      checkParserExceptionWithLocation(arrayExpr->isAssignable(),\n", "      checkParserExceptionWithLocation(isArrayType(arrayExpr->valueType()),\n")],
 P14 + r'''
static std::string plan(char const *ifc, char const *dest, bool cmd)
{
  std::string d = std::string(dest);
  return "<Node NodeType=\"NodeList\"><NodeId>R</NodeId><VariableDeclarations><DeclareArray><Name>a</Name><Type>Integer</Type><MaxSize>3</MaxSize></DeclareArray><DeclareVariable><Name>v</Name><Type>Integer</Type></DeclareVariable></VariableDeclarations><NodeBody><NodeList>"
    + std::string("<Node NodeType=\"") + (cmd ? "Command" : "Assignment") + "\"><NodeId>N</NodeId>" + ifc + "<NodeBody>"
    + (cmd ? "<Command>" + d + "<Name><StringValue>go</StringValue></Name></Command>" : "<Assignment>" + d + "<NumericRHS><IntegerValue>1</IntegerValue></NumericRHS></Assignment>")
    + "</NodeBody></Node></NodeList></NodeBody></Node>";
}
int main()
{
  miniInit();
  char const *in = "<Interface><In><DeclareArray><Name>a</Name><Type>Integer</Type><MaxSize>3</MaxSize></DeclareArray><DeclareVariable><Name>v</Name><Type>Integer</Type></DeclareVariable></In></Interface>";
  char const *el = "<ArrayElement><Name>a</Name><Index><IntegerValue>0</IntegerValue></Index></ArrayElement>", *v = "<IntegerVariable>v</IntegerVariable>";
  for (int cmd = 0; cmd < 2; ++cmd) {
    WANT(loads(plan("", v, cmd))); WANT(loads(plan("", el, cmd)));
    WANT(!loads(plan(in, v, cmd)));
    WANT(!loads(plan(in, el, cmd)));
  }
  return 0;
}
''')
