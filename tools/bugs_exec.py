from mkbug import bug
M = '#include "mini.hh"\nint main()\n{\n  miniInit();\n'
bug("failure-type-survives", "C01",
 "a node that fails in one iteration and succeeds in a later one, or whose parent runs again",
 "the failure type of an earlier iteration is still reported after a successful one",
 [("src/exec/NodeImpl.cc", "    m_outcome = NO_OUTCOME;\n    m_failureType = NO_FAILURE;\n  }\n\n  // Common method", "    m_outcome = NO_OUTCOME;\n    if (m_failureType != INVARIANT_CONDITION_FAILED)\n      m_failureType = NO_FAILURE;\n  }\n\n  // Common method")],
 M + r"""  Mini m; m.world["x"] = Value((Boolean) false); m.world["d"] = Value((Boolean) false);
  NodeImpl *n = m.add("<Node NodeType=\"Command\"><NodeId>e</NodeId><RepeatCondition><NOT><LookupOnChange><Name><StringValue>d</StringValue></Name></LookupOnChange></NOT></RepeatCondition>"
        "<EndCondition><EQInternal><NodeCommandHandleVariable><NodeRef dir=\"self\"/></NodeCommandHandleVariable><NodeCommandHandleValue>COMMAND_SUCCESS</NodeCommandHandleValue></EQInternal></EndCondition>"
        "<InvariantCondition><LookupOnChange><Name><StringValue>x</StringValue></Name></LookupOnChange></InvariantCondition><NodeBody><Command><Name><StringValue>go</StringValue></Name></Command></NodeBody></Node>");
  m.run(); WANT(n->getFailureType() == INVARIANT_CONDITION_FAILED && m.aborted.size() == 1);
  m.set("x", Value((Boolean) true)); m.abortAck(0, true); m.run(); WANT(m.cmds.size() == 2);
  m.set("d", Value((Boolean) true)); m.handle(1, COMMAND_SUCCESS); m.run();
  WANT(n->getState() == FINISHED_STATE && n->getOutcome() == SUCCESS_OUTCOME);
  WANT(n->getFailureType() == NO_FAILURE);
  return 0;
}
""")
bug("element-of-looked-up-index", "C05",
 "an assignment to an array element whose index is (computed from) a lookup",
 "the element to assign is determined before the index is active, so nothing is assigned",
 [("src/exec/Assignment.cc", "    m_dest->saveCurrentValue();\n", ""),
  ("src/exec/Assignment.cc", "    m_rhs->activate();  // resets to unknown\n", "    m_rhs->activate();  // resets to unknown\n    m_dest->saveCurrentValue();\n")],
 M + r'''  Mini m; m.world["i"] = Value((Integer) 1);
  m.add("<Node NodeType=\"NodeList\"><NodeId>p</NodeId><VariableDeclarations>"
        "<DeclareArray><Name>a</Name><Type>Integer</Type><MaxSize>2</MaxSize><InitialValue><ArrayValue Type=\"Integer\"><IntegerValue>5</IntegerValue><IntegerValue>6</IntegerValue></ArrayValue></InitialValue></DeclareArray><DeclareVariable><Name>i</Name><Type>Integer</Type><InitialValue><IntegerValue>1</IntegerValue></InitialValue></DeclareVariable></VariableDeclarations>"
        "<NodeBody><NodeList><Node NodeType=\"Assignment\"><NodeId>s</NodeId>"
        "<NodeBody><Assignment><ArrayElement><Name>a</Name><Index><LookupNow><Name><StringValue>i</StringValue></Name></LookupNow></Index></ArrayElement><NumericRHS><IntegerValue>7</IntegerValue></NumericRHS></Assignment></NodeBody></Node>"
        "<Node NodeType=\"Command\"><NodeId>c</NodeId><StartCondition><Finished><NodeRef dir=\"sibling\">s</NodeRef></Finished></StartCondition>"
        "<NodeBody><Command><Name><StringValue>show</StringValue></Name><Arguments><ArrayElement><Name>a</Name><Index><IntegerValue>1</IntegerValue></Index></ArrayElement></Arguments></Command></NodeBody></Node></NodeList></NodeBody></Node>");
  m.run();
  WANT(m.has("command show(7)"));
  return 0;
}
''')
bug("stale-abort-ack", "C08",
 "a command node that repeats and is interrupted in two iterations, the first abort having been acknowledged",
 "the abort acknowledgement of an earlier iteration is still there at the next, so the node leaves Failing before its second abort is acknowledged",
 [("src/intfc/CommandImpl.cc", "    m_ack.activate();\n    m_abortComplete.activate();\n", "    m_ack.activate();\n"),
  ("src/intfc/CommandImpl.cc", "    m_abortComplete.deactivate();\n    m_ack.deactivate();\n", "    m_ack.deactivate();\n"),
  ("src/intfc/CommandImpl.cc", "    if (!m_checkedConstant) \n      checkConstant();\n", "    if (!m_checkedConstant) {\n      checkConstant();\n      m_abortComplete.activate();\n    }\n")],
 M + r'''  Mini m; m.world["x"] = Value((Boolean) false);
  m.add("<Node NodeType=\"Command\"><NodeId>c</NodeId><StartCondition><NOT><LookupOnChange><Name><StringValue>x</StringValue></Name></LookupOnChange></NOT></StartCondition>"
        "<ExitCondition><LookupOnChange><Name><StringValue>x</StringValue></Name></LookupOnChange></ExitCondition><RepeatCondition><BooleanValue>true</BooleanValue></RepeatCondition>"
        "<EndCondition><BooleanValue>false</BooleanValue></EndCondition>"
        "<NodeBody><Command><Name><StringValue>go</StringValue></Name></Command></NodeBody></Node>");
  m.run(); WANT(m.cmds.size() == 1); m.handle(0, COMMAND_SENT_TO_SYSTEM); m.run();
  m.set("x", Value((Boolean) true)); m.run(); WANT(m.aborted.size() == 1);
  m.set("x", Value((Boolean) false)); m.run();
  m.abortAck(0, true); m.run(); WANT(m.cmds.size() == 2);
  m.handle(1, COMMAND_SENT_TO_SYSTEM); m.run(); m.log.clear();
  m.set("x", Value((Boolean) true)); m.run(); WANT(m.aborted.size() == 2);
  WANT(m.has("c FAILING") && !m.has("c ITERATION_ENDED INTERRUPTED"));
  m.set("x", Value((Boolean) false)); m.abortAck(1, true); m.run();
  WANT(m.has("c ITERATION_ENDED INTERRUPTED"));
  return 0;
}
''')
bug("update-values-from-first-time", "C10",
 "an update node that repeats, with a pair whose value has changed between iterations",
 "the pairs' values are fixed once: the next updates send the first iteration's values",
 [("src/exec/UpdateNode.cc", "      m_valuePairs[tmp->name] = tmp->expr->toValue();", "      m_valuePairs.insert(tmp->name, tmp->expr->toValue());")],
 M + r'''  Mini m; m.world["x"] = Value((Integer) 1);
  m.add("<Node NodeType=\"Update\"><NodeId>u</NodeId><RepeatCondition><BooleanValue>true</BooleanValue></RepeatCondition>"
        "<NodeBody><Update><Pair><Name>p</Name><LookupNow><Name><StringValue>x</StringValue></Name></LookupNow></Pair></Update></NodeBody></Node>");
  m.run(); WANT(m.has("update p=1")); m.upds[0]->acknowledge(true);
  m.set("x", Value((Integer) 2)); m.run();
  WANT(m.has("update p=2"));
  return 0;
}
''')
