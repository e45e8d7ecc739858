#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code because JSON lines are hard to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     hook_needed=None)))

prop("C01", "Node life cycle follows PLEXIL's transition rules",
 "For every plan and every history of external events, each node moves between Inactive, Waiting, Executing, Finishing, Failing, IterationEnded and Finished exactly when PLEXIL's transition rules for its node type say so, with the rules' precedence among simultaneously true conditions. The resulting outcome (Success, Failure, Skipped, Interrupted) and failure type are the ones the rules prescribe, including those inherited from ancestors, and repeating nodes start each iteration afresh.",
 ["programs", "histories"], "all well-formed plans (any nesting of all node types, any conditions) and all sequences of external events between steps",
 "the regression suite runs about 150 fixed plans with one script each; combinations of conditions that become true in the same micro-step, and of failing ancestors with half-finished children, are hardly sampled",
 ["src/exec/NodeImpl.cc", "src/exec/AssignmentNode.cc", "src/exec/CommandNode.cc", "src/exec/ListNode.cc", "src/exec/LibraryCallNode.cc", "src/exec/UpdateNode.cc", "src/exec/PlexilExec.cc"],
 [("getDestStateFrom* / transitionFrom* / transitionTo*", "src/exec/NodeImpl.cc and node subclasses")],
 ["ExecListenerBase::notifyOfTransitions", "Node::getState/getOutcome/getFailureType"],
 [("node state, outcome, failure type", "the node's life cycle position", "NodeImpl")])

prop("C02", "Steps run to quiescence and miss no change",
 "When a step of the executive returns, no node is left able to transition unless it is queued for the next step (only because the step issued assignments, commands or aborts), and the executive reports that it needs another step exactly when such work is pending. No change of a variable, external state, node state, command or update status that makes a node's condition true or false is ever missed.",
 ["programs", "histories"], "all plans and all orders and batchings of external events and steps",
 "tests look at a few fixed plans; a lost notification only shows when a particular expression shape is the only thing that changes between two steps",
 ["src/exec/PlexilExec.cc", "src/exec/NodeImpl.cc", "src/expr/Notifier.cc", "src/expr/Function.cc", "src/expr/UserVariable.cc", "src/expr/ArrayVariable.cc", "src/intfc/StateCacheEntry.cc", "src/intfc/Lookup.cc", "src/intfc/CommandImpl.cc"],
 [("candidate queue filled by change notification", "PlexilExecImpl::step, NodeImpl::notify"), ("publishChange through the expression graph", "src/expr/Notifier*")],
 ["PlexilExec::step, needsStep", "Node::getDestState of every node after a step"])

prop("C03", "Expressions follow PLEXIL's three-valued semantics",
 "For all operand values, known or unknown, every PLEXIL operator (logical, comparison, arithmetic, conversion, string, array and type predicates) yields exactly the value defined by the language, and yields unknown exactly when the definition does: logical operators follow Kleene logic for any number of operands, out-of-domain operations give unknown, and no operand combination crashes the executive. Mixed Integer/Real operands give the numerically right result of the right type.",
 ["inputs", "programs"], "all expression trees over all operand values of all types, including unknown, extreme and non-finite numbers",
 "unit tests pin a handful of values per operator and at most three operands",
 ["src/expr/BooleanOperators.cc", "src/expr/ArithmeticOperators.cc", "src/expr/Comparisons.cc", "src/expr/ConversionOperators.cc", "src/expr/StringOperators.cc", "src/expr/ArrayOperators.cc", "src/expr/Function.cc", "src/xml-parser/Operations.cc"],
 [("Operator::operator()", "src/expr/*Operators.cc"), ("operator selection by operand type", "src/xml-parser/Operations.cc, OperationFactory.cc")],
 ["Expression::toValue, getValue, isKnown"])

prop("C04", "Active expressions notify listeners of every value change",
 "Whenever the value of an active expression changes because a variable, array element, or other source it depends on was set, reset, restored or became unknown, every listener of that expression is notified before the change can be acted upon. Inactive variables read as unknown, and activation and deactivation nest: an expression stays active until each activation has been undone, and reactivation starts user variables from their initial values.",
 ["programs", "histories"], "all expression graphs with shared subexpressions and all sequences of activation, deactivation and mutation",
 "unit tests exercise one listener on one operator at a time; sharing and activation order are not explored",
 ["src/expr/Notifier.cc", "src/expr/Propagator.cc", "src/expr/Function.cc", "src/expr/UserVariable.cc", "src/expr/ArrayVariable.cc", "src/expr/ArrayReference.cc", "src/expr/Alias.cc"],
 [("activation counting and publishChange", "src/expr/Notifier.cc")],
 ["ExpressionListener::notifyChanged"])

prop("C05", "Assignments are simultaneous, conflict-free and revocable",
 "All assignments started in one step read the values from before the step's assignments and take effect together at its end, each variable being written by at most one of the assignment nodes that compete for it: the one with the best (numerically lowest) priority, the others waiting. An assignment node that is interrupted or whose invariant or an ancestor's fails before its iteration ends has its write undone, the variable (or array element) regaining the value it had; other variables are untouched.",
 ["programs", "histories"], "all sets of concurrently eligible assignment nodes, scalar, array-element and whole-array, aliased or not, with all priorities and interruption points",
 "the regression suite has a few two-node races; retraction at each point, through aliases and for array elements, is not sampled",
 ["src/exec/Assignment.cc", "src/exec/AssignmentNode.cc", "src/exec/PlexilExec.cc", "src/expr/UserVariable.cc", "src/expr/ArrayVariable.cc", "src/expr/ArrayReference.cc", "src/expr/Reservable.cc"],
 [("pending queue by priority; Reservable::acquire/release", "src/exec/PlexilExec.cc resolveResourceConflicts"), ("save/restore of the previous value", "src/exec/Assignment.cc")],
 ["variable values after each step", "ExecListenerBase::notifyOfAssignment"])

prop("C06", "Mutexes exclude, are granted all-or-nothing and are always released",
 "At most one node holds a mutex at any time, a node that uses several mutexes starts only when it holds all of them and holds none while waiting, and among nodes competing at the same moment the one with better priority goes first. Every way of leaving execution (success, failure, interruption, skip, exit of an ancestor) releases the node's mutexes, and a node that is otherwise eligible starts as soon as its mutexes are free; global and local mutexes behave alike.",
 ["programs", "schedules", "histories"], "all plans with nested and competing mutex users, all ways of ending and all event orders",
 "tests cover a couple of mutex plans; leaks after particular failure paths and starvation of a waiting node need particular histories",
 ["src/exec/Mutex.cc", "src/exec/NodeImpl.cc", "src/exec/PlexilExec.cc", "src/expr/Reservable.cc"],
 [("tryResourceAcquisition / releaseResourceReservations", "src/exec/NodeImpl.cc"), ("pending queue", "src/exec/PlexilExec.cc")],
 ["node transitions into Executing", "Mutex::getHolder"])

prop("C07", "Command resources are never oversubscribed and always returned",
 "Commands in execution never use more of any resource (including the child resources of a resource hierarchy) than its capacity, and a command is denied only if it truly does not fit once the commands issued with it that have better priority are served; unlimited combinations are always accepted. When a command ends, releasable resources return to exactly their earlier level, whatever the sequence of acquisitions, releases and denials before.",
 ["histories", "inputs", "configurations"], "all resource hierarchies, all batches of commands with any fractional requests and priorities, all orders of completion",
 "unit tests run one fixed hierarchy and a few batches; rounding and accumulated leftovers need long histories",
 ["src/intfc/ResourceArbiterInterface.cc", "src/intfc/CommandImpl.cc", "src/exec/PlexilExec.cc"],
 [("arbitrateCommands / releaseResourcesForCommand", "src/intfc/ResourceArbiterInterface.cc"), ("release on deactivation", "src/intfc/CommandImpl.cc")],
 ["accepted and rejected sets", "COMMAND_DENIED handles of command nodes"])

prop("C08", "Each command execution is sent once, ends once, and hears only its own answers",
 "Each time a command node executes, exactly one command with the name and argument values current at that moment goes to the external interface (or is denied), and it is aborted exactly once if and only if the node must stop before finishing. Handles, return values and abort acknowledgements affect only the node and destination variable that issued that command, return values are stored only while the command is active, and answers arriving early, late, repeated or in any order never wedge or crash the executive.",
 ["programs", "histories", "fault_sequences"], "all plans with concurrent and repeated command nodes and all orders, repetitions and omissions of answers",
 "scripts in the suite answer in the expected order, mostly once; abort races and late answers are rare",
 ["src/intfc/CommandImpl.cc", "src/exec/CommandNode.cc", "src/exec/PlexilExec.cc", "src/intfc/Dispatcher.hh"],
 [("command queue, handle and abort-complete notifiers", "src/intfc/CommandImpl.cc")],
 ["Dispatcher::executeCommand/invokeAbort", "destination variables, NodeCommandHandle"])

prop("C09", "Lookups reflect the external world, with change thresholds honoured",
 "A lookup always yields the most recent value the interface supplied for exactly that state name and parameters, of the declared type or unknown, and never one belonging to another state. LookupOnChange without tolerance follows every new value; with a tolerance (which means nothing for values other than numbers) it changes exactly when the new value differs from the last reported one by at least the tolerance, or becomes known or unknown; every change is notified to those who watch the lookup; thresholds requested from the interface are the tightest of all active lookups of the state and are withdrawn when no lookup needs them.",
 ["histories", "inputs", "programs"], "all sets of concurrent lookups with parameters that change value, all tolerances and value sequences, including unknown and type changes",
 "tests use one or two lookups, round numbers and monotone sequences",
 ["src/intfc/Lookup.cc", "src/intfc/StateCache.cc", "src/intfc/StateCacheEntry.cc", "src/intfc/CachedValue.cc", "src/intfc/State.cc"],
 [("state cache keyed by state", "src/intfc/StateCache.cc"), ("threshold computation", "src/intfc/Lookup.cc, CachedValueImpl.cc")],
 ["lookup expression values and notifications", "Dispatcher::lookupNow/setThresholds/clearThresholds"])

prop("C10", "Planner updates carry current values and finish on acknowledgement",
 "Each execution of an update node sends exactly one update containing precisely its named pairs with the values current at that moment, and the node finishes only when that update is acknowledged (or it is interrupted). Acknowledgements to earlier iterations or other nodes have no effect on it.",
 ["programs", "histories"], "all update nodes with any pairs, repetition, interruption and acknowledgement orders",
 "two fixed update plans exist in the suite",
 ["src/exec/UpdateNode.cc", "src/exec/UpdateNode.cc", "src/xml-parser/updateXmlParser.cc"],
 [("Update::activate/execute/acknowledge", "src/exec/UpdateNode.cc")],
 ["Dispatcher::executeUpdate"])

prop("C11", "Value and state equality and ordering are lawful",
 "Equality of values, arrays and state names is an equivalence relation, ordering is a strict total order on the values that can key a lookup, and the two agree: of two values exactly one of less, equal or greater holds. Copies, moves and assignments of a value are equal to the original and independent of it, and lookups and maps keyed by state find exactly the equal state.",
 ["inputs"], "all triples of values of all types, known and unknown, and all states built from them",
 "tests compare a few hand-picked pairs; transitivity and agreement between equality and order need triples of unusual values",
 ["src/value/Value.cc", "src/value/ArrayImpl.cc", "src/intfc/State.cc", "src/intfc/CachedValue.cc"],
 [("Value::equals/lessThan, Array operator==/<", "src/value")],
 ["operator==, operator<"])

prop("C12", "Binary serialization round-trips every value",
 "Serializing any value, array or state into a buffer of the announced size writes exactly that many bytes and never beyond them, and deserializing yields an equal value and consumes exactly the bytes written, for all types, lengths and unknown elements. Data of another type is refused rather than misread, and a sequence of values written back to back reads back as the same sequence.",
 ["inputs"], "all values, arrays and states of all lengths the format can carry",
 "unit tests use arrays of a few elements and short strings; length fields over one byte are not reached",
 ["src/value/Value.cc", "src/value/ArrayImpl.cc", "src/intfc/State.cc", "src/value/PlexilTypeTraits.hh"],
 [("serialize/deserialize/serialSize", "src/value")],
 ["serialize, deserialize, serialSize"])

prop("C13", "Literal text is read and printed faithfully",
 "Every literal the executive accepts for a type denotes exactly the value written and text that is not such a literal (trailing garbage, out of range, wrong type) is rejected rather than misread; printing a value and reading it back gives the same value for booleans, integers, strings and node and command constants, and for reals the same to the printed precision. The text UNKNOWN denotes an unknown value of the type.",
 ["inputs"], "all strings offered as literals for all types, all values printed",
 "tests check a few accepted and rejected literals per type",
 ["src/value/PlexilTypeTraits.hh", "src/value/ValueType.cc", "src/value/ArrayImpl.cc", "src/value/NodeConstants.cc", "src/value/CommandHandle.cc", "src/xml-parser/ConstantFactory.cc"],
 [("parseValue/printValue", "src/value/PlexilTypeTraits.hh")],
 ["parseValue, printValue, constant expressions in plans"])

prop("C14", "A malformed plan is rejected cleanly, never fatally",
 "For every XML document offered as a plan or library, loading either succeeds and yields a plan that can be executed, or fails with a reported parse error; it never crashes, hangs, corrupts memory or affects plans loaded before or after. A well-formed plan that respects the language's rules is always accepted, and one that breaks a static rule (undeclared or duplicate names, wrong types, assignment to read-only or constant targets, missing parts) is rejected.",
 ["inputs", "programs"], "all XML trees near and far from valid plans",
 "tests list some dozens of malformed fragments; cleanup paths after errors at an inner level are not exercised under a sanitizer",
 ["src/xml-parser/parsePlan.cc", "src/xml-parser/parseNode.cc", "src/xml-parser/OperationFactory.cc", "src/xml-parser/SymbolTable.cc", "src/xml-parser/parseLibraryCall.cc", "src/xml-parser/createExpression.cc"],
 [("checkPlan passes and ParserException", "src/xml-parser")],
 ["parsePlan result or ParserException"])

prop("C15", "Names resolve to the nearest enclosing declaration",
 "A variable reference denotes the declaration of that name in the nearest enclosing node (or the alias or interface parameter in scope there), variables hidden by an inner declaration keep their own value, and a node's variable is visible nowhere outside it. Node references by name or direction denote the node the language defines, and In parameters cannot be written while writes to InOut parameters reach the caller's variable.",
 ["programs"], "all nestings of declarations with repeated names, interfaces and node references",
 "test plans rarely reuse a name at several levels",
 ["src/exec/NodeImpl.cc", "src/exec/LibraryCallNode.cc", "src/xml-parser/parseNode.cc", "src/xml-parser/parseNodeReference.cc", "src/xml-parser/VariableReferenceFactory.cc", "src/exec/NodeVariableMap.cc"],
 [("NodeImpl::findVariable, NodeVariableMap", "src/exec")],
 ["variable values per owning node", "node state references"])

prop("C16", "A library call behaves as the library node inlined",
 "A plan that calls library nodes behaves, in transitions, outcomes, variable values and external actions, exactly like the same plan with each called node copied in place and its parameters bound to the caller's expressions. In parameters follow the caller's expression as it changes, InOut parameters write through to the caller, defaults apply to omitted parameters, and repeated or concurrent calls of one library do not share state.",
 ["programs", "histories"], "all libraries, parameter bindings, nesting and event histories",
 "the suite has a handful of library plans",
 ["src/exec/LibraryCallNode.cc", "src/xml-parser/parseLibraryCall.cc", "src/xml-parser/planLibrary.cc", "src/expr/Alias.cc"],
 [("alias map and symbol table per library", "src/exec/LibraryCallNode.cc, src/xml-parser/SymbolTable.cc")],
 ["trace of transitions and actions"])

prop("C17", "Independent plans do not disturb each other; runs are repeatable",
 "Running a plan twice with the same event history gives the same trace of transitions, variable values and external actions, whatever plans ran before in the same process. Plans loaded together that share no external state, mutex or resource each behave as if they ran alone.",
 ["programs", "schedules", "histories"], "all pairs of plans, load times and event histories",
 "every test runs one plan in a fresh process",
 ["src/exec/PlexilExec.cc", "src/intfc/StateCache.cc", "src/exec/NodeImpl.cc", "src/exec/Mutex.cc", "src/intfc/ResourceArbiterInterface.cc"],
 [("singletons StateCache, global mutexes, resource arbiter", "src/intfc, src/exec")],
 ["trace per plan"])

prop("C18", "Finished plans are reclaimed completely and safely",
 "When a plan has finished and is deleted, all its memory, listeners, lookups, mutexes and command resources are released: running the same plan again and again uses no additional memory, and later events concerning its states or commands touch no freed memory. This holds however the plan ended and whenever it is deleted, including plans that fail to load.",
 ["programs", "histories", "fault_sequences"], "all plans, endings, deletion times and late events",
 "tests exit after one plan and do not look at memory",
 ["src/exec/NodeImpl.cc", "src/exec/PlexilExec.cc", "src/intfc/StateCacheEntry.cc", "src/intfc/CommandImpl.cc", "src/xml-parser/parsePlan.cc"],
 [("NodeImpl destructor order, deleteFinishedPlans", "src/exec")],
 ["allocated bytes between repetitions, AddressSanitizer"])

prop("C19", "The input queue delivers every event once and in order",
 "Every event put in the executive's input queue by any thread is taken out exactly once with its contents intact, events of one producer in the order they were put, and none appears before it was put. Recycled entries never carry over contents, emptiness is reported correctly, and flushing or destroying the queue is safe.",
 ["schedules", "histories"], "all interleavings of producers and the consumer",
 "tests are single-threaded",
 ["src/app-framework/SerializedInputQueue.cc", "src/app-framework/SimpleInputQueue.cc", "src/intfc/QueueEntry.cc"],
 [("mutex-protected linked queue and free list", "src/app-framework/SerializedInputQueue.cc")],
 ["InputQueue::put/get"])

prop("C20", "Interface events reach the executive unaltered and the right handler is called",
 "Every value change, command answer, update acknowledgement, message event and plan handed to the application interface takes effect in the executive in arrival order and with the same result as if it had been applied directly; invalid ones are refused without effect. Lookups, thresholds, commands and aborts go to the handler most recently registered for that name, otherwise to the default handler, and interface failures become unknown values or an error handle, not lost events.",
 ["histories", "configurations", "fault_sequences"], "all sequences of interface calls, registrations and handler failures",
 "no existing test drives the interface manager or the handler registry",
 ["src/app-framework/InterfaceManager.cc", "src/app-framework/AdapterConfiguration.cc", "src/app-framework/LookupHandler.cc", "src/app-framework/CommandHandler.cc", "src/intfc/QueueEntry.cc"],
 [("handle* / processQueue", "src/app-framework/InterfaceManager.cc"), ("handler maps", "src/app-framework/AdapterConfiguration.cc")],
 ["StateCache, Command, Update effects after processQueue"])

prop("C21", "Listeners see every transition and assignment, once and in order",
 "Each execution listener is told of every node transition exactly once, in causal order, with true old and new states, and of every variable assignment and retraction with the value stored; a filter removes exactly the events its configuration names. The set and order of events does not depend on how many listeners are registered, and listener output for viewers is well-formed and carries the values faithfully.",
 ["programs", "histories", "configurations"], "all plans, filters and listener sets",
 "tests use listeners only as debug output",
 ["src/app-framework/ExecListenerHub.cc", "src/app-framework/ExecListener.cc", "src/app-framework/ListenerFilters.cc", "src/exec/PlexilExec.cc", "src/interfaces/LuvListener/LuvFormat.cc"],
 [("notifyOfTransitions / stepComplete batching", "src/app-framework/ExecListenerHub.cc")],
 ["ExecListener callbacks, LuvFormat output"])

prop("C22", "Time arithmetic is exact, and wakeups come at their deadlines",
 "Adding, subtracting, comparing and converting times gives normalised results equal to exact arithmetic to the clock's resolution, for negative and large times too. The time reported is the system's. In deadline mode whoever waits is woken for the last deadline requested (at once if it has passed), a wakeup which comes too early is scheduled again, and none comes before the deadline; in tick mode wakeups come exactly once per interval. Nothing comes after a stop, and a stopped timebase can be started again.",
 ["inputs", "histories"], "all times and intervals within the clock's range",
 "one timebase test uses a few fixed delays",
 ["src/utils/timespec-utils.cc", "src/utils/timeval-utils.cc", "src/app-framework/PosixTimebase.cc", "src/app-framework/TimeAdapter.cc"],
 [("timespecNormalize, doubleToTimespec", "src/utils")],
 ["operators on timespec/timeval"])

prop("C23", "UDP messages decode to what was encoded and map to what was declared",
 "Encoding any sequence of integers, reals, booleans, strings and arrays as declared for a UDP message and decoding it with the same declaration gives back the same values, bytes outside the field are untouched, values which don't fit their declaration are refused, and a datagram too short for its message is discarded without reading beyond it. Messages and waiting receivers are matched first-in first-out per message name, none lost or delivered twice, and receivers which were aborted get nothing.",
 ["inputs", "histories"], "all message declarations, values and arrival orders",
 "tests encode a few constants at fixed offsets",
 ["src/interfaces/UdpAdapter/udp-utils.cc", "src/interfaces/UdpAdapter/UdpAdapter.cc", "src/interfaces/UdpAdapter/MessageQueueMap.cc"],
 [("encode_*/decode_*", "src/interfaces/UdpAdapter/udp-utils.cc"), ("message queues", "src/interfaces/UdpAdapter/MessageQueueMap.cc")],
 ["encode/decode functions, MessageQueueMap"])

prop("C24", "Core containers behave as their abstract types",
 "Under every sequence of operations the executive's queue, priority queue, map and set behave like a sequence, a stable priority sequence, a mapping and a set: sizes, order, membership and lookups agree with the abstract type, and removed items are fully unlinked.",
 ["histories"], "all sequences of operations",
 "tests run one fixed sequence per operation",
 ["src/utils/LinkedQueue.hh", "src/utils/SimpleMap.hh", "src/utils/SimpleSet.hh", "src/utils/bitsetUtils.cc"],
 [("linked and sorted-vector representations", "src/utils")],
 ["public operations"])

prop("C26", "The simulator replays its script faithfully",
 "For every script the stand-alone simulator accepts, each telemetry value is issued at its scheduled time in time order and each command occurrence receives exactly the responses the script gives for that occurrence, or the default, with the values as written. Malformed scripts are refused with an error and do not crash it.",
 ["inputs", "histories"], "all scripts and all orders of command arrival",
 "the suite has one script reader test",
 ["src/apps/StandAloneSimulator/Agenda.cc", "src/apps/StandAloneSimulator/CommandResponseManager.cc", "src/apps/StandAloneSimulator/ResponseFactory.cc", "src/apps/StandAloneSimulator/SimulatorScriptReader.cc"],
 [("agenda ordered by time; response counters", "src/apps/StandAloneSimulator")],
 ["Agenda, CommandResponseManager"])

prop("C27", "Uses of commands, lookups and libraries conform to their declarations",
 "When a plan declares a command, lookup or library interface, every use that disagrees with the declaration in number, type or direction of parameters or in the type of the result is rejected at load time, and every conforming use is accepted, including numeric widening and open-ended parameter lists.",
 ["programs"], "all declarations and all uses of them",
 "no test covers declarations systematically",
 ["src/xml-parser/parseGlobalDeclarations.cc", "src/xml-parser/SymbolTable.cc", "src/xml-parser/commandXmlParser.cc", "src/xml-parser/LookupFactory.cc", "src/xml-parser/parseLibraryCall.cc"],
 [("Symbol checks", "src/xml-parser/SymbolTable.cc")],
 ["parsePlan result"])

prop("C28", "Array variables honour bounds, element-wise unknown and copying",
 "Reading an element gives the value last stored there or unknown, an unknown index reads as unknown and writes nothing, an index that is negative or beyond the array's size is refused or reads as unknown and never reads or writes anything else, and storing one element changes no other. Whole-array assignment copies the elements (later changes of either array do not affect the other), sizes stay within the declared maximum, and size, all-known and any-known agree with the contents.",
 ["inputs", "programs", "histories"], "all sequences of element and whole-array operations with any index and content",
 "unit tests cover small arrays with in-range indices",
 ["src/value/ArrayImpl.cc", "src/expr/ArrayVariable.cc", "src/expr/ArrayReference.cc", "src/expr/ArrayOperators.cc"],
 [("ArrayImpl<T> with known bits", "src/value/ArrayImpl.cc"), ("element references", "src/expr/ArrayReference.cc")],
 ["array expressions' values"])

prop("C29", "Node internals visible to a plan are truthful",
 "The state, outcome, failure type, command handle and state timepoints of a node that a plan refers to in its expressions always equal the node's actual ones at that moment: a timepoint is known exactly if that state was entered (or left) in the current activation and equals the time of the step in which it happened, and predicates such as Finished, Succeeded or NoChildFailed agree with them.",
 ["programs", "histories"], "all plans referring to node internals, all histories and step times",
 "plans in the suite compare a few timepoints and states",
 ["src/exec/NodeTimepointValue.cc", "src/exec/NodeVariables.cc", "src/exec/NodeFunction.cc", "src/exec/NodeOperatorImpl.cc", "src/exec/NodeImpl.cc"],
 [("timepoint list, node operators", "src/exec")],
 ["expression values"])

prop("C32", "Messages are peeked, accepted and released consistently",
 "The message at the head of the queue, its text, sender and arrival time are what a plan sees when it peeks, and a handle given to an accepted message yields exactly that message's contents until it is released and unknown afterwards. Handles are independent of each other and of the queue.",
 ["histories"], "all sequences of message arrivals, acceptances and releases",
 "no existing test covers messages",
 ["src/intfc/StateCache.cc", "src/intfc/Message.hh", "src/app-framework/MessageAdapter.cc"],
 [("message states in the state cache", "src/intfc/StateCache.cc")],
 ["lookups of message states"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
