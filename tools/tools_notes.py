G = "Random search with shrinking, not proof: a fault that no generated case reaches is missed. "
NOTES = {
 "C11": ("algebraic laws and model-based histories over generated values and states", G + "Compared with a reference equality written from the language definition; NaN excluded."),
 "C12": ("round trip through exactly sized buffers under AddressSanitizer", G + "Sizes up to 65537 elements or bytes; the API takes no buffer size, so undersized buffers are the caller's affair."),
 "C13": ("differential against an independent literal grammar, and print/read round trip", G + "Notations the grammar leaves open (hexadecimal, octal, leading blanks) may be refused but not misread."),
 "C01": ('model-based testing: random plans and event histories, differential against a reference executive', G + 'Compared step by step with a reference model of the language written from its definition; the order among simultaneous independent transitions is left open, plans have at most about 20 nodes and histories about 25 steps. '),
 "C02": ("model-based testing: random plans and event histories, differential against a reference executive, with every node's eligibility recomputed after each event", G + 'Compared step by step with a reference model of the language written from its definition; the order among simultaneous independent transitions is left open, plans have at most about 20 nodes and histories about 25 steps. '),
 "C05": ('model-based testing: random plans and event histories, differential against a reference executive', G + 'Compared step by step with a reference model of the language written from its definition; the order among simultaneous independent transitions is left open, plans have at most about 20 nodes and histories about 25 steps. Weighted towards competing, retracted and element assignments.'),
 "C06": ('model-based testing: random plans and event histories, differential against a reference executive, and a mutual-exclusion invariant over the history', G + 'Compared step by step with a reference model of the language written from its definition; the order among simultaneous independent transitions is left open, plans have at most about 20 nodes and histories about 25 steps. '),
 "C07": ('model-based testing: random plans and event histories, differential against a reference executive; arbiter compared with exact rational arithmetic', G + 'Compared step by step with a reference model of the language written from its definition; the order among simultaneous independent transitions is left open, plans have at most about 20 nodes and histories about 25 steps. Resource hierarchies are acyclic.'),
 "C08": ('model-based testing: random plans and event histories, differential against a reference executive, with late, repeated and out-of-order answers', G + 'Compared step by step with a reference model of the language written from its definition; the order among simultaneous independent transitions is left open, plans have at most about 20 nodes and histories about 25 steps. '),
 "C10": ('model-based testing: random plans and event histories, differential against a reference executive', G + 'Compared step by step with a reference model of the language written from its definition; the order among simultaneous independent transitions is left open, plans have at most about 20 nodes and histories about 25 steps. '),
 "C15": ('model-based testing: random plans and event histories, differential against a reference executive using few names, often redeclared', G + 'Compared step by step with a reference model of the language written from its definition; the order among simultaneous independent transitions is left open, plans have at most about 20 nodes and histories about 25 steps. '),
 "C16": ('model-based testing: random plans and event histories, differential against a reference executive in which the model inlines the called node', G + 'Compared step by step with a reference model of the language written from its definition; the order among simultaneous independent transitions is left open, plans have at most about 20 nodes and histories about 25 steps. '),
 "C17": ('metamorphic: the same history repeated, and each plan alone against in company', G + 'Compared step by step with a reference model of the language written from its definition; the order among simultaneous independent transitions is left open, plans have at most about 20 nodes and histories about 25 steps. Repetition order is compared per micro-step as a multiset.'),
 "C18": ('histories repeated under AddressSanitizer, heap use compared between repetitions', G + 'A leak has to grow in each of the last repetitions to count; late answers go only to objects whose plan still exists.'),
 "C28": ('model-based testing: random plans and event histories, differential against a reference executive, weighted towards arrays', G + 'Compared step by step with a reference model of the language written from its definition; the order among simultaneous independent transitions is left open, plans have at most about 20 nodes and histories about 25 steps. '),
 "C29": ('model-based testing: random plans and event histories, differential against a reference executive, with conditions on node internals', G + 'Compared step by step with a reference model of the language written from its definition; the order among simultaneous independent transitions is left open, plans have at most about 20 nodes and histories about 25 steps. '),
 "C03": ("differential testing: random typed expression trees parsed from XML and evaluated, against a reference evaluator", G + "Integer overflow and MIN/MAX/SQRT of not-a-number are left open by the language and not judged."),
 "C04": ("model-based histories of activation, deactivation and mutation over graphs of shared expressions, each observed change compared with the notifications received", G + "A history ends at a plan error; variables are set only while active, as the executive does."),
 "C24": ("model-based histories of operations, compared after each with vector, std::map and std::set models", G + "Queues of up to 8 items and histories of up to 30 operations; bit sets of a few sizes."),
 "C22": ("differential against exact 128-bit arithmetic; model-based histories of timers against simulated clocks and timers put in place of the system's", G + "Deadlines are judged to the timer's resolution plus the rounding of a double. The Dispatch (macOS) timebase can't be built here."),
 "C09": ("model-based histories of published values, cycles, changing states, parameters and tolerances, over up to five concurrent lookups compared after each step with a reference model", G + "The interface supplies values of the state's type; differences within 1e-12 of a Real tolerance may go either way."),
 "C23": ("round trips through exactly sized buffers, model-based histories of the message queues, and differential testing of the adapter over loopback sockets against an independent encoder", G + "Deliveries are awaited rather than timed; two-byte floats, NUL in strings and ports shared by messages are not generated."),
    "C19": ("model-based histories of both input queues against a deque with heap accounting, and concurrent producers against one consumer (each event once, in each producer's order)", G + "Interleavings are those the scheduler gives."),
    "C20": ("differential histories: the same events handed to the interface manager and applied directly to the executive, compared event by event; handler registration against a map; threads waiting for completion with the worker running", G + "Interleavings are those the scheduler gives; values returned fit their destination."),
    "C32": ("model-based histories of messages received, accepted, released and looked up through the message adapter, compared with a model of the queue and the live handles", G + "Handles are those the adapter gives out."),
    "C21": ("model-based histories of transitions, assignments and step ends through listener hubs and filters, compared with what each listener must be told; viewer messages parsed back with an independent reader, and received by a viewer over a loopback socket", G + "Listener and viewer texts contain only characters XML can represent; a viewer which disconnects is not judged."),
    "C14": ("structured mutation fuzzing of generated plan documents (one to four random changes, or one of about 75 broken rules), with a second plan run before, beside and after as control; metamorphic changes which must not matter", G + "Documents are well-formed XML of moderate size and depth; leaks after a refusal are not judged."),
    "C27": ("model-based generation of declarations and uses, each accepted or refused as an independent statement of the rules says", G + "One use per plan, of commands, lookups or libraries, in the plan itself or in a library with declarations of its own."),
    "C26": ("model-based testing: generated simulator scripts replayed in simulated time against histories of commands and lookups, each message compared with what the script says; malformed and randomly edited scripts", G + "Commands arrive while the simulator waits; the IPC relay is not built."),
}
