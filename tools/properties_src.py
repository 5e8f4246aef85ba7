# Source of properties.jsonl (run tools/gen.py). id, title, statement, over, quantifier text, why tests can't, files, mechanisms, observe_at
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech], "observe_at": list(observe), "hook_needed": None}})

prop("C01", "Framed streams deliver each packet exactly once, intact and in order",
 "For every list of non-empty packets written with SLIP or size-prefix framing, and for every way in which the transport splits the byte stream over reads and writes, the receiver is handed exactly those packets, in order and unaltered, on every connected client. After corrupted bytes the SLIP receiver resynchronises: at most the first complete frame that follows is lost. The end of the stream or an abort stops reading, delivers nothing more, and notifies the owner once.",
 ["inputs", "schedules", "fault_sequences"], "every packet content, every segmentation of the stream, every point at which it ends or is corrupted",
 "The socket tests send a few fixed packets over a loopback connection, where each write arrives as one read; they never choose the segmentation, nor corrupt or cut the stream.",
 ["src/ossia/network/sockets/slip_framing.hpp", "src/ossia/network/sockets/size_prefix_framing.hpp", "src/ossia/network/sockets/writers.hpp", "src/ossia/network/sockets/framing.hpp"],
 [("SLIP state machine and escaping", "slip_framing.hpp"), ("length prefix then exact read", "size_prefix_framing.hpp"), ("end-of-stream validation, broadcast", "writers.hpp")],
 ["packets handed to the receive callback", "bytes written to the socket"])

V = "src/ossia/network/value/"
prop("C02", "Value comparison, hashing and copying are coherent for every pair of values",
 "For every pair of values, whatever their types and nesting: equality is symmetric and is the negation of inequality; the orderings <, <=, >, >= are consistent with each other and with equality; numbers of different types compare by their numeric value, lists and vectors element by element, an impulse equals any value of scalar or list type. Copying, moving or assigning a value over a value of any other type yields an equal value of the same type, leaves the source valid and never leaks or corrupts memory; equal values of one type have equal hashes.",
 ["inputs"], "every pair and triple of values of every type, including unset elements and nested lists",
 "The value tests compare a dozen hand-picked pairs; coherence is a statement over all pairs and triples of types, and over every assignment of one type over another.",
 [V + "value.hpp", V + "value.cpp", V + "value_base.hpp", V + "value_comparison.hpp", V + "value_hash.hpp", V + "value_variant_impl.hpp"],
 [("comparison visitors", "value_comparison.hpp"), ("tagged union", "value_variant_impl.hpp"), ("hash", "value_hash.hpp")],
 ["==, !=, <, <=, >, >=, copies, moves and hashes of ossia::value"])
prop("C03", "Values convert between types and to text and back predictably",
 "Converting a value to its own type leaves it unchanged; converting a number to another numeric type gives what the language's own conversion of the number gives; scalars, vectors and lists convert to each other element by element, missing elements being zero; conversion to a string yields a rendering that depends only on the value. Writing any value as text and parsing that text back yields the same type and content, and parsing any text terminates with either a value or a failure, never a crash or a partly filled value.",
 ["inputs"], "every value of the alphabet x every target type; every rendered text, its truncations and edits",
 "Tests convert a few constants; type pairs, nesting and text that is cut or altered form a product space that they do not enumerate.",
 [V + "value_conversion.hpp", V + "detail/value_conversion_impl.hpp", V + "format_value.hpp", V + "detail/value_parse_impl.hpp", V + "value_traits.hpp"],
 [("convert<T> visitors", "value_conversion.hpp"), ("pretty printer", "format_value.hpp"), ("grammar", "value_parse_impl.hpp")],
 ["results of convert, value_to_pretty_string and parse_pretty_value"])
prop("C04", "Writing to, merging into and reading part of a value touches exactly that part",
 "Merging one value into another, setting an element at an index path and reading an element at an index path act on exactly the elements designated: elements that are not designated keep their value, lists grow just enough with unset elements, an unset incoming element leaves the target element as it was, and reading back a path just written yields what was written. A path that designates nothing reads as an unset value. This holds for every combination of target type, source type and index path, nested lists and fixed-size vectors included.",
 ["inputs", "histories"], "every pair of values x every index path up to depth 3, including out-of-range and negative ones",
 "Tests merge two or three lists; which of the many type combinations overwrites, grows or ignores is only settled by enumerating all of them.",
 [V + "value_algorithms.hpp", "src/ossia/detail/destination_index.hpp", "src/ossia/network/value/vec.hpp"],
 [("value_merger", "value_algorithms.hpp"), ("get_value_at_index / insert_in_list", "value_algorithms.hpp")],
 ["resulting value after the merge, value read at a path"])
D = "src/ossia/network/domain/"
prop("C05", "A bounded value always respects its domain, and only as its bounding mode says",
 "Applying a domain to a value yields a value of the same type which, for CLIP, WRAP, FOLD, LOW and HIGH, lies in the domain as that mode defines it (clipped to the nearest bound, wrapped or mirrored into the range, or bounded on one side only), component by component for vectors and lists, unset bounds constraining nothing; a value set admits exactly its members. FREE leaves values unchanged, applying a domain twice changes nothing further, and the copying and moving forms agree. Building, copying, converting or editing a domain keeps its bounds and its set of values, and reading its minimum, maximum and values gives back what was set.",
 ["inputs", "configurations"], "every (minimum, maximum, value set) x six bounding modes x values of every type",
 "Tests try one or two ranges per type; the product of bound presence, mode, value type, vector size and move/copy path is far larger and its corners (unset bounds, single-value ranges, foreign types) are where bounds get lost.",
 [D + "domain_base_impl.hpp", D + "domain.hpp", D + "domain_base.cpp", D + "clamp.cpp", D + "wrap.cpp", D + "fold.cpp", D + "domain_conversion.hpp", D + "detail/domain_impl.cpp", D + "detail/clamp_visitors.hpp", "src/ossia/detail/math.hpp"],
 [("clamp/wrap/fold", "src/ossia/detail/math.hpp"), ("ternary/binary visitors", "detail/clamp_visitors.hpp"), ("apply_domain", "detail/domain_impl.cpp")],
 ["value returned by apply_domain, bounds returned by get_min/get_max/get_values"])
E_ = "src/ossia/editor/scenario/"
prop("C07", "Time arithmetic and tick requests stay exact and split without gap or overlap",
 "Durations add, subtract, compare and convert like the numbers they stand for, infinity being absorbing and greater than everything else, without wrapping round. A tick request cut at any point into consecutive sub-requests, or looped over a shorter content, covers exactly the same span: the pieces follow each other without gap or overlap, their sample offsets and counts add up to those of the whole, and a musical date (bar, quarter, quantification grid) falling in the tick is found in exactly one of the pieces, at the same instant. A process that follows the requests of successive ticks therefore sees each instant once, whatever the tick sizes, speed, direction or tempo.",
 ["inputs", "schedules"], "every pair of dates incl. infinity; every slicing of a span into ticks x speed x loop length x quantification grid",
 "Tests run a clock for a while and look at the log; that no slicing drops or plays twice an instant is a statement about all slicings.",
 [E_ + "time_value.hpp", "src/ossia/dataflow/token_request.hpp", "src/ossia/editor/scenario/time_signature.hpp", "src/ossia/editor/scenario/time_interval.cpp"],
 [("time_value operators", "time_value.hpp"), ("loop, add_offset, get_quantification_date, physical_start", "token_request.hpp")],
 ["results of operators, pieces produced by token_request::loop, quantification dates"])
prop("C08", "A scenario plays the same timeline whatever the tick sizes",
 "Executing a scenario by ticks of any sizes gives the instants of its timeline: each interval starts when its start event happens, is played once over exactly its duration (within its minimum and maximum), each event happens or is disposed exactly once, at its date, according to its condition and to whether something leads to it, and what remains of a tick after an interval goes on in the intervals that follow, with the right offset. A flexible sync is triggered by its expression or a request only between minimum and maximum, and at the maximum at the latest. This holds at any speed, in nested scenarios, and again after stopping and restarting.",
 ["inputs", "schedules", "histories"], "every small scenario graph x conditions x every slicing of its duration into ticks x trigger instants x speeds",
 "The scenario tests of the tree play one or two hand-written graphs at one tick size; which graph and which slicing loses or repeats something is found only by enumerating both.",
 [E_ + "scenario.hpp", E_ + "detail/scenario_execution.cpp", E_ + "detail/scenario_sync_execution.cpp", E_ + "scenario.cpp", E_ + "time_interval.cpp", E_ + "time_event.cpp", E_ + "time_sync.cpp", E_ + "time_interval.hpp", E_ + "time_process.hpp"],
 [("run_interval and over-ticks", "detail/scenario_execution.cpp"), ("event happening and disposal", "detail/scenario_execution.cpp"), ("sync readiness", "detail/scenario_sync_execution.cpp")],
 ["requests received by the processes of each interval, status callbacks of events, trigger callbacks of syncs"])

N_ = "src/ossia/network/base/"
prop("C09", "The node tree stays well-formed and its addresses and notifications exact",
 "Whatever sequence of creations, additions, renamings and removals of nodes and parameters is applied: siblings have distinct names made of legal characters, an occupied name yielding the next instance of its root; each node's addresses (cached, computed, relative, with the device) spell its current place in the tree; looking a node up by any of these finds that node and no other; parents, children and devices agree. Every creation, renaming and removal of a node or parameter is notified exactly once, for every node affected, while it can still be accessed, and nothing that was removed can be reached any more.",
 ["histories"], "every sequence of edits up to a depth, from every tree so reached",
 "Node tests perform a dozen edits in one order; stale caches, lost notifications and duplicate names depend on the shape and the order of edits.",
 [N_ + "node.hpp", N_ + "node.cpp", N_ + "node_functions.cpp", N_ + "osc_address.cpp", N_ + "name_validation.cpp", "src/ossia/network/generic/generic_node.cpp", "src/ossia/network/generic/generic_device.cpp", N_ + "device.hpp"],
 [("children list and notifications", "node.cpp"), ("address cache", "generic_node.cpp"), ("instance numbering", "name_validation.cpp")],
 ["children, names, addresses, find_node, device signals"])

prop("C10", "Addresses, names, expansions and patterns denote exactly the nodes they spell",
 "Any text becomes a legal name by replacing illegal characters only, and a taken name a free instance of the same root. Splitting an address gives its parts, and its scope (relative, absolute, with device) follows from its form. A brace, class or range expression creates exactly the addresses that it denotes, in order, a balanced expression being recognised as such. A pattern (?, *, [..], {..}, ranges, !, .., //, device part) selects exactly the nodes whose names it matches, each once, from the device or devices it designates. Any text is handled without a crash, a hang or a partial effect.",
 ["inputs"], "every text over small alphabets; every combination of pattern elements x every name of a tree",
 "The path tests try some thirty patterns on one tree; the space of pattern combinations and of names they must not match is where matchers go wrong.",
 [N_ + "name_validation.cpp", N_ + "name_validation.hpp", N_ + "node_functions.cpp", N_ + "address_scope.hpp", N_ + "osc_address.cpp", "src/ossia/network/common/path.cpp", "src/ossia/network/common/path.hpp"],
 [("sanitize_name", "name_validation.cpp"), ("expand, expand_ranges, canonicalize_str", "node_functions.cpp"), ("pattern to regex, traversal", "path.cpp")],
 ["results of sanitize_name, address_parts, create_nodes, find_nodes, traversal::apply and match"])

prop("C11", "A parameter keeps its value, type, unit, domain, flags and attributes consistent",
 "Whatever the sequence of sets, pushes, pulls, type, unit, domain, access, bounding, filter and flag changes, a parameter holds a value of its type, equal to the last value set converted to it; every callback is told exactly that value once per set, quiet sets tell nobody, and the protocol is given exactly the pushed values, never an invalid one. A repeated, muted or disabled value is filtered exactly when the flags say so. Each attribute of a node (tags, description, range of instances, default value, hidden, ...) reads back as last set, is independent of the others, follows a copy, and its change is notified exactly once, under its name, and only if it changed. Each type or unit name creates a parameter of that type, and an unknown name none.",
 ["inputs", "histories"], "every sequence of operations up to a depth, explored as a state graph; every sequence of attribute changes; every type name and unit x every existing parameter type",
 "Tests set one attribute at a time on a fresh parameter; what goes wrong is the combination: a type change under a domain, a flag after a removal, a notification that is lost or doubled.",
 ["src/ossia/network/generic/generic_parameter.cpp", "src/ossia/network/generic/generic_parameter.hpp", N_ + "parameter.hpp", N_ + "parameter.cpp", N_ + "parameter_data.hpp", N_ + "node_attributes.cpp", "src/ossia/network/common/parameter_properties.hpp", "src/ossia/network/common/complex_type.cpp", "src/ossia/detail/any_map.hpp"],
 [("set_value, push_value, set_value_type", "generic_parameter.cpp"), ("filter_value", "parameter.hpp"), ("attribute getters and setters", "node_attributes.cpp"), ("type names", "complex_type.cpp"), ("attribute storage", "any_map.hpp")],
 ["value, callbacks, protocol pushes, on_attribute_modified, attribute getters"])

prop("C12", "Each registered callback is called once per event, and none after its removal",
 "In a callback container, after any sequence of additions, removals, disablings, re-enablings, replacements and clears, sending calls exactly the callbacks that are registered and enabled, each once, in order, all with the arguments that were sent; the first addition and the last removal, and only those, are signalled; a callback stays removable through the handle its addition gave.",
 ["histories"], "every sequence of container operations up to a depth",
 "Handles stay alive over arbitrary histories of other callbacks coming and going; tests add one callback and remove it.",
 ["src/ossia/detail/callback_container.hpp", "src/ossia/network/generic/generic_parameter.cpp"],
 [("callback_container", "callback_container.hpp"), ("listening", "generic_parameter.cpp")],
 ["calls made by send, first/last callback hooks, callback_count"])

DS = "src/ossia/network/dataspace/"
prop("C06", "Units convert, print, parse and merge as their definitions say",
 "A value converted from one unit to any other of its dataspace denotes the same physical quantity (colour, angle, distance, gain, duration, speed, position, rotation), and comes back when converted back, whichever entry point converts it; converting between dataspaces gives nothing. Every unit is named by each of its texts, by its pretty text, its index pair and its component accessors, and by nothing else; foreign texts name none. A value with a unit has the unit's number of components, a value that does not fit gives none, and merging writes exactly the designated components and keeps the unit.",
 ["inputs"], "every ordered pair of units x a grid of values; every text; every value x index x mask",
 "2500 ordered pairs of units, each a formula of its own and its inverse; tests compile the conversions without looking at most of the numbers.",
 [DS + "dataspace.hpp", DS + "dataspace_visitors.cpp", DS + "detail/dataspace_impl.cpp", DS + "detail/dataspace_merge.hpp", DS + "detail/dataspace_parse.hpp", DS + "detail/make_value.hpp", DS + "color.hpp", DS + "gain.hpp", DS + "position.hpp", DS + "time.hpp", DS + "distance.hpp", DS + "speed.hpp", DS + "angle.hpp"],
 [("conversions", "detail/dataspace_impl.cpp"), ("texts", "detail/dataspace_parse.hpp"), ("merge", "detail/dataspace_merge.hpp")],
 ["results of convert, parse_unit, make_value, merge"])

DF = "src/ossia/dataflow/"
prop("C13", "Execution graphs run every active node once, after whatever feeds it",
 "At every tick, every node of an execution graph that was asked to run, is not muted and whose strict connections are satisfied runs exactly once, and no other node runs. Each node runs after all active nodes whose cables enter it and, for the schedulers that order by address, after the nodes writing a parameter it reads unless it itself feeds them. It receives exactly what its active sources produced in this tick, in cable order; without cable, or where an ordinary cable comes from an inactive source, the values written to its address earlier in this tick, else the parameter's current value. What goes to no active cable is written to the outlet's address, and the last value written in the tick ends up in the parameter. This remains true after any sequence of edits of the graph; a graph with a feedback cable runs nothing, and recovers once it is cut. Reachability is computed exactly for every graph.",
 ["inputs", "histories"], "every graph of up to four nodes, cable types, active sets, addresses, and every sequence of graph edits and ticks up to the bound",
 "The dataflow tests wire two or three chosen nodes; order and data flow must hold for every topology, activation pattern and editing history.",
 [DF + "graph/graph_static.hpp", DF + "graph/graph.hpp", DF + "graph/graph_utils.hpp", DF + "graph/graph_ordering.hpp", DF + "graph/transitive_closure.hpp", DF + "graph/breadth_first_search.hpp", DF + "graph/node_executors.hpp", DF + "graph_node.cpp", DF + "data_copy.hpp", DF + "execution_state.cpp"],
 [("topological order, address dependencies", "graph_static.hpp"), ("transitive closure by chains", "transitive_closure.hpp"), ("strict disabling, inlet initialisation, environment", "graph_utils.hpp")],
 ["order and inputs of node runs", "parameter values after commit"])

prop("C14", "Ports and devices exchange with the engine every value, sample and event",
 "Everything written to a port stays there with its date, in order; in replace mode a new value takes the place of the one of the same date. Values moved between ports, to an address and back keep content, date and order, converted exactly when both sides have a unit or a range, and reduced to the inlet's index. A listening inlet receives at each tick exactly the values its parameters received since the previous tick, whatever other inlets listen or stop listening. Audio is summed channel by channel with gain and pan. What nodes write to the outputs of a sound device is what the device plays, and its inputs, mappings and buses carry their own channels and dates, however a buffer is cut into ticks and however the number of channels changes. MIDI builders emit the bytes of their message.",
 ["inputs", "histories"], "every bounded sequence of writes, registrations, receptions and ticks; every cutting of a buffer; every channel layout",
 "Ports are exercised by tests with one value at a time; loss, duplication, displacement and stale buffers come from particular sequences of writes, cuts and reconfigurations.",
 [DF + "port.cpp", DF + "port.hpp", DF + "data.hpp", DF + "data_copy.hpp", DF + "value_port.hpp", DF + "midi_port.hpp", DF + "audio_port.hpp", DF + "execution_state.cpp", "src/ossia/network/base/message_queue.hpp", "src/ossia/audio/audio_protocol.cpp", "src/ossia/audio/audio_parameter.cpp"],
 [("writing with date and mix mode", "port.cpp"), ("environment of a tick", "execution_state.cpp"), ("listening queue", "message_queue.hpp"), ("buffers of a device", "audio_protocol.cpp")],
 ["port contents", "samples played", "events received per tick"])

ED = "src/ossia/editor/state/"
prop("C15", "Merging or batching messages never changes what they write in the end",
 "Launching a list of messages one after the other, adding them to a state that merges them, or committing them through the environment of a tick leave every parameter with the same final value: whole values, single components, units and nested states alike. A component message changes its component only, the latest message wins, and messages to different addresses or units never mix. A state that merges holds at most one message per destination, and flattening, comparing and copying states keep what they send.",
 ["inputs", "histories"], "every list of messages up to the bound over addresses, indices, units and nestings",
 "The merging code distinguishes a dozen combinations of message kinds whose order matters; tests try a few pairs.",
 [ED + "flat_vec_state.hpp", ED + "detail/state_flatten_visitor.hpp", ED + "message.hpp", ED + "state.hpp", ED + "state_element.cpp", DF + "execution_state.cpp"],
 [("merging by destination", "detail/state_flatten_visitor.hpp"), ("flat vector of messages", "flat_vec_state.hpp")],
 ["parameter values after launch or commit", "number of messages after merging"])

CV = "src/ossia/editor/curve/"
NO = DF + "nodes/"
prop("C16", "Curves, easings, automations, gradients and splines follow their formulas",
 "A curve takes the ordinate of each of its points at its abscissa, follows the segment that leads to the next point in between, and keeps its last ordinate after; adding, moving and removing points in any order leaves the same curve as building it at once. Each easing is the function its name says, from 0 at 0 to 1 at 1, and its in, out and in-out forms mirror each other. Automations and mappings apply their curves, one per component for lists, and give a value of the type of the curve whatever the type of the input. Gradients interpolate between the two stops around the position and hold the outer stops outside them; splines follow the clamped uniform B-spline of their points up to both ends. No input makes any of them crash or read past its points.",
 ["inputs", "histories"], "every set of points over a grid in every order, every easing x position, every behaviour kind x input kind, every stop list, every spline size x position",
 "Each formula has ends, degenerate cases and some thirty variants; tests look at one or two curves in their middle.",
 [CV + "curve.cpp", CV + "curve.hpp", CV + "curve_segment.hpp", CV + "curve_segment/easing.hpp", CV + "behavior.hpp", "src/ossia/editor/automation/curve_value_visitor.hpp", "src/ossia/editor/mapper/detail/mapper_visitor.hpp", NO + "automation.hpp", NO + "mapping.hpp", NO + "gradient.hpp", NO + "spline.hpp", "src/ossia/editor/automation/tinyspline_util.hpp", "src/ossia/editor/automation/tinyspline.c"],
 [("points and segments", "curve.hpp"), ("easing functions", "easing.hpp"), ("component wise evaluation", "curve_value_visitor.hpp"), ("spline evaluation", "tinyspline_util.hpp")],
 ["value_at, output of automation, mapping, gradient and spline nodes"])

prop("C17", "Processing nodes play the same thing however time is cut into ticks",
 "What a step sequencer, metronome, MIDI file, sound, gain, merger, sine or forward node produces between two dates is the same whether this time is executed in one tick or in many, whatever the offsets in the buffer: each step, beat and note starts exactly once at its frame, each note that starts ends exactly once, each sample of a sound comes out once at its frame, with fades only where playing starts and stops. Notes added, removed or replaced while playing are taken into account from then on and leave the others alone; a jump or a stop ends the notes that sound and playback resumes exactly at the target. A node writes inside the frames of its tick and nowhere else.",
 ["inputs", "histories"], "every cutting of the time line into ticks, every small note list, edit and jump history, every channel layout",
 "Tests run one tick per node. Off-by-one frames, lost or doubled events and hanging notes depend on where a tick boundary falls.",
 [NO + "step.hpp", NO + "metronome.hpp", NO + "midi.hpp", NO + "sound.hpp", NO + "sound_ref.hpp", NO + "sound_impl.hpp", NO + "gain.hpp", NO + "merger.hpp", NO + "sine.hpp", NO + "forward_node.hpp"],
 [("steps of a tick", "step.hpp"), ("notes started and ended", "midi.hpp"), ("samples and fades", "sound_ref.hpp")],
 ["values, MIDI messages and samples in the outlets after run"])

EX = "src/ossia/editor/expression/"
prop("C18", "A condition is true exactly when its formula is, and tells its changes",
 "For every condition built of comparisons, pulses, constants, user-defined terms, negations and and/or/xor combinations over parameters, indices and units: evaluating it gives the truth of the formula over the current values (those pulled by update, when update is called); while it is listened to, every registered callback has been told, after each change, the truth that evaluating gives, callbacks that were removed are told nothing, and the condition observes its parameters exactly while it is listened to, also when parts of it are destroyed. A pulse is true once a message came since the last update. Two conditions compare equal exactly when they have the same structure and operands.",
 ["inputs", "histories"], "every expression tree up to the bound over the operand kinds, every comparator x pair of values, every history of writes, registrations and updates",
 "The tests evaluate single atoms; what matters is each tree under every order of changes and registrations.",
 [EX + "expression.cpp", EX + "expression_atom.cpp", EX + "expression_composition.cpp", EX + "expression_not.cpp", EX + "expression_pulse.cpp", EX + "expression_bool.cpp", EX + "expression_generic.cpp", "src/ossia/network/value/destination.cpp"],
 [("comparison of operands", "expression_atom.cpp"), ("registration with operands on first callback", "expression_composition.cpp"), ("pulse flag", "expression_pulse.cpp"), ("comparison of conditions", "expression.cpp")],
 ["evaluate, update, callbacks and == of conditions"])

OS = "src/ossia/network/osc/"
prop("C19", "OSC carries values unchanged to exactly the parameters they are addressed to",
 "A value pushed to a parameter over OSC, alone, by its address or within a bundle, arrives on the mirrored parameter with the same type and content (within what the chosen OSC dialect can express), including colours, blobs, nested lists and sizes up to the maximal packet. Arguments received for a parameter of another type are converted as documented, or leave it untouched. A message, also within nested bundles, reaches every parameter that its address or pattern designates and no other one, whether listened to or not, after any history of renamings, removals and registrations. Learning devices create exactly the parameters of the addresses they hear, typed after the arguments. Access modes, disabled, muted and repetition-filter attributes are respected by every way of sending and receiving.",
 ["inputs", "histories"], "every value of the alphabet x unit x dialect x way of sending, every argument list x parameter type, every address pattern x listening set, every edit history",
 "The OSC tests send one message per type over a socket; routing through renamings, nested bundles and listeners, and conversions between all type pairs, are not sampled.",
 [OS + "osc.cpp", OS + "detail/osc_value_write_visitor.hpp", OS + "detail/osc_receive.hpp", OS + "detail/osc_packet_processor.hpp", OS + "detail/osc_messages.cpp", OS + "detail/bundle.hpp", OS + "detail/message_generator.hpp", OS + "detail/osc_protocol_common.hpp", OS + "detail/osc_1_0_policy.hpp", OS + "detail/osc_1_1_policy.hpp", OS + "detail/osc_1_1_extended_policy.hpp", "src/ossia/protocols/osc/osc_generic_protocol.hpp"],
 [("argument encoding", "osc_1_1_policy.hpp"), ("argument decoding per type", "osc_receive.hpp"), ("dispatch to listening, existing and pattern matched parameters", "osc_messages.cpp"), ("listening map", "osc.cpp"), ("bundles", "bundle.hpp")],
 ["parameter values on the receiving device", "packets given to the transport"])

PR = "src/ossia/preset/preset.cpp"
prop("C20", "Recalling a preset restores exactly the values that were saved",
 "For every device: saving it as JSON, as text or as a preset object, and recalling it, on the same device or on one with the same addresses, gives back the saved value to each bidirectional parameter that is not an impulse and not protected by recall-safe, exactly once and with its callback; every other parameter keeps its value, and addresses which no longer exist are skipped (or reported, or created, as asked). Every value survives the text form of presets and, up to the distinction between characters and texts and between vectors and lists that JSON does not make, the JSON form; texts that are not JSON are refused without effect. A preset entry for an instance reaches that instance, or the root instance when it designates number 0, and never another node.",
 ["inputs", "histories"], "every device of up to 4 nodes of 11 kinds x formats x missing nodes, every value, every pair of entries, every set of instance names",
 "Preset tests print what they write; none recalls onto a device that differs, nor lists that mix types, nor several instances.",
 [PR, "src/ossia/preset/preset.hpp", "src/ossia/network/value/detail/value_parse_impl.hpp"],
 [("JSON written and read", "preset.cpp"), ("text form", "value_parse_impl.hpp"), ("nodes looked up and created", "preset.cpp")],
 ["parameter values and callbacks after recall", "presets read back"])

prop("C21", "Concurrent calls behave as if they were made one at a time",
 "When several threads read, write and push the value of one parameter, add and remove its callbacks, look up and change the map of listened addresses, create, add, find, list, rename and remove the children of one node, or compile and match address patterns, every call has a result, and the final state is one, that some order of the calls explains, compatible with the order in which calls that do not overlap were made: no value is torn or lost, sibling names stay unique, one thread only succeeds in removing a node, each creation and removal is announced once. Each written value is told once to each callback that is registered during the call, never twice at the same time nor after its removal returned, and the protocol is asked to observe exactly when the first callback comes and the last one goes. No data race, no use of freed memory, no deadlock. (Threads do not use a node while another deletes or renames it.)",
 ["schedules"], "every program of 2 threads x 2 calls and 3 threads x 1 call over the alphabets of calls, under every schedule with up to 2 preemptions",
 "The tests have one thread; interleavings cannot be sampled by running them.",
 ["src/ossia/detail/callback_container.hpp", "src/ossia/network/generic/generic_parameter.cpp", "src/ossia/network/generic/generic_node.cpp", "src/ossia/network/base/node.cpp", "src/ossia/network/base/listening.hpp", "src/ossia/detail/locked_container.hpp", "src/ossia/network/common/path.cpp", "src/ossia/detail/mutex.hpp"],
 [("value mutex", "generic_parameter.cpp"), ("notification under lock", "callback_container.hpp"), ("children mutex", "node.cpp"), ("renaming", "generic_node.cpp"), ("listened addresses", "listening.hpp"), ("cache of compiled patterns", "path.cpp")],
 ["results of the calls, final values and names, callbacks, signals, observe requests"])

prop("C22", "A rate-limited device sends each latest value once, in order, at its pace",
 "A protocol wrapped in rate limiting forwards to the protocol underneath, from its own thread, the values pushed to each parameter: in the order they were pushed, each at most once, always ending with the last one pushed, older ones being replaced by newer ones; never a value that was not pushed, never to another parameter, never for a parameter that was removed, nor once the device is stopped or destroyed. j+2 messages of one parameter take at least j periods, and changing the period takes effect while it runs. Pulls, observations, updates and raw messages go through at once. All of this under every timing of the threads, without data race, use of freed memory or deadlock.",
 ["schedules", "histories"], "every sequence of pushes, sleeps, removals and period changes up to the bound, for fast and slow transports, under every schedule and wake-up up to the bound",
 "There is no test of rate limiting; losing the last value needs a push between the swap and the send.",
 ["src/ossia/network/rate_limiting_protocol.cpp", "src/ossia/network/rate_limiting_protocol.hpp"],
 [("swap of the buffers, coalescing and pacing", "rate_limiting_protocol.cpp"), ("removal of parameters", "rate_limiting_protocol.cpp"), ("stop", "rate_limiting_protocol.cpp")],
 ["calls received by the wrapped protocol, with their virtual date"])

prop("C23", "An OSCQuery client shows the values and attributes of the server's tree",
 "The namespace an OSCQuery server writes, read by a client, gives back the same tree: names, order, parameters, value types, values (numbers, text with any character, lists, nested lists, vectors, booleans, impulses), units, ranges (bounds, per-element bounds, lists of values), access, bounding mode, repetition filter, default value, critical, disabled, hidden, description, tags, extended type, refresh rate, priority, step, instance bounds, application name, version and creator. Reading one node updates that node and nothing else. While a client is connected, setting, changing or removing any of these attributes, the type or the unit, in any order, leaves client and server the same once messages have arrived.",
 ["inputs", "histories"], "every value, list, attribute, pair of attributes, domain, unit and tree of the alphabets, whole or live",
 "No test compares more than a few attributes; each attribute has its own writer and reader, and the two can drift apart.",
 ["src/ossia/network/oscquery/detail/json_writer_detail.cpp", "src/ossia/network/oscquery/detail/json_reader_detail.cpp", "src/ossia/network/oscquery/detail/value_to_json.hpp", "src/ossia/network/oscquery/detail/domain_to_json.hpp", "src/ossia/network/oscquery/detail/typetag.cpp", "src/ossia/network/oscquery/detail/attributes.hpp", "src/ossia/network/oscquery/detail/json_writer.hpp", "src/ossia/network/oscquery/detail/json_parser.hpp", "src/ossia/network/oscquery/detail/oscquery_units.hpp", "src/ossia/network/common/complex_type.cpp", "src/ossia/network/base/node_attributes.cpp"],
 [("writing of the namespace and of attribute changes", "json_writer_detail.cpp"), ("reading of the namespace and of attribute changes", "json_reader_detail.cpp"), ("values and type tags", "value_to_json.hpp"), ("ranges", "domain_to_json.hpp")],
 ["every attribute of every node on both sides"])

prop("C24", "OSCQuery servers and clients stay the same tree whatever happens",
 "A connected OSCQuery client follows the server: nodes created, removed, renamed (with their children), parameters created and removed, types changed, values pushed. A value pushed by either side reaches the other. After any history, once messages have arrived, both trees are the same; edits made faster than messages arrive still end with the same tree. With several clients, every value pushed by anyone is received once, in order, by the server and, from the server or when echo is on, by every other client, and never by the one that sent it, for ordinary and critical parameters alike, clients joining and leaving meanwhile; critical values travel by the connection, never by datagrams that may get lost. A client that joins gets the current tree and values.",
 ["histories", "schedules"], "every sequence of edits and values up to the bound, every choice of messages arriving between edits, up to three clients",
 "The project's tests of OSCQuery need a network, and their interleavings are those of the moment.",
 ["src/ossia/network/oscquery/oscquery_server.cpp", "src/ossia/network/oscquery/oscquery_mirror.cpp", "src/ossia/network/oscquery/oscquery_client.hpp", "src/ossia/network/oscquery/detail/json_query_parser.hpp", "src/ossia/network/oscquery/detail/json_reader_detail.cpp", "src/ossia/network/oscquery/detail/json_writer_detail.cpp", "src/ossia/network/oscquery/detail/osc_writer.cpp", "src/ossia/network/sockets/websocket_server.hpp", "src/ossia/network/sockets/websocket_client.hpp"],
 [("edits sent to clients", "oscquery_server.cpp"), ("edits applied by clients", "oscquery_mirror.cpp"), ("echo and identity of clients", "oscquery_server.cpp"), ("listened addresses", "oscquery_mirror.cpp")],
 ["both trees after each step, values received by each party"])

prop("C25", "An OSCQuery server answers every request rightly and survives malformed ones",
 "Asked by HTTP or by websocket, a server answers the namespace of any node, any attribute or several of them of any node with the same content as in the namespace, its host information, an HTML page, and refuses unknown paths (404) and wrong requests (400). Requests to add (with attributes), remove or rename a node reach the application once, with the right path, name and attributes, when commands run. No request, however malformed, stops or corrupts the server, nor does any message of a server stop or corrupt a client: it is refused or ignored, and the next request is answered.",
 ["inputs"], "every path, attribute, pair of attributes and request on a tree, every address of up to four pieces, every one-part corruption and truncation of valid messages",
 "The tests send a few valid requests.",
 ["src/ossia/network/oscquery/detail/get_query_parser.hpp", "src/ossia/network/oscquery/detail/query_parser.cpp", "src/ossia/network/oscquery/detail/query_parser.hpp", "src/ossia/network/http/http_query_parser.hpp", "src/ossia/network/oscquery/detail/json_query_parser.hpp", "src/ossia/network/oscquery/detail/json_reader_detail.cpp", "src/ossia/network/oscquery/oscquery_server.cpp", "src/ossia/network/oscquery/oscquery_mirror.cpp", "src/ossia/network/sockets/websocket_server.hpp", "src/ossia/network/oscquery/detail/html_writer.cpp"],
 [("dispatch of requests", "get_query_parser.hpp"), ("decoding of addresses", "http_query_parser.hpp"), ("guards of the JSON reader", "json_reader_detail.cpp")],
 ["status and body of answers, requests seen by the application"])

prop("C26", "A running clock plays the time that elapses, never its pauses",
 "Whatever the interleaving of the clock's own thread with its user's calls: the interval is played forward only, never further than the time the clock has been running and not paused, scaled by its ratio, and does not lag by more than a period (plus the delay to notice a resume; ticks dropped by slow processes are not played but count in the date). After pause() returns at most the tick already taken is played; after stop() returns nothing is, the clock is stopped and its date is zero; it can be started again. A clock with a duration ends by itself once the duration is exceeded and not before. Its end is told exactly once. Reading its date and state at any time is safe and right.",
 ["schedules", "histories"], "every interleaving and wake-up order of the clock thread with every short sequence of calls",
 "Tests start a clock and sleep. What a pause, a resume or a stop does depends on where the clock thread is at that time.",
 ["src/ossia/editor/scenario/clock.cpp", "src/ossia/editor/scenario/clock.hpp", "src/ossia/editor/scenario/time_interval.cpp"],
 [("time accounted and played", "clock.cpp"), ("pause, resume and stop", "clock.cpp")],
 ["dates given to the callback of the interval, status callback, date and state read"])


