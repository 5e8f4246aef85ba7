# Text of DESIGN.md (run tools/design.py)
INTRO = """
# DESIGN

This file is written by `tools/design.py` from `tools/design_src.py`, the property texts, the evidence of the last run,
`known_findings.json` and the planted bugs.

## Approach

libossia is a library of pure data structures, protocols codecs, and a tick-based execution engine. Almost everything
a user relies on is decided by *which sequence of calls* was made with *which small values*: how a stream is cut, how
time is cut into ticks, in which order nodes are created and cables drawn, which kinds of messages follow each other. So the
family fits as **explicit exploration of the real code** (stateless and stateful bounded model checking): for each
property a harness

1. defines a bounded space of behaviours (all operation sequences up to a depth, all tick slicings of a time line, all
   graphs up to a size, all texts up to a length over a separating alphabet, all pairs/triples of a closed value
   alphabet…),
2. executes **every** element of this space on the real implementation, compiled from /repo's working tree with
   AddressSanitizer, UBSan-style aborts on assertions, and a hang detector,
3. compares what can be observed with an **independent reference model** written from the property (an
   instant-by-instant interpreter for scenarios, a model tree, a list of received packets, a formula…), which is
   therefore bound to the implementation on every single trace: there is no separate conformance step because every
   model trace *is* replayed against the implementation. `traces_validated_against_impl` in the evidence counts them.

Nothing is sampled. Where the state space is explored as a graph (C09, C11) states are canonicalised, stored and expanded
breadth first, every operation from every state; where a cap on the number of expanded states applies it is printed in
the bounds.

The bounds are those of the small-scope hypothesis: every defect found so far in this repository (see the repaired
ones below) shows within 2–4 operations. `thorough` raises the depth by one or two steps.

## Machinery

- `tools/vb.py` compiles harnesses and every /repo source that the harness needs, from the working tree, with a
  dependency-hash cache in `_build` (git ignored), using the stand-ins of `shims/` for third-party libraries
  which are git submodules absent from the sandbox (oscpack, libremidi messages, nano-signal-slot, flat, brigand, …).
  The stand-ins implement the documented interfaces only; they are part of the trusted base. A content change of any
  included file recompiles exactly the objects that depend on it.
- `harness/mc.hpp` is the exploration kit: enumeration helpers, state/outcome/trace accounting, failure records, sharding,
  replay of a single case (`MC_ONLY`), watchdog.
- `tools/check.py ID [tier]` builds, explores (8 shards), replays each failing case alone before it reports it (or, when the failure
  needs what ran before it in the same process, runs the same shard again and requires the same failure), matches known findings by key,
  writes `evidence/ID.json`. Exit 0/1; any other status means that no verdict could be reached.
- `tools/registry.py` (checks), `tools/properties_src.py` (properties), `tools/gen.py` (writes properties.jsonl and
  MANIFEST.json), `tools/fixed.py` (records findings), `tools/seed.py` (plants and tests bugs), `tools/mutate.py`
  (line mutations of given sources, run through the checks in scratch copies: used to find gaps).

No hook was needed in /repo: the harnesses reach everything through public headers.
"""
TEXT = {
"C01": dict(oracle="the list of packets written. The stream is `harness/fakestream.hpp`, which implements the synchronous and asynchronous read/write concept of Asio and hands out bytes in the segmentation that the explorer chooses, with end of stream or corruption at the chosen byte."),
"C02": dict(oracle="algebraic laws (symmetry, negation, transitivity, hash agreement) and the numeric value of scalars; copies are compared structurally by the harness, not by operator==."),
"C03": dict(oracle="a table of conversions between types derived from the documentation; text round trip is identity.", narrow="convert<bool>(\"true\") gives false (documented numeric parsing): not claimed."),
"C04": dict(oracle="a recursive merge on a JSON-like model of values."),
"C05": dict(oracle="clamp/wrap/fold computed on long doubles and exact integers; membership for value sets."),
"C06": dict(oracle="formulas from the definition of each unit (colour spaces, spherical/cylindrical coordinates, gains, speeds…) and the algebra of text names.", narrow="writing a scalar past the last component is a caller error; mel below 2 and negative gains are outside the formula's domain; the pixel unit is not part of the unit variant. Two findings are open: the polar and spherical units name their components in the other order than the formula uses, which cannot be repaired without changing the meaning of saved data."),
"C07": dict(oracle="an instant-by-instant model: each integer instant of the time line must belong to exactly one tick and map to one frame.", narrow="increase_start_time with a zero previous date, grids that do not divide the bar are not claimed."),
"C08": dict(oracle="an instant-by-instant interpreter of scenarios (events, syncs, conditions, min/max durations), advanced unit by unit and compared after each tick of the real engine.", narrow="a trigger request made before the sync enters its evaluation zone is ignored by design (the model was corrected: a false alarm); speeds are claimed where boundaries fall on whole units; backward running for finite maximal durations."),
"C09": dict(oracle="a model tree edited in parallel; every observer callback is counted."),
"C10": dict(oracle="independent recursive matchers and expanders of the documented pattern grammar.", narrow="`?` stands for zero or one character in this code; `[!..]` is not claimed; instance numbers near INT_MAX and illegal characters in find_or_create_node are not claimed."),
"C11": dict(oracle="a record of attributes with the documented effect of each setter.", narrow="callbacks on invalid values; node_base::set compares with value equality; setting a shorter vector keeps the remaining components (model corrected)."),
"C12": dict(oracle="a list of registered observers; each notification is counted."),
"C13": dict(oracle="reachability and topological order over the model graph; the value each sink must see.", narrow="ordering by address is claimed for the schedulers that implement it (tc, boost_tc, bfs), not for the order of insertion; delayed glutton cables are not claimed. One finding is open: the fully dynamic scheduler ignores dependency cables."),
"C14": dict(oracle="a list of (date, value) per port and a matrix of samples per channel; formulas for pan and gain.", narrow="a mono outlet ignores its pan; MIDI channels are 1..16."),
"C15": dict(oracle="the parameter values after launching the same messages one by one.", narrow="lists written to vector parameters, mixing whole lists and indexed messages, merging of different units with commit_merged, and which of two equal priorities goes first are not claimed."),
"C16": dict(oracle="closed formulas of the easings, piecewise evaluation, de Boor evaluation of B-splines, linear interpolation in the colour space.", narrow="adding a point on an existing abscissa or before x0; tweened gradients with a single stop; circular easings are compared with a larger tolerance near 1."),
"C17": dict(oracle="the event list or sample stream of the uncut time line, cut afterwards.", narrow="metronome: ticks not longer than the period, constant curve; step and backward running; a MIDI jump is judged at the tick (model corrected) and notes that cross the target are not resumed; sounds: raw stretch mode, exact ratios, forward."),
"C18": dict(oracle="the formula evaluated by the harness over the values it wrote itself.", narrow="several notifications may be given for one change, the last one told must be the truth; user-defined terms never compare equal; what a pulse says after an update that pulls values is not judged."),
"C19": dict(oracle="the pushed value (or its image in the dialect: OSC 1.0 has no booleans, chars…), an independent pattern matcher, a conversion table, a map of listened addresses.", narrow="the oscpack library is not in the repository: malformed packets are not claimed; empty lists are messages without argument; strings with NUL, trailing slashes; the repetition filter compares the bounded value with the raw previous one (extra sends, not claimed); a data race of the harness's own legacy receiver was a false alarm (FakeNet drain)."),
"C20": dict(oracle="the values the device was given before saving.", narrow="instances which are leaves themselves (`/a.1` with a value) read like lists in JSON; NaN and infinities; characters inside lists, and nested vectors against lists, in JSON; which of several equal priorities is recalled first."),
"C21": dict(oracle="a sequential model per object (a value and a count of observers, a map, an ordered list of children); a brute-force search for an order of the calls (linearizability); vector clocks for races; every block freed during an execution is kept to see its later uses.", narrow="a callback that changes its own container, or two callbacks that write each other's parameter (both deadlock by construction: the container is locked while it notifies); what two threads do to the same node while one deletes or renames it; attributes other than the value; the order in which observers hear concurrent writes. Weak memory is not explored beyond race detection. std::string members compiled inside libstdc++ are not instrumented."),
"C22": dict(oracle="the sequence of values pushed by each thread and virtual dates.", narrow="two threads that push to the same parameter (the local value and the one sent may differ in order); my first pacing bound (three messages take two periods) was too strong: a late pass is caught up once."),
"C23": dict(oracle="the server's own tree, attribute by attribute.", narrow="lists whose OSC type tags are those of another type (one element, two to four floats), domains without any bound or value (said as none), a default value of impulse (null means none), extended types on types they are not for, the type of a parameter whose unit decides it, bounds beside a list of values."),
"C24": dict(oracle="the server's own tree; the list of values pushed.", narrow="values pushed while the node they go to is being renamed, created or typed (they travel by another channel than the edits: only the structure is claimed then); a node removed by the application while the network thread writes it (the library leaves that to the application)."),
"C25": dict(oracle="the namespace of the same node; the request itself.", narrow="CONTENTS as an attribute (refused), UNIT and EXTENDED_TYPE of a parameter with a unit (said in two ways), the answer to a value asked of a node without value (empty), VALUE and RANGE of nodes to add (the code does not read them)."),
"C26": dict(oracle="the time between the calls that begin and end playing, summed from the log of the execution in virtual time.", narrow="clocks of zero duration, changes of duration or granularity while running, and calls from two user threads; the time of dropped ticks is counted in the date but not played (taken as the meaning of dropping)."),
}
SEEDS = {}
OUTRO = """
## What the family cannot address here

Parts whose third-party dependencies are missing from the sandbox and from the repository (gfx and Qt bindings, libmapper, Phidgets,
Leap Motion, Wiimote, joystick, Artnet/E1.31, math_expression/exprtk) cannot be executed, hence not explored; they are
outside of every statement above.

## Trust

The verdicts rest on: the stand-ins of `shims/`, GCC and its sanitizers, the enumeration helpers of `harness/mc.hpp`, and the
reference models. The models were each validated by planting bugs (below the properties) and by automatic line
mutations (`tools/mutate.py`): survivors were read one by one, and either are equivalent (reserve() calls, dead code,
caches) or led to a stronger harness.
"""
