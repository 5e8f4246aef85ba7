ALL = ["ossia/**/*.cpp", "ossia/editor/automation/tinyspline.c"]
def h(*names, **kw):
    return [{"name": n, "src": n + ".cpp", "lib": ALL, **kw} for n in names]
def check(harnesses, technique, note, **kw):
    return {"harnesses": harnesses, "technique": technique, "level_note": note, **kw}
REAL = "Bounded model checking of the real implementation: every case of the bounded space printed in the evidence is executed and compared with an independent reference model; nothing is sampled. "
CORE = ["ossia/context.cpp", "ossia/network/base/*.cpp", "ossia/network/generic/*.cpp", "ossia/network/value/*.cpp", "ossia/network/common/*.cpp", "ossia/network/dataspace/*.cpp", "ossia/network/dataspace/detail/*.cpp", "ossia/network/exceptions.cpp", "ossia/network/local/*.cpp", "ossia/network/rate_limiting_protocol.cpp"]
def mch(*names, **kw):
    return [{"name": n, "src": [n + ".cpp", "mcrt.cpp"], "lib": kw.pop("lib", CORE), "variant": "mc", "shards": 8, **kw} for n in names]
MCN = "The real library, compiled with thread instrumentation, runs on our scheduler: every schedule of each program with at most the stated preemptions is executed (choices at locks, atomics, sleeps and joins; data races at any access are reported, so choosing there is enough); memory is sequentially consistent, lock and release/acquire edges are tracked by vector clocks. "
CHECKS = {
 "C01": check([{"name": "framing", "src": "framing.cpp"}],
  "exhaustive enumeration of packet lists x read/write segmentations on the real encoders/decoders",
  REAL + "The stream is a stand-in whose segmentation the explorer chooses."),
 "C02": check(h("value_order"), "exhaustive enumeration of value pairs/triples on the real operators",
  REAL + "Relations are checked on every pair (and triple) of a closed value alphabet covering every type, unset elements and nesting."),
 "C03": check(h("value_convert"), "exhaustive enumeration of (value, type) pairs and text round trips on the real code", REAL),
 "C04": check(h("value_merge"), "exhaustive enumeration of merge operands, indices and paths on the real code", REAL),
 "C05": check(h("domains"), "exhaustive enumeration of (domain, mode, value) on the real code against a numeric model", REAL),
 "C07": check(h("timeline"), "exhaustive enumeration of dates and of tick slicings on the real code against an instant-by-instant model", REAL),
 "C08": check(h("scenario"), "exhaustive enumeration of scenario graphs, conditions and tick slicings executed by the real engine against an instant-by-instant model", REAL + "Scenarios of up to four syncs, whole time units."),
 "C09": check(h("tree", shards=8), "exhaustive exploration of the states of the node tree reachable by edits, each transition executed on the real tree and compared with a model tree", REAL),
 "C10": check(h("paths", shards=8), "exhaustive enumeration of names, address texts, brace expansions and patterns on the real code against independent matchers and expanders", REAL),
 "C11": check(h("parameter", shards=8), "exhaustive exploration of the operation state graph of real parameters, of attribute histories and of all type names, against a reference model", REAL),
 "C12": check(h("callbacks", shards=8), "exhaustive enumeration of container operation histories on the real code against a reference model", REAL),
 "C06": check(h("units", shards=4), "exhaustive enumeration of unit pairs, texts, values and masks on the real code against formulas derived from the definition of each unit", REAL),
 "C13": check(h("graph", shards=8), "exhaustive enumeration of graphs, activations, addresses and edit histories executed by the real schedulers against a reference model", REAL),
 "C14": check(h("ports", shards=4), "exhaustive enumeration of write/registration/tick histories, buffer cuttings and channel layouts on the real ports and devices against a reference model", REAL),
 "C15": check(h("state", shards=4), "exhaustive enumeration of message lists merged, nested and committed by the real code against one-by-one launching", REAL),
 "C16": check(h("curves", shards=8), "exhaustive enumeration of point sets, insertion orders, easings, behaviours, stops and splines evaluated by the real code against independent formulas", REAL),
 "C17": check(h("nodes", shards=8), "exhaustive enumeration of tick cuttings, note lists, edits and jumps run through the real nodes against a reference model", REAL),
 "C18": check(h("expressions", shards=8), "exhaustive enumeration of condition trees, operand pairs and histories on the real code against an independent formula", REAL),
 "C19": check(h("osc", shards=8), "exhaustive enumeration of values, argument lists, address patterns and edit histories sent through the real protocols over an in-memory transport", REAL + "The oscpack library is not part of the repository: a stand-in implements its interface; the transport is in memory."),
 "C20": check(h("presets", shards=8), "exhaustive enumeration of devices, values, preset texts and instance names saved and recalled by the real code", REAL),
 "C21": check(mch("threads"), "stateless exploration of all thread interleavings up to a preemption bound on the real code, under a controlled scheduler with happens-before race detection; results checked for linearizability", MCN),
 "C22": check(mch("limiter"), "stateless exploration of all thread interleavings and wake-ups up to a bound on the real code, in virtual time, under a controlled scheduler with happens-before race detection", MCN),
 "C23": check(h("oscquery", shards=8), "exhaustive enumeration of values, attributes and pairs of them, domains, units, trees and live changes sent by a real server and read by a real client", REAL + "The web socket, HTTP and UDP transports are stand-ins in memory: nothing moves until the explorer lets it."),
 "C24": check(h("oscquery_live", shards=8), "exhaustive enumeration of edit histories, deliveries and multi-client exchanges between real servers and clients over an in-memory transport", REAL + "The web socket, HTTP and UDP transports are stand-ins in memory: nothing moves until the explorer lets it."),
 "C25": check(h("oscquery_requests", shards=8), "exhaustive enumeration of requests and of one-part corruptions of messages against the real server and client", REAL + "The web socket, HTTP and UDP transports are stand-ins in memory: nothing moves until the explorer lets it."),
 "C26": check(mch("clock", lib=ALL), "stateless exploration of all thread interleavings and wake-ups up to a bound on the real code, in virtual time, under a controlled scheduler with happens-before race detection", MCN),
}
NOT_APPLICABLE = {}
