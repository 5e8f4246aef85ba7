// Parameters: every sequence of operations against a model; node attributes; type names.
#include "valgen.hpp"
#include <map>
#include <set>
#include <functional>
#include <ossia/network/base/node_attributes.hpp>
#include <ossia/network/base/node_functions.hpp>
#include <ossia/network/base/parameter_data.hpp>
#include <ossia/network/base/protocol.hpp>
#include <ossia/network/common/complex_type.hpp>
#include <ossia/network/dataspace/dataspace_visitors.hpp>
#include <ossia/network/dataspace/detail/list_units.hpp>
#include <ossia/network/domain/domain.hpp>
#include <ossia/network/domain/domain_conversion.hpp>
#include <ossia/network/generic/generic_device.hpp>
#include <ossia/network/generic/generic_parameter.hpp>
#include <ossia/network/value/destination.hpp>
#include <ossia/network/value/value_algorithms.hpp>
#include <ossia/network/value/value_conversion.hpp>
using namespace ossia; using namespace ossia::net; using vg::str;
using VT = val_type;
struct proto : protocol_base
{
  std::vector<std::string> log;
  proto() : protocol_base{flags{}} {}
  bool pull(parameter_base& p) override { log.push_back("pull"); p.set_value(42); return true; }
  bool push(const parameter_base& p, const ossia::value& v) override { log.push_back("push " + str(v)); return true; }
  bool push(const parameter_base& p, ossia::value&& v) override { log.push_back("push " + str(v)); return true; }
  bool push_raw(const full_parameter_data&) override { return true; }
  bool observe(parameter_base&, bool b) override { log.push_back(b ? "observe" : "unobserve"); return true; }
  bool update(node_base&) override { return true; }
};
struct spy { std::vector<std::string> log; void attr(node_base&, const std::string& s) { log.push_back(s); } };
static const std::vector<value> VALS{3, 4, 2.5f, "7", true, make_vec(1.f, 2.f), std::vector<value>{1, "a"}, impulse{}, 'c', 3.f};
static const std::vector<VT> TYPES{VT::FLOAT, VT::INT, VT::VEC2F, VT::VEC3F, VT::IMPULSE, VT::BOOL, VT::STRING, VT::LIST, VT::CHAR};
struct M { VT type = VT::IMPULSE; value v = impulse{}, prev; bool rep = false, dis = false, mut = false, crit = false; int acc = int(access_mode::BI), bound = int(bounding_mode::FREE), dom = 0, unit = 0, cbs = 0;
  std::string key() const { return mc::cat(int(type), str(v), "<", prev.valid() ? str(prev) : "none", rep, dis, mut, crit, acc, bound, dom, unit, cbs); } };
static domain dom_of(int k) { return k == 0 ? domain{} : k == 1 ? make_domain(0.f, 1.f) : make_domain(0, 10); }
static unit_t unit_of(int k) { return k == 0 ? unit_t{} : k == 1 ? unit_t{decibel_u{}} : unit_t{rgb_u{}}; }
static value to(const value& v, const value& cur) { return v.get_type() == cur.get_type() ? v : convert(v, cur); }
static value conv(const value& v, VT t) { return v.get_type() == t ? v : convert(v, t); }
static value init_of(VT t) { switch (t) { case VT::FLOAT: return 0.f; case VT::INT: return 0; case VT::VEC2F: return vec2f{}; case VT::VEC3F: return vec3f{}; case VT::VEC4F: return vec4f{}; case VT::BOOL: return false; case VT::STRING: return std::string{}; case VT::LIST: return std::vector<value>{}; case VT::CHAR: return char{}; default: return impulse{}; } }
struct exp_t { std::vector<std::string> proto, cb; std::string attr; bool attr_must = false; };
struct op { std::string name; std::function<exp_t(M&)> model; std::function<void(parameter_base&, std::vector<std::function<void()>>&)> real; };
struct cbstate { std::vector<std::string> got; std::vector<parameter_base::callback_index> its; };
static std::vector<op> make_ops(cbstate& cs, proto*& pp)
{
  std::vector<op> o;
  for (size_t i = 0; i < VALS.size(); i++) for (int how = 0; how < 6; how++)
    o.push_back({mc::cat("set", how, " ", i), [=](M& m) { exp_t e; auto r = to(VALS[i], m.v); m.prev = m.v; m.v = r; if (how < 4) for (int k = 0; k < m.cbs; k++) e.cb.push_back(str(r)); if (how == 2 || how == 3) e.proto.push_back("push " + str(r)); return e; },
      [=](parameter_base& p, auto&) { value v = VALS[i]; switch (how) { case 0: { auto r = p.set_value((const value&)v); mc::ctx::get().check(str(r) == str(p.value()), "ret", "set_value returns something else than the value set"); break; } case 1: p.set_value(std::move(v)); break; case 2: p.push_value((const value&)v); break; case 3: p.push_value(std::move(v)); break; case 4: p.set_value_quiet((const value&)v); break; case 5: p.set_value_quiet(std::move(v)); } if (how % 2 == 0) mc::ctx::get().check(str(v) == str(VALS[i]), "stolen", "the caller's value was changed"); }});
  o.push_back({"push", [](M& m) { exp_t e; e.proto.push_back("push " + str(m.v)); return e; }, [](parameter_base& p, auto&) { p.push_value(); }});
  o.push_back({"invalid", [](M&) { return exp_t{}; }, [&](parameter_base& p, auto&) { p.push_value(value{}); p.set_value(value{}); p.set_value_quiet(value{}); cs.got.clear(); }});
  o.push_back({"fetch", [](M& m) { exp_t e; auto r = to(value{42}, m.v); m.prev = m.v; m.v = r; for (int k = 0; k < m.cbs; k++) e.cb.push_back(str(r)); e.proto.push_back("pull"); return e; }, [](parameter_base& p, auto&) { auto v = p.fetch_value(); mc::ctx::get().check(str(v) == str(p.value()), "fetch", "fetch_value"); }});
  for (auto t : TYPES) o.push_back({mc::cat("type ", int(t)), [=](M& m) { exp_t e; e.attr = std::string(text_value_type()); e.attr_must = m.type != t; m.type = t; m.v = init_of(t); return e; }, [=](parameter_base& p, auto&) { p.set_value_type(t); }});
  for (int k = 0; k < 3; k++) o.push_back({mc::cat("unit ", k), [=](M& m) { exp_t e; e.attr = std::string(text_unit()); e.attr_must = m.unit != k; m.unit = k; if (k) { m.type = k == 1 ? VT::FLOAT : VT::VEC3F; m.v = conv(m.v, m.type); } return e; }, [=](parameter_base& p, auto&) { p.set_unit(unit_of(k)); }});
  for (int k = 0; k < 3; k++) o.push_back({mc::cat("domain ", k), [=](M& m) { exp_t e; e.attr = std::string(text_domain()); e.attr_must = false; m.dom = k; return e; }, [=](parameter_base& p, auto&) { p.set_domain(dom_of(k)); }});
  for (int k : {int(access_mode::GET), int(access_mode::SET), int(access_mode::BI)}) o.push_back({mc::cat("access ", k), [=](M& m) { exp_t e; e.attr = std::string(text_access_mode()); e.attr_must = m.acc != k; m.acc = k; return e; }, [=](parameter_base& p, auto&) { p.set_access(access_mode(k)); }});
  for (int k : {int(bounding_mode::CLIP), int(bounding_mode::FREE)}) o.push_back({mc::cat("bounding ", k), [=](M& m) { exp_t e; e.attr = std::string(text_bounding_mode()); if (m.type != VT::BOOL) { e.attr_must = m.bound != k; m.bound = k; } return e; }, [=](parameter_base& p, auto&) { p.set_bounding(bounding_mode(k)); }});
  for (bool b : {true, false})
  {
    o.push_back({mc::cat("rep ", b), [=](M& m) { exp_t e; e.attr = std::string(text_repetition_filter()); e.attr_must = m.rep != b; m.rep = b; return e; }, [=](parameter_base& p, auto&) { p.set_repetition_filter(b ? repetition_filter::ON : repetition_filter::OFF); }});
    o.push_back({mc::cat("dis ", b), [=](M& m) { exp_t e; e.attr = std::string(text_disabled()); e.attr_must = m.dis != b; m.dis = b; return e; }, [=](parameter_base& p, auto&) { p.set_disabled(b); }});
    o.push_back({mc::cat("mut ", b), [=](M& m) { exp_t e; e.attr = std::string(text_muted()); e.attr_must = m.mut != b; m.mut = b; return e; }, [=](parameter_base& p, auto&) { p.set_muted(b); }});
    o.push_back({mc::cat("crit ", b), [=](M& m) { exp_t e; e.attr = std::string(text_critical()); e.attr_must = m.crit != b; m.crit = b; return e; }, [=](parameter_base& p, auto&) { p.set_critical(b); }});
  }
  o.push_back({"cb+", [](M& m) { exp_t e; if (m.cbs++ == 0) e.proto.push_back("observe"); return e; }, [&](parameter_base& p, auto&) { cs.its.push_back(p.add_callback([&cs](const value& v) { cs.got.push_back(str(v)); })); }});
  o.push_back({"cb-", [](M& m) { exp_t e; if (m.cbs && --m.cbs == 0) e.proto.push_back("unobserve"); return e; }, [&](parameter_base& p, auto&) { if (!cs.its.empty()) { p.remove_callback(cs.its.back()); cs.its.pop_back(); } }});
  o.push_back({"cb0", [](M& m) { exp_t e; if (m.cbs) e.proto.push_back("unobserve"); m.cbs = 0; return e; }, [&](parameter_base& p, auto&) { p.callbacks_clear(); cs.its.clear(); }});
  return o;
}
static void operations(mc::ctx& c)
{
  const int depth = c.thorough() ? 5 : 3; const size_t cap = c.thorough() ? 30000 : 2500;
  cbstate cs; proto* pp{};
  auto ops = make_ops(cs, pp);
  c.in("operations", mc::cat("each of ", ops.size(), " operations from every state of a parameter reachable by ", depth, " of them (the first ", cap, " states in breadth-first order)"));
  std::vector<std::pair<std::vector<int>, M>> level{{{}, M{}}}; std::set<std::string> seen; size_t done = 0;
  for (int d = 0; d <= depth && !level.empty(); d++)
  {
    decltype(level) next;
    for (auto& [seq, m0] : level)
    {
      if (done++ >= cap) break;
      for (size_t k = 0; k < ops.size(); k++)
      {
        M m = m0; auto e = ops[k].model(m); auto s2 = seq; s2.push_back(k);
        if (m.cbs <= 2 && seen.insert(m.key()).second) next.push_back({s2, m});
        if (m.cbs > 2) continue;
        std::string id = "o "; for (int x : s2) id += ops[x].name + ";";
        if (!c.want(id)) continue;
        c.state(m.key()); c.trace(); c.step();
        spy sp; auto pr = std::make_unique<proto>(); pp = pr.get(); generic_device dev{std::move(pr), "d"}; cs.its.clear();
        auto& n = create_node(dev, "x"); auto& p = *n.create_parameter(VT::IMPULSE); std::vector<std::function<void()>> u;
        for (int x : seq) ops[x].real(p, u);
        pp->log.clear(); cs.got.clear(); dev.on_attribute_modified.connect<&spy::attr>(&sp);
        ops[k].real(p, u);
        auto J = [](const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += x + "|"; return s; };
        c.outcome(mc::cat(J(pp->log), J(cs.got), J(sp.log)));
        c.check(str(p.value()) == str(m.v) && p.get_value_type() == m.type, "value " + id, mc::cat("holds ", str(p.value()), " of type ", int(p.get_value_type()), " expected ", str(m.v), " ", int(m.type)));
        c.check(pp->log == e.proto, "proto " + id, mc::cat("protocol saw ", J(pp->log), " expected ", J(e.proto)));
        c.check(cs.got == e.cb, "cb " + id, mc::cat("callbacks got ", J(cs.got), " expected ", J(e.cb)));
        if (e.attr.empty()) c.check(sp.log.empty(), "attr " + id, J(sp.log));
        else c.check((!e.attr_must || sp.log.size() == 1) && sp.log.size() <= 1 && (sp.log.empty() || sp.log[0] == e.attr), "attr " + id, mc::cat("notified ", J(sp.log), " expected ", e.attr));
        c.check(int(p.get_access()) == m.acc && int(p.get_bounding()) == m.bound && (p.get_repetition_filter() == repetition_filter::ON) == m.rep && p.get_disabled() == m.dis && p.get_muted() == m.mut && p.get_critical() == m.crit && p.get_unit() == unit_of(m.unit) && p.callback_count() == (size_t)m.cbs, "flags " + id, "access, bounding, filter, flags, unit or callback count");
        if (m.dom && (m.type == VT::FLOAT || m.type == VT::INT)) { auto mn = p.get_domain().get_min(), mx = p.get_domain().get_max(); value em = conv(m.dom == 1 ? value{0.f} : value{0}, m.type), ex = conv(m.dom == 1 ? value{1.f} : value{10}, m.type); bool last = ops[k].name.compare(0, 6, "domain") == 0; if (last) c.check(str(mn) == str(em) && str(mx) == str(ex), "domain " + id, mc::cat("bounds ", str(mn), " ", str(mx))); }
        for (auto& v : VALS) { bool f = m.dis || m.mut || (m.rep && v == m.prev); if (p.filter_value(v) != f) { c.fail("filter " + id, mc::cat("filter of ", str(v), " is ", !f, ", previous value ", m.prev.valid() ? str(m.prev) : "none")); break; } }
        c.check(get_muted(n) == m.mut && get_disabled(n) == m.dis && get_critical(n) == m.crit && int(*get_access_mode(n)) == m.acc && int(*get_bounding_mode(n)) == m.bound && *get_value_type(n) == m.type && str(clone_value(n)) == str(m.v) && get_unit(n) == unit_of(m.unit), "node " + id, "attributes read through the node");
        for (int i = 0; i < 3; i++) c.check(str(p.value(destination_index{(char)i})) == str(get_value_at_index(m.v, destination_index{(char)i})), "idx " + id, "value at index");
      }
    }
    level = std::move(next);
  }
}
struct attr { std::string key; std::vector<std::function<void(node_base&)>> set; std::function<std::string(const node_base&)> get; std::vector<std::string> val; std::function<void(extended_attributes&, const node_base&)> copy; };
template <typename T, typename S, typename G, typename P> static attr opt(std::string key, S s, G g, std::vector<T> vs, P pr)
{
  attr a; a.key = key; a.val.push_back("-"); a.set.push_back([=](node_base& n) { s(n, std::optional<T>{}); });
  for (auto& v : vs) { a.val.push_back(pr(v)); a.set.push_back([=](node_base& n) { s(n, std::optional<T>{v}); }); }
  a.get = [=](const node_base& n) { auto o = g(n); return o ? pr(*o) : std::string("-"); };
  return a;
}
static void attributes(mc::ctx& c)
{
  std::vector<attr> A; auto S = [](const std::string& s) { return s; }; auto N = [](auto x) { return mc::cat(x); };
#define OPT(T, name, KEY_, pr, ...) A.push_back(opt<T>(std::string(text_##name()), [](node_base& n, std::optional<T> v) { set_##name(n, std::move(v)); }, [](const node_base& n) { return get_##name(n); }, std::vector<T>{__VA_ARGS__}, pr))
  OPT(ossia::net::tags, tags, "tags", ([](const ossia::net::tags& t) { std::string s; for (auto& x : t) s += x + ","; return s; }), ossia::net::tags{"a", "b"}, ossia::net::tags{"c"});
  OPT(description, description, "description", S, "one", "two");
  OPT(float, priority, "priority", N, 0.f, 2.5f); OPT(int32_t, refresh_rate, "refreshRate", N, 0, 30); OPT(double, value_step_size, "valueStepsize", N, 0.5, 2.);
  OPT(app_name, app_name, "appName", S, "x", "y"); OPT(app_version, app_version, "appVersion", S, "x"); OPT(app_creator, app_creator, "appCreator", S, "x");
  OPT(instance_bounds, instance_bounds, "instanceBounds", ([](const instance_bounds& b) { return mc::cat(b.min_instances, "..", b.max_instances); }), instance_bounds(0, 10), instance_bounds(3, 3));
#define FLAG(name, KEY_) { attr a; a.key = std::string(text_##name()); a.val = {"-", "on"}; a.set = {[](node_base& n) { set_##name(n, false); }, [](node_base& n) { set_##name(n, true); }}; a.get = [](const node_base& n) { return std::string(get_##name(n) ? "on" : "-"); }; A.push_back(a); }
  FLAG(hidden, "hidden") FLAG(zombie, "zombie") FLAG(recall_safe, "recallSafe")
  { attr a; a.key = std::string(text_default_value()); a.val = {"-", "i3", "'x'", "[i1,f2.5]"}; a.set = {[](node_base& n) { set_default_value(n, std::nullopt); }, [](node_base& n) { set_default_value(n, 3); }, [](node_base& n) { set_default_value(n, "x"); }, [](node_base& n) { value v = std::vector<value>{1, 2.5f}; set_default_value(n, v); }}; a.get = [](const node_base& n) { auto o = get_default_value(n); return o ? str(*o) : std::string("-"); }; A.push_back(a); }
  const int L = c.thorough() ? 4 : 3; std::vector<std::pair<int, int>> O; for (size_t i = 0; i < A.size(); i++) for (size_t k = 0; k < A[i].set.size(); k++) O.push_back({i, k});
  c.in("attributes", mc::cat("every sequence of ", L, " changes among ", O.size(), " (", A.size(), " attributes)"));
  mc::words(O.size(), L, [&](const std::vector<int>& w) {
    std::string id = "a "; for (int x : w) id += mc::cat(A[O[x].first].key, "=", O[x].second, ";");
    if (!c.want(id)) return; c.trace();
    static generic_device dev{"d"}; auto& n = dev.get_root_node(); extended_attributes none; n.set_extended_attributes(none);
    std::vector<int> m(A.size());
    for (int x : w)
    {
      auto [i, k] = O[x]; spy sp; dev.on_attribute_modified.connect<&spy::attr>(&sp); A[i].set[k](n); dev.on_attribute_modified.disconnect<&spy::attr>(&sp); c.step();
      c.check(m[i] == k ? sp.log.empty() : sp.log == std::vector<std::string>{A[i].key}, "note " + id, mc::cat("changing ", A[i].key, " notified ", sp.log.size(), " times"));
      m[i] = k;
    }
    bool ok = true; for (size_t i = 0; i < A.size(); i++) if (A[i].get(n) != A[i].val[m[i]]) { ok = false; c.fail("get " + id, mc::cat(A[i].key, " reads ", A[i].get(n), " expected ", A[i].val[m[i]])); }
    c.state(mc::join(m)); c.outcome(mc::join(m));
    // the attributes follow a copy
    auto& o = *dev.get_root_node().create_child("o"); o.set_extended_attributes(n); for (size_t i = 0; i < A.size(); i++) c.check(A[i].get(o) == A[i].val[m[i]], "copy " + id, A[i].key); dev.get_root_node().clear_children();
  });
}
static void types(mc::ctx& c)
{
  c.in("types", "every type name, unit name, value type, unit and extended type; creation and update of a parameter of any other type");
  std::map<std::string, VT> names;
  auto add = [&](VT t, std::initializer_list<const char*> l) { for (auto s : l) names[s] = t; };
  add(VT::INT, {"int", "integer", "int32", "i32", "long"}); add(VT::FLOAT, {"float", "single", "number", "num", "decimal", "float32", "real", "x", "scale"}); add(VT::STRING, {"string", "str", "symbol", "url", "path", "file", "folder", "blob", "buffer", "filepath"});
  add(VT::BOOL, {"bool", "boolean"}); add(VT::CHAR, {"char", "character", "byte"}); add(VT::VEC2F, {"vec2", "vec2f", "vector2", "size"}); add(VT::VEC3F, {"vec3", "vec3f", "vector3"}); add(VT::VEC4F, {"vec4", "vec4f", "vector4", "rect"}); add(VT::IMPULSE, {"pulse", "impulse", "bang", "infinitum"});
  add(VT::LIST, {"list", "array", "tuple", "floatarray", "intlist", "strings", "any"}); // extended types with capitals (floatArray...) are looked up in lower case
  std::map<std::string, unit_t> units; detail::list_units([&](std::string e, unit_t u) { units[e] = u; names[e] = matching_type(u); });
  for (auto& [s, t] : names) for (int up = 0; up < 2; up++) for (int old = -1; old < (int)TYPES.size(); old++)
  {
    auto id = mc::cat("t ", s, up, " ", old); if (!c.want(id)) continue; c.state(id); c.trace(); c.step();
    auto txt = s; if (up) for (auto& ch : txt) ch = toupper(ch);
    generic_device d{"d"}; auto& n = create_node(d, "n"); if (old >= 0) n.create_parameter(TYPES[old])->push_value(VALS[old]);
    auto p = try_setup_parameter(txt, n); auto q = old < 0 ? create_parameter(d.get_root_node(), "n", txt) : nullptr; auto data = default_parameter_for_type(s);
    c.check(p && p == n.get_parameter() && p->get_value_type() == t && p->value().get_type() == t && (old >= 0 || (q && q->get_value_type() == t && q->get_node().get_name() == "n.1")) && data && underlying_type(data->type) == t, id, mc::cat("gives ", p ? int(p->get_value_type()) : -1, " expected ", int(t)));
    for (auto& [un, u] : units) if (un == s && p) c.check(p->get_unit() == u, "u " + id, "unit");
    if (data) { generic_device d2{"d"}; auto& k = create_node(d2, "k"); generic_parameter gp{*data, k}; c.check(gp.get_value_type() == t && gp.value().get_type() == t, "data " + id, mc::cat("from data: ", int(gp.get_value_type()))); auto kp = k.create_parameter(old < 0 ? VT::INT : TYPES[old]); update_parameter_type(data->type, *kp); c.check(kp->get_value_type() == t && kp->value().get_type() == t, "upd " + id, mc::cat("updated: ", int(kp->get_value_type()))); }
  }
  for (auto s : {"", "nope", "flo at", "gain.nope"}) if (c.want(mc::cat("t? ", s))) { c.trace(); generic_device d{"d"}; c.check(!default_parameter_for_type(s) && !try_setup_parameter(s, create_node(d, "n")) && !find_node(d, "n")->get_parameter(), mc::cat("t? ", s), "an unknown type creates a parameter"); }
}
static void body(mc::ctx& c) { operations(c); attributes(c); types(c); }
MC_MAIN(body)
