// Presets: what is saved is what is recalled, through every format, for every small device.
#include "valgen.hpp"
#include <ossia/network/base/node_attributes.hpp>
#include <ossia/network/base/node_functions.hpp>
#include <ossia/network/base/protocol.hpp>
#include <ossia/network/generic/generic_device.hpp>
#include <ossia/preset/exception.hpp>
#include <ossia/preset/preset.hpp>
using namespace ossia; using namespace ossia::net; namespace pr = ossia::presets; using vg::str; using ints = std::vector<int>;
struct proto : protocol_base
{
  std::vector<std::string> pushed;
  proto() : protocol_base{flags{}} {}
  bool pull(parameter_base&) override { return true; }
  bool push(const parameter_base& p, const ossia::value& v) override { pushed.push_back(p.get_node().osc_address()); return true; }
  bool push_raw(const full_parameter_data&) override { return true; }
  bool observe(parameter_base&, bool) override { return true; }
  bool update(node_base&) override { return true; }
};
static std::string show(const pr::preset& p) { std::string s; for (auto& [k, v] : p) s += mc::cat(k, "=", str(v), " "); return s; }
// JSON has one kind of array: a vector inside a list comes back as one or the other
static value norm(const value& v, bool top = true)
{
  if (auto l = v.target<std::vector<value>>()) { auto r = *l; for (auto& x : r) x = norm(x, false); return r; }
  if (!top) { auto t = v.get_type(); if (t == val_type::VEC2F || t == val_type::VEC3F || t == val_type::VEC4F) return ossia::convert<std::vector<value>>(v); }
  return v;
}
static bool same(const pr::preset& a, const pr::preset& b) { return show(a) == show(b); }
static std::vector<value> values()
{
  using L = std::vector<value>;
  std::vector<value> r{impulse{}, 0, 1, -7, 2147483647, -2147483647 - 1, 0.f, 1.f, -0.5f, 0.1f, 1e10f, 3e38f, 1e-30f, true, false, 'a', ' ', '"', '\'', '0',
    std::string{}, std::string{"a"}, std::string{"a b"}, std::string{"1"}, std::string{" x "}, std::string{"q\"q"}, std::string{"b\\s"}, std::string{"t\tt"}, std::string{"n\nn"}, std::string{"n\n/a\tint: 3"}, std::string{"\xc3\xa9"}, std::string{"true"}, std::string{"[1]"},
    make_vec(0.f, 1.f), make_vec(1.f, 0.f), make_vec(1.5f, -2.f), make_vec(0.f, 0.f, 0.f), make_vec(1.f, 0.f, 2.f), make_vec(1.f, 2.f, 3.f, 0.f), make_vec(1.f, 2.f, 3.f, 4.5f)};
  for (auto& l : std::vector<L>{{}, {1}, {1.f}, {1.f, 2.f}, {1.f, 0.f}, {0.f, 1.f}, {1, 2}, {1.5f, 2}, {1.5f, std::string{"x"}}, {1.5f, true, 3}, {1.5f, 1.f, std::string{"z"}, 2.f}, {std::string{"x"}, std::string{"y\"]"}}, {true, false}, {1.f, 2.f, 3.f}, {1.f, 2.f, 3.f, 4.f}, {1.f, 2.f, 3.f, 4.f, 5.f}, {L{}, 1}, {L{1, 2}, L{1.f, 2.5f}, L{}}, {1.5f, L{}}, {1.5f, L{2.f}, 1.f}}) r.push_back(l);
  return r;
}
// one address, a tab and a value on each line
static void text(mc::ctx& c)
{
  auto vs = values(); vs.erase(vs.begin() + 0);
  static const char* AD[] = {"/a", "/a b", "/a.1/b-c", "/x_y=(z)~.0", "/", "/:", "/A/b/c/d9"};
  c.in("text", mc::cat("presets of one entry: ", vs.size(), " values x 7 addresses; of two: every pair of values x two pairs of addresses; of none and of three"));
  auto one = [&](const std::string& id, const pr::preset& p) {
    if (!c.want(id)) return; c.state(show(p)); c.step(); c.trace();
    auto t = pr::to_string(p); auto q = pr::from_string(t); c.outcome(mc::cat(q.size(), t.size() % 64));
    c.check(same(p, q), "text preset", mc::cat(id, ": ", show(p), " read back as ", show(q)));
  };
  one("none", {});
  for (size_t i = 0; i < vs.size(); i++) for (auto a : AD) one(mc::cat("one ", i, a), {{a, vs[i]}});
  for (size_t i = 0; i < vs.size(); i++) for (size_t j = 0; j < vs.size(); j++) for (int k = 0; k < 2; k++) one(mc::cat("two ", i, " ", j, k), k ? pr::preset{{"/a", vs[i]}, {"/a/b", vs[j]}} : pr::preset{{"/b.1", vs[i]}, {"/a c", vs[j]}});
  for (size_t i = 0; i < vs.size(); i++) one(mc::cat("three ", i), {{"/a", vs[i]}, {"/b", vs[i]}, {"/a", vs[(i + 7) % vs.size()]}});
}
// a device: some of these nodes, each with nothing, a parameter of one kind…
static const char* NODES[] = {"/a", "/a/b", "/foo.1", "/foo.2/x", "/bar"};
struct kind { const char* n; int type; value v1, v2; access_mode am; bool safe; int prio; };
static const std::vector<kind>& kinds()
{
  static const std::vector<kind> k{
    {"absent", -2, {}, {}, access_mode::BI, false, 0}, {"container", -1, {}, {}, access_mode::BI, false, 0},
    {"int", (int)val_type::INT, 5, 6, access_mode::BI, false, 0}, {"string", (int)val_type::STRING, std::string{"p q"}, std::string{"-"}, access_mode::BI, false, 3},
    {"vec3", (int)val_type::VEC3F, make_vec(1.f, 0.f, 2.f), make_vec(4.f, 5.f, 6.f), access_mode::BI, false, 0}, {"list", (int)val_type::LIST, std::vector<value>{1.5f, std::string{"z"}, 3}, std::vector<value>{9}, access_mode::BI, false, 0},
    {"impulse", (int)val_type::IMPULSE, impulse{}, impulse{}, access_mode::BI, false, 0}, {"get", (int)val_type::INT, 7, 8, access_mode::GET, false, 0}, {"set", (int)val_type::FLOAT, 0.5f, 1.5f, access_mode::SET, false, 0},
    {"safe", (int)val_type::INT, 10, 11, access_mode::BI, true, 0}, {"bool", (int)val_type::BOOL, true, false, access_mode::BI, false, 1}};
  return k;
}
struct dev
{
  proto* p = new proto; generic_device d{std::unique_ptr<protocol_base>(p), "dev"}; std::vector<parameter_base*> ps;
  dev(const ints& w, bool first)
  {
    for (size_t i = 0; i < w.size(); i++)
    {
      auto& k = kinds()[w[i]]; ps.push_back(nullptr); if (k.type == -2) continue;
      auto& n = find_or_create_node(d.get_root_node(), NODES[i]);
      if (k.safe) set_recall_safe(n, true); if (k.prio) set_priority(n, float(k.prio));
      if (k.type >= 0) { ps.back() = n.create_parameter((val_type)k.type); ps.back()->set_access(k.am); ps.back()->set_value(first ? k.v1 : k.v2); }
    }
    p->pushed.clear();
  }
};
static std::vector<std::string> g_told;
static void recall(mc::ctx& c)
{
  auto& K = kinds(); const int N = c.thorough() ? 5 : 4;
  c.in("recall", mc::cat("every device of up to ", N, " nodes (", K.size(), " kinds each) saved and recalled as JSON, text and preset object, on an equal device or on one where a node is missing"));
  mc::words(K.size(), N, [&](const ints& w) {
    for (int miss = -1; miss < N; miss++)
    {
      if (miss >= 0 && (K[w[miss]].type < 0 || (N == 5 && miss > 2))) continue;
      auto id = mc::cat("recall ", mc::join(w), " ", miss); if (!c.want(id)) continue;
      dev a(w, true); ints w2 = w; if (miss >= 0) w2[miss] = 0;
      c.state(id); c.trace();
      auto saved = [&](int i) { auto& k = K[w[i]]; return k.type >= 0 && k.type != (int)val_type::IMPULSE && k.am == access_mode::BI; };
      auto safe = [&](int i) { if (K[w2[i]].safe) return true; return i == 1 && K[w2[0]].safe; };
      for (int f = 0; f < 3; f++)
      {
        dev b(w2, false); g_told.clear(); c.step();
        auto fn = [](node_base* n) { g_told.push_back(n->osc_address()); };
        bool thrown = false, ret = true;
        if (f == 0) ret = pr::apply_json(pr::make_json_preset(a.d.get_root_node()), b.d.get_root_node(), fn);
        else if (f == 1) pr::apply_preset(pr::to_string(pr::make_preset(a.d.get_root_node())), b.d.get_root_node(), fn);
        else { if (miss >= 0) continue; auto p = pr::make_preset(a.d.get_root_node()); pr::apply_preset(b.d.get_root_node(), p, pr::keep_arch_on, {}, true); }
        std::vector<std::string> told;
        for (int i = 0; i < N; i++)
        {
          if (!b.ps[i]) continue;
          // text presets are a flat list: only the node itself decides
          bool rec = saved(i) && !(f == 0 ? safe(i) : f == 1 ? K[w[i]].safe : false);
          if (rec) told.push_back(NODES[i]);
          auto ex = rec ? K[w[i]].v1 : K[w[i]].v2; auto g = b.ps[i]->value();
          c.check(str(g) == str(ex), mc::cat("recall ", f), mc::cat(id, " ", NODES[i], " ", K[w[i]].n, ": ", str(g), " expected ", str(ex)));
          c.check(str(a.ps[i]->value()) == str(K[w[i]].v1), "saving changes nothing", id);
        }
        std::sort(told.begin(), told.end()); auto pu = b.p->pushed; std::sort(pu.begin(), pu.end()); std::sort(g_told.begin(), g_told.end());
        c.check(ret && !thrown, "recall succeeds", id);
        c.check(f == 2 || g_told == told, mc::cat("recall callback ", f), mc::cat(id, " told ", mc::cat(g_told.size()), " expected ", told.size()));
        c.check(pu == told, mc::cat("recall pushes once ", f), mc::cat(id, " pushed ", pu.size(), " expected ", told.size()));
        c.outcome(mc::cat(f, told.size()));
      }
    }
  });
  // each value
  auto vs = values();
  for (size_t i = 0; i < vs.size(); i++)
  {
    auto id = mc::cat("value ", i); if (!c.want(id)) continue; if (vs[i].get_type() == val_type::IMPULSE) continue;
    for (int f = 0; f < 4; f++)
    {
      proto *p1 = new proto, *p2 = new proto; generic_device a{std::unique_ptr<protocol_base>(p1), "a"}, b{std::unique_ptr<protocol_base>(p2), "a"};
      auto mk = [&](generic_device& d) { return create_node(d.get_root_node(), "/g/p q").create_parameter(vs[i].get_type()); };
      auto x = mk(a), y = mk(b); x->set_value(vs[i]); c.state(mc::cat(id, f)); c.step();
      if (f == 0) pr::apply_json(pr::make_json_preset(a.get_root_node()), b.get_root_node());
      else if (f == 1) pr::apply_preset(pr::to_string(pr::make_preset(a.get_root_node())), b.get_root_node());
      else if (f == 2) pr::apply_preset(b.get_root_node(), pr::make_preset(a.get_root_node()), pr::keep_arch_on, {}, true);
      else pr::apply_preset(b.get_root_node(), pr::read_json(pr::write_json("a", pr::make_preset(a.get_root_node())), false), pr::keep_arch_on);
      c.outcome(str(y->value()));
      c.check(f == 1 || f == 2 ? str(y->value()) == str(x->value()) : str(norm(y->value())) == str(norm(x->value())), mc::cat("value recalled ", f), mc::cat(id, ": ", str(y->value()), " expected ", str(x->value())));
    }
  }
}
// the JSON of a preset object: nested objects, arrays for instances
static void json(mc::ctx& c)
{
  static const std::vector<std::vector<std::string>> SETS{{"/a"}, {"/a", "/b"}, {"/a/b", "/a/c"}, {"/a/b", "/c"}, {"/a/b/c", "/a/b/d"}, {"/v.0/x", "/v.1/x"}, {"/v.0/x", "/v.0/y", "/v.1/x"}, {"/v.0/x", "/v.1/y", "/v.2/x"}, {"/g/v.0/x", "/g/v.1/x", "/g/z"}, {"/v.0/w.0/x", "/v.0/w.1/x"}, {"/a b/c-d"}, {"/v.1/x"}, {"/v.0/x", "/v.2/x"}};
  auto vs = values(); std::erase_if(vs, [](auto& v) { return v.get_type() == val_type::IMPULSE || v.get_type() == val_type::CHAR; });
  c.in("json", mc::cat(SETS.size(), " sets of addresses x ", vs.size(), " values: written then read, with and without the device name; texts that are not JSON"));
  for (size_t s = 0; s < SETS.size(); s++) for (size_t i = 0; i < vs.size(); i++) for (int skip = 0; skip < 2; skip++)
  {
    auto id = mc::cat("json ", s, " ", i, skip); if (!c.want(id)) continue; pr::preset p; std::set<std::string> w; int k = 0;
    for (auto& a : SETS[s]) { auto v = vs[(i + 5 * k++) % vs.size()]; p.emplace_back(a, v); w.insert(mc::cat(skip ? "" : "/my dev", a, "=", str(norm(ossia::convert<std::vector<value>>(v))))); }
    auto t = pr::write_json("my dev", p); pr::preset q; std::set<std::string> g; c.step(); c.state(id); c.trace();
    try { q = pr::read_json(t, skip); } catch (const std::exception& e) { c.fail("json unreadable", mc::cat(id, ": ", t)); continue; }
    for (auto& [a, v] : q) g.insert(mc::cat(a, "=", str(norm(ossia::convert<std::vector<value>>(v)))));
    c.outcome(mc::cat(q.size())); c.check(g == w && q.size() == p.size(), "json preset", mc::cat(id, ": ", show(p), " read back as ", show(q)));
  }
  static const char* T[] = {"", "{", "}", "{}", "[]", "[1]", "3", "null", "\"x\"", "{\"a\":}", "{\"a\":1", "{\"a\":1}", "{\"a\":[1,", "{\"a\":{\"b\":1}}x"};
  for (auto t : T)
  {
    auto id = mc::cat("text ", t); if (!c.want(id)) continue; c.state(id); c.step();
    static const std::set<std::string> OK{"{}", "[]", "[1]", "3", "null", "\"x\"", "{\"a\":1}"}; bool ok = OK.count(t);
    for (int skip = 0; skip < 2; skip++) { bool th = false; try { pr::read_json(t, skip); } catch (const ossiaException&) { th = true; } c.check(th != ok, "not JSON", id); }
    dev d({2, 0, 0, 0}, false); c.check(pr::apply_json(t, d.d.get_root_node()) == ok, "not JSON", id);
    auto g = d.ps[0]->value(); c.check(str(g) == str(value{std::string(t) == "{\"a\":1}" ? 1 : 6}), "not JSON", mc::cat(id, ": ", str(g)));
  }
}
// presets applied to devices whose nodes are not those of the preset
static void architecture(mc::ctx& c)
{
  static const char* N[] = {"foo", "bar", "bar.0", "foo.0", "b", "bar.1", "fob"};
  c.in("architecture", "every one-entry preset over 7 names at one or two levels x every set of existing nodes among them, kept or extended, with a function on creation");
  for (int key = 0; key < 7; key++) for (int sub = 0; sub < 2; sub++) for (int m = 0; m < 128; m++) for (int ka = 0; ka < 2; ka++)
  {
    auto id = mc::cat("arch ", N[key], sub ? "/x" : "", " ", m, ka); if (!c.want(id)) continue; c.state(id); c.step(); c.trace();
    proto* p = new proto; generic_device d{std::unique_ptr<protocol_base>(p), "d"}; std::map<std::string, parameter_base*> ps;
    for (int i = 0; i < 7; i++) if (m >> i & 1) { auto n = d.get_root_node().create_child(N[i]); if (sub) n = n->create_child("x"); ps[N[i]] = n->create_parameter(val_type::INT); }
    std::string t = N[key]; // the node itself, or the root instance
    std::string hit = ps.count(t) ? t : (t.size() > 2 && t.substr(t.size() - 2) == ".0" && ps.count(t.substr(0, t.size() - 2))) ? t.substr(0, t.size() - 2) : "";
    int made = 0; bool th = false;
    try { pr::apply_preset(d.get_root_node(), {{mc::cat("/", t, sub ? "/x" : ""), value{42}}}, ka ? pr::keep_arch_on : pr::keep_arch_off, {{std::regex(".*"), [&](const node_base&) { made++; }}}, true); } catch (const std::exception&) { th = true; }
    std::string e; for (auto& [n, q] : ps) { int x = q->value().get<int>(); if (x != (n == hit ? 42 : 0)) e += mc::cat(n, "=", x, " "); }
    c.check(e.empty(), "wrong node", mc::cat(id, ": ", e));
    c.check(th == (hit.empty() && ka), "missing node", mc::cat(id, " thrown ", th));
    c.check(made == (hit.empty() && !ka ? 1 + sub : 0), "creation function", mc::cat(id, " ", made));
    if (hit.empty() && !ka) { auto n = find_node(d.get_root_node(), mc::cat("/", t, sub ? "/x" : "")); c.check(n && n->get_parameter() && n->get_parameter()->value() == value{42}, "created node", id); }
    c.outcome(mc::cat(hit, th, made));
  }
}
// a node that exists but has no value, has children too, or a preset with a device name
static void odd(mc::ctx& c)
{
  c.in("odd", "presets naming containers, nodes with and without children and values, with and without the device name; terminal nodes only or not");
  for (int term = 0; term < 2; term++) for (int par = 0; par < 2; par++) for (int ch = 0; ch < 2; ch++) for (int f = 0; f < 3; f++)
  {
    auto id = mc::cat("odd ", term, par, ch, f); if (!c.want(id)) continue; c.state(id); c.step(); c.trace();
    proto* p = new proto; generic_device d{std::unique_ptr<protocol_base>(p), "d"}; auto n = d.get_root_node().create_child("n"); parameter_base *x = nullptr, *y = nullptr;
    if (par) x = n->create_parameter(val_type::INT); if (ch) y = n->create_child("m")->create_parameter(val_type::INT);
    bool th = false;
    try
    {
      if (f == 0) pr::apply_preset(d.get_root_node(), {{term ? "/d/n" : "/n", value{4}}}, pr::keep_arch_on, {}, !term);
      else if (f == 1) pr::apply_preset("/n\tint: 4", d.get_root_node());
      else pr::apply_json("{\"n\": 4}", d.get_root_node());
    } catch (const ossiaException_InvalidAddress&) { th = true; }
    bool refuse = f == 0 && term && ch;
    c.check(th == refuse, "terminal", id); if (x) { auto v = x->value(); c.check(str(v) == (refuse ? "i0" : "i4"), "set", mc::cat(id, str(v))); } if (y) { auto v = y->value(); c.check(str(v) == "i0", "child untouched", id); }
  }
}
int main(int argc, char** argv)
{
  return mc::ctx::get().run(argc, argv, [](mc::ctx& c) { text(c); recall(c); json(c); architecture(c); odd(c); });
}
