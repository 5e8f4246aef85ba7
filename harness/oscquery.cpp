// OSCQuery: the namespace and every attribute read by a client, at once or while connected.
#include "oscq.hpp"
// ---- part: namespace
struct attr { const char* name; std::function<void(node_base&)> set; bool any; };
static const std::vector<attr>& attrs()
{
  static const std::vector<attr> a{
    {"description", [](auto& n) { set_description(n, std::string("say \"hi\"\\ \n\t\x01 \xC3\xA9")); }, true}, {"tags", [](auto& n) { set_tags(n, tags{"a", "b c", "\"q\""}); }, true}, {"no tag", [](auto& n) { set_tags(n, tags{}); }, true},
    {"refresh rate", [](auto& n) { set_refresh_rate(n, 100); }, true}, {"priority", [](auto& n) { set_priority(n, 1.5f); }, true}, {"negative priority", [](auto& n) { set_priority(n, -2.f); }, true}, {"step", [](auto& n) { set_value_step_size(n, 0.25); }, true},
    {"step 2", [](auto& n) { set_value_step_size(n, 2.); }, true}, {"instances", [](auto& n) { set_instance_bounds(n, instance_bounds{1, 5}); }, true}, {"hidden", [](auto& n) { set_hidden(n, true); }, true}, {"app", [](auto& n) { set_app_name(n, "my app"); set_app_version(n, "1.0"); set_app_creator(n, "me"); }, true},
    {"critical", [](auto& n) { set_critical(n, true); }, false}, {"disabled", [](auto& n) { set_disabled(n, true); }, false}, {"get", [](auto& n) { n.get_parameter()->set_access(access_mode::GET); }, false}, {"set", [](auto& n) { n.get_parameter()->set_access(access_mode::SET); }, false},
    {"low", [](auto& n) { n.get_parameter()->set_bounding(bounding_mode::LOW); }, false}, {"high", [](auto& n) { n.get_parameter()->set_bounding(bounding_mode::HIGH); }, false}, {"clip", [](auto& n) { n.get_parameter()->set_bounding(bounding_mode::CLIP); }, false},
    {"wrap", [](auto& n) { n.get_parameter()->set_bounding(bounding_mode::WRAP); }, false}, {"fold", [](auto& n) { n.get_parameter()->set_bounding(bounding_mode::FOLD); }, false}, {"filter", [](auto& n) { n.get_parameter()->set_repetition_filter(repetition_filter::ON); }, false},
    {"other default", [](auto& n) { static const std::vector<value> u{impulse{}, 17, 9.5f, true, false, 'z', std::string("other"), make_vec(7.f, 8.f), make_vec(7.f, 8.f, 9.f), make_vec(7.f, 8.f, 9.f, 10.f), L{std::string("k"), 2, true}}; auto w = n.get_parameter()->value(); for (auto& x : u) if (x.get_type() == w.get_type() && !(x == w)) set_default_value(n, x); }, false},
    {"default", [](auto& n) { set_default_value(n, n.get_parameter()->value()); }, false}};
  return a;
}
static std::vector<value> values()
{
  std::vector<value> r{impulse{}, 0, 1, -7, 2147483647, INT_MIN, 0.f, 1.f, -1.5f, 0.1f, 3.4e38f, 1e-40f, -0.f, INFINITY, NAN, true, false, 'a', '"', '\\', ' ', std::string(""), std::string("a b"), std::string("q\"\\/\n\x01 \xC3\xA9"), std::string("\0x", 2), std::string("12"), std::string("null"),
    make_vec(0.f, 1.f), make_vec(0.1f, -3.f, 1e9f), make_vec(1.f, 2.f, 3.f, 4.f)};
  return r;
}
static std::vector<value> lists()
{
  std::vector<value> b{1, 2.5f, std::string("s"), true, false, 'c', impulse{}, make_vec(1.f, 2.f), make_vec(1.f, 2.f, 3.f), make_vec(1.f, 2.f, 3.f, 4.f), L{1, std::string("x")}, L{}, L{2.f, L{3}}}, r;
  for (int n = 0; n <= 3; n++) mc::words(n == 3 ? 6 : b.size(), n, [&](const ints& w) { L l; for (int i : w) l.push_back(b[i]); r.push_back(l); });
  return r;
}
static std::string shape(const value& v) { if (!v.valid()) return "none"; if (v.get_type() != VT::LIST) return mc::cat(char("fivVWb?slc"[std::min(9, int(v.get_type()))])); std::string s = "["; for (auto& x : v.get<L>()) s += shape(x); return s + "]"; }
static void roundtrip(mc::ctx& c, const std::string& key, const std::string& id, dev& a)
{
  auto js = text(jw::query_namespace(a.root)); dev b;
  if (!load(b.root, js)) { c.fail(key + " unreadable", id + ": " + js); return; }
  same(c, key, id, a.root, b.root);
}
static void nspace(mc::ctx& c)
{
  c.in("values", "every value of the alphabet (special numbers, quotes, control and non-ASCII characters) and every list of up to 3 elements (nested, vectors), alone in a parameter of its type");
  auto put = [](dev& d, const value& v) -> node_base& { auto n = d.root.create_child("a"); n->create_parameter(v.get_type())->set_value(v); return *n; };
  // what the type tags of OSC say of a list: one element, or two to four numbers, is not a list for them
  auto ambiguous = [](const value& v) { auto s = shape(v); return s == "[ff]" || s == "[fff]" || s == "[ffff]" || v.get<L>().size() == 1 && v.get<L>()[0].get_type() != VT::LIST && s.find('V') == s.npos && s.find('v') == s.npos && s.find('W') == s.npos; };
  for (auto& v : values()) { auto id = "value " + str(v); if (!c.want(id)) continue; c.state(id); c.trace(); dev d; put(d, v); roundtrip(c, "value " + str(v), id, d); }
  for (auto& v : lists()) { if (ambiguous(v)) continue; auto id = "list " + str(v); if (!c.want(id)) continue; c.state(id); c.trace(); dev d; put(d, v); roundtrip(c, "list " + shape(v), id, d); }
  c.in("attributes", "every attribute and every pair of attributes on a parameter of every type, and on a node without parameter");
  std::vector<value> ty{value{}, impulse{}, 3, 0.5f, true, false, 'x', std::string("t"), make_vec(1.f, 2.f), make_vec(1.f, 2.f, 3.f), make_vec(1.f, 2.f, 3.f, 4.f), L{1, std::string("z")}};
  auto& A = attrs();
  for (auto& v : ty) for (int i = -1; i < (int)A.size(); i++) for (int j = i; j < (int)A.size(); j++)
  {
    if (!v.valid() && (i >= 0 && !A[i].any || j >= 0 && !A[j].any)) continue;
    auto id = mc::cat("attr ", str(v), " ", i < 0 ? "" : A[i].name, " ", j < 0 ? "" : A[j].name); if (!c.want(id)) continue;
    c.state(id); c.trace(); dev d; auto& n = v.valid() ? put(d, v) : *d.root.create_child("a"); if (i >= 0) A[i].set(n); if (j >= 0) A[j].set(n); roundtrip(c, mc::cat("attribute ", shape(v), i == j ? "" : i < 0 ? A[j].name : A[i].name), id, d);
  }
  c.in("domains", "every domain of the alphabet on a parameter of each type");
  {
    std::vector<std::pair<value, domain>> ds;
    for (auto& x : std::vector<std::pair<value, value>>{{0, 10}, {-5, {}}, {{}, 7}}) ds.push_back({3, make_domain(x.first, x.second)});
    for (auto& x : std::vector<std::pair<value, value>>{{0.f, 1.f}, {-0.5f, {}}, {{}, 7.f}, {0.1f, 1e9f}}) ds.push_back({0.5f, make_domain(x.first, x.second)});
    ds.push_back({3, domain_base<int>{}}); ds.push_back({3, [] { domain_base<int> d; d.values = {1, 3, 5}; return d; }()}); ds.push_back({0.5f, [] { domain_base<float> d; d.values = {0.5f, 2.f}; return d; }()});
    ds.push_back({std::string("t"), [] { domain_base<std::string> d; d.values = {"t", "u \"v\""}; return d; }()}); ds.push_back({true, domain_base<bool>{}});
    auto vec = [&](auto v, int mask) { using V = decltype(v); vecf_domain<std::tuple_size_v<V>> d; for (size_t i = 0; i < v.size(); i++) { if (mask >> (2 * i) & 1) d.min[i] = float(i) - 1; if (mask >> (2 * i + 1) & 1) d.max[i] = float(i) + 10; } ds.push_back({v, d}); };
    for (int m = 0; m < 16; m++) vec(vec2f{1, 2}, m); for (int m = 0; m < 64; m++) vec(vec3f{1, 2, 3}, m); for (int m = 0; m < 256; m++) vec(vec4f{1, 2, 3, 4}, m);
    auto lst = [&](int a, int b, int e) { vector_domain d; std::vector<value> u{value{}, 0, 1.5f}, w{value{}, 9, 99.5f}; d.min.push_back(u[a % 3]); d.max.push_back(w[a / 3]); d.values.emplace_back(); if (b >= 0) { d.min.push_back(u[b % 3]); d.max.push_back(w[b / 3]); d.values.emplace_back(); } if (e & 1) d.values[0] = {value(1), value(2)}; ds.push_back({L{1, 2.f}, d}); };
    for (int a = 0; a < 9; a++) for (int b = -1; b < 9; b++) lst(a, b, 0); lst(0, 4, 1);
    { vector_domain d; d.min = {0, 1}; ds.push_back({L{1, 2}, d}); vector_domain e; e.max = {5, 6}; ds.push_back({L{1, 2}, e}); }
    for (int m = 0; m < 125; m++) { vector_domain d; int k = m; for (int i = 0; i < 3; i++, k /= 5) { d.min.emplace_back(); d.max.emplace_back(); d.values.emplace_back(); switch (k % 5) { case 1: d.min.back() = i; break; case 2: d.max.back() = 1.5f * i; break; case 3: d.values.back() = {value{i}, value{i + 10}}; break; case 4: d.values.back() = {value{std::string("x") + char('a' + i)}, value{2.5f + i}}; break; } } ds.push_back({L{1, 2, 3}, d}); }
    { domain_base<value> d; ds.push_back({3, d}); d.min = value(1); ds.push_back({3, d}); d.max = value(2); ds.push_back({3, d}); d = {}; d.values = {value(1), value(4)}; ds.push_back({3, d}); }
    auto vv = [&](auto v) { using V = decltype(v); for (size_t m = 1; m < (1u << v.size()); m++) { vecf_domain<std::tuple_size_v<V>> d; for (size_t i = 0; i < v.size(); i++) if (m >> i & 1) d.values[i] = {float(i), float(i) + 0.5f}; ds.push_back({v, d}); } }; vv(vec2f{1, 2}); vv(vec3f{1, 2, 3}); vv(vec4f{1, 2, 3, 4});
    int i = 0; for (auto& [v, d] : ds) { auto id = mc::cat("domain ", i++, " ", str(v), " ", dom(d)); if (!c.want(id)) continue; c.state(id); c.trace(); dev x; auto& n = put(x, v); n.get_parameter()->set_domain(d); roundtrip(c, "domain " + dom(d), id, x); }
  }
  c.in("units", "every unit, with and without a value set, description and range; every byte in each channel of a colour");
  for (size_t ds = 0; ds < 16; ds++) for (size_t k = 0; k < 32; k++)
  {
    unit_t u; try { u = make_unit(ds, k); } catch (...) { continue; } if (!u || u.v.which() != ds) continue;
    for (int m = 0; m < 4; m++)
    {
      auto id = mc::cat("unit ", ds, " ", k, " ", m); if (!c.want(id)) continue; c.state(id); c.trace();
      dev d; auto n = d.root.create_child("a"); auto p = n->create_parameter(matching_type(u)); p->set_unit(u);
      if (m & 1) { auto t = p->get_value_type(); p->set_value(t == VT::FLOAT ? value(0.25f) : t == VT::VEC2F ? value(vec2f{1, 2}) : t == VT::VEC3F ? value(vec3f{1, 2, 3}) : value(vec4f{1, 2, 3, 4})); } if (m & 2) set_description(*n, "d");
      roundtrip(c, "unit", id, d);
    }
  }
  for (int k = 0; k < 4; k++) for (int b = 0; b < 256; b++)
  {
    auto id = mc::cat("colour ", k, " ", b); if (!c.want(id)) continue; c.state(id); c.trace();
    dev d; auto p = d.root.create_child("a")->create_parameter(VT::VEC4F); p->set_unit(rgba8_u{}); vec4f v{1, 2, 3, 4}; v[k] = float(b); p->set_value(v); roundtrip(c, "colour", id, d);
  }
  c.in("extended types", "every extended type on strings and lists");
  for (auto& e : {generic_buffer_type(), float_array_type(), list_type(), filesystem_path_type(), url_type(), std::string("mine")}) for (auto& v : std::vector<value>{std::string("t"), make_vec(1.f, 2.f), make_vec(1.f, 2.f, 3.f), make_vec(1.f, 2.f, 3.f, 4.f), L{1.f, 2.f, 3.f, 4.f, 5.f}, L{1, std::string("a")}, 3})
  { if ((e == float_array_type() || e == list_type()) == (v.get_type() == VT::STRING || v.get_type() == VT::INT) && e != "mine" || e == generic_buffer_type() && v.get_type() != VT::STRING) continue;  auto id = mc::cat("extended ", e, " ", str(v)); if (!c.want(id)) continue; c.state(id); c.trace(); dev d; auto& n = put(d, v); set_extended_type(n, e); roundtrip(c, "extended " + shape(v), id, d); }
  c.in("trees", "every tree of up to 4 nodes, parameters or not, read whole or from any of its nodes");
  for (int n = 1; n <= 4; n++) mc::words(1 << 1, n, [&](const ints& kind) { // parent of i: any j < i
    std::vector<ints> par{{}}; for (int i = 0; i < n; i++) { std::vector<ints> q; for (auto& x : par) for (int j = -1; j < i; j++) { auto y = x; y.push_back(j); q.push_back(y); } par = q; }
    for (auto& pw : par)
    {
      auto id = mc::cat("tree ", mc::join(kind), " ", mc::join(pw)); if (!c.want(id)) continue; c.state(id); c.trace();
      static const char* nm[] = {"a", "b.1", "c d", "e"};
      auto build = [&](dev& d, int off) { std::vector<node_base*> v; for (int i = 0; i < n; i++) { v.push_back((pw[i] < 0 ? d.root : *v[pw[i]]).create_child(nm[i])); if (kind[i]) v.back()->create_parameter(VT::INT)->push_value(i + off); } return v; };
      dev d; auto v = build(d, 0); roundtrip(c, "tree", id, d);
      for (int i = 0; i < n; i++) { dev e; auto w = build(e, 10); if (!load(e.root, text(jw::query_namespace(*v[i])))) { c.fail("subtree unreadable", id); continue; } fields x, y; describe(*v[i], "", x); describe(*w[i], "", y); c.check(x == y, "subtree", id); c.step(); }
    }
  });
}
// ---- part: live attributes
static void live(mc::ctx& c)
{
  std::vector<value> ty{impulse{}, 3, 0.5f, true, false, 'x', std::string("t"), make_vec(1.f, 2.f), make_vec(1.f, 2.f, 3.f), make_vec(1.f, 2.f, 3.f, 4.f), L{1, std::string("z")}};
  c.in("live attributes", "every attribute set, then every other, on a parameter of every type, while a client is connected");
  auto A = attrs(); auto par = [](auto f) { return [f](node_base& n) { f(*n.get_parameter()); }; };
  for (auto& x : std::vector<attr>{{"no description", [](auto& n) { set_description(n, std::nullopt); }, 1}, {"no tags", [](auto& n) { set_tags(n, std::nullopt); }, 1}, {"no refresh rate", [](auto& n) { set_refresh_rate(n, std::nullopt); }, 1}, {"no priority", [](auto& n) { set_priority(n, std::nullopt); }, 1}, {"no step", [](auto& n) { set_value_step_size(n, std::nullopt); }, 1},
    {"no instances", [](auto& n) { set_instance_bounds(n, std::nullopt); }, 1}, {"not hidden", [](auto& n) { set_hidden(n, false); }, 1}, {"no app", [](auto& n) { set_app_name(n, std::nullopt); set_app_version(n, std::nullopt); set_app_creator(n, std::nullopt); }, 1}, {"not critical", [](auto& n) { set_critical(n, false); }, 1}, {"not disabled", [](auto& n) { set_disabled(n, false); }, 1}, {"no default", [](auto& n) { set_default_value(n, std::nullopt); }, 1},
    {"both ways", par([](auto& p) { p.set_access(access_mode::BI); }), 0}, {"free", par([](auto& p) { p.set_bounding(bounding_mode::FREE); }), 0}, {"no filter", par([](auto& p) { p.set_repetition_filter(repetition_filter::OFF); }), 0},
    {"int", par([](auto& p) { p.set_value_type(VT::INT); }), 0}, {"float", par([](auto& p) { p.set_value_type(VT::FLOAT); }), 0}, {"vec3", par([](auto& p) { p.set_value_type(VT::VEC3F); }), 0}, {"string", par([](auto& p) { p.set_value_type(VT::STRING); }), 0}, {"bool", par([](auto& p) { p.set_value_type(VT::BOOL); }), 0},
    {"meter", par([](auto& p) { p.set_unit(meter_u{}); }), 0}, {"rgb", par([](auto& p) { p.set_unit(rgb_u{}); }), 0}, {"rgba8", par([](auto& p) { p.set_unit(rgba8_u{}); p.push_value(make_vec(10.f, 0.f, 255.f, 128.f)); }), 0}, {"no unit", par([](auto& p) { p.set_unit({}); }), 0},
    {"range", par([](auto& p) { auto w = init_value(p.get_value_type()); p.set_domain(make_domain(w, w)); }), 0}, {"float range", par([](auto& p) { p.set_domain(make_domain(-1.f, 2.5f)); }), 0}, {"no range", par([](auto& p) { p.set_domain({}); }), 0}, {"path", [](auto& n) { set_extended_type(n, filesystem_path_type()); }, 1}, {"no extended type", [](auto& n) { set_extended_type(n, std::nullopt); }, 1},
    {"value", par([](auto& p) { static const std::vector<value> u{impulse{}, 17, 9.5f, false, 'z', std::string("other"), make_vec(7.f, 8.f), make_vec(7.f, 8.f, 9.f), make_vec(7.f, 8.f, 9.f, 10.f), L{std::string("k"), 2, true}}; for (auto& x : u) if (x.get_type() == p.get_value_type()) p.push_value(x); }), 0}}) A.push_back(x);
  for (auto& v : ty)
  {
    std::unique_ptr<mirror> m; int n = 0; std::set<int> bad;
    for (int j = -1; j < (int)A.size(); j++) for (int i = 0; i < (int)A.size(); i++)
    {
      auto id = mc::cat("live ", str(v), " ", A[i].name, " ", j < 0 ? "" : A[j].name); if (!c.want(id)) continue; if (getenv("DBG")) fprintf(stderr, "== %s\n", id.c_str()); c.state(id); c.trace();
      auto is = [&](int k, std::initializer_list<const char*> l) { if (k < 0) return false; for (auto x : l) if (!strcmp(A[k].name, x)) return true; return false; };
      if (is(i, {"meter", "rgb", "rgba8"}) && is(j, {"int", "float", "vec3", "string", "bool"})) continue; // the unit decides of the type
      if (is(j, {"path"}) || is(i, {"path"}) && (v.get_type() != VT::STRING || is(j, {"int", "float", "vec3", "bool", "meter", "rgb", "rgba8"}))) continue; // only strings are paths
      if (is(i, {"disabled"}) && is(j, {"value"}) || v.get_type() == VT::IMPULSE && is(j, {"no default"})) continue; // a disabled parameter is not sent, and no default is written as an impulse
      if (bad.count(i) || j >= 0 && bad.count(j)) continue;
      if (!m) m = std::make_unique<mirror>();
      auto nd = m->sroot().create_child("a" + std::to_string(n++)); nd->create_parameter(v.get_type())->push_value(v); m->pump(); A[i].set(*nd); if (j >= 0) { m->pump(); A[j].set(*nd); } m->pump();
      if (!same(c, mc::cat("live ", shape(v), " ", A[i].name, " ", j < 0 ? "" : A[j].name), id, m->sroot(), m->croot()) && j < 0) bad.insert(i);
      m->sroot().clear_children(); m->pump(); c.check(m->croot().children().empty(), "live removed", id);
    }
  }
}
static void body(mc::ctx& c) { nspace(c); live(c); }
MC_MAIN(body)
