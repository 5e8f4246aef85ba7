// OSCQuery: what a server answers, and what both do of malformed messages.
#include "oscq.hpp"
static node_base* at(node_base& r, const char* p) { return find_node(r, p); }
// ---- part: requests
struct reply { int status; std::string body; };
static std::string encode(const std::string& s, bool all) { std::string r; for (char ch : s) if (all && ch != '/' || ch == ' ' || ch == '%' || ch == '?' || ch == '#') { char b[8]; std::snprintf(b, 8, "%%%02X", (unsigned char)ch); r += b; } else r += ch; return r; }
static reply get(mirror& m, const std::string& path)
{
  auto& f = websocketpp::FakeWs::get(); auto r = std::make_shared<websocketpp::FakeWs::http>(); reply out{-1, ""};
  r->port = m.ws; r->path = path; r->reply = [&](int st, std::string b) { out = {st, b}; };
  m.forget(); f.requests.push_back(r); f.step(-1); f.step(-1); return out;
}
//! the same through a websocket: what the server answers to one client
static std::string ws(mirror& m, const std::string& text, int op = 1, bool* replied = nullptr)
{
  auto& f = websocketpp::FakeWs::get(); std::shared_ptr<websocketpp::fake_connection> k; for (auto& x : f.conns) if (x->client && x->server) k = x; std::string out;
  k->to_client.clear(); k->to_server.push_back(std::make_shared<websocketpp::fake_message>(websocketpp::fake_message{websocketpp::frame::opcode::value(op), text})); f.step(2 * k->number);
  if (!k->to_client.empty()) { out = k->to_client.front()->data; if (replied) *replied = true; } k->to_client.clear(); return out;
}
static std::string list(const std::vector<std::string>& v) { std::string r; for (auto& x : v) r += x + "; "; return r; }
struct asked { std::vector<std::string> v; void add(std::string p, const parameter_data& d) { v.push_back("add " + p + " " + d.name); data = d; } void rem(std::string p, std::string n) { v.push_back("remove " + p + " " + n); } void ren(std::string p, std::string n) { v.push_back("rename " + p + " " + n); } parameter_data data; };
static void tree(node_base& r)
{
  auto& a = create_node(r, "/a"); a.create_parameter(VT::INT)->push_value(5); set_description(a, "the \"a\""); set_tags(a, tags{"t", "u"}); a.get_parameter()->set_domain(make_domain(0, 10)); set_refresh_rate(a, 50); set_priority(a, 2.f); set_value_step_size(a, 0.5); set_critical(a, true); set_hidden(a, true); set_instance_bounds(a, instance_bounds{1, 4}); set_default_value(a, 3); a.get_parameter()->set_bounding(bounding_mode::CLIP); a.get_parameter()->set_access(access_mode::GET); a.get_parameter()->set_repetition_filter(repetition_filter::ON); set_app_name(a, "n"); set_app_version(a, "v"); set_app_creator(a, "c");
  create_node(r, "/a/x").create_parameter(VT::STRING)->push_value(std::string("s")); r.create_child("c d")->create_parameter(VT::FLOAT)->push_value(0.5f);
  auto& u = create_node(r, "/u.1"); u.create_parameter(VT::VEC3F)->set_unit(rgb_u{}); u.get_parameter()->push_value(make_vec(0.1f, 0.2f, 0.3f)); set_extended_type(create_node(r, "/f"), filesystem_path_type()); at(r, "/f")->create_parameter(VT::STRING); create_node(r, "/e/g").create_parameter(VT::IMPULSE); create_node(r, "/l").create_parameter(VT::LIST)->push_value(L{1, std::string("z")}); set_disabled(*at(r, "/l"), true);
}
static const char* keys[] = {"FULL_PATH", "TYPE", "VALUE", "RANGE", "CLIPMODE", "ACCESS", "DESCRIPTION", "TAGS", "UNIT", "REFRESH_RATE", "PRIORITY", "STEP_SIZE", "INSTANCE_BOUNDS", "CRITICAL", "HIDDEN", "DISABLED", "EXTENDED_TYPE", "REPETITION_FILTER", "DEFAULT_VALUE", "APP_NAME", "APP_VERSION", "APP_CREATOR"};
static std::string dump(const rapidjson::Value& v) { rapidjson::StringBuffer b; rapidjson::Writer<rapidjson::StringBuffer> w{b}; v.Accept(w); return b.GetString(); }
static void requests(mc::ctx& c)
{
  mirror m; tree(m.sroot()); m.pump(); asked q; m.s->on_add_node_requested.connect<&asked::add>(q); m.s->on_remove_node_requested.connect<&asked::rem>(q); m.s->on_rename_node_requested.connect<&asked::ren>(q);
  std::vector<std::string> paths; std::function<void(node_base&, std::string)> walk = [&](node_base& n, std::string p) { paths.push_back(p.empty() ? "/" : p); for (auto& k : n.children()) walk(*k, p + "/" + k->get_name()); }; walk(m.sroot(), "");
  c.in("requests", "every path of a tree (plain, encoded), every attribute and pair of attributes of every node, host information, listening, requests to add, remove and rename, by HTTP and by websocket");
  auto node = [&](const std::string& p) -> node_base& { return p == "/" ? m.sroot() : *at(m.sroot(), p.c_str()); };
  for (auto& p : paths) for (int e = 0; e < 3; e++)
  {
    auto id = mc::cat("get ", p, " ", e); if (!c.want(id)) continue; c.state(id); c.trace(); c.step();
    reply r; if (e < 2) r = get(m, encode(p, e)); else r = {200, ws(m, encode(p, 0))};
    c.check(r.status == 200, "get status", id + mc::cat(" ", r.status)); dev d; tree(d.root); auto& x = p == "/" ? d.root : *at(d.root, p.c_str());
    for (auto& k : x.children_copy()) if (k) ; x.clear_children(); c.check(load(d.root, r.body), "get unreadable", id + r.body); same(c, "get", id, m.sroot(), d.root);
  }
  for (auto p : {"/z", "/a/z", "/a/x/y", "/c", "/u", "a", ""}) { auto id = mc::cat("get unknown ", p); if (!c.want(id)) continue; c.state(id); c.trace(); c.step(); auto r = get(m, p); if (*p == '/') c.check(r.status == 404 || r.status == 400, "get unknown", mc::cat(id, " ", r.status, " ", r.body)); }
  for (auto& p : paths) for (auto q : {"FOO", "FOO&DESCRIPTION", "FULL_PATH&FOO", "value", "FULL_PATH&NO_SUCH&TYPE"}) { auto id = mc::cat("unknown attribute ", p, " ", q); if (!c.want(id)) continue; c.state(id); c.trace(); c.step(); auto r = get(m, encode(p, 0) + "?" + q); c.check(r.status == 400, "unknown attribute", mc::cat(id, " ", r.status, " ", r.body)); }
  for (auto& p : paths)
  {
    rapidjson::Document full; { auto t = text(jw::query_namespace(node(p))); full.Parse(t.c_str()); }
    for (int i = 0; i < (int)std::size(keys); i++) for (int j = i; j < (int)std::size(keys); j++) for (int w = 0; w < 2; w++)
    {
      auto id = mc::cat("attribute ", p, " ", keys[i], " ", keys[j], w ? " ws" : ""); if (!c.want(id)) continue; c.state(id); c.trace(); c.step();
      auto url = encode(p, 0) + "?" + keys[i] + (i == j ? std::string() : std::string("&") + keys[j]); reply r; if (w) r = {200, ws(m, url)}; else r = get(m, url);
      rapidjson::Document d; if (r.body.empty() && (!full.HasMember(keys[i]) || !full.HasMember(keys[j]))) continue; d.Parse(r.body.c_str()); if (r.status != 200 || d.HasParseError() || !d.IsObject()) { c.fail(mc::cat("attribute unreadable ", keys[i]), mc::cat(id, " ", r.status, " ", r.body)); continue; }
      for (auto k : {keys[i], keys[j]})
      {
        if (node(p).get_parameter() && node(p).get_parameter()->get_unit() && (!strcmp(k, "UNIT") || !strcmp(k, "EXTENDED_TYPE"))) continue; // said in two ways
        auto a = full.FindMember(k), b = d.FindMember(k); std::string x = a == full.MemberEnd() ? "none" : dump(a->value), y = b == d.MemberEnd() ? "none" : dump(b->value);
        if (x == "none" && (y == "null" || y == "false" || y == "\"none\"")) y = x; c.check(x == y, mc::cat("attribute ", k), mc::cat(id, ": ", y, " not ", x));
      }
    }
  }
  // requests that change something: they reach the application, once, when commands run
  std::vector<std::pair<std::string, std::string>> rq; for (auto p : {"/", "/a", "/c d"}) { rq.push_back({mc::cat(p, "?ADD_NODE=n"), mc::cat("add ", p, " n")}); rq.push_back({mc::cat(p, "?REMOVE_NODE=x"), mc::cat("remove ", p, " x")}); rq.push_back({mc::cat(p, "?RENAME_NODE=new name"), mc::cat("rename ", p, " new name")}); }
  for (auto& [url, want] : rq) for (int w = 0; w < 2; w++)
  {
    auto id = mc::cat("request ", url, w); if (!c.want(id)) continue; c.state(id); c.trace(); c.step(); q.v.clear();
    auto u = url; for (size_t i; (i = u.find(' ')) != u.npos;) u.replace(i, 1, "%20"); if (w) ws(m, u); else get(m, u); m.sp->run_commands(); m.sp->run_commands(); c.check(q.v == std::vector<std::string>{want}, "request " + want.substr(0, 4), id + ": " + list(q.v));
  }
  if (c.want("client requests"))
  {
    c.state("client requests"); c.trace(); q.v.clear(); m.cs[0]->p->request_add_node(*at(m.croot(), "/a"), parameter_data{"n m"}); m.cs[0]->p->request_remove_node(*at(m.croot(), "/a/x")); m.cs[0]->p->request_rename_node(*at(m.croot(), "/c d"), "k l"); m.pump(); c.check(q.v == std::vector<std::string>{"add /a n m", "remove /a x", "rename /c d k l"}, "client requests", list(q.v));
  }
  // what to add comes with its attributes
  std::vector<std::tuple<std::string, std::string, std::function<bool(const parameter_data&)>>> at_{
    {"ACCESS", "1", [](auto& d) { return d.access == access_mode::GET; }}, {"CLIPMODE", "both", [](auto& d) { return d.bounding == bounding_mode::CLIP; }}, {"CLIPMODE", "fold", [](auto& d) { return d.bounding == bounding_mode::FOLD; }}, {"CLIPMODE", "low", [](auto& d) { return d.bounding == bounding_mode::LOW; }}, {"CLIPMODE", "high", [](auto& d) { return d.bounding == bounding_mode::HIGH; }}, {"CLIPMODE", "wrap", [](auto& d) { return d.bounding == bounding_mode::WRAP; }}, {"CLIPMODE", "none", [](auto& d) { return d.bounding == bounding_mode::FREE; }},
    {"REPETITION_FILTER", "true", [](auto& d) { return d.rep_filter == repetition_filter::ON; }}, {"REFRESH_RATE", "100", [](auto& d) { return get_refresh_rate(d.extended) == 100; }}, {"PRIORITY", "1.5", [](auto& d) { return get_priority(d.extended) == 1.5f; }}, {"STEP_SIZE", "0.25", [](auto& d) { return get_value_step_size(d.extended) == 0.25; }}, {"HIDDEN", "true", [](auto& d) { return get_hidden(d.extended); }}, {"CRITICAL", "true", [](auto& d) { return d.critical == true; }}, {"DISABLED", "T", [](auto& d) { return d.disabled == true; }}, {"DESCRIPTION", "a%20b", [](auto& d) { return get_description(d.extended) == std::string("a b"); }}, {"UNIT", "color.rgb", [](auto& d) { return d.unit == rgb_u{}; }}, {"EXTENDED_TYPE", "filepath", [](auto& d) { return get_optional_attribute<std::string>(d.extended, text_extended_type()) == std::string("filepath"); }}, {"TYPE", "f", [](auto& d) { return d.type == complex_type{VT::FLOAT}; }}, {"TYPE", "s", [](auto& d) { return d.type == complex_type{VT::STRING}; }}};
  for (size_t i = 0; i < at_.size(); i++) for (size_t j = 0; j < at_.size(); j++)
  {
    auto& [k, v, f] = at_[i]; auto& [k2, v2, f2] = at_[j]; if (i != j && k == k2) continue; auto id = mc::cat("add with ", k, v, k2, v2); if (!c.want(id)) continue; c.state(id); c.trace(); c.step(); q.v.clear();
    get(m, mc::cat("/a?ADD_NODE=n&", k, "=", v, i == j ? "" : mc::cat("&", k2, "=", v2))); m.sp->run_commands(); c.check(q.v == std::vector<std::string>{"add /a n"} && f(q.data), "add with " + k, id); c.check(f2(q.data), "add with " + k2, id);
  }
  for (auto& p : paths) for (int w = 0; w < 2; w++) { auto id = mc::cat("host ", p, w); if (!c.want(id)) continue; c.state(id); c.trace(); c.step(); auto u = encode(p, 0) + "?HOST_INFO"; auto b = w ? ws(m, u) : get(m, u).body; rapidjson::Document d; d.Parse(b.c_str()); c.check(!d.HasParseError() && d.IsObject() && d.HasMember("NAME") && dump(d["NAME"]) == "\"dev\"" && d.HasMember("OSC_PORT") && dump(d["OSC_PORT"]) == mc::cat(m.so), "host info", id + b); }
  for (auto& p : paths) for (auto l : {"TRUE", "FALSE", "MAYBE", ""}) { auto id = mc::cat("listen ", p, l); if (!c.want(id)) continue; c.state(id); c.trace(); c.step(); auto r = get(m, encode(p, 0) + "?LISTEN=" + l); c.check(r.status == 400, "listen without connection", mc::cat(id, r.status)); ws(m, encode(p, 0) + "?LISTEN=" + l); }
  for (auto& p : paths) { auto id = "html " + p; if (!c.want(id)) continue; c.state(id); c.trace(); c.step(); auto r = get(m, encode(p, 0) + "?HTML"); c.check(r.status == 200 && r.body.find("<") != std::string::npos, "html", id); }
  c.check(m.pump() && same(c, "after requests", "after requests", m.sroot(), m.croot()), "after requests", "");
}
// ---- part: malformed
//! every message made by replacing one part of this one by something else, or leaving one out
static void variants(const rapidjson::Value& root, std::function<void(const std::string&)> f)
{
  static const char* other[] = {"null", "true", "1", "-3000000000", "0.5", "\"\"", "\"x\"", "\"/\"", "[]", "{}", "[[]]", "[null]", "{\"x\":null}"};
  std::function<void(const rapidjson::Value&, std::function<void(const std::string&)>)> go = [&](const rapidjson::Value& v, std::function<void(const std::string&)> k) {
    for (auto o : other) k(o);
    auto all = [&](size_t skip, const std::string& at) { std::string r; size_t n = 0; if (v.IsObject()) { for (auto it = v.MemberBegin(); it != v.MemberEnd(); ++it, ++n) if (n != skip || !at.empty()) r += (r.empty() ? "" : ",") + dump(it->name) + ":" + (n == skip ? at : dump(it->value)); return "{" + r + "}"; } for (auto& x : v.GetArray()) { if (n != skip || !at.empty()) r += (r.empty() ? "" : ",") + (n == skip ? at : dump(x)); n++; } return "[" + r + "]"; };
    size_t n = 0;
    if (v.IsObject()) for (auto it = v.MemberBegin(); it != v.MemberEnd(); ++it, ++n) { k(all(n, "")); go(it->value, [&, n](const std::string& s) { k(all(n, s)); }); }
    else if (v.IsArray()) for (auto& x : v.GetArray()) { k(all(n, "")); go(x, [&, n](const std::string& s) { k(all(n, s)); }); n++; }
  };
  go(root, f);
}
static void malformed(mc::ctx& c)
{
  auto fresh = [](std::unique_ptr<mirror>& m) { m = std::make_unique<mirror>(); tree(m->sroot()); m->pump(); };
  std::unique_ptr<mirror> m; int used = 0; auto ready = [&] { if (!m || ++used > 200) { m.reset(); fresh(m); used = 0; } };
  c.in("malformed requests", "every address of up to 4 pieces, every websocket message that differs from a valid one by one part replaced, left out or cut short: the server answers or refuses, and still answers afterwards");
  static const char* tok[] = {"/", "?", "&", "=", "%", "%2", "a", "+", "VALUE", "LISTEN", "HOST_INFO", "ADD_NODE", "*", "["}; auto rm = [&] { ready(); };
  auto alive = [&](const std::string& id) { auto r = get(*m, "/a?VALUE"); c.check(r.status == 200 && r.body.find('5') != std::string::npos, "server answers no more", id + mc::cat(r.status, r.body)); };
  for (int n = 0; n <= 4; n++) mc::words(std::size(tok), n, [&](const ints& w) { std::string s; for (int i : w) s += tok[i]; auto id = "url " + s; if (!c.want(id)) return; c.state(id); c.trace(); c.step(); rm(); auto r = get(*m, s); c.check(r.status == 200 || r.status == 404 || r.status == 400, "status", mc::cat(id, r.status)); ws(*m, s); m->sp->run_commands(); alive(id); });
  std::vector<std::string> sv{R"({"COMMAND":"LISTEN","DATA":"/a"})", R"({"COMMAND":"IGNORE","DATA":"/a"})", R"({"COMMAND":"START_OSC_STREAMING","DATA":{"LOCAL_SERVER_PORT":1234,"LOCAL_SENDER_PORT":1235}})", R"({"/u.1":[0.1,0.2,0.3]})", R"([{"/c d":0.25},{"/l":[1,"z"]}])", R"({"/e/g":null,"/f":"s"})"};
  for (auto& t : sv)
  {
    auto send = [&](const std::string& x) { auto id = "ws " + x; if (!c.want(id)) return; c.state(id); c.trace(); c.step(); rm(); ws(*m, x); m->sp->run_commands(); alive(id); };
    for (size_t k = 0; k <= t.size(); k++) send(t.substr(0, k)); rapidjson::Document d; d.Parse(t.c_str()); variants(d, send);
  }
  c.in("malformed messages", "every message of a server that differs from a valid one by one part replaced, left out or cut short: the client goes on");
  std::vector<std::string> cl; { dev d; tree(d.root); for (auto p : {"/a", "/u.1", "/l", "/f", "/c d"}) cl.push_back(text(jw::query_namespace(*at(d.root, p)))); for (auto p : {"/c d", "/u.1"}) cl.push_back(text(jw::path_added(*at(d.root, p)))); cl.push_back(text(jw::path_removed("/e"))); cl.push_back(text(jw::path_renamed("/e", "/h"))); cl.push_back(text(jw::path_changed(*at(d.root, "/e")))); for (auto a : {"valueType", "domain", "unit", "tags", "description", "extended_type", "accessMode", "valueDefault", "instanceBounds"}) for (auto p : {"/a", "/u.1", "/l"}) try { cl.push_back(text(jw::attributes_changed(*at(d.root, p), a))); } catch (...) { } cl.push_back(text(jw::query_host_info("dev", 1234))); cl.push_back(R"({"/u.1":[0.1,0.2,0.3]})"); cl.push_back(R"({"VALUE":[1,"z"]})"); }
  for (auto& t : cl)
  {
    auto send = [&](const std::string& x) {
      auto id = "to client " + x; if (!c.want(id)) return; c.state(id); c.trace(); c.step(); rm();
      auto& f = websocketpp::FakeWs::get(); std::shared_ptr<websocketpp::fake_connection> k; for (auto& y : f.conns) if (y->client && y->server) k = y;
      k->to_client.push_back(std::make_shared<websocketpp::fake_message>(websocketpp::fake_message{websocketpp::frame::opcode::text, x})); m->pump();
      // a message that tells where the server is may have told something else
      c.check(bool(m->cs[0]->d), "client", id);
    };
    for (size_t k = 0; k <= t.size(); k++) send(t.substr(0, k)); rapidjson::Document d; d.Parse(t.c_str()); variants(d, send);
  }
}
static void body(mc::ctx& c) { requests(c); malformed(c); }
MC_MAIN(body)
