#pragma once
// OSCQuery over an in-memory transport: what a client shows against what the server has.
#include "valgen.hpp"
#include <cmath>
#include <cstring>
#include <set>
#include <ossia/detail/logger.hpp>
#include <ossia/network/base/node_attributes.hpp>
#include <ossia/network/base/node_functions.hpp>
#include <ossia/network/base/parameter_data.hpp>
#include <ossia/network/common/extended_types.hpp>
#include <ossia/network/dataspace/dataspace_visitors.hpp>
#include <ossia/network/domain/domain.hpp>
#include <ossia/network/generic/generic_device.hpp>
#include <ossia/network/generic/generic_parameter.hpp>
#include <ossia/network/local/local.hpp>
#include <ossia/network/oscquery/detail/json_parser.hpp>
#include <ossia/network/oscquery/detail/json_writer.hpp>
#include <ossia/network/oscquery/detail/oscquery_units.hpp>
#include <ossia/network/oscquery/oscquery_mirror.hpp>
#include <ossia/network/oscquery/oscquery_server.hpp>
#include <oscpack/ip/UdpSocket.h>
#include <websocketpp/fake.hpp>
using namespace ossia; using namespace ossia::net; using vg::str; using VT = val_type; using L = std::vector<value>; using ints = std::vector<int>;
using jw = ossia::oscquery::json_writer; using jp = ossia::oscquery::json_parser;
struct silence { silence() { ossia::logger().set_level(spdlog::level::off); } } silence_;
struct nop : protocol_base
{
  nop() : protocol_base{flags{}} {}
  bool pull(parameter_base&) override { return false; } bool push(const parameter_base&, const value&) override { return true; } bool push_raw(const full_parameter_data&) override { return true; }
  bool observe(parameter_base&, bool) override { return true; } bool update(node_base&) override { return false; }
};
struct dev { generic_device d{std::make_unique<nop>(), "d"}; node_base& root{d.get_root_node()}; };
template <typename T> static std::string o(const std::optional<T>& x) { if (!x) return "-"; std::ostringstream s; if constexpr (std::is_same_v<T, tags>) { for (auto& t : *x) s << t << ","; } else if constexpr (std::is_same_v<T, instance_bounds>) s << x->min_instances << ".." << x->max_instances; else s << *x; return "=" + s.str(); }
static std::string dom(const domain& d)
{
  std::string s; if (!d) return "-";
  ossia::apply_nonnull([&](const auto& x) {
    using D = std::decay_t<decltype(x)>;
    auto one = [](const auto& y) -> std::string { using Y = std::decay_t<decltype(y)>; if constexpr (std::is_same_v<Y, value>) return str(y); else return str(value(y)); };
    if constexpr (std::is_same_v<D, domain_base<bool>> || std::is_same_v<D, domain_base<impulse>>) s = "-";
    else if constexpr (std::is_same_v<D, vector_domain>) { s = "list"; auto n = std::max({x.min.size(), x.max.size(), x.values.size()}); for (size_t i = 0; i < n; i++) { s += mc::cat("(", i < x.min.size() ? str(x.min[i]) : "none", "..", i < x.max.size() ? str(x.max[i]) : "none"); if (i < x.values.size()) for (auto& v : x.values[i]) s += " " + str(v); s += ")"; } }
    else if constexpr (std::is_same_v<D, vecf_domain<2>> || std::is_same_v<D, vecf_domain<3>> || std::is_same_v<D, vecf_domain<4>>) { s = "vec"; for (size_t i = 0; i < x.min.size(); i++) { s += mc::cat("(", x.min[i] ? mc::cat(*x.min[i]) : "-", "..", x.max[i] ? mc::cat(*x.max[i]) : "-"); for (auto v : x.values[i]) s += mc::cat(" ", v); s += ")"; } }
    else { s = mc::cat("("); if constexpr (requires { x.min; }) s += mc::cat(x.min ? one(*x.min) : "-", "..", x.max ? one(*x.max) : "-"); for (auto& v : x.values) s += " " + one(v); s += ")"; }
  }, d);
  // an empty range says as much as none
  return s.find_first_of("0123456789'") == s.npos || d.v.target<domain_base<impulse>>() ? "-" : s;
}
using fields = std::vector<std::pair<std::string, std::string>>;
static void describe(const node_base& n, const std::string& path, fields& f)
{
  auto p = n.get_parameter(); auto k = [&](const char* w, std::string v) { f.emplace_back(w, path + " " + w + " " + v); };
  k("parameter", p ? "yes" : "no");
  if (p)
  {
    k("type", mc::cat(int(p->get_value_type()))); k("value", str(p->value())); k("unit", std::string(get_pretty_unit_text(p->get_unit()))); k("domain", dom(p->get_domain()));
    k("access", mc::cat(int(p->get_access()))); k("bounding", mc::cat(int(p->get_bounding()))); k("repetition filter", mc::cat(int(p->get_repetition_filter())));
    auto dv = get_default_value(n); k("default value", dv ? str(*dv) : "-"); k("critical", mc::cat(get_critical(n))); k("disabled", mc::cat(get_disabled(n)));
  }
  k("description", o(get_description(n))); k("tags", o(get_tags(n))); k("extended type", o(get_extended_type(n))); k("refresh rate", o(get_refresh_rate(n))); k("priority", o(get_priority(n))); k("step", o(get_value_step_size(n)));
  k("instance bounds", o(get_instance_bounds(n))); k("hidden", mc::cat(get_hidden(n))); k("app", o(get_app_name(n)) + o(get_app_version(n)) + o(get_app_creator(n)));
  std::string names; for (auto& c : n.children()) names += c->get_name() + ","; k("children", names);
  for (auto& c : n.children()) describe(*c, path + "/" + c->get_name(), f);
}
static fields describe(const node_base& n) { fields f; describe(n, "", f); return f; }
static bool same(mc::ctx& c, const std::string& key, const std::string& id, const node_base& a, const node_base& b, bool values = true)
{
  auto x = describe(a), y = describe(b); c.step();
  for (size_t i = 0; i < std::max(x.size(), y.size()); i++)
  {
    auto u = i < x.size() ? x[i].second : "missing", v = i < y.size() ? y[i].second : "missing";
    if (u != v && (values || i >= x.size() || x[i].first != "value")) { c.fail(key + " " + (i < x.size() ? x[i].first : "extra"), id + ": server" + u + " | client" + v); return false; }
  }
  return true;
}
static bool load(node_base& root, const std::string& js) { try { auto d = jp::parse(js); if (!d || d->HasParseError() || !d->IsObject()) return false; jp::parse_namespace(root, *d); return true; } catch (...) { return false; } }
static std::string text(const rapidjson::StringBuffer& b) { return std::string(b.GetString(), b.GetSize()); }
static int g_ports = 21000;
//! a server and its clients, connected by memory: nothing moves until pump()
struct mirror
{
  struct client
  {
    int port = g_ports++; oscquery::oscquery_mirror_protocol* p{}; std::unique_ptr<generic_device> d;
    node_base& root() { return d->get_root_node(); }
  };
  int so = g_ports++, ws = g_ports++; oscquery::oscquery_server_protocol* sp; std::unique_ptr<generic_device> s; std::vector<std::unique_ptr<client>> cs;
  mirror(int clients = 1, bool update = true, bool zombies = false)
  {
    auto u = std::make_unique<oscquery::oscquery_server_protocol>(so, ws); sp = u.get(); s = std::make_unique<generic_device>(std::move(u), "dev");
    for (int i = 0; i < clients; i++) join(update, zombies);
  }
  client& join(bool update = true, bool zombies = false)
  {
    cs.push_back(std::make_unique<client>()); auto& c = *cs.back();
    auto v = std::make_unique<oscquery::oscquery_mirror_protocol>("ws://127.0.0.1:" + std::to_string(ws), c.port); c.p = v.get(); c.p->set_zombie_on_remove(zombies); c.d = std::make_unique<generic_device>(std::move(v), "dev");
    if (update) { pump(); auto f = c.p->update_async(c.root()); pump(); }
    return c;
  }
  void forget() { auto& f = websocketpp::FakeWs::get(); std::lock_guard<std::recursive_mutex> l{f.m}; f.requests.clear(); }
  ~mirror() { forget(); cs.clear(); forget(); s.reset(); }
  node_base& sroot() { return s->get_root_node(); } node_base& croot(int i = 0) { return cs[i]->root(); }
  void drain() { auto& n = oscpack::FakeNet::get(); { std::lock_guard<std::mutex> l{n.m}; n.sent.clear(); } n.drain(so); for (auto& c : cs) if (c->d) n.drain(c->port); n.drain(so); }
  void commands() { sp->run_commands(); for (auto& c : cs) if (c->d) c->p->run_commands(); }
  //! let everything in flight arrive
  bool pump(bool cmd = true)
  {
    static const bool dbg = getenv("DBG"); auto& f = websocketpp::FakeWs::get();
    for (int k = 0; k < 10000; k++)
    {
      drain(); auto r = f.ready();
      if (!r.empty())
      {
        if (dbg) { int w = r.front(); if (w == -1) { auto& q = f.requests.front(); fprintf(stderr, "http %s %d %s\n", q->path.c_str(), q->status, q->body.c_str()); } else { auto k = f.find(w / 2); fprintf(stderr, "ws %d %s\n", w, (w % 2 ? k->to_client : k->to_server).front()->data.c_str()); } }
        f.step(r.front()); continue;
      }
      if (cmd) commands(); drain(); if (f.ready().empty()) return true;
    }
    return false;
  }
};
