// OSC: every value through every flavour of OSC, every argument into every parameter, dispatch, learning, histories.
#include "valgen.hpp"
#include <atomic>
#include <cmath>
#include <memory>
#include <set>
#include <thread>
#include <ossia/network/base/node_functions.hpp>
#include <ossia/network/base/parameter_data.hpp>
#include <ossia/network/common/extended_types.hpp>
#include <ossia/network/dataspace/color.hpp>
#include <ossia/network/domain/domain.hpp>
#include <ossia/network/generic/generic_device.hpp>
#include <ossia/network/generic/generic_parameter.hpp>
#include <ossia/network/osc/detail/osc_1_0_policy.hpp>
#include <ossia/network/osc/detail/osc_1_1_extended_policy.hpp>
#include <ossia/network/osc/detail/osc_1_1_policy.hpp>
#include <ossia/network/osc/detail/osc_protocol_common.hpp>
#include <ossia/network/osc/osc.hpp>
#include <ossia/network/sockets/null_socket.hpp>
#include <ossia/network/sockets/writers.hpp>
#include <ossia/protocols/osc/osc_generic_protocol.hpp>
#include <oscpack/ip/UdpSocket.h>
using namespace ossia; using namespace ossia::net; using vg::str; using VT = val_type; using L = std::vector<value>;
struct sock
{
  std::function<void(const char*, std::size_t)> rx; std::vector<std::string> out; bool opened = false;
  template <typename C> sock(const C&, boost::asio::io_context&) {}
  sock() = default;
  void open() { opened = true; } void connect() { opened = true; } void close() {}
  template <typename F> void receive(F f) { rx = [f](const char* d, std::size_t n) { f(d, n); }; }
  template <typename F> void listen(F f) { rx = [f](const char* d, std::size_t n) { f(d, n); }; }
  void write(const char* d, std::size_t n) { out.emplace_back(d, n); }
};
struct silence { silence() { ossia::logger().set_level(spdlog::level::off); } } silence_;
static int g_port = 20000;
//! one device behind one flavour of the protocol
struct lnk
{
  virtual ~lnk() = default;
  std::unique_ptr<generic_device> dev; protocol_base* pr{};
  virtual void feed(const std::string&) = 0; virtual std::vector<std::string> take() = 0; virtual void learn(bool) = 0;
};
template <typename M> struct bidir : lnk
{
  using P = osc_generic_bidir_protocol<M, sock, sock>; P* p;
  bidir() { auto u = std::make_unique<P>(std::make_shared<network_context>(), send_socket_configuration{{"", 1}}, receive_socket_configuration{{"", 2}}); pr = p = u.get(); dev = std::make_unique<generic_device>(std::move(u), "dev"); }
  void feed(const std::string& s) override { std::unique_ptr<char[]> exact(new char[s.size()]); std::memcpy(exact.get(), s.data(), s.size()); p->from_client.rx(exact.get(), s.size()); }
  std::vector<std::string> take() override { return std::exchange(p->to_client.out, {}); }
  void learn(bool b) override { p->set_learning(b); }
};
template <typename M> struct server : lnk
{
  using P = osc_generic_server_protocol<M, sock>; P* p;
  server() { auto u = std::make_unique<P>(std::make_shared<network_context>(), receive_socket_configuration{{"", 2}}); pr = p = u.get(); dev = std::make_unique<generic_device>(std::move(u), "dev"); }
  void feed(const std::string& s) override { std::unique_ptr<char[]> exact(new char[s.size()]); std::memcpy(exact.get(), s.data(), s.size()); p->m_server.rx(exact.get(), s.size()); }
  std::vector<std::string> take() override { return std::exchange(p->m_server.out, {}); }
  void learn(bool b) override { p->set_learning(b); }
};
static std::string msg(const std::string& addr, const std::string& tags, const std::string& args);
struct legacy : lnk
{
  osc_protocol* p; int lp, rp;
  legacy(bool rx = true) { lp = rx ? g_port++ : 0; rp = g_port++; auto u = std::make_unique<osc_protocol>("127.0.0.1", rp, lp); pr = p = u.get(); dev = std::make_unique<generic_device>(std::move(u), "dev"); }
  void feed(const std::string& s) override { auto& n = oscpack::FakeNet::get(); n.send(oscpack::IpEndpointName{lp}, s.data(), s.size()); n.drain(lp); }
  std::vector<std::string> take() override { auto& n = oscpack::FakeNet::get(); std::lock_guard<std::mutex> g{n.m}; std::vector<std::string> r; for (auto& [to, d] : n.sent) if (to.port == rp) r.emplace_back(d.begin(), d.end()); n.sent.clear(); return r; }
  void learn(bool b) override { p->set_learning(b); }
};
enum flav { F10, F11, FX };
struct mode { const char* name; flav f; bool client; std::function<std::unique_ptr<lnk>()> mk; std::unique_ptr<lnk> tx() const { return is_legacy() ? std::make_unique<legacy>(false) : mk(); } bool is_legacy() const { return *name == 'l'; } };
static std::vector<mode>& modes()
{
  static std::vector<mode> m{
    {"1.0 client", F10, true, [] { return std::make_unique<bidir<osc_protocol_client<osc_1_0_policy>>>(); }}, {"1.1 client", F11, true, [] { return std::make_unique<bidir<osc_protocol_client<osc_1_1_policy>>>(); }},
    {"extended client", FX, true, [] { return std::make_unique<bidir<osc_protocol_client<osc_extended_policy>>>(); }}, {"1.0 server", F10, false, [] { return std::make_unique<server<osc_protocol_server<osc_1_0_policy>>>(); }},
    {"1.1 server", F11, false, [] { return std::make_unique<server<osc_protocol_server<osc_1_1_policy>>>(); }}, {"extended server", FX, false, [] { return std::make_unique<server<osc_protocol_server<osc_extended_policy>>>(); }},
    {"legacy", F10, true, [] { return std::make_unique<legacy>(); }}};
  return m;
}
static full_parameter_data describe(const parameter_base& p)
{
  full_parameter_data d{p.get_node().osc_address(), p.value()}; d.type = p.get_value_type(); d.domain = p.get_domain(); d.access = p.get_access(); d.bounding = p.get_bounding(); d.rep_filter = p.get_repetition_filter(); d.unit = p.get_unit(); d.disabled = p.get_disabled(); d.muted = p.get_muted(); d.critical = p.get_critical(); d.extended = p.get_node().get_extended_attributes(); return d;
}
// ---- an encoder and a decoder written from the OSC specification
static std::string pad(std::string s, bool term = true) { if (term) s += '\0'; while (s.size() % 4) s += '\0'; return s; }
static std::string be32(uint32_t v) { return {char(v >> 24), char(v >> 16), char(v >> 8), char(v)}; }
static std::string be64(uint64_t v) { return be32(uint32_t(v >> 32)) + be32(uint32_t(v)); }
static std::string bef(float f) { uint32_t u; std::memcpy(&u, &f, 4); return be32(u); }
static std::string bed(double f) { uint64_t u; std::memcpy(&u, &f, 8); return be64(u); }
static std::string msg(const std::string& addr, const std::string& tags, const std::string& args) { return pad(addr) + pad("," + tags) + args; }
static std::string bundle_(const std::vector<std::string>& m) { std::string s = "#bundle"; s += '\0'; s += be64(1); for (auto& x : m) s += be32(uint32_t(x.size())) + x; return s; }
struct packet { std::string addr, tags; std::vector<std::string> args; std::string err; std::string text() const { std::string s = addr + " ," + tags; for (auto& a : args) s += " " + (a.size() > 60 ? a.substr(0, 20) + mc::cat("...", a.size(), " ", mc::h64(a)) : a); return err.empty() ? s : "INVALID(" + err + ") " + s; } };
static packet decode(std::string_view d)
{
  packet p; size_t i = 0; auto fail = [&](const char* e) { if (p.err.empty()) p.err = e; return p; };
  auto rs = [&](std::string& s) { size_t e = d.find('\0', i); if (e == d.npos) return false; s = d.substr(i, e - i); size_t n = (e / 4 + 1) * 4; if (n > d.size()) return false; for (size_t k = e; k < n; k++) if (d[k]) return false; i = n; return true; };
  auto r32 = [&](uint32_t& v) { if (i + 4 > d.size()) return false; v = 0; for (int k = 0; k < 4; k++) v = v << 8 | (unsigned char)d[i + k]; i += 4; return true; };
  if (d.size() % 4) return fail("size is not a multiple of 4"); if (!rs(p.addr)) return fail("address"); std::string t; if (!rs(t) || t.empty() || t[0] != ',') return fail("type tags"); p.tags = t.substr(1);
  for (char c : p.tags)
  {
    uint32_t v; std::string s;
    switch (c)
    {
      case 'i': if (!r32(v)) return fail("int"); p.args.push_back(std::to_string(int32_t(v))); break;
      case 'c': if (!r32(v)) return fail("char"); p.args.push_back(mc::cat("c", int(char(v)))); break;
      case 'r': if (!r32(v)) return fail("rgba"); p.args.push_back(mc::cat("r", v >> 24, ".", v >> 16 & 255, ".", v >> 8 & 255, ".", v & 255)); break;
      case 'f': { if (!r32(v)) return fail("float"); float f; std::memcpy(&f, &v, 4); p.args.push_back(str(value{f})); break; }
      case 's': if (!rs(s)) return fail("string"); p.args.push_back("'" + s + "'"); break;
      case 'b': { if (!r32(v) || v > d.size() - i) return fail("blob size"); p.args.push_back("b" + mc::hex(d.substr(i, v))); size_t e = i + v; i += (v + 3) / 4 * 4; if (i > d.size()) return fail("blob padding"); for (; e < i; e++) if (d[e]) return fail("blob padding not null"); break; }
      case 'T': case 'F': case 'I': case 'N': case '[': case ']': break;
      default: return fail("unknown tag");
    }
  }
  if (i != d.size()) return fail("trailing bytes");
  return p;
}
static std::vector<std::string> unbundle(std::string_view d, std::string& err)
{
  std::vector<std::string> r; if (d.size() < 16 || d.substr(0, 8) != std::string_view("#bundle\0", 8)) { err = "not a bundle"; return r; }
  size_t i = 16; while (i + 4 <= d.size()) { uint32_t v = 0; for (int k = 0; k < 4; k++) v = v << 8 | (unsigned char)d[i + k]; i += 4; if (v > d.size() - i) { err = "element size"; return r; } r.emplace_back(d.substr(i, v)); i += v; }
  if (i != d.size()) err = "trailing bytes"; return r;
}
// what the flavour says a value is written as
static void expect_arg(packet& p, const value& v, flav f, bool rgba, int depth, bool top)
{
  auto fl = [&](float x) { p.tags += 'f'; p.args.push_back(str(value{x})); };
  auto vec = [&](auto& a) { if (f == FX && rgba && a.size() == 4) { p.tags += 'r'; p.args.push_back(mc::cat("r", int(a[0]), ".", int(a[1]), ".", int(a[2]), ".", int(a[3 % a.size()]))); return; } bool br = f == FX && depth > 0; if (br) p.tags += '['; for (float x : a) fl(x); if (br) p.tags += ']'; };
  switch (v.get_type())
  {
    case VT::INT: p.tags += 'i'; p.args.push_back(std::to_string(v.get<int>())); break;
    case VT::FLOAT: fl(v.get<float>()); break;
    case VT::BOOL: if (f == F10) { p.tags += 'i'; p.args.push_back(v.get<bool>() ? "1" : "0"); } else p.tags += v.get<bool>() ? 'T' : 'F'; break;
    case VT::CHAR: if (f == FX) { p.tags += 'c'; p.args.push_back(mc::cat("c", int(v.get<char>()))); } else { p.tags += 'i'; p.args.push_back(std::to_string(int(v.get<char>()))); } break;
    case VT::STRING: p.tags += 's'; p.args.push_back("'" + v.get<std::string>() + "'"); break;
    case VT::IMPULSE: if (f == F10) { if (!top) { p.tags += 'i'; p.args.push_back("0"); } } else p.tags += 'I'; break;
    case VT::VEC2F: { auto a = v.get<vec2f>(); vec(a); break; } case VT::VEC3F: { auto a = v.get<vec3f>(); vec(a); break; } case VT::VEC4F: { auto a = v.get<vec4f>(); vec(a); break; }
    case VT::LIST: { bool br = f == FX && depth > 0; if (br) p.tags += '['; for (auto& x : v.get<L>()) expect_arg(p, x, f, rgba, depth + 1, false); if (br) p.tags += ']'; break; }
    default: break;
  }
}
// what a list becomes once it has been through the wire
static void flat(const value& v, flav f, bool rgba, int depth, L& o)
{
  auto vec = [&](auto& a) { if (f == FX && rgba && a.size() == 4) { o.push_back(value{vec4f{float(int(a[0])), float(int(a[1])), float(int(a[2])), float(int(a[3 % a.size()]))}}); return; } if (f == FX && depth > 0) { L l; for (float x : a) l.push_back(x); o.push_back(l); } else for (float x : a) o.push_back(x); };
  switch (v.get_type())
  {
    case VT::BOOL: o.push_back(f == F10 ? value{int(v.get<bool>())} : v); break;
    case VT::CHAR: o.push_back(f == FX ? v : value{int(v.get<char>())}); break;
    case VT::IMPULSE: o.push_back(f == F10 ? value{0} : v); break;
    case VT::VEC2F: { auto a = v.get<vec2f>(); vec(a); break; } case VT::VEC3F: { auto a = v.get<vec3f>(); vec(a); break; } case VT::VEC4F: { auto a = v.get<vec4f>(); vec(a); break; }
    case VT::LIST: { if (f == FX && depth > 0) { L l; for (auto& x : v.get<L>()) flat(x, f, rgba, depth + 1, l); o.push_back(l); } else for (auto& x : v.get<L>()) flat(x, f, rgba, depth + 1, o); break; }
    default: o.push_back(v);
  }
}
static void values(mc::ctx& c)
{
  std::vector<value> vs{0, 1, -1, 2147483647, int(-2147483647 - 1), 0x01020304, 0.f, -0.f, 1.5f, -3.25e20f, 1e-40f, INFINITY, -INFINITY, true, false, 'a', '\0', char(127), char(-2), impulse{}};
  for (int n : {0, 1, 2, 3, 4, 5, 7, 8, 9, 63, 1000, 1024, 16360, 16366, 16370, 16371, 16372, 16376, 16380, 16384, 20000, 40000, 65000}) { std::string s; for (int i = 0; i < n; i++) s += char('a' + (i * 7 + n) % 26); vs.push_back(s); }
  for (auto a : {0.f, 1.f, -2.5f, 255.f}) { vs.push_back(make_vec(a, 7.f)); vs.push_back(make_vec(a, 7.f, 128.f)); vs.push_back(make_vec(1.f, a < 0 ? 3.f : a, 200.f, 255.f)); }
  std::vector<value> el{3, 2.5f, true, 'x', impulse{}, std::string("yo"), std::string(""), make_vec(1.f, 2.f), make_vec(1.f, 2.f, 3.f), make_vec(1.f, 2.f, 3.f, 4.f), L{}, L{1}, L{1, L{2.f, "z"}, 3}, L{impulse{}}};
  for (auto& a : el) { vs.push_back(L{a}); for (auto& b : el) { vs.push_back(L{a, b}); if (c.thorough()) for (auto& d : el) vs.push_back(L{a, b, d}); } }
  for (int n : {100, 200, 202, 203, 204, 409, 500, 819, 820, 1638, 3000, 3279, 3280, 5000, 8000, 10000, 13000}) { L l; for (int i = 0; i < n; i++) l.push_back(i); vs.push_back(l); }
  const char* how[]{"push", "push_raw", "push_bundle", "push_raw_bundle", "echo", "push of what is already there"};
  c.in("values", mc::cat(vs.size(), " values of every type x ", modes().size(), " protocols x 6 ways of sending x no unit, rgba8 or blob"));
  for (size_t m = 0; m < modes().size(); m++) for (int h = 0; h < 6; h++) for (int u = 0; u < 3; u++)
  {
    auto& M = modes()[m]; auto id0 = mc::cat(M.name, " ", how[h], " ", u == 0 ? "" : u == 1 ? "rgba8" : "blob"); if (!c.want(id0)) continue;
    for (size_t k = 0; k < vs.size(); k++)
    {
      auto& v = vs[k]; auto t = v.get_type(); if (u == 1 && t != VT::VEC4F) continue; if (u == 2 && t != VT::STRING) continue;
      auto A = M.tx(), B = M.is_legacy() && k % 10 ? modes()[0].mk() : M.mk(); // new devices for each value: the receiver starts from its defaults
      auto mkp = [&](lnk& l) { auto n = &create_node(l.dev->get_root_node(), "/x/yz"); auto p = n->create_parameter(t); if (u == 1) p->set_unit(rgba8_u{}); if (u == 2) set_extended_type(*n, generic_buffer_type()); return p; };
      auto a = mkp(*A), b = mkp(*B); A->take(); c.trace(); c.step(); std::string vt = str(v); if (vt.size() > 100) vt = mc::cat(vt.substr(0, 20), "...", vt.size()); auto id = id0 + " " + vt;
      if (u == 2 && (h == 1 || h == 3)) {} // the description of the parameter says it is a blob too
      full_parameter_data fd = describe(*a); fd.set_value(v); bool ok = true;
      switch (h) { case 0: ok = A->pr->push(*a, value{v}); break; case 1: ok = A->pr->push_raw(fd); break; case 2: a->set_value(v); ok = A->pr->push_bundle({a}); break; case 3: { std::vector<full_parameter_data> f; f.push_back(fd); ok = A->pr->push_raw_bundle(f); break; } case 4: { auto O = M.tx(); ok = A->pr->echo_incoming_message(message_origin_identifier{*O->pr}, *a, v); break; } default: a->push_value(v); }
      auto out = A->take(); std::string err;
      if (out.size() != 1) { c.fail(mc::cat("sent ", id), mc::cat(out.size(), " packets sent for ", vt, ok ? "" : ", refused")); continue; }
      auto packets = out; if (h == 2 || h == 3) { packets = unbundle(out[0], err); if (packets.size() != 1 || !err.empty()) { c.fail("bundle " + id, mc::cat("bundle: ", err, " ", packets.size(), " elements")); continue; } }
      packet e; e.addr = "/x/yz"; const bool dyn = h == 2 || h == 3; bool blob = u == 2 && !dyn && std::string(M.name) != "legacy";
      if (blob) { e.tags = "b"; e.args.push_back("b" + mc::hex(v.get<std::string>())); } else expect_arg(e, v, M.f, u == 1, 0, !dyn);
      auto p = decode(packets[0]); if (v.get_type() == VT::IMPULSE && dyn && M.f == F10) e.tags = p.tags, e.args = p.args;
      c.check(p.err.empty() && p.text() == e.text(), "packet " + id, mc::cat("sent ", p.text(), " instead of ", e.text()));
      // the other side
      int calls = 0; value got; b->add_callback([&](const value& x) { calls++; got = x; });
      B->feed(out[0]); value x = v; if (t == VT::LIST) { L o; flat(v, M.f, u == 1, 0, o); x = o; } if (u == 1 && M.f == FX) { auto a = v.get<vec4f>(); for (auto& q : a) q = float(int(q)); x = a; }
      bool silent = t == VT::LIST && x.get<L>().empty(); // an empty list is a message without arguments
      c.check(calls == 1, "calls " + id, mc::cat("the receiver is told ", calls, " times")); if (!silent) c.check(str(b->value()) == str(x) && str(got) == str(x), "received " + id, mc::cat("received ", str(b->value()).substr(0, 100), " instead of ", str(x).substr(0, 100)));
      c.state(id); c.outcome(p.tags);
    }
  }
}
// every argument kind into every parameter type
static void coercion(mc::ctx& c)
{
  struct arg { const char* name; std::string tags, bytes; int n; };
  std::vector<arg> as{{"i5", "i", be32(5), 1}, {"i0", "i", be32(0), 1}, {"h", "h", be64(66), 1}, {"f", "f", bef(2.75f), 1}, {"f-", "f", bef(-2.75f), 1}, {"d", "d", bed(3.75), 1}, {"t", "t", be64(7), 1}, {"c", "c", be32('k'), 1}, {"T", "T", "", 1}, {"F", "F", "", 1},
    {"s", "s", pad("12"), 1}, {"s1", "s", pad("1"), 1}, {"sx", "s", pad("xyz"), 1}, {"S", "S", pad("0"), 1}, {"b", "b", be32(3) + pad("abc", false), 1}, {"b0", "b", be32(0), 1}, {"r", "r", be32(0x010280ff), 1}, {"I", "I", "", 1}, {"N", "N", "", 1},
    {"none", "", "", 0}, {"ii", "ii", be32(1) + be32(2), 2}, {"fi", "fi", bef(1.5f) + be32(2), 2}, {"fff", "fff", bef(1) + bef(2) + bef(3), 3}, {"sif", "sif", pad("4") + be32(5) + bef(6.5f), 3}, {"ffff", "ffff", bef(1) + bef(2) + bef(3) + bef(4), 4}, {"iiiii", "iiiii", be32(1) + be32(2) + be32(3) + be32(4) + be32(5), 5}, {"[ii]", "[ii]", be32(1) + be32(2), 4}, {"i[f[s]]T", "i[f[s]]T", be32(1) + bef(2) + pad("q"), 8}, {"TT", "TT", "", 2}, {"rr", "rr", be32(0x01020304) + be32(0x05060708), 2}};
  struct par { const char* name; VT t; value init; };
  std::vector<par> ps{{"int", VT::INT, 42}, {"float", VT::FLOAT, 42.5f}, {"bool", VT::BOOL, true}, {"bool false", VT::BOOL, false}, {"char", VT::CHAR, 'z'}, {"string", VT::STRING, std::string("old")}, {"vec2", VT::VEC2F, make_vec(8.f, 9.f)}, {"vec3", VT::VEC3F, make_vec(7.f, 8.f, 9.f)}, {"vec4", VT::VEC4F, make_vec(6.f, 7.f, 8.f, 9.f)}, {"list", VT::LIST, L{1, "old"}}, {"impulse", VT::IMPULSE, impulse{}}};
  auto num = [](const std::string& a, double& o) { static const std::map<std::string, double> m{{"i5", 5}, {"i0", 0}, {"h", 66}, {"f", 2.75}, {"f-", -2.75}, {"d", 3.75}, {"t", 7}, {"c", 'k'}, {"T", 1}, {"F", 0}, {"s", 12}, {"s1", 1}, {"S", 0}}; auto it = m.find(a); if (it == m.end()) return false; o = it->second; return true; };
  c.in("coercion", mc::cat(as.size(), " argument lists x ", ps.size(), " parameter types x with or without range x listened or not x ", modes().size(), " protocols"));
  for (auto& M : modes()) for (auto& a : as) for (auto& p : ps) for (int dom = 0; dom < 2; dom++) for (int lis = 0; lis < 2; lis++)
  {
    auto id = mc::cat(M.name, " ", a.name, " -> ", p.name, dom ? " range" : "", lis ? " listened" : ""); if (M.is_legacy() && (lis || dom)) continue; if (!c.want(id)) continue; c.trace(); c.step();
    if (dom && p.t != VT::INT && p.t != VT::FLOAT) continue;
    auto B = M.mk(); auto& n = create_node(B->dev->get_root_node(), "/p"); auto b = n.create_parameter(p.t); b->set_value(p.init); if (dom) { b->set_domain(p.t == VT::INT ? make_domain(1, 10) : make_domain(1.f, 10.f)); b->set_bounding(bounding_mode::CLIP); }
    int calls = 0; if (lis) b->add_callback([&](const value&) { calls++; });
    value e = p.init; double d = 0; std::string an = a.name; bool one = a.n == 1, first = a.n >= 1; std::string f0; // scalars take the first argument
    bool nm = one && num(an, d); static const std::map<std::string, double> firsts{{"ii", 1}, {"fi", 1.5}, {"fff", 1}, {"sif", 4}, {"ffff", 1}, {"iiiii", 1}, {"i[f[s]]T", 1}, {"TT", 1}}; if (!one && firsts.count(an)) { nm = true; d = firsts.at(an); }
    switch (p.t)
    {
      case VT::INT: if ((an == "s" || an == "s1" || an == "S" || an == "sif") || nm) e = int(d); break;
      case VT::FLOAT: if (nm) e = float(d); break;
      case VT::BOOL: if (nm && an != "s" && an != "sif") e = d != 0; break;
      case VT::CHAR: if (an == "s" || an == "s1") e = '1'; else if (an == "sx") e = 'x'; else if (an == "S") e = '0'; else if (an == "T" || an == "TT") e = 'T'; else if (an == "F") e = 'F'; else if (an == "sif") e = '4'; else if (nm) e = char(int(d)); break;
      case VT::STRING: { static const std::map<std::string, std::string> m{{"i5", "5"}, {"i0", "0"}, {"h", "66"}, {"f", "2.75"}, {"f-", "-2.75"}, {"d", "3.75"}, {"c", "k"}, {"T", "true"}, {"F", "false"}, {"s", "12"}, {"s1", "1"}, {"sx", "xyz"}, {"S", "0"}, {"b", "abc"}, {"b0", ""}, {"ii", "1"}, {"fi", "1.5"}, {"fff", "1"}, {"sif", "4"}, {"ffff", "1"}, {"iiiii", "1"}, {"i[f[s]]T", "1"}, {"TT", "true"}}; if (m.count(an)) e = m.at(an); break; }
      case VT::VEC2F: if (an == "ii") e = make_vec(1.f, 2.f); if (an == "fi") e = make_vec(1.5f, 2.f); if (an == "TT") e = make_vec(1.f, 1.f); break;
      case VT::VEC3F: if (an == "fff") e = make_vec(1.f, 2.f, 3.f); if (an == "sif") e = make_vec(4.f, 5.f, 6.5f); break;
      case VT::VEC4F: if (an == "ffff") e = make_vec(1.f, 2.f, 3.f, 4.f); if (an == "r") e = make_vec(1.f, 2.f, 128.f, 255.f); if (an == "[ii]") continue; if (an == "rr") e = make_vec(1.f, 2.f, 3.f, 4.f); break;
      case VT::LIST: { static const std::map<std::string, L> m{{"i5", {5}}, {"i0", {0}}, {"h", {66}}, {"f", {2.75f}}, {"f-", {-2.75f}}, {"d", {3.75f}}, {"t", {7}}, {"c", {'k'}}, {"T", {true}}, {"F", {false}}, {"s", {"12"}}, {"s1", {"1"}}, {"sx", {"xyz"}}, {"S", {"0"}}, {"b", {"abc"}}, {"b0", {""}}, {"r", {make_vec(1.f, 2.f, 128.f, 255.f)}}, {"I", {impulse{}}}, {"N", {impulse{}}}, {"ii", {1, 2}}, {"fi", {1.5f, 2}}, {"fff", {1.f, 2.f, 3.f}}, {"sif", {"4", 5, 6.5f}}, {"ffff", {1.f, 2.f, 3.f, 4.f}}, {"iiiii", {1, 2, 3, 4, 5}}, {"[ii]", L(1, value{L{1, 2}})}, {"i[f[s]]T", {1, L{2.f, L{"q"}}, true}}, {"TT", {true, true}}, {"rr", {make_vec(1.f, 2.f, 3.f, 4.f), make_vec(5.f, 6.f, 7.f, 8.f)}}}; if (m.count(an)) e = m.at(an); break; }
      default: break;
    }
    if (dom) { if (p.t == VT::INT) e = std::clamp(e.get<int>(), 1, 10); else e = std::clamp(e.get<float>(), 1.f, 10.f); if (!first) continue; }
    B->feed(msg("/p", a.tags, a.bytes));
    c.check(str(b->value()) == str(e), "coerced " + id, mc::cat(id, ": ", str(b->value()), " instead of ", str(e))); if (lis) c.check(calls == 1, "told " + id, mc::cat("told ", calls, " times"));
    c.state(id); c.outcome(str(e));
  }
}
// own matcher: '*' any run, '?' one character, [..], {a,b}; between slashes
static bool glob(std::string_view p, std::string_view s)
{
  if (p.empty()) return s.empty();
  switch (p[0])
  {
    case '*': for (size_t i = 0; i <= s.size(); i++) if (glob(p.substr(1), s.substr(i))) return true; return false;
    case '[': { auto e = p.find(']'); return !s.empty() && p.substr(1, e - 1).find(s[0]) != p.npos && glob(p.substr(e + 1), s.substr(1)); }
    case '{': { auto e = p.find('}'); size_t i = 1; while (i <= e) { auto q = std::min(p.find(',', i), e); auto w = p.substr(i, q - i); if (s.substr(0, w.size()) == w && glob(p.substr(e + 1), s.substr(w.size()))) return true; i = q + 1; } return false; }
    default: return !s.empty() && p[0] == s[0] && glob(p.substr(1), s.substr(1));
  }
}
static bool gpath(std::string_view p, std::string_view s) { size_t i = 1, j = 1; for (;;) { auto a = std::min(p.find('/', i), p.size()), b = std::min(s.find('/', j), s.size()); if (!glob(p.substr(i, a - i), s.substr(j, b - j))) return false; if (a == p.size() || b == s.size()) return a == p.size() && b == s.size(); i = a + 1; j = b + 1; } }
struct spy { std::vector<std::string> un, on; void unhandled(ossia::string_view a, const value& v) { un.push_back(std::string(a) + " " + str(v)); } void msg(const parameter_base& p) { on.push_back(p.get_node().osc_address()); } };
static void dispatch(mc::ctx& c)
{
  const std::vector<std::string> params{"/a", "/a/b", "/a/c", "/foo.1", "/foo.2", "/x/y", "/x/b"}; // /x has no parameter
  const std::vector<std::string> pats{"/a", "/a/b", "/a/c", "/foo.1", "/x/y", "/x", "/zzz", "/a/zzz", "/a/*", "/*", "/*/b", "/{a,x}/b", "/a/[bc]", "/a/[b]", "/foo.[12]", "/nothing/*", "/{foo.1,a}", "/x/*", "/f*.2", "/A", "/a/", "/*/*"};
  c.in("dispatch", mc::cat(pats.size(), " addresses and patterns, alone, in pairs in a bundle and in nested bundles x 4 sets of listened parameters x ", modes().size(), " protocols"));
  for (auto& M : modes()) for (int lis = 0; lis < 4; lis++) for (size_t i = 0; i < pats.size(); i++) for (int j = -1; j < int(pats.size()); j++) for (int nest = 0; nest < (j < 0 ? 1 : 3); nest++)
  {
    if (j >= 0 && (M.is_legacy() || (M.f != F10 && !c.thorough()))) continue;
    if (pats[i] == "/a/" || (j >= 0 && pats[j] == "/a/")) continue; // a trailing slash: not claimed
    auto id = mc::cat(M.name, " ", pats[i], j >= 0 ? " + " + pats[j] : "", nest, " ", lis); if (!c.want(id)) continue; c.trace(); c.step();
    auto B = M.mk(); std::map<std::string, std::vector<int>> told, model; std::map<std::string, int> val; std::vector<parameter_base*> ps; spy sp; std::vector<std::string> un, on;
    for (size_t k = 0; k < params.size(); k++) { auto p = create_node(B->dev->get_root_node(), params[k]).create_parameter(VT::INT); ps.push_back(p); val[params[k]] = 0; if (lis == 1 || (lis == 2 && k == 1) || (lis == 3 && k != 1)) p->add_callback([&told, n = params[k]](const value& v) { told[n].push_back(v.get<int>()); }); }
    B->dev->on_message.connect<&spy::msg>(&sp); B->dev->on_unhandled_message.connect<&spy::unhandled>(&sp);
    int v = 1; auto one = [&](const std::string& pat) { auto m = msg(pat, "i", be32(v)); bool hit = pat == "/x"; for (size_t k = 0; k < params.size(); k++) if (gpath(pat, params[k])) { hit = true; val[params[k]] = v; on.push_back(params[k]); if (lis == 1 || (lis == 2 && k == 1) || (lis == 3 && k != 1)) model[params[k]].push_back(v); } if (!hit) un.push_back(pat + " i" + std::to_string(v)); v++; return m; };
    auto m1 = one(pats[i]); std::string pk = m1; if (j >= 0) { auto m2 = one(pats[j]); pk = nest == 0 ? bundle_({m1, m2}) : nest == 1 ? bundle_({bundle_({m1}), m2}) : bundle_({bundle_({bundle_({m1}), m2})}); }
    B->feed(pk); B->dev->on_message.disconnect<&spy::msg>(&sp); B->dev->on_unhandled_message.disconnect<&spy::unhandled>(&sp);
    std::sort(sp.on.begin(), sp.on.end()); std::sort(on.begin(), on.end()); auto j2 = [](auto& x) { std::string s; for (auto& y : x) s += y + " "; return s; };
    for (size_t k = 0; k < params.size(); k++) c.check(ps[k]->value() == value{val[params[k]]}, "value " + id, mc::cat(params[k], " holds ", str(ps[k]->value()), " instead of ", val[params[k]]));
    c.check(told == model, "told " + id, "callbacks told wrongly"); c.check(sp.on == on, "on_message " + id, mc::cat("on_message for ", j2(sp.on), "instead of ", j2(on))); c.check(sp.un == un, "unhandled " + id, mc::cat("unhandled: ", j2(sp.un), "instead of ", j2(un)));
    c.state(id); c.outcome(j2(on));
  }
}
static void learning(mc::ctx& c)
{
  std::vector<std::pair<std::string, std::string>> el{{"i", be32(4)}, {"f", bef(2.5f)}, {"s", pad("hey")}, {"T", ""}, {"c", be32('c')}, {"I", ""}}; std::vector<value> ev{4, 2.5f, std::string("hey"), true, 'c', impulse{}};
  c.in("learning", "every list of up to 3 arguments of 6 kinds, vectors of floats up to 5, on new, partly and wholly existing addresses, 2 protocols");
  auto run = [&](const std::vector<int>& w) {
    for (int ex = 0; ex < 4; ex++) for (size_t mi : {1ul, 2ul})
    {
      auto id = mc::cat("learn ", mc::join(w), " ", ex, " ", mi); if (!c.want(id)) continue; c.trace(); c.step(); auto B = modes()[mi].mk(); auto& root = B->dev->get_root_node();
      if (ex == 1) create_node(root, "/l"); if (ex == 2) create_node(root, "/l/m").create_parameter(VT::STRING); if (ex == 3) create_node(root, "/l/other").create_parameter(VT::INT);
      std::string t, b; L l; for (int k : w) { t += el[k].first; b += el[k].second; l.push_back(ev[k]); } B->learn(true); B->feed(msg("/l/m", t, b)); B->learn(false);
      auto n = find_node(root, "/l/m"); c.check(n && n->get_parameter(), "learned " + id, "no parameter is learned"); if (!n || !n->get_parameter()) continue; c.check(root.children().size() == 1 && root.children()[0]->children().size() == (ex == 3 ? 2u : 1u), "tree " + id, "wrong tree after learning");
      value e; bool fl = w.size() >= 2 && w.size() <= 4; for (int k : w) fl &= k == 1; if (ex == 2) e = std::string(); else if (w.empty()) e = impulse{}; else if (w.size() == 1) e = l[0]; else if (fl) { if (w.size() == 2) e = make_vec(2.5f, 2.5f); else if (w.size() == 3) e = make_vec(2.5f, 2.5f, 2.5f); else e = make_vec(2.5f, 2.5f, 2.5f, 2.5f); } else e = l;
      c.check(str(n->get_parameter()->value()) == str(e), "learnt value " + id, mc::cat(str(n->get_parameter()->value()), " instead of ", str(e))); c.state(id); c.outcome(str(e));
    }
  };
  run({}); for (int n = 1; n <= 3; n++) mc::words(int(el.size()), n, run); run({1, 1, 1, 1}); run({1, 1, 1, 1, 1}); run({0, 1, 1, 1}); run({1, 1, 1, 0});
}
// renaming, removing, listening and pushing: addresses follow the tree
static void histories(mc::ctx& c)
{
  const int D = c.thorough() ? 6 : 5; c.in("histories", mc::cat("every history of ", D, " of: rename a to d and back, remove, create again, listen, stop listening, push, rename the parent; then a message to each address"));
  for (size_t mi : {0ul, 5ul}) mc::words(8, D, [&](const std::vector<int>& w) {
    auto id = mc::cat(modes()[mi].name, " ", mc::join(w)); if (!c.want(id)) return; c.trace(); auto B = modes()[mi].mk(); auto& root = B->dev->get_root_node();
    auto g = root.create_child("g"); auto mk = [&](const char* n) { auto x = g->create_child(n); x->create_parameter(VT::INT); return x; };
    node_base* a = mk("a"); std::string gname = "g"; int v = 1, told = 0, exp = 0; std::vector<parameter_base::callback_index> cbs;
    for (int op : w)
    {
      c.step();
      switch (op)
      {
        case 0: if (a && a->get_name() == "a") a->set_name("d"); else return; break;
        case 1: if (a && a->get_name() == "d") a->set_name("a"); else return; break;
        case 2: if (!a) return; g->remove_child(*a); a = nullptr; cbs.clear(); break;
        case 3: if (a) return; a = mk("a"); break;
        case 4: if (!a) return; cbs.push_back(a->get_parameter()->add_callback([&](const value&) { told++; })); break;
        case 5: if (!a || cbs.empty()) return; a->get_parameter()->remove_callback(cbs.back()); cbs.pop_back(); break;
        case 6: { if (!a) return; exp += int(cbs.size()); a->get_parameter()->push_value(v); auto o = B->take(); c.check(o.size() == 1 && decode(o[0]).addr == "/" + gname + "/" + a->get_name(), "sent address " + id, mc::cat("sent to ", o.empty() ? "nothing" : decode(o[0]).addr)); v++; break; }
        case 7: gname = gname == "g" ? "h" : "g"; g->set_name(gname); break;
      }
      for (auto gn : {"g", "h"}) for (auto an : {"a", "d"})
      {
        bool hit = a && gname == gn && a->get_name() == an; if (hit) exp += int(cbs.size()); value before = a ? a->get_parameter()->value() : value{};
        B->feed(msg(mc::cat("/", gn, "/", an), "i", be32(++v))); if (a) c.check(a->get_parameter()->value() == (hit ? value{v} : before), "delivered " + id, mc::cat("a message to /", gn, "/", an, hit ? " does not reach" : " reaches", " the parameter at /", gname, "/", a->get_name()));
      }
      c.check(told == exp, "told " + id, mc::cat("callbacks told ", told, " times instead of ", exp)); c.state(mc::cat(gname, a ? a->get_name() : "", cbs.size()));
    }
    c.outcome(mc::cat(exp));
  });
}
// what may be sent
static void access_(mc::ctx& c)
{
  c.in("access", "access modes x repetition filter x disabled x muted x range x 4 ways of sending x every protocol");
  for (auto& M : modes()) for (int acc = 0; acc < 3; acc++) for (int rep = 0; rep < 2; rep++) for (int dis = 0; dis < 3; dis++) for (int how = 0; how < 4; how++) for (int dom = 0; dom < 2; dom++)
  {
    auto id = mc::cat(M.name, " access ", acc, rep, dis, how, dom); if (!c.want(id)) continue; c.trace(); c.step(); auto A = M.tx(); auto& n = create_node(A->dev->get_root_node(), "/p"); auto a = n.create_parameter(VT::INT); access_mode am[]{access_mode::GET, access_mode::SET, access_mode::BI}; a->set_access(am[acc]); if (dom) { a->set_domain(make_domain(0, 10)); a->set_bounding(bounding_mode::CLIP); }
    if (rep) a->set_repetition_filter(repetition_filter::ON); if (dis == 1) a->set_disabled(true); if (dis == 2) a->set_muted(true); a->set_value(0); A->take(); std::vector<int> got; full_parameter_data fd = describe(*a);
    for (int x : {20, 20, 5}) { a->set_value(x); fd.set_value(x); if (how == 0) A->pr->push(*a, a->value()); else if (how == 1) A->pr->push_raw(fd); else if (how == 2) A->pr->push_bundle({a}); else { std::vector<full_parameter_data> f; f.push_back(fd); A->pr->push_raw_bundle(f); }
      for (auto& o : A->take()) { if (how < 2) got.push_back(std::stoi(decode(o).args.at(0))); else { std::string e; for (auto& m : unbundle(o, e)) got.push_back(std::stoi(decode(m).args.at(0))); } } }
    std::vector<int> e; bool no = (acc == 0 && M.client) || dis; if (rep && dom) continue; if (!no) { e = {dom ? 10 : 20, dom ? 10 : 20, 5}; if (rep) e.erase(e.begin() + 1); }
    c.check(got == e, "access " + id, mc::cat(got.size(), " values sent instead of ", e.size(), got.size() ? mc::cat(", first ", got[0]) : "")); c.state(id); c.outcome(mc::join(got));
  }
}
int main(int argc, char** argv) { return mc::ctx::get().run(argc, argv, [](mc::ctx& c) { values(c); coercion(c); dispatch(c); learning(c); histories(c); access_(c); }); }
