// Minuit: a client discovers the tree of a server by datagrams that the explorer delivers, loses or repeats.
// One thread of control: whoever waits (future, sleep) lets the datagrams travel, in virtual time.
#include "valgen.hpp"
#include <atomic>
#include <cstring>
#include <future>
#include <sys/syscall.h>
#include <unistd.h>
#include <ossia/detail/logger.hpp>
#include <ossia/network/base/node_attributes.hpp>
#include <ossia/network/base/node_functions.hpp>
#include <ossia/network/common/extended_types.hpp>
#include <ossia/network/dataspace/dataspace_visitors.hpp>
#include <ossia/network/domain/domain.hpp>
#include <ossia/network/generic/generic_device.hpp>
#include <ossia/network/generic/generic_parameter.hpp>
#include <ossia/network/minuit/minuit.hpp>
#include <oscpack/ip/UdpSocket.h>
#include <oscpack/osc/OscOutboundPacketStream.h>
#include <oscpack/osc/OscReceivedElements.h>
using namespace ossia; using namespace ossia::net; using vg::str; using VT = val_type; using L = std::vector<value>; using oscpack::FakeNet;
struct silence { silence() { ossia::logger().set_level(spdlog::level::off); } } silence_;
static std::atomic<int64_t> now_ns{1000000000}; static std::thread::id main_thread = std::this_thread::get_id();
struct gram { int port; std::vector<char> d; int from; };
struct wire
{
  std::mutex m; std::deque<gram> q; int n{}; std::map<int, int> faults; std::vector<gram> record; bool off{};   // fault: 1 lost, 2 repeated
  bool one()
  {
    gram g; { std::lock_guard l{m}; if (q.empty()) return false; g = std::move(q.front()); q.pop_front(); }
    auto it = faults.find(n++); int f = it == faults.end() ? 0 : it->second;
    record.push_back(g);
    now_ns += 100000;
    for (int k = 0; k < (f == 1 ? 0 : f == 2 ? 2 : 1); k++) FakeNet::get().deliver_now(g.port, g.d.data(), g.d.size(), g.from);
    return true;
  }
  void all() { while (one()) ; }
  void clear() { std::lock_guard l{m}; q.clear(); n = 0; faults.clear(); record.clear(); }
} net_;
std::chrono::steady_clock::time_point std::chrono::_V2::steady_clock::now() noexcept { return time_point{duration{now_ns.load()}}; }
extern "C" int nanosleep(const struct timespec* t, struct timespec*) { if (std::this_thread::get_id() == main_thread) { net_.all(); now_ns += t->tv_sec * 1000000000LL + t->tv_nsec; } else if (t->tv_sec || t->tv_nsec >= 50000000) syscall(SYS_nanosleep, t, nullptr); else std::this_thread::yield(); return 0; }
bool std::__atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a, unsigned v, bool timed, std::chrono::seconds s, std::chrono::nanoseconds ns)
{
  int64_t end = timed ? s.count() * 1000000000LL + ns.count() : INT64_MAX;
  while (__atomic_load_n(a, __ATOMIC_ACQUIRE) == v) { if (now_ns >= end || !net_.one()) { if (timed && now_ns < end) now_ns = end; return __atomic_load_n(a, __ATOMIC_ACQUIRE) != v; } }
  return true;
}
static int g_port = 30000;
struct side
{
  int in, out; minuit_protocol* p; generic_device d;
  side(int i, int o, const char* n) : in{i}, out{o}, p{new minuit_protocol{n, "127.0.0.1", uint16_t(o), uint16_t(i)}}, d{std::unique_ptr<protocol_base>{p}, n} {}
  node_base& root() { return d.get_root_node(); }
};
struct pair
{
  int a{g_port}, b{g_port + 1}; side s{a, b, "app"}, c{b, a, "app"};
  pair() { g_port += 2; if (g_port > 60000) g_port = 30000; net_.clear(); }
  ~pair() { net_.clear(); FakeNet::get().sent.clear(); }
  bool update() { bool r = c.p->update(c.root()); net_.all(); return r; }
};
struct leaf { std::string addr; int type = -1; value v; access_mode acc = access_mode::BI; bounding_mode bm = bounding_mode::FREE; int filter = 0; domain dom; unit_t unit; int prio = -1; };
using tree = std::vector<leaf>;
static std::string show(const leaf& l) { return mc::cat(l.addr, l.type < 0 ? std::string{} : mc::cat("=", str(l.v), " ", int(l.acc), int(l.bm), l.filter, l.prio, " ", get_pretty_unit_text(l.unit), " ", l.dom ? str(l.dom.get_min()) + ".." + str(l.dom.get_max()) : std::string{})); }
static std::string show(const tree& t) { std::string s; for (auto& l : t) s += (s.empty() ? "" : " ") + show(l); return s; }
static void build(node_base& root, const tree& t)
{
  for (auto& l : t)
  {
    auto& n = find_or_create_node(root, l.addr); if (l.type < 0) continue;
    auto p = n.create_parameter(VT(l.type)); p->set_access(l.acc); p->set_bounding(l.bm); p->set_repetition_filter(repetition_filter(l.filter)); if (l.dom) p->set_domain(l.dom); if (l.unit) p->set_unit(l.unit);
    if (l.prio >= 0) set_priority(n, l.prio);
    p->set_value(l.v);
  }
}
static VT wire_type(VT t) { switch (t) { case VT::CHAR: return VT::STRING; case VT::VEC2F: case VT::VEC3F: case VT::VEC4F: return VT::LIST; default: return t; } }
static std::string range(const parameter_base& p)
{
  auto& d = p.get_domain(); auto t = p.get_value_type();
  if ((t != VT::INT && t != VT::FLOAT) || !d) return "-";
  auto a = d.get_min(), b = d.get_max(); return a.valid() && b.valid() ? str(a) + ".." + str(b) : "-";
}
//! what the client must show of a server's node
static void expect(node_base& s, node_base& c, const std::string& path, std::string& bad, bool values)
{
  if (!bad.empty()) return;
  auto diff = [&](const char* w, const std::string& x, const std::string& y) { if (bad.empty() && x != y) bad = mc::cat(w, " ", path, ": server ", x, " client ", y); };
  std::string a, b; for (auto& k : s.children()) a += k->get_name() + ","; for (auto& k : c.children()) b += k->get_name() + ",";
  diff("children", a, b);
  auto p = s.get_parameter(), q = c.get_parameter();
  diff("parameter", p ? "yes" : "no", q ? "yes" : "no");
  if (p && q && bad.empty())
  {
    diff("access", mc::cat(int(p->get_access())), mc::cat(int(q->get_access())));
    if (values) diff("unit", std::string(get_pretty_unit_text(p->get_unit())), std::string(get_pretty_unit_text(q->get_unit())));
    auto t = p->get_unit() ? p->get_value_type() : wire_type(p->get_value_type());
    diff("type", mc::cat(int(t)), mc::cat(int(q->get_value_type())));
    if (q->get_value_type() != VT::BOOL) diff("bounding", mc::cat(int(p->get_bounding())), mc::cat(int(q->get_bounding())));
    diff("filter", mc::cat(int(p->get_repetition_filter())), mc::cat(int(q->get_repetition_filter())));
    diff("priority", mc::cat(get_priority(s).value_or(0)), mc::cat(get_priority(c).value_or(0)));
    if (values) { diff("range", range(*p), range(*q)); diff("value", str(ossia::convert(p->value(), t)), str(q->value())); }
  }
  for (auto& k : s.children()) { if (!bad.empty()) return; if (auto o = c.find_child(k->get_name())) expect(*k, *o, path + "/" + k->get_name(), bad, values); }
}
static bool check(mc::ctx& c, pair& p, const std::string& key, const std::string& id, bool values = true)
{
  std::string bad; expect(p.s.root(), p.c.root(), "", bad, values); c.step();
  if (!bad.empty()) { c.fail(key + " " + bad.substr(0, bad.find(' ')), id + ": " + bad); return false; }
  return true;
}
static leaf P(std::string a, VT t, value v) { leaf l; l.addr = std::move(a); l.type = int(t); l.v = std::move(v); return l; }
static leaf N(std::string a) { leaf l; l.addr = std::move(a); return l; }
static std::vector<std::pair<VT, value>> samples()
{
  return {{VT::IMPULSE, impulse{}}, {VT::INT, 0}, {VT::INT, -7}, {VT::INT, 2147483647}, {VT::FLOAT, 0.f}, {VT::FLOAT, -1.5f}, {VT::FLOAT, 1e20f}, {VT::BOOL, true}, {VT::BOOL, false}, {VT::CHAR, 'x'}, {VT::STRING, std::string{}}, {VT::STRING, std::string{"a b/c"}}, {VT::STRING, std::string(200, 'z')},
    {VT::VEC2F, make_vec(1.f, -2.f)}, {VT::VEC3F, make_vec(0.f, 0.5f, 3.f)}, {VT::VEC4F, make_vec(1.f, 2.f, 3.f, 4.f)}, {VT::LIST, L{1, 2.5f}}, {VT::LIST, L{std::string{"s"}, 3, true}}, {VT::LIST, L{7}}};
}
static void attributes(mc::ctx& c)
{
  c.in("attributes", "one parameter: 19 values of every type x 3 access modes x 6 bounding modes x 3 filters x priority unset, 0, 5; ranges of numbers; every unit");
  auto run = [&](const tree& t) { auto id = show(t); if (!c.want(id)) return; pair p; build(p.s.root(), t); c.check(p.update(), "attributes update", id + ": update failed"); check(c, p, "attributes", id); c.state(id); c.trace(); };
  const access_mode ac[] = {access_mode::BI, access_mode::GET, access_mode::SET}; const bounding_mode bm[] = {bounding_mode::FREE, bounding_mode::CLIP, bounding_mode::WRAP, bounding_mode::FOLD, bounding_mode::LOW, bounding_mode::HIGH};
  for (auto& [t, v] : samples()) for (auto a : ac) for (auto b : bm) for (int f : {0, 1}) for (int pr : {-1, 0, 5}) { auto l = P("/a", t, v); l.acc = a; l.bm = b; l.filter = f; l.prio = pr; run({l}); }
  for (auto b : bm) for (auto [lo, hi] : {std::pair{0, 10}, {-5, 5}, {3, 3}}) { auto l = P("/a", VT::INT, 4); l.dom = make_domain(lo, hi); l.bm = b; run({l}); auto k = P("/a", VT::FLOAT, 0.25f); k.dom = make_domain(float(lo), hi + .5f); k.bm = b; run({k}); }
  std::set<std::string> seen;
  for (int i = 0; i < 12; i++) for (int j = 0; j < 14; j++)
  {
    auto u = make_unit(i, j); if (!u || !seen.insert(std::string(get_pretty_unit_text(u))).second) continue;
    auto l = P("/a", matching_type(u), init_value(matching_type(u))); l.unit = u;
    switch (matching_type(u)) { case VT::FLOAT: l.v = 0.5f; break; case VT::VEC2F: l.v = make_vec(0.5f, 0.25f); break; case VT::VEC3F: l.v = make_vec(0.5f, 0.25f, 0.125f); break; case VT::VEC4F: l.v = make_vec(0.5f, 0.25f, 0.125f, 1.f); break; default: break; }
    run({l}); l.bm = bounding_mode::CLIP; l.prio = 2; run({l, P("/b", VT::INT, 3)});
  }
}
static std::vector<tree> shapes(int upto)
{
  // every tree of up to 3 nodes among these addresses (with their parents), each a container or a parameter
  std::vector<tree> r; const char* ad[] = {"/a", "/a.1", "/a/b", "/a/b/c", "/b", "/b/a"}; const int kinds = 4;
  for (int mask = 1; mask < 64; mask++) if (__builtin_popcount(mask) <= upto)
  {
    std::vector<int> on; for (int i = 0; i < 6; i++) if (mask >> i & 1) on.push_back(i);
    mc::words(kinds, int(on.size()), [&](auto& w) {
      tree t; for (size_t k = 0; k < on.size(); k++) t.push_back(w[k] == 0 ? N(ad[on[k]]) : w[k] == 1 ? P(ad[on[k]], VT::INT, 5 + int(k)) : w[k] == 2 ? P(ad[on[k]], VT::STRING, std::string("t") + char('0' + k)) : P(ad[on[k]], VT::VEC3F, make_vec(1.f, 2.f, float(k))));
      r.push_back(t);
    });
  }
  return r;
}
static void trees(mc::ctx& c)
{
  const int n = c.thorough() ? 4 : 3;
  c.in("trees", mc::cat("every tree of up to ", n, " of 6 addresses of up to 3 levels, each a container or a parameter of one of 3 types, and their parents; read twice, by a client that already has other nodes"));
  for (auto& t : shapes(n))
  {
    auto id = show(t); if (!c.want(id)) continue;
    pair p; build(p.s.root(), t); build(p.c.root(), {P("/z", VT::INT, 1), P("/a", VT::FLOAT, 2.f)});
    c.check(p.update(), "trees update", id + ": update failed");
    if (check(c, p, "trees", id)) { p.update(); check(c, p, "trees again", id); }
    c.state(id); c.trace();
  }
}
static void faults(mc::ctx& c)
{
  const int pairs = c.thorough() ? 1 : 0;
  c.in("faults", mc::cat("trees of up to 2 nodes read while any one datagram, or any two of those of one node", pairs ? " or of 2" : "", ", are lost or repeated: the tree, its types and attributes are complete; with repetitions only, the values too"));
  auto ts = shapes(2); ts.push_back({P("/a", VT::INT, 3), P("/a/b", VT::FLOAT, .5f), N("/c/d")});
  for (auto& t : ts)
  {
    auto id = show(t); int count = 0; { pair p; build(p.s.root(), t); p.update(); count = net_.n; }
    auto run = [&](std::map<int, int> f) {
      std::string w = id + " |"; bool lost = false; for (auto& [i, k] : f) { w += mc::cat(" ", i, k == 1 ? " lost" : " repeated"); lost |= k == 1; }
      if (!c.want(w)) return;
      pair p; build(p.s.root(), t); net_.faults = f; c.check(p.update(), "faults update", w + ": update failed"); check(c, p, "faults", w, !lost); c.state(w); c.trace();
    };
    for (int i = 0; i < count + 2; i++) for (int k : {1, 2}) { run({{i, k}}); if (t.size() == 1 || pairs) for (int j = i + 1; j < count + 4; j++) for (int m : {1, 2}) run({{i, k}, {j, m}}); }
  }
}
static void live(mc::ctx& c)
{
  const int n = c.thorough() ? 4 : 3;
  c.in("live", mc::cat("every sequence of up to ", n, " of {the server pushes, the server sets quietly, the client pushes, the client pulls, the answer of a pull is lost, the client listens, stops listening} on a parameter of each of 9 types, and of its neighbour"));
  struct kind { VT t; value a, b, d; };
  const std::vector<kind> ks{{VT::INT, 1, 2, 3}, {VT::FLOAT, 1.f, 2.5f, -3.f}, {VT::BOOL, true, false, true}, {VT::STRING, std::string("a"), std::string("bc"), std::string()}, {VT::VEC2F, make_vec(1.f, 2.f), make_vec(2.f, 3.f), make_vec(0.f, 0.f)}, {VT::VEC3F, make_vec(1.f, 2.f, 3.f), make_vec(2.f, 3.f, 4.f), make_vec(0.f, 1.f, 0.f)}, {VT::VEC4F, make_vec(1.f, 2.f, 3.f, 4.f), make_vec(4.f, 2.f, 3.f, 1.f), make_vec(0.f, 0.f, 0.f, 1.f)}, {VT::LIST, L{1, 2}, L{3.5f, std::string("x")}, L{true}}, {VT::IMPULSE, impulse{}, impulse{}, impulse{}}};
  static const char* const names[] = {"push", "set", "client push", "pull", "lost pull", "listen", "unlisten"};
  for (auto& k : ks) for (int len = 1; len <= n; len++) mc::words(7, len, [&](auto& w) {
    std::string id = mc::cat(int(k.t), ":"); for (int x : w) id += mc::cat(" ", names[x], ";"); if (!c.want(id)) return;
    pair p; build(p.s.root(), {P("/x/a", k.t, k.a), P("/x/ab", VT::INT, 9)}); p.update();
    auto sp = find_node(p.s.root(), "/x/a")->get_parameter(); auto n = find_node(p.c.root(), "/x/a"); auto cp = n ? n->get_parameter() : nullptr; if (!cp) { c.fail("live tree", id); return; }
    auto t = cp->get_value_type(); value sv = k.a, cv = ossia::convert(k.a, t); int turn = 0; std::vector<std::string> heard, want; std::optional<parameter_base::callback_index> cb; std::string bad;
    for (int x : w)
    {
      const value& v = turn++ % 2 ? k.d : k.b;
      switch (x)
      {
        case 0: sp->push_value(v); net_.all(); sv = v; cv = ossia::convert(v, t); if (cb) want.push_back(str(cv)); break;
        case 1: sp->set_value(v); net_.all(); sv = v; break;
        case 2: cp->push_value(ossia::convert(v, t)); net_.all(); cv = ossia::convert(v, t); sv = ossia::convert(cv, k.t); if (cb) want.push_back(str(cv)); break;
        case 3: { bool r = p.c.p->pull(*cp); net_.all(); if (!r) bad = "the pull failed"; cv = ossia::convert(sv, t); if (cb) want.push_back(str(cv)); break; }
        case 4: { net_.faults[net_.n + 1] = 1; bool r = p.c.p->pull(*cp); net_.all(); net_.faults.clear(); if (r) bad = "a pull that got no answer succeeded"; break; }
        case 5: if (!cb) { cb = cp->add_callback([&](const value& y) { heard.push_back(str(y)); }); net_.all(); } break;
        case 6: if (cb) { cp->remove_callback(*cb); cb.reset(); net_.all(); } break;
      }
      if (bad.empty() && str(sp->value()) != str(sv)) bad = mc::cat("the server has ", str(sp->value()), " not ", str(sv));
      if (bad.empty() && str(cp->value()) != str(cv)) bad = mc::cat("the client has ", str(cp->value()), " not ", str(cv));
      if (bad.empty() && heard != want) bad = mc::cat("the client heard ", heard.size(), " values, not ", want.size(), heard.empty() ? "" : ", last " + heard.back(), want.empty() ? "" : " want " + want.back());
      if (bad.empty() && str(find_node(p.c.root(), "/x/ab")->get_parameter()->value()) != "i9") bad = "its neighbour changed";
      if (!bad.empty()) break;
    }
    if (cb) cp->remove_callback(*cb);
    if (!bad.empty()) c.fail("live " + bad.substr(0, 24), id + " " + bad);
    c.state(id); c.trace(); c.step();
  });
}
static void malformed(mc::ctx& c)
{
  c.in("malformed", "every message of a discovery, and hand-written ones, with any one argument removed, changed to each other type or emptied, the arguments cut after any of them, or the address cut or its sign or operation changed, sent to either side: nothing crashes and the next discovery is right");
  tree t{P("/a", VT::INT, 3), P("/a/b", VT::VEC3F, make_vec(1.f, 2.f, 3.f)), N("/c")}; t[0].dom = make_domain(0, 10); t[1].unit = parse_pretty_unit("color.rgb");
  std::vector<gram> good; { pair p; build(p.s.root(), t); p.update(); for (auto& g : net_.record) { g.port -= p.a; good.push_back(g); } }
  struct msg { int to; std::string addr; std::vector<value> args; };
  std::vector<msg> ms; std::set<std::string> seen;
  for (auto& g : good)
  {
    oscpack::ReceivedPacket pk(g.d.data(), int(g.d.size())); oscpack::ReceivedMessage m(pk); msg x{g.port, m.AddressPattern(), {}};
    for (auto it = m.ArgumentsBegin(); it != m.ArgumentsEnd(); ++it) x.args.push_back(it->IsString() ? value(std::string(it->AsString())) : it->IsInt32() ? value(int(it->AsInt32())) : it->IsFloat() ? value(it->AsFloat()) : it->IsBool() ? value(it->AsBool()) : value(impulse{}));
    ms.push_back(x);
  }
  for (const char* at : {"description", "valueStepsize", "tags", "active", "valueDefault", "rampDrive", "service", "type", "rangeClipmode", "nope", ""}) for (auto* act : {"app:get", "app:listen", "app?get", "app!get", "app?listen"}) for (int k = 0; k < 2; k++) ms.push_back({k, act, {value(std::string("/a:") + at), value(std::string("text"))}});
  for (auto* a : {"app:namespace", "app?namespace", "app!namespace", "app:", "app?x", "x", "", ":", "?", "!g"}) for (int k = 0; k < 2; k++) { ms.push_back({k, a, {}}); ms.push_back({k, a, {value(std::string("/a"))}}); ms.push_back({k, a, {value(std::string("/new")), value(std::string("Data")), value(std::string("nodes={")), value(std::string("q")), value(std::string("}")), value(std::string("attributes={")), value(std::string("nope"))}}); }
  auto send = [&](const msg& m) {
    std::string id = mc::cat(m.to, " ", m.addr); for (auto& a : m.args) id += " " + str(a);
    if (!seen.insert(id).second || !c.want(id)) return;
    char buf[4096]; std::vector<char> d;
    try { oscpack::OutboundPacketStream o(buf, sizeof buf); o << oscpack::BeginMessageN(m.addr); for (auto& a : m.args) { if (auto s = a.target<std::string>()) o << std::string_view(*s); else if (auto i = a.target<int>()) o << int32_t(*i); else if (auto f = a.target<float>()) o << *f; else if (auto b = a.target<bool>()) o << *b; else o << oscpack::InfinitumType(); } o << oscpack::EndMessage(); d.assign(o.Data(), o.Data() + o.Size()); }
    catch (...) { return; }
    pair p; build(p.s.root(), t); p.update(); net_.clear();
    FakeNet::get().deliver_now(m.to ? p.b : p.a, d.data(), d.size(), 1); net_.all();
    { tree u = t; p.s.d.get_root_node().clear_children(); build(p.s.root(), u); }
    c.check(p.update(), "malformed update", id + ": update failed"); check(c, p, "malformed", id); c.state(id); c.trace();
  };
  const std::vector<value> others{1, 2.5f, true, impulse{}, std::string{}, std::string{"/a:"}, std::string{"}"}};
  for (auto& m : ms)
  {
    send(m); auto n = m.args.size();
    for (size_t i = 0; i < n; i++) { auto x = m; x.args.resize(i); send(x); x = m; x.args.erase(x.args.begin() + i); send(x); for (auto& o : others) { x = m; x.args[i] = o; send(x); } }
    for (size_t i = 0; i < m.addr.size(); i++) { auto x = m; x.addr.resize(i); send(x); }
    for (char ch : std::string(":?!lngx")) for (size_t i = m.addr.find_first_of(":?!"); i < m.addr.size() && i < m.addr.find_first_of(":?!") + 2; i++) { auto x = m; x.addr[i] = ch; send(x); }
  }
}
static void body(mc::ctx& c)
{
  FakeNet::get().intercept = [](int port, const char* d, size_t n, int from) { if (n >= 8 && !std::memcmp(d, "__stop_", 7)) return false; std::lock_guard l{net_.m}; net_.q.push_back({port, {d, d + n}, from}); return true; };
  attributes(c); trees(c); faults(c); live(c); malformed(c);
}
MC_MAIN(body)
