// OSCQuery: a server and its clients living together: edits, values both ways.
#include "oscq.hpp"
static node_base* at(node_base& r, const char* p) { return find_node(r, p); }
// ---- part: histories
struct op { const char* name; std::function<void(mirror&)> f; };
static parameter_base* par(node_base& r, const char* p) { auto n = at(r, p); return n ? n->get_parameter() : nullptr; }
static int g_k = 0; // every value pushed is new
static value next(val_type t) { g_k++; switch (t) { case VT::INT: return g_k; case VT::FLOAT: return g_k + 0.5f; case VT::STRING: return std::string("s") + std::to_string(g_k); case VT::BOOL: return bool(g_k & 1); default: return init_value(t); } }
static void push(node_base& r, const char* p) { if (auto x = par(r, p)) x->push_value(next(x->get_value_type())); }
static const std::vector<op>& ops()
{
  static const std::vector<op> o{
    {"create a", [](mirror& m) { if (!at(m.sroot(), "/a")) m.sroot().create_child("a")->create_parameter(VT::INT)->push_value(next(VT::INT)); }},
    {"create b", [](mirror& m) { auto& b = create_node(m.sroot(), "/b"); if (!b.get_parameter()) b.create_parameter(VT::STRING); push(m.sroot(), "/b"); }},
    {"create a/x", [](mirror& m) { auto& n = create_node(m.sroot(), "/a/x"); if (!n.get_parameter()) n.create_parameter(VT::FLOAT); push(m.sroot(), "/a/x"); }},
    {"empty a/y", [](mirror& m) { find_or_create_node(m.sroot(), "/a/y"); }},
    {"remove a", [](mirror& m) { m.sroot().remove_child("a"); }},
    {"remove a/x", [](mirror& m) { if (auto a = at(m.sroot(), "/a")) a->remove_child("x"); }},
    {"clear", [](mirror& m) { m.sroot().clear_children(); }},
    {"rename a c", [](mirror& m) { if (auto a = at(m.sroot(), "/a")) a->set_name("c"); }},
    {"rename c a", [](mirror& m) { if (auto a = at(m.sroot(), "/c")) a->set_name("a"); }},
    {"rename a b", [](mirror& m) { if (auto a = at(m.sroot(), "/a")) a->set_name("b"); }},
    {"rename a/x z", [](mirror& m) { if (auto a = at(m.sroot(), "/a/x")) a->set_name("z"); }},
    {"push a", [](mirror& m) { push(m.sroot(), "/a"); }},
    {"push a/x", [](mirror& m) { push(m.sroot(), "/a/x"); }},
    {"push c/x", [](mirror& m) { push(m.sroot(), "/c/x"); }},
    {"client push a", [](mirror& m) { push(m.croot(), "/a"); }},
    {"client push a/x", [](mirror& m) { push(m.croot(), "/a/x"); }},
    {"client push c/x", [](mirror& m) { push(m.croot(), "/c/x"); }},
    {"client push b", [](mirror& m) { push(m.croot(), "/b"); }},
    {"type a", [](mirror& m) { if (auto p = par(m.sroot(), "/a")) { p->set_value_type(p->get_value_type() == VT::INT ? VT::STRING : VT::INT); p->push_value(next(p->get_value_type())); } }},
    {"parameter a", [](mirror& m) { if (auto a = at(m.sroot(), "/a")) { if (a->get_parameter()) a->remove_parameter(); else a->create_parameter(VT::FLOAT)->push_value(next(VT::FLOAT)); } }},
    {"critical a", [](mirror& m) { if (auto a = at(m.sroot(), "/a")) set_critical(*a, !get_critical(*a)); }},
    {"describe a/x", [](mirror& m) { if (auto a = at(m.sroot(), "/a/x")) set_description(*a, "d" + std::to_string(++g_k)); }},
    {"listen a", [](mirror& m) { if (auto p = par(m.croot(), "/a")) p->add_callback([](const value&) {}); }},
    {"update a", [](mirror& m) { if (auto a = at(m.croot(), "/a")) { auto f = m.cs[0]->p->update_async(*a); m.pump(); } }},
  };
  return o;
}
static void histories(mc::ctx& c)
{
  int n = c.thorough() ? 4 : 3; auto& o = ops();
  c.in("histories", mc::cat("every sequence of ", n, " edits of the server, values from both sides, callbacks and updates; after each step and its messages, both trees are the same"));
  std::unique_ptr<mirror> m; int used = 0;
  mc::words(o.size(), n, [&](const ints& w) {
    auto id = "history " + mc::join(w); if (!c.want(id)) return; c.trace();
    if (!m || ++used > 500) { m.reset(); m = std::make_unique<mirror>(); used = 0; }
    m->sroot().create_child("a")->create_parameter(VT::INT)->push_value(0); create_node(m->sroot(), "/a/x").create_parameter(VT::FLOAT); m->pump();
    std::string key, txt; bool ok = true;
    for (int i : w)
    {
      key += std::string(key.empty() ? "" : ", ") + o[i].name; o[i].f(*m); c.step();
      if (!m->pump()) { c.fail("endless " + key, id); ok = false; break; }
      if (!same(c, "history " + key, id, m->sroot(), m->croot())) { ok = false; break; }
    }
    std::string st; for (auto& x : describe(m->sroot())) st += x.second + ";"; c.state(std::to_string(std::hash<std::string>{}(st)));
    m->sroot().clear_children(); m->pump(); if (!ok || !m->croot().children().empty()) { if (ok) c.fail("history left over " + key, id); m.reset(); }
  });
}
// ---- part: deliveries
static void deliveries(mc::ctx& c)
{
  int n = c.thorough() ? 4 : 3; auto& o = ops(); auto& f = websocketpp::FakeWs::get();
  c.in("deliveries", mc::cat("every sequence of ", n, " edits, all made before the first message arrives or with one message arriving in between; once all has arrived both trees are the same but for the values"));
  std::unique_ptr<mirror> m; int used = 0;
  // mode: bit k: a message arrives after edit k
  // (an update read while its answer crosses a renaming is the one of another node)
  mc::words(o.size() - 1, n, [&](const ints& w) { for (int mode = 0; mode < (1 << (n - 1)); mode++) {
    auto id = mc::cat("delivery ", mc::join(w), " ", mode); if (!c.want(id)) continue; c.trace(); c.state(id);
    if (!m || ++used > 500) { m.reset(); m = std::make_unique<mirror>(); used = 0; }
    m->sroot().create_child("a")->create_parameter(VT::INT)->push_value(0); create_node(m->sroot(), "/a/x").create_parameter(VT::FLOAT); m->pump();
    std::string key; for (int k = 0; k < n; k++) { key += std::string(key.empty() ? "" : ", ") + o[w[k]].name; m->drain(); o[w[k]].f(*m); c.step(); m->drain(); if (mode >> k & 1) { auto r = f.ready(); if (!r.empty()) f.step(r.front()); m->drain(); m->commands(); } }
    bool ok = m->pump() && same(c, "delivery " + key, id, m->sroot(), m->croot(), false);
    m->sroot().clear_children(); m->pump(); if (!ok || !m->croot().children().empty()) { if (ok) c.fail("delivery left over " + key, id); m.reset(); }
  }});
}
// ---- part: clients
// every party (server, clients) pushes; each other party gets each value once, in order, the pusher not
static void clients(mc::ctx& c)
{
  c.in("clients", "every sequence of up to 4 values pushed by a server and one to three clients, on ordinary and critical parameters, without echo, with echo in the server, or in the clients too; clients joining and leaving in between");
  for (int nc = 1; nc <= 3; nc++) for (int crit = 0; crit < 2; crit++) for (int echo = 0; echo < 3; echo++) // 2: the clients have their echo enabled too
  {
    std::unique_ptr<mirror> m; int used = 0;
    // 0: server pushes; i: client i pushes; nc + 1: another client joins; nc + 2: the first client leaves
    int len = c.thorough() ? 5 : 4;
    for (int n = 1; n <= len; n++) mc::words(nc + 3, n, [&](const ints& w) {
      auto id = mc::cat("clients ", nc, " critical ", crit, " echo ", echo, " ", mc::join(w)); if (!c.want(id)) return;
      int joins = 0, leaves = 0; for (int i : w) { joins += i == nc + 1; leaves += i == nc + 2; } if (joins > 1 || leaves > 1 || (joins || leaves) && n == len) return;
      c.state(id); c.trace();
      if (!m || ++used > 300) { m.reset(); m = std::make_unique<mirror>(nc); used = 0; m->s->set_echo(echo); if (echo > 1) for (auto& x : m->cs) x->d->set_echo(true); }
      m->sroot().clear_children(); m->pump(); auto n = m->sroot().create_child("a"); auto p = n->create_parameter(VT::INT); set_critical(*n, crit); m->pump();
      struct party { std::vector<int> got, want; parameter_base* p; callback_container<value_callback>::iterator it; bool gone{}; int start{}; };
      std::deque<party> P; auto add = [&](node_base& r) { auto q = par(r, "/a"); if (!q) { c.fail("no parameter", id); return; } P.emplace_back(); auto* x = &P.back(); x->p = q; x->it = q->add_callback([x](const value& v) { x->got.push_back(v.get<int>()); }); };
      add(m->sroot()); for (int i = 0; i < nc; i++) add(m->croot(i)); m->pump();
      int k = 0; bool ok = true, changed = false; std::size_t udp = 0;
      for (int i : w)
      {
        c.step();
        if (i == nc + 1) { changed = true; m->join(); if (echo > 1) m->cs.back()->d->set_echo(true); if (!par(m->croot(m->cs.size() - 1), "/a")) { c.fail("joined without the tree", id); ok = false; break; } add(m->croot(m->cs.size() - 1)); m->pump(); int last = P[0].p->value().get<int>(); c.check(P.back().p->value() == value(last), "joined with another value", id); continue; }
        if (i == nc + 2) { changed = true; P[1].p->remove_callback(P[1].it); P[1].gone = true; m->forget(); m->cs[0]->d.reset(); m->pump(false); continue; }
        if (P[i].gone) continue;
        auto before = oscpack::FakeNet::get().total; P[i].p->push_value(++k); m->pump(false); udp += oscpack::FakeNet::get().total - before;
        // the pusher's own callbacks run once; the others get it once; without echo a client's value stops at the server
        for (size_t j = 0; j < P.size(); j++) if (!P[j].gone && (int(j) == i || j == 0 || i == 0 || echo)) P[j].want.push_back(k);
      }
      if (ok) for (size_t j = 0; j < P.size(); j++) if (!P[j].gone) { std::string cls = mc::cat("values ", j ? "client" : "server", crit ? " critical" : "", echo ? " echo" : "", nc > 1 ? " several" : "", joins ? " join" : "", leaves ? " leave" : ""); c.check(P[j].got == P[j].want, cls, mc::cat(id, ": party ", j, " got ", mc::join(P[j].got), " not ", mc::join(P[j].want))); }
      c.check(!crit || !udp, "critical by datagram", id);
      for (auto& x : P) if (!x.gone) x.p->remove_callback(x.it);
      if (changed || !ok) m.reset();
    });
  }
}
static void body(mc::ctx& c) { histories(c); deliveries(c); clients(c); }
MC_MAIN(body)
