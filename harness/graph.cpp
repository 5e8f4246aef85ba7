// Execution graphs: which nodes run, in which order, with which data; closure algorithms.
#include "mc.hpp"
#include <algorithm>
#include <memory>
#include <ossia/dataflow/dataflow.hpp>
#include <ossia/dataflow/execution_state.hpp>
#include <ossia/dataflow/graph/breadth_first_search.hpp>
#include <ossia/dataflow/graph/graph.hpp>
#include <ossia/dataflow/graph/graph_static.hpp>
#include <ossia/dataflow/graph_edge.hpp>
#include <ossia/dataflow/graph_edge_helpers.hpp>
#include <ossia/dataflow/graph_node.hpp>
#include <ossia/dataflow/port.hpp>
#include <ossia/network/base/device.hpp>
#include <ossia/network/base/protocol.hpp>
#include <ossia/network/common/path.hpp>
#include <ossia/network/generic/generic_device.hpp>
#include <ossia/network/generic/generic_parameter.hpp>
#include <iostream>
using namespace ossia;
struct proto : net::protocol_base
{
  proto() : protocol_base{flags{}} {}
  bool pull(net::parameter_base&) override { return true; }
  bool push(const net::parameter_base&, const ossia::value&) override { return true; }
  bool push(const net::parameter_base&, ossia::value&&) override { return true; }
  bool push_raw(const net::full_parameter_data&) override { return true; }
  bool observe(net::parameter_base&, bool) override { return true; }
  bool update(net::node_base&) override { return true; }
};
using ints = std::vector<int>;
static std::string show(const ints& v) { std::string s; for (size_t i = 0; i < v.size(); i++) s += mc::cat(i ? " " : "", v[i]); return s; }
// ---------------------------------------------------------------- algorithms
using G = boost::adjacency_list<boost::vecS, boost::vecS, boost::directedS>;
using TC = boost::adjacency_list<boost::vecS, boost::vecS, boost::directedS, int, int64_t>;
static void closure(mc::ctx& c)
{
  TransitiveClosureState<G, TC> reused;
  auto one = [&](int n, const std::vector<std::pair<int, int>>& es, const std::string& id) {
    if (!c.want(id)) return;
    bool r[8][8] = {};
    G g(n);
    for (auto [a, b] : es) { boost::add_edge(a, b, g); r[a][b] = true; }
    for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (r[i][k] && r[k][j]) r[i][j] = true;
    auto cmp = [&](auto& st, const char* how) {
      TC t;
      ossia::transitive_closure(g, t, st);
      c.check(n == 0 || int(boost::num_vertices(t)) == n, mc::cat("closure vertices ", how), id);
      if (int(boost::num_vertices(t)) == n)
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++)
          c.check(boost::edge(i, j, t).second == r[i][j], mc::cat("closure edge ", how), mc::cat(id, ": ", i, "->", j, " reachable=", r[i][j]));
    };
    cmp(reused, "reused state");
    TransitiveClosureState<G, TC> st; cmp(st, "fresh state");
    boost::circular_buffer<std::size_t> q(std::max(n, 1)); auto color = boost::make_two_bit_color_map_fast(0, get(boost::vertex_index, g));
    struct vis { std::set<int> seen; int stop; bool discover_vertex(std::size_t v, const G&) { seen.insert(v); return int(v) == stop; } };
    for (int i = 0; i < n; i++)
    {
      q.clear(); color.resize(n); vis v{{}, -1};
      bfs::breadth_first_search_simple(g, i, v, q, color);
      std::set<int> want{i}; for (int j = 0; j < n; j++) if (r[i][j]) want.insert(j);
      c.check(v.seen == want, "bfs visits", mc::cat(id, " from ", i));
      for (int j = 0; j < n; j++) { q.clear(); color.resize(n); vis w{{}, j}; bfs::breadth_first_search_simple(g, i, w, q, color); c.check(w.seen.count(j) == want.count(j), "bfs finds", mc::cat(id, " from ", i, " to ", j)); }
    }
    c.state(id); c.step(n * n + 1); c.trace(); c.outcome(mc::cat(n, es.size()));
  };
  const bool T = c.thorough();
  c.in("closure", mc::cat("every directed graph with self loops on <=", T ? 4 : 3, " vertices, without self loops on <=4, every acyclic one on ", T ? "5 and (one labelling) 6" : "(one labelling) 5", "; one work state reused over all of them and a fresh one each time"));
  for (int n = 0; n <= 4; n++)
    for (int loops = 0; loops < (n <= (T ? 4 : 3) ? 2 : 1); loops++)
    {
      std::vector<std::pair<int, int>> sl; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j || loops) sl.push_back({i, j});
      for (uint64_t m = 0; m < 1ull << sl.size(); m++)
      { std::vector<std::pair<int, int>> es; for (size_t k = 0; k < sl.size(); k++) if (m >> k & 1) es.push_back(sl[k]); one(n, es, mc::cat("tc ", n, loops ? "l " : " ", m)); }
    }
  for (int n = 5; n <= (T ? 6 : 5); n++)
  {
    std::vector<std::pair<int, int>> sl; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) sl.push_back({i, j});
    for (uint64_t m = 0; m < 1ull << sl.size(); m++)
    {
      std::vector<std::pair<int, int>> up, dn;
      for (size_t k = 0; k < sl.size(); k++) if (m >> k & 1) { up.push_back(sl[k]); dn.push_back({sl[k].second, sl[k].first}); }
      one(n, up, mc::cat("tc ", n, "u ", m)); if (T || n < 6) one(n, dn, mc::cat("tc ", n, "d ", m));
    }
  }
}
// ---------------------------------------------------------------- graphs
enum gk { TCG, BOOST, BFS, SIMPLE, DYN, NG };
static const char* GN[] = {"tc", "boost_tc", "bfs", "simple", "dynamic"};
static std::shared_ptr<graph_interface> make(int k)
{
  switch (k)
  {
    case TCG: return std::make_shared<graph_static<tc_update<fast_tc>, static_exec>>();
    case BOOST: return std::make_shared<graph_static<tc_update<boost_tc>, static_exec>>();
    case BFS: return std::make_shared<graph_static<bfs_update, static_exec>>();
    case SIMPLE: return std::make_shared<graph_static<simple_update, static_exec>>();
    default: return std::make_shared<ossia::graph>();
  }
}
struct rec { int node; ints in; int tokens; };
struct tnode final : graph_node
{
  int id; std::vector<rec>& log; int n = 0; int mul = 1;
  tnode(int i, std::vector<rec>& l, bool in, bool out) : id{i}, log{l}
  { if (in) m_inlets.push_back(new value_inlet); if (out) m_outlets.push_back(new value_outlet); }
  value_port& i() { return *m_inlets[0]->target<value_port>(); }
  value_port& o() { return *m_outlets[0]->target<value_port>(); }
  void run(const token_request& t, exec_state_facade) noexcept override
  {
    ints v; if (!m_inlets.empty()) for (auto& x : i().get_data()) v.push_back(ossia::convert<int>(x.value));
    log.push_back({id, v, 0});
    if (!m_outlets.empty()) o().write_value(int(100 * (id + 1) + n), 0);
    n++;
  }
  std::string label() const noexcept override { return mc::cat("n", id); }
};
enum et { GLUT, SBOTH, SIN, SOUT, DSTR, DEP };
struct E { int a, b, t; };
enum ad { NONE, A, B, PAT };
static const char* ADN[] = {"-", "a", "b", "*"};
struct world
{
  net::generic_device dev{std::make_unique<proto>(), "d"};
  net::parameter_base *p[2];
  execution_state st;
  world()
  {
    for (int i = 0; i < 2; i++) { p[i] = net::create_node(dev, i ? "/b" : "/a").create_parameter(val_type::INT); p[i]->set_value(i + 1); }
    st.register_device(&dev); st.begin_tick();
  }
};
static world& W() { static world w; return w; }
struct rig
{
  mc::ctx& c; int k; std::string id; int N;
  std::vector<rec> log;
  std::shared_ptr<graph_interface> g;
  std::vector<std::shared_ptr<tnode>> nd; std::vector<int> present, muted; std::vector<ad> ia, oa;
  std::vector<int> iscope; // inlets read the environment of the tick only if bit 1
  std::vector<E> es; std::vector<std::shared_ptr<graph_edge>> ed;
  // model state: FIFO of the delayed edges
  std::vector<std::vector<ints>> fifo;
  std::vector<int> cnt;
  int env0[2];
  rig(mc::ctx& c, int k, std::string id, int N) : c{c}, k{k}, id{std::move(id)}, N{N}, g{make(k)}, nd(N), present(N), muted(N), ia(N), oa(N), iscope(N, 3), cnt(N)
  { for (int i = 0; i < 2; i++) { W().p[i]->set_value(i + 1); env0[i] = i + 1; } }
  static void put(destination_t& d, ad a)
  {
    if (a == A || a == B) d = W().p[a - 1];
    else if (a == PAT) d = *traversal::make_path("d:/?");
  }
  void node(int i, ad in = NONE, ad out = NONE, bool hasin = true, bool hasout = true)
  {
    nd[i] = std::make_shared<tnode>(i, log, hasin, hasout); ia[i] = in; oa[i] = out;
    if (hasin) put(nd[i]->root_inputs()[0]->address, in);
    if (hasout) put(nd[i]->root_outputs()[0]->address, out);
  }
  void add(int i) { if (!nd[i]) node(i); g->add_node(nd[i]); present[i] = 1; }
  void link(int a, int b, int t)
  {
    connection con; switch (t) { case GLUT: con = immediate_glutton_connection{}; break; case DSTR: con = delayed_strict_connection{}; break; case DEP: con = dependency_connection{}; break;
      default: con = immediate_strict_connection{t == SBOTH ? immediate_strict_connection::both : t == SIN ? immediate_strict_connection::inbound : immediate_strict_connection::outbound}; }
    auto e = t == DEP ? make_edge(con, outlet_ptr{}, inlet_ptr{}, nd[a], nd[b]) : make_edge(con, nd[a]->root_outputs()[0], nd[b]->root_inputs()[0], nd[a], nd[b]);
    g->connect(e); es.push_back({a, b, t}); ed.push_back(e); fifo.emplace_back(); present[a] = present[b] = 1;
  }
  void unlink(size_t i) { g->disconnect(ed[i]); drop(i); }
  void drop(size_t i) { es.erase(es.begin() + i); ed.erase(ed.begin() + i); fifo.erase(fifo.begin() + i); }
  void remove(int i) { g->remove_node(nd[i]); present[i] = 0; for (size_t e = es.size(); e-- > 0;) if (es[e].a == i || es[e].b == i) drop(e); }
  bool cyclic() const
  {
    bool r[8][8] = {}; for (auto& e : es) r[e.a][e.b] = true;
    for (int m = 0; m < N; m++) for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) r[i][j] |= r[i][m] && r[m][j];
    for (int i = 0; i < N; i++) if (r[i][i]) return true; return false;
  }
  bool hits(ad x, int q) const { return x == PAT || x == q + 1; }
  void tick(int mask, const std::string& when)
  {
    auto& st = W().st;
    auto bad = [&](const char* what, const std::string& d) { c.fail(mc::cat(what, " ", GN[k]), mc::cat(id, " ", when, ": ", d)); };
    log.clear();
    st.begin_tick();
    for (int i = 0; i < N; i++) if (present[i] && mask >> i & 1) nd[i]->request(simple_token_request{0_tv, 1_tv, 1_tv, 0_tv});
    g->state(st);
    c.step();
    if (cyclic())
    {
      c.check(log.empty(), mc::cat("cyclic runs ", GN[k]), id);
      for (auto& n : nd) if (n) n->disable();
      st.commit(); return;
    }
    // who must run: the largest set closed under the strict relationships
    std::vector<int> en(N);
    for (int i = 0; i < N; i++) en[i] = present[i] && (mask >> i & 1);
    for (bool ch = true; ch;)
    {
      ch = false; auto cur = en;
      for (int i = 0; i < N; i++)
        if (cur[i])
        {
          bool off = muted[i];
          for (size_t x = 0; x < es.size(); x++)
          {
            auto& e = es[x];
            if (e.b == i && (e.t == SBOTH || e.t == SOUT) && !cur[e.a]) off = true;
            if (e.a == i && (e.t == SBOTH || e.t == SIN) && !cur[e.b]) off = true;
            if (e.b == i && e.t == DSTR && fifo[x].empty()) off = true;
          }
          if (off) { en[i] = 0; ch = true; }
        }
    }
    std::vector<int> ran(N, -1), times(N);
    for (size_t x = 0; x < log.size(); x++) { ran[log[x].node] = x; times[log[x].node]++; }
    for (int i = 0; i < N; i++)
    {
      if (times[i] != en[i]) { bad(en[i] ? times[i] ? "node runs twice" : "enabled node not run" : "disabled node runs", mc::cat("n", i, " ran ", times[i], " times, expected ", en[i])); W().st.commit(); return; }
    }
    for (auto& e : es) if (en[e.a] && en[e.b] && ran[e.a] > ran[e.b]) bad(e.t == DEP ? "dependency order" : "cable order", mc::cat("n", e.a, "->n", e.b));
    if (k == TCG || k == BOOST || k == BFS)
    {
      bool r[8][8] = {}, d[8][8] = {};
      for (auto& e : es) r[e.a][e.b] = true;
      for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) if (i != j && present[i] && present[j]) for (int q = 0; q < 2; q++) if (hits(oa[i], q) && hits(ia[j], q)) r[i][j] = d[i][j] = true;
      for (int m = 0; m < N; m++) for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) r[i][j] |= r[i][m] && r[m][j];
      for (int i = 0; i < N; i++) for (int j = 0; j < N; j++)
        if (d[i][j] && !r[j][i] && en[i] && en[j] && ran[i] > ran[j]) bad("address order", mc::cat("n", i, " writes what n", j, " reads, but runs after it"));
    }
    // data
    std::vector<ints> env(2);
    std::vector<int> out(N);
    for (auto& l : log)
    {
      int i = l.node; ints want;
      bool copy = true, any = false;
      for (auto& e : es) if (e.b == i && e.t != DEP) { if (!any) { copy = false; any = true; } copy |= e.t == GLUT && !en[e.a]; }
      if (copy) for (int q = 0; q < 2; q++) if (hits(ia[i], q)) { if (env[q].empty()) want.push_back(env0[q]); else want.insert(want.end(), env[q].begin(), env[q].end()); }
      for (size_t x = 0; x < es.size(); x++)
      {
        auto& e = es[x];
        if (e.b != i || e.t == DEP) continue;
        if (e.t == DSTR) { want.insert(want.end(), fifo[x][0].begin(), fifo[x][0].end()); fifo[x].erase(fifo[x].begin()); }
        else if (en[e.a]) want.push_back(out[e.a]);
      }
      auto got = l.in; std::sort(got.begin(), got.end()); auto w = want; std::sort(w.begin(), w.end());
      if (got != w) bad(ia[i] == NONE ? "cable data" : "inlet data", mc::cat("n", i, " got [", show(l.in), "] expected [", show(want), "]"));
      else if (ia[i] != PAT && l.in != want) bad("inlet data order", mc::cat("n", i, " got [", show(l.in), "] expected [", show(want), "]"));
      out[i] = 100 * (i + 1) + cnt[i]++;
      bool wr = true; any = false;
      for (size_t x = 0; x < es.size(); x++)
      {
        auto& e = es[x]; if (e.a != i || e.t == DEP) continue;
        if (!any) { wr = false; any = true; }
        wr |= e.t == GLUT && !en[e.b];
        if (e.t == DSTR) fifo[x].push_back({out[i]});
      }
      if (wr) for (int q = 0; q < 2; q++) if (hits(oa[i], q)) env[q].push_back(out[i]);
    }
    st.commit();
    for (int q = 0; q < 2; q++)
    {
      if (!env[q].empty()) env0[q] = env[q].back();
      int v = ossia::convert<int>(W().p[q]->value());
      if (v != env0[q]) { bad("committed value", mc::cat(q ? "/b" : "/a", " is ", v, " expected ", env0[q])); env0[q] = v; }
    }
    std::string o; for (auto& l : log) o += mc::cat("n", l.node, "[", show(l.in), "]"); c.outcome(mc::cat(GN[k], o));
  }
};
static void done(mc::ctx& c, rig& r) { c.trace(); if (!c.replaying() && c.cur->traces % 5000 == 1) c.sample(r.id); }
static std::vector<std::vector<std::pair<int, int>>> dags(int n, bool cyc = false)
{
  std::vector<std::pair<int, int>> sl; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j) sl.push_back({i, j});
  std::vector<std::vector<std::pair<int, int>>> r;
  for (uint64_t m = 0; m < 1ull << sl.size(); m++)
  {
    bool a[8][8] = {}; std::vector<std::pair<int, int>> e;
    for (size_t k = 0; k < sl.size(); k++) if (m >> k & 1) { e.push_back(sl[k]); a[sl[k].first][sl[k].second] = true; }
    for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a[i][j] |= a[i][k] && a[k][j];
    bool c = false; for (int i = 0; i < n; i++) c |= a[i][i];
    if (c == cyc) r.push_back(e);
  }
  return r;
}
static std::string est(const std::vector<std::pair<int, int>>& e) { std::string s; for (auto [a, b] : e) s += mc::cat(a, b, ","); return s; }
static void graphs(mc::ctx& c)
{
  const bool T = c.thorough();
  c.in("cables", "every labelled acyclic graph of <=4 nodes with ordinary cables, every order of declaration, every pair of active node sets over two ticks for <=3 nodes (one set, then all, for 4), five schedulers");
  for (int k = 0; k < NG; k++)
    for (int n = 1; n <= 4; n++)
      for (auto& d : dags(n))
        for (int m = 0; m < 1 << n; m++)
        {
          auto id = mc::cat("cab ", GN[k], n, " ", est(d), " ", m);
          if (!c.want(id)) continue;
          c.state(id);
          if (n <= 3)
            for (int m2 = 0; m2 < 1 << n; m2++) { rig r{c, k, id, n}; for (int i = 0; i < n; i++) r.add(i); for (auto [a, b] : d) r.link(a, b, GLUT); r.tick(m, "t0"); r.tick(m2, mc::cat("t1 ", m2)); done(c, r); }
          else { rig r{c, k, id, n}; for (int i = 0; i < n; i++) r.add(i); for (auto [a, b] : d) r.link(a, b, GLUT); r.tick(m, "t0"); r.tick((1 << n) - 1, "t1"); done(c, r); }
        }
  c.in("strict", "every labelled acyclic graph of <=3 nodes x every assignment of {ordinary, strict both/in/out, dependency} to its cables x every active set x one muted node or none, five schedulers");
  for (int k = 0; k < NG; k++)
    for (int n = 2; n <= 3; n++)
      for (auto& d : dags(n))
        mc::words(5, d.size(), [&](const ints& w) {
          static const int TT[] = {GLUT, SBOTH, SIN, SOUT, DEP};
          for (int mu = -1; mu < n; mu++)
          {
            auto id = mc::cat("str ", GN[k], n, " ", est(d), " ", show(w), " mute ", mu);
            if (!c.want(id)) continue;
            c.state(id);
            rig r{c, k, id, n};
            for (int i = 0; i < n; i++) r.node(i, NONE, i == 0 ? A : NONE);
            for (int i = 0; i < n; i++) r.add(i);
            for (size_t e = 0; e < d.size(); e++) r.link(d[e].first, d[e].second, TT[w[e]]);
            if (mu >= 0) { r.nd[mu]->set_mute(true); r.muted[mu] = 1; }
            for (int m = 0; m < 1 << n; m++) r.tick(m, mc::cat("active ", m));
            done(c, r);
          }
        });
  c.in("cycles", "every cyclic graph of 2-3 nodes: nothing runs, and after cutting one cable of every pair of choices execution resumes exactly");
  for (int k = 0; k < NG; k++)
    for (int n = 2; n <= 3; n++)
      for (auto& d : dags(n, true))
      {
        auto id = mc::cat("cyc ", GN[k], n, " ", est(d));
        if (!c.want(id)) continue;
        c.state(id);
        for (size_t x = 0; x < d.size(); x++) for (size_t y = x; y < d.size(); y++)
        {
          rig r{c, k, id, n};
          for (int i = 0; i < n; i++) r.node(i, i == 0 ? A : NONE, i == n - 1 ? A : NONE);
          for (int i = 0; i < n; i++) r.add(i);
          for (auto [a, b] : d) r.link(a, b, GLUT);
          r.tick((1 << n) - 1, "cyclic"); r.tick((1 << n) - 1, "cyclic again");
          if (y != x) r.unlink(y); r.tick((1 << n) - 1, "cut1"); r.unlink(x); r.tick((1 << n) - 1, "cut2"); done(c, r);
        }
      }
  c.in("addresses", mc::cat("every labelled acyclic graph of 2-3 nodes x every assignment of inlet and outlet addresses (none, /a, /b", T ? " for 3 nodes" : ", pattern", " for 2) x active sets, schedulers that order by address", " and the others for 2 nodes"));
  for (int k = 0; k < NG; k++)
    for (int n = 2; n <= 3; n++)
    {
      const int q = n == 2 ? 4 : 3;
      if (n == 3 && k >= SIMPLE) continue;
      if (n == 3 && k == BOOST && !T) continue;
      for (auto& d : dags(n))
        mc::words(q, 2 * n, [&](const ints& w) {
          auto id = mc::cat("adr ", GN[k], n, " ", est(d), " ", show(w));
          if (n == 3 && !T && d.size() > 1) return; // quick: at most one cable
          if (!c.want(id)) return;
          c.state(id);
          rig r{c, k, id, n};
          for (int i = 0; i < n; i++) r.node(i, ad(w[2 * i]), ad(w[2 * i + 1]));
          for (int i = 0; i < n; i++) r.add(i);
          for (auto [a, b] : d) r.link(a, b, GLUT);
          for (int m = (1 << n) - 1; m > 0; m--) { if (n == 3 && !T && m != 7 && m != 5) continue; r.tick(m, mc::cat("active ", m)); }
          done(c, r);
        });
    }
  if (T)
  {
    c.in("addresses4", "4 nodes without cables, inlet and outlet addresses among (none, /a, /b), tc and bfs schedulers, all active");
    for (int k : {int(TCG), int(BFS)})
      mc::words(3, 8, [&](const ints& w) {
        auto id = mc::cat("ad4 ", GN[k], " ", show(w));
        if (!c.want(id)) return;
        c.state(id);
        rig r{c, k, id, 4};
        for (int i = 0; i < 4; i++) r.node(i, ad(w[2 * i]), ad(w[2 * i + 1]));
        for (int i = 0; i < 4; i++) r.add(i);
        r.tick(15, "all"); r.tick(15, "again"); done(c, r);
      });
  }
  c.in("ports", "2-3 nodes with or without inlets and outlets, every compatible cable set, static and dynamic schedulers");
  for (int k = 0; k < NG; k++)
    for (int n = 2; n <= 3; n++)
      for (auto& d : dags(n))
        mc::words(4, n, [&](const ints& w) {
          for (auto [a, b] : d) if (!(w[a] & 2) || !(w[b] & 1)) return;
          auto id = mc::cat("prt ", GN[k], n, " ", est(d), " ", show(w));
          if (!c.want(id)) return;
          c.state(id);
          rig r{c, k, id, n};
          for (int i = 0; i < n; i++) r.node(i, w[i] & 1 ? A : NONE, w[i] & 2 ? A : NONE, w[i] & 1, w[i] & 2);
          for (int i = 0; i < n; i++) r.add(i);
          for (auto [a, b] : d) r.link(a, b, GLUT);
          for (int m = 1; m < 1 << n; m++) r.tick(m, mc::cat("active ", m));
          done(c, r);
        });
  const int depth = T ? 6 : 5;
  c.in("edits", mc::cat("every sequence of ", depth, " operations (add, remove, connect, disconnect, tick) on three nodes, a tick at the end"));
  for (int k = 0; k < NG; k++)
  {
    if (!T && (k == BOOST || k == SIMPLE)) continue;
    static const std::pair<int, int> P[] = {{0, 1}, {2, 1}, {0, 2}};
    std::set<std::string> seen;
    mc::words(13, depth, [&](const ints& w) {
      // canonical: the first node mentioned first; skip words with an ineffective last operation
      auto id = mc::cat("edt ", GN[k], " ", show(w));
      if (w.back() == 12) return;
      if (!c.want(id)) return;
      rig r{c, k, id, 3};
      r.node(0, NONE, A); r.node(1, B, NONE); r.node(2, A, B);
      int t = 0;
      for (int o : w)
      {
        if (o < 3) r.add(o);
        else if (o < 6) r.remove(o - 3);
        else if (o < 9) { auto [a, b] = P[o - 6]; r.link(a, b, GLUT); }
        else if (o < 12) { auto [a, b] = P[o - 9]; for (size_t e = 0; e < r.es.size(); e++) if (r.es[e].a == a && r.es[e].b == b) { r.unlink(e); break; } }
        else r.tick(7, mc::cat("t", t++));
        std::set<graph_node*> have(r.g->get_nodes().begin(), r.g->get_nodes().end()), want;
        for (int i = 0; i < 3; i++) if (r.present[i]) want.insert(r.nd[i].get());
        c.check(have == want && r.g->get_nodes().size() == want.size(), mc::cat("node list ", GN[k]), id);
      }
      r.tick(7, "end");
      std::string s; for (int i = 0; i < 3; i++) s += r.present[i] ? '1' : '0'; for (auto& e : r.es) s += mc::cat(e.a, e.b, ","); c.state(mc::cat(GN[k], s)); done(c, r);
    });
  }
  c.in("delayed", "a strict delayed cable: every history of 5 active sets; what the source wrote reaches the sink once, in order");
  for (int k = 0; k < NG; k++)
    mc::words(4, T ? 7 : 5, [&](const ints& w) {
      auto id = mc::cat("del ", GN[k], " ", show(w));
      if (!c.want(id)) return;
      rig r{c, k, id, 2};
      r.add(0); r.add(1); r.link(0, 1, DSTR);
      for (int m : w) r.tick(m, mc::cat("m", m));
      c.state(mc::cat(k, r.fifo[0].size(), r.cnt[0], r.cnt[1])); done(c, r);
    });
}
int main(int argc, char** argv)
{
  std::cout.setstate(std::ios::failbit);
  return mc::ctx::get().run(argc, argv, [](mc::ctx& c) { closure(c); graphs(c); });
}
