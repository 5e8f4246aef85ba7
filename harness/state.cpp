// States: merging messages never changes what the parameters end up with.
#include "valgen.hpp"
#include <ossia/dataflow/execution_state.hpp>
#include <ossia/dataflow/typed_value.hpp>
#include <ossia/editor/state/flat_vec_state.hpp>
#include <ossia/editor/state/message.hpp>
#include <ossia/editor/state/state.hpp>
#include <ossia/editor/state/state_element.hpp>
#include <ossia/network/base/protocol.hpp>
#include <ossia/network/dataspace/dataspace_visitors.hpp>
#include <ossia/network/dataspace/dataspace.hpp>
#include <ossia/network/base/node_attributes.hpp>
#include <ossia/network/base/node_functions.hpp>
#include <ossia/network/generic/generic_device.hpp>
#include <ossia/network/generic/generic_parameter.hpp>
#include <ossia/network/value/destination.hpp>
using namespace ossia; using vg::str;
struct ev { net::parameter_base* p; value v; };
static std::vector<std::pair<const net::parameter_base*, std::string>> pushed;
struct proto : net::protocol_base
{
  proto() : protocol_base{flags{}} {}
  bool pull(net::parameter_base&) override { return true; }
  bool push(const net::parameter_base& p, const ossia::value& v) override { pushed.emplace_back(&p, str(v)); return true; }
  bool push(const net::parameter_base& p, ossia::value&& v) override { pushed.emplace_back(&p, str(v)); return true; }
  bool push_raw(const net::full_parameter_data&) override { return true; }
  bool observe(net::parameter_base&, bool) override { return true; }
  bool update(net::node_base&) override { return true; }
};
using vv = std::vector<value>;
struct msg { value v; destination_index i; int64_t ts = 0; };
static std::string show(const msg& m) { std::string s = str(m.v); for (auto x : m.i) s += mc::cat("@", x); if (m.ts) s += mc::cat(" t", m.ts); return s; }
struct kind { const char* name; val_type t; value init; std::vector<msg> alpha; };
static const std::vector<kind>& kinds()
{
  static std::vector<kind> k{
      {"vec", val_type::VEC3F, make_vec(10.f, 20.f, 30.f), {{1.f, {0}}, {2.f, {1}}, {3.f, {0}}, {make_vec(4.f, 5.f, 6.f), {}}, {make_vec(7.f, 8.f, 9.f), {}}, {make_vec(17.f, 18.f, 19.f), {2}}}},
      {"vec2", val_type::VEC2F, make_vec(10.f, 20.f), {{1.f, {0}}, {2.f, {1}}, {make_vec(4.f, 5.f), {}}, {make_vec(7.f, 8.f), {}}, {make_vec(17.f, 18.f), {1}}}},
      {"scalar", val_type::FLOAT, 10.f, {{1.f, {}}, {2.f, {}}, {3, {}}}},
      {"string", val_type::STRING, "x", {{"a", {}}, {"b", {}}}},
      {"list", val_type::LIST, vv{7, 8}, {{1, {0}}, {2, {1}}, {"x", {2}}, {3, {0}}, {4.f, {3}}}},
      {"wholelist", val_type::LIST, vv{7, 8}, {{vv{1, 2}, {}}, {vv{3, 4}, {}}, {vv{5, 6}, {}}}}};
  return k;
}
static net::generic_device& dev() { static net::generic_device d{std::make_unique<proto>(), "d"}; return d; }
static net::parameter_base* par(const std::string& n, const kind& k)
{
  auto& nd = net::find_or_create_node(dev(), n); auto p = nd.get_parameter();
  if (!p) p = nd.create_parameter(k.t);
  p->set_value_type(k.t); p->set_value(k.init); return p;
}
static message mk(net::parameter_base* p, const msg& m) { message r{destination{*p}, m.v}; r.dest.index = m.i; return r; }
static const char* CN[] = {"commit", "merged", "ordered", "priorized"};
static void go(execution_state& e, int c) { switch (c) { case 0: e.commit(); break; case 1: e.commit_merged(); break; case 2: e.commit_ordered(); break; default: e.commit_priorized(); } }
static void run(mc::ctx& c)
{
  const bool T = c.thorough();
  c.in("one", mc::cat("every sequence of <=", T ? 5 : 4, " messages of an alphabet (whole values, indexed elements) to one parameter of each kind; four commits, flattened states"));
  for (auto& k : kinds())
    for (int n = 1; n <= (T ? 5 : 4); n++)
      mc::words(k.alpha.size(), n, [&](const std::vector<int>& w) {
        auto id = mc::cat("one ", k.name, " ", mc::join(w));
        if (!c.want(id)) return;
        c.state(id);
        auto p = par("/p", k), r = par("/r", k);
        std::string d; for (int i : w) { d += show(k.alpha[i]) + "; "; mk(r, k.alpha[i]).launch(); }
        auto want = str(r->value()); c.outcome(want);
        auto cmp = [&](const char* how) { auto got = str(p->value()); c.step(); c.check(got == want, mc::cat(how, " ", k.name), mc::cat(d, "-> ", got, " expected ", want)); };
        for (int cm = 0; cm < 4; cm++)
        {
          p->set_value_type(k.t); p->set_value(k.init);
          execution_state e;
          e.begin_tick();
          for (int i : w) e.insert(*p, typed_value{k.alpha[i].v, k.alpha[i].i});
          go(e, cm); cmp(CN[cm]);
          e.begin_tick(); pushed.clear(); go(e, cm); c.check(pushed.empty(), "committed twice", d);
        }
        for (int f = 0; f < 4; f++)
        {
          p->set_value_type(k.t); p->set_value(k.init);
          ossia::state s;
          for (int i : w) { auto m = mk(p, k.alpha[i]); if (f == 0) s.add(m); else if (f == 1) flatten_and_filter(s, state_element{m}); else if (f == 2) { const state_element el{m}; flatten_and_filter(s, el); } else merge_flatten_and_filter(s, state_element{m}); }
          s.launch(); cmp(f == 0 ? "state" : f == 1 ? "flatten" : f == 2 ? "flatten const" : "merge flatten");
        }
        c.trace(); if (!c.replaying() && c.cur->traces % 3000 == 1) c.sample(id);
      });
}
// messages in a unit that is not the parameter's
static void units(mc::ctx& c)
{
  const int D = c.thorough() ? 4 : 3;
  c.in("units", mc::cat("an rgb colour and a cartesian position receiving every sequence of <=", D, " messages in three units, whole or by component"));
  struct U { unit_t u; };
  static const unit_t PU[] = {rgb_u{}, cartesian_3d_u{}};
  static const std::vector<unit_t> MU[] = {{rgb_u{}, hsv_u{}, bgr_u{}}, {cartesian_3d_u{}, opengl_u{}, spherical_u{}}};
  for (int p = 0; p < 2; p++)
    for (int n = 1; n <= D; n++)
      mc::words(9, n, [&](const std::vector<int>& w) {
        auto id = mc::cat("unt ", p, " ", mc::join(w));
        if (!c.want(id)) return;
        auto prep = [&](const char* nm) { auto& nd = net::find_or_create_node(dev(), mc::cat(nm, p)); auto q = nd.get_parameter(); if (!q) q = nd.create_parameter(val_type::VEC3F); q->set_unit(PU[p]); q->set_value(make_vec(0.25f, 0.5f, 0.75f)); return q; };
        auto a = prep("/ua"), b = prep("/ub");
        auto mk = [&](net::parameter_base* q, int i) {
          const int k = i % 3; message m{destination{*q}, k == 0 ? value{make_vec(0.5f, 0.25f, 0.125f)} : k == 1 ? value{0.0625f} : value{0.875f}};
          m.dest.unit = MU[p][i / 3]; if (k) m.dest.index = destination_index{k - 1}; return m; };
        for (int i : w) mk(b, i).launch();
        // merging is only promised between messages of the same unit: others keep their order
        bool same = true; for (int i : w) same &= i / 3 == w[0] / 3;
        auto want = str(b->value()); c.state(id); c.outcome(want);
        auto cmp = [&](const char* how) {
          auto x = a->value(), y = b->value(); bool ok = x.get_type() == y.get_type();
          if (ok) { auto xa = x.get<vec3f>(), ya = y.get<vec3f>(); for (int k = 0; k < 3; k++) ok &= std::abs(xa[k] - ya[k]) < 1e-4f; }
          c.step(); c.check(ok, mc::cat(how, " units"), mc::cat(id, " -> ", str(x), " expected ", want)); };
        for (int cm = 0; cm < 4; cm++)
        {
          if (cm == 1 && !same) continue;
          a = prep("/ua"); execution_state e; e.begin_tick();
          for (int i : w) { auto m = mk(a, i); e.insert(*a, typed_value{m.message_value, m.dest.index, m.dest.unit}); }
          go(e, cm); cmp(CN[cm]);
        }
        if (same) for (int f = 0; f < 2; f++) { a = prep("/ua"); ossia::state st; for (int i : w) { auto m = mk(a, i); if (f) merge_flatten_and_filter(st, state_element{m}); else flatten_and_filter(st, state_element{m}); } st.launch(); cmp(f ? "merge flatten" : "flatten"); }
        c.trace();
      });
}
// states merged into states
static void nested(mc::ctx& c)
{
  const int D = c.thorough() ? 3 : 2;
  c.in("nested", mc::cat("every pair of flattened states of <=", D, " messages each, the second merged into the first as a state or message by message; then launched"));
  for (auto& k : kinds())
    for (int n = 0; n <= D; n++) for (int m = 0; m <= D; m++)
      mc::words(k.alpha.size(), n + m, [&](const std::vector<int>& w) {
        auto id = mc::cat("nst ", k.name, " ", n, " ", mc::join(w));
        if (!c.want(id)) return;
        auto p = par("/p", k), r = par("/r", k); auto q = par("/q", kinds()[2]), q2 = par("/q2", kinds()[2]); (void)q2;
        for (int i : w) mk(r, k.alpha[i]).launch();
        auto want = str(r->value()); c.state(id); c.outcome(want);
        for (int f = 0; f < 4; f++)
        {
          p->set_value_type(k.t); p->set_value(k.init); q->set_value(10.f);
          ossia::state a, b;
          for (int i = 0; i < n + m; i++) merge_flatten_and_filter(i < n ? a : b, state_element{mk(p, k.alpha[w[i]])});
          b.add(mk(q, {5.f, {}}));
          try
          {
            if (f == 0) merge_flatten_and_filter(a, state_element{b});
            else if (f == 1) flatten_and_filter(a, state_element{std::move(b)});
            else if (f == 2) { const state_element e{b}; flatten_and_filter(a, e); }
            else a.add(b);
            a.launch();
          }
          catch (const std::exception& e) { c.fail(mc::cat("nested throws ", k.name), mc::cat(id, " ", e.what())); continue; }
          auto got = str(p->value()); c.step();
          c.check(got == want, mc::cat("nested ", f, " ", k.name), mc::cat(id, " -> ", got, " expected ", want));
          c.check(str(q->value()) == "f5", "nested other", id);
        }
        c.trace();
      });
}
// several parameters in one tick: what is sent, in which order
static void multi(mc::ctx& c)
{
  const int D = c.thorough() ? 5 : 4;
  c.in("multi", mc::cat("every sequence of <=", D, " writes to two parameters at two dates, four commits: per-parameter order, overall order by date"));
  for (int n = 1; n <= D; n++)
    mc::words(4, n, [&](const std::vector<int>& w) {
      auto id = mc::cat("mul ", mc::join(w));
      if (!c.want(id)) return;
      c.state(id);
      net::parameter_base* P[2] = {par("/p", kinds()[2]), par("/q", kinds()[2])};
      for (int cm = 0; cm < 4; cm++)
      {
        for (auto p : P) p->set_value(-1.f);
        execution_state e; e.begin_tick(); pushed.clear();
        std::vector<std::string> per[2]; std::pair<int64_t, int> last[2] = {{-1, -1}, {-1, -1}};
        for (int i = 0; i < n; i++) { typed_value t{value(float(i))}; t.timestamp = w[i] / 2; int q = w[i] % 2; e.insert(*P[q], std::move(t)); per[q].push_back(str(value(float(i)))); last[q] = {std::max<int64_t>(last[q].first, w[i] / 2), i}; }
        go(e, cm);
        std::vector<std::string> got[2]; std::vector<int> seq; for (auto& [p, v] : pushed) { int q = p == P[1]; got[q].push_back(v); seq.push_back(q); }
        for (int q = 0; q < 2; q++) { auto want = per[q]; if (cm == 1 && !want.empty()) want = {want.back()}; c.check(got[q] == want, mc::cat("pushed ", CN[cm]), mc::cat(id, " parameter ", q, ": ", got[q].size(), " values sent of ", want.size(), ", or in another order")); }
        if (cm == 2 && last[0].second >= 0 && last[1].second >= 0) { bool firstIs0 = last[0] < last[1]; std::vector<int> ws(per[!firstIs0 ? 1 : 0].size(), firstIs0 ? 0 : 1); ws.resize(seq.size(), firstIs0 ? 1 : 0); c.check(seq == ws, "order ordered", id); }
        c.step(); c.outcome(mc::join(seq));
      }
      c.trace();
    });
}
int main(int argc, char** argv) { return mc::ctx::get().run(argc, argv, [](mc::ctx& c) { run(c); units(c); nested(c); multi(c); }); }
