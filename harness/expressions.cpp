// Conditions: truth, notification and comparison of every small expression over every short history.
#include "valgen.hpp"
#include <memory>
#include <ossia/editor/expression/expression.hpp>
#include <ossia/network/base/parameter.hpp>
#include <ossia/network/base/protocol.hpp>
#include <ossia/network/dataspace/dataspace_visitors.hpp>
#include <ossia/network/generic/generic_device.hpp>
#include <ossia/network/value/destination.hpp>
using namespace ossia; using namespace ossia::net; namespace ex = ossia::expressions; using C = ex::comparator; using B = ex::binary_operator;
struct proto : protocol_base
{
  int pulls = 0; value next;
  proto() : protocol_base{flags{}} {}
  bool pull(parameter_base& p) override { pulls++; if (next.valid()) p.set_value(next); return true; }
  bool push(const parameter_base&, const ossia::value&) override { return true; }
  bool push_raw(const full_parameter_data&) override { return true; }
  bool observe(parameter_base&, bool b) override { return true; }
  bool update(node_base&) override { return true; }
};
struct world
{
  proto* pr = new proto; generic_device dev{std::unique_ptr<protocol_base>(pr), "d"};
  parameter_base *a, *b, *v, *g;
  world()
  {
    auto mk = [&](const char* n, val_type t) { return create_node(dev.get_root_node(), n).create_parameter(t); };
    a = mk("/a", val_type::INT); b = mk("/b", val_type::FLOAT); v = mk("/v", val_type::VEC3F); g = mk("/g", val_type::FLOAT); g->set_unit(linear_u{}); g->set_value(1.f);
  }
};
// the values the model believes in
struct vals { int a = 0; float b = 0, v1 = 0, g = 1; };
struct gen : ex::expression_generic_base
{
  parameter_base& p; std::optional<parameter_base::callback_index> it; gen(parameter_base& p) : p{p} {}
  void update() override { p.pull_value(); } bool evaluate() const override { return p.value().get<int>() == 2; }
  void on_first_callback_added(ex::expression_generic& self) override { it = p.add_callback([&](const ossia::value& v) { self.send(v.get<int>() == 2); }); }
  void on_removing_last_callback(ex::expression_generic&) override { p.remove_callback(*it); it.reset(); }
};
struct leaf { const char* name; int dep; /* bit per parameter */ bool pulse; std::function<bool(const vals&)> t; std::function<expression_ptr(world&)> mk; int pulls; };
static std::vector<leaf>& leaves()
{
  auto D = [](parameter_base* p) { return destination{*p}; };
  static std::vector<leaf> l{
    {"a==1", 1, false, [](auto& x) { return x.a == 1; }, [=](world& w) { return ex::make_expression_atom(D(w.a), C::EQUAL, value{1}); }, 1},
    {"1<a", 1, false, [](auto& x) { return 1 < x.a; }, [=](world& w) { return ex::make_expression_atom(value{1}, C::LOWER, D(w.a)); }, 1},
    {"a>=b", 3, false, [](auto& x) { return x.a >= x.b; }, [=](world& w) { return ex::make_expression_atom(D(w.a), C::GREATER_EQUAL, D(w.b)); }, 2},
    {"v[1]>0.5", 4, false, [](auto& x) { return x.v1 > 0.5f; }, [=](world& w) { return ex::make_expression_atom(destination{*w.v, destination_index{1}}, C::GREATER, value{0.5f}); }, 1},
    {"g in dB<-3", 8, false, [](auto& x) { return 20 * std::log10(x.g) < -3.f; }, [=](world& w) { return ex::make_expression_atom(destination{*w.g, unit_t{decibel_u{}}}, C::LOWER, value{-3.f}); }, 1},
    {"pulse a", 1, true, {}, [=](world& w) { return ex::make_expression_pulse(D(w.a)); }, 0},
    {"pulse b", 2, true, {}, [=](world& w) { return ex::make_expression_pulse(D(w.b)); }, 0},
    {"true", 0, false, [](auto&) { return true; }, [](world&) { return ex::make_expression_true(); }, 0},
    {"false", 0, false, [](auto&) { return false; }, [](world&) { return ex::make_expression_bool(false); }, 0},
    {"generic a==2", 1, false, [](auto& x) { return x.a == 2; }, [](world& w) { return ex::make_expression_generic<gen>(*w.a); }, 1},
    {"a!=b", 3, false, [](auto& x) { return x.a != x.b; }, [=](world& w) { return ex::make_expression_atom(ex::expression_atom::val_t{D(w.a)}, C::DIFFERENT, ex::expression_atom::val_t{D(w.b)}); }, 2},
  };
  return l;
}
// tree in prefix form: 0..99 leaf, 100 not, 101 and, 102 or, 103 xor
struct tree
{
  std::vector<int> w; std::vector<char> flag; // one per leaf occurrence
  std::string name() const { size_t i = 0; return nm(i); }
  std::string nm(size_t& i) const { int k = w[i++]; if (k < 100) return leaves()[k].name; if (k == 100) return "!(" + nm(i) + ")"; auto l = nm(i); auto r = nm(i); return "(" + l + (k == 101 ? " && " : k == 102 ? " || " : " ^ ") + r + ")"; }
  expression_ptr mk(world& W, size_t& i) const
  {
    int k = w[i++]; if (k < 100) return leaves()[k].mk(W); if (k == 100) return ex::make_expression_not(mk(W, i));
    auto l = mk(W, i); auto r = mk(W, i); return ex::make_expression_composition(std::move(l), k == 101 ? B::AND : k == 102 ? B::OR : B::XOR, std::move(r));
  }
  bool truth(const vals& x, size_t& i) const { int at = int(i), k = w[i++]; if (k < 100) return leaves()[k].pulse ? flag[at] : leaves()[k].t(x); if (k == 100) return !truth(x, i); bool l = truth(x, i), r = truth(x, i); return k == 101 ? (l && r) : k == 102 ? (l || r) : (l != r); }
  bool truth(const vals& x) const { size_t i = 0; return truth(x, i); }
  int deps() const { int d = 0; for (int k : w) if (k < 100) d |= leaves()[k].dep; return d; }
  int pulls() const { int d = 0; for (int k : w) if (k < 100) d += leaves()[k].pulls; return d; }
  void pulse(int p) { flag.resize(w.size()); for (size_t i = 0; i < w.size(); i++) if (w[i] < 100 && leaves()[w[i]].pulse && (leaves()[w[i]].dep & p)) flag[i] = 1; }
};
static std::vector<tree> trees(bool deep)
{
  int n = int(leaves().size()); std::vector<tree> r;
  auto add = [&](std::vector<int> w) { tree t{w}; t.flag.resize(w.size()); r.push_back(t); };
  for (int i = 0; i < n; i++) { add({i}); add({100, i}); }
  for (int o = 101; o < 104; o++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { add({o, i, j}); if (i == 0 || j == 5 || deep) { add({100, o, i, j}); add({o, 100, i, j}); add({o, i, 100, j}); } }
  for (int o = 101; o < 104; o++) for (int q = 101; q < 104; q++) for (int i : {0, 2, 5}) for (int j : {1, 5, 6}) for (int k : {0, 3, 6}) { add({o, q, i, j, k}); add({o, k, q, i, j}); }
  return r;
}
static void histories(mc::ctx& c)
{
  const int L = c.thorough() ? 5 : 4, N = 9; auto ts = trees(c.thorough());
  c.in("histories", mc::cat("every history of ", L, " of: set a, a, b, v, g, add a callback, remove the oldest, update, update with a new value x ", ts.size(), " expressions"));
  for (auto& t0 : ts) { bool big = t0.w.size() > 3 && !c.thorough(); mc::words(N, big ? 3 : L, [&](const std::vector<int>& w) {
    auto id = t0.name() + " : " + mc::join(w); if (!c.want(id)) return; c.trace();
    tree t = t0; world W; vals x; std::vector<std::vector<int>> got(16); std::vector<std::pair<int, ex::expression_callback_iterator>> cbs; int next = 0;
    size_t z = 0; auto e = t.mk(W, z); int sub0[4]{};
    c.check(ex::evaluate(e) == t.truth(x), "initial " + id, "wrong at creation");
    for (int op : w)
    {
      c.step(); for (auto& q : got) q.clear(); int p = 0; W.pr->pulls = 0; bool all = false;
      switch (op)
      {
        case 0: W.a->set_value(x.a = 1); p = 1; break;
        case 1: W.a->push_value(x.a = 2); p = 1; break;
        case 2: W.b->set_value(x.b = 1.5f); p = 2; break;
        case 3: W.v->set_value(make_vec(9.f, x.v1 = 1.f - x.v1, 9.f)); p = 4; break;
        case 4: W.g->set_value(x.g = x.g == 1.f ? 0.25f : 1.f); p = 8; break;
        case 5: { int k = next++; cbs.push_back({k, ex::add_callback(*e, [&got, k](bool b) { got[k].push_back(b); })}); break; }
        case 6: if (!cbs.empty()) { ex::remove_callback(*e, cbs[0].second); cbs.erase(cbs.begin()); } break;
        case 7: { auto o = W.pr->pulls; for (auto& f : t.flag) f = 0; ex::update(e); all = true; c.check(W.pr->pulls == t.pulls(), "pull " + id, mc::cat("an update asks the protocol for ", W.pr->pulls, " values instead of ", t.pulls())); break; }
        default: // all parameters an update pulls take the value 1
          W.pr->next = 1; for (auto& f : t.flag) f = 0; ex::update(e); W.pr->next = value{}; all = true;
          for (int k : t.w) if (k < 100 && leaves()[k].pulls) { int d = leaves()[k].dep; if (d & 1) x.a = 1; if (d & 2) x.b = 1; if (d & 8) x.g = 1; if (d & 4) x.v1 = W.v->value().get<vec3f>()[1]; }
          // pulses are signalled by what is pulled, or not, depending on the order: follow the code
          { bool pl = false; for (int k : t.w) pl |= k < 100 && leaves()[k].pulse; if (pl) return; }
      }
      t.pulse(p);
      bool tr = t.truth(x); c.check(ex::evaluate(e) == tr, "truth " + id, mc::cat("after operation ", op, " the expression is ", !tr, " instead of ", tr));
      for (auto& [k, it] : cbs)
      {
        if (all) { if (!got[k].empty()) c.check(got[k].back() == tr, "told " + id, "a callback is told the wrong result at an update"); }
        else if (p & t.deps()) c.check(!got[k].empty() && got[k].back() == tr, "told " + id, mc::cat("callback ", k, got[k].empty() ? " is not told of the change" : " is told the wrong result", " after operation ", op));
        else c.check(got[k].empty(), "quiet " + id, mc::cat("callback ", k, " is told while nothing changed"));
        got[k].clear();
      }
      for (auto& q : got) c.check(q.empty(), "removed " + id, "a removed callback is still told");
      c.check(ex::callback_count(*e) == cbs.size(), "count " + id, "number of callbacks");
      if (!(t.deps() & 0) && cbs.empty()) { int pu = 0; for (int k : t.w) pu += k < 100 && leaves()[k].pulse; int left = int(W.a->callback_count() + W.b->callback_count() + W.v->callback_count() + W.g->callback_count()); c.check(left == pu, "left " + id, mc::cat(left, " parameter callbacks while nobody listens, pulses need ", pu)); }
      c.state(mc::cat(t0.name(), x.a, x.b, x.v1, x.g, cbs.size(), std::string(t.flag.begin(), t.flag.end())));
    }
    c.outcome(mc::cat(t.truth(x), cbs.size()));
    e.reset();
    c.check(W.a->callback_count() + W.b->callback_count() + W.v->callback_count() + W.g->callback_count() == 0, "destroyed " + id, "a destroyed expression leaves callbacks on its parameters");
    W.a->push_value(1); W.b->push_value(1.f);
  }); }
}
static void atoms(mc::ctx& c)
{
  auto vs = vg::scalars(); for (auto& v : vg::vecs()) vs.push_back(v); vs.push_back(std::vector<value>{1, "a"}); vs.push_back(std::vector<value>{1});
  c.in("atoms", mc::cat("every comparator x every pair of ", vs.size(), " values x 4 kinds of operands x evaluated or told"));
  for (size_t i = 0; i < vs.size(); i++) for (size_t j = 0; j < vs.size(); j++)
  {
    auto id = mc::cat(vg::str(vs[i]), " ? ", vg::str(vs[j])); if (!c.want(id)) continue; c.trace();
    const value &a = vs[i], &b = vs[j]; world W; auto& p = *create_node(W.dev.get_root_node(), "/p").create_parameter(a.get_type()); auto& q = *create_node(W.dev.get_root_node(), "/q").create_parameter(b.get_type()); p.set_value(a); q.set_value(b);
    const bool r[]{a == b, a != b, a > b, a < b, a >= b, a <= b};
    for (int k = 0; k < 6; k++) for (int m = 0; m < 5; m++)
    {
      auto op = C(k); c.step(); destination P{p}, Q{q}; using V = ex::expression_atom::val_t;
      auto e = m == 0 ? ex::make_expression_atom(a, op, b) : m == 1 ? ex::make_expression_atom(P, op, b) : m == 2 ? ex::make_expression_atom(a, op, Q) : m == 3 ? ex::make_expression_atom(P, op, Q) : ex::make_expression_atom(V{P}, op, V{b});
      c.check(ex::evaluate(e) == r[k], mc::cat("atom ", k, m, " ", id), mc::cat("comparator ", k, ", operands ", m, ": ", !r[k], " instead of ", r[k]));
      std::vector<bool> told; ex::add_callback(*e, [&](bool x) { told.push_back(x); });
      if (m == 1 || m == 3 || m == 4) { told.clear(); p.push_value(a); c.check(told == std::vector<bool>{r[k]}, mc::cat("told1 ", k, m, " ", id), mc::cat("comparator ", k, ", first operand set: told ", told.size(), " times ", told.size() ? (told[0] ? "true" : "false") : "")); }
      if (m == 2 || m == 3) { told.clear(); q.push_value(b); c.check(told == std::vector<bool>{r[k]}, mc::cat("told2 ", k, m, " ", id), mc::cat("comparator ", k, ", second operand set: told ", told.size(), " times")); }
      if (auto at = e->target<ex::expression_atom>()) c.check(at->get_operator() == op, "getop", "operator");
    }
  }
  auto t = [&](auto f, const char* n) { bool th = false; try { f(); } catch (const std::exception&) { th = true; } c.check(th, n, mc::cat(n, " is accepted")); };
  world W; t([&] { ex::make_expression_atom(value{}, C::EQUAL, value{1}); }, "atom on an unset value"); t([&] { ex::make_expression_atom(destination{*W.a}, C::EQUAL, value{}); }, "atom on an unset second value"); t([&] { ex::make_expression_atom(value{}, C::EQUAL, destination{*W.a}); }, "atom on an unset first value");
  t([&] { ex::make_expression_not(expression_ptr{}); }, "not of nothing"); t([&] { ex::make_expression_composition(expression_ptr{}, B::AND, ex::make_expression_true()); }, "composition of nothing"); t([&] { ex::make_expression_composition(ex::make_expression_true(), B::AND, expression_ptr{}); }, "composition with nothing");
}
static void compare(mc::ctx& c)
{
  auto ts = trees(false); world W; std::vector<expression_ptr> A, Bv; for (auto& t : ts) { size_t i = 0; A.push_back(t.mk(W, i)); i = 0; Bv.push_back(t.mk(W, i)); }
  c.in("comparison", mc::cat("every ordered pair of ", ts.size(), " expressions"));
  for (size_t i = 0; i < ts.size(); i++) { auto id = "cmp " + ts[i].name(); if (!c.want(id)) continue; bool g = false; for (int k : ts[i].w) g |= k == 9; for (size_t j = 0; j < ts.size(); j++)
  {
    c.step(); bool eq = i == j && !g; if (g && i == j) continue; // user-defined expressions are never comparable
    c.check((*A[i] == *Bv[j]) == eq, mc::cat("eq ", i, " ", j), mc::cat(ts[i].name(), " == ", ts[j].name(), " gives ", !eq)); c.check((*A[i] != *Bv[j]) == !eq, mc::cat("ne ", i, " ", j), mc::cat(ts[i].name(), " != ", ts[j].name(), " gives ", eq));
  } c.trace(); c.state(id); c.outcome(std::to_string(i % 7)); }
  for (int k = 0; k < 6; k++) for (int l = 0; l < 6; l++) { auto x = ex::make_expression_atom(destination{*W.a}, C(k), value{1}), y = ex::make_expression_atom(destination{*W.a}, C(l), value{1}); c.check((*x == *y) == (k == l) && (*x != *y) == (k != l), mc::cat("cmpop ", k, l), "atoms with different operators"); }
  { auto x = ex::make_expression_atom(destination{*W.a}, C::EQUAL, value{1}), y = ex::make_expression_atom(destination{*W.a}, C::EQUAL, value{2}), z = ex::make_expression_atom(destination{*W.b}, C::EQUAL, value{1}); c.check(!(*x == *y) && *x != *y && !(*x == *z) && *x != *z, "operands", "atoms with different operands"); }
  c.check(ex::evaluate(ex::expression_true()) && !ex::evaluate(ex::expression_false()) && ex::evaluate(ex::make_expression_true()) && !ex::evaluate(ex::make_expression_false()), "constants", "constants");
}
MC_MAIN([](mc::ctx& c) { histories(c); atoms(c); compare(c); })
