// C02: comparison operators and hash of ossia::value against an independent relation,
// over every pair (and every triple of a smaller alphabet) of values.
#include "valgen.hpp"
#include <ossia/network/base/parameter.hpp>
#include <ossia/network/base/protocol.hpp>
#include <ossia/network/dataspace/dataspace_visitors.hpp>
#include <ossia/network/generic/generic_device.hpp>
#include <ossia/network/value/destination.hpp>
#include <ossia/network/value/value_hash.hpp>
using namespace vg;
enum rel { EQ, LT, GT, LE, GE };
static const char* rn[] = {"==", "<", ">", "<=", ">="};
template <typename T> static bool cmp(rel r, T a, T b)
{
  switch (r) { case EQ: return a == b; case LT: return a < b; case GT: return a > b; case LE: return a <= b; case GE: return a >= b; }
  return false;
}
static bool model(rel r, const value& a, const value& b)
{
  using T = ossia::val_type;
  const bool nonstrict = r == EQ || r == LE || r == GE;
  if (!a.valid() || !b.valid()) return !a.valid() && !b.valid() && nonstrict;
  // an impulse matches anything but a vector
  if (a.get_type() == T::IMPULSE || b.get_type() == T::IMPULSE) return !is_vec(a) && !is_vec(b) && nonstrict;
  const bool al = a.get_type() == T::LIST, bl = b.get_type() == T::LIST;
  if (al && bl)
  {
    auto x = elems(a), y = elems(b);
    if (x.size() != y.size()) return false;
    if (x.empty()) return nonstrict;
    for (size_t i = 0; i < x.size(); i++) if (!model(r, x[i], y[i])) return false;
    return true;
  }
  if ((al && is_vec(b)) || (bl && is_vec(a))) return false;
  if (al) { auto x = elems(a); return x.size() == 1 && x[0].valid() && model(r, x[0], b); }
  if (bl) { auto y = elems(b); return y.size() == 1 && y[0].valid() && model(r, a, y[0]); }
  if (is_vec(a) || is_vec(b))
  {
    if (a.get_type() != b.get_type()) return false;
    auto x = floats(a), y = floats(b);
    for (size_t i = 0; i < x.size(); i++) if (!cmp(r, x[i], y[i])) return false;
    return true;
  }
  const bool as = a.get_type() == T::STRING, bs = b.get_type() == T::STRING;
  if (as && bs) return cmp(r, a.get<std::string>(), b.get<std::string>());
  if (as || bs) return false;
  return cmp(r, num(a), num(b));
}
static bool impl(rel r, const value& a, const value& b) { return cmp<const value&>(r, a, b); }
static bool has_imp(const value& v)
{
  if (v.get_type() == ossia::val_type::IMPULSE) return true;
  if (v.get_type() == ossia::val_type::LIST) for (auto& e : v.get<list>()) if (has_imp(e)) return true;
  return false;
}
static bool deep_type_same(const value& a, const value& b)
{
  if (a.get_type() != b.get_type()) return false;
  if (a.get_type() != ossia::val_type::LIST) return true;
  auto x = elems(a), y = elems(b);
  if (x.size() != y.size()) return false;
  for (size_t i = 0; i < x.size(); i++) if (!deep_type_same(x[i], y[i])) return false;
  return true;
}
static void body(mc::ctx& c)
{
  auto A = all(c.thorough());
  c.in("pairs", mc::cat("every ordered pair of ", A.size(), " values (all types, lists to depth 2), 6 operators + hash"));
  for (size_t i = 0; i < A.size(); i++)
    for (size_t j = 0; j < A.size(); j++)
    {
      const auto &a = A[i], &b = A[j];
      if (!c.want("pair " + str(a) + " | " + str(b))) continue;
      c.step(); c.state(str(a)); c.trace();
      std::string o;
      for (rel r : {EQ, LT, GT, LE, GE})
      {
        bool x = impl(r, a, b); o += x ? '1' : '0';
        c.check(x == model(r, a, b), mc::cat("rel ", rn[r], " ", str(a), " ", str(b)), mc::cat(str(a), rn[r], str(b), " is ", x, ", expected ", !x));
      }
      c.outcome(o);
      c.check((a != b) == !(a == b), "neq " + str(a) + " " + str(b), "!= is not the negation of ==");
      // hash: structurally equal values of one type hash alike
      if (deep_type_same(a, b) && !has_imp(a) && model(EQ, a, b))
        c.check(std::hash<value>{}(a) == std::hash<value>{}(b), "hash " + str(a), "equal values with different hashes");
      // distinct simple values should not all collide; checked below over the whole alphabet
    }
  c.in("signed-zero", "hash/equality of +0 and -0 in floats, vectors and lists");
  for (auto& [a, b] : std::vector<std::pair<value, value>>{{value(0.f), value(-0.f)}, {value(ossia::vec2f{0.f, 1}), value(ossia::vec2f{-0.f, 1})}, {value(ossia::vec3f{0.f, 1, -0.f}), value(ossia::vec3f{-0.f, 1, 0.f})}, {value(list{value(0.f)}), value(list{value(-0.f)})}})
  {
    if (!c.want("zero " + str(a) + str(b))) continue;
    c.state(str(a)); c.step(); c.trace();
    c.check(a == b && std::hash<value>{}(a) == std::hash<value>{}(b), "zero " + str(a), "+0 and -0 are equal and must hash alike");
  }
  if (c.want("spread"))
  {
    c.in("hash-spread", "hashes of all values of the alphabet are pairwise distinct unless the values are equal, except lists of lists");
    std::map<size_t, std::vector<const value*>> m;
    for (auto& a : A) m[std::hash<value>{}(a)].push_back(&a);
    size_t coll = 0;
    for (auto& [h, v] : m) coll += v.size() - 1;
    c.step(A.size()); c.state(mc::cat(coll)); c.trace();
    c.check(coll * 10 < A.size(), "hash-spread", mc::cat(coll, " collisions among ", A.size(), " values: the hash ignores content"));
    c.check(std::hash<value>{}(value(list{value(1), value(2)})) != std::hash<value>{}(value(list{value(1), value(3)})) &&
            std::hash<value>{}(value(ossia::vec3f{1, 2, 3})) != std::hash<value>{}(value(ossia::vec3f{1, 2, 4})), "hash-content", "hash ignores trailing elements");
  }
  // copies, moves and assignments across every pair of types preserve the value
  c.in("assign", "copy/move construction and assignment over every ordered pair of values, incl. self-assignment");
  auto S = scalars(); add(S, vecs()); S.push_back(value{}); add(S, lists({value(1), value(std::string("long enough to be on the heap, surely")), value(list{value(1)})}, 2));
  S = dedup(S);
  for (auto& a : S)
    for (auto& b : S)
    {
      if (!c.want("assign " + str(a) + " <- " + str(b))) continue;
      c.step(4); c.state(str(a) + str(b)); c.trace();
      value x = a, y = b; auto sa = str(a), sb = str(b);
      c.check(str(x) == sa, "copy " + sa, "copy differs");
      x = y; c.check(str(x) == sb && str(y) == sb, "assign " + sa + sb, "copy assignment gives " + str(x));
      value z = a; z = std::move(y); c.check(str(z) == sb, "move-assign " + sa + sb, "move assignment gives " + str(z));
      value m = std::move(x); c.check(str(m) == sb, "move " + sb, "move gives " + str(m));
      auto& r = m; m = r; c.check(str(m) == sb, "self " + sb, "self-assignment gives " + str(m));
      m.reset(); c.check(!m.valid() && m.get_type() == ossia::val_type::NONE, "reset " + sb, "reset leaves " + str(m));
    }
}
// an address compared with a value compares what the address holds, at its index
static void dest(mc::ctx& c)
{
  using namespace ossia; using namespace ossia::net;
  c.in("destinations", "address[index] <op> value for every pair of values, three indices and the six operators; equality of destinations over parameter x index x unit");
  struct pr : protocol_base { pr() : protocol_base{flags{}} {} bool pull(parameter_base&) override { return false; } bool push(const parameter_base&, const ossia::value&) override { return true; } bool push_raw(const full_parameter_data&) override { return true; } bool observe(parameter_base&, bool) override { return true; } bool update(node_base&) override { return true; } };
  generic_device dev{std::make_unique<pr>(), "d"};
  auto* p = create_node(dev.get_root_node(), "/p").create_parameter(val_type::INT); auto* q = create_node(dev.get_root_node(), "/q").create_parameter(val_type::INT);
  auto S = scalars(); add(S, vecs()); add(S, lists({value(1), value(2.5f), value(std::string("a"))}, 2)); S = dedup(S);
  auto idx = [](const value& v, int i) -> value { // element i of v, the whole without index
    if (i < 0) return v;
    if (auto l = v.target<std::vector<value>>()) return i < (int)l->size() ? (*l)[i] : value{};
    if (auto l = v.target<vec2f>()) return i < 2 ? value((*l)[i]) : value{};
    if (auto l = v.target<vec3f>()) return i < 3 ? value((*l)[i]) : value{};
    if (auto l = v.target<vec4f>()) return i < 4 ? value((*l)[i]) : value{};
    return v;
  };
  for (auto& a : S)
  {
    if (!a.valid()) continue;
    p->set_value_type(a.get_type()); p->set_value(a);
    if (str(p->value()) != str(a)) continue; // not storable (NaN...)
    for (int i = -1; i < 4; i++)
    {
      bool container = a.target<std::vector<value>>() || a.target<vec2f>() || a.target<vec3f>() || a.target<vec4f>();
      if (i >= 0 && !container) continue;
      destination d = i < 0 ? destination{*p} : destination{*p, destination_index{(int32_t)i}};
      value l = idx(a, i); if (!l.valid()) continue;
      for (auto& b : S)
      {
        if (!c.want("dest " + str(a) + mc::cat("[", i, "] ") + str(b))) continue;
        c.step(6); c.state(str(a) + mc::cat(i) + str(b)); c.trace();
        bool im = b.target<impulse>(), ok = b.valid();
        bool e[6]{ok && (im || l == b), !(ok && (im || l == b)), ok && !im && l < b, ok && (im || l <= b), ok && !im && l > b, ok && (im || l >= b)};
        bool g[6]{d == b, d != b, d < b, d <= b, d > b, d >= b};
        for (int k = 0; k < 6; k++) c.check(e[k] == g[k], mc::cat("dest ", str(a), "[", i, "] op", k, " ", str(b)), mc::cat("gives ", g[k], ", expected ", e[k]));
      }
    }
  }
  std::vector<destination> D; std::vector<int> key;
  for (auto* x : {p, q}) for (int i : {-1, 0, 1}) for (int u : {0, 1, 2})
  { unit_t un; if (u == 1) un = linear_u{}; if (u == 2) un = decibel_u{}; D.push_back(i < 0 ? destination{*x, un} : destination{*x, destination_index{(int32_t)i}, un}); key.push_back((x == q) * 100 + (i + 1) * 10 + u); }
  for (size_t i = 0; i < D.size(); i++) for (size_t j = 0; j < D.size(); j++)
  {
    if (!c.want(mc::cat("dd ", key[i], " ", key[j]))) continue;
    c.step(2); c.state(mc::cat("dd", key[i], ",", key[j])); c.trace();
    c.check((D[i] == D[j]) == (i == j) && (D[i] != D[j]) == (i != j), mc::cat("dd ", key[i], " ", key[j]), "destinations compare wrongly");
    auto x = D[i]; x = D[j]; c.check(x == D[j], mc::cat("dd= ", key[i], " ", key[j]), "assigned destination differs");
  }
}
static void all_parts(mc::ctx& c) { body(c); dest(c); }
MC_MAIN(all_parts)
