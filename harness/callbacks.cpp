// callback_container, locked_map, any_map: every operation sequence against a model.
#include "mc.hpp"
#include <algorithm>
#include <memory>
#include <map>
#include <functional>
#include <ossia/detail/any_map.hpp>
#include <ossia/detail/callback_container.hpp>
#include <ossia/network/base/listening.hpp>
#include <ossia/network/base/parameter_data.hpp>
using F = std::function<void(std::string)>;
struct box : ossia::callback_container<F>
{
  int first = 0, last = 0;
  using ossia::callback_container<F>::callback_container;
  void on_first_callback_added() override { first++; }
  void on_removing_last_callback() override { last++; }
};
static void containers(mc::ctx& c)
{
  const int L = c.thorough() ? 7 : 6;
  c.in("callbacks", mc::cat("every sequence of up to ", L, " of: add, remove 1st/2nd/last, replace, disable for a while (and send), clear, add an invalid one, copy, move, send"));
  for (int n = 1; n <= L; n++) mc::words(10, n, [&](const std::vector<int>& w) {
    auto id = "s " + mc::join(w); if (!c.want(id)) return; c.trace();
    auto b = std::make_unique<box>(); std::vector<std::pair<int, box::iterator>> m; std::map<int, std::vector<std::string>> got; int next = 0, first = 0, last = 0; bool lost = false; // iterators lost by a copy
    auto mk = [&](int k) { return F{[&got, k](std::string s) { got[k].push_back(s); s.clear(); }}; };
    auto sent = [&](box& x, int skip, const char* how) { for (int rv = 0; rv < 2; rv++) { got.clear(); std::string arg = "hello, a long enough argument"; if (rv) x.send(std::move(arg)); else { x.send(arg); } bool ok = rv || arg == "hello, a long enough argument"; size_t cnt = 0; for (auto& [k, it] : m) if (k != skip) { cnt++; ok &= got.count(k) && got[k].size() == 1 && got[k][0] == "hello, a long enough argument"; } ok &= got.size() == cnt; c.check(ok, mc::cat(how, rv, " ", id), mc::cat(how, rv ? " rvalue" : " lvalue", ": ", got.size(), " callbacks called out of ", cnt, ", or not exactly once with the value sent")); } };
    for (int op : w)
    {
      c.step();
      if (lost && op >= 1 && op <= 4) continue;
      switch (op)
      {
        case 0: { int k = next++; if (m.empty()) first++; if (lost) { b->add_callback(mk(k)); m.insert(m.begin(), {k, {}}); } else m.push_back({k, b->add_callback(mk(k))}); break; }
        case 1: case 2: if (m.size() >= (op == 1 ? 1u : 2u)) { auto i = op == 1 ? m.begin() : m.end() - 1; if (m.size() == 1) last++; b->remove_callback(i->second); m.erase(i); } break;
        case 3: if (!m.empty()) { int k = next++; b->replace_callback(m[0].second, mk(k)); m[0].first = k; } break;
        case 4: if (!m.empty()) { { auto d = b->disable_callback(m.back().second); sent(*b, m.back().first, "send while disabled"); } } break;
        case 5: if (!m.empty()) last++; b->callbacks_clear(); m.clear(); lost = false; break;
        case 6: { bool t = false; try { b->add_callback(F{}); } catch (const ossia::invalid_callback_error&) { t = true; } c.check(t, "invalid " + id, "an invalid callback is accepted"); break; }
        case 7: { auto o = std::make_unique<box>(*b); o->first = first; o->last = last; c.check(o->callback_count() == b->callback_count(), "copy " + id, "copy"); b = std::move(o); if (!m.empty()) lost = true; break; }
        case 8: { auto o = std::make_unique<box>(); o->first = first; o->last = last; *o = std::move(*b); b = std::move(o); break; }
        default: sent(*b, -1, "send");
      }
      c.check(b->callback_count() == m.size() && b->callbacks_empty() == m.empty(), "count " + id, mc::cat(b->callback_count(), " callbacks, expected ", m.size()));
      c.check(b->first == first && b->last == last, "notify " + id, mc::cat("first ", b->first, "/", first, " last ", b->last, "/", last));
    }
    sent(*b, -1, "send");
    c.state(mc::cat(m.size(), " ", first, " ", last, " ", lost, " ", next)); c.outcome(mc::cat(m.size(), first, last));
  });
}
static void maps(mc::ctx& c)
{
  using LM = ossia::locked_map<ossia::string_map<int>>;
  const int L = c.thorough() ? 6 : 5; const std::string K[]{"", "a/b"};
  c.in("listening", mc::cat("every sequence of up to ", L, " of insert, erase, rename, find_and_take on two keys"));
  for (int n = 1; n <= L; n++) mc::words(10, n, [&](const std::vector<int>& w) {
    auto id = "l " + mc::join(w); if (!c.want(id)) return; c.trace();
    LM m; std::map<std::string, int> r; int v = 0;
    for (int op : w)
    {
      c.step(); auto& k = K[op & 1]; auto& o = K[1 - (op & 1)];
      switch (op / 2)
      {
        case 0: v++; m.insert(std::make_pair(k, v)); r.insert({k, v}); break;
        case 1: m.erase(k); r.erase(k); break;
        case 2: if (!r.count(o)) { m.rename(k, o); if (r.count(k)) { int x = r[k]; r.erase(k); r[o] = x; } } break;
        case 3: { auto x = m.find_and_take(k); c.check(x.has_value() == (r.count(k) > 0) && (!x || *x == r[k]), "take " + id, "find_and_take"); r.erase(k); break; }
        case 4: { v++; LM::value_type p{k, v}; m.insert(p); r.insert({k, v}); break; }
      }
      std::string s; for (auto& q : K) { auto x = m.find(q); auto y = m.find(ossia::string_view(q)); c.check(x == y && x.has_value() == (r.count(q) > 0) && (!x || *x == r[q]), "find " + id, mc::cat("after ", op, ": key '", q, "' ", x ? *x : -1)); s += x ? mc::cat(*x) : "-"; }
      c.state(s); c.outcome(s);
    } });
}
static void attrs(mc::ctx& c)
{
  using namespace ossia;
  const int L = c.thorough() ? 5 : 4;
  c.in("attributes", mc::cat("every sequence of up to ", L, " of: set (lvalue, const, rvalue), unset, flag, optional set, empty set, copy, on two names and three types"));
  const std::string K[]{"x", "tags"}; using S = std::string; using V = std::vector<std::string>;
  for (int n = 1; n <= L; n++) mc::words(22, n, [&](const std::vector<int>& w) {
    auto id = "a " + mc::join(w); if (!c.want(id)) return; c.trace();
    any_map m; std::map<S, S> r; int k = 0; const S LONG = "a text that is long enough not to be stored inline ";
    for (int op : w)
    {
      c.step(); auto& n = K[op & 1]; k++; S s = LONG + std::to_string(k); V v{s, "b"}; S sv = s; V vv = v;
      switch (op / 2)
      {
        case 0: set_attribute(m, n, s); r[n] = "s" + sv; c.check(s == sv, "steal " + id, "setting an attribute from an lvalue changes it"); break;
        case 1: set_attribute(m, n, (const V&)v); r[n] = "v" + sv; c.check(v == vv, "steal " + id, "setting an attribute from a const lvalue changes it"); break;
        case 2: set_attribute(m, n, std::move(v)); r[n] = "v" + sv; break;
        case 3: unset_attribute(m, n); r.erase(n); break;
        case 4: set_attribute(m, n); if (!r.count(n)) r[n] = "e"; break;
        case 5: { std::optional<S> o{s}; set_optional_attribute(m, n, o); r[n] = "s" + sv; c.check(*o == sv, "steal " + id, "setting an optional attribute changes it"); break; }
        case 6: set_optional_attribute(m, n, std::optional<S>{}); r.erase(n); break;
        case 7: set_attribute(m, n, S{}); r.erase(n); break;
        case 8: set_attribute(m, n, k); r[n] = "i" + std::to_string(k); break;
        case 9: { auto cp = m; set_attribute(cp, n, 3.5); m = std::move(cp); r[n] = "d3.5"; break; }
        case 10: set_attribute(m, n, std::nullopt); r.erase(n); break;
      }
      std::string st;
      for (auto& q : K)
      {
        auto a = get_optional_attribute<S>(m, q); auto b = get_optional_attribute<V>(m, q); auto i = get_optional_attribute<int>(m, q); auto d = get_optional_attribute<double>(m, q);
        std::string g = a ? "s" + *a : b ? "v" + (*b)[0] : i ? "i" + std::to_string(*i) : d ? "d3.5" : has_attribute(m, q) ? "e" : "-";
        auto e = r.count(q) ? r[q] : "-"; c.check(g == e && int(!!a) + !!b + !!i + !!d <= 1 && has_attribute(m, q) == (e != "-") && get_attribute<S>(m, q) == (a ? *a : S{}) && get_attribute<int>(m, q) == (i ? *i : 0), mc::cat("get ", q, " ", id), mc::cat("'", q, "' reads ", g, " expected ", e));
        st += e[0];
      }
      c.state(mc::cat(st, m.size())); c.outcome(st);
    } });
  c.in("data", "full_parameter_data: every combination of the three flags, the filter and successive values");
  for (int f = 0; f < 16; f++) mc::words(3, 3, [&](auto& w) {
    auto id = mc::cat("d ", f, mc::join(w)); if (!c.want(id)) return; c.state(id); c.trace(); c.step();
    net::full_parameter_data d{"/a"}; d.disabled = f & 1; d.muted = f & 2; d.critical = f & 4; d.rep_filter = f & 8 ? repetition_filter::ON : repetition_filter::OFF;
    d.set_value(w[0]); { ossia::value v = w[1]; d.set_value(v); } 
    c.check(d.get_disabled() == bool(f & 1) && d.get_muted() == bool(f & 2) && d.get_critical() == bool(f & 4) && d.value() == ossia::value{w[1]} && d.filter_value(w[2]) == (bool(f & 3) || ((f & 8) && w[2] == w[0])), id, "flags or filter");
  });
}
static void body(mc::ctx& c) { containers(c); maps(c); attrs(c); }
MC_MAIN(body)
