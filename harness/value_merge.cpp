// C04: merging values into values, writing and reading at an index, against a model.
#include "valgen.hpp"
#include <ossia/network/value/value_algorithms.hpp>
using namespace vg;
using T = ossia::val_type;
static value merge(value d, const value& s, bool prec);
static value first(const value& d, const value& s, bool prec)
{
  if (d.get_type() == T::LIST) { auto l = elems(d); if (l.empty()) l.push_back(s); else l[0] = merge(l[0], s, prec); return value(l); }
  auto f = floats(d); if (is_num(s)) f[0] = float(num(s)); return make_vec(f);
}
static value merge(value d, const value& s, bool prec)
{
  if (!d.valid()) return s;
  if (!s.valid()) return d.get_type() == T::LIST ? first(d, s, prec) : d;
  if (is_seq(s))
  {
    if (!is_seq(d)) return d;
    auto y = elems(s);
    if (is_vec(d)) { auto f = floats(d); for (size_t i = 0; i < f.size() && i < y.size(); i++) if (is_num(y[i])) f[i] = float(num(y[i])); return make_vec(f); }
    auto x = elems(d);
    if (x.size() < y.size()) x.resize(y.size());
    for (size_t i = 0; i < y.size(); i++) x[i] = is_vec(s) ? y[i] : merge(x[i], y[i], prec);
    return value(x);
  }
  if (is_seq(d)) return first(d, s, prec);
  return prec ? s : d;
}
static list insert(list l, const value& v, const std::vector<int>& idx, bool prec, size_t k = 0)
{
  size_t p = idx[k];
  if (l.size() <= p) l.resize(p + 1);
  if (k + 1 == idx.size()) { l[p] = merge(l[p], v, prec); return l; }
  list sub = l[p].get_type() == T::LIST ? elems(l[p]) : list{l[p]};
  l[p] = value(insert(sub, v, idx, prec, k + 1));
  return l;
}
static value at(const value& v, const std::vector<int>& idx, size_t k = 0)
{
  if (k == idx.size()) return v;
  if (idx[k] < 0 || !is_seq(v)) return {};
  if (is_vec(v) && k + 1 != idx.size()) return {};
  auto l = elems(v);
  return size_t(idx[k]) < l.size() ? at(l[idx[k]], idx, k + 1) : value{};
}
static void body(mc::ctx& c)
{
  auto A = all(c.thorough());
  c.in("merge", mc::cat("every ordered pair of ", A.size(), " values, both precedences, source as lvalue and rvalue"));
  for (auto& d : A)
    for (auto& s : A)
    {
      if (!c.want("merge " + str(d) + " <- " + str(s))) continue;
      for (int prec = 0; prec < 2; prec++)
      {
        c.step(2); c.trace(); c.state(str(d));
        auto m = merge(d, s, prec);
        value r = d, q = d, s1 = s, s2 = s;
        if (prec) { ossia::value_merger<true>::merge_value(r, s1); ossia::value_merger<true>::merge_value(q, std::move(s2)); }
        else { ossia::value_merger<false>::merge_value(r, s1); ossia::value_merger<false>::merge_value(q, std::move(s2)); }
        c.outcome(str(r));
        c.check(same(r, m), mc::cat("merge", prec, " ", str(d), " ", str(s)), mc::cat("merged to ", str(r), ", expected ", str(m)));
        c.check(same(s1, s), mc::cat("src", prec, " ", str(d), " ", str(s)), "the source of an lvalue merge became " + str(s1));
        c.check(same(q, m), mc::cat("mmerge", prec, " ", str(d), " ", str(s)), mc::cat("rvalue-merged to ", str(q), ", expected ", str(m)));
      }
    }
  c.in("merge-lists", "merge_list of every pair of lists, lvalue and rvalue source");
  auto L = lists({value{}, value(1), value(2.f), value(list{value(3)}), value(ossia::vec2f{1, 2})}, c.thorough() ? 3 : 2);
  for (auto& d : L)
    for (auto& s : L)
    {
      if (!c.want("ml " + str(d) + " <- " + str(s))) continue;
      c.step(2); c.trace(); c.state(str(d));
      auto m = merge(d, s, true);
      auto x = elems(d), y = elems(d), s1 = elems(s), s2 = elems(s);
      ossia::value_merger<true>::merge_list(x, s1);
      ossia::value_merger<true>::merge_list(y, std::move(s2));
      c.check(strl(x) == str(m), "ml " + str(d) + " " + str(s), "merge_list gives " + strl(x));
      c.check(strl(y) == str(m), "mlr " + str(d) + " " + str(s), "merge_list(&&) gives " + strl(y));
      c.check(strl(s1) == str(s), "mls " + str(d) + " " + str(s), "merge_list changed its source");
    }
  c.in("index", "insert_in_list for every list x value x index path of length 1-3 over {0,1,2}; get_value_at_index for every value x path of length 0-3 over {-1,0,1,2,4}");
  auto D = lists({value{}, value(1), value(list{value(2), value(list{value(3)})}), value(ossia::vec2f{4, 5}), value(std::string("s"))}, 2);
  auto V = scalars(); add(V, {value(ossia::vec2f{7, 8}), value(list{}), value(list{value(9)}), value(list{value{}, value(9)}), value{}});
  for (auto& d : D)
    for (auto& v : V)
      for (int n = 1; n <= 3; n++)
        mc::words(3, n, [&](const std::vector<int>& w) {
          if (!c.want("ins " + str(d) + " " + str(v) + " @" + mc::join(w))) return;
          ossia::destination_index idx(w.begin(), w.end());
          for (int prec = 0; prec < 2; prec++)
          {
            c.step(); c.trace(); c.state(str(d) + str(v));
            auto m = insert(elems(d), v, w, prec);
            auto l = elems(d), l2 = l; value v1 = v, v2 = v;
            if (prec) { ossia::value_merger<true>::insert_in_list(l, v1, idx); ossia::value_merger<true>::insert_in_list(l2, std::move(v2), idx); }
            else { ossia::value_merger<false>::insert_in_list(l, v1, idx); ossia::value_merger<false>::insert_in_list(l2, std::move(v2), idx); }
            c.outcome(strl(l));
            c.check(strl(l) == strl(m), mc::cat("ins", prec, " ", str(d), " ", str(v), " @", mc::join(w)), mc::cat("gives ", strl(l), ", expected ", strl(m)));
            c.check(strl(l2) == strl(m), mc::cat("insr", prec, " ", str(d), " ", str(v), " @", mc::join(w)), mc::cat("gives ", strl(l2), ", expected ", strl(m)));
          }
        });
  auto E = A; add(E, lists({value(list{value(list{value(1), value(2)}), value(3)}), value(ossia::vec4f{1, 2, 3, 4})}, 2));
  static const int vals[] = {-1, 0, 1, 2, 4};
  for (auto& v : E)
    for (int n = 0; n <= 3; n++)
      mc::words(5, n, [&](const std::vector<int>& w0) {
        std::vector<int> w; for (int i : w0) w.push_back(vals[i]);
        if (!c.want("at " + str(v) + " @" + mc::join(w))) return;
        c.step(); c.trace(); c.state(str(v));
        auto r = ossia::get_value_at_index(v, ossia::destination_index(w.begin(), w.end()));
        c.check(same(r, at(v, w)), "at " + str(v) + " @" + mc::join(w), mc::cat("gives ", str(r), ", expected ", str(at(v, w))));
      });
}
MC_MAIN(body)
