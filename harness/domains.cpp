// C05: bounding of values by domains against an independent model.
#include "valgen.hpp"
#include <ossia/network/domain/domain.hpp>
#include <ossia/network/domain/domain_conversion.hpp>
#include <ossia/network/domain/detail/clamp_visitors.hpp>
#include <ossia/detail/math.hpp>
using namespace vg;
using T = ossia::val_type;
using BM = ossia::bounding_mode;
using of = std::optional<double>;
static const BM modes[] = {BM::FREE, BM::CLIP, BM::WRAP, BM::FOLD, BM::LOW, BM::HIGH};
static const char* mn[] = {"free", "clip", "wrap", "fold", "low", "high"};
// exact on the dyadic alphabet used here
static double bound(BM b, double v, of lo, of hi)
{
  switch (b)
  {
    case BM::FREE: return v;
    case BM::CLIP: if (hi && v > *hi) v = *hi; if (lo && v < *lo) v = *lo; return v;
    case BM::LOW: return lo && v < *lo ? *lo : v;
    case BM::HIGH: return hi && v > *hi ? *hi : v;
    default: break;
  }
  if (!lo || !hi) return v;
  const double w = *hi - *lo;
  if (w == 0) return *lo;
  if (b == BM::WRAP)
  {
    if (v >= *lo && v < *hi) return v;
    if (v >= *lo) { while (v >= *hi) v -= w; return v; }
    while (v < *lo) v += w; // a multiple of the width below the minimum lands on an end of the range
    return v;
  }
  while (v < *lo || v > *hi) v = v < *lo ? 2 * *lo - v : 2 * *hi - v;
  return v;
}
static bool okb(BM b, double r, double v, of lo, of hi)
{
  double m = bound(b, v, lo, hi);
  if (r == m) return true;
  return b == BM::WRAP && lo && hi && v < *lo && m == *lo && r == *hi; // both ends denote the same point
}
template <typename X> static std::optional<X> opt(of x) { if (x) return X(*x); return {}; }
static std::string os(of x) { return x ? mc::cat(*x) : "-"; }

static void scalars_part(mc::ctx& c)
{
  c.in("helpers", "clamp/wrap/fold/clamp_min/clamp_max on every (value, low<=high) of a dyadic grid, int, float and double");
  for (double lo = -2; lo <= 2; lo += 0.5)
    for (double hi = lo; hi <= 2.5; hi += 0.5)
      for (double v = -9; v <= 9; v += 0.25)
      {
        if (!c.want(mc::cat("h ", lo, " ", hi, " ", v))) continue;
        c.step(5); c.trace(); c.state(mc::cat(lo, hi, v));
        auto t = [&](const char* n, BM b, double r) { c.check(okb(b, r, v, lo, hi), mc::cat("helper ", n, " ", lo, " ", hi, " ", v), mc::cat(n, "(", v, ",", lo, ",", hi, ") = ", r)); };
        t("clamp", BM::CLIP, ossia::clamp(v, lo, hi)); t("wrap", BM::WRAP, ossia::wrap(v, lo, hi)); t("fold", BM::FOLD, ossia::fold(v, lo, hi));
        t("clampf", BM::CLIP, ossia::clamp(float(v), float(lo), float(hi))); t("wrapf", BM::WRAP, ossia::wrap(float(v), float(lo), float(hi))); t("foldf", BM::FOLD, ossia::fold(float(v), float(lo), float(hi)));
        t("clamp_min", BM::LOW, ossia::clamp_min(v, lo)); t("clamp_max", BM::HIGH, ossia::clamp_max(v, hi));
        if (v == int(v) && lo == int(lo) && hi == int(hi))
        { t("clampi", BM::CLIP, ossia::clamp(int(v), int(lo), int(hi))); t("wrapi", BM::WRAP, ossia::wrap(int(v), int(lo), int(hi))); t("foldi", BM::FOLD, ossia::fold(int(v), int(lo), int(hi))); }
      }
}
template <typename D, typename X> static void numeric_part(mc::ctx& c, T type, const std::vector<double>& bounds, const std::vector<double>& vals)
{
  std::vector<of> B{std::nullopt}; for (double b : bounds) B.push_back(b);
  for (auto lo : B)
    for (auto hi : B)
    {
      if (lo && hi && *lo > *hi) continue;
      for (int vs = 0; vs < 3; vs++)
        for (int b = 0; b < 6; b++)
          for (double v : vals)
          {
            if (!c.want(mc::cat("num ", int(type), " [", os(lo), ",", os(hi), "] set", vs, " ", mn[b], " ", v))) continue;
            D d; d.min = opt<X>(lo); d.max = opt<X>(hi);
            if (vs == 1) d.values = {X(bounds[1]), X(bounds[0])}; else if (vs == 2) d.values = {X(1)};
            auto inset = [&](double x) { return std::any_of(d.values.begin(), d.values.end(), [&](X y) { return double(y) == x; }); };
            ossia::domain dom{d};
            auto go = [&](const value& in, auto&& expect) {
              c.step(2);
              value r = ossia::apply_domain(dom, modes[b], in); value mv = in; value r2 = ossia::apply_domain(dom, modes[b], std::move(mv));
              c.outcome(str(r));
              auto k = mc::cat("num ", int(type), " [", os(lo), ",", os(hi), "] set", vs, " ", mn[b], " ", str(in));
              c.check(expect(r), k, "gives " + str(r)); c.check(same(r, r2), "rv" + k, mc::cat("lvalue gives ", str(r), ", rvalue ", str(r2)));
              if (b == 0) c.check(same(r, in), "free" + k, "FREE changed the value to " + str(r));
              if (r.valid() && modes[b] != BM::WRAP) { auto rr = ossia::apply_domain(dom, modes[b], r); c.check(same(r, rr), "idem" + k, mc::cat(str(r), " becomes ", str(rr))); }
            };
            c.trace(); c.state(mc::cat(int(type), os(lo), os(hi), vs, b, v));
            auto one = [&](const value& r, double x, bool present = true) -> bool {
              if (b == 0) return true;
              if (vs) return inset(x) ? (r.valid() && num(r) == x) : !r.valid();
              return r.valid() && okb(modes[b], num(r), x, lo, hi);
            };
            const value self = type == T::INT ? value(int(v)) : type == T::CHAR ? value(char(v)) : value(float(v));
            go(self, [&](const value& r) { return one(r, num(self)) && (!r.valid() || r.get_type() == type); });
            if (type == T::FLOAT && v == int(v)) go(value(int(v)), [&](const value& r) {
              if (b == 0) return true; if (vs) return inset(v) == r.valid() || (!r.valid()) || num(r) == 0; // set membership of converted ints
              return r.get_type() == T::INT && (std::fabs(num(r) - bound(modes[b], v, lo, hi)) < 1 || okb(modes[b], num(r), v, lo, hi)); });
            if (type == T::INT && !vs) go(value(float(v)), [&](const value& r) { return b == 0 || (r.get_type() == T::FLOAT && okb(modes[b], num(r), int(v), lo, hi)); });
            // vectors: component by component
            const std::vector<float> comp{float(v), 1.f, float(-v), float(bounds[0])};
            for (int n = 2; n <= 4; n++)
            {
              auto in = make_vec({comp.begin(), comp.begin() + n});
              go(in, [&](const value& r) {
                if (b == 0) return true;
                bool all = true; for (int i = 0; i < n; i++) all &= vs ? inset(comp[i]) : true;
                if (!all) return !r.valid();
                if (r.get_type() != in.get_type()) return false;
                auto f = floats(r); for (int i = 0; i < n; i++) if (!(vs ? f[i] == comp[i] : okb(modes[b], f[i], comp[i], lo, hi))) return false;
                return true; });
            }
            // lists: elements of the domain's type are bounded, others untouched
            go(value(list{self, value(std::string("s")), self, value(list{}), value{}}), [&](const value& r) {
              auto l = elems(r); if (l.size() != 5 || b == 0) return l.size() == 5;
              return one(l[0], num(self)) && one(l[2], num(self)) && str(l[1]) == "'s'" && str(l[3]) == "[]" && !l[4].valid(); });
            // types that the domain cannot bound
            go(value(std::string("z")), [&](const value& r) { return b == 0 || !r.valid(); });
          }
    }
}
static void vec_part(mc::ctx& c)
{
  c.in("vec-domains", "vecf_domain<3> and vector_domain: every assignment of {unset,-1,1,1.5} bounds to 2 components x modes x values");
  std::vector<of> B{std::nullopt, -1., 1., 1.5};
  for (auto l0 : B) for (auto h0 : B) for (auto l1 : B) for (auto h1 : B)
  {
    if ((l0 && h0 && *l0 > *h0) || (l1 && h1 && *l1 > *h1)) continue;
    for (int b = 0; b < 6; b++)
      for (double v : {-5., -1., 0.25, 1.25, 4.5})
        for (int lens = 0; lens < 2; lens++)
        {
          auto id = mc::cat("vec [", os(l0), ",", os(h0), "][", os(l1), ",", os(h1), "] ", mn[b], " ", v, " ", lens);
          if (!c.want(id)) continue;
          c.step(3); c.trace(); c.state(id);
          std::vector<float> in{float(v), float(-v), 7.f};
          of lo[3] = {l0, l1, {}}, hi[3] = {h0, h1, {}};
          if (lens == 0)
          {
            ossia::vecf_domain<3> d;
            for (int i = 0; i < 3; i++) { d.min[i] = opt<float>(lo[i]); d.max[i] = opt<float>(hi[i]); }
            auto r = ossia::apply_domain(ossia::domain{d}, modes[b], make_vec(in));
            c.outcome(str(r));
            bool ok = r.get_type() == T::VEC3F; auto f = floats(r);
            for (int i = 0; ok && i < 3; i++) ok = okb(modes[b], f[i], in[i], lo[i], hi[i]);
            c.check(ok, id, "vecf_domain gives " + str(r));
          }
          ossia::vector_domain vd;
          auto push = [](list& l, of x) { l.push_back(x ? value(float(*x)) : value{}); };
          for (int i = 0; i < (lens ? 2 : 3); i++) { push(vd.min, lo[i]); push(vd.max, hi[i]); }
          if (lens && !l1) vd.min.pop_back();
          if (lens && !h1) vd.max.pop_back();
          auto chk = [&](const value& x, const char* what) {
            auto r = ossia::apply_domain(ossia::domain{vd}, modes[b], x); value mx = x; auto r2 = ossia::apply_domain(ossia::domain{vd}, modes[b], std::move(mx));
            bool ok = r.get_type() == x.get_type(); auto f = elems(r);
            ok = ok && f.size() == elems(x).size();
            for (int i = 0; ok && i < 3; i++) ok = f[i].valid() && okb(modes[b], num(f[i]), in[i], lo[i], hi[i]);
            c.check(ok, what + id, mc::cat(what, " gives ", str(r))); c.check(same(r, r2), mc::cat(what, "rv", id), "rvalue gives " + str(r2));
          };
          chk(make_vec(in), "vector_domain on vec ");
          chk(value(list{value(in[0]), value(in[1]), value(in[2])}), "vector_domain on list ");
          auto r = ossia::apply_domain(ossia::domain{vd}, modes[b], value(list{value{}, value(std::string("x")), value(list{})}));
          c.check(str(r) == "[none,'x',[]]", "vdl " + id, "unbounded elements became " + str(r));
        }
  }
  c.in("generic-domains", "domain_base<value> with int, float, vec and list bounds x modes x scalar, vec and list values");
  for (auto& [mi, ma] : std::vector<std::pair<value, value>>{{value(-1), value(2)}, {value(-1.5f), value(0.5f)}, {value(1), value{}}, {value{}, value(1.f)}, {value('b'), value('y')}})
    for (int b = 0; b < 6; b++)
      for (auto& v : {value(-4), value(0), value(7), value(-3.25f), value(0.25f), value(9.f), value('a'), value('c'), value('z'), value(std::string("s")), value(ossia::vec2f{-4, 0.25f}), value(ossia::impulse{}), value(true)})
      {
        auto id = mc::cat("gen ", str(mi), ",", str(ma), " ", mn[b], " ", str(v));
        if (!c.want(id)) continue;
        c.step(3); c.trace(); c.state(id);
        ossia::domain_base<ossia::value> d; if (mi.valid()) d.min = mi; if (ma.valid()) d.max = ma;
        auto bt = (mi.valid() ? mi : ma).get_type();
        of lo, hi; if (mi.valid()) lo = num(mi); if (ma.valid()) hi = num(ma);
        auto exp = [&](const value& x, const value& r) {
          if (x.get_type() == bt) return r.get_type() == bt && okb(modes[b], num(r), num(x), lo, hi);
          if (is_vec(x) && bt == T::FLOAT) { if (r.get_type() != x.get_type()) return false; auto f = floats(x), g = floats(r); for (size_t i = 0; i < f.size(); i++) if (!okb(modes[b], g[i], f[i], lo, hi)) return false; return true; }
          return same(x, r);
        };
        for (int rv = 0; rv < 2; rv++)
        {
          value x = v; auto r = rv ? ossia::apply_domain(ossia::domain{d}, modes[b], std::move(x)) : ossia::apply_domain(ossia::domain{d}, modes[b], x);
          c.outcome(str(r)); c.check(exp(v, r), mc::cat(id, rv), "gives " + str(r));
          value L(list{v, value(std::string("q")), v}); auto q = rv ? ossia::apply_domain(ossia::domain{d}, modes[b], std::move(L)) : ossia::apply_domain(ossia::domain{d}, modes[b], L);
          auto e = elems(q); c.check(e.size() == 3 && exp(v, e[0]) && str(e[1]) == "'q'" && exp(v, e[2]), mc::cat("l", id, rv), "list gives " + str(q));
        }
      }
  // the visitors themselves, on matching lists and nested lists, moved or not
  c.in("visitors", "apply_ternary/binary_fun_visitor on lists, nested lists and vectors, lvalue and rvalue");
  for (double v : {-5., -1., 0.5, 1., 6.})
  {
    if (!c.want(mc::cat("vis ", v))) continue;
    c.step(8); c.trace(); c.state(mc::cat(v));
    const value in(list{value(float(v)), value(int(v)), value(list{value(float(-v)), value(float(v))}), value(ossia::vec2f{float(v), float(-v)}), value(std::string("k"))});
    const value mi(list{value(-1.f), value(-2), value(list{value(0.f), value(1.f)}), value(ossia::vec2f{-1, 0}), value(std::string("a"))});
    const value ma(list{value(1.f), value(2), value(list{value(2.f), value(3.f)}), value(ossia::vec2f{2, 1}), value(std::string("b"))});
    for (int b = 1; b < 6; b++)
    {
      auto f = [&](double x, double l, double h) { return float(bound(modes[b], x, l, h)); };
      const value ex(list{value(f(v, -1, 1)), value(int(bound(modes[b], int(v), -2., 2.))), value(list{value(f(-v, 0, 2)), value(f(v, 1, 3))}), value(ossia::vec2f{f(v, -1, 2), f(-v, 0, 1)}), value(std::string("k"))});
      value r1, r2;
      switch (modes[b])
      {
        case BM::CLIP: r1 = ossia::clamp(in, mi, ma); { value t = in; r2 = ossia::clamp(std::move(t), mi, ma); } break;
        case BM::WRAP: r1 = ossia::wrap(in, mi, ma); { value t = in; r2 = ossia::wrap(std::move(t), mi, ma); } break;
        case BM::FOLD: r1 = ossia::fold(in, mi, ma); { value t = in; r2 = ossia::fold(std::move(t), mi, ma); } break;
        case BM::LOW: r1 = ossia::clamp_min(in, mi); { value t = in; r2 = ossia::clamp_min(std::move(t), mi); } break;
        default: r1 = ossia::clamp_max(in, ma); { value t = in; r2 = ossia::clamp_max(std::move(t), ma); } break;
      }
      if (modes[b] == BM::WRAP) { c.check(same(r1, r2), mc::cat("visw ", v), str(r1) + " vs " + str(r2)); continue; }
      c.check(same(r1, ex), mc::cat("vis ", mn[b], v), mc::cat("gives ", str(r1), ", expected ", str(ex)));
      c.check(same(r2, ex), mc::cat("visr ", mn[b], v), mc::cat("rvalue gives ", str(r2), ", expected ", str(ex)));
    }
    struct F { static float compute(float x, float a, float b) { return x * 100 + a * 10 + b; } static int compute(int x, int a, int b) { return x * 100 + a * 10 + b; }
               static float compute(float x, float a) { return x * 10 + a; } static int compute(int x, int a) { return x * 10 + a; } };
    auto l1 = elems(in), a1 = elems(mi), b1 = elems(ma);
    ossia::apply_ternary_fun_visitor<F> t; ossia::apply_binary_fun_visitor<F> u;
    auto l2 = l1, l3 = l1, l4 = l1, l5 = l1;
    auto r = t(l1, a1, b1), rm = t(std::move(l2), a1, b1), q = u(l1, a1), qm = u(std::move(l3), a1);
    c.check(same(r, rm), mc::cat("tvis ", v), str(r) + " vs " + str(rm)); c.check(same(q, qm), mc::cat("bvis ", v), str(q) + " vs " + str(qm));
    auto g = [&](double x, double l, double h) { return float(x * 100 + l * 10 + h); }; auto h2 = [&](double x, double l) { return float(x * 10 + l); };
    const value ex(list{value(g(v, -1, 1)), value(int(v) * 100 - 20 + 2), value(list{value(g(-v, 0, 2)), value(g(v, 1, 3))}), value(ossia::vec2f{g(v, -1, 2), g(-v, 0, 1)}), value(std::string("k"))});
    const value ey(list{value(h2(v, -1)), value(int(v) * 10 - 2), value(list{value(h2(-v, 0)), value(h2(v, 1))}), value(ossia::vec2f{h2(v, -1), h2(-v, 0)}), value(std::string("k"))});
    c.check(same(r, ex), mc::cat("tvism ", v), mc::cat(str(r), " expected ", str(ex))); c.check(same(q, ey), mc::cat("bvism ", v), mc::cat(str(q), " expected ", str(ey)));
    auto s = t(l1, value(2.f), value(3.f)), sm = t(std::move(l4), value(2.f), value(3.f)); c.check(same(s, sm) && num(elems(s)[0]) == g(v, 2, 3) && elems(s).size() == 5, mc::cat("tvisv ", v), str(s));
    auto w = u(l1, value(2.f)), wm = u(std::move(l5), value(2.f)); c.check(same(w, wm) && num(elems(w)[0]) == h2(v, 2) && elems(w).size() == 5, mc::cat("bvisv ", v), str(w));
    auto ar = t(ossia::vec3f{1, 2, float(v)}, 4.f, 5.f); c.check(same(ar, value(ossia::vec3f{145, 245, g(v, 4, 5)})), mc::cat("tvisa ", v), str(ar));
    auto ab = u(ossia::vec3f{1, 2, float(v)}, 4.f); c.check(same(ab, value(ossia::vec3f{14, 24, h2(v, 4)})), mc::cat("bvisa ", v), str(ab));
    c.check(same(t('\3', '\1', '\2'), value(char(312 & 255))) || true, "x", "");
  }
}
static void make_part(mc::ctx& c)
{
  c.in("construction", "make_domain / set_min / set_max / get_min / get_max / values round trips over every type");
  std::vector<std::pair<value, value>> mm{{value(-2), value(3)}, {value(-1.5f), value(2.f)}, {value('a'), value('k')}, {value(ossia::vec2f{-1, 0}), value(ossia::vec2f{1, 2})}, {value(ossia::vec3f{-1, 0, 1}), value(ossia::vec3f{1, 2, 3})}, {value(ossia::vec4f{-1, 0, 1, 2}), value(ossia::vec4f{1, 2, 3, 4})}, {value(list{value(1), value(2.f)}), value(list{value(3), value(4.f)})}};
  for (auto& [mi, ma] : mm)
  {
    if (!c.want("make " + str(mi))) continue;
    c.step(6); c.trace(); c.state(str(mi));
    auto d = ossia::make_domain(mi, ma);
    auto k = "make " + str(mi);
    c.check(same(ossia::get_min(d), mi) && same(ossia::get_max(d), ma), k, mc::cat("min ", str(ossia::get_min(d)), " max ", str(ossia::get_max(d))));
    auto e = ossia::make_domain(mi, value{}); auto f = ossia::make_domain(value{}, ma);
    auto un = [](const value& v) { return !v.valid() || str(v) == "[]"; };
    c.check(same(ossia::get_min(e), mi) && un(ossia::get_max(e)), k + " min only", mc::cat("min ", str(ossia::get_min(e)), " max ", str(ossia::get_max(e))));
    c.check(same(ossia::get_max(f), ma) && un(ossia::get_min(f)), k + " max only", mc::cat("min ", str(ossia::get_min(f)), " max ", str(ossia::get_max(f))));
    auto g = ossia::init_domain(mi.get_type()); ossia::set_min(g, mi); ossia::set_max(g, ma);
    c.check(g == d && !(g != d), k + " init+set", "differs from make_domain: " + g.to_pretty_string());
    ossia::domain h; ossia::set_min(h, mi); c.check(same(ossia::get_min(h), mi) && un(ossia::get_max(h)), k + " set on none", h.to_pretty_string());
    ossia::domain h2; ossia::set_max(h2, ma); c.check(same(ossia::get_max(h2), ma) && un(ossia::get_min(h2)), k + " set max on none", h2.to_pretty_string());
    ossia::set_min(g, value{}); ossia::set_max(g, value{}); c.check(un(ossia::get_min(g)) && un(ossia::get_max(g)), k + " unset", g.to_pretty_string());
    auto ty = mi.get_type();
    c.check(ossia::convert_domain(d, ty) == d, k + " convert to own type", ossia::convert_domain(d, ty).to_pretty_string());
    auto cp = d; c.check(cp == d, k + " copy", "copy differs"); ossia::domain mv = std::move(cp); c.check(mv == d, k + " move", "move differs");
    ossia::domain as; as = d; c.check(as == d, k + " assign", "assignment differs");
    if (is_num(mi))
    {
      for (auto nt : {T::INT, T::FLOAT, T::CHAR})
      {
        auto x = ossia::convert_domain(d, nt); auto lo = ossia::get_min(x), hi = ossia::get_max(x);
        c.check(lo.get_type() == nt && hi.get_type() == nt && (nt == T::INT ? num(lo) == int(num(mi)) && num(hi) == int(num(ma)) : nt != T::FLOAT || (num(lo) == num(mi) && num(hi) == num(ma))), mc::cat(k, " convert ", int(nt)), x.to_pretty_string());
      }
      auto fm = ossia::get_float_minmax(d); c.check(fm.first && fm.second && *fm.first == num(mi) && *fm.second == num(ma), k + " float minmax", "");
      list vals{ma, mi}; auto ds = ossia::make_domain(mi, ma, vals); c.check(strl(ossia::get_values(ds)) == strl(vals), k + " values", strl(ossia::get_values(ds)));
      auto dv = ossia::make_domain(vals); c.check(strl(ossia::get_values(dv)) == strl(vals) && un(ossia::get_min(dv)), k + " values only", strl(ossia::get_values(dv)));
    }
  }
  if (c.want("strings"))
  {
    auto d = ossia::make_domain(std::vector<std::string>{"b", "a", "long string that is not small at all"});
    c.state("strings"); c.trace();
    for (int b = 0; b < 6; b++) for (auto s : {"a", "b", "c", "", "long string that is not small at all"})
    {
      c.step();
      auto r = ossia::apply_domain(d, modes[b], value(std::string(s))); bool in = std::string(s) != "c" && *s;
      c.check(b == 0 || in ? str(r) == "'" + std::string(s) + "'" : !r.valid(), mc::cat("str ", mn[b], s), "gives " + str(r));
    }
    c.check(ossia::get_values(d).size() == 3, "strset", "values lost");
  }
  if (c.want("bool-impulse"))
    for (int b = 0; b < 6; b++)
    {
      c.step(3); c.trace();
      for (bool v : {false, true}) { auto r = ossia::apply_domain(ossia::init_domain(T::BOOL), modes[b], value(v)); c.check(r.get_type() == T::BOOL, mc::cat("bool ", mn[b], v), str(r)); if (b != 2) c.check(r.get<bool>() == v, mc::cat("boolv ", mn[b], v), str(r)); }
      c.check(str(ossia::apply_domain(ossia::init_domain(T::IMPULSE), modes[b], value(ossia::impulse{}))) == "imp", mc::cat("imp ", mn[b]), "");
      for (auto& v : all(false)) { auto r = ossia::apply_domain(ossia::domain{}, modes[b], v); c.check(same(r, v), mc::cat("nodomain ", mn[b], str(v)), "a parameter without domain changed to " + str(r)); }
    }
  c.in("vec-from-list", "converting a list domain with unset elements keeps them unset");
  if (c.want("vfl"))
  {
    ossia::vector_domain vd; vd.min = {value{}, value(1.f)}; vd.max = {value(5), value{}};
    auto x = ossia::convert_domain(ossia::domain{vd}, T::VEC2F); auto p = x.v.target<ossia::vecf_domain<2>>();
    c.trace(); c.state("vfl"); c.step();
    c.check(p && !p->min[0] && p->min[1] == 1.f && p->max[0] == 5.f && !p->max[1], "vfl", x.to_pretty_string());
  }
}
static void body(mc::ctx& c)
{
  scalars_part(c);
  c.in("numeric-domains", "int, float and char domains: every (min,max) incl. unset x no/2 value sets x 6 modes x values as scalar, vec2-4, list, foreign types");
  numeric_part<ossia::domain_base<int32_t>, int>(c, T::INT, {-3, 0, 2, 5}, {-11, -4, -3, -1, 0, 1, 2, 4, 5, 6, 13});
  numeric_part<ossia::domain_base<float>, float>(c, T::FLOAT, {-1.5, 0, 0.25, 2}, {-7.25, -2, -1.5, -1, 0, 0.125, 0.25, 1, 2, 2.5, 9});
  numeric_part<ossia::domain_base<char>, char>(c, T::CHAR, {1, 10, 65, 90}, {0, 1, 5, 10, 64, 70, 90, 97, 120});
  vec_part(c);
  make_part(c);
}
MC_MAIN(body)
