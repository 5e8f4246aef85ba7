// Curves, easings, automations, mappings, gradients and splines against independent formulas.
#include "valgen.hpp"
#include <ossia/dataflow/execution_state.hpp>
#include <ossia/dataflow/nodes/automation.hpp>
#include <ossia/dataflow/nodes/gradient.hpp>
#include <ossia/dataflow/nodes/mapping.hpp>
#include <ossia/dataflow/nodes/percentage.hpp>
#include <ossia/dataflow/nodes/spline.hpp>
#include <ossia/editor/curve/curve.hpp>
#include <ossia/editor/curve/curve_segment/easing.hpp>
#include <ossia/editor/curve/curve_segment/empty.hpp>
#include <ossia/editor/curve/curve_segment/linear.hpp>
#include <ossia/editor/curve/curve_segment/power.hpp>
#include <ossia/editor/curve/curve_segment/sin.hpp>
#include <ossia/network/base/node_functions.hpp>
#include <ossia/network/dataspace/dataspace.hpp>
#include <ossia/network/dataspace/dataspace_visitors.hpp>
#include <ossia/network/base/protocol.hpp>
#include <ossia/network/generic/generic_device.hpp>
#include <ossia/network/generic/generic_parameter.hpp>
using namespace ossia; using vg::str;
using ints = std::vector<int>;
typedef long double L;
static const L PI = 3.14159265358979323846264338327950288L;
// reference easings: the "in" shape of each family
static L pw(L t, int n) { L r = 1; while (n--) r *= t; return r; }
static L bounce_out(L t) { // parabolas touching 1 at 4/11, 8/11, 9/10 and 1
  if (t < 4.L / 11) return 121 * t * t / 16;
  if (t < 8.L / 11) return 363.L / 40 * t * t - 99.L / 10 * t + 17.L / 5;
  if (t < 9.L / 10) return 4356.L / 361 * t * t - 35442.L / 1805 * t + 16061.L / 1805;
  return 54.L / 5 * t * t - 513.L / 25 * t + 268.L / 25; }
static L in_shape(int f, L t)
{
  switch (f)
  {
    case 0: return pw(t, 2); case 1: return pw(t, 3); case 2: return pw(t, 4); case 3: return pw(t, 5);
    case 4: return 1 - cosl(t * PI / 2);
    case 5: return 1 - sqrtl(1 - t * t);
    case 6: return t <= 0 ? 0 : powl(2, 10 * (t - 1));
    case 7: return sinl(13 * PI / 2 * t) * powl(2, 10 * (t - 1));
    case 8: return pw(t, 3) - t * sinl(t * PI);
    default: return 1 - bounce_out(1 - t);
  }
}
static L shape(int f, int kind, L t)
{
  if (kind == 0) return in_shape(f, t);
  if (kind == 1) return f == 7 ? sinl(-13 * PI / 2 * (t + 1)) * powl(2, -10 * t) + 1 : 1 - in_shape(f, 1 - t);
  if (t < 0.5L) return in_shape(f, 2 * t) / 2;
  return 0.5L + shape(f, 1, 2 * t - 1) / 2;
}
using fd = double (*)(double); using ff = float (*)(float);
struct eas { const char* name; int fam, kind; fd d; ff f; double (*seg)(double, double, double); };
#define E1(N, F, K) {#N, F, K, [](double t) { return double(easing::N{}(t)); }, [](float t) { return float(easing::N{}(t)); }, [](double r, double a, double b) { return curve_segment_ease<double, easing::N>{}(r, a, b); }}
#define E3(N, F) E1(N##In, F, 0), E1(N##Out, F, 1), E1(N##InOut, F, 2)
static const eas EAS[] = {E3(quadratic, 0), E3(cubic, 1), E3(quartic, 2), E3(quintic, 3), E3(sine, 4), E3(circular, 5), E3(exponential, 6), E3(elastic, 7), E3(back, 8), E3(bounce, 9), E1(linear, 20, 0), E1(perlinInOut, 21, 0)};
static void easings(mc::ctx& c)
{
  const int N = c.thorough() ? 65536 : 2048;
  c.in("easings", mc::cat("32 easings at ", N + 1, " equally spaced ratios, double and float, as function and as segment"));
  for (auto& e : EAS)
  {
    auto id = mc::cat("ease ", e.name);
    if (!c.want(id)) continue;
    c.state(id); c.trace();
    for (int i = 0; i <= N; i++)
    {
      L t = L(i) / N, w = e.fam == 20 ? t : e.fam == 21 ? t * t * t * (t * (t * 6 - 15) + 10) : shape(e.fam, e.kind, t);
      // circles are vertical at one end: the rounding of t is amplified
      L tol = e.fam == 5 ? 1e-7L : 1e-12L;
      double g = e.d(t); float h = e.f(t);
      // the exponential family starts (or ends) exactly where it should, its formula being only asymptotic
      if (e.fam == 6 && (t == 0 || t == 1)) w = t;
      if (e.fam == 7 && e.kind == 2 && t == 0.5L) w = shape(7, 2, t); 
      c.check(fabsl(g - w) <= tol, mc::cat("value ", e.name), mc::cat(e.name, "(", double(t), ") = ", g, " expected ", double(w)));
      c.check(fabsl(h - w) <= (e.fam == 5 ? 1e-3L : 3e-5L), mc::cat("float ", e.name), mc::cat(e.name, "(", double(t), "f) = ", h, " expected ", double(w)));
      if (i == 0 || i == N) c.check(fabsl(g - t) <= (e.fam == 7 ? 1e-3L : 1e-12L), mc::cat("end ", e.name), mc::cat(e.name, "(", double(t), ") = ", g));
      double s = e.seg(t, -3, 5); c.check(fabsl(s - (-3 + 8 * w)) <= 20 * tol, mc::cat("segment ", e.name), mc::cat(e.name, " segment -3..5 at ", double(t), " = ", s, " expected ", double(-3 + 8 * w)));
      c.step();
    }
    c.outcome(e.name);
  }
}
// curves: points in any order, removed and added, several segment kinds
static float seg_ref(int k, double r, double a, double b)
{
  switch (k) { case 0: return a + r * (b - a); case 1: return a; case 2: return a + r * r * (b - a); case 3: return a + shape(1, 2, r) * (b - a); default: return a + 0.5 * std::sin(0.25 + two_pi * r * 2) * (b - a); }
}
template <class Y> static curve_segment<Y> seg(int k)
{
  switch (k) { case 0: return curve_segment_linear<Y>{}; case 1: return curve_segment_empty<Y>{}; case 2: return curve_segment_power<Y>{}(2.); case 3: return curve_segment_ease<Y, easing::cubicInOut>{}; default: return curve_segment_sin<Y>{}(2., 0.25, 0.5); }
}
struct mp { double x; double y; int k; };
template <class X, class Y> static void curve_type_part(mc::ctx& c, const char* nm, double scale)
{
  static const double YV[] = {0, 1, -4};
  const double xs[] = {0.25 * scale, 0.5 * scale, 0.75 * scale, 1 * scale};
  const int K = std::is_same_v<Y, bool> ? 2 : 5;
  // choose for each of the four abscissas: absent or (value, segment); two orders of insertion; one of them removed and put back
  const int opt = 1 + 2 * K;
  for (int y0 = 0; y0 < 2; y0++)
  mc::words(opt, c.thorough() ? 4 : 3, [&](const ints& w) {
    for (int ord = 0; ord < 2; ord++)
    {
      auto id = mc::cat(nm, " ", y0, " ", mc::join(w), " ", ord);
      if (!c.want(id)) continue;
      std::vector<mp> pts; for (size_t i = 0; i < w.size(); i++) if (w[i]) pts.push_back({xs[i], YV[1 + (w[i] - 1) % 2], (w[i] - 1) / 2});
      if (std::is_same_v<Y, bool>) for (auto& p : pts) p.y = p.y > 0;
      auto ins = pts; if (ord) std::reverse(ins.begin(), ins.end());
      curve<X, Y> cv; cv.set_x0(X(0)); cv.set_y0(Y(YV[y0]));
      for (auto& p : ins) cv.add_point(seg<Y>(p.k), X(p.x), Y(p.y));
      if (ord && !pts.empty()) { auto& p = pts[pts.size() / 2]; c.check(cv.remove_point(X(p.x)), "remove", id); c.check(!cv.remove_point(X(p.x)), "remove twice", id); cv.add_point(seg<Y>(p.k), X(p.x), Y(p.y)); }
      curve<X, Y> copy = cv, moved; { auto t = cv; moved = std::move(t); } curve<X, Y> asg; asg = cv;
      c.check(cv.get_points().size() == pts.size() && cv.get_x0() == X(0) && cv.get_y0() == Y(YV[y0]), "points", id);
      c.state(id); c.trace();
      for (int i = -2; i <= 40; i++)
      {
        X x = X(scale * i / 32); if (std::is_integral_v<X> && double(x) != scale * i / 32) continue;
        double lx = 0, ly = YV[y0], r = ly; int k = 0; bool at = false;
        if (std::is_same_v<Y, bool>) ly = r = ly != 0;
        if (double(x) > 0) { bool done = false; for (auto& p : pts) { if (double(x) <= p.x) { r = std::is_same_v<Y, bool> ? (p.k == 0 ? 2 : ly) : seg_ref(p.k, (double(x) - lx) / (p.x - lx), ly, p.y); done = true; k = p.k; at = double(x) == p.x; if (at && std::is_same_v<Y, bool> && p.k == 0) r = p.y; break; } lx = p.x; ly = p.y; } if (!done) r = ly; }
        double g[] = {double(cv.value_at(x)), double(copy.value_at(x)), double(moved.value_at(x)), double(asg.value_at(x))};
        for (double q : g)
        {
          bool ok = std::is_same_v<Y, bool> ? (r == 2 || q == r) : std::is_same_v<Y, int> ? std::abs(q - r) < 1 + 1e-6 && (r != std::floor(r) || k != 0 || std::abs(q - r) < 1 + 1e-6) : std::abs(q - r) < 1e-5 * (1 + std::abs(r));
          if (at && k != 1 && k != 4 && !std::is_same_v<Y, bool>) ok = ok && q == r;
          c.check(ok, mc::cat("curve ", nm, " segment ", k), mc::cat(id, " at ", double(x), ": ", q, " expected ", r)); c.step();
        }
        c.outcome(mc::cat(r));
      }
    }
  });
}
struct proto : net::protocol_base
{
  proto() : protocol_base{flags{}} {}
  bool pull(net::parameter_base&) override { return true; }
  bool push(const net::parameter_base&, const ossia::value&) override { return true; }
  bool push(const net::parameter_base&, ossia::value&&) override { return true; }
  bool push_raw(const net::full_parameter_data&) override { return true; }
  bool observe(net::parameter_base&, bool) override { return true; }
  bool update(net::node_base&) override { return true; }
};
static token_request tok(int64_t prev, int64_t date, int64_t dur, int64_t off = 0)
{ token_request t; t.prev_date = time_value{prev}; t.date = time_value{date}; t.parent_duration = time_value{dur}; t.offset = time_value{off}; t.speed = 1; t.tempo = 120; return t; }
static std::vector<std::string> run(graph_node& n, const token_request& t, execution_state& e)
{
  auto& vp = *n.root_outputs()[0]->template target<value_port>(); vp.clear();
  n.run(t, {&e}); std::vector<std::string> r; for (auto& v : vp.get_data()) r.push_back(mc::cat(str(v.value), "@", v.timestamp)); return r;
}
using DC = curve<double, float>;
// kinds of behaviour leaves: 0 float curve, 1 int curve, 2 bool curve, 3 constant
static behavior leaf(int k, int n)
{
  switch (k)
  {
    case 0: { auto p = std::make_shared<curve<double, float>>(); p->set_x0(0); p->set_y0(n); p->add_point(curve_segment_linear<float>{}, 1, n + 1); return behavior{p}; }
    case 1: { auto p = std::make_shared<curve<double, int>>(); p->set_x0(0); p->set_y0(n); p->add_point(curve_segment_linear<int>{}, 1, n + 8); return behavior{p}; }
    case 2: { auto p = std::make_shared<curve<double, bool>>(); p->set_x0(0); p->set_y0(false); p->add_point(curve_segment_empty<bool>{}, 0.5, true); p->add_point(curve_segment_empty<bool>{}, 1, true); return behavior{p}; }
    default: return behavior{std::shared_ptr<curve_abstract>(std::make_shared<constant_curve>(value{std::string("k") + char('0' + n)}))};
  }
}
static value leaf_at(int k, int n, double x)
{
  switch (k) { case 0: return float(n + (x > 1 ? 1 : x)); case 1: return int(n + 8 * (x > 1 ? 1 : x)); case 2: return x > 0.5; default: return std::string("k") + char('0' + n); }
}
static void behaviours(mc::ctx& c)
{
  const int W = c.thorough() ? 5 : 4;
  c.in("behaviours", mc::cat("automations driven by a curve of each kind, by every list of <=", W, " curves, lists of lists; positions past the end; tick offsets"));
  execution_state e; e.sampleRate = 44100; e.bufferSize = 64; e.modelToSamplesRatio = 1; e.samplesToModelRatio = 1;
  for (int len = 0; len <= W; len++)
    mc::words(5, std::max(len, 1), [&](const ints& w) {
      if (len == 0 && w[0] == 4) return;
      auto id = mc::cat("bh ", len, " ", mc::join(w));
      if (!c.want(id)) return;
      nodes::automation n; std::vector<behavior> bs;
      for (size_t i = 0; i < w.size(); i++) bs.push_back(w[i] == 4 ? behavior{std::vector<behavior>{leaf(0, 5), leaf(1, 5)}} : leaf(w[i], i));
      n.set_behavior(len == 0 ? bs[0] : behavior{bs});
      c.state(id); c.trace();
      for (int x : {0, 1, 2, 4, 5, 8, 12}) for (int off : {0, 3})
      {
        double pos = x / 8.;
        std::vector<value> vs; bool allf = true;
        for (size_t i = 0; i < w.size(); i++) { allf = allf && w[i] == 0; vs.push_back(w[i] == 4 ? value{std::vector<value>{leaf_at(0, 5, pos), leaf_at(1, 5, pos)}} : leaf_at(w[i], i, pos)); }
        value want; auto f = [&](int i) { return vs[i].get<float>(); };
        if (len == 0) want = vs[0];
        else if (allf && vs.size() == 2) want = make_vec(f(0), f(1));
        else if (allf && vs.size() == 3) want = make_vec(f(0), f(1), f(2));
        else if (allf && vs.size() == 4) want = make_vec(f(0), f(1), f(2), f(3));
        else want = vs;
        auto g = run(n, tok(x > 0 ? x - 1 : 0, x, 8, off), e); c.step();
        std::vector<std::string> ws{mc::cat(str(want), "@", off)};
        c.check(g == ws, mc::cat("automation ", allf ? "floats" : "mixed"), mc::cat(id, " at ", pos, ": ", g.empty() ? "nothing" : g[0], " expected ", ws[0]));
        c.outcome(ws[0]);
        if (len == 0 && w[0] == 0)
        {
          nodes::float_automation fa; DC d; d.set_x0(0); d.set_y0(0); d.add_point(curve_segment_linear<float>{}, 1, 1); fa.set_behavior(d);
          auto g2 = run(fa, tok(0, x, 8, off), e); c.check(g2 == ws, "float automation", mc::cat(id, " at ", pos));
        }
      }
    });
  net::generic_device dev{std::make_unique<proto>(), "d"};
  // percentage of the parent
  { auto p = net::create_node(dev, "/pct").create_parameter(val_type::FLOAT); nodes::percentage pc{destination{*p}};
    for (int d = 1; d <= 8; d++) for (int x = 0; x <= d; x++) { auto id = mc::cat("pct ", d, x); if (!c.want(id)) continue; c.state(id); auto g = run(pc, tok(0, x, d, 2), e); std::vector<std::string> ws{mc::cat(str(value{float(double(x) / d)}), "@2")}; c.check(g == ws, "percentage", mc::cat(id)); } }
  // initial ordinate taken from a parameter: read when first needed, kept until reset
  auto pa = net::create_node(dev, "/y").create_parameter(val_type::FLOAT); auto pv = net::create_node(dev, "/v").create_parameter(val_type::VEC3F); auto pb = net::create_node(dev, "/other").create_parameter(val_type::FLOAT);
  mc::words(6, c.thorough() ? 6 : 5, [&](const ints& w) {
    for (int vec = 0; vec < 2; vec++)
    {
      auto id = mc::cat("y0 ", vec, " ", mc::join(w)); if (!c.want(id)) continue;
      DC d; d.set_x0(0); d.set_y0(-1); d.add_point(curve_segment_linear<float>{}, 1, 10);
      if (vec) d.set_y0_destination(destination{*pv, destination_index{1}}); else d.set_y0_destination(destination{*pa});
      float cur = 2, cache = 0; bool have = false; auto put = [&] { if (vec) pv->set_value(make_vec(50.f, cur, 60.f)); else pa->set_value(cur); }; put();
      for (int o : w)
      {
        if (o == 0) { cur += 1; put(); }
        else if (o == 1) { d.reset(); have = false; }
        else if (o == 2) { if (!have) { cache = cur; have = true; } float g = d.value_at(0.5); c.check(g == (cache + 10) / 2, mc::cat("initial ordinate ", vec), mc::cat(id, ": ", g, " expected ", (cache + 10) / 2)); c.outcome(mc::cat(g)); }
        else // a copy has read nothing yet, a moved curve reads again
        {
          if (o == 3) { DC x = d; d.set_y0(7); d = x; }
          else if (o == 4) { DC x = std::move(d); d = x; }
          else { DC x; x.set_y0_destination(destination{*pb}); x.value_at(0.5); x = std::move(d); d = DC{}; d = std::move(x); }
          have = false;
        }
        c.step();
      }
      c.state(id); c.trace();
    }
  });
}
static void mappings(mc::ctx& c)
{
  c.in("mappings", "mapping of values of each numeric type, arrays and lists through one curve or a list of curves; several dated values per tick");
  execution_state e; e.bufferSize = 64; e.modelToSamplesRatio = 1; e.samplesToModelRatio = 1;
  auto mk = [](float k) { auto p = std::make_shared<curve<float, float>>(); p->set_x0(0); p->set_y0(0); p->add_point(curve_segment_linear<float>{}, 1, k); return p; };
  auto at = [](float k, float x) { x = x < 0 ? 0 : x > 1 ? 1 : x; return k * x; };
  const float X[] = {-1, 0, 0.25, 0.5, 1, 3};
  for (int kind = 0; kind < 7; kind++) for (int a = 0; a < 6; a++) for (int b = 0; b < 6; b++) for (int lst = 0; lst < 4; lst++)
  {
    auto id = mc::cat("map ", kind, a, b, lst); if (!c.want(id)) continue;
    value in, want; const int N = lst + 1; behavior bh{mk(4)}; std::vector<behavior> bs; for (int i = 0; i < N; i++) bs.push_back(behavior{mk(i + 2)});
    float x = X[a], y = X[b]; bool skip = false;
    switch (kind)
    {
      case 0: in = x; want = at(4, x); skip = lst > 0; break;
      case 1: in = make_vec(x, y); want = make_vec(at(4, x), at(4, y)); skip = lst > 0; break;
      case 2: in = make_vec(x, y, x); want = make_vec(at(4, x), at(4, y), at(4, x)); skip = lst > 0; break;
      case 3: in = std::vector<value>{x, make_vec(y, x), std::vector<value>{y}}; want = std::vector<value>{at(4, x), make_vec(at(4, y), at(4, x)), std::vector<value>{at(4, y)}}; skip = lst > 0; break;
      case 4: bh = behavior{bs}; in = make_vec(x, y); if (N == 2) want = make_vec(at(2, x), at(3, y)); skip = false; break;
      case 5: bh = behavior{bs}; in = make_vec(x, y, 0.5f); if (N == 3) want = make_vec(at(2, x), at(3, y), at(4, 0.5f)); break;
      case 6: { bh = behavior{bs}; in = std::vector<value>{x, y, 0.25f}; std::vector<value> l; const float q[] = {x, y, 0.25f}; for (int i = 0; i < 3 && i < N; i++) l.push_back(at(i + 2, q[i])); want = l; break; }
    }
    if (skip) continue;
    nodes::mapping n; n.set_behavior(bh); auto& ip = *n.root_inputs()[0]->target<value_port>();
    ip.write_value(in, 3); ip.write_value(value{}, 4); ip.write_value(in, 7);
    auto g = run(n, tok(0, 8, 8), e); std::vector<std::string> ws{mc::cat(str(want), "@3"), mc::cat(str(want), "@7")};
    c.state(id); c.step(); c.trace(); c.outcome(ws[0]);
    c.check(g == ws, mc::cat("mapping ", kind), mc::cat(id, ": ", g.empty() ? "nothing" : g[0], " expected ", ws[0]));
  }
  for (int a = -2; a <= 6; a++)
  { // integers and booleans have curves of their own
    auto id = mc::cat("mapi ", a); if (!c.want(id)) continue; c.state(id); c.step(); c.trace();
    auto p = std::make_shared<curve<int, int>>(); p->set_x0(0); p->set_y0(0); p->add_point(curve_segment_linear<int>{}, 4, 40);
    auto pb = std::make_shared<curve<bool, bool>>(); pb->set_x0(false); pb->set_y0(true); pb->add_point(curve_segment_linear<bool>{}, true, false);
    nodes::mapping n; n.set_behavior(behavior{p}); n.root_inputs()[0]->target<value_port>()->write_value(a, 0);
    auto g = run(n, tok(0, 8, 8), e); c.check(g.size() == 1 && g[0] == mc::cat(str(value{a < 0 ? 0 : a > 4 ? 40 : 10 * a}), "@0"), "mapping int", mc::cat(id, g.empty() ? "" : g[0]));
    nodes::mapping nb; nb.set_behavior(behavior{pb}); nb.root_inputs()[0]->target<value_port>()->write_value(a % 2 != 0, 0);
    g = run(nb, tok(0, 8, 8), e); c.check(g.size() == 1 && g[0] == mc::cat(str(value{a % 2 == 0}), "@0"), "mapping bool", mc::cat(id, g.empty() ? "" : g[0]));
  }
}
// splines: de Boor recursion on the clamped uniform knots
static std::vector<L> deboor(const std::vector<std::vector<L>>& P, L u)
{
  const int n = P.size(), p = 3; std::vector<L> kn; for (int i = 0; i < n + p + 1; i++) kn.push_back(i <= p ? 0 : i >= n ? 1 : L(i - p) / (n - p));
  int k = p; while (k < n - 1 && u >= kn[k + 1]) k++;
  std::vector<std::vector<L>> d; for (int j = 0; j <= p; j++) d.push_back(P[j + k - p]);
  for (int r = 1; r <= p; r++) for (int j = p; j >= r; j--) { L a = (u - kn[j + k - p]) / (kn[j + 1 + k - r] - kn[j + k - p]); for (size_t q = 0; q < d[j].size(); q++) d[j][q] = (1 - a) * d[j - 1][q] + a * d[j][q]; }
  return d[p];
}
static void splines(mc::ctx& c)
{
  const int M = c.thorough() ? 7 : 6;
  c.in("splines", mc::cat("every spline of 4..", M, " control points over 3 positions (2D) and its 3D image, at 33 positions and beyond the end, replaced twice; fewer points"));
  execution_state e; e.bufferSize = 64; e.modelToSamplesRatio = 1; e.samplesToModelRatio = 1;
  static const double PX[] = {0, 1, -0.5}, PY[] = {0, 0.25, 1};
  for (int n = 4; n <= M; n++)
    mc::words(3, n, [&](const ints& w) {
      auto id = mc::cat("sp ", mc::join(w)); if (!c.want(id)) return;
      nodes::spline s2; nodes::spline3d s3; std::vector<std::vector<L>> P; spline_data d; spline3d_data d3;
      for (int o : w) { P.push_back({PX[o], PY[o], L(PX[o]) - PY[o]}); d.points.push_back({PX[o], PY[o]}); d3.points.push_back({PX[o], PY[o], PX[o] - PY[o]}); }
      spline_data o4; for (int i = 0; i < 4 + n % 3; i++) o4.points.push_back({double(i), 2.});
      s2.set_spline(o4); s2.set_spline(d); s3.set_spline(d3);
      c.state(id); c.trace();
      for (int x = -1; x <= 36; x++)
      {
        L u = x < 0 ? 0 : x > 32 ? 1 : L(x) / 32; auto r = deboor(P, u);
        for (int dim = 2; dim <= 3; dim++)
        {
          graph_node& nd = dim == 2 ? (graph_node&)s2 : (graph_node&)s3; auto& vp = *nd.root_outputs()[0]->target<value_port>(); vp.clear();
          auto t = tok(0, x, 32, 5); nd.run(t, {&e}); auto& dt = vp.get_data(); bool ok = dt.size() == 1 && dt[0].timestamp == 5;
          if (ok) { float g[3] = {}; if (dim == 2) { auto v = dt[0].value.target<vec2f>(); ok = v; if (ok) { g[0] = (*v)[0]; g[1] = (*v)[1]; } } else { auto v = dt[0].value.target<vec3f>(); ok = v; if (ok) for (int q = 0; q < 3; q++) g[q] = (*v)[q]; } for (int q = 0; ok && q < dim; q++) ok = std::abs(g[q] - double(r[q])) < 1e-5; }
          c.check(ok, mc::cat("spline ", dim, x > 32 ? " past the end" : ""), mc::cat(id, " at ", x, "/32: ", dt.empty() ? "nothing" : str(dt[0].value), " expected ", double(r[0]), " ", double(r[1])));
          c.step();
        }
        c.outcome(mc::cat(double(r[0])));
      }
    });
  for (int n = 0; n < 4; n++)
  {
    auto id = mc::cat("few ", n); if (!c.want(id)) continue; c.state(id); c.trace();
    // not enough points for a curve: nothing is sent, and a later curve is played
    nodes::spline s2; spline_data d, d4; for (int i = 0; i < n; i++) d.points.push_back({1. * i, 1}); for (int i = 0; i < 4; i++) d4.points.push_back({i / 3., 1});
    for (int k = 0; k < 2; k++)
    {
      s2.set_spline(d); auto g = run(s2, tok(0, 4, 8), e); c.check(g.empty(), "few points", mc::cat(id, ": ", g.empty() ? "" : g[0]));
      s2.set_spline(d4); auto& vp = *s2.root_outputs()[0]->target<value_port>(); vp.clear(); ((graph_node&)s2).run(tok(0, 4, 8), {&e}); c.check(vp.get_data().size() == 1 && std::abs(convert<vec2f>(vp.get_data()[0].value)[0] - 0.5) < 1e-6, "then enough", id); c.step();
    }
  }
}
static void gradients(mc::ctx& c)
{
  c.in("gradients", "every gradient of 0-3 stops over 3 colours and 3 positions, tweened or not, at 9 positions");
  execution_state e; e.bufferSize = 64; e.modelToSamplesRatio = 1; e.samplesToModelRatio = 1;
  net::generic_device dev{std::make_unique<proto>(), "d"}; auto p = net::create_node(dev, "/c").create_parameter(val_type::VEC4F);
  static const vec4f COL[] = {{1, 1, 0, 0}, {1, 0, 0.5, 0.25}, {1, 0.5, 0.5, 1}}; // argb
  static const double POS[] = {0, 0.5, 1};
  auto lab = [](vec4f v) { return hunter_lab{argb{v}}; };
  auto close = [](vec4f a, vec4f b) { for (int i = 0; i < 4; i++) if (std::abs(a[i] - b[i]) > 2e-3) return false; return true; };
  auto clampc = [](vec4f v) { for (auto& x : v) x = std::min(1.f, std::max(0.f, x)); return v; };
  mc::words(4, 3, [&](const ints& w) {
    for (int tw = 0; tw < 3; tw++)
    {
      auto id = mc::cat("gr ", mc::join(w), " ", tw); if (!c.want(id)) continue;
      nodes::gradient n; nodes::gradient::grad_type g; std::vector<std::pair<double, vec4f>> st;
      for (int i = 0; i < 3; i++) if (w[i]) { g.insert({POS[i], lab(COL[w[i] - 1])}); st.push_back({POS[i], COL[w[i] - 1]}); }
      n.set_gradient(g); n.mustTween = tw > 0; vec4f from = {1, 0.25, 1, 0.25}; p->set_value(from); if (tw == 2) n.root_outputs()[0]->address = p;
      c.state(id); c.trace();
      for (int x = 0; x <= 8; x++)
      {
        double pos = x / 8.; vec4f want{0, 0, 0, 0};
        auto mix = [&](double a, vec4f ca, double b, vec4f cb) { auto l = lab(ca).dataspace_value, m = lab(cb).dataspace_value; double k = (pos - a) / (b - a); hunter_lab h; h.dataspace_value = make_vec(float(l[0] + k * (m[0] - l[0])), float(l[1] + k * (m[1] - l[1])), float(l[2] + k * (m[2] - l[2]))); return clampc(argb{h}.dataspace_value); };
        if (!st.empty())
        {
          if (pos <= st[0].first) want = st[0].second; else if (pos >= st.back().first) want = st.back().second;
          else for (size_t i = 0; i + 1 < st.size(); i++) if (pos >= st[i].first && pos <= st[i + 1].first) { want = mix(st[i].first, st[i].second, st[i + 1].first, st[i + 1].second); break; }
        }
        if (st.size() == 1 && tw) continue; // tweening is only exercised with several stops
        auto& vp = *n.root_outputs()[0]->target<value_port>(); vp.clear(); ((graph_node&)n).run(tok(0, x, 8, 1), {&e});
        bool ok = vp.get_data().size() == 1 && vp.get_data()[0].timestamp == 1; vec4f got{}; if (ok) { got = convert<vec4f>(vp.get_data()[0].value); ok = close(got, want); }
        c.check(ok, mc::cat("gradient ", st.size()), mc::cat(id, " at ", pos, ": ", str(value{got}), " expected ", str(value{want}))); c.step(); c.outcome(str(value{want}));
      }
    }
  });
}
int main(int argc, char** argv) { return mc::ctx::get().run(argc, argv, [](mc::ctx& c) {
  easings(c);
  c.in("curves", "every curve over 3-4 abscissas x {absent, 2 ordinates x 5 segment kinds} x 2 insertion orders, 5 type pairs, at 43 abscissas; copies");
  curve_type_part<double, float>(c, "df", 1); curve_type_part<double, int>(c, "di", 1); curve_type_part<double, bool>(c, "db", 1); curve_type_part<float, float>(c, "ff", 4); curve_type_part<int, int>(c, "ii", 32); curve_type_part<int, float>(c, "if", 64);
  behaviours(c); mappings(c); splines(c); gradients(c); }); }
