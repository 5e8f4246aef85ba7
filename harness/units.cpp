// C06: units: conversion, texts, values with units, merging; against formulas written from the meaning of each unit.
#include "valgen.hpp"
#include <ossia/network/dataspace/dataspace.hpp>
#include <ossia/network/dataspace/dataspace_visitors.hpp>
#include <ossia/network/dataspace/dataspace_parse.hpp>
#include <ossia/network/dataspace/detail/dataspace_merge.hpp>
#include <ossia/network/dataspace/detail/dataspace_parse.hpp>
#include <ossia/network/dataspace/value_with_unit.hpp>
#include <ossia/network/dataspace/detail/list_units.hpp>
#include <bitset>
using namespace vg; using namespace ossia;
using D = std::vector<double>;
struct U { std::string space, name; unit_t u; int ds, i; std::vector<std::string> texts; int dim; std::function<value_with_unit(const D&)> strong; };
static std::vector<U> units()
{
  std::vector<U> r; int ds = 0;
  for_each_tagged(dataspace_u_list{}, [&](auto t) {
    using space = typename decltype(t)::type; int k = 0;
    for_each_tagged(space{}, [&](auto u) {
      using unit = typename decltype(u)::type; U x; x.space = std::string(dataspace_traits<space>::text()[0]); x.u = unit{}; x.ds = ds; x.i = k++;
      for (auto s : unit_traits<unit>::text()) x.texts.push_back(std::string(s)); x.name = x.texts[0];
      using vt = typename unit::value_type;
      if constexpr (std::is_same_v<vt, float>) { x.dim = 1; x.strong = [](const D& d) { return value_with_unit{strong_value<unit>{float(d[0])}}; }; }
      else { x.dim = std::tuple_size_v<vt>; x.strong = [](const D& d) { vt v{}; for (size_t i = 0; i < v.size(); i++) v[i] = float(d[i]); return value_with_unit{strong_value<unit>{v}}; }; }
      r.push_back(x); }); ds++; });
  return r;
}
static value val(const D& d) { switch (d.size()) { case 1: return float(d[0]); case 2: return vec2f{float(d[0]), float(d[1])}; case 3: return vec3f{float(d[0]), float(d[1]), float(d[2])}; default: return vec4f{float(d[0]), float(d[1]), float(d[2]), float(d[3])}; } }
static D nums(const value& v)
{
  switch (v.get_type()) { case val_type::FLOAT: return {v.get<float>()}; case val_type::VEC2F: { auto a = v.get<vec2f>(); return D(a.begin(), a.end()); } case val_type::VEC3F: { auto a = v.get<vec3f>(); return D(a.begin(), a.end()); } case val_type::VEC4F: { auto a = v.get<vec4f>(); return D(a.begin(), a.end()); } default: return {}; }
}
// ---- meaning of the units ----
static const double PI = 3.14159265358979323846;
static D qmul(const D& a, const D& b) { return {a[3] * b[0] + a[0] * b[3] + a[1] * b[2] - a[2] * b[1], a[3] * b[1] - a[0] * b[2] + a[1] * b[3] + a[2] * b[0], a[3] * b[2] + a[0] * b[1] - a[1] * b[0] + a[2] * b[3], a[3] * b[3] - a[0] * b[0] - a[1] * b[1] - a[2] * b[2]}; }
static const double midi_pow = std::log(1.125) / std::log(1.27);
static double ratio(const std::string& n) { static const std::map<std::string, double> m{{"m", 1}, {"km", 1e3}, {"dm", .1}, {"cm", .01}, {"mm", 1e-3}, {"um", 1e-6}, {"nm", 1e-9}, {"pm", 1e-12}, {"inches", .0254}, {"feet", .3048}, {"miles", 1609.344}, {"m/s", 1}, {"mph", 1609.344 / 3600}, {"km/h", 1 / 3.6}, {"kn", 1852. / 3600}, {"ft/h", .3048 / 3600}, {"ft/s", .3048}, {"s", 1}, {"second", 1}, {"ms", 1e-3}, {"sample", 1 / 44100.}, {"radian", 1}, {"degree", PI / 180}}; auto it = m.find(n); return it == m.end() ? 0 : it->second; }
static D hsv2rgb(double h, double s, double v) { h = std::fmod(h * 6, 6); auto f = [&](double n) { double k = std::fmod(n + h, 6); return v - v * s * std::max(0., std::min({k, 4 - k, 1.})); }; return {f(5), f(3), f(1)}; }
static D rgb2hsv(double r, double g, double b) { double M = std::max({r, g, b}), m = std::min({r, g, b}), c = M - m, h = c == 0 ? 0 : M == r ? std::fmod((g - b) / c + 6, 6) : M == g ? (b - r) / c + 2 : (r - g) / c + 4; return {h / 6, M == 0 ? 0 : c / M, M}; }
static D toN(const U& u, const D& v)
{
  auto& n = u.name; double x = v[0];
  if (double r = ratio(n)) return {x * r};
  if (n == "argb") return v; if (n == "rgba8") return {v[3] / 255, v[0] / 255, v[1] / 255, v[2] / 255}; if (n == "rgba") return {v[3], v[0], v[1], v[2]}; if (n == "rgb") return {1, v[0], v[1], v[2]}; if (n == "bgr") return {1, v[2], v[1], v[0]};
  if (n == "argb8") return {v[0] / 255, v[1] / 255, v[2] / 255, v[3] / 255}; if (n == "cmy8") return {1, 1 - v[0] / 255, 1 - v[1] / 255, 1 - v[2] / 255};
  if (n == "hsv") { auto c = hsv2rgb(v[0], v[1], v[2]); return {1, c[0], c[1], c[2]}; }
  if (n == "cie_xyz") { double X = v[0] / 100, Y = v[1] / 100, Z = v[2] / 100; auto g = [](double c) { return c > 0.0031308 ? 1.055 * std::pow(c, 1 / 2.4) - 0.055 : 12.92 * c; }; return {1, g(3.2404542 * X - 1.5371385 * Y - 0.4985314 * Z), g(-0.969266 * X + 1.8760108 * Y + 0.041556 * Z), g(0.0556434 * X - 0.2040259 * Y + 1.0572252 * Z)}; }
  if (n == "hunter_lab") { double y = v[0] / 10 * (v[0] / 10); U z = u; z.name = "cie_xyz"; return toN(z, {(v[1] / 17.5 * v[0] / 10 + y) / 1.02, y, (y - v[2] / 7 * v[0] / 10) / 0.847}); }
  if (n == "linear") return v; if (n == "db") return {x <= -96 ? 0 : std::pow(10, x / 20)}; if (n == "db-raw") return {std::pow(10, x / 20)}; if (n == "midigain") { double d = 96 * (std::pow(x / 100, midi_pow) - 1); return {x <= 0 || d <= -96 ? 0 : std::pow(10, d / 20)}; }
  if (n == "bark") return {1 / (600 * std::sinh(x / 6))}; if (n == "bpm") return {60 / x}; if (n == "cents") return {1 / (440 * std::pow(2, (x - 6900) / 1200))}; if (n == "Hz") return {1 / x}; if (n == "mel") return {1 / (700 * (std::pow(10, x / 2595) - 1))}; if (n == "midinote") return {1 / (440 * std::pow(2, (x - 69) / 12))}; if (n == "speed") return {std::pow(2, 69. / 12) / (440 * x)};
  if (n == "quaternion") return v; if (n == "euler") { double a = v[0] * PI / 180 / 2, b = v[1] * PI / 180 / 2, c = v[2] * PI / 180 / 2; return qmul(qmul({0, 0, -std::sin(a), std::cos(a)}, {std::sin(b), 0, 0, std::cos(b)}), {0, std::sin(c), 0, std::cos(c)}); }
  if (n == "axis") { double l = std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]), a = v[3] * PI / 180 / 2, s = l > 0 ? std::sin(a) / l : 0; return {v[0] * s, v[1] * s, v[2] * s, std::cos(a)}; }
  auto deg = [](double d) { return d * PI / 180; };
  if (n == "cart3D") return v; if (n == "cart2D") return {v[0], v[1], 0}; if (n == "openGL") return {v[0], -v[2], v[1]};
  if (n == "polar") return {v[1] * std::sin(deg(v[0])), v[1] * std::cos(deg(v[0])), 0}; // azimuth from the front, distance
  if (n == "spherical") return {v[2] * std::cos(deg(v[1])) * std::sin(deg(v[0])), v[2] * std::cos(deg(v[1])) * std::cos(deg(v[0])), v[2] * std::sin(deg(v[1]))};
  if (n == "cylindrical") return {v[0] * std::sin(deg(v[1])), v[0] * std::cos(deg(v[1])), v[2]};
  return {};
}
static D fromN(const U& u, const D& v)
{
  auto& n = u.name; double x = v[0];
  if (double r = ratio(n)) return {x / r};
  if (n == "argb") return v; if (n == "rgba8") return {v[1] * 255, v[2] * 255, v[3] * 255, v[0] * 255}; if (n == "rgba") return {v[1], v[2], v[3], v[0]}; if (n == "rgb") return {v[1], v[2], v[3]}; if (n == "bgr") return {v[3], v[2], v[1]};
  if (n == "argb8") return {v[0] * 255, v[1] * 255, v[2] * 255, v[3] * 255}; if (n == "cmy8") return {255 - 255 * v[1], 255 - 255 * v[2], 255 - 255 * v[3]}; if (n == "hsv") return rgb2hsv(v[1], v[2], v[3]);
  if (n == "cie_xyz") { auto g = [](double c) { return 100 * (c > 0.04045 ? std::pow((c + 0.055) / 1.055, 2.4) : c / 12.92); }; double r = g(v[1]), q = g(v[2]), b = g(v[3]); return {.4124564 * r + .3575761 * q + .1804375 * b, .2126729 * r + .7151522 * q + .072175 * b, .0193339 * r + .119192 * q + .9503041 * b}; }
  if (n == "hunter_lab") { U z = u; z.name = "cie_xyz"; auto w = fromN(z, v); double s = std::sqrt(w[1]); return {10 * s, w[1] ? 17.5 * (1.02 * w[0] - w[1]) / s : 0, w[1] ? 7 * (w[1] - .847 * w[2]) / s : 0}; }
  if (n == "linear") return v; if (n == "db") return {x <= 0 ? -96 : std::max(-96., 20 * std::log10(x))}; if (n == "db-raw") return {20 * std::log10(x)}; if (n == "midigain") { double d = x <= 0 ? -96 : 20 * std::log10(x); return {d <= -96 ? 0 : 100 * std::pow(1 + d / 96, 1 / midi_pow)}; }
  if (n == "bark") return {6 * std::asinh(1 / (600 * x))}; if (n == "bpm") return {60 / x}; if (n == "cents") return {6900 + 1200 * std::log2(1 / (440 * x))}; if (n == "Hz") return {1 / x}; if (n == "mel") return {2595 * std::log10(1 + 1 / (700 * x))}; if (n == "midinote") return {69 + 12 * std::log2(1 / (440 * x))}; if (n == "speed") return {std::pow(2, 69. / 12) / (440 * x)};
  if (n == "quaternion") return v;
  if (n == "axis") { double s = std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]); if (s < 1e-9) return {0, 0, 0, 0}; return {v[0] / s, v[1] / s, v[2] / s, 2 * std::atan2(s, v[3]) * 180 / PI}; }
  if (n == "euler") { auto [x, y, z, w] = std::array<double, 4>{v[0], v[1], v[2], v[3]}; return {180 / PI * std::atan2(-2 * (z * w - x * y), w * w - x * x + y * y - z * z), 180 / PI * std::asin(std::max(-1., std::min(1., 2 * (w * x + y * z)))), 180 / PI * std::atan2(2 * (w * y - x * z), w * w - x * x - y * y + z * z)}; }
  auto deg = [](double r) { return r * 180 / PI; };
  if (n == "cart3D") return v; if (n == "cart2D") return {v[0], v[1]}; if (n == "openGL") return {v[0], v[2], -v[1]};
  if (n == "polar") return {deg(std::atan2(v[0], v[1])), std::hypot(v[0], v[1])}; if (n == "spherical") return {deg(std::atan2(v[0], v[1])), deg(std::atan2(v[2], std::hypot(v[0], v[1]))), std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2])}; if (n == "cylindrical") return {std::hypot(v[0], v[1]), deg(std::atan2(v[0], v[1])), v[2]};
  return {};
}
static std::vector<D> grid(const std::string& s, bool big)
{
  std::vector<D> r; auto prod = [&](const std::vector<D>& ax) { std::vector<D> l{{}}; for (auto& a : ax) { std::vector<D> n; for (auto& p : l) for (double x : a) { auto q = p; q.push_back(x); n.push_back(q); } l = n; } return l; };
  if (s == "angle") for (int i = -8; i <= 8; i++) r.push_back({i * PI / 4 + .01});
  else if (s == "color") { D a = big ? D{0, .02, .1, .25, .5, .6, .75, .9, 1} : D{0, .02, .25, .5, .75, 1}; r = prod({{1, .5}, a, a, a}); }
  else if (s == "distance" || s == "speed") r = prod({{-1000, -1, -.25, 0, .001, .5, 1, 3, 100, 12345}});
  else if (s == "gain") r = prod({{0, 1e-6, .001, .05, .25, .5, .9, 1, 1.5, 2, 3.5}});
  else if (s == "time") r = prod({{.0001, .0005, .001, .01, .1, .25, .5, 1, 2, 10, 60}});
  else if (s == "position") { D a = big ? D{-3, -1, -.5, 0, .25, 1, 2} : D{-3, -1, 0, .5, 2}; r = prod({a, a, a}); }
  else if (s == "orientation") { U e; e.name = "euler"; int st = big ? 20 : 30; for (int y = -180; y <= 180; y += st) for (int p = -80; p <= 80; p += 20) for (int q = -180; q <= 180; q += st) r.push_back(toN(e, {double(y), double(p), double(q)})); }
  return r;
}
static bool close(double a, double b, double tol) { if (std::isinf(b)) return std::isinf(a) && (a < 0) == (b < 0); return std::abs(a - b) <= tol * std::max(1., std::abs(b)); }
static std::string show(const D& d) { std::string s; for (double x : d) { char b[32]; std::snprintf(b, 32, "%.7g ", x); s += b; } return s; }
static bool angular(const U& u, int i) { return u.space == "angle" ? false : (u.name == "polar" && i == 0) || (u.name == "spherical" && i == 0) || (u.name == "cylindrical" && i == 1) || (u.name == "euler" && i != 1); }
static bool samed(const U& u, const D& got, const D& want, const D& neutral)
{
  if (got.size() != want.size()) return false; double tol = u.space == "color" ? 2e-3 : u.space == "orientation" ? 1e-3 : 1e-4;
  auto pos = [&](const D& a, const D& b, double tol) { bool ok = true; for (size_t i = 0; i < a.size(); i++) ok = ok && close(a[i], b[i], tol); return ok; };
  if (u.space == "orientation")
  { // as rotations, q and -q are the same
    auto a = toN(u, got), b = toN(u, want), c = b; for (auto& x : c) x = -x; if (!pos(a, b, tol) && !pos(a, c, tol)) return false;
    if (u.name == "euler") return std::abs(got[1]) <= 90.1; if (u.name == "axis") return close(std::hypot(got[0], got[1], got[2]), std::abs(neutral[3]) > .99999 ? std::hypot(got[0], got[1], got[2]) : 1, tol); return true;
  }
  if (u.space == "position") { double h = std::hypot(neutral[0], neutral[1]); for (size_t i = 0; i < got.size(); i++) { if (angular(u, i)) { if (h < 1e-6) continue; double d = std::fmod(got[i] - want[i] + 720, 360); if (std::min(d, 360 - d) > .05 || got[i] < -180.01 || got[i] > 180.01) return false; } else if (!close(got[i], want[i], tol)) return false; } return true; }
  if (u.name == "hsv") { double d = std::abs(got[0] - want[0]); if (want[1] > .01 && std::min(d, 1 - d) > tol) return false; return close(got[1], want[1], want[2] < .02 ? .1 : 5e-3) && close(got[2], want[2], tol); }
  double scale = u.name == "cie_xyz" || u.name == "hunter_lab" ? 10 : 1;
  for (size_t i = 0; i < got.size(); i++) if (!(close(got[i], want[i], tol * scale) || std::abs(got[i] - want[i]) <= (u.space == "color" && want.size() && u.name.back() == '8' ? .5 : 0))) return false;
  if (u.space == "distance" || u.space == "speed" || u.space == "time" || u.space == "angle") for (size_t i = 0; i < got.size(); i++) if (std::abs(got[i] - want[i]) > 2e-4 * std::abs(want[i]) + (u.name == "midinote" || u.name == "cents" || u.name == "mel" ? 2e-3 : 0)) return false; // relative for small values too
  return true;
}
static void conversion(mc::ctx& c, const std::vector<U>& us)
{
  c.in("conversion", mc::cat("every ordered pair of the ", us.size(), " units x a grid of values, through every entry point; incompatible pairs give nothing"));
  for (auto& a : us) for (auto& b : us)
  {
    bool cmp = a.ds == b.ds; c.check(check_units_convertible(a.u, b.u) == cmp, mc::cat("convertible ", a.name, " ", b.name), "check_units_convertible");
    for (auto& n0 : grid(a.space, c.thorough()))
    {
      auto v = fromN(a, n0); if (v.empty()) { c.fail("unit " + a.name, "unknown unit, extend the oracle"); break; } bool fin = true; for (auto& x : v) { x = float(x); fin = fin && std::isfinite(x); } if (!fin || (a.name == "mel" && v[0] < 2)) continue; // mel loses its precision below
      std::string id = mc::cat(a.space, ".", a.name, " ", show(v), "-> ", b.space, ".", b.name); if (!c.want(id)) continue; c.trace(); c.state(mc::cat(a.space, a.name, b.space, b.name)); c.step();
      auto r = convert(a.strong(v), b.u); auto r2 = convert(val(v), a.u, b.u);
      if (!cmp) { c.check(!r && !r2.valid(), id, mc::cat("incompatible units give ", str(r2))); break; }
      auto n = toN(a, v), w = fromN(b, n), g = nums(to_value(r));
      c.check(to_unit(r) == b.u, id, "result has another unit"); c.check(str(r2) == str(to_value(r)), id, "the two conversions differ");
      if (a.name == b.name) { bool same = true; for (size_t i = 0; i < g.size(); i++) same = same && std::abs(g[i] - v[i]) <= 1e-4 * std::max(1., std::abs(v[i])); if (a.space == "angle" || a.space == "gain" || a.space == "position" || a.space == "orientation") { c.check(samed(b, g, v, n), id, mc::cat("itself gives ", show(g))); continue; } c.check(g.size() == v.size() && (same || samed(b, g, v, n)), id, mc::cat("itself gives ", show(g))); continue; }
      if (!c.check(samed(b, g, w, n), id, mc::cat("gives ", show(g), "expected ", show(w)))) continue;
      // through any third unit and back
      auto back = nums(convert(to_value(r), b.u, a.u)); auto n2 = toN(b, g); bool lossy = false; for (size_t i = 0; i < n.size(); i++) lossy = lossy || !close(n[i], n2[i], 1e-3); 
      if (!lossy && !(b.name == "mel" && w[0] < 2) && !(a.space == "color") && !(a.name.compare(0, 2, "db") == 0 && v[0] <= -96)) c.check(samed(a, back, v, n), "back " + id, mc::cat("comes back as ", show(back)));
    }
  }
}
static void texts(mc::ctx& c, const std::vector<U>& us)
{
  c.in("texts", "every unit: every text, dataspace text, pretty text, accessor, index pair, default type; every foreign text");
  std::set<std::string> spaces; for (auto& u : us) spaces.insert(u.space);
  const std::map<std::string, std::string> ACC{{"argb", "argb"}, {"rgba", "rgba"}, {"rgba8", "rgba"}, {"argb8", "argb"}, {"rgb", "rgb"}, {"bgr", "bgr"}, {"hsv", "hsv"}, {"cmy8", "cmy"}, {"cie_xyz", "xyz"}, {"cart3D", "xyz"}, {"cart2D", "xy"}, {"spherical", "rtp"}, {"polar", "rp"}, {"openGL", "xyz"}, {"cylindrical", "rpz"}, {"quaternion", "abcd"}, {"euler", "ypr"}, {"axis", "xyzw"}, {"hunter_lab", "lab"}};
  for (auto& u : us)
  {
    std::string id = u.space + "." + u.name; if (!c.want(id)) continue; c.trace(); c.state(id); auto space = parse_dataspace(u.space);
    c.check(std::string(get_dataspace_text(u.u)) == u.space && std::string(get_unit_text(u.u)) == u.name, id, "text");
    c.check(space.which() == u.u.which(), id, "parse_dataspace gives another dataspace");
    for (auto& t : u.texts) { c.step(); c.check(parse_unit(t, space) == u.u && parse_unit(t, u.u) == u.u, id + " " + t, "parse_unit");
      auto* q = get_unit_parser().find(u.space + "." + t); c.check(q && q->unit == u.u && q->accessors.empty(), id + " q " + t, "qualifier");
      auto acc = u.dim > 1 ? std::string(get_unit_accessors(u.u)) : ""; for (size_t i = 0; i < acc.size(); i++) { auto* q = get_unit_parser().find(u.space + "." + t + "." + acc[i]); c.check(q && q->unit == u.u && q->accessors == destination_index{(char)acc.find(acc[i])}, mc::cat(id, " q ", t, ".", acc[i]), "accessor qualifier"); } }
    for (auto& o : us) for (auto& t : o.texts) { bool own = false; for (auto& x : us) if (x.ds == u.ds) for (auto& y : x.texts) if (y == t) own = true; if (!own) c.check(!parse_unit(t, space), mc::cat(id, " foreign ", t), "a text of another dataspace is accepted"); }
    for (auto t : {"", "nope", "RGB", " m"}) c.check(!parse_unit(t, space), id + " ? " + t, "unknown text accepted");
    auto p = std::string(get_pretty_unit_text(u.u)); std::string up = p; for (auto& ch : up) ch = toupper(ch); c.check(parse_pretty_unit(p) == u.u && parse_pretty_unit(up) == u.u, id + " pretty", mc::cat("pretty text ", p, " reads back as ", get_pretty_unit_text(parse_pretty_unit(p))));
    c.check(make_unit(u.ds, u.i) == u.u && u.u.which() == u.ds, id + " index", "make_unit");
    auto acc = std::string(get_unit_accessors(u.u)); auto it = ACC.find(u.name); c.check(u.dim == 1 ? acc.empty() : acc.size() == size_t(u.dim) && (it == ACC.end() || acc == it->second), id + " acc", acc);
    for (int i = 0; i < 6; i++) c.check(get_unit_accessor(u.u, i) == (i < (int)acc.size() ? acc[i] : 0), mc::cat(id, " acc ", i), "get_unit_accessor");
    c.check(int(matching_type(u.u)) == int(u.dim == 1 ? val_type::FLOAT : u.dim == 2 ? val_type::VEC2F : u.dim == 3 ? val_type::VEC3F : val_type::VEC4F), id + " type", "matching_type");
    for (auto& o : us) c.check((o.u == u.u) == (o.space == u.space && o.name == u.name) && (o.u != u.u) != (o.u == u.u), mc::cat(id, " eq ", o.name), "unit equality");
  }
  for (auto t : {"", "nope", "Color", "color.rgb"}) { c.trace(); c.check(!parse_dataspace(t), mc::cat("space ", t), "unknown dataspace accepted"); }
  for (auto t : {"", "nope", "color.", "color.nope", ".rgb"}) { c.trace(); c.check(!parse_pretty_unit(t), mc::cat("pretty ", t), "unknown unit accepted"); }
  c.check(!make_unit(99, 0) && !make_unit(0, 1000), "make_unit", "index out of range"); c.check(std::string(get_pretty_unit_text({})) == "none" && get_unit_text({}).empty() && get_dataspace_text({}).empty() && !get_unit_accessor({}, 0) && matching_type(unit_t{}) == val_type::IMPULSE, "none", "empty unit");
}
static void components(mc::ctx& c, const std::vector<U>& us)
{
  c.in("components", "each position unit: the component called r is the distance, the angles do not change it");
  for (auto& u : us) if (u.space == "position") { auto acc = std::string(get_unit_accessors(u.u)); auto r = acc.find('r'); if (r == std::string::npos) continue; std::string id = "components " + u.name; if (!c.want(id)) continue; c.trace(); c.state(id); c.step();
    auto norm = [&](D d) { auto n = nums(convert(val(d), u.u, cartesian_3d_u{})); return u.name == "cylindrical" ? std::hypot(n[0], n[1]) : std::hypot(n[0], n[1], n[2]); };
    bool ok = true; for (double ang : {10., 35.}) for (double dist : {.5, 2., 7.}) { D d(u.dim, ang); d[r] = dist; ok = ok && close(norm(d), dist, 1e-4); }
    c.check(ok, id, "the component called r is not the distance"); }
}
static bool isnum(const value& v) { auto t = v.get_type(); return t == val_type::INT || t == val_type::FLOAT || t == val_type::BOOL || t == val_type::CHAR; }
static double num1(const value& v) { switch (v.get_type()) { case val_type::INT: return v.get<int>(); case val_type::FLOAT: return v.get<float>(); case val_type::BOOL: return v.get<bool>(); case val_type::CHAR: return v.get<char>(); default: return 0; } }
static D seq(const value& v) { if (v.get_type() == val_type::LIST) { D d; for (auto& x : v.get<list>()) d.push_back(isnum(x) ? num1(x) : x.get_type() == val_type::STRING ? convert<float>(x) : 0); return d; } return nums(v); }
static bool isseq(const value& v) { auto t = v.get_type(); return t == val_type::LIST || t == val_type::VEC2F || t == val_type::VEC3F || t == val_type::VEC4F; }
static void values(mc::ctx& c, const std::vector<U>& us)
{
  auto V = scalars(); add(V, vecs()); add(V, lists({value(1), value(2.5f), value(true)}, c.thorough() ? 5 : 4));
  c.in("values", mc::cat("make_value: every unit x ", V.size(), " values; merge at every index path of length 0-2 and every component mask"));
  std::vector<std::vector<char>> IDX{{}, {0}, {1}, {2}, {3}, {0, 0}};
  for (auto& u : us)
  {
    D cur(u.dim); for (int i = 0; i < u.dim; i++) cur[i] = float(i + .5); auto vu = u.strong(cur);
    c.check(to_unit(vu) == u.u && str(to_value(vu)) == str(val(cur)) && vu && vu == u.strong(cur), "vu " + u.name, "value with unit");
    for (auto& v : V)
    {
      std::string id = u.space + "." + u.name + " " + str(v); if (!c.want(id)) continue; c.trace(); c.state(id); c.step();
      auto m = make_value(v, u.u); bool ok = u.dim == 1 ? isnum(v) : isseq(v);
      if (!ok) c.check(!m, id, mc::cat("a value that does not fit gives ", str(to_value(m))));
      else { D e = u.dim == 1 ? D{num1(v)} : seq(v); e.resize(u.dim); for (auto& x : e) x = float(x); c.check(to_unit(m) == u.u && str(to_value(m)) == str(val(e)), id, mc::cat("gives ", str(to_value(m)), " expected ", str(val(e)))); }
      if (v.get_type() == val_type::STRING || v.get_type() == val_type::IMPULSE) ok = false;
      for (auto& ix : IDX)
      {
        destination_index di(ix.begin(), ix.end()); bool over = ix.size() == 1 && ix[0] >= u.dim && u.dim > 1; if (over && isnum(v)) continue; // writing past the end of a scalar index is a caller error
        auto r = merge(vu, v, di); D e = cur;
        if (ix.empty()) { if (u.dim == 1) { if (isnum(v)) e[0] = float(num1(v)); } else if (isseq(v)) { auto s = seq(v); for (size_t i = 0; i < e.size() && i < s.size(); i++) e[i] = float(s[i]); } }
        else if (ix.size() == 1 && u.dim > 1) { if (isnum(v)) e[ix[0]] = float(num1(v)); else if (isseq(v)) { auto s = seq(v); if (ix[0] < (int)s.size() && ix[0] < u.dim) e[ix[0]] = float(s[ix[0]]); } }
        c.check(to_unit(r) == u.u && str(to_value(r)) == str(val(e)), mc::cat("merge ", id, " @", std::string(ix.size(), '#'), ix.empty() ? 0 : int(ix[0])), mc::cat("gives ", str(to_value(r)), " expected ", str(val(e))));
      }
    }
    auto masks = [&](auto tag) {
      constexpr int N = decltype(tag)::value; for (int k = 0; k < (1 << N); k++) { std::array<float, N> in; for (int i = 0; i < N; i++) in[i] = 10.f + i; std::string id = mc::cat("mask ", u.name, " ", N, " ", k); if (!c.want(id)) continue; c.trace();
        auto r = merge(vu, in, std::bitset<N>(k)); D e = cur; bool all = k == (1 << N) - 1;
        if (u.dim == 1 || (!all && k && u.dim != N)) { if (k && !all) { c.check(!r, id, "a partial merge into another size gives a value"); continue; } }
        else for (int i = 0; i < N && i < u.dim; i++) if (k >> i & 1) e[i] = in[i];
        c.check(to_unit(r) == u.u && str(to_value(r)) == str(val(e)), id, mc::cat("gives ", str(to_value(r)), " expected ", str(val(e)))); } };
    masks(std::integral_constant<int, 2>{}); masks(std::integral_constant<int, 3>{}); masks(std::integral_constant<int, 4>{});
  }
}
static void body(mc::ctx& c) { auto us = units(); conversion(c, us); texts(c, us); components(c, us); values(c, us); }
MC_MAIN(body)
