// C03: value conversions and textual form against an independent model, over every
// (value, target type, current value) of a bounded alphabet.
#include "valgen.hpp"
#include <ossia/network/value/value_conversion.hpp>
#include <ossia/network/value/value_traits.hpp>
#include <ossia/network/value/detail/value_conversion_impl.hpp>
using namespace vg;
using T = ossia::val_type;
static std::string fstr(float f) { return fmt::format("{}", f); } // checked separately to parse back exactly
static std::string text(const value& v)
{
  switch (v.get_type())
  {
    case T::NONE: return "";
    case T::IMPULSE: return "impulse";
    case T::INT: return std::to_string(v.get<int>());
    case T::FLOAT: return fstr(v.get<float>());
    case T::BOOL: return v.get<bool>() ? "true" : "false";
    case T::CHAR: return std::string(1, v.get<char>());
    case T::STRING: return v.get<std::string>();
    default: { std::string s = "["; bool c = false; for (auto& e : elems(v)) { if (c) s += ", "; c = true; s += text(e); } return s + "]"; }
  }
}
static double number(const value& v, T t)
{
  switch (v.get_type())
  {
    case T::INT: case T::FLOAT: case T::BOOL: case T::CHAR: return num(v);
    case T::VEC2F: case T::VEC3F: case T::VEC4F: return floats(v)[0];
    case T::LIST: { auto l = elems(v); return l.empty() ? 0 : number(l[0], t); }
    case T::STRING:
    {
      auto s = v.get<std::string>();
      if (t == T::CHAR) return s.size() == 1 ? s[0] : 0;
      if (t == T::BOOL) return s == "1";
      if (s.empty() || std::isspace((unsigned char)s[0])) return 0;
      char* e{};
      if (t == T::INT) return double(std::strtol(s.c_str(), &e, 10));
      return std::strtod(s.c_str(), &e);
    }
    default: return 0;
  }
}
static value model(const value& v, T t, const value* cur = nullptr)
{
  switch (t)
  {
    case T::IMPULSE: return value(ossia::impulse{});
    case T::INT: return value(int(number(v, t)));
    case T::FLOAT: return value(float(number(v, t)));
    case T::BOOL: return value(number(v, t) != 0);
    case T::CHAR: return value(char(int(number(v, t))));
    case T::STRING: return value(text(v));
    case T::LIST: return v.valid() ? (is_seq(v) ? value(elems(v)) : value(list{v})) : value(list{});
    case T::VEC2F: case T::VEC3F: case T::VEC4F:
    {
      int n = t == T::VEC2F ? 2 : t == T::VEC3F ? 3 : 4;
      std::vector<float> r(n, 0.f);
      if (is_num(v)) r.assign(n, float(num(v)));
      else if (is_vec(v)) { if (cur) r = floats(*cur); auto f = floats(v); for (int i = 0; i < n && i < (int)f.size(); i++) r[i] = f[i]; }
      else if (v.get_type() == T::LIST) { auto l = elems(v); for (int i = 0; i < n && i < (int)l.size(); i++) r[i] = float(number(l[i], T::FLOAT)); }
      return make_vec(r);
    }
    default: return value{};
  }
}
template <typename X> static value as(const value& v) { return value(ossia::convert<X>(v)); }
static value conv(const value& v, T t)
{
  switch (t)
  {
    case T::IMPULSE: return as<ossia::impulse>(v); case T::INT: return as<int>(v); case T::FLOAT: return as<float>(v);
    case T::BOOL: return as<bool>(v); case T::CHAR: return as<char>(v); case T::STRING: return as<std::string>(v);
    case T::LIST: return as<list>(v); case T::VEC2F: return as<ossia::vec2f>(v); case T::VEC3F: return as<ossia::vec3f>(v); case T::VEC4F: return as<ossia::vec4f>(v);
    default: return {};
  }
}
static std::string pretty(const value& v)
{
  switch (v.get_type())
  {
    case T::NONE: return "invalid";
    case T::IMPULSE: return "impulse";
    case T::INT: return "int: " + std::to_string(v.get<int>());
    case T::FLOAT: return "float: " + fstr(v.get<float>());
    case T::BOOL: return v.get<bool>() ? "bool: true" : "bool: false";
    default: return "";
  }
}
static bool has_none(const value& v)
{
  if (!v.valid()) return true;
  if (v.get_type() == T::LIST) for (auto& e : v.get<list>()) if (has_none(e)) return true;
  return false;
}
static void body(mc::ctx& c)
{
  auto A = all(c.thorough());
  for (auto s : {"12", "-3", "1.5", "1e2", "12abc", " 7", "+4", "0", "1", "x", "-", "true", "100000"}) A.push_back(value(std::string(s)));
  add(A, {value(list{value(std::string("12")), value(std::string("1.5"))}), value(7), value(-7.75f), value(100.25f)});
  c.in("convert", mc::cat(A.size(), " values x 10 types: convert<T>, convert(v, type), idempotence, identity"));
  for (auto& v : A)
    for (T t : types())
    {
      if (!c.want(mc::cat("conv ", str(v), " -> ", int(t)))) continue;
      c.step(); c.trace(); c.state(str(v));
      auto r = conv(v, t), m = model(v, t);
      c.outcome(str(r));
      c.check(same(r, m), mc::cat("conv ", str(v), " ", int(t)), mc::cat("convert gives ", str(r), ", expected ", str(m)));
      c.check(same(ossia::convert(v, t), m), mc::cat("convt ", str(v), " ", int(t)), mc::cat("convert(v, type) gives ", str(ossia::convert(v, t)), ", expected ", str(m)));
      c.check(same(conv(r, t), r), mc::cat("idem ", str(v), " ", int(t)), "conversion is not idempotent: " + str(conv(r, t)));
    }
  for (auto& v : A)
  {
    if (!c.want("conv-none " + str(v))) continue;
    c.check(!ossia::convert(v, T::NONE).valid(), "none " + str(v), "conversion to NONE gives a value");
    bool n = ossia::is_numeric(v), a = ossia::is_array(v);
    c.check(n == is_num(v) && a == is_seq(v), "kind " + str(v), mc::cat("is_numeric=", n, " is_array=", a));
  }
  c.in("convert-to-current", "convert(v, current): every pair of the alphabet of scalars, vectors and small lists");
  auto S = scalars(); add(S, vecs()); S.push_back(value{}); add(S, lists({value(1), value(2.5f)}, 2));
  for (auto& v : A)
    for (auto& cur : S)
    {
      if (!c.want("cur " + str(v) + " | " + str(cur))) continue;
      c.step(); c.trace(); c.state(str(v) + str(cur));
      auto t = cur.get_type();
      auto m = t == T::NONE ? value{} : t == T::IMPULSE ? cur : model(v, t, &cur);
      auto r = ossia::convert(v, cur);
      c.check(same(r, m), mc::cat("cur ", str(v), " ", str(cur)), mc::cat("convert(v, cur) gives ", str(r), ", expected ", str(m)));
    }
  c.in("text", "parse_pretty_value(value_to_pretty_string(v)) == v for every value without unset parts; strings are all words up to length 3 (4) over {a, space, \\\", \\\\, ',', ], /}");
  auto B = A;
  for (int n = 0; n <= (c.thorough() ? 4 : 3); n++)
    mc::words(7, n, [&](const std::vector<int>& w) { std::string s; for (int i : w) s += "a \"\\,]/"[i]; B.push_back(value(s)); if (n <= 2) B.push_back(value(list{value(s), value(1), value(s)})); });
  for (int ch = 32; ch < 127; ch++) { B.push_back(value(char(ch))); B.push_back(value(list{value(char(ch)), value(char(ch))})); B.push_back(value(std::string(1, char(ch)))); }
  for (float f : {1e-7f, 1e20f, 3.14159274f, 0.1f, 16777217.f, -2.5e-30f, 123456.789f}) { B.push_back(value(f)); B.push_back(value(ossia::vec2f{f, -f})); B.push_back(value(list{value(f), value(ossia::vec3f{f, 1, f})})); }
  for (int i : {2147483647, -2147483647, 1000000}) B.push_back(value(i));
  B = dedup(B);
  for (auto& v : B)
  {
    if (has_none(v)) continue;
    if (!c.want("text " + str(v))) continue;
    c.step(); c.trace(); c.state(str(v));
    auto s = ossia::value_to_pretty_string(v);
    c.outcome(s);
    if (auto p = pretty(v); !p.empty()) c.check(p == s, "print " + str(v), "printed as " + s);
    auto r = ossia::parse_pretty_value(s);
    c.check(same(r, v), "text " + str(v), mc::cat("printed as ", s, ", parsed back as ", str(r)));
  }
}
MC_MAIN(body)
