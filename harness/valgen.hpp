#pragma once
// Canonical printing, structural equality and small exhaustive alphabets of ossia::value.
#include "mc.hpp"
#include <ossia/network/value/value.hpp>
#include <cmath>
namespace vg
{
using ossia::value;
using list = std::vector<value>;
//! exact, typed form, independent of any library code other than the accessors
inline std::string str(const value& v)
{
  using T = ossia::val_type;
  auto f = [](float x) { char b[40]; if (x != x) return std::string("nan"); std::snprintf(b, 40, "%.9g", double(x)); return std::string(b); };
  switch (v.get_type())
  {
    case T::NONE: return "none";
    case T::IMPULSE: return "imp";
    case T::INT: return "i" + std::to_string(v.get<int>());
    case T::FLOAT: return "f" + f(v.get<float>());
    case T::BOOL: return v.get<bool>() ? "bT" : "bF";
    case T::CHAR: return "c" + std::to_string(int(v.get<char>()));
    case T::STRING: return "'" + v.get<std::string>() + "'";
    case T::VEC2F: { auto& a = v.get<ossia::vec2f>(); return "v2(" + f(a[0]) + "," + f(a[1]) + ")"; }
    case T::VEC3F: { auto& a = v.get<ossia::vec3f>(); return "v3(" + f(a[0]) + "," + f(a[1]) + "," + f(a[2]) + ")"; }
    case T::VEC4F: { auto& a = v.get<ossia::vec4f>(); return "v4(" + f(a[0]) + "," + f(a[1]) + "," + f(a[2]) + "," + f(a[3]) + ")"; }
    case T::LIST: { std::string s = "["; bool c = false; for (auto& x : v.get<list>()) { if (c) s += ","; c = true; s += str(x); } return s + "]"; }
  }
  return "?" + std::to_string(int(v.get_type()));
}
inline std::string strl(const list& l) { return str(value(l)); }
inline bool same(const value& a, const value& b) { return str(a) == str(b); }
inline value fl(float f) { return value(f); }
inline std::vector<value> scalars()
{
  return {value(ossia::impulse{}), value(0), value(1), value(-2), value(0.f), value(1.f), value(-1.5f), value(false), value(true),
          value('\0'), value('a'), value(std::string("")), value(std::string("a")), value(std::string("b"))};
}
inline std::vector<value> vecs()
{
  return {value(ossia::vec2f{0, 0}), value(ossia::vec2f{1, -2}), value(ossia::vec2f{1, 0}), value(ossia::vec3f{0, 0, 0}), value(ossia::vec3f{1, 2, 3}),
          value(ossia::vec4f{0, 0, 0, 0}), value(ossia::vec4f{1, 2, 3, -4}), value(ossia::vec4f{1, 2, 3, 4})};
}
//! all lists of at most n elements of `base`
inline std::vector<value> lists(const std::vector<value>& base, int n)
{
  std::vector<value> r;
  for (int k = 0; k <= n; k++)
    mc::words(int(base.size()), k, [&](const std::vector<int>& w) { list l; for (int i : w) l.push_back(base[i]); r.push_back(value(l)); });
  return r;
}
inline void add(std::vector<value>& a, const std::vector<value>& b) { for (auto& x : b) a.push_back(x); }
inline std::vector<value> dedup(const std::vector<value>& a)
{
  std::vector<value> r; std::set<std::string> s;
  for (auto& x : a) if (s.insert(str(x)).second) r.push_back(x);
  return r;
}
//! the general alphabet used by most harnesses
inline std::vector<value> all(bool big)
{
  std::vector<value> r{value{}};
  add(r, scalars()); add(r, vecs());
  std::vector<value> b{value{}, value(0), value(1), value(1.f), value(std::string("a")), value(true), value(ossia::impulse{}), value(ossia::vec2f{1, 0})};
  add(r, lists(b, 2));
  std::vector<value> in = lists({value(0), value(1), value(2.f)}, big ? 2 : 1);
  in.push_back(value(1)); in.push_back(value{}); in.push_back(value(0.5f));
  add(r, lists(in, 2));
  if (big) add(r, lists({value(0), value(1.f), value(list{value(1)}), value{}}, 3));
  return dedup(r);
}
inline std::vector<ossia::val_type> types()
{
  using T = ossia::val_type;
  return {T::FLOAT, T::INT, T::VEC2F, T::VEC3F, T::VEC4F, T::IMPULSE, T::BOOL, T::STRING, T::LIST, T::CHAR};
}
inline bool is_seq(const value& v) { auto t = v.get_type(); using T = ossia::val_type; return t == T::LIST || t == T::VEC2F || t == T::VEC3F || t == T::VEC4F; }
inline bool is_vec(const value& v) { return is_seq(v) && v.get_type() != ossia::val_type::LIST; }
inline bool is_num(const value& v) { auto t = v.get_type(); using T = ossia::val_type; return t == T::INT || t == T::FLOAT || t == T::BOOL || t == T::CHAR; }
inline double num(const value& v)
{
  using T = ossia::val_type;
  switch (v.get_type()) { case T::INT: return v.get<int>(); case T::FLOAT: return v.get<float>(); case T::BOOL: return v.get<bool>(); case T::CHAR: return v.get<char>(); default: return 0; }
}
inline list elems(const value& v)
{
  using T = ossia::val_type; list l;
  switch (v.get_type())
  {
    case T::LIST: return v.get<list>();
    case T::VEC2F: for (float f : v.get<ossia::vec2f>()) l.push_back(value(f)); break;
    case T::VEC3F: for (float f : v.get<ossia::vec3f>()) l.push_back(value(f)); break;
    case T::VEC4F: for (float f : v.get<ossia::vec4f>()) l.push_back(value(f)); break;
    default: break;
  }
  return l;
}
inline value make_vec(const std::vector<float>& f)
{
  if (f.size() == 2) return value(ossia::vec2f{f[0], f[1]});
  if (f.size() == 3) return value(ossia::vec3f{f[0], f[1], f[2]});
  return value(ossia::vec4f{f[0], f[1], f[2], f[3]});
}
inline std::vector<float> floats(const value& v) { std::vector<float> r; for (auto& e : elems(v)) r.push_back(float(num(e))); return r; }
}
