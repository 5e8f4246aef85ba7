// Addresses as text: names, parts, scopes, brace expansion, pattern matching.
#include "mc.hpp"
#include <algorithm>
#include <set>
#include <ossia/network/base/name_validation.hpp>
#include <ossia/network/base/node_functions.hpp>
#include <ossia/network/base/osc_address.hpp>
#include <ossia/network/common/path.hpp>
#include <ossia/network/generic/generic_device.hpp>
#include <ossia/network/generic/generic_node.hpp>
#include <ossia/network/generic/generic_parameter.hpp>
using namespace ossia; using namespace ossia::net;
using strs = std::vector<std::string>;
static std::string J(const strs& v) { std::string s; for (auto& x : v) s += "<" + x + ">"; return s; }
// ---- pattern tokens: text, and what it stands for
struct tok { std::string text; strs alts; bool star = false, q = false, inst = false; };
static const std::vector<tok> TOK{
  {"a", {"a"}}, {"b", {"b"}}, {".", {"."}}, {"1", {"1"}}, {"?", {}, false, true}, {"*", {}, true}, {"[ab]", {"a", "b"}}, {"{a,b1}", {"a", "b1"}},
  {"{1..2}", {"1", "2"}}, {"!", {}, false, false, true}, {"[a-b1]", {"a", "b", "1"}}, {"{a.,1,b}", {"a.", "1", "b"}}, {"=", {"="}}, {"{2..0..2}", {"0", "2"}}};
static bool match(const std::vector<int>& p, size_t i, const std::string& s, size_t k)
{
  if (i == p.size()) return k == s.size();
  auto& t = TOK[p[i]];
  if (t.star) { for (size_t e = k; e <= s.size(); e++) if (match(p, i + 1, s, e)) return true; return false; }
  if (t.q) return match(p, i + 1, s, k) || (k < s.size() && match(p, i + 1, s, k + 1));
  if (t.inst) { if (match(p, i + 1, s, k)) return true; if (k < s.size() && s[k] == '.') for (size_t e = k + 1; e < s.size() && s[e] != '.'; e++) if (match(p, i + 1, s, e + 1)) return true; return false; }
  for (auto& a : t.alts) if (s.compare(k, a.size(), a) == 0 && match(p, i + 1, s, k + a.size())) return true;
  return false;
}
static std::string text(const std::vector<int>& p) { std::string s; for (int t : p) s += TOK[t].text; return s; }
static void patterns(mc::ctx& c)
{
  const int L = 3, LN = c.thorough() ? 3 : 2;
  c.in("patterns", mc::cat("every address part made of up to ", L, " of ", TOK.size(), " pattern elements, at one or two levels, from anywhere or below a device, against every name of up to ", LN, " characters of {a,b,.,1,=}"));
  generic_device dev{"dev"}; strs names; const char A[] = "ab.1=";
  for (int n = 1; n <= LN; n++) mc::words(5, n, [&](auto& w) { std::string s; for (int x : w) s += A[x]; names.push_back(s); });
  for (auto& s : names) dev.get_root_node().add_child(std::make_unique<generic_node>(s, dev, dev.get_root_node()));
  generic_device two{"d.2"}; strs lv{"a", "ab", "b.1", "1"};
  for (auto& x : lv) for (auto& y : lv) if (!(x == "1" && y == "1")) find_or_create_node(two, x + "/" + y);
  auto show = [](const std::vector<node_base*>& v) { std::set<std::string> s; for (auto n : v) s.insert(n->osc_address()); std::string r = mc::cat(v.size(), ":"); for (auto& x : s) r += x + " "; return r; };
  auto expect = [](std::set<std::string> s) { std::string r = mc::cat(s.size(), ":"); for (auto& x : s) r += x + " "; return r; };
  auto run = [&](generic_device& d, const std::string& p) -> std::string { auto m = traversal::make_path(p); if (!m) return "no path"; std::vector<node_base*> v{&d.get_root_node()}; traversal::apply(*m, v); return show(v); };
  for (int n = 1; n <= L; n++) mc::words(TOK.size(), n, [&](const std::vector<int>& p) {
    auto t = text(p); if (t == "..") return; auto id = "p " + t;
    if (!c.want(id)) return;
    c.state(id); c.trace();
    std::set<std::string> e; for (auto& s : names) if (match(p, 0, s, 0)) e.insert("/" + s);
    auto r = run(dev, "/" + t); c.outcome(r); c.step(names.size());
    c.check(r == expect(e), id, mc::cat("matches ", r, " expected ", expect(e)));
    const bool pat = t.find_first_of("?*[]{}!") != t.npos;
    c.check(traversal::is_pattern("/" + t) == pat && traversal::is_pattern("//" + t), "is " + id, "is_pattern");
    auto f = find_nodes(dev.get_root_node(), "/" + t); c.check(show(f) == expect(e), "find " + id, mc::cat("find_nodes gives ", show(f)));
    c.check(run(dev, "dev:/" + t) == expect(e) && run(dev, "{dev,x}:/" + t) == expect(e) && run(dev, "*v:/" + t) == expect(e) && run(two, "dev:/" + t) == "0:" && run(dev, "de:/" + t) == "0:", "dev " + id, "device part");
    if (n > 2) return;
    // anywhere
    e.clear(); for (auto& x : lv) { if (match(p, 0, x, 0)) e.insert("/" + x); for (auto& y : lv) if (!(x == "1" && y == "1") && match(p, 0, y, 0)) e.insert("/" + x + "/" + y); }
    c.check(run(two, "//" + t) == expect(e), "any " + id, mc::cat("anywhere: ", run(two, "//" + t), " expected ", expect(e)));
    e.clear(); for (auto& x : lv) for (auto& y : lv) if (!(x == "1" && y == "1")) { if (match(p, 0, y, 0)) e.insert("/" + x); }
    auto up = run(two, "/*/" + t + "/.."); c.check(up == expect(e), "up " + id, mc::cat("parents: ", up, " expected ", expect(e)));
    if (auto m = traversal::make_path("/*/" + t)) for (auto& x : lv) for (auto& y : lv) if (auto k = find_node(two, x + "/" + y)) c.check(traversal::match(*m, *k) == match(p, 0, y, 0), mc::cat("m ", id, x, y), mc::cat("match of /", x, "/", y));
  });
  for (int i = 0; i < (int)TOK.size(); i++) for (int j = 0; j < (int)TOK.size(); j++) for (int k = 0; k < (int)TOK.size(); k++)
  {
    std::vector<int> p{i, k}, q{j, k}; auto id = mc::cat("pp ", text(p), "/", text(q));
    if (text(p) == ".." || text(q) == "..") continue;
    if (!c.want(id)) continue;
    c.state(id); c.trace();
    std::set<std::string> e; for (auto& x : lv) for (auto& y : lv) if (!(x == "1" && y == "1") && match(p, 0, x, 0) && match(q, 0, y, 0)) e.insert("/" + x + "/" + y);
    auto r = run(two, text(p) + "/" + text(q)), r2 = run(two, "d.2:/" + text(p) + "/" + text(q)), r3 = run(two, "dx2:/" + text(p) + "/" + text(q)); c.outcome(r);
    c.check(r == expect(e) && r2 == r && r3 == "0:", id, mc::cat("matches ", r, " / ", r2, " / ", r3, " expected ", expect(e)));
  }
}
// ---- brace expansion
static strs prod(const strs& a, const strs& b) { strs r; for (auto& x : a) for (auto& y : b) r.push_back(x + y); return r; }
struct piece { std::string text; strs v; };
static std::vector<piece> pieces(int depth)
{
  std::vector<piece> r{{"a", {"a"}}, {"b", {"b"}}, {"[ab]", {"a", "b"}}, {"[a-c]", {"a", "b", "c"}}, {"[b]", {"b"}}, {"{1..3}", {"1", "2", "3"}}, {"{3..1}", {"1", "2", "3"}}, {"{2..2}", {"2"}}, {"{-1..1}", {"-1", "0", "1"}},
    {"{1..5..2}", {"1", "3", "5"}}, {"{5..1..2}", {"1", "3", "5"}}, {"{1..2..5}", {"1"}}, {"{3..3..1}", {"3"}}, {"{3..3..-1}", {"3"}}, {"{1..3..-1}", {"3", "2", "1"}}, {"{0..0..-7}", {"0"}}, {"{8..10}", {"8", "9", "10"}}, {"/", {"/"}}};
  if (depth) { auto in = std::vector<piece>{{"a", {"a"}}, {"", {""}}, {"b{c,d}", {"bc", "bd"}}, {"{1..2}x", {"1x", "2x"}}, {"[xy]", {"x", "y"}}}; for (auto& p : in) for (auto& q : in) { piece z{"{" + p.text + "," + q.text + "}", p.v}; z.v.insert(z.v.end(), q.v.begin(), q.v.end()); r.push_back(z); } r.push_back({"{a,b,c}", {"a", "b", "c"}}); r.push_back({"{a|b}", {"a", "b"}}); }
  return r;
}
static void braces(mc::ctx& c)
{
  const int L = c.thorough() ? 3 : 2;
  auto P = pieces(1);
  c.in("braces", mc::cat("every concatenation of up to ", L, " of ", P.size(), " brace, range, class and literal pieces"));
  for (int n = 1; n <= L; n++) mc::words(P.size(), n, [&](const std::vector<int>& w) {
    std::string t = "n"; strs e{"n"}; for (int x : w) { t += P[x].text; e = prod(e, P[x].v); }
    auto id = "x " + t; if (!c.want(id)) return;
    c.state(id); c.trace(); c.step();
    // model: create each address in turn, an existing one yielding the next instance
    generic_device dev{"d"}, ref{"r"}; strs got, want;
    auto r = create_nodes(dev, t); for (auto k : r) got.push_back(k->osc_address());
    const bool br = t.find_first_of("{[") != t.npos;
    c.check(is_brace_expansion(t) == br, "is " + id, "is_brace_expansion");
    for (auto& s : e) want.push_back(create_node(ref, s).osc_address());
    c.outcome(J(want)); c.check(got == want, id, mc::cat("creates ", J(got), " expected ", J(want)));
    // and finding them as a pattern does not find anything else than what the pattern denotes
    std::set<std::string> uniq; for (auto& s : e) uniq.insert(s);
    if (t.find_first_of("|") == t.npos && br) { auto f = find_nodes(dev, t); std::set<std::string> fs; for (auto k : f) fs.insert(k->osc_address().substr(1)); std::set<std::string> ex; for (auto& s : uniq) { auto v = s; while (!v.empty() && v.back() == '/') v.pop_back(); if (find_node(dev, v)) ex.insert(v); } bool plain = true; for (auto& s : e) if (s.find("//") != s.npos || s.back() == '/') plain = false; bool sl = false; { int d = 0; for (char ch : t) { d += ch == '{'; d -= ch == '}'; if (ch == '/' && d) sl = true; } } if (plain && !sl) c.check(fs == ex, "find " + id, mc::cat("finds ", J({fs.begin(), fs.end()}), " expected ", J({ex.begin(), ex.end()}))); }
  });
}
static void names(mc::ctx& c)
{
  c.in("characters", "every byte in a name, and every name with a legal neighbour");
  for (int ch = 1; ch < 256; ch++)
  {
    auto id = mc::cat("c ", ch); if (!c.want(id)) continue; c.state(id); c.trace(); c.step(4);
    auto ok = [&](bool name) { return (ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z') || (ch >= '0' && ch <= '9') || (ch < 128 && std::strchr(name ? ".~_()-: =" : ".~_()- =", ch)); };
    std::string s{"x", 1}; s += char(ch); s += 'y'; auto exp = [&](bool n) { auto r = s; if (!ok(n)) r[1] = '_'; return r; };
    auto d = s, n2 = s; sanitize_device_name(d); sanitize_name(n2);
    c.check(d == exp(false) && n2 == exp(true) && sanitize_name((const std::string&)s) == n2 && sanitize_name(std::string(s)) == n2 && sanitize_name(s.c_str()) == n2, id, mc::cat("device ", d, " name ", n2));
    // '*' and '?' match every legal character
    if (ok(true)) { generic_device dev{"d"}; dev.get_root_node().create_child(s); c.check(find_nodes(dev, "/x*y").size() == 1 && find_nodes(dev, "/x?y").size() == 1, "star " + id, "a legal character is not matched by * or ?"); }
  }
  const strs A{"a", "a.1", "a.2", "a.01", "a.x", "a.", "b", "a.1.1", "a.-3", "ab", "a.9", "#"};
  c.in("instances", mc::cat("every name x every list of up to 3 siblings among ", A.size()));
  generic_device dev{"d"};
  for (int n = 0; n <= 3; n++) mc::words(A.size(), n, [&](auto& w) { for (auto& nm : A) {
    strs b; for (int x : w) b.push_back(A[x]); auto id = "i " + nm + " in " + J(b); if (!c.want(id)) return; c.state(id); c.trace(); c.step();
    auto g = sanitize_name(nm, b); node_base::children_t ch; for (auto& x : b) ch.push_back(std::make_unique<generic_node>(x, dev)); auto h = nm; sanitize_name(h, ch);
    auto base = nm == "#" ? "_" : nm; bool here = std::count(b.begin(), b.end(), base); c.outcome(g);
    auto root = base; if (auto p = base.rfind('.'); p != base.npos && p + 1 < base.size() && base.find_first_not_of("-0123456789", p + 1) == base.npos) root = base.substr(0, p);
    c.check(g == h, "two " + id, mc::cat(g, " vs ", h)); c.check(here || g == base, id, g); c.check(!here || (!std::count(b.begin(), b.end(), g) && g.compare(0, root.size() + 1, root + ".") == 0 && g.find_first_not_of("-0123456789", root.size() + 1) == g.npos), "u " + id, mc::cat("gives ", g)); } });
  const char S[] = "a/:.";
  const int LT = c.thorough() ? 9 : 7;
  c.in("text", mc::cat("every text of up to ", LT, " characters of {a,/,:,.}: parts and scope"));
  for (int n = 0; n <= LT; n++) mc::words(4, n, [&](auto& w) {
    std::string s; for (int x : w) s += S[x]; auto id = "t " + s; if (!c.want(id)) return; c.state(id); c.trace(); c.step();
    strs e; if (!s.empty()) { auto t = s; if (t[0] == '/') t.erase(0, 1); if (!t.empty() && t.back() == '/') t.pop_back(); std::string cur; for (char k : t) if (k == '/') { e.push_back(cur); cur.clear(); } else cur += k; e.push_back(cur); }
    auto g = address_parts(s); c.outcome(J(g)); c.check(g == e, "parts " + id, J(g));
    auto sc = get_address_scope(s); auto p = s.find('/');
    auto x = s.substr(0, 2) == "//" ? address_scope::relative : s[0] == '/' ? address_scope::absolute : p != s.npos && p > 1 && s[p - 1] == ':' ? address_scope::global : address_scope::relative;
    c.check(sc == x, "scope " + id, mc::cat(int(sc)));
    generic_device d{"d"}; traversal::make_path(s); find_nodes(d, s); create_nodes(d, s); });
  const char B[] = "a{}[],";
  c.in("brackets", mc::cat("every text of up to ", LT, " characters of {a,{,},[,],comma}: recognised as an expansion iff balanced, and never mishandled"));
  for (int n = 0; n <= LT; n++) mc::words(6, n, [&](auto& w) {
    std::string s; for (int x : w) s += B[x]; auto id = "b " + s; if (!c.want(id)) return; c.state(id); c.trace(); c.step();
    int b = 0, a = 0; bool any = false, ok = true; for (char k : s) { b += k == '{'; b -= k == '}'; a += k == '['; a -= k == ']'; any |= k == '{' || k == '['; ok &= a >= 0 && b >= 0; }
    c.check(is_brace_expansion(s) == (any && ok && !a && !b), id, "is_brace_expansion");
    if (n <= 5) { generic_device d{"d"}; create_nodes(d, s); find_nodes(d, s); } });
}
static void body(mc::ctx& c) { names(c); braces(c); patterns(c); }
MC_MAIN(body)
