// Node tree: every sequence of edits against a model tree.
#include "mc.hpp"
#include <map>
#include <functional>
#include <algorithm>
#include <set>
#include <ossia/network/base/node.hpp>
#include <ossia/network/base/node_functions.hpp>
#include <ossia/network/base/node_attributes.hpp>
#include <ossia/network/base/osc_address.hpp>
#include <ossia/network/generic/generic_device.hpp>
#include <ossia/network/generic/generic_parameter.hpp>
using namespace ossia; using namespace ossia::net;
struct M { std::string name; bool prm = false; M* up = nullptr; std::vector<std::unique_ptr<M>> ch; };
static std::string show(const M& m) { std::string s = m.name + (m.prm ? "*" : ""); if (!m.ch.empty()) { s += "("; for (auto& c : m.ch) s += show(*c) + ","; s += ")"; } return s; }
static std::string show(node_base& n) { std::string s = n.get_name() + (n.get_parameter() ? "*" : ""); if (!n.children().empty()) { s += "("; for (auto& c : n.children()) s += show(*c) + ","; s += ")"; } return s; }
static std::string path(const M& m) { return m.up ? path(*m.up) + "/" + m.name : ""; }
static std::string addr(const M& m) { auto p = path(m); return p.empty() ? "/" : p; }
static void all(M& m, std::vector<M*>& v) { v.push_back(&m); for (auto& c : m.ch) all(*c, v); }
static void all(node_base& m, std::vector<node_base*>& v) { v.push_back(&m); for (auto& c : m.children()) all(*c, v); }
static int parse(const std::string& s) { int n = 0; if (s.empty()) return -1; for (char c : s) { if (c < '0' || c > '9') return -1; n = n * 10 + c - '0'; } return n; }
// the documented naming rule: an occupied name becomes the next instance of its root
static std::string fresh(const M& up, std::string name)
{
  for (auto& c : name) if (!is_valid_character_for_name(c)) c = '_';
  bool here = false; for (auto& c : up.ch) here |= c->name == name;
  if (!here) return name;
  std::string root = name; if (auto p = name.rfind('.'); p != name.npos && parse(name.substr(p + 1)) >= 0) root = name.substr(0, p);
  int mx = 0; for (auto& c : up.ch) if (c->name.compare(0, root.size() + 1, root + ".") == 0) mx = std::max(mx, parse(c->name.substr(root.size() + 1)));
  return root + "." + std::to_string(mx + 1);
}
using log_t = std::multiset<std::string>;
struct spy
{
  log_t log; std::vector<std::string> order;
  void put(std::string s) { log.insert(s); order.push_back(s); }
  void created(const node_base& n) { put("+" + n.osc_address()); }
  void removing(const node_base& n) { put("-" + n.osc_address()); }
  void renamed(const node_base& n, std::string old) { put("~" + old + ">" + n.osc_address()); }
  void pcreated(const parameter_base& p) { put("p" + p.get_node().osc_address()); }
  void premoving(const parameter_base& p) { put("q" + p.get_node().osc_address()); }
  void gone(const node_base& n) { put("x" + n.osc_address()); }
  void on(device_base& d)
  {
    d.on_node_created.connect<&spy::created>(this); d.on_node_removing.connect<&spy::removing>(this); d.on_node_renamed.connect<&spy::renamed>(this);
    d.on_parameter_created.connect<&spy::pcreated>(this); d.on_parameter_removing.connect<&spy::premoving>(this);
  }
};
struct op { std::string text; std::function<bool(M&, log_t&)> model; std::function<void(device_base&, std::vector<node_base*>&)> real; };
static void killed(M& m, log_t& l) { for (auto& c : m.ch) killed(*c, l); l.insert("-" + addr(m)); if (m.prm) l.insert("q" + addr(m)); }
static M& put(M& up, std::string n, log_t& l) { auto c = std::make_unique<M>(); c->name = fresh(up, n); c->up = &up; auto& r = *c; up.ch.push_back(std::move(c)); l.insert("+" + addr(r)); return r; }
static M* child(M& up, const std::string& n) { for (auto& c : up.ch) if (c->name == n) return c.get(); return nullptr; }
static std::vector<std::string> parts(std::string s) { std::vector<std::string> r; std::string cur; for (char c : s) if (c == '/') { if (!cur.empty()) r.push_back(cur); cur.clear(); } else cur += c; if (!cur.empty()) r.push_back(cur); return r; }
static void ops(M& root, std::vector<op>& v, size_t maxn)
{
  std::vector<M*> ns; all(root, ns);
  for (size_t i = 0; i < ns.size(); i++)
  {
    auto at = [i](M& r) -> M& { std::vector<M*> w; all(r, w); return *w[i]; };
    auto id = [&](std::string s) { return s + "@" + std::to_string(i); };
    if (ns.size() < maxn)
    {
      for (std::string n : {"a", "a.1", "b", "c#d", "a.x"}) v.push_back({id("create " + n), [=](M& r, log_t& l) { put(at(r), n, l); return true; }, [=](device_base&, auto& w) { w[i]->create_child(n); }});
      for (std::string n : {"a", "b"}) v.push_back({id("add " + n), [=](M& r, log_t& l) { if (!child(at(r), n)) put(at(r), n, l); return true; }, [=](device_base& d, auto& w) { w[i]->add_child(std::make_unique<generic_node>(n, d, *w[i])); }});
      for (std::string n : {"a/b", "/b//", "b/a/a"})
      {
        v.push_back({id("create_node " + n), [=](M& r, log_t& l) { M* m = &at(r); auto p = parts(n); for (size_t k = 0; k < p.size(); k++) { auto c = child(*m, p[k]); m = c && k + 1 < p.size() ? c : &put(*m, p[k], l); } return true; }, [=](device_base&, auto& w) { create_node(*w[i], n); }});
        v.push_back({id("find_or_create " + n), [=](M& r, log_t& l) { M* m = &at(r); for (auto& k : parts(n)) { auto c = child(*m, k); m = c ? c : &put(*m, k, l); } return true; }, [=](device_base&, auto& w) { auto& x = find_or_create_node(*w[i], n); if (&find_or_create_node(*w[i], n) != &x) mc::ctx::get().fail("find_or_create", "does not find what it has just created"); }});
      }
    }
    for (std::string n : {"a", "a.1"}) v.push_back({id("remove " + n), [=](M& r, log_t& l) { auto& m = at(r); auto c = child(m, n); if (!c) return true; killed(*c, l); m.ch.erase(std::find_if(m.ch.begin(), m.ch.end(), [&](auto& x) { return x.get() == c; })); return true; }, [=](device_base&, auto& w) { w[i]->remove_child(n); }});
    v.push_back({id("clear"), [=](M& r, log_t& l) { auto& m = at(r); for (auto& c : m.ch) killed(*c, l); m.ch.clear(); return true; }, [=](device_base&, auto& w) { w[i]->clear_children(); }});
    for (auto t : {val_type::INT, val_type::STRING}) v.push_back({id(mc::cat("param ", int(t))), [=](M& r, log_t& l) { auto& m = at(r); if (!m.prm) l.insert("p" + addr(m)); m.prm = true; return true; }, [=](device_base&, auto& w) { if (i || w[i]->get_parameter() || true) w[i]->create_parameter(t); }});
    v.push_back({id("unparam"), [=](M& r, log_t& l) { auto& m = at(r); if (m.prm) l.insert("q" + addr(m)); m.prm = false; return true; }, [=](device_base&, auto& w) { w[i]->remove_parameter(); }});
    if (i)
    {
      v.push_back({id("remove self"), [=](M& r, log_t& l) { auto& m = at(r); killed(m, l); auto& u = m.up->ch; u.erase(std::find_if(u.begin(), u.end(), [&](auto& x) { return x.get() == &m; })); return true; }, [=](device_base&, auto& w) { w[i]->get_parent()->remove_child(*w[i]); }});
      for (std::string n : {"a", "b", "z?"}) v.push_back({id("rename " + n), [=](M& r, log_t& l) { auto& m = at(r); auto old = m.name; m.name.clear(); m.name = fresh(*m.up, n); l.insert("~" + old + ">" + addr(m)); return true; }, [=](device_base&, auto& w) { w[i]->set_name(n); }});
    }
  }
}
static std::string sjoin(const std::vector<std::string>& v) { std::string r; for (auto& x : v) r += x + ";"; return r; }
static void body(mc::ctx& c)
{
  const size_t maxn = c.thorough() ? 6 : 5; const int depth = c.thorough() ? 7 : 5; const size_t cap = c.thorough() ? 20000 : 1300;
  c.in("edits", mc::cat("every edit of every tree reachable by ", depth, " edits with at most ", maxn, " nodes before the edit (the first ", cap, " trees in breadth-first order)"));
  struct S { std::vector<std::string> seq; };
  std::vector<S> level{{}}; std::set<std::string> seen; size_t expanded = 0;
  auto replay = [](const std::vector<std::string>& seq, M& m, size_t maxn) { log_t l; for (auto& s : seq) { std::vector<op> v; ops(m, v, maxn); for (auto& o : v) if (o.text == s) { o.model(m, l); break; } } };
  for (int d = 0; d <= depth && !level.empty(); d++)
  {
    std::vector<S> next;
    for (auto& st : level)
    {
      if (expanded++ >= cap) break;
      M base; replay(st.seq, base, maxn);
      std::vector<op> v; ops(base, v, maxn);
      for (auto& o : v)
      {
        auto seq = st.seq; seq.push_back(o.text); auto id = sjoin(seq);
        M m; log_t expect; replay(st.seq, m, maxn); o.model(m, expect); auto txt = show(m);
        const bool fresh_state = seen.insert(txt).second; if (fresh_state && d < depth) next.push_back({seq});
        if (!c.want(id)) continue;
        c.state(txt); c.trace(); c.step(); c.outcome(txt);
        log_t gone; std::vector<node_base*> dead;
        {
          spy sp; generic_device dev{"dev"};
          std::vector<op> w; M mm; 
          for (auto& s : st.seq) { w.clear(); ops(mm, w, maxn); for (auto& q : w) if (q.text == s) { log_t l; q.model(mm, l); std::vector<node_base*> ns; all(dev.get_root_node(), ns); q.real(dev, ns); break; } }
          sp.on(dev);
          std::vector<node_base*> ns; all(dev.get_root_node(), ns);
          for (auto n : ns) n->about_to_be_deleted.connect<&spy::gone>(&sp);
          std::map<node_base*, std::string> before; for (auto n : ns) before[n] = n->osc_address();
          o.real(dev, ns);
          auto got = show(dev.get_root_node()); auto pos = got.find_first_of("(*"); got = pos == got.npos ? "" : got.substr(pos);
          c.check(got == txt, "tree " + id, mc::cat("tree is ", got, " expected ", txt));
          log_t gl, xs; for (auto& s : sp.log) (s[0] == 'x' ? xs : gl).insert(s);
          auto j = [](const log_t& l) { std::string s; for (auto& x : l) s += x + " "; return s; };
          c.check(gl == expect, "signals " + id, mc::cat("notified ", j(gl), "expected ", j(expect)));
          log_t xe; for (auto& s : expect) if (s[0] == '-') xe.insert("x" + s.substr(1));
          c.check(xs == xe, "deleted " + id, mc::cat("about_to_be_deleted ", j(xs), "expected ", j(xe)));
          // every node is where its addresses say, and only there
          ns.clear(); all(dev.get_root_node(), ns); std::vector<M*> ms; all(m, ms); std::set<std::string> as;
          if (ns.size() == ms.size()) for (size_t k = 0; k < ns.size(); k++)
          {
            auto& n = *ns[k]; auto p = path(*ms[k]);
            bool ok = n.osc_address() == addr(*ms[k]) && osc_parameter_string(n) == addr(*ms[k]) && address_string_from_node(n) == "dev:" + addr(*ms[k]) && &n.get_device() == &dev
              && find_node(dev.get_root_node(), n.osc_address()) == &n && find_node(dev.get_root_node(), p + "/") == &n && as.insert(n.osc_address()).second
              && (k == 0 ? n.get_parent() == nullptr : n.get_parent() == ns[std::find(ms.begin(), ms.end(), ms[k]->up) - ms.begin()] && n.get_parent()->has_child(n) && n.get_parent()->find_child(n.get_name()) == &n)
              && n.children_names().size() == ms[k]->ch.size() && n.children_copy().size() == ms[k]->ch.size() && (!n.get_parameter() || &n.get_parameter()->get_node() == &n);
            if (k) { bool inst = false; for (auto& b : ms[k]->up->ch) inst |= b->name.compare(0, ms[k]->name.size() + 1, ms[k]->name + ".") == 0 && b->name.size() > ms[k]->name.size() + 1; ok &= n.get_parent()->is_root_instance(n) == inst; }
            ok &= !find_node(n, "nope") && !find_node(n, "nope/a") && (ms[k]->ch.empty() || find_node(n, ms[k]->ch[0]->name) == n.children()[0].get());
            for (auto q = ms[k]->up; q; q = q->up) { auto& a = *ns[std::find(ms.begin(), ms.end(), q) - ms.begin()]; ok &= relative_address_string_from_nodes(n, a) == p.substr(path(*q).size() + 1); }
            c.check(ok, mc::cat("node ", id, " ", p), mc::cat("node ", addr(*ms[k]), " says ", n.osc_address(), " and ", address_string_from_node(n), " or its parent and lookups disagree"));
          }
        }
      }
    }
    level = std::move(next);
  }
}
// list_all_children: depth first, siblings by priority, then by name, instances in numeric order
static void listing(mc::ctx& c)
{
  const int NMAX = c.thorough() ? 40 : 24;
  c.in("listing", mc::cat("0..", NMAX, " siblings (plain and instance names), five creation orders x every priority pattern of length 1-3 over {none, 1, 2}, depths 0-2"));
  for (int n = 0; n <= NMAX; n++)
    for (int ord = 0; ord < 5; ord++)
      for (int pl = 1; pl <= 3; pl++)
        mc::words(3, pl, [&](const std::vector<int>& w) {
          auto id = mc::cat("lst ", n, " ", ord, " ", mc::join(w));
          if (!c.want(id)) return;
          generic_device dev{"dev"};
          struct X { std::string name; int grp, num, prio; };
          std::vector<X> xs;
          for (int i = 0; i < n; i++) { bool in = i % 3 != 2; xs.push_back({in ? mc::cat(i % 2 ? "p" : "Q", ".", i + 1) : mc::cat(i % 2 ? "m" : "Z", i / 10, i % 10), i % 3 == 2 ? (i % 2 ? 0 : 3) : i % 2 ? 1 : 2, i, w[i % pl]}); }
          auto cr = xs;
          if (ord == 1) std::reverse(cr.begin(), cr.end());
          if (ord == 2) std::rotate(cr.begin(), cr.begin() + n / 3, cr.end());
          if (ord == 3) std::stable_partition(cr.begin(), cr.end(), [](auto& x) { return x.num % 2; });
          if (ord == 4) std::stable_partition(cr.begin(), cr.end(), [](auto& x) { return x.num * 7 % 5 < 2; });
          for (auto& x : cr)
          {
            auto nd = dev.get_root_node().create_child(x.name);
            if (x.prio) set_priority(*nd, float(x.prio));
            if (x.num % 4 == 0) { nd->create_child("y"); nd->create_child("x")->create_child("z"); }
          }
          std::stable_sort(xs.begin(), xs.end(), [](auto& a, auto& b) { return std::tuple(-a.prio, a.grp, a.num) < std::tuple(-b.prio, b.grp, b.num); });
          for (int depth = 0; depth <= 2; depth++)
          {
            std::vector<std::string> want, got;
            for (auto& x : xs) { want.push_back("/" + x.name); if (x.num % 4 == 0 && depth != 1) { want.push_back("/" + x.name + "/x"); if (depth != 2) want.push_back("/" + x.name + "/x/z"); want.push_back("/" + x.name + "/y"); } }
            for (auto k : list_all_children(&dev.get_root_node(), depth)) got.push_back(k->osc_address());
            std::string g; if (got != want) for (size_t i = 0; i < got.size(); i++) if (i >= want.size() || got[i] != want[i]) { g = mc::cat("position ", i, ": ", got[i], " instead of ", i < want.size() ? want[i] : "nothing"); break; }
            c.check(got == want, mc::cat("listing depth ", depth), mc::cat(n, " children: ", g)); c.step();
          }
          c.state(id); c.trace(); c.outcome(mc::cat(n, mc::join(w)));
        });
}
MC_MAIN([](mc::ctx& c) { body(c); listing(c); })
