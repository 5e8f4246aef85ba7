// Concurrent calls: every interleaving (bounded preemptions) of small programs of two or three threads on the
// real parameters, callback containers, listened maps and node tree, under the scheduler of mcrt.cpp.
#include "mc.hpp"
#include "mcrt.hpp"
#include <algorithm>
#include <ossia/network/base/listening.hpp>
#include <ossia/network/base/node.hpp>
#include <ossia/network/base/node_functions.hpp>
#include <ossia/network/base/parameter.hpp>
#include <ossia/network/base/protocol.hpp>
#include <ossia/network/common/path.hpp>
#include <ossia/network/generic/generic_device.hpp>
#include <ossia/network/generic/generic_parameter.hpp>
using namespace ossia; using namespace ossia::net;
enum ev { OBSERVE, PUSH, ENTER, LEAVE, CREATED, REMOVING };
// one call of a program
struct call { int op, arg; };
struct rec { uint64_t inv = 0, ret = 0; long res = -1; std::string text; };
struct hist { call c; rec r; int thread; };
static rec R[8][8];
template <typename F> static void doing(int t, int k, F f) { mcrt::point(); auto& r = R[t][k]; r = {}; r.inv = mcrt::stamp(); f(r); r.ret = mcrt::stamp(); }
// is there an order of the calls, compatible with real time, in which the model gives the same results?
template <typename M, typename F> static bool linear(const std::vector<hist>& h, uint64_t done, const M& m, const F& apply, const std::function<bool(const M&)>& last)
{
  if (done == (1ull << h.size()) - 1) return last(m);
  for (size_t i = 0; i < h.size(); i++)
  {
    if (done >> i & 1) continue;
    bool first = true;
    for (size_t j = 0; j < h.size(); j++) first &= j == i || done >> j & 1 || !(h[j].r.ret < h[i].r.inv);
    if (!first) continue;
    M n = m;
    if (apply(n, h[i]) && linear<M, F>(h, done | 1ull << i, n, apply, last)) return true;
  }
  return false;
}
struct proto : protocol_base
{
  proto() : protocol_base{flags{}} {}
  bool pull(parameter_base&) override { return false; }
  bool push(const parameter_base&, const ossia::value& v) override { auto i = v.target<int>(); mcrt::log(PUSH, i ? *i : -1); return true; }
  bool push_raw(const full_parameter_data&) override { return true; }
  bool observe(parameter_base&, bool b) override { mcrt::log(OBSERVE, b); return true; }
  bool update(node_base&) override { return true; }
};
using prog = std::vector<std::vector<call>>;
static std::string show(const prog& p, const char* const* names)
{
  std::string s; for (auto& t : p) { if (!s.empty()) s += " || "; for (size_t i = 0; i < t.size(); i++) s += mc::cat(i ? "; " : "", names[t[i].op], t[i].arg >= 0 ? mc::cat("(", t[i].arg, ")") : ""); } return s;
}
static std::string show(const std::vector<hist>& h, const char* const* names)
{
  std::string s; for (auto& x : h) s += mc::cat("[T", x.thread, " ", x.r.inv, "-", x.r.ret, " ", names[x.c.op], x.c.arg >= 0 ? mc::cat("(", x.c.arg, ")") : "", " = ", x.r.res, x.r.text, "] "); return s;
}
static std::vector<hist> history(const prog& p) { std::vector<hist> h; for (size_t t = 0; t < p.size(); t++) for (size_t k = 0; k < p[t].size(); k++) h.push_back({p[t][k], R[t][k], (int)t}); return h; }
// all programs of the given shape over `ops`; threads are interchangeable
template <typename F> static void programs(const std::vector<int>& shape, int nops, F f)
{
  int n = 0; for (int k : shape) n += k;
  mc::words(nops, n, [&](auto& w) {
    prog p; int i = 0; for (int k : shape) { p.emplace_back(); for (int j = 0; j < k; j++) p.back().push_back({w[i++], -1}); }
    for (size_t t = 0; t + 1 < p.size(); t++) if (shape[t] == shape[t + 1])
      for (int j = 0; j < shape[t]; j++) { if (p[t][j].op < p[t + 1][j].op) break; if (p[t][j].op > p[t + 1][j].op) return; }
    f(p);
  });
}
static bool explore(mc::ctx& c, const std::string& id, const std::function<void()>& program, int pre, const std::function<std::string()>& verdict)
{
  if (!c.want(id)) return true;
  std::string bad, where; uint64_t cap = c.thorough() ? 400000 : 40000;
  auto s = mcrt::explore(program, pre, cap, [&](const std::string& sched) {
    c.state(id + sched);
    if (bad.empty()) { bad = verdict(); where = sched; }
    return bad.empty();
  });
  c.step(s.points); c.cur->traces += s.schedules;
  if (!s.complete) c.incomplete(mc::cat(id, ": ", cap, " schedules"));
  if (!s.race.empty()) { c.fail("race " + id, s.race + " under schedule " + s.race_schedule); return false; }
  if (!bad.empty()) { c.fail("order " + id, bad + " under schedule " + where); return false; }
  return true;
}
// ---------------------------------------------------------------- values and observers
namespace vals
{
enum { SET, PUSHV, QUIET, SETF, READ, ADD, DEL, COUNT, NOPS };
static const char* const names[] = {"set", "push", "set_quiet", "set_float", "value", "add_callback", "remove_callback", "count"};
struct m { int v = 0; int cbs = 0; };
static void part(mc::ctx& c, bool perm, const std::vector<int>& shape, int pre)
{
  programs(shape, NOPS, [&](prog p) {
    // give each write its own value; a removal needs an addition of the same thread before it
    int nv = 1, writes = 0; bool lastadd = false;
    for (auto& t : p) { int have = 0; for (auto& x : t) { if (x.op <= SETF) { x.arg = nv++ * 10; writes++; } if (x.op == ADD) have++; if (x.op == DEL && have-- <= 0) return; } }
    (void)lastadd;
    auto id = mc::cat(perm ? "observed " : "bare ", show(p, names));
    auto verdict = [&]() -> std::string {
      auto h = history(p); int final = 0, fc = 0; final = R[7][0].res; fc = R[7][1].res;
      auto apply = [](m& s, const hist& x) {
        switch (x.c.op)
        {
          case SET: case PUSHV: case QUIET: case SETF: s.v = x.c.arg; return x.c.op == PUSHV || x.r.res == x.c.arg;
          case READ: return x.r.res == s.v;
          case ADD: s.cbs++; return true;
          case DEL: s.cbs--; return true;
          case COUNT: return x.r.res == s.cbs;
        }
        return false;
      };
      m init; init.cbs = perm;
      if (!linear<m>(h, 0, init, apply, [&](const m& s) { return s.v == final && s.cbs == fc; })) return mc::cat("no order of the calls explains ", show(h, names), "final value ", final, " observers ", fc);
      // notifications
      int depth = 0; bool obs = false; int pushes[100]{};
      for (int i = 0; i < mcrt::log_size(); i++)
      {
        auto& e = mcrt::log_at(i);
        if (e.kind == ENTER && ++depth > 1) return "two notifications of one parameter overlap";
        if (e.kind == LEAVE) depth--;
        if (e.kind == OBSERVE) { if ((e.a != 0) == obs) return mc::cat("observation switched ", e.a ? "on" : "off", " twice in a row"); obs = e.a; }
        if (e.kind == PUSH && e.a >= 0 && e.a < 1000) pushes[e.a / 10]++;
      }
      if (obs != (fc > 0)) return mc::cat("the protocol ", obs ? "observes" : "does not observe", " with ", fc, " observers");
      for (auto& x : h) if (x.c.op <= SETF)
      {
        if (pushes[x.c.arg / 10] != (x.c.op == PUSHV)) return mc::cat(names[x.c.op], "(", x.c.arg, ") was sent ", pushes[x.c.arg / 10], " times");
        std::map<int, int> told;
        for (int i = 0; i < mcrt::log_size(); i++) { auto& e = mcrt::log_at(i); if (e.kind == ENTER && e.b == x.c.arg) { told[e.a]++; if (e.stamp < x.r.inv || e.stamp > x.r.ret) return "an observer is told outside of the call that sets the value"; } }
        for (auto& [o, n] : told) if (n != 1) return mc::cat("observer ", o, " told ", n, " times of ", x.c.arg);
        if (x.c.op == QUIET && !told.empty()) return "a quiet change was notified";
        if (x.c.op != QUIET && perm && !told.count(99)) return mc::cat("the permanent observer was not told of ", x.c.arg);
        // observers added by the program: thread * 10 + index of the call
        for (size_t t = 0; t < p.size(); t++)
        {
          std::vector<int> open;
          for (size_t k = 0; k < p[t].size(); k++)
          {
            if (p[t][k].op == ADD) open.push_back(k);
            if (p[t][k].op != ADD && p[t][k].op != DEL) continue;
          }
          for (int a : open)
          {
            uint64_t ai = R[t][a].inv, ar = R[t][a].ret, di = ~0ull, dr = ~0ull; int need = 1;
            for (size_t k = a + 1; k < p[t].size(); k++) { if (p[t][k].op == ADD) need++; if (p[t][k].op == DEL && --need == 0) { di = R[t][k].inv; dr = R[t][k].ret; break; } }
            bool told1 = told.count(int(t) * 10 + a);
            if (x.c.op != QUIET && ar < x.r.inv && x.r.ret < di && !told1) return mc::cat("an observer added before was not told of ", x.c.arg);
            if (told1) for (int i = 0; i < mcrt::log_size(); i++) { auto& e = mcrt::log_at(i); if (e.kind == ENTER && e.a == int(t) * 10 + a && (e.stamp < ai || e.stamp > dr)) return "an observer is told before it is added or after its removal returned"; }
          }
        }
      }
      return {};
    };
    auto program = [&] {
      generic_device dev{std::make_unique<proto>(), "d"};
      auto& prm = *create_node(dev.get_root_node(), "/a").create_parameter(val_type::INT);
      auto cb = [&](int who) { return [who](const ossia::value& v) { auto i = v.target<int>(); mcrt::log(ENTER, who, i ? *i : -1); mcrt::point(); mcrt::log(LEAVE, who); }; };
      std::optional<parameter_base::callback_index> pcb; if (perm) pcb = prm.add_callback(cb(99));
      std::vector<std::thread> th;
      for (size_t t = 0; t < p.size(); t++) th.emplace_back([&, t] {
        std::vector<parameter_base::callback_index> mine;
        for (size_t k = 0; k < p[t].size(); k++) doing(t, k, [&](rec& r) {
          auto x = p[t][k];
          switch (x.op)
          {
            case SET: r.res = prm.set_value(ossia::value{x.arg}).get<int>(); break;
            case PUSHV: prm.push_value(ossia::value{x.arg}); break;
            case QUIET: { ossia::value v{x.arg}; r.res = prm.set_value_quiet(v).get<int>(); break; }
            case SETF: { ossia::value v{x.arg + 0.5f}; r.res = prm.set_value(v).get<int>(); break; }
            case READ: { auto v = prm.value(); auto i = v.target<int>(); r.res = i ? *i : -2; break; }
            case ADD: mine.push_back(prm.add_callback(cb(int(t) * 10 + int(k)))); break;
            case DEL: prm.remove_callback(mine.back()); mine.pop_back(); break;
            case COUNT: r.res = prm.callback_count(); break;
          }
        });
      });
      for (auto& x : th) x.join();
      auto v = prm.value(); auto i = v.target<int>(); R[7][0].res = i ? *i : -2; R[7][1].res = prm.callback_count();
      // what the destructor of the device tells the protocol is not part of the program
      R[7][2].res = mcrt::log_size();
      mcrt::log_freeze(true);
    };
    explore(c, id, program, pre, verdict);
  });
}
// values that own memory
static void lists(mc::ctx& c, int pre)
{
  static const char* const names[] = {"set", "set_move", "set_quiet", "push", "value", "set_int"};
  c.in("values owning memory", "one parameter of type list or string: two threads, two calls each of {set, set by move, set_quiet, push, value, set of another type}; every schedule with up to 2 preemptions");
  for (int str = 0; str < 2; str++)
  programs({2, 2}, 6, [&](prog p) {
    int nv = 1; for (auto& t : p) for (auto& x : t) if (x.op != 4) x.arg = nv++;
    auto id = mc::cat(str ? "string " : "list ", show(p, names));
    auto mk = [=](int k) { std::string s(40 + k, char('a' + k)); return str ? ossia::value{s} : ossia::value{std::vector<ossia::value>(k + 1, ossia::value{s})}; };
    auto mi = [=](int k) { return str ? ossia::value{std::to_string(k)} : ossia::value{std::vector<ossia::value>{ossia::value{k}}}; };
    auto code = [=](const ossia::value& v) -> long { if (v == (str ? ossia::value{std::string{}} : ossia::value{std::vector<ossia::value>{}})) return 0; for (int k = 1; k < 5; k++) { if (v == mk(k)) return k; if (v == mi(k)) return 100 + k; } return -7; };
    auto program = [&] {
      generic_device dev{std::make_unique<proto>(), "d"};
      auto& prm = *create_node(dev.get_root_node(), "/a").create_parameter(str ? val_type::STRING : val_type::LIST);
      std::vector<std::thread> th;
      for (size_t t = 0; t < p.size(); t++) th.emplace_back([&, t] {
        for (size_t k = 0; k < p[t].size(); k++)
        {
          auto x = p[t][k]; ossia::value in = x.op == 5 ? ossia::value{x.arg} : mk(x.arg > 0 ? x.arg : 0), out;
          doing(t, k, [&](rec& r) {
            switch (x.op) { case 0: out = prm.set_value(in); break; case 1: out = prm.set_value(std::move(in)); break; case 2: out = prm.set_value_quiet(in); break; case 3: prm.push_value(in); break; case 4: out = prm.value(); break; case 5: out = prm.set_value(in); break; }
          });
          R[t][k].res = x.op == 3 ? 0 : code(out);
        }
      });
      for (auto& x : th) x.join();
      R[7][0].res = code(prm.value());
    };
    explore(c, id, program, 2, [&]() -> std::string {
      auto h = history(p); long fin = R[7][0].res;
      auto apply = [](int& s, const hist& x) { if (x.c.op == 4) return x.r.res == s; s = x.c.op == 5 ? 100 + x.c.arg : x.c.arg; return x.c.op == 3 || x.r.res == s; };
      if (!linear<int>(h, 0, 0, apply, [&](int s) { return s == fin; })) return mc::cat("no order of the calls explains ", show(h, names), "final ", fin);
      return {};
    });
  });
}
}
// ---------------------------------------------------------------- listened addresses
namespace listened
{
static const char* const names[] = {"insert a=", "insert b=", "erase a", "find a", "take a", "rename a b", "find b", "rename b a"};
static void part(mc::ctx& c, const std::vector<int>& shape, int pre)
{
  using M = std::map<std::string, long>;
  for (int init = 0; init < 2; init++)
  programs(shape, 8, [&](prog p) {
    int nv = 1; for (auto& t : p) for (auto& x : t) if (x.op < 2) x.arg = nv++;
    static parameter_base* P[16]; for (int i = 0; i < 16; i++) P[i] = reinterpret_cast<parameter_base*>(intptr_t(i) * 16);
    auto num = [](std::optional<parameter_base*> o) -> long { return o ? reinterpret_cast<intptr_t>(*o) / 16 : 0; };
    auto program = [&] {
      listened_parameters m; if (init) m.insert({"/a", P[9]});
      std::vector<std::thread> th;
      for (size_t t = 0; t < p.size(); t++) th.emplace_back([&, t] {
        for (size_t k = 0; k < p[t].size(); k++) doing(t, k, [&](rec& r) {
          auto x = p[t][k];
          switch (x.op)
          {
            case 0: m.insert({"/a", P[x.arg]}); break;
            case 1: { listened_parameters::value_type v{"/b", P[x.arg]}; m.insert(v); break; }
            case 2: m.erase("/a"); break;
            case 3: r.res = num(m.find(std::string("/a"))); break;
            case 4: r.res = num(m.find_and_take(std::string("/a"))); break;
            case 5: m.rename("/a", "/b"); break;
            case 6: r.res = num(m.find(std::string("/b"))); break;
            case 7: m.rename("/b", "/a"); break;
          }
        });
      });
      for (auto& x : th) x.join();
      R[7][0].res = num(m.find(std::string("/a"))); R[7][1].res = num(m.find(std::string("/b")));
    };
    explore(c, mc::cat("map", init, " ", show(p, names)), program, pre, [&]() -> std::string {
      auto h = history(p); long fa = R[7][0].res, fb = R[7][1].res;
      auto get = [](const M& m, const char* k) { auto i = m.find(k); return i == m.end() ? 0l : i->second; };
      auto apply = [&](M& m, const hist& x) {
        auto ren = [&](const char* o, const char* n) { auto i = m.find(o); if (i != m.end()) { auto v = i->second; m.erase(i); m.insert({n, v}); } };
        switch (x.c.op)
        {
          case 0: m.insert({"/a", x.c.arg}); return true;
          case 1: m.insert({"/b", x.c.arg}); return true;
          case 2: m.erase("/a"); return true;
          case 3: return x.r.res == get(m, "/a");
          case 4: { long v = get(m, "/a"); m.erase("/a"); return x.r.res == v; }
          case 5: ren("/a", "/b"); return true;
          case 6: return x.r.res == get(m, "/b");
          case 7: ren("/b", "/a"); return true;
        }
        return false;
      };
      M m0; if (init) m0["/a"] = 9;
      if (!linear<M>(h, 0, m0, apply, [&](const M& m) { return get(m, "/a") == fa && get(m, "/b") == fb; })) return mc::cat("no order of the calls explains ", show(h, names), "final a=", fa, " b=", fb);
      return {};
    });
  });
}
}
// ---------------------------------------------------------------- children of a node
namespace kids
{
enum { CREATE, ADDN, FIND, NAMES, RMF, RMFP, RENAME, HAS, MINE, CLEAR, COPY, INST, LOCKED, NOPS };
static const char* const names[] = {"create a", "add a", "find a", "names", "remove f", "remove &f", "rename own a", "has f", "remove own", "clear", "copy", "is_root_instance f", "children"};
struct obs { void created(const node_base& n) { mcrt::log(CREATED); } void removing(const node_base& n) { mcrt::log(REMOVING); } };
using M = std::vector<std::string>;
static std::string all(const M& m) { std::string s; for (auto& x : m) s += x + ","; return s; }
static void part(mc::ctx& c, const std::vector<int>& shape, int pre)
{
  programs(shape, NOPS, [&](prog p) {
    bool ren = false, clr = false, own = false; int nren = 0;
    for (auto& t : p) { int made = 0; for (auto& x : t) { ren |= x.op == RENAME; nren += x.op == RENAME; clr |= x.op == CLEAR; own |= x.op == MINE; if (x.op == CREATE || x.op == ADDN) made++; if (x.op == MINE && made-- <= 0) return; } }
    if (p.size() > 2) for (auto& x : p[2]) if (x.op == RENAME) return;
    if (clr && (ren || own || shape.size() > 2)) return; // a thread may not use a node that another one deletes
    if (clr) for (auto& t : p) for (auto& x : t) if (x.op == CREATE || x.op == ADDN || x.op == RMFP || x.op == HAS || x.op == INST) return;
    bool rmf = false, deref = false; for (auto& t : p) for (auto& x : t) { rmf |= x.op == RMF || x.op == RMFP || x.op == CLEAR; deref |= x.op == INST; }
    if (rmf && deref) return;
    auto program = [&] {
      generic_device dev{std::make_unique<proto>(), "d"}; auto& root = dev.get_root_node();
      auto f = root.create_child("f"); node_base* g[2]{root.create_child("g"), root.create_child("h")};
      obs o; dev.on_node_created.connect<&obs::created>(&o); dev.on_node_removing.connect<&obs::removing>(&o);
      std::vector<std::thread> th;
      for (size_t t = 0; t < p.size(); t++) th.emplace_back([&, t] {
        std::vector<node_base*> mine;
        for (size_t k = 0; k < p[t].size(); k++)
        {
          std::unique_ptr<node_base> fresh; if (p[t][k].op == ADDN) fresh = std::make_unique<generic_node>("a", dev, root);
          doing(t, k, [&](rec& r) {
            switch (p[t][k].op)
            {
              case CREATE: { auto n = root.create_child("a"); r.res = !!n; mine.push_back(n); break; }
              case ADDN: { auto n = root.add_child(std::move(fresh)); r.res = !!n; mine.push_back(n); break; }
              case FIND: r.res = !!root.find_child("a"); break;
              case NAMES: { for (auto& s : root.children_names()) r.text += s + ","; break; }
              case LOCKED: for (auto& n : root.children()) r.text += n->get_name() + ","; break;
              case RMF: r.res = root.remove_child("f"); break;
              case RMFP: r.res = root.remove_child(*f); break;
              case RENAME: g[t]->set_name("a"); break;
              case HAS: r.res = root.has_child(*f); break;
              case MINE: { auto n = mine.back(); mine.pop_back(); r.res = n ? root.remove_child(*n) : 2; break; }
              case CLEAR: root.clear_children(); break;
              case COPY: r.res = root.children_copy().size(); break;
              case INST: r.res = root.is_root_instance(*f); break;
            }
          });
        }
      });
      for (auto& x : th) x.join();
      for (auto n : root.children_names()) R[7][0].text += n + ",";
      dev.on_node_created.disconnect<&obs::created>(&o); dev.on_node_removing.disconnect<&obs::removing>(&o);
    };
    auto wrapped = [&] { R[7][0] = {}; program(); };
    explore(c, "kids " + show(p, names), wrapped, pre, [&]() -> std::string {
      auto h = history(p); auto fin = R[7][0].text;
      // the model: ids in order; an id is (name); own nodes are found by the call that made them
      struct S { std::vector<std::pair<int, std::string>> v; int cr = 0, rm = 0; };
      auto has = [](S& s, const std::string& n) { for (auto& x : s.v) if (x.second == n) return true; return false; };
      auto instance = [&](S& s) { if (!has(s, "a")) return std::string("a"); int mx = 0; for (auto& x : s.v) if (x.second.rfind("a.", 0) == 0) mx = std::max(mx, std::stoi(x.second.substr(2))); return mc::cat("a.", mx + 1); };
      auto drop = [](S& s, int id) { for (size_t i = 0; i < s.v.size(); i++) if (s.v[i].first == id) { s.v.erase(s.v.begin() + i); s.rm++; return true; } return false; };
      std::map<const hist*, int> owner; // MINE -> id of the node of this thread
      std::vector<std::vector<int>> st(p.size());
      for (auto& x : h) { int id = &x - &h[0] + 10; if (x.c.op == CREATE || x.c.op == ADDN) st[x.thread].push_back(id); if (x.c.op == MINE) { owner[&x] = st[x.thread].back(); st[x.thread].pop_back(); } }
      auto apply = [&](S& s, const hist& x) {
        int id = &x - &h[0] + 10;
        switch (x.c.op)
        {
          case CREATE: s.v.push_back({id, instance(s)}); s.cr++; return x.r.res == 1;
          case ADDN: { bool ok = !has(s, "a"); if (ok) { s.v.push_back({id, "a"}); s.cr++; } return x.r.res == ok; }
          case FIND: return x.r.res == has(s, "a");
          case LOCKED: case NAMES: { std::string t; for (auto& y : s.v) t += y.second + ","; return t == x.r.text; }
          case RMF: case RMFP: return x.r.res == drop(s, 1);
          case RENAME: { for (auto& y : s.v) if (y.first == 2 + x.thread) { y.second = ""; y.second = instance(s); } return true; }
          case HAS: { bool b = false; for (auto& y : s.v) b |= y.first == 1; return x.r.res == b; }
          case MINE: { auto i = owner.find(&x); bool made = i != owner.end() && h[i->second - 10].r.res == 1; if (!made) return x.r.res == 2; return (x.r.res == 1) == drop(s, i->second); }
          case CLEAR: s.rm += s.v.size(); s.v.clear(); return true;
          case COPY: return x.r.res == (long)s.v.size();
          case INST: return x.r.res == 0;
        }
        return false;
      };
      int cr = 0, rm = 0; for (int i = 0; i < mcrt::log_size(); i++) { cr += mcrt::log_at(i).kind == CREATED; rm += mcrt::log_at(i).kind == REMOVING; }
      S s0; s0.v = {{1, "f"}, {2, "g"}, {3, "h"}};
      if (!linear<S>(h, 0, s0, apply, [&](const S& s) { std::string t; for (auto& y : s.v) t += y.second + ","; return t == fin && s.cr == cr && s.rm == rm; }))
        return mc::cat("no order of the calls explains ", show(h, names), "final children ", fin, " created ", cr, " removed ", rm);
      return {};
    });
  });
}
}
// ---------------------------------------------------------------- patterns compiled by several threads
static void patterns(mc::ctx& c)
{
  c.in("patterns", "two threads build paths out of every pair of five patterns and match them; every schedule with up to 2 preemptions");
  static const char* pats[] = {"d:/a*", "d:/a*", "d:/{a,b}.1", "d:/?", "//a!"};
  for (int i = 0; i < 5; i++) for (int j = i; j < 5; j++)
  {
    static int serial = 0; int sal = 0;
    explore(c, mc::cat("patterns ", i, " ", j), [&] {
      generic_device dev{std::make_unique<proto>(), "d"}; auto& root = dev.get_root_node(); for (auto n : {"a", "a.1", "b", "b.1"}) root.create_child(n);
      auto f = [&](int t, const char* pat) { doing(t, 0, [&](rec& r) { auto p = traversal::make_path(pat); r.res = p ? 1 : 0; if (p) { std::vector<node_base*> v{&root}; traversal::apply(*p, v); r.res = 1 + v.size(); } }); };
      std::thread a([&] { f(0, pats[i]); }), b([&] { f(1, pats[j]); }); a.join(); b.join();
      f(2, pats[i]); f(3, pats[j]);
    }, 2, [&]() -> std::string { if (R[0][0].res != R[2][0].res || R[1][0].res != R[3][0].res) return mc::cat("matched ", R[0][0].res, " and ", R[1][0].res, " nodes, alone ", R[2][0].res, " and ", R[3][0].res); return {}; });
    (void)serial; (void)sal;
  }
}
static void body(mc::ctx& c)
{
  bool th = c.thorough(); const char* B = "threads x calls in every combination; every schedule with up to 2 preemptions: results, final state, notifications and observation explained by an order of the calls; no data race, no use after free, no deadlock";
  c.in("values and observers", mc::cat("one int parameter, with and without a permanent observer, calls {set, push, set_quiet, set of a float, value, add and remove a callback, count}, 2 threads x 2 calls and 3 x 1", th ? " and 2 x 3" : "", ": ", B));
  for (int perm = 0; perm < 2; perm++) { vals::part(c, perm, {2, 2}, 2); vals::part(c, perm, {1, 1, 1}, 2); if (th) vals::part(c, perm, {3, 2}, 2); }
  vals::lists(c, 2);
  c.in("listened addresses", mc::cat("the map of observed addresses: insert, erase, find, take, rename over two addresses, 2 threads x 2 calls and 3 x 1: ", B));
  listened::part(c, {2, 2}, 2); listened::part(c, {1, 1, 1}, 3); if (th) listened::part(c, {2, 2, 1}, 2);
  c.in("children", mc::cat("children of a node: create, add, find, names, remove by name and by node, rename, has, clear, copy, 2 threads x 2 calls and 3 x 1: ", B));
  kids::part(c, {2, 2}, 2); kids::part(c, {1, 1, 1}, 2); if (th) kids::part(c, {2, 1, 1}, 2);
  patterns(c);
}
MC_MAIN(body)
