// C08: execution of intervals and scenarios against a model that works instant by instant.
#include "mc.hpp"
#include <algorithm>
#include <ossia/dataflow/graph_node.hpp>
#include <ossia/dataflow/node_process.hpp>
#include <ossia/editor/expression/expression.hpp>
#include <ossia/editor/scenario/scenario.hpp>
#include <ossia/editor/scenario/time_event.hpp>
#include <ossia/editor/scenario/time_interval.hpp>
#include <ossia/editor/scenario/time_sync.hpp>
#include <ossia/network/generic/generic_device.hpp>
#include <ossia/network/generic/generic_parameter.hpp>
#include <iostream>
using namespace ossia;
using tv = ossia::time_value;
using ST = time_event::status;
struct rec : time_process
{
  std::vector<std::array<int64_t, 3>> toks; int starts{}, stops{}; double speed = 1.;
  void state(const token_request& t) override { if (t.date != t.prev_date) { toks.push_back({t.prev_date.impl, t.date.impl, t.offset.impl}); speed = t.speed; } }
  void start() override { starts++; }
  void stop() override { stops++; }
  void offset_impl(tv) override {}
  void transport_impl(tv) override {}
  std::string str() const { std::string s; for (auto& t : toks) s += mc::cat(t[0], "-", t[1], "@", t[2], " "); return s; }
};
struct world
{
  std::shared_ptr<time_sync> sn = std::make_shared<time_sync>(), en = std::make_shared<time_sync>();
  std::shared_ptr<time_event> se, ee;
  std::shared_ptr<time_interval> root;
  std::shared_ptr<scenario> sc = std::make_shared<scenario>();
  std::shared_ptr<time_event> first;
  static expression_ptr T(bool b) { return b ? expressions::make_expression_true() : expressions::make_expression_false(); }
  world()
  {
    se = std::make_shared<time_event>(time_event::exec_callback{}, *sn, T(true)); ee = std::make_shared<time_event>(time_event::exec_callback{}, *en, T(true));
    sn->insert(sn->get_time_events().end(), se); en->insert(en->get_time_events().end(), ee);
    root = time_interval::create({}, *se, *ee, tv{tv::infinity}, 0_tv, tv{tv::infinity});
    root->add_time_process(sc);
    auto s = sc->get_start_time_sync();
    first = std::make_shared<time_event>(time_event::exec_callback{}, *s, T(true));
    s->insert(s->get_time_events().end(), first);
  }
  ~world() { root->cleanup(); se->cleanup(); ee->cleanup(); }
  std::shared_ptr<time_event> sync(bool cond = true)
  {
    auto n = std::make_shared<time_sync>(); n->set_expression(T(true));
    auto e = std::make_shared<time_event>(time_event::exec_callback{}, *n, T(cond));
    n->insert(n->get_time_events().end(), e); sc->add_time_sync(n);
    return e;
  }
  std::shared_ptr<time_interval> itv(time_event& a, time_event& b, int64_t nom, int64_t mi, int64_t ma, std::shared_ptr<rec>* r = nullptr)
  {
    auto i = time_interval::create({}, a, b, tv{nom}, tv{mi}, tv{ma}); sc->add_time_interval(i);
    if (r) { *r = std::make_shared<rec>(); i->add_time_process(*r); }
    return i;
  }
  static token_request tk() { token_request t; t.tempo = 120; t.musical_end_position = 1.; return t; }
  void tick(int64_t n) { root->tick(tv{n}, tk()); }
};
static int st(time_event& e) { return int(e.get_status()) & 3; }
// tokens expected of an interval that lives over [a,b) of the timeline, for a slicing of it
static std::string expect(int64_t a, int64_t b, const std::vector<size_t>& parts)
{
  std::string s; int64_t at = 0;
  for (auto n : parts)
  {
    int64_t lo = std::max<int64_t>(at, a), hi = std::min<int64_t>(at + n, b);
    if (lo < hi) s += mc::cat(lo - a, "-", hi - a, "@", lo - at, " ");
    at += n;
  }
  return s;
}
static void graphs(mc::ctx& c)
{
  const int T = c.thorough() ? 5 : 4;
  c.in("graphs", mc::cat("every scenario of up to 3 syncs with coherent dates <= ", T, ", every set of intervals between them, every condition, every slicing of time in ticks"));
  for (int n = 1; n <= 3; n++)
    mc::words(T, n, [&](const std::vector<int>& dd) {
      for (int i = 0; i + 1 < n; i++) if (dd[i] > dd[i + 1]) return;
      std::vector<int> d{0}; for (int x : dd) d.push_back(x + 1);
      std::vector<std::pair<int, int>> pairs; for (int j = 1; j <= n; j++) for (int i = 0; i < j; i++) if (d[i] < d[j]) pairs.push_back({i, j});
      for (unsigned m = 1; m < (1u << pairs.size()); m++)
      {
        std::vector<int> inc(n + 1, 0); for (size_t k = 0; k < pairs.size(); k++) if (m >> k & 1) inc[pairs[k].second]++;
        if (std::count(inc.begin() + 1, inc.end(), 0)) continue;
        for (unsigned cond = 0; cond < (1u << n); cond++)
          for (auto& parts : mc::compositions(d[n] + 1))
          {
            auto id = mc::cat("g ", mc::join(d), " e", m, " c", cond, " ", mc::join(parts));
            if (!c.want(id)) continue;
            c.state(id); c.trace();
            std::vector<bool> hap{true}; for (int j = 1; j <= n; j++) { bool any = false; for (size_t k = 0; k < pairs.size(); k++) if ((m >> k & 1) && pairs[k].second == j && hap[pairs[k].first]) any = true; hap.push_back(any && (cond >> (j - 1) & 1)); }
            world w; std::vector<std::shared_ptr<time_event>> ev{w.first}; std::vector<int> fired(n + 1), disp(n + 1);
            for (int j = 1; j <= n; j++) { ev.push_back(w.sync(cond >> (j - 1) & 1)); ev[j]->set_callback([&, j](ST s) { if (s == ST::HAPPENED) fired[j]++; if (s == ST::DISPOSED) disp[j]++; }); }
            std::vector<std::shared_ptr<rec>> r(pairs.size()); std::vector<std::shared_ptr<time_interval>> it(pairs.size());
            for (size_t k = 0; k < pairs.size(); k++) if (m >> k & 1) { int64_t L = d[pairs[k].second] - d[pairs[k].first]; it[k] = w.itv(*ev[pairs[k].first], *ev[pairs[k].second], L, L, L, &r[k]); }
            w.root->start(); w.root->tick_current(0_tv, w.tk());
            int64_t at = 0; bool okd = true; std::string when;
            for (auto p : parts)
            {
              c.step(); w.tick(p); at += p;
              for (int j = 1; j <= n; j++) { bool now = st(*ev[j]) == int(ST::HAPPENED); if (now != (hap[j] && d[j] <= at)) { okd = false; when += mc::cat("event ", j, now ? " happened" : " did not happen", " by ", at, "; "); } }
              for (size_t k = 0; k < pairs.size(); k++) if (m >> k & 1) { bool running = hap[pairs[k].first] && at < d[pairs[k].second]; int64_t x = running ? std::max<int64_t>(0, at - d[pairs[k].first]) : 0; if (it[k]->get_date().impl != x) { okd = false; when += mc::cat("interval ", pairs[k].first, ">", pairs[k].second, " is at ", it[k]->get_date().impl, " instead of ", x, "; "); } }
            }
            c.check(okd, id, when);
            for (int j = 1; j <= n; j++)
            {
              bool live = false; for (size_t k = 0; k < pairs.size(); k++) if ((m >> k & 1) && pairs[k].second == j) live |= hap[pairs[k].first];
              c.check(fired[j] == (hap[j] ? 1 : 0), mc::cat("ev ", id, j), mc::cat("event ", j, " happened ", fired[j], " times"));
              c.check(disp[j] == (hap[j] ? 0 : 1), mc::cat("dis ", id, j), mc::cat("event ", j, " disposed ", disp[j], " times, happens: ", hap[j], ", reached: ", live));
            }
            for (size_t k = 0; k < pairs.size(); k++)
              if (m >> k & 1)
              {
                auto e = hap[pairs[k].first] ? expect(d[pairs[k].first], d[pairs[k].second], parts) : "";
                c.outcome(e);
                c.check(r[k]->str() == e, mc::cat("tok ", id, " i", pairs[k].first, pairs[k].second), mc::cat("interval ", pairs[k].first, ">", pairs[k].second, " played ", r[k]->str(), " expected ", e));
                c.check(r[k]->starts == (hap[pairs[k].first] ? 1 : 0), mc::cat("start ", id, k), mc::cat("started ", r[k]->starts, " times"));
              }
          }
      }
    });
}
static void triggers(mc::ctx& c)
{
  const int N = c.thorough() ? 9 : 7;
  c.in("triggers", mc::cat("one interval with every (min,max) <= 4 (max may be infinite) then a fixed one: every slicing of ", N, " units and every tick at which the trigger becomes true, by expression or by request"));
  for (int mi = 0; mi <= 4; mi++) for (int ma : {1, 2, 3, 4, 99}) if (mi <= ma) for (int how = 0; how < 2; how++)
    for (auto& parts : mc::compositions(N)) for (int at = 0; at <= (int)parts.size(); at++)
    {
      auto id = mc::cat("t ", mi, "..", ma, how ? " req " : " expr ", at, " ", mc::join(parts));
      if (!c.want(id)) continue;
      c.state(id); c.trace();
      ossia::net::generic_device dev; auto nd = dev.get_root_node().create_child("x"); auto prm = nd->create_parameter(val_type::BOOL); prm->push_value(false);
      {
      world w; auto e1 = w.sync(), e2 = w.sync(); std::shared_ptr<rec> r1, r2;
      const int64_t M = ma == 99 ? tv::infinity : ma;
      w.itv(*w.first, *e1, ma == 99 ? std::max(mi, 2) : ma, mi, M, &r1); w.itv(*e1, *e2, 2, 2, 2, &r2);
      auto& sy = e1->get_time_sync();
      sy.set_expression(expressions::make_expression_atom(ossia::destination(*prm), expressions::comparator::EQUAL, true));
      int entered = 0, left = 0, trig = 0, fin = 0; std::optional<bool> byMax;
      sy.entered_evaluation.add_callback([&] { entered++; }); sy.left_evaluation.add_callback([&] { left++; }); sy.triggered.add_callback([&] { trig++; }); sy.finished_evaluation.add_callback([&](bool b) { fin++; byMax = b; });
      w.root->start(); w.root->tick_current(0_tv, w.tk());
      std::string x1, x2; int64_t x = 0, y = -1; bool on = false, mx = false, ev = mi == 0; int t = 0; bool ok = true; std::string why;
      for (auto p : parts)
      {
        c.step();
        if (t == at) { on = how == 0 || ev; /* a request made before the sync may be triggered is ignored */ if (how == 0) prm->push_value(true); else sy.start_trigger_request(); }
        w.tick(p);
        int64_t n = p;
        if (y < 0)
        {
          int64_t go = std::min<int64_t>(n, M - x), from = x; x += go; x1 += go ? mc::cat(from, "-", x, "@0 ") : "";
          if (x >= mi) ev = true;
          if (x >= M) { mx = true; y = 0; int64_t rest = n - go, g2 = std::min<int64_t>(rest, 2); if (g2) x2 += mc::cat("0-", g2, "@", go, " "); y = g2; }
          else if (x >= mi && on) y = 0;
        }
        else if (y < 2) { int64_t g = std::min<int64_t>(n, 2 - y); x2 += mc::cat(y, "-", y + g, "@0 "); y += g; }
        bool h1 = st(*e1) == 2, h2 = st(*e2) == 2;
        if (h1 != (y >= 0) || h2 != (y == 2)) { ok = false; why += mc::cat("after tick ", t, ": first sync ", h1, "/", y >= 0, " second ", h2, "/", y == 2, "; "); }
        t++;
      }
      c.outcome(x1 + "|" + x2);
      c.check(ok, id, why);
      c.check(r1->str() == x1 && r2->str() == x2, "tok " + id, mc::cat("played ", r1->str(), "| ", r2->str(), "expected ", x1, "| ", x2));
      c.check(trig == (y >= 0) && fin == trig && (!byMax || *byMax == mx) && entered == (ev ? 1 : 0) && left == 0, "cb " + id, mc::cat("triggered ", trig, " finished ", fin, " entered ", entered, " left ", left, " by max ", byMax ? *byMax : 2));
      }
    }
}
static void speeds(mc::ctx& c)
{
  const int N = 8;
  c.in("speeds", mc::cat("two successive intervals, each at speed 0.5, 1 or 2, and a parent at these speeds: every slicing of ", N, " units in ticks of at least 2 (even)"));
  for (double s1 : {0.5, 1., 2.}) for (double s2 : {0.5, 1., 2.}) for (double sp : {1., 2.}) for (int L1 : {1, 3, 4}) for (int L2 : {2, 5})
    for (auto& pp : mc::compositions(N))
    {
      auto id = mc::cat("s ", s1, " ", s2, " parent ", sp, " L", L1, ",", L2, " ", mc::join(pp));
      if (!c.want(id)) continue;
      c.state(id); c.trace();
      world w; auto e1 = w.sync(), e2 = w.sync(); std::shared_ptr<rec> r1, r2;
      // lengths so that every boundary is a whole number of time units
      auto i1 = w.itv(*w.first, *e1, L1 * 4, L1 * 4, L1 * 4, &r1), i2 = w.itv(*e1, *e2, L2 * 4, L2 * 4, L2 * 4, &r2);
      i1->set_speed(s1); i2->set_speed(s2); w.root->set_speed(sp);
      w.root->start(); w.root->tick_current(0_tv, w.tk());
      std::string x1, x2; double at = 0; const double D1 = L1 * 4 / s1, D2 = D1 + L2 * 4 / s2; // in scenario time
      for (auto p : pp)
      {
        c.step(); w.tick(p * 4); const double n = p * 4 * sp;
        auto seg = [&](double a, double b, double s) -> std::string { double lo = std::max(at, a), hi = std::min(at + n, b); return lo < hi ? mc::cat((lo - a) * s, "-", (hi - a) * s, "@", lo - at, " ") : ""; };
        x1 += seg(0, D1, s1); x2 += seg(D1, D2, s2); at += n;
      }
      c.outcome(x1 + "|" + x2);
      c.check(r1->str() == x1, "1" + id, mc::cat("first played ", r1->str(), "expected ", x1)); c.check(r2->str() == x2, "2" + id, mc::cat("second played ", r2->str(), "expected ", x2));
    }
  c.in("backwards", "one interval played forward then backward at every pair of tick lengths: it never leaves [0, duration]");
  for (int f = 1; f <= 6; f++) for (int b = 1; b <= 9; b++) for (int b2 = 1; b2 <= 4; b2++)
  {
    auto id = mc::cat("b ", f, " ", b, " ", b2);
    if (!c.want(id)) continue;
    c.state(id); c.trace();
    world w; auto e1 = w.sync(); std::shared_ptr<rec> r1; auto i1 = w.itv(*w.first, *e1, 10, 10, 10, &r1);
    w.root->start(); w.root->tick_current(0_tv, w.tk()); w.tick(f); i1->set_speed(-1.);
    int64_t x = f;
    for (int n : {b, b2}) { c.step(); w.tick(n); x = std::max<int64_t>(0, x - n); c.check(i1->get_date().impl == x, mc::cat(id, " after ", n), mc::cat("is at ", i1->get_date().infinite() ? "inf" : mc::cat(i1->get_date().impl), " expected ", x)); }
    i1->set_speed(1.); w.tick(2); c.check(i1->get_date().impl == x + 2, "fw" + id, mc::cat("then at ", i1->get_date().impl));
  }
}
static void nested(mc::ctx& c)
{
  const int N = 7;
  c.in("nested", mc::cat("a scenario inside an interval inside a scenario (durations 1-3), stopped and restarted after every prefix: every slicing of ", N, " units"));
  for (int a = 1; a <= 3; a++) for (int l = 1; l <= 3; l++) for (int ia = 1; ia <= 3; ia++) for (auto& parts : mc::compositions(N))
  {
    auto id = mc::cat("n ", a, " ", l, " ", ia, " ", mc::join(parts));
    if (!c.want(id)) continue;
    c.state(id); c.trace();
    world w; auto e1 = w.sync(), e2 = w.sync(); std::shared_ptr<rec> r1, r2, r3, r4;
    w.itv(*w.first, *e1, a, a, a, &r1); auto outer = w.itv(*e1, *e2, l, l, l, &r2);
    auto in = std::make_shared<scenario>(); auto ss = in->get_start_time_sync(); auto f = std::make_shared<time_event>(time_event::exec_callback{}, *ss, w.T(true)); ss->insert(ss->get_time_events().end(), f);
    auto mid = std::make_shared<time_sync>(); mid->set_expression(w.T(true)); auto me = std::make_shared<time_event>(time_event::exec_callback{}, *mid, w.T(true)); mid->insert(mid->get_time_events().end(), me); in->add_time_sync(mid);
    auto en = std::make_shared<time_sync>(); en->set_expression(w.T(true)); auto ne = std::make_shared<time_event>(time_event::exec_callback{}, *en, w.T(true)); en->insert(en->get_time_events().end(), ne); in->add_time_sync(en);
    auto i1 = time_interval::create({}, *f, *me, tv{ia}, tv{ia}, tv{ia}), i2 = time_interval::create({}, *me, *ne, tv{2}, tv{2}, tv{2}); in->add_time_interval(i1); in->add_time_interval(i2);
    r3 = std::make_shared<rec>(); r4 = std::make_shared<rec>(); i1->add_time_process(r3); i2->add_time_process(r4);
    outer->add_time_process(in);
    for (size_t cut = 0; cut <= parts.size(); cut++)
    {
      for (auto& r : {r1, r2, r3, r4}) r->toks.clear();
      w.root->start(); w.root->tick_current(0_tv, w.tk());
      std::vector<size_t> run(parts.begin(), cut == parts.size() ? parts.end() : parts.begin() + cut);
      for (auto p : run) { c.step(); w.tick(p); }
      auto x = [&](int lo, int hi) { return expect(lo, hi, run); };
      auto in_ = [&](int lo, int hi) { return expect(std::min(a + lo, a + l), std::min(a + hi, a + l), run); };
      c.outcome(r3->str());
      c.check(r1->str() == x(0, a) && r2->str() == x(a, a + l), mc::cat("o ", id, " cut", cut), mc::cat("outer ", r1->str(), "| ", r2->str()));
      c.check(r3->str() == in_(0, ia) && r4->str() == in_(ia, ia + 2), mc::cat("i ", id, " cut", cut), mc::cat("inner ", r3->str(), "| ", r4->str(), "expected ", in_(0, ia), "| ", in_(ia, ia + 2)));
      w.root->stop();
      c.check(st(*e1) == 0 && st(*e2) == 0 && st(*me) == 0, mc::cat("r ", id, " cut", cut), "events keep their status after stop");
    }
  }
}
static void body(mc::ctx& c) { graphs(c); triggers(c); speeds(c); nested(c); }
MC_MAIN(body)
