// Rate-limited devices: every interleaving of the sending thread with the threads that push, sleep, remove
// parameters and change the period, in virtual time.
#include "mc.hpp"
#include "mcrt.hpp"
#include <ossia/network/base/node.hpp>
#include <ossia/network/base/node_functions.hpp>
#include <ossia/network/base/parameter.hpp>
#include <ossia/network/base/protocol.hpp>
#include <ossia/network/generic/generic_device.hpp>
#include <ossia/network/generic/generic_parameter.hpp>
#include <ossia/network/rate_limiting_protocol.hpp>
using namespace ossia; using namespace ossia::net; using namespace std::literals;
enum ev { SENT, GONE, RAW, OBS, PULL, UPD };
static parameter_base* prm[3];
static int idx(const parameter_base& p) { for (int i = 0; i < 3; i++) if (prm[i] == &p) return i; return -1; }
struct sink : protocol_base
{
  int slow = 0;
  sink() : protocol_base{flags{}} {}
  bool pull(parameter_base& p) override { mcrt::log(PULL, idx(p)); return false; }
  bool push(const parameter_base& p, const ossia::value& v) override
  {
    auto i = v.target<int>(); mcrt::log(SENT, idx(p), i && p.get_node().get_name().size() == 1 ? *i : -1);
    if (slow) std::this_thread::sleep_for(std::chrono::milliseconds(slow));
    return true;
  }
  bool push_raw(const full_parameter_data&) override { mcrt::log(RAW); return true; }
  bool observe(parameter_base& p, bool b) override { mcrt::log(OBS, idx(p), b); return true; }
  bool update(node_base&) override { mcrt::log(UPD); return true; }
};
// user actions: 0-1 push to parameter 0-1, 2 short sleep, 3 long sleep, 4 remove parameter 1, 5 longer period
static const char* const names[] = {"push a", "push b", "sleep 2ms", "sleep 12ms", "remove b", "period 20ms"};
struct plan { std::vector<std::vector<int>> t; int period, slow; bool single; };
static int pushed[2][64], npushed[2]; static bool removed;
static void run(mc::ctx& c, const std::string& id, const plan& p, int pre)
{
  if (!c.want(id)) return;
  static std::string err; err.clear();
  auto program = [&] {
    npushed[0] = npushed[1] = 0; removed = false;
    {
      auto in = std::make_unique<sink>(); in->slow = p.slow;
      auto rl = std::make_unique<rate_limiting_protocol>(std::chrono::milliseconds(p.period), std::move(in)); auto& lim = *rl;
      generic_device dev{std::move(rl), "d"}; auto& root = dev.get_root_node();
      prm[0] = create_node(root, "/a").create_parameter(val_type::INT); prm[1] = create_node(root, "/b").create_parameter(val_type::INT); prm[2] = nullptr;
      auto act = [&](const std::vector<int>& w) {
        for (int x : w) switch (x)
        {
          case 0: case 1: { if (x == 1 && removed) break; mcrt::point(); int v = ++npushed[x]; pushed[x][v - 1] = v * 10 + x; prm[x]->push_value(ossia::value{v * 10 + x}); break; }
          case 2: std::this_thread::sleep_for(2ms); break;
          case 3: std::this_thread::sleep_for(12ms); break;
          case 4: if (!removed) { removed = true; root.remove_child("b"); mcrt::log(GONE, 1); } break;
          case 5: lim.set_duration(20ms); break;
        }
      };
      if (p.t.size() == 1) act(p.t[0]);
      else { std::vector<std::thread> th; for (auto& w : p.t) th.emplace_back([&] { act(w); }); for (auto& x : th) x.join(); }
      // leave it the time of a few periods
      for (int i = 0; i < 8; i++) std::this_thread::sleep_for(std::chrono::milliseconds(30));
      mcrt::log(GONE, 2);
    }
  };
  std::string bad, where;
  auto s = mcrt::explore(program, pre, c.thorough() ? 600000 : 80000, [&](const std::string& sched) {
    c.state(id + sched); where = sched;
    int period = p.period; bool changed = false; for (auto& t : p.t) for (int x : t) changed |= x == 5;
    for (int k = 0; k < 2 && bad.empty(); k++)
    {
      int last = 0; std::vector<int64_t> at; bool gone = false; std::string seq;
      for (int i = 0; i < mcrt::log_size(); i++)
      {
        auto& e = mcrt::log_at(i);
        if (e.kind == GONE && e.a == k) gone = true;
        if (e.kind != SENT) continue;
        if (e.a == -1) bad = "a message for an unknown parameter was sent";
        if (e.a != k) continue;
        seq += mc::cat(e.b, "@", e.time / 1000000, " ");
        if (e.b % 10 != k || e.b / 10 < 1 || e.b / 10 > npushed[k]) bad = mc::cat("the value ", e.b, " was never pushed to parameter ", k);
        else if (e.b / 10 <= last) bad = mc::cat("parameter ", k, " was sent ", e.b, " after ", last * 10 + k);
        if (gone) bad = mc::cat("parameter ", k, " is sent after its removal");
        last = e.b / 10; at.push_back(e.time);
      }
      if (bad.empty() && !(k == 1 && removed) && last != npushed[k]) bad = mc::cat("the last value pushed to parameter ", k, " is ", npushed[k] * 10 + k, ", the last one sent ", last * 10 + k, ": ", seq);
      // a late message may be caught up once: j + 2 messages take at least j periods (rounded to the ms at each pass)
      for (size_t a = changed ? 5 : 0; a < at.size(); a++) for (size_t b = a + 3; b < at.size(); b++)
        if (at[b] - at[a] < (int64_t(b - a - 2) * (changed ? 20 : period) - int64_t(b - a)) * 1000000) bad = mc::cat(b - a + 1, " messages within ", (at[b] - at[a]) / 1e6, " ms for a period of ", changed ? 20 : period, ": ", seq);
    }
    return bad.empty();
  });
  c.step(s.points); c.cur->traces += s.schedules;
  if (!s.complete) c.incomplete(mc::cat(id, ": ", s.schedules));
  if (!s.race.empty()) c.fail("race " + id, s.race + " under schedule " + s.race_schedule);
  if (!bad.empty()) c.fail("sent " + id, bad + " under schedule " + where);
}
static std::string show(const std::vector<int>& w) { std::string s; for (int x : w) s += mc::cat(s.empty() ? "" : "; ", names[x]); return s; }
static void body(mc::ctx& c)
{
  const int N = c.thorough() ? 5 : 4; mcrt::sleep_budget(3);
  c.in("one pusher", mc::cat("one thread: every sequence of up to ", N, " actions of {push a, push b, sleep 2 ms, sleep 12 ms, remove b}, period 5 ms; every schedule with up to 2 preemptions of the sending thread, up to 3 wake-ups of sleepers at any point"));
  for (int n = 1; n <= N; n++) mc::words(5, n, [&](auto& w) {
    int np = 0, nr = 0; for (int x : w) { np += x < 2; nr += x == 4; } if (!np || nr > 1 || w.back() > 1 && w.back() != 4) return;
    run(c, "one " + show(w), {{w}, 5, 0, true}, n > 3 ? 1 : 2);
  });
  mcrt::sleep_budget(c.thorough() ? 3 : 2);
  c.in("two pushers", "two threads, one per parameter, up to 2 actions each; also a sink that takes 7 or 12 ms per message");
  for (int slow : {0, 7, 12}) for (auto& a : std::vector<std::vector<int>>{{0}, {0, 0}, {0, 2, 0}, {0, 3, 0}}) for (auto& b : std::vector<std::vector<int>>{{1}, {1, 1}, {1, 2, 1}, {1, 4}, {4}, {1, 3, 4}})
    run(c, mc::cat("two slow", slow, " ", show(a), " || ", show(b)), {{a, b}, 5, slow, true}, c.thorough() && !slow && a.size() + b.size() <= 2 ? 2 : 1);
  mcrt::sleep_budget(3);
  c.in("cadence", "long runs of one push per 2 or 12 ms, periods 2, 5 and 10 ms, sinks of 0, 3 and 7 ms, with and without a longer period set after two pushes");
  for (int period : {2, 5, 10}) for (int slow : {0, 3, 7}) for (int chg : {0, 1}) for (int z : {2, 3})
  {
    std::vector<int> w; for (int i = 0; i < 24; i++) { w.push_back(0); w.push_back(z); if (chg && i == 1) w.push_back(5); }
    run(c, mc::cat("cadence ", period, " ", slow, " ", chg, " ", z), {{w}, period, slow, true}, 0);
  }
  if (c.want("forward"))
  {
    c.in("forwarding", "pull, observe, update and raw messages reach the protocol underneath at once");
    std::string bad;
    auto s = mcrt::explore([&] {
      generic_device dev{std::make_unique<rate_limiting_protocol>(5ms, std::make_unique<sink>()), "d"}; auto& root = dev.get_root_node();
      prm[0] = create_node(root, "/a").create_parameter(val_type::INT); prm[1] = prm[2] = nullptr;
      auto has = [](int k, int a, int b) { for (int i = 0; i < mcrt::log_size(); i++) { auto& e = mcrt::log_at(i); if (e.kind == k && e.a == a && e.b == b) return true; } return false; };
      prm[0]->pull_value(); if (!has(PULL, 0, 0)) bad = "pull not forwarded";
      auto it = prm[0]->add_callback([](auto&) {}); if (!has(OBS, 0, 1)) bad = "observe not forwarded";
      prm[0]->remove_callback(it); if (!has(OBS, 0, 0)) bad = "unobserve not forwarded";
      dev.get_protocol().update(root); if (!has(UPD, 0, 0)) bad = "update not forwarded";
      full_parameter_data d; dev.get_protocol().push_raw(d); if (!has(RAW, 0, 0)) bad = "raw message not forwarded";
    }, 1, 1000, [&](auto&) { return bad.empty(); });
    c.step(s.points); c.cur->traces += s.schedules; c.state("forward");
    if (!bad.empty()) c.fail("forwarding", bad); if (!s.race.empty()) c.fail("race forwarding", s.race);
  }
}
MC_MAIN(body)
