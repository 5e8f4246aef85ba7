// Clocks: every interleaving of a running clock's thread with the calls of its user (start, pause, resume,
// stop, reading its state), in virtual time.
#include "mc.hpp"
#include "mcrt.hpp"
#include <ossia/dataflow/graph_node.hpp>
#include <ossia/editor/expression/expression.hpp>
#include <ossia/editor/scenario/clock.hpp>
#include <ossia/editor/scenario/time_event.hpp>
#include <ossia/editor/scenario/time_interval.hpp>
#include <ossia/editor/scenario/time_sync.hpp>
using namespace ossia; using namespace std::literals;
enum ev { TICK, ENDED, CALL, DONE, STATUS, SEEN };
enum op { START, STOP, PAUSE, RESUME, SHORT, LONG, LOOK };
static const char* const names[] = {"start", "stop", "pause", "resume", "sleep 7ms", "sleep 90ms", "look"};
struct plan { std::vector<int> w; int64_t gran, dur; int slow; double ratio; };   // us
static std::string show(const std::vector<int>& w) { std::string s; for (int x : w) s += mc::cat(s.empty() ? "" : "; ", names[x]); return s; }
static int64_t us(int64_t ns) { return ns / 1000; }
static void run(mc::ctx& c, const std::string& id, const plan& p, int pre, bool lower)
{
  if (!c.want(id)) return;
  auto program = [&] {
    auto s = std::make_shared<time_sync>(), e = std::make_shared<time_sync>();
    auto se = std::make_shared<time_event>(time_event::exec_callback{}, *s, expressions::make_expression_true()), ee = std::make_shared<time_event>(time_event::exec_callback{}, *e, expressions::make_expression_true());
    s->insert(s->get_time_events().end(), se); e->insert(e->get_time_events().end(), ee);
    auto inf = time_value{time_value::infinity};
    auto dur = p.dur ? time_value{int64_t(p.dur / p.ratio)} : inf;
    auto itv = time_interval::create({}, *se, *ee, dur, 0_tv, dur);
    itv->set_callback(smallfun::function<void(bool, time_value), 32>{[&](bool b, time_value t) { mcrt::log(b ? TICK : ENDED, int(t.impl), mcrt::self()); if (p.slow && mcrt::self()) std::this_thread::sleep_for(std::chrono::milliseconds(p.slow)); }});
    {
      ossia::clock k{*itv, p.ratio}; k.set_granularity(std::chrono::microseconds(p.gran));
      k.set_exec_status_callback([](ossia::clock::exec_status x) { mcrt::log(STATUS, x); });
      for (int x : p.w)
      {
        mcrt::log(CALL, x);
        switch (x)
        {
          case START: k.start_and_tick(); break;
          case STOP: k.stop(); break;
          case PAUSE: k.pause(); break;
          case RESUME: k.resume(); break;
          case SHORT: std::this_thread::sleep_for(7ms); break;
          case LONG: std::this_thread::sleep_for(90ms); break;
          case LOOK: { auto d = k.get_date().impl; mcrt::log(SEEN, int(d), (k.running() ? 1 : 0) | (k.paused() ? 2 : 0)); break; }
        }
        mcrt::log(DONE, x);
      }
      mcrt::log(CALL, STOP);
    }
    mcrt::log(DONE, STOP);
    itv->cleanup(); s->cleanup(); e->cleanup();
  };
  std::string bad, where;
  auto st = mcrt::explore(program, pre, c.thorough() ? 400000 : 40000, [&](const std::string& sched) {
    c.state(id + sched); where = sched;
    // time spent running and not paused: from the end of the calls that begin it (at most) to the beginning of those that end it
    bool started = false, on = false, paused = false, finished = false; int64_t since = 0, spent = 0, last = 0; int stopped = 0, pauses = 0, flying = 0, call = -1; int64_t callt = 0;
    std::string tr;
    auto upto = [&](int64_t t) { return spent + (on ? us(t) - since : 0); };
    for (int i = 0; i < mcrt::log_size() && bad.empty(); i++)
    {
      auto& e = mcrt::log_at(i); auto t = e.time;
      tr += mc::cat(e.kind == TICK ? "tick" : e.kind == ENDED ? "end" : e.kind == CALL ? "<" : e.kind == DONE ? ">" : e.kind == STATUS ? "status" : "seen", " ", e.kind == CALL || e.kind == DONE ? names[e.a] : std::to_string(e.a), "@", us(t), "; ");
      if (e.kind == CALL)
      {
        call = e.a; callt = t;
        if (e.a == START && !started) { started = true; finished = false; on = true; paused = false; since = us(t); spent = 0; last = 0; stopped = 0; pauses = flying = 0; }
        else if (e.a == RESUME && started && paused) { paused = false; on = true; since = us(t); }
      }
      else if (e.kind == DONE)
      {
        call = -1;
        if (e.a == PAUSE && started && !paused) { spent = upto(t); paused = true; on = false; pauses++; flying = 0; }
        if (e.a == STOP && started)
        {
          if (stopped != 1) bad = mc::cat("told ", stopped, " times that it stopped");
          started = on = paused = false;
        }
      }
      else if (e.kind == TICK)
      {
        // a clock that ended by itself can be started again as soon as it is known to be stopped
        if (call == START && started && finished && e.b == 0) { finished = false; on = true; paused = false; since = us(callt); spent = 0; last = 0; stopped = 0; pauses = flying = 0; }
        if (!started) bad = "a tick while the clock does not run";
        else if (e.a < last) bad = mc::cat("the interval goes back from ", last, " to ", e.a);
        else
        {
          last = e.a; auto real = upto(t) / p.ratio;
          int64_t round = p.ratio == 1 ? 0 : i;   // each tick is rounded up
          if (e.a > real + round) bad = mc::cat("the interval is at ", e.a, " after ", real);
          if (paused && call != RESUME && ++flying > 1) bad = "the clock ticks while it is paused";
          if (lower && !paused && !p.slow && e.a + (p.gran + 2000 + 30000 * pauses) / p.ratio < real)   /* noticing a resume takes up to 30 ms, and dropped ticks are not played */
            bad = mc::cat("the interval is only at ", e.a, " after ", real);
          if (p.dur && finished) bad = "a tick after the end";
        }
      }
      else if (e.kind == STATUS)
      {
        if (e.a == ossia::clock::STOPPED && ++stopped > 1) bad = "told twice that it stopped";
        if (e.a == ossia::clock::STOPPED && call != STOP)
        {
          finished = true;
          if (!p.dur) bad = "stopped by itself";
          else if (upto(t) < p.dur) bad = mc::cat("stopped by itself after ", upto(t), " us of ", p.dur);
        }
      }
      else if (e.kind == SEEN)
      {
        if (!started && (e.a || e.b & 1)) bad = "not stopped at 0";
        if (started && !(e.b & 1) && !finished) bad = "seen stopped while it runs";
        if (started && !finished && bool(e.b & 2) != paused) bad = "paused or not is told wrongly";
        if (lower && started && !finished && e.a + p.gran + 2000 + 1000 * p.slow + 30000 * pauses < upto(t)) bad = mc::cat("its date is only ", e.a, " after ", upto(t), " us");
        if (started && e.a > upto(t)) bad = mc::cat("its date is ", e.a, " after ", upto(t), " us");
      }
      // a clock that ran out ends by itself
      if (lower && e.kind == DONE && started && p.dur && !finished && upto(t) > p.dur + (p.gran + 2000 + p.slow * 2000) * (pauses + 2)) bad = mc::cat("still running after ", upto(t), " us of ", p.dur);
    }
    if (!bad.empty()) bad += ": " + tr;
    return bad.empty();
  });
  c.step(st.points); c.cur->traces += st.schedules;
  if (!st.complete) c.incomplete(mc::cat(id, ": ", st.schedules));
  if (!st.race.empty()) c.fail("race " + id, st.race + " under schedule " + st.race_schedule);
  if (!bad.empty()) c.fail("clock " + id, bad.substr(0, 900) + " under schedule " + where.substr(0, 200));
}
static void body(mc::ctx& c)
{
  const int N = c.thorough() ? 7 : 6;
  struct cfg { int64_t gran, dur; int slow; double ratio; };
  std::vector<cfg> cs{{20000, 0, 0, 1}, {20000, 70000, 0, 1}, {20000, 70000, 0, 1000}, {20000, 70000, 30, 1}, {20000, 70000, 30, 1000}, {3000, 50000, 0, 1}, {1000, 20000, 4, 100}};
  for (int b = 0; b < 3; b++)
  {
    mcrt::sleep_budget(b);
    c.in(mc::cat("wake-ups ", b), mc::cat("every sequence of up to ", N - b, " calls of {start, stop, pause, resume, sleep 7 ms, sleep 90 ms, look} after a start, granularities 1, 3 and 20 ms, durations infinite, 20, 50 and 70 ms, processes of 0, 4 and 30 ms per tick, 1, 100 and 1000 units; every schedule with ", b ? "at most 1 preemption (2 for sequences of up to 3)" : "no preemption (up to 2 for sequences of up to 4)", ", ", b, " early wake-ups"));
    for (auto& k : cs) for (int n = 1; n <= N - b - 1; n++) mc::words(7, n, [&](auto& w) {
      std::vector<int> v{START}; for (int x : w) v.push_back(x);
      for (size_t i = 1; i < v.size(); i++) if (v[i] == v[i - 1] && v[i] != LONG) return;
      run(c, mc::cat(b, " ", k.gran, " ", k.dur, " ", k.slow, " ", k.ratio, " ", show(v)), {v, k.gran, k.dur, k.slow, k.ratio}, b ? (n <= 2 ? 2 : 1) : n <= 3 ? 2 : 0, b == 0 && n > 3);
    });
  }
}
MC_MAIN(body)
