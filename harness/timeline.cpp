// C07: time arithmetic, tick requests, their slicing, looping and quantification.
#include "mc.hpp"
#include <algorithm>
#include <ossia/dataflow/token_request.hpp>
#include <ossia/dataflow/transport.hpp>
#include <ossia/editor/scenario/time_value.hpp>
using namespace ossia;
using tv = ossia::time_value;
using i128 = __int128;
static std::string s(tv t) { return t.infinite() ? "inf" : std::to_string(t.impl); }
static void arith(mc::ctx& c)
{
  c.in("arithmetic", "every pair from 17 durations (zero, small, huge, limits, infinite; negative ones too): + - += -= compare abs norm, scalars");
  const int64_t M = tv::infinite_min;
  std::vector<int64_t> A{0, 1, -1, 2, -2, 7, -7, 1000, -1000, 1ll << 40, -(1ll << 40), M / 2, M - 1000, M - 1, -(M - 1), M, M + 12345, tv::infinity};
  auto inf = [&](int64_t x) { return x >= M; };
  for (auto a : A)
    for (auto b : A)
    {
      if (!c.want(mc::cat("arith ", a, " ", b))) continue;
      c.state(mc::cat(a, " ", b)); c.trace(); c.step(14);
      tv x{a}, y{b};
      auto k = [&](const char* n) { return mc::cat(n, " ", a, " ", b); };
      auto eq = [&](const char* n, tv got, i128 want, bool isinf) { c.check(isinf ? got.infinite() : (!got.infinite() && (i128)got.impl == want), k(n), mc::cat(s(x), " ", n, " ", s(y), " = ", s(got))); };
      const bool ai = inf(a), bi = inf(b);
      i128 sum = (i128)a + b, dif = (i128)a - b;
      if (ai || bi || sum > -M) { eq("+", x + y, sum, ai || bi || sum >= M); tv z = x; z += y; eq("+=", z, sum, ai || bi || sum >= M); }
      if (ai || bi || dif > -M) { eq("-", x - y, dif, ai || bi || dif >= M); tv z = x; z -= y; eq("-=", z, dif, ai || bi || dif >= M); }
      if (!bi && b > -M && sum > -M) { eq("+int", x + b, sum, ai || sum >= M); tv z = x; z += b; eq("+=int", z, sum, ai || sum >= M); if (b >= 0) eq("+uint", x + uint64_t(b), sum, ai || sum >= M); }
      if (!bi && dif > -M) { eq("-int", x - b, dif, ai || dif >= M); tv z = x; z -= b; eq("-=int", z, dif, ai || dif >= M); if (b >= 0) eq("-uint", x - uint64_t(b), dif, ai || dif >= M); }
      if (std::llabs(b) <= (1ll << 40) && !ai && sum > -M && dif > -M) { eq("+double", x + (double(b) + (b >= 0 ? 0.5 : -0.5)), sum, sum >= M); eq("-double", x - (double(b) + (b >= 0 ? 0.5 : -0.5)), dif, dif >= M); }
      const bool e = (ai && bi) || a == b, lt = !(ai && bi) && a < b;
      auto cmp = [&](const char* n, bool got, bool want) { c.check(got == want, k(n), mc::cat(s(x), " ", n, " ", s(y), " is ", got)); };
      cmp("==", x == y, e); cmp("!=", x != y, !e); cmp("<", x < y, lt); cmp("<=", x <= y, lt || e); cmp(">", x > y, !lt && !e); cmp(">=", x >= y, !lt);
      eq("norm", ossia::norm(x, y), dif < 0 ? -dif : dif, ai || bi || (dif < 0 ? -dif : dif) >= M);
      if (!ai) { eq("abs", ossia::abs(x), a < 0 ? -(i128)a : a, false); tv z = x; eq("neg", -z, -(i128)a, -(i128)a >= M); }
      c.check(x.infinite() == ai, k("infinite"), "");
      if (std::llabs(a) <= 1000 && std::llabs(b) <= 1000)
      {
        eq("*i64", x * b, a * b, false); eq("*i32", x * int32_t(b), a * b, false); eq("*d", x * double(b), a * b, false); eq("*f", x * float(b), a * b, false);
        eq("*0.25", x * (b * 0.25), (i128)std::trunc(a * b * 0.25), false);
        if (b) { c.check(x / y == double(a) / double(b), k("/"), ""); eq("%", x % y, a % b, false); }
      }
    }
}
static void loops(mc::ctx& c)
{
  c.in("loop", "token_request::loop: every (previous date 0..9, length 0..17, loop duration 1..7, start offset 0..2, buffer offset 0..2)");
  for (int p = 0; p <= 9; p++) for (int n = 0; n <= 17; n++) for (int L = 1; L <= 7; L++) for (int so = 0; so <= 2; so++) for (int off = 0; off <= 2; off++)
  {
    auto id = mc::cat("loop p", p, " n", n, " L", L, " so", so, " off", off);
    if (!c.want(id)) continue;
    c.state(id); c.trace();
    token_request r{tv{p}, tv{p + n}, tv{100}, tv{off}, 1.5, {3, 8}, 90.};
    std::string got, want; int transports = 0;
    r.loop(tv{so}, tv{L}, [&](const token_request& t) { c.step(); got += mc::cat(t.prev_date.impl, "-", t.date.impl, "@", t.offset.impl, t.speed == 1.5 && t.tempo == 90. && t.parent_duration == tv{100} && t.signature.upper == 3 ? "" : "?", " "); },
           [&](tv t) { transports++; got += mc::cat("T", t.impl, " "); });
    // instant by instant: each instant of the tick is played exactly once, at its position in the loop, in order
    int at = p, left = n, o = off;
    while (left > 0)
    {
      int in = at % L, len = std::min(left, L - in);
      want += mc::cat(in + so, "-", in + so + len, "@", o, " ");
      if (in + len == L) want += mc::cat("T", so, " ");
      at += len; left -= len; o += len;
    }
    c.outcome(want);
    c.check(got == want, id, mc::cat("got ", got, " expected ", want));
    auto a = r.add_offset(tv{so});
    c.check(a.prev_date.impl == p + so && a.date.impl == p + n + so && a.offset == r.offset && a.model_read_duration().impl == n, "add " + id, "add_offset");
    c.check(r.forward() == (n > 0) && r.paused() == (n == 0) && !r.backward(), "dir " + id, "");
    c.check(r.position() == (p + n) / 100., "pos " + id, mc::cat(r.position()));
  }
}
static void mapping(mc::ctx& c)
{
  c.in("instants", "every partition of 7 units into consecutive ticks x 3 ratios x 3 speeds: each instant belongs to exactly one tick and maps to and from its buffer position");
  for (auto& parts : mc::compositions(7))
    for (double ratio : {1., 0.5, 2.}) for (double speed : {1., 0.5, 2.}) for (int off : {0, 4})
    {
      auto id = mc::cat("map ", mc::join(parts), " r", ratio, " s", speed, " o", off);
      if (!c.want(id)) continue;
      c.state(id); c.trace();
      std::vector<token_request> t; int64_t d = 0;
      for (auto n : parts) { t.push_back(token_request{tv{d * 8}, tv{(d + (int64_t)n) * 8}, tv{56}, tv{off}, speed, {4, 4}, 120.}); d += n; }
      for (int x = -1; x <= 56; x++)
      {
        int in = 0;
        for (auto& k : t)
        {
          c.step();
          if (!k.in_range(tv{x})) continue;
          in++;
          const double e = (x - k.prev_date.impl + off) * ratio / speed;
          auto ph = k.to_physical_time_in_tick(tv{x}, ratio);
          c.check(ph == (int64_t)e && k.to_physical_time_in_tick(int64_t(x), ratio) == ph, mc::cat("phys ", id, x), mc::cat("instant ", x, " maps to ", ph));
          if (e == std::floor(e)) { auto b = k.from_physical_time_in_tick(ph, ratio); c.check(b.impl == x, mc::cat("back ", id, x), mc::cat("sample ", ph, " maps back to ", b.impl)); }
        }
        c.check(in == (x >= 0 && x < 56), mc::cat("in ", id, x), mc::cat("instant ", x, " is in ", in, " ticks"));
      }
      for (auto& k : t)
      {
        const double len = (k.date - k.prev_date).impl;
        c.check(k.physical_read_duration(ratio) == (int64_t)std::floor(len * ratio), "rd " + id, "");
        c.check(k.physical_write_duration(ratio) == (int64_t)std::floor(len * ratio / speed), "wr " + id, "");
        c.check(k.physical_start(ratio) == (int64_t)(off * ratio / speed) && k.start_date_to_physical(ratio) == (int64_t)(k.prev_date.impl * ratio / speed), "st " + id, "");
        c.check(k.safe_physical_write_duration(ratio, 64) == (int64_t)std::floor(64 - off * ratio / speed), "sw " + id, "");
        token_request back{k.date, k.prev_date, tv{56}, tv{off}, speed, {4, 4}, 120.};
        c.check(back.backward() && !back.forward() && back.physical_write_duration(ratio) == k.physical_write_duration(ratio), "bk " + id, "");
        token_request neg{tv{0}, tv{1}, tv{0}, tv{-3}, 1., {4, 4}, 120.}; c.check(neg.offset == 0_tv && neg.position() == 0., "neg", "");
        auto cp = k; c.check(cp == k && !(cp != k), "eq " + id, ""); cp.date += 1_tv; c.check(cp != k, "neq " + id, "");
      }
    }
}
struct line { int up, low; int units_per_quarter; int units; };
static token_request musical(int64_t a, int64_t b, double Q, double bar, int64_t sigstart)
{
  token_request r{tv{a}, tv{b}, 1000_tv, 0_tv, 1., {4, 4}, 120.};
  auto lb = [&](int64_t x) { return sigstart / Q + std::floor((x - sigstart) / Q / bar) * bar; };
  r.musical_start_last_signature = sigstart / Q; r.musical_start_position = a / Q; r.musical_end_position = b / Q;
  r.musical_start_last_bar = lb(a); r.musical_end_last_bar = lb(b);
  return r;
}
static void quantif(mc::ctx& c)
{
  const int N = c.thorough() ? 15 : 12;
  c.in("quantification", mc::cat("every partition of ", N, " steps of musical time into ticks x 4 time signatures x 7 rates x 2 signature starts: the grid dates reported by the ticks are exactly the grid"));
  struct cfg { int up, low, steps_per_quarter; };
  for (auto& g : {cfg{4, 4, 1}, cfg{3, 4, 2}, cfg{6, 8, 2}, cfg{2, 4, 2}})
    for (double rate : {0.5, 1., 2., 4., 8., 16., 0.25})
      for (int sg : {0, 1})
      {
        const double bar = 4. * g.up / g.low; const int64_t U = 16; const double Q = U * g.steps_per_quarter;
        const double quantum = rate <= 1. ? bar / rate : 4. / rate;                    // in quarters
        if (rate > 1. && bar / quantum != std::floor(bar / quantum)) continue;        // grids that restart mid-way at a bar line: see DESIGN
        const int64_t start = sg ? (int64_t)(bar * Q) : 0;                             // the signature may start later than the origin
        // ticks and grid begin at `start`
        for (auto& parts : mc::compositions(N))
        {
          auto id = mc::cat("q ", g.up, "/", g.low, " rate", rate, " sg", sg, " ", mc::join(parts));
          if (!c.want(id)) continue;
          c.state(id); c.trace();
          int64_t at = start;
          for (auto n : parts)
          {
            c.step();
            const int64_t b = at + n * U;
            if ((b - at) / Q > bar) { at = b; continue; } // more than one bar in a tick
            auto r = musical(at, b, Q, bar, start);
            // first grid date in (at, b]
            std::optional<double> want;
            for (int m = 1; m < 400; m++) { double d = start + m * quantum * Q; if (d > at && d <= b) { want = d; break; } if (d > b) break; }
            auto got = r.get_quantification_date(rate);
            c.outcome(mc::cat(got ? got->impl - at : -1));
            c.check(bool(got) == bool(want) && (!got || std::fabs(got->impl - *want) <= 1.), mc::cat(id, "@", at), mc::cat("tick ", at, "-", b, " reports ", got ? s(*got) : "nothing", ", grid ", want ? mc::cat(*want) : "nothing"));
            auto pg = r.get_physical_quantification_date(rate, 0.5);
            c.check(bool(pg) == bool(got) && (!pg || *pg == int64_t((got->impl - at) * 0.5)), mc::cat("p", id, "@", at), "physical date");
            c.check(r.get_quantification_date(0.) == std::optional<tv>(tv{at}) && r.get_quantification_date(-1.) == std::optional<tv>(tv{at}), "free " + id, "rate 0 must trigger at once");
            at = b;
          }
        }
      }
  c.in("metronome", mc::cat("every partition of ", N, " half-quarters into ticks of at most a quarter x 4 signatures: one high tick per bar, one low tick per other quarter, at the right sample"));
  for (auto& g : {cfg{4, 4, 2}, cfg{3, 4, 2}, cfg{6, 8, 2}, cfg{7, 8, 2}, cfg{1, 4, 2}})
    for (auto& parts : mc::compositions(N))
    {
      if (*std::max_element(parts.begin(), parts.end()) > 2 || parts[0] > 1) continue;
      auto id = mc::cat("m ", g.up, "/", g.low, " ", mc::join(parts));
      if (!c.want(id)) continue;
      c.state(id); c.trace();
      const double bar = 4. * g.up / g.low; const int64_t U = 16; const double Q = U * 2;
      int64_t at = 0; std::map<int64_t, char> got, want; bool dup = false;
      for (auto n : parts)
      {
        c.step();
        auto r = musical(at, at + n * U, Q, bar, 0);
        r.metronome(2., [&](int64_t x) { dup |= !got.emplace(at + x / 2, 'T').second; }, [&](int64_t x) { dup |= !got.emplace(at + x / 2, 't').second; });
        at += n * U;
      }
      want[0] = 'T';
      for (double b = 0; b * Q <= at; b += bar) for (double q = 0; q < bar && (b + q) * Q <= at; q += 1) want[int64_t((b + q) * Q)] = q == 0 ? 'T' : 't';
      // at a bar line, a quarter of the previous bar that ends there gives way to the bar
      std::string G, W; for (auto& [d, x] : got) G += mc::cat(d, x, " "); for (auto& [d, x] : want) W += mc::cat(d, x, " ");
      c.outcome(W);
      // a tick that covers both a quarter and a bar line only plays the bar line
      if (g.low == 8 && g.up % 2) { for (auto& [d, x] : want) if (x == 'T') c.check(got.count(d) && got[d] == 'T', id, mc::cat("got ", G, " expected ", W)); for (auto& [d, x] : got) c.check(want.count(d) && want[d] == x, "x" + id, mc::cat("got ", G, " expected ", W)); }
      else c.check(G == W && !dup, id, mc::cat("got ", G, " expected ", W));
    }
  c.in("bar-change", "unexpected_bar_change: every (signature, bar difference in quarter steps)");
  for (auto& g : {cfg{4, 4, 2}, cfg{3, 4, 2}, cfg{6, 8, 2}, cfg{7, 8, 2}, cfg{5, 4, 2}})
    for (int st = 0; st < 6; st++)
      for (int d = 0; d < 40; d++)
      {
        auto id = mc::cat("ubc ", g.up, "/", g.low, " ", st, " ", d);
        if (!c.want(id)) continue;
        c.state(id); c.trace(); c.step();
        token_request r; r.signature = {(uint16_t)g.up, (uint16_t)g.low}; r.musical_start_last_bar = st; r.musical_end_last_bar = st + d * 0.5;
        const double bar = 4. * g.up / g.low;
        c.check(r.unexpected_bar_change() == (std::fmod(d * 0.5, bar) != 0.), id, mc::cat("is ", r.unexpected_bar_change()));
      }
  c.in("reduce", "reduce_end_time / increase_start_time on every tick 4..20 and every date in it: dates set, position scaled along");
  for (int a = 4; a < 12; a++) for (int b = a + 1; b <= 20; b++) for (int t = a + 1; t <= b; t++)
  {
    auto id = mc::cat("red ", a, " ", b, " ", t);
    if (!c.want(id)) continue;
    c.state(id); c.trace(); c.step(2);
    auto r = musical(a, b, 8, 4, 0), q = r, o = r;
    r.reduce_end_time(tv{t}); q.increase_start_time(tv{t});
    c.check(r.date.impl == t && r.prev_date.impl == a && std::fabs(r.musical_end_position - t / 8.) < 1e-9 && r.musical_start_position == o.musical_start_position, id, "reduce_end_time");
    c.check(q.prev_date.impl == t && q.date.impl == b && std::fabs(q.musical_start_position - t / 8.) < 1e-9 && q.musical_end_position == o.musical_end_position, "i" + id, "increase_start_time");
  }
}
static void body(mc::ctx& c) { arith(c); loops(c); mapping(c); quantif(c); }
MC_MAIN(body)
