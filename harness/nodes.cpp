// Processing nodes: what they play does not depend on how time is cut, edits and jumps lose nothing.
#include "valgen.hpp"
#include <ossia/dataflow/execution_state.hpp>
#include <ossia/dataflow/nodes/forward_node.hpp>
#include <ossia/dataflow/nodes/gain.hpp>
#include <ossia/dataflow/nodes/merger.hpp>
#include <ossia/dataflow/nodes/messages.hpp>
#include <ossia/dataflow/nodes/metronome.hpp>
#include <ossia/dataflow/nodes/midi.hpp>
#include <ossia/dataflow/nodes/sine.hpp>
#include <ossia/dataflow/nodes/sound_ref.hpp>
#include <ossia/dataflow/nodes/step.hpp>
#include <ossia/editor/curve/curve_segment/linear.hpp>
using namespace ossia; using vg::str;
using ints = std::vector<int>;
static token_request tok(int64_t prev, int64_t date, int64_t off = 0, double speed = 1)
{ token_request t; t.prev_date = time_value{prev}; t.date = time_value{date}; t.parent_duration = time_value{1000}; t.offset = time_value{off}; t.speed = speed; t.tempo = 120; return t; }
static execution_state& est() { static execution_state e; return e; }
static void setup(int buf, double m2s) { est().sampleRate = 44100; est().bufferSize = buf; est().modelToSamplesRatio = m2s; est().samplesToModelRatio = 1. / m2s; }
using dated = std::vector<std::pair<int64_t, std::string>>;
static std::string show(const dated& v) { std::string s; for (auto& [t, x] : v) s += mc::cat(x, "@", t, " "); return s; }
static dated out(graph_node& n, int64_t base) { dated r; auto& vp = *n.root_outputs()[0]->target<value_port>(); for (auto& v : vp.get_data()) r.emplace_back(base + v.timestamp, str(v.value)); vp.clear(); return r; }
static void steps(mc::ctx& c)
{
  const int D = c.thorough() ? 6 : 5;
  c.in("steps", mc::cat("step sequencers of 1-3 values and step 1-5 in every sequence of <=", D, " ticks of 1-6; two ticks per buffer; metronomes of period 1-6; empty sequencers"));
  static const double RT[] = {1, 0.5, 2};
  for (int nv = 0; nv <= 3; nv++) for (int d = 0; d <= 5; d++) for (int ri = 0; ri < 3; ri++)
    for (int n = 1; n <= D; n++) mc::words(n == D ? 4 : 6, n, [&](const ints& w) {
      const double R = RT[ri]; if (ri && n == D) return;
      auto id = mc::cat("step ", nv, " ", d, " ", mc::join(w), ri ? mc::cat(" ratio ", R) : ""); if (!c.want(id)) return;
      if ((nv == 0 || d == 0) && n > 1) return;
      setup(64, R); const int64_t per = int64_t(d / R); // the duration is in samples
      nodes::step s; for (int i = 0; i < nv; i++) s.values.push_back(i + 1); s.dur = time_value{d};
      dated got, want; int64_t t = 0;
      for (int o : w) { ((graph_node&)s).run(tok(t, t + o + 1, 0), {&est()}); for (auto& x : out(s, t * R)) got.push_back(x); t += o + 1; c.step(); }
      int64_t t2 = 0; if (nv && per > 0) for (int o : w) { for (int64_t k = 0; k * per < t2 + o + 1; k++) if (k * per >= t2) want.emplace_back(int64_t(t2 * R) + int64_t((k * per - t2) * R), str(value{float(k % nv + 1)})); t2 += o + 1; }
      c.state(id); c.trace(); c.outcome(show(want));
      c.check(got == want, "steps", mc::cat(id, ": ", show(got), " expected ", show(want)));
    });
  setup(64, 1);
  for (int d = 1; d <= 6; d++)
    for (int n = 1; n <= D; n++) mc::words(6, n, [&](const ints& w) {
      // at most one beat per tick: ticks are not longer than the period
      for (int o : w) if (o + 1 > d) return;
      auto id = mc::cat("metro ", d, " ", mc::join(w)); if (!c.want(id)) return;
      nodes::metronome m; auto cv = std::make_shared<curve<double, float>>(); cv->set_x0(0); cv->set_y0(d); cv->add_point(curve_segment_linear<float>{}, 1, d); m.set_curve(cv);
      int64_t t = 0; int beats = 0; c.state(id); c.trace();
      for (int o : w) { ((graph_node&)m).run(tok(t, t + o + 1), {&est()}); t += o + 1; beats += out(m, 0).size(); c.step(); c.check(beats == t / d, "metronome", mc::cat(id, " at ", t, ": ", beats, " beats, expected ", t / d)); }
      c.outcome(mc::cat(beats));
    });
}
// MIDI
struct note { int s, d, p; bool operator==(const note& o) const { return s == o.s && d == o.d && p == o.p; } };
static void midis(mc::ctx& c)
{
  static const std::vector<note> SETS[] = {{{0, 2, 60}, {2, 4, 60}, {3, 1, 62}}, {{1, 4, 60}, {1, 2, 64}, {5, 1, 60}}, {{2, 0, 60}, {3, 5, 61}, {3, 5, 62}}, {{0, 8, 60}, {4, 2, 61}, {4, 2, 62}}};
  const int D = c.thorough() ? 6 : 5;
  c.in("midi", mc::cat("4 scores, given as a set or note by note, in every history of <=", D, " operations: ticks of 1, 2 and 5, jump to 0, 3 and 4, stop, remove each note, put it back, change it"));
  setup(64, 1);
  for (int sc = 0; sc < 4; sc++) for (int how = 0; how < 2; how++)
    mc::words(12, D, [&](const ints& w) {
      if (w.back() > 2) return; // nothing is observed after the last tick
      auto id = mc::cat("midi ", sc, how, " ", mc::join(w)); if (!c.want(id)) return;
      auto N = SETS[sc]; std::vector<int> present(3, 1); struct pl { note n; }; std::vector<note> playing, stops; std::vector<note> score = N;
      auto mn = std::make_shared<nodes::midi>(); auto& m = *mn; nodes::midi_node_process mproc{mn}; static const int CH[] = {1, 16, 5, 10}; m.set_channel(CH[sc]); const int64_t R = how + 1; setup(64, R);
      auto nd = [](note n) { nodes::note_data x; x.start = time_value{n.s}; x.duration = time_value{n.d}; x.pitch = n.p; x.velocity = 100; return x; };
      if (how) { nodes::midi::note_set s; for (auto n : N) s.insert(nd(n)); m.set_notes(std::move(s)); } else for (auto n : N) m.add_note(nd(n));
      std::vector<note> pending = N; int64_t t = 0, last = 0; std::string desc; bool ok = true; int changed[3] = {};
      for (int o : w)
      {
        if (o <= 2)
        {
          int len = o == 2 ? 5 : o + 1; const int off = 2;
          auto& mp = *m.root_outputs()[0]->target<midi_port>(); mp.messages.clear();
          ((graph_node&)m).run(tok(t, t + len, off), {&est()});
          std::vector<std::array<int64_t, 3>> got, want; // on?, pitch, date
          for (auto& x : mp.messages) { got.push_back({x.get_message_type() == libremidi::message_type::NOTE_ON, x.bytes[1], int64_t(x.timestamp)}); if ((x.bytes[0] & 15) != CH[sc] - 1 || x.bytes[2] != (got.back()[0] ? 100 : 0)) ok = false; }
          // a jump ends what sounds
          if (t != last) { stops.insert(stops.end(), playing.begin(), playing.end()); playing.clear(); }
          for (auto& n : stops) want.push_back({0, n.p, off * R}); stops.clear();
          auto still = std::vector<note>{};
          for (auto& n : playing) if (n.s + n.d >= t && n.s + n.d < t + len) want.push_back({0, n.p, (n.s + n.d - t + off) * R}); else still.push_back(n);
          for (auto& n : pending) if (n.s >= t && n.s < t + len) { want.push_back({1, n.p, (n.s - t + off) * R}); if (n.s + n.d < t + len) want.push_back({0, n.p, (n.s + n.d - t + off) * R}); else still.push_back(n); }
          playing = still; t += len; last = t; c.step();
          std::vector<std::array<int64_t, 3>> g2 = got, w2 = want; std::sort(g2.begin(), g2.end()); std::sort(w2.begin(), w2.end());
          auto sh = [](auto& v) { std::string s; for (auto& a : v) s += mc::cat(a[0] ? "on" : "off", a[1], "@", a[2], " "); return s; };
          c.check(g2 == w2 && ok, "midi", mc::cat(id, " (", desc, " tick ", len, "): ", sh(got), " expected ", sh(want)));
          c.outcome(sh(w2)); desc += mc::cat("tick", len, " ");
        }
        else if (o <= 5) { int d = o == 3 ? 0 : o - 1; mproc.transport_impl(time_value{d}); t = d; desc += mc::cat("goto", d, " "); }
        else if (o == 6)
        {
          // what midi_node_process::stop does, and the tick which carries it
          mproc.stop(); c.check(m.requested_tokens.size() == 1, "midi stop tick", id); auto& mp = *m.root_outputs()[0]->target<midi_port>(); mp.messages.clear(); for (auto& q : m.requested_tokens) ((graph_node&)m).run(q, {&est()}); m.requested_tokens.clear();
          std::vector<int> g, x; for (auto& q : mp.messages) g.push_back(q.get_message_type() == libremidi::message_type::NOTE_OFF ? q.bytes[1] : -1); for (auto& n : stops) x.push_back(n.p); for (auto& n : playing) x.push_back(n.p);
          std::sort(g.begin(), g.end()); std::sort(x.begin(), x.end()); c.check(g == x, "midi stop", mc::cat(id, " (", desc, "): ", g.size(), " offs expected ", x.size()));
          stops.clear(); playing.clear(); t = last = 0; desc += "stop ";
        }
        else if (o <= 8)
        { // remove or put back note o-7
          int k = o - 7; note n = score[k]; desc += mc::cat(present[k] ? "remove" : "add", k, " ");
          if (present[k]) { m.remove_note(nd(n)); present[k] = 0; auto it = std::find(pending.begin(), pending.end(), n); if (it != pending.end()) pending.erase(it); auto ip = std::find(playing.begin(), playing.end(), n); if (ip != playing.end()) { stops.push_back(n); playing.erase(ip); } }
          else { m.add_note(nd(n)); present[k] = 1; pending.push_back(n); }
        }
        else
        { // change the pitch or the date of note k
          int k = o - 9; if (!present[k]) return; note n = score[k], r = n; if (changed[k]++ % 2) r.p += 5; else r.s += 1;
          m.update_note(nd(n), nd(r)); score[k] = r; desc += mc::cat("change", k, " ");
          auto it = std::find(pending.begin(), pending.end(), n); if (it != pending.end()) pending.erase(it); auto ip = std::find(playing.begin(), playing.end(), n); if (ip != playing.end()) { stops.push_back(n); playing.erase(ip); }
          pending.push_back(r);
        }
      }
      std::string st; for (auto& n : pending) st += mc::cat(n.s, ",", n.p, ";"); c.state(mc::cat(sc, " ", t, " ", playing.size(), " ", st)); c.trace();
    });
}
// audio
using chans = std::vector<std::vector<double>>;
static chans rd(const audio_vector& v, size_t n) { chans r; for (auto& ch : v) { r.emplace_back(ch.begin(), ch.end()); r.back().resize(std::max(r.back().size(), n)); } return r; }
static std::string show(const chans& v) { std::string s; for (auto& ch : v) { s += "["; for (double d : ch) s += mc::cat(d, " "); s += "]"; } return s; }
static void sounds(mc::ctx& c)
{
  c.in("sounds", "sound files of 1-2 channels and 5-20 frames, start offset, loop, channel offset, upmix, in every cutting of two buffers of 8 frames into ticks (several per buffer), with jumps between buffers, fades");
  setup(8, 1. / 16);
  const int rate = 705600000 / 16; // one frame lasts 16 flicks
  for (int nch = 1; nch <= 2; nch++) for (int len : {5, 20}) for (int so : {0, 2}) for (int loop : {0, 3, 7}) for (int start = 0; start < 2; start++) for (int up : {0, 3}) for (int cut = 0; cut < 9; cut++) for (int cut2 = 0; cut2 < 9; cut2++) for (int jump : {-1, 0, 3}) for (int fade = 0; fade < 4; fade++)
  {
    if (fade && (cut || cut2 || jump >= 0 || up || start)) continue;
    auto id = mc::cat("snd ", nch, " ", len, " ", so, " ", loop, " ", start, " ", up, " ", cut, " ", cut2, " ", jump, " ", fade); if (!c.want(id)) continue;
    auto h = std::make_shared<audio_data>(); h->data.resize(nch); for (int q = 0; q < nch; q++) { h->data[q].resize(len); for (int i = 0; i < len; i++) h->data[q][i] = 100 * (q + 1) + i; }
    nodes::sound_ref s; s.set_sound(h, nch, rate); s.set_start(start); s.set_upmix(up);
    s.set_loop_info(time_value{16 * std::max(loop, 1)}, time_value{16 * so}, loop > 0); s.set_native_tempo(0);
    auto at = [&](int q, int64_t g) -> double { int64_t p = so + (loop ? g % loop : g); return p < len ? 100 * (q + 1) + p : 0; };
    int64_t pos = 0; c.state(id); c.trace();
    for (int b = 0; b < 2; b++)
    {
      if (b && jump >= 0) { pos = jump; s.transport(time_value{16 * jump}); }
      auto& ap = *s.root_outputs()[0]->target<audio_port>(); for (auto& ch : ap.samples) ch.clear(); ap.samples.clear();
      int k = b ? cut2 : cut; ints parts; if (k == 0) parts = {8}; else if (k == 8) parts = {2, 3, 3}; else parts = {k, 8 - k};
      chans want(nch, std::vector<double>(8)); int off = 0;
      if (fade) parts = {4}, off = fade == 3 ? 0 : 4; // a sound which begins or ends within the buffer
      for (int n : parts)
      {
        auto t = tok(16 * pos, 16 * (pos + n), 16 * off); if (fade == 1) t.start_discontinuous = true; if (fade == 2 || fade == 3) t.end_discontinuous = true;
        ((graph_node&)s).run(t, {&est()}); c.step();
        for (int q = 0; q < nch; q++) for (int i = 0; i < n; i++) { double v = at(q, pos + i); double g = 1. - double(i) / n; if (fade == 1) v *= 1 - g; else if (fade >= 2) v *= std::pow(2., g) - 1.; want[q][off + i] = v; }
        pos += n; off += n;
      }
      if (up == 3 && nch == 1) want.resize(3, want[0]);
      want.insert(want.begin(), start, std::vector<double>(8));
      auto got = rd(ap.samples, 8); bool ok = got.size() == want.size(); for (size_t q = 0; ok && q < got.size(); q++) for (int i = 0; ok && i < 8; i++) ok = std::abs(got[q][i] - want[q][i]) < 1e-6;
      c.check(ok, mc::cat("sound", fade ? " fade" : "", start ? " start" : "", parts.size() > 1 ? " cut" : ""), mc::cat(id, " buffer ", b, ": ", show(got), " expected ", show(want))); c.outcome(show(want));
    }
  }
}
static void effects(mc::ctx& c)
{
  c.in("effects", "gain, forwarding and merging of 0-3 channels of 0-8 frames; oscillator and message nodes under every cutting of 8 frames");
  setup(8, 1);
  for (int nch = 0; nch <= 3; nch++) for (int len : {0, 3, 8}) for (int first = 0; first < 8; first++) for (int n = 1; first + n <= 8; n++) for (int db : {-100, 0, -6})
  {
    auto id = mc::cat("gain ", nch, " ", len, " ", first, " ", n, " ", db); if (!c.want(id)) continue;
    nodes::gain_node g; auto& in = *g.root_inputs()[0]->target<audio_port>(); in.samples.resize(nch); for (int q = 0; q < nch; q++) { in.samples[q].resize(len); for (int i = 0; i < len; i++) in.samples[q][i] = 10 * (q + 1) + i; }
    double k = 0.005; if (db != -100) { g.root_inputs()[1]->target<value_port>()->write_value(value{float(db)}, 0); k = std::pow(10., db / 20.); }
    ((graph_node&)g).run(tok(40, 40 + n, first), {&est()}); auto& o = g.root_outputs()[0]->target<audio_port>()->samples; bool ok = int(o.size()) == nch;
    for (int q = 0; ok && q < nch; q++) { ok = int(o[q].size()) >= first + n; for (int i = first; ok && i < first + n; i++) ok = std::abs(o[q][i] - (i < len ? k * (10 * (q + 1) + i) : 0)) < 1e-5 * 100; }
    c.state(id); c.step(); c.trace(); c.outcome(mc::cat(k)); c.check(ok, "gain", id);
  }
  for (int cnt = 1; cnt <= 3; cnt++) mc::words(4, cnt, [&](const ints& w) {
    auto id = mc::cat("merge ", mc::join(w)); if (!c.want(id)) return;
    nodes::merger m{cnt}; chans want; for (int i = 0; i < cnt; i++) { auto& in = m.root_inputs()[i]->target<audio_port>()->samples; in.resize(w[i]); for (int q = 0; q < w[i]; q++) { in[q].resize(2); in[q][0] = 10 * i + q; in[q][1] = -1; if (q < 2) want.push_back({double(10 * i + q), -1}); } }
    ((graph_node&)m).run(tok(0, 2), {&est()}); auto g = rd(m.root_outputs()[0]->target<audio_port>()->samples, 0); bool ok = g.size() == size_t(2 * cnt); g.resize(want.size());
    c.state(id); c.step(); c.trace(); c.outcome(show(want)); c.check(ok && g == want, "merger", mc::cat(id, ": ", show(g), " expected ", show(want)));
  });
  for (int cut = 0; cut < 128; cut++)
  {
    auto id = mc::cat("sine ", cut); if (!c.want(id)) continue; c.state(id); c.trace();
    nodes::sine a, b; a.freq = b.freq = 4410; ((graph_node&)a).run(tok(0, 8), {&est()}); auto wa = rd(a.root_outputs()[0]->target<audio_port>()->samples, 8);
    for (int f = 0; f < 8;) { int n = 1; while (f + n < 8 && !(cut >> (f + n - 1) & 1)) n++; ((graph_node&)b).run(tok(f, f + n, f), {&est()}); f += n; c.step(); }
    auto wb = rd(b.root_outputs()[0]->target<audio_port>()->samples, 8); bool ok = wa.size() == 1 && wb.size() == 1; for (int i = 0; ok && i < 8; i++) ok = std::abs(wa[0][i] - wb[0][i]) < 1e-9 && std::abs(wa[0][i]) <= 0.8 + 1e-9;
    c.check(ok, "sine", mc::cat(id, ": ", show(wb), " expected ", show(wa))); c.outcome(show(wa));
  }
  for (int g = 0; g < 2; g++) for (int ch = 0; ch <= 3; ch++)
  {
    auto id = mc::cat("fwd ", g, ch); if (!c.want(id)) continue; c.state(id); c.trace(); c.step();
    nodes::forward_node f; f.audio_out.has_gain = g; f.audio_out.gain = 0.5; f.audio_out.pan = ossia::pan_weight{1, 1, 1}; f.audio_in->samples.resize(ch); chans want; for (int q = 0; q < ch; q++) { f.audio_in->samples[q].resize(3); for (int i = 0; i < 3; i++) f.audio_in->samples[q][i] = q * 4 + i; want.emplace_back(); for (int i = 0; i < 3; i++) want.back().push_back((q * 4 + i) * (g ? 0.5 : 1)); }
    ((graph_node&)f).run(tok(0, 3), {&est()}); auto got = rd(f.audio_out->samples, 0); c.check(got == want, "forward", mc::cat(id, ": ", show(got), " expected ", show(want))); c.outcome(show(want));
  }
}
int main(int argc, char** argv) { return mc::ctx::get().run(argc, argv, [](mc::ctx& c) { steps(c); midis(c); sounds(c); effects(c); }); }
