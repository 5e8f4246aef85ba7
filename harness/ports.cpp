// Ports and the execution environment: no value lost, duplicated, reordered or displaced.
#include "valgen.hpp"
#include <ossia/audio/audio_parameter.hpp>
#include <ossia/audio/audio_protocol.hpp>
#include <ossia/audio/audio_tick.hpp>
#include <ossia/dataflow/data.hpp>
#include <ossia/dataflow/data_copy.hpp>
#include <ossia/dataflow/execution_state.hpp>
#include <ossia/dataflow/graph/graph_static.hpp>
#include <ossia/dataflow/graph_edge_helpers.hpp>
#include <ossia/dataflow/graph_node.hpp>
#include <ossia/dataflow/port.hpp>
#include <ossia/network/base/message_queue.hpp>
#include <ossia/network/base/protocol.hpp>
#include <ossia/network/base/node_functions.hpp>
#include <ossia/network/common/path.hpp>
#include <ossia/network/dataspace/dataspace.hpp>
#include <ossia/network/dataspace/dataspace_visitors.hpp>
#include <ossia/network/domain/domain.hpp>
#include <ossia/network/generic/generic_device.hpp>
#include <ossia/network/generic/generic_parameter.hpp>
using namespace ossia; using vg::str;
struct proto : net::protocol_base
{
  proto() : protocol_base{flags{}} {}
  bool pull(net::parameter_base&) override { return true; }
  bool push(const net::parameter_base&, const ossia::value&) override { return true; }
  bool push(const net::parameter_base&, ossia::value&&) override { return true; }
  bool push_raw(const net::full_parameter_data&) override { return true; }
  bool observe(net::parameter_base&, bool) override { return true; }
  bool update(net::node_base&) override { return true; }
};
using ints = std::vector<int>;
using tv = std::vector<std::pair<std::string, int64_t>>;
static std::string show(const tv& v) { std::string s; for (auto& [a, t] : v) s += mc::cat(a, "@", t, " "); return s; }
static tv data(const value_port& p) { tv r; for (auto& x : p.get_data()) r.emplace_back(str(x.value), x.timestamp); return r; }
static void put(tv& m, const std::string& v, int64_t t, int mode)
{
  if (mode == mix_replace) for (auto& x : m) if (x.second == t) { x.first = v; return; }
  m.emplace_back(v, t);
}
static void writes(mc::ctx& c)
{
  const int D = c.thorough() ? 5 : 4;
  c.in("writes", mc::cat("every sequence of <=", D, " operations (write copied/moved at three dates, local, global, list of globals, another port's values, clear) on a value port, append and replace"));
  net::generic_device dev{std::make_unique<proto>(), "d"};
  auto p = net::create_node(dev, "/a").create_parameter(val_type::INT); p->set_value(99);
  for (int mode : {int(mix_append), int(mix_replace)})
    for (int n = 1; n <= D; n++)
      mc::words(9, n, [&](const ints& w) {
        auto id = mc::cat("wr ", mode, " ", mc::join(w));
        if (!c.want(id)) return;
        value_port v; v.mix_method = data_mix_method(mode); tv m; int k = 0;
        for (int o : w)
        {
          k++; auto s = str(value(k));
          switch (o)
          {
            case 0: { const value x{k}; v.write_value(x, 0); put(m, s, 0, mode); break; }
            case 1: { const value x{k}; v.write_value(x, 5); put(m, s, 5, mode); break; }
            case 2: v.write_value(value{k}, 5); put(m, s, 5, mode); break;
            case 3: v.write_value(value{k}, 2); put(m, s, 2, mode); break;
            case 4: { typed_value t{value{k}}; t.timestamp = 5; v.add_local_value(t); put(m, s, 5, mode); break; }
            case 5: v.add_global_value(*p, value{k}); put(m, s, 0, mode); break;
            case 6: { value_vector<value> vs; vs.push_back(value{k}); vs.push_back(value{-k}); v.add_global_values(*p, vs); put(m, s, 0, mode); put(m, str(value(-k)), 0, mode); break; }
            case 7: { value_port q; q.mix_method = mix_append; q.write_value(value{k}, 2); q.write_value(value{-k}, 5); q.write_value(value{100 + k}, 5); v.add_port_values(q); put(m, s, 2, mode); put(m, str(value(-k)), 5, mode); put(m, str(value(100 + k)), 5, mode); break; }
            case 8: v.clear(); m.clear(); break;
          }
        }
        auto d = data(v); c.state(mc::cat(mode, show(d))); c.step(n); c.trace(); c.outcome(show(d));
        c.check(d == m, mc::cat("port data mode ", mode), mc::cat(id, ": ", show(d), " expected ", show(m)));
        // through the environment to another port
        execution_state e; e.begin_tick(); e.insert(*p, value_port{v});
        value_inlet in; in.address = p; in.target<value_port>()->mix_method = data_mix_method(mode);
        e.find_and_copy(*p, in);
        if (m.empty()) m.emplace_back(str(value(99)), 0);
        c.check(data(*in.target<value_port>()) == m, mc::cat("environment mode ", mode), mc::cat(id, ": ", show(data(*in.target<value_port>())), " expected ", show(m)));
      });
}
static void conversions(mc::ctx& c)
{
  c.in("conversions", "units x units x index of inlet, local, global and port transfers; domain scaling of every pair of ranges");
  net::generic_device dev{std::make_unique<proto>(), "d"};
  static const std::vector<std::vector<unit_t>> fam{{rgb_u{}, hsv_u{}, bgr_u{}}, {cartesian_3d_u{}, opengl_u{}, spherical_u{}}};
  const value V = make_vec(0.25f, 0.5f, 0.75f);
  for (size_t f = 0; f < fam.size(); f++)
    for (int s = -1; s < 3; s++) for (int t = -1; t < 3; t++) for (int ix = -1; ix < 3; ix++) for (int how = 0; how < 3; how++)
    {
      auto id = mc::cat("cv ", f, " ", s, " ", t, " ", ix, " ", how);
      if (!c.want(id)) continue;
      unit_t su = s < 0 ? unit_t{} : fam[f][s], tu = t < 0 ? unit_t{} : fam[f][t];
      auto p = net::create_node(dev, "/u").create_parameter(val_type::VEC3F); p->set_unit(su);
      value_port v; if (tu) v.type = tu; if (ix >= 0) v.index = destination_index{ix};
      if (how == 0) { typed_value x{V}; if (su) x.type = su; v.add_local_value(x); }
      else if (how == 1) v.add_global_value(*p, V);
      else { value_vector<value> vs; vs.push_back(V); v.add_global_values(*p, vs); }
      value w = su && tu && su != tu ? ossia::convert(V, su, tu) : V;
      if (ix >= 0) { auto l = w.get<vec3f>(); w = l[ix]; }
      // with an unit on one side only nothing can be converted
      c.state(id); c.step(); c.trace(); c.outcome(str(w));
      auto d = data(v);
      c.check(d.size() == 1 && d[0].first == str(w), mc::cat("converted ", how, su ? "" : " unitless source", tu ? "" : " unitless inlet"), mc::cat(id, ": ", show(d), " expected ", str(w)));
      dev.get_root_node().clear_children();
    }
  static const float R[][2] = {{0, 1}, {0, 10}, {-5, 5}, {10, 20}, {3, 3}, {1, 0}};
  for (auto& a : R) for (auto& b : R)
    for (int mode : {int(mix_append), int(mix_replace)})
      for (int ti = 0; ti < 3; ti++)
      {
        auto id = mc::cat("dm ", a[0], " ", a[1], " ", b[0], " ", b[1], " ", mode, " ", ti);
        if (!c.want(id)) continue;
        value_port s, t; s.mix_method = t.mix_method = data_mix_method(mode);
        s.domain = make_domain(a[0], a[1]); t.domain = make_domain(b[0], b[1]);
        const float x[] = {a[0], (a[0] + a[1]) / 2, a[1]};
        for (int i = 0; i < 3; i++) s.write_value(ti == 0 ? value{x[i]} : ti == 1 ? value{make_vec(x[i], x[i])} : value{std::vector<value>{x[i]}}, i);
        t.write_value(value{-77.f}, 1);
        t.add_port_values(s);
        const float ya[] = {b[0], (b[0] + b[1]) / 2, b[1]};
        tv m; put(m, str(value{-77.f}), 1, mode);
        for (int i = 0; i < 3; i++) { float y = a[0] == a[1] ? x[i] : ya[i]; put(m, ti == 0 ? str(value{y}) : ti == 1 ? str(value{make_vec(y, y)}) : str(value{std::vector<value>{y}}), i, mode); }
        c.state(id); c.step(); c.trace(); c.outcome(show(m));
        c.check(data(t) == m, mc::cat("scaled ", ti), mc::cat(id, ": ", show(data(t)), " expected ", show(m)));
      }
}
// inlets that listen to received messages
static void events(mc::ctx& c)
{
  const int D = c.thorough() ? 7 : 6;
  c.in("events", mc::cat("every history of <=", D, " operations: register/unregister two listening inlets of one parameter, one of another and a pattern inlet, receive a value, tick"));
  static const char* ON[] = {"reg0", "reg1", "reg2", "unreg0", "unreg1", "unreg2", "recv a", "recv b", "tick"};
  mc::words(9, D, [&](const ints& w) {
    if (w.back() != 8) return;
    auto id = "ev " + mc::join(w);
    // registering twice or unregistering what is not registered is not a history of the engine
    { int r[3] = {}; for (int o : w) if (o < 3 && r[o]++) return; else if (o >= 3 && o < 6 && !r[o - 3]--) return; }
    if (!c.want(id)) return;
    net::generic_device dev{std::make_unique<proto>(), "d"};
    net::parameter_base* P[2] = {net::create_node(dev, "/a").create_parameter(val_type::INT), net::create_node(dev, "/b").create_parameter(val_type::INT)};
    execution_state e; e.register_device(&dev); e.begin_tick();
    value_inlet in[3]; for (int i = 0; i < 3; i++) { if (i == 2) in[i].address = *traversal::make_path("d:/?"); else in[i].address = P[0]; in[i].target<value_port>()->is_event = true; }
    int reg[3] = {}; std::vector<std::string> pend[2]; int k = 0, nt = 0;
    std::string desc;
    for (int o : w)
    {
      desc += ON[o]; desc += ", ";
      if (o < 3) { e.register_port(in[o]); reg[o] = 1; }
      else if (o < 6) { e.unregister_port(in[o - 3]); reg[o - 3] = 0; }
      else if (o < 8)
      {
        int q = o - 6; k++; P[q]->set_value(k);
        bool l = reg[2] || (q == 0 && (reg[0] || reg[1]));
        if (l) pend[q].push_back(str(value(k)));
      }
      else
      {
        e.begin_tick(); nt++;
        for (int i = 0; i < 3; i++) if (reg[i])
        {
          value_port& v = *in[i].target<value_port>(); v.clear();
          graph_util::pull_from_parameter(in[i], e);
          std::vector<std::string> want = pend[0]; if (i == 2) want.insert(want.end(), pend[1].begin(), pend[1].end());
          std::vector<std::string> got; for (auto& [s, t] : data(v)) got.push_back(s);
          std::sort(got.begin(), got.end()); auto ws = want; std::sort(ws.begin(), ws.end());
          bool ok = got == ws; got.clear(); for (auto& [s, t] : data(v)) got.push_back(s);
          if (i < 2) ok = ok && got == want;
          c.check(ok, mc::cat("received ", i), mc::cat(desc, " inlet ", i, " gets ", show(data(v)), " expected ", want.size(), " values"));
          c.outcome(show(data(v)));
        }
        pend[0].clear(); pend[1].clear();
      }
    }
    c.state(mc::cat(reg[0], reg[1], reg[2], nt, k)); c.step(D); c.trace();
  });
}
static audio_vector av(const std::vector<std::vector<double>>& v) { audio_vector r; r.resize(v.size()); for (size_t i = 0; i < v.size(); i++) { r[i].resize(v[i].size()); for (size_t k = 0; k < v[i].size(); k++) r[i][k] = v[i][k]; } return r; }
static std::string show(const std::vector<std::vector<double>>& v) { std::string s; for (auto& ch : v) { s += "["; for (auto x : ch) s += mc::cat(x, " "); s += "]"; } return s; }
static std::vector<std::vector<double>> rd(const audio_vector& a) { std::vector<std::vector<double>> r; for (auto& ch : a) r.emplace_back(ch.begin(), ch.end()); return r; }
static void mixv(std::vector<std::vector<double>>& m, const std::vector<std::vector<double>>& s)
{ if (m.size() < s.size()) m.resize(s.size()); for (size_t i = 0; i < s.size(); i++) { if (m[i].size() < s[i].size()) m[i].resize(s[i].size()); for (size_t k = 0; k < s[i].size(); k++) m[i][k] += s[i][k]; } }
static void audio(mc::ctx& c)
{
  c.in("audio", "every sequence of <=4 mixes of buffers of different shapes into a port, with clears; outlets: channels x gain x pan x gain messages");
  static const std::vector<std::vector<std::vector<double>>> B{{{1, 2}}, {{4, 8}, {16, 32}}, {{64}}, {{}, {128, 256, 512}}, {}};
  for (int n = 1; n <= 4; n++)
    mc::words(6, n, [&](const ints& w) {
      auto id = "mix " + mc::join(w);
      if (!c.want(id)) return;
      audio_port p; std::vector<std::vector<double>> m;
      for (int o : w) { if (o == 5) { clear_data{}(p); for (auto& x : m) x.clear(); } else { audio_port s; s.samples = av(B[o]); copy_data{}(s, p); mixv(m, B[o]); } }
      c.state(show(m)); c.step(n); c.trace(); c.outcome(show(m));
      c.check(rd(p.samples) == m, "mix", mc::cat(id, ": ", show(rd(p.samples)), " expected ", show(m)));
    });
  static const double GN[] = {1, 0.5, 0, 2};
  for (int ch = 0; ch <= 4; ch++) for (double g : GN) for (int pan = 0; pan < 3; pan++) for (int msg = 0; msg < 3; msg++)
  {
    auto id = mc::cat("out ", ch, " ", g, " ", pan, " ", msg);
    if (!c.want(id)) continue;
    audio_outlet o; o.gain = g;
    if (pan == 1) { o.pan.clear(); o.pan.push_back(0.25); o.pan.push_back(4); } else if (pan == 2) o.pan.clear();
    if (msg) o.gain_inlet.data.write_value(0.125f, 0); if (msg == 2) o.gain_inlet.data.write_value(0.25f, 1);
    std::vector<std::vector<double>> in; for (int i = 0; i < ch; i++) in.push_back({double(1 << i), double(8 << i), -1.});
    o.data.samples = av(in); o.post_process();
    double eg = msg == 0 ? g : msg == 1 ? 0.125 : 0.25;
    for (int i = 0; i < ch; i++) for (auto& x : in[i]) x *= eg * (ch > 1 && pan == 1 && i < 2 ? (i ? 4 : 0.25) : 1); // the pan applies to multi-channel outlets
    c.state(id); c.step(); c.trace(); c.outcome(show(in));
    c.check(rd(o.data.samples) == in, "outlet gain", mc::cat(id, ": ", show(rd(o.data.samples)), " expected ", show(in)));
    audio_outlet o2; o2.gain = eg; o2.pan = o.pan; if (pan == 1) { o2.pan[0] = 0.25; o2.pan[1] = 4; }
    std::vector<std::vector<double>> src; for (int i = 0; i < ch; i++) src.push_back({double(1 << i), double(8 << i), -1.});
    audio_port ip; ip.samples = av(src);
    if (ch == 1) process_audio_out_mono(ip, o2); else if (ch > 1) process_audio_out_general(ip, o2);
    c.check(rd(o2.data.samples) == in, "outlet gain from", mc::cat(id, ": ", show(rd(o2.data.samples)), " expected ", show(in)));
  }
}
// a sound device: what nodes write to its outputs is what it plays, however the buffer is cut into ticks
static void device(mc::ctx& c)
{
  c.in("device", "0-2 inputs x 0-2 outputs x four mappings x every cutting of a 4-frame buffer into ticks; two successive buffers, the second with other channel counts");
  for (int ni = 0; ni <= 2; ni++) for (int no = 0; no <= 2; no++) for (int mp = 0; mp < 4; mp++) for (int cut = 0; cut < 8; cut++) for (int n2 = 0; n2 < 9; n2++)
  {
    auto id = mc::cat("dev ", ni, no, " ", mp, " ", cut, " ", n2);
    if (!c.want(id)) continue;
    c.state(id);
    auto up = std::make_unique<audio_protocol>(); auto& pr = *up;
    net::generic_device dev{std::move(up), "audio"}; pr.set_device(dev);
    pr.setup_tree(ni, no);
    audio_mapping m; if (mp == 1) m = {0}; if (mp == 2) m = {1, 0}; if (mp == 3) m = {2, 1};
    auto& nmo = net::create_node(dev, "/mapout"); auto pmo = new mapped_audio_parameter(true, m, nmo); nmo.set_parameter(std::unique_ptr<net::parameter_base>(pmo));
    auto& nmi = net::create_node(dev, "/mapin"); auto pmi = new mapped_audio_parameter(false, m, nmi); nmi.set_parameter(std::unique_ptr<net::parameter_base>(pmi));
    auto& nv = net::create_node(dev, "/bus"); auto pv = new virtual_audio_parameter(2, nv); nv.set_parameter(std::unique_ptr<net::parameter_base>(pv));
    execution_state e; e.register_device(&dev); e.begin_tick();
    for (int buf = 0; buf < 2; buf++)
    {
      int i_ = buf ? n2 / 3 : ni, o_ = buf ? n2 % 3 : no;
      std::vector<std::unique_ptr<float[]>> I, O; std::vector<float*> ip, op;
      for (int i = 0; i < i_; i++) { I.emplace_back(new float[4]); for (int k = 0; k < 4; k++) I.back()[k] = 100 * (i + 1) + k; ip.push_back(I.back().get()); }
      for (int i = 0; i < o_; i++) { O.emplace_back(new float[4]); for (int k = 0; k < 4; k++) O.back()[k] = -9999; op.push_back(O.back().get()); }
      audio_tick_state ts; ts.inputs = ip.data(); ts.outputs = op.data(); ts.n_in = i_; ts.n_out = o_; ts.frames = 4;
      pr.setup_buffers(ts);
      std::vector<std::vector<double>> want(o_, std::vector<double>(4));
      std::vector<std::unique_ptr<ossia::audio_port>> keep;
      for (int f = 0; f < 4;)
      {
        int n = 1; while (f + n < 4 && !(cut >> (f + n - 1) & 1)) n++;
        e.begin_tick();
        auto write = [&](net::parameter_base* p, int chans, int base) { audio_port a; std::vector<std::vector<double>> s; for (int q = 0; q < chans; q++) { s.emplace_back(); for (int k = 0; k < n; k++) s.back().push_back(base * (q + 1) + f + k); } a.samples = av(s); e.insert(static_cast<audio_parameter&>(*p), a); };
        // every output parameter of the first set-up is still addressed by nodes
        for (int q = 0; q < std::max(no, o_); q++) if (auto nd = net::find_node(dev.get_root_node(), mc::cat("/out/", q))) write(nd->get_parameter(), 1, 1000);
        if (auto nd = net::find_node(dev.get_root_node(), "/out/main")) write(nd->get_parameter(), 2, 1);
        write(pmo, 2, 10); write(pmo, 1, 3);
        for (int q = 0; q < o_; q++) for (int k = 0; k < n; k++)
        {
          double x = 1000 + f + k; x += (q + 1) + f + k;
          for (size_t j = 0; j < m.size() && j < 2; j++) if (m[j] == q) { x += 10 * (j + 1) + f + k; if (j == 0) x += 3 + f + k; }
          want[q][f + k] += x;
        }
        // what inputs deliver in this tick
        auto inp = [&](net::parameter_base* p, const std::vector<int>& chs, const char* nm) {
          audio_inlet il; il.address = p; e.copy_from_global(*p, il); auto got = rd(il.data.samples); bool ok = got.size() == chs.size();
          for (size_t q = 0; ok && q < chs.size(); q++) { if (chs[q] >= i_) ok = got[q].empty(); else { ok = got[q].size() == size_t(4 - f); for (int k = 0; ok && k < n; k++) ok = got[q][k] == 100 * (chs[q] + 1) + f + k; } }
          c.check(ok, mc::cat("input ", nm), mc::cat(id, " buffer ", buf, " frame ", f, ": ", show(got))); };
        ints all; for (int q = 0; q < i_; q++) all.push_back(q);
        if (auto nd = net::find_node(dev.get_root_node(), "/in/main")) inp(nd->get_parameter(), all, "main");
        for (int q = 0; q < i_; q++) if (auto nd = net::find_node(dev.get_root_node(), mc::cat("/in/", q))) inp(nd->get_parameter(), {q}, "channel");
        inp(pmi, ints(m.begin(), m.end()), "mapped");
        for (int q = i_; q < ni; q++) if (auto nd = net::find_node(dev.get_root_node(), mc::cat("/in/", q))) { audio_inlet il; il.address = nd->get_parameter(); e.copy_from_global(*nd->get_parameter(), il); }
        // a bus carries what was sent to it in this tick, and only that
        write(pv, 2, 7); e.commit();
        { audio_inlet il; il.address = pv; e.copy_from_global(*pv, il); auto got = rd(il.data.samples); bool ok = got.size() == 2; for (int q = 0; ok && q < 2; q++) for (int k = 0; ok && k < n; k++) ok = int(got[q].size()) >= n && got[q][k] == 7 * (q + 1) + f + k; c.check(ok, "bus", mc::cat(id, " buffer ", buf, " frame ", f, ": ", show(got))); }
        if (cut) e.advance_tick(n); c.step(); // whole-buffer ticks do not advance
        f += n;
      }
      std::vector<std::vector<double>> got; for (auto& o : O) got.emplace_back(o.get(), o.get() + 4);
      c.check(got == want, "played", mc::cat(id, " buffer ", buf, ": ", show(got), " expected ", show(want))); c.outcome(show(got));
    }
    c.trace();
  }
}
static void midi(mc::ctx& c)
{
  c.in("midi", "message builders of a MIDI port x 16 channels x data bytes; transfers between ports");
  for (int ch = 1; ch <= 16; ch++) for (int kind = 0; kind < 7; kind++)
  {
    auto id = mc::cat("midi ", ch, " ", kind);
    if (!c.want(id)) continue;
    midi_port p;
    for (int a : {0, 1, 63, 64, 127}) for (int b : {0, 1, 64, 127})
    {
      p.messages.clear(); ints want;
      switch (kind)
      {
        case 0: p.note_on(ch, a, b); want = {0x90 | (ch - 1), a, b}; break;
        case 1: p.note_off(ch, a, b); want = {0x80 | (ch - 1), a, b}; break;
        case 2: p.control_change(ch, a, b); want = {0xB0 | (ch - 1), a, b}; break;
        case 3: p.program_change(ch, a); want = {0xC0 | (ch - 1), a}; break;
        case 4: p.pitch_bend(ch, a + 128 * b); want = {0xE0 | (ch - 1), a, b}; break;
        case 5: p.poly_pressure(ch, a, b); want = {0xA0 | (ch - 1), a, b}; break;
        case 6: p.aftertouch(ch, a); want = {0xD0 | (ch - 1), a}; break;
      }
      ints got; if (p.messages.size() == 1) for (auto x : p.messages[0].bytes) got.push_back(x);
      c.check(got == want, mc::cat("midi bytes ", kind), mc::cat(id, " ", a, " ", b, ": ", mc::join(got, ' '), " expected ", mc::join(want, ' ')));
      c.check(p.messages[0].get_channel() == ch, "midi channel", id); c.step(); c.outcome(mc::join(got));
      midi_port q; copy_data{}(p, q); copy_data{}(p, q); c.check(q.messages.size() == 2 && q.messages[1].bytes == p.messages[0].bytes, "midi copy", id);
    }
    c.state(id); c.trace();
  }
}
int main(int argc, char** argv) { return mc::ctx::get().run(argc, argv, [](mc::ctx& c) { writes(c); conversions(c); events(c); audio(c); device(c); midi(c); }); }
