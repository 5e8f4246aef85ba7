// C01: framed stream transports (SLIP, size prefix): every packet list, every segmentation.
#include "mc.hpp"
#include "fakestream.hpp"
#include <ossia/network/sockets/size_prefix_framing.hpp>
#include <ossia/network/sockets/slip_framing.hpp>
using mc::cat;
using msgs = std::vector<std::string>;

struct sink_t { msgs got; int closed{}, failed{}; void on_close() { closed++; } void on_fail() { failed++; } };
template <typename Framing> struct rx
{
  fake_stream s; sink_t sink;
  typename Framing::template decoder<fake_stream> dec{s};
  void start()
  {
    auto f = [this](const char* d, std::size_t n) { sink.got.emplace_back(d, n); };
    dec.receive(ossia::net::stream_processor<sink_t, decltype(f)>{sink, f});
  }
};
template <typename Framing> std::string encode(const msgs& m, std::size_t maxw = ~std::size_t(0))
{
  fake_stream s; s.max_write = maxw;
  typename Framing::template encoder<fake_stream> e{s};
  for (auto& x : m) e.write(x.data(), x.size());
  return s.written;
}
static std::string show(const msgs& m) { std::string s = "["; for (auto& x : m) { if (s.size() > 1) s += ","; s += x.size() > 40 ? mc::hex(x.substr(0, 40)) + cat("..(", x.size(), ")") : mc::hex(x); } return s + "]"; }

template <typename Framing> msgs decode(const std::string& bytes, const std::vector<std::size_t>& cuts, bool* asking = nullptr)
{
  rx<Framing> r; r.start();
  std::size_t o = 0;
  bool ok = true;
  for (auto c : cuts) { ok = r.s.segment(std::string_view(bytes).substr(o, c)); mc::ctx::get().step(); o += c; if (!ok) break; }
  if (asking) *asking = r.s.reading();
  return r.sink.got;
}
//! calls f(cuts) for every composition if the stream is short, else for every set of at most `maxcuts` cuts, plus byte-by-byte
template <typename F> void segmentations(std::size_t n, std::size_t full, int maxcuts, F f)
{
  if (n <= full) { mc::compositions(n, f); return; }
  f({n});
  for (std::size_t i = 1; i < n; i++) f({i, n - i});
  if (maxcuts >= 2)
    for (std::size_t i = 1; i < n; i++) for (std::size_t j = i + 1; j < n; j++) f({i, j - i, n - j});
  f(std::vector<std::size_t>(n, 1));
}
static std::vector<std::string> all_words(const std::string& al, int maxlen, int minlen = 1)
{
  std::vector<std::string> r;
  for (int n = minlen; n <= maxlen; n++) mc::words(al.size(), n, [&](auto& w) { std::string s; for (int i : w) s += al[i]; r.push_back(s); });
  return r;
}

template <typename Framing> void roundtrip(mc::ctx& c, const std::string& fr, const msgs& m, std::size_t full, int maxcuts)
{
  const auto bytes = encode<Framing>(m);
  c.state(fr + bytes);
  const auto base = cat(fr, " msgs=", show(m), " cuts=");
  segmentations(bytes.size(), full, maxcuts, [&](const std::vector<std::size_t>& cuts) {
    if (!c.want(base + mc::join(cuts))) return;
    bool asking{};
    auto got = decode<Framing>(bytes, cuts, &asking);
    c.trace();
    c.outcome(show(got));
    if (got != m) c.fail(cat(fr, "-roundtrip:", got.size() < m.size() ? "lost" : got.size() > m.size() ? "extra" : "altered"), cat("sent ", show(m), " as ", mc::hex(bytes), " got ", show(got)));
    else if (!asking) c.fail(fr + "-stopped-reading", cat("the receiver no longer reads after ", show(m)));
  });
  c.sample(cat(show(m), " -> ", mc::hex(bytes.substr(0, 24))));
}
template <typename Framing> void lists(mc::ctx& c, const std::string& fr, const std::string& al)
{
  const int L1 = c.thorough() ? 4 : 3;
  c.in(fr + "/one-packet", cat("every packet of 1..", L1, " bytes over ", al.size(), " symbols, every segmentation (streams <=12 bytes)"));
  for (auto& a : all_words(al, L1)) roundtrip<Framing>(c, fr, {a}, 12, 2);
  c.in(fr + "/two-packets", "every pair of packets of 1..2 bytes; every segmentation of streams <=10 bytes, otherwise every <=2 cuts and byte-by-byte");
  auto w2 = all_words(al, 2);
  for (auto& a : w2) for (auto& b : w2) roundtrip<Framing>(c, fr, {a, b}, c.thorough() ? 12 : 10, 2);
  c.in(fr + "/three-packets", "every triple of 1-byte packets; every segmentation of streams <=12 bytes");
  auto w1 = all_words(al, 1);
  for (auto& a : w1) for (auto& b : w1) for (auto& d : w1) roundtrip<Framing>(c, fr, {a, b, d}, 12, 2);
  c.in(fr + "/every-byte-value", "every single-byte packet (256) preceded and followed by another; every segmentation of <=2 cuts");
  for (int x = 0; x < 256; x++) roundtrip<Framing>(c, fr, {"k", std::string(1, char(x)), "l"}, 9, 2);
  c.in(fr + "/long-packets", "packets around the 1024-byte read size and up to 65536 bytes, at every offset of a special byte near the boundary");
  std::vector<int> sizes{1018, 1019, 1020, 1021, 1022, 1023, 1024, 1025, 2044, 2045, 2046, 2047, 2048, 2049, 4096, 65535, 65536};
  for (int n : sizes)
    for (int sp : {0, n / 2, n - 2, n - 1, 1019, 1020, 1021, 1022, 1023})
    {
      if (sp >= n) continue;
      for (char ch : {al[0], al[1]})
      {
        std::string s(n, '.'); for (int i = 0; i < n; i++) s[i] = "abcdefg"[i % 7];
        s[sp] = ch;
        msgs m{s, "tail"};
        auto bytes = encode<Framing>(m);
        c.state(cat(fr, n, ".", sp, ".", int(ch)));
        for (std::size_t chunk : {std::size_t(1) << 20, std::size_t(1024), std::size_t(1023), std::size_t(700), std::size_t(1)})
        {
          if (chunk == 1 && n > 3000) continue;
          if (!c.want(cat(fr, " long n=", n, " special@", sp, "=", int((unsigned char)ch), " chunk=", chunk))) continue;
          std::vector<std::size_t> cuts; for (std::size_t o = 0; o < bytes.size(); o += chunk) cuts.push_back(std::min(chunk, bytes.size() - o));
          auto got = decode<Framing>(bytes, cuts);
          c.trace();
          if (got != m) c.fail(fr + "-long", cat("sent ", show(m), " got ", show(got)));
        }
      }
    }
  c.in(fr + "/short-writes", "every packet of 1..3 bytes with the transport accepting 1, 2 or 3 bytes per write: same bytes on the wire");
  for (auto& a : all_words(al, 3))
    for (std::size_t mw : {1, 2, 3})
    {
      if (!c.want(cat(fr, " shortwrite ", mc::hex(a), " max=", mw))) continue;
      c.step(); c.trace(); c.state(cat(a, mw));
      auto x = encode<Framing>({a, "z"}), y = encode<Framing>({a, "z"}, mw);
      if (x != y) c.fail(fr + "-short-write", cat("wire differs: ", mc::hex(x), " vs ", mc::hex(y)));
    }
  c.in(fr + "/broadcast", "several clients: each receives the same, complete byte stream");
  struct client { std::string w; void write(const boost::asio::const_buffer& b) { w.append((const char*)b.data(), b.size()); } };
  for (int n = 0; n <= 3; n++)
    for (auto& a : all_words(al, 2))
    {
      if (!c.want(cat(fr, " broadcast n=", n, " ", mc::hex(a)))) continue;
      std::vector<std::unique_ptr<client>> cl; for (int i = 0; i < n; i++) cl.push_back(std::make_unique<client>());
      using W = ossia::net::multi_socket_writer<std::unique_ptr<client>>;
      W w{cl};
      typename Framing::template encoder<W> e{w};
      e.write(a.data(), a.size()); e.write("q", 1);
      c.step(); c.trace(); c.state(cat(n, a));
      auto ref = encode<Framing>({a, "q"});
      for (auto& k : cl) if (k->w != ref) c.fail(fr + "-broadcast", cat("client got ", mc::hex(k->w), " instead of ", mc::hex(ref)));
    }
  c.in(fr + "/end-of-stream", "stream end or abort after every prefix of two packets: complete packets delivered, nothing else, the owner told once, no further read");
  for (int err = 0; err < 2; err++)
  {
    msgs m{std::string("a") + al[0], "b"};
    auto bytes = encode<Framing>(m);
    auto one = encode<Framing>({m[0]}).size();
    for (std::size_t k = 0; k <= bytes.size(); k++)
    {
      for (int bytewise = 0; bytewise < 2; bytewise++)
      {
        if (!c.want(cat(fr, " end err=", err, " after=", k, " bytewise=", bytewise))) continue;
        rx<Framing> r; r.start();
        if (bytewise) for (std::size_t i = 0; i < k; i++) r.s.segment(bytes.substr(i, 1)); else r.s.segment(bytes.substr(0, k));
        c.step(k + 1); c.trace(); c.state(cat(err, k, bytewise));
        if (!r.s.reading()) { c.fail(fr + "-stopped-reading", "stopped before the end of the stream"); continue; }
        r.s.fail(err ? boost::asio::error::operation_aborted : boost::system::error_code(boost::asio::error::eof));
        msgs expect; if (k >= one) expect.push_back(m[0]); if (k >= bytes.size()) expect.push_back(m[1]);
        if (r.sink.got != expect) c.fail(fr + "-end-delivery", cat("after ", k, " bytes then end: got ", show(r.sink.got), " expected ", show(expect)));
        if (r.sink.closed != (err ? 0 : 1) || r.sink.failed != (err ? 1 : 0)) c.fail(fr + "-end-notify", cat("closed ", r.sink.closed, " failed ", r.sink.failed, " err ", err));
        if (r.s.reading()) c.fail(fr + "-end-still-reading", "reads on after the end of the stream");
      }
    }
  }
}
static void explore(mc::ctx& c)
{
  using namespace ossia::net;
  const std::string al{"\xC0\xDB\xDC\xDD\x00" "a", 6};
  lists<slip_framing>(c, "slip", al);
  lists<size_prefix_framing>(c, "size", std::string{"\x00\x01\xFF" "a", 4});

  c.in("slip/wire-format", "every packet of 1..3 bytes: the encoded stream is END, escaped payload, END as RFC 1055 defines");
  for (auto& a : all_words(al, 3))
  {
    if (!c.want(cat("slip wire ", mc::hex(a)))) continue;
    std::string ref = "\xC0"; for (char ch : a) { if (ch == '\xC0') ref += "\xDB\xDC"; else if (ch == '\xDB') ref += "\xDB\xDD"; else ref += ch; } ref += "\xC0";
    c.step(); c.trace(); c.state(a);
    auto e = encode<slip_framing>({a});
    if (e != ref) c.fail("slip-wire", cat("encoded ", mc::hex(a), " as ", mc::hex(e)));
  }
  c.in("size/wire-format", "every packet of 1..3 bytes and sizes 255..257, 65535, 65536: big-endian 32-bit length then the payload");
  {
    auto ws = all_words(al, 3); for (int n : {255, 256, 257, 65535, 65536}) ws.push_back(std::string(n, 'x'));
    for (auto& a : ws)
    {
      if (!c.want(cat("size wire ", a.size(), " ", mc::hex(a.substr(0, 4))))) continue;
      uint32_t n = a.size();
      std::string ref{char(n >> 24), char(n >> 16), char(n >> 8), char(n)}; ref += a;
      c.step(); c.trace(); c.state(a);
      if (encode<size_prefix_framing>({a}) != ref) c.fail("size-wire", cat("encoded ", a.size(), " bytes wrongly"));
    }
  }
  const int G = c.thorough() ? 7 : 5;
  c.in("slip/any-stream", cat("every byte stream of <=", G + 1, " bytes over {END,ESC,ESC_END,ESC_ESC,a}: what is delivered does not depend on the segmentation, and every delivered packet is non-empty"));
  for (int n = 1; n <= G + 1; n++)
    mc::words(5, n, [&](auto& w) {
      std::string s; for (int i : w) s += "\xC0\xDB\xDC\xDD" "a"[i];
      auto id = cat("slip stream ", mc::hex(s));
      if (!c.want(id)) return;
      c.state(s);
      auto ref = decode<slip_framing>(s, {s.size()});
      c.outcome(show(ref));
      for (auto& m : ref) if (m.empty()) c.fail("slip-empty-packet", "an empty packet was delivered");
      mc::compositions(s.size(), [&](auto& cuts) {
        auto g = decode<slip_framing>(s, cuts);
        c.trace();
        if (g != ref) c.fail("slip-segmentation", cat("stream ", mc::hex(s), " cut ", mc::join(cuts), " gives ", show(g), " instead of ", show(ref)));
      });
    });
  c.in("slip/resync", cat("every corrupted prefix of <=", G, " bytes over {END,ESC,ESC_END,a} before 4 valid packets: at most the first packet is lost, the others arrive intact and in order, last"));
  for (int n = 0; n <= G; n++)
    mc::words(4, n, [&](auto& w) {
      std::string s; for (int i : w) s += "\xC0\xDB\xDC" "a"[i];
      if (!c.want(cat("slip resync ", mc::hex(s)))) return;
      c.state(s);
      auto bytes = s + encode<slip_framing>({"p1", "p2", "p3", "p4"});
      auto g = decode<slip_framing>(bytes, {bytes.size()});
      c.trace(); c.outcome(show(g));
      msgs tail; for (auto it = g.size() > 3 ? g.end() - 3 : g.begin(); it != g.end(); ++it) tail.push_back(*it);
      if (tail != msgs{"p2", "p3", "p4"}) c.fail("slip-resync", cat("after noise ", mc::hex(s), " delivered ", show(g)));
    });
}
MC_MAIN(explore)
