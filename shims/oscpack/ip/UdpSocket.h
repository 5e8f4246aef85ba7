#pragma once
// In-memory stand-in for oscpack's UDP sockets: nothing ever reaches a real network.
// Sent datagrams are recorded; datagrams to a bound port are queued for its receiver.
#include <condition_variable>
#include <cstdio>
#include <cstdint>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
namespace oscpack {
struct IpEndpointName {
  static constexpr unsigned long ANY_ADDRESS = 0xFFFFFFFFul;
  static constexpr int ANY_PORT = -1;
  enum { ADDRESS_STRING_LENGTH = 17, ADDRESS_AND_PORT_STRING_LENGTH = 23 };
  IpEndpointName() = default;
  explicit IpEndpointName(int p) : port{p} {}
  IpEndpointName(unsigned long a, int p) : address{a}, port{p} {}
  IpEndpointName(const char* n, int p = ANY_PORT) : port{p}
  {
    unsigned a = 0, b = 0, c = 0, d = 0;
    std::string s{n ? n : ""};
    if (s == "localhost") s = "127.0.0.1";
    if (std::sscanf(s.c_str(), "%u.%u.%u.%u", &a, &b, &c, &d) == 4) address = (a << 24) | (b << 16) | (c << 8) | d;
  }
  void AddressAsString(char* s) const
  {
    std::snprintf(s, ADDRESS_STRING_LENGTH, "%u.%u.%u.%u", unsigned(address >> 24 & 255), unsigned(address >> 16 & 255), unsigned(address >> 8 & 255), unsigned(address & 255));
  }
  void AddressAndPortAsString(char* s) const
  {
    AddressAsString(s); std::string t{s}; t += ":" + std::to_string(port);
    std::snprintf(s, ADDRESS_AND_PORT_STRING_LENGTH, "%s", t.c_str());
  }
  bool IsMulticastAddress() const { return ((address >> 24) & 0xFF) >= 224 && ((address >> 24) & 0xFF) <= 239; }
  unsigned long address{ANY_ADDRESS};
  int port{ANY_PORT};
};
struct PacketListener { virtual ~PacketListener() = default; virtual void ProcessPacket(const char*, int, const IpEndpointName&) = 0; };
struct TimerListener { virtual ~TimerListener() = default; virtual void TimerExpired() = 0; };

//! the loopback "network" of the stand-in
struct FakeNet {
  struct Port { std::mutex m; std::condition_variable cv; std::deque<std::pair<std::vector<char>, int>> q; bool stop{}, busy{}; };
  std::mutex m;
  std::map<int, std::shared_ptr<Port>> bound;
  std::vector<std::pair<IpEndpointName, std::vector<char>>> sent; //!< every datagram sent, in order
  std::size_t total{};
  std::function<bool(int, const char*, std::size_t, int)> intercept; //!< (port, data, size, from): true when it takes the datagram
  //! wait until everything sent to a port has been processed
  void drain(int port)
  {
    std::shared_ptr<Port> p; { std::lock_guard<std::mutex> l{m}; auto it = bound.find(port); if (it != bound.end()) p = it->second; }
    if (!p) return;
    for (;;) { { std::lock_guard<std::mutex> l{p->m}; if (p->q.empty() && !p->busy) return; } std::this_thread::yield(); }
  }
  static FakeNet& get() { static FakeNet n; return n; }
  void send(const IpEndpointName& to, const char* d, std::size_t n, int from = 1)
  {
    std::shared_ptr<Port> p;
    {
      std::lock_guard<std::mutex> l{m};
      total++;
      sent.emplace_back(to, std::vector<char>(d, d + n));
      auto it = bound.find(to.port);
      if (it != bound.end()) p = it->second;
    }
    if (intercept && intercept(to.port, d, n, from)) return;
    deliver(p, d, n, from);
  }
  void deliver(const std::shared_ptr<Port>& p, const char* d, std::size_t n, int from) { if (p) { std::lock_guard<std::mutex> l{p->m}; p->q.emplace_back(std::vector<char>(d, d + n), from); p->cv.notify_all(); } }
  //! deliver a datagram and wait until its receiver has processed it
  void deliver_now(int port, const char* d, std::size_t n, int from)
  {
    std::shared_ptr<Port> p; { std::lock_guard<std::mutex> l{m}; auto it = bound.find(port); if (it != bound.end()) p = it->second; }
    deliver(p, d, n, from); drain(port);
  }
};
namespace detail { struct Implementation { std::shared_ptr<FakeNet::Port> p; IpEndpointName bound, remote; bool connected{}; }; }
template <typename Impl>
class UdpSocket {
public:
  UdpSocket() { static int next = 50000; m_local = next++; }
  virtual ~UdpSocket()
  {
    if (impl_.p) { std::lock_guard<std::mutex> l{FakeNet::get().m}; auto it = FakeNet::get().bound.find(impl_.bound.port); if (it != FakeNet::get().bound.end() && it->second == impl_.p) FakeNet::get().bound.erase(it); }
  }
  UdpSocket(const UdpSocket&) = delete;
  void SetEnableBroadcast(bool) {}
  void SetAllowReuse(bool) {}
  IpEndpointName LocalEndpointFor(const IpEndpointName&) const { return IpEndpointName{"127.0.0.1", m_local}; }
  int LocalPort() const { return impl_.p ? impl_.bound.port : m_local; }
  std::string LocalAddress() const { return "127.0.0.1"; }
  void Connect(const IpEndpointName& r) { impl_.remote = r; impl_.connected = true; }
  void Send(const char* d, std::size_t n) { if (!impl_.connected) throw std::logic_error("not connected"); FakeNet::get().send(impl_.remote, d, n, LocalPort()); }
  void SendTo(const IpEndpointName& r, const char* d, std::size_t n) { FakeNet::get().send(r, d, n, LocalPort()); }
  void Bind(const IpEndpointName& l)
  {
    std::lock_guard<std::mutex> lk{FakeNet::get().m};
    if (FakeNet::get().bound.count(l.port)) throw std::runtime_error("unable to bind udp socket");
    impl_.p = std::make_shared<FakeNet::Port>(); impl_.bound = l;
    FakeNet::get().bound[l.port] = impl_.p;
  }
  bool IsBound() const { return bool(impl_.p); }
  Impl impl_;
private:
  int m_local{};
};
template <typename Impl>
class UdpTransmitSocketT : public UdpSocket<Impl> { public: UdpTransmitSocketT(const IpEndpointName& r) { this->Connect(r); } };
using UdpTransmitSocket = UdpTransmitSocketT<detail::Implementation>;
template <typename Impl>
class SocketReceiveMultiplexer {
public:
  void AttachSocketListener(Impl* s, PacketListener* l) { m_s = s; m_l = l; }
  void DetachSocketListener(Impl*, PacketListener*) { m_s = nullptr; }
  void AttachPeriodicTimerListener(int, TimerListener*) {}
  void Run()
  {
    auto p = m_s->p;
    std::unique_lock<std::mutex> l{p->m};
    for (;;) {
      p->cv.wait(l, [&] { return p->stop || !p->q.empty(); });
      if (p->stop) { p->stop = false; return; }
      auto d = std::move(p->q.front()); p->q.pop_front(); p->busy = true;
      l.unlock(); m_l->ProcessPacket(d.first.data(), int(d.first.size()), IpEndpointName{"127.0.0.1", d.second}); l.lock(); p->busy = false;
    }
  }
  void Break() { AsynchronousBreak(); }
  void AsynchronousBreak() { if (!m_s || !m_s->p) return; auto p = m_s->p; std::lock_guard<std::mutex> l{p->m}; p->stop = true; p->cv.notify_all(); }
private:
  Impl* m_s{}; PacketListener* m_l{};
};
namespace detail {
template <typename Impl>
class UdpListeningReceiveSocket : public UdpSocket<Impl> {
  SocketReceiveMultiplexer<Impl> mux_; PacketListener* listener_;
public:
  UdpListeningReceiveSocket(const IpEndpointName& l, PacketListener* p) : listener_{p} { this->Bind(l); mux_.AttachSocketListener(&this->impl_, p); }
  ~UdpListeningReceiveSocket() { mux_.DetachSocketListener(&this->impl_, listener_); }
  void Run() { mux_.Run(); }
  void Break() { mux_.Break(); }
  void AsynchronousBreak() { mux_.AsynchronousBreak(); }
};
}
}
