#pragma once
// In-memory stand-in for websocketpp's endpoints and for HTTP: nothing reaches a real network, and nothing moves
// until the test says so: every message waits in a queue and is handed over by FakeWs::step().
#include <boost/asio.hpp>
#include <atomic>
#include <condition_variable>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <string>
#include <system_error>
#include <thread>
#include <vector>
namespace websocketpp {
using connection_hdl = std::weak_ptr<void>;
namespace frame { namespace opcode { enum value { continuation = 0, text = 1, binary = 2, CONTINUATION = 0, TEXT = 1, BINARY = 2 }; } }
namespace close { namespace status { using value = uint16_t; static const value normal = 1000, going_away = 1001; } }
namespace http { namespace status_code { enum value { uninitialized = 0, ok = 200, bad_request = 400, not_found = 404, internal_server_error = 500 }; } }
namespace log { struct alevel { static constexpr int all = -1, app = 1; }; struct elevel { static constexpr int all = -1; }; }
namespace lib { using std::error_code; using std::mutex; template <typename T> using lock_guard = std::lock_guard<T>; using std::thread; }
struct exception : std::runtime_error { using std::runtime_error::runtime_error; };
struct fake_message { frame::opcode::value op; std::string data; frame::opcode::value get_opcode() const { return op; } std::string& get_raw_payload() { return data; } const std::string& get_payload() const { return data; } };
struct fake_uri { std::string res; std::string get_resource() const { return res; } };
struct fake_server;
struct fake_client;
struct fake_log { template <typename... A> void write(A&&...) {} };
//! one connection, seen from either end (or one HTTP request, seen from the server)
struct fake_connection : std::enable_shared_from_this<fake_connection>
{
  using P = std::shared_ptr<fake_message>;
  std::deque<P> to_server, to_client; fake_server* server{}; fake_client* client{}; std::shared_ptr<int> client_end = std::make_shared<int>(0);
  bool open{}; int number{}; std::string body; int status{200}; std::map<std::string, std::string> headers; std::shared_ptr<fake_uri> uri = std::make_shared<fake_uri>();
  std::size_t sent{};
  connection_hdl get_handle() { return client_end; }
  std::shared_ptr<fake_uri> get_uri() { return uri; }
  void append_header(const std::string& k, const std::string& v) { headers[k] = v; }
  void replace_header(const std::string& k, const std::string& v) { headers[k] = v; }
  void set_body(std::string b) { body = std::move(b); }
  void set_status(http::status_code::value s) { status = s; }
  std::string get_remote_endpoint() { return "127.0.0.1:" + std::to_string(40000 + number); }
  boost::asio::ip::tcp::socket& get_raw_socket();
  void send(const void* d, std::size_t n, frame::opcode::value op);
  void send(const std::string& s, frame::opcode::value op = frame::opcode::text) { send(s.data(), s.size(), op); }
  template <typename... A> void close(A&&...);
  void send_close() {}
};
struct FakeWs
{
  std::recursive_mutex m; std::map<int, fake_server*> servers; std::vector<std::shared_ptr<fake_connection>> conns; int count{};
  struct http { int port; std::string path; std::function<void(int, std::string)> reply; bool answered{}; int status{}; std::string body; void* owner{}; };
  std::deque<std::shared_ptr<http>> requests;
  int lost{}; //!< messages sent on connections that are gone
  static FakeWs& get() { static FakeWs f; return f; }
  //! what can move: 2i, 2i + 1: next message of connection i to the server, to the client; -1: next HTTP request
  std::vector<int> ready() { std::lock_guard<std::recursive_mutex> l{m}; std::vector<int> r; for (auto& c : conns) { if (!c->to_server.empty() && c->server) r.push_back(2 * c->number); if (!c->to_client.empty() && c->client) r.push_back(2 * c->number + 1); } if (!requests.empty()) r.push_back(-1); return r; }
  void step(int what);
  std::shared_ptr<fake_connection> find(int n) { for (auto& c : conns) if (c->number == n) return c; return nullptr; }
};
struct fake_endpoint
{
  template <typename... A> void init_asio(A&&...) {}
  template <typename... A> void set_reuse_addr(A&&...) {}
  template <typename... A> void clear_access_channels(A&&...) {}
  template <typename... A> void clear_error_channels(A&&...) {}
  template <typename... A> void set_socket_init_handler(A&&...) {}
  std::function<void(connection_hdl)> on_open, on_close, on_fail, on_http; std::function<void(connection_hdl, std::shared_ptr<fake_message>)> on_message;
  template <typename F> void set_open_handler(F f) { on_open = std::move(f); }
  template <typename F> void set_close_handler(F f) { on_close = std::move(f); }
  template <typename F> void set_fail_handler(F f) { on_fail = std::move(f); }
  template <typename F> void set_http_handler(F f) { on_http = std::move(f); }
  template <typename F> void set_message_handler(F f) { on_message = [f = std::move(f)](connection_hdl h, std::shared_ptr<fake_message> m) mutable { f(h, m); }; }
  fake_log log_; fake_log& get_alog() { return log_; } fake_log& get_elog() { return log_; }
  std::mutex rm; std::condition_variable rcv; bool stopped{};
  void block() { std::unique_lock<std::mutex> l{rm}; rcv.wait(l, [&] { return stopped; }); }
  void unblock() { { std::lock_guard<std::mutex> l{rm}; stopped = true; } rcv.notify_all(); }
};
struct fake_server : fake_endpoint
{
  using message_ptr = std::shared_ptr<fake_message>; using connection_ptr = std::shared_ptr<fake_connection>;
  int port{};
  template <typename P> void listen(P, uint16_t p) { listen(p); }
  void listen(uint16_t p) { auto& f = FakeWs::get(); std::lock_guard<std::recursive_mutex> l{f.m}; if (f.servers.count(p)) throw exception("port in use"); f.servers[p] = this; port = p; }
  void start_accept() {}
  bool is_listening() const { return port; }
  void stop_listening() { auto& f = FakeWs::get(); std::lock_guard<std::recursive_mutex> l{f.m}; if (port) f.servers.erase(port); port = 0; }
  void run() { block(); }
  void stop() { stop_listening(); auto& f = FakeWs::get(); { std::lock_guard<std::recursive_mutex> l{f.m}; for (auto& c : f.conns) if (c->server == this) { c->server = nullptr; c->to_server.clear(); c->open = false; } } unblock(); }
  ~fake_server() { stop(); }
  connection_ptr get_con_from_hdl(connection_hdl h) { auto p = std::static_pointer_cast<fake_connection>(h.lock()); if (!p) throw exception("Bad Connection"); return p; }
};
struct fake_client : fake_endpoint
{
  using message_ptr = std::shared_ptr<fake_message>; using connection_ptr = std::shared_ptr<fake_connection>;
  std::shared_ptr<fake_connection> c;
  connection_ptr get_connection(const std::string& uri, lib::error_code& ec)
  {
    auto& f = FakeWs::get(); std::lock_guard<std::recursive_mutex> l{f.m};
    auto p = std::make_shared<fake_connection>(); p->number = f.count++; auto i = uri.find_last_of(':'); int port = i == std::string::npos ? 80 : std::atoi(uri.c_str() + i + 1);
    p->uri->res = "/"; if (auto s = f.servers.find(port); s != f.servers.end()) p->server = s->second;
    p->client = this; return p;
  }
  void connect(connection_ptr p) { c = p; auto& f = FakeWs::get(); std::lock_guard<std::recursive_mutex> l{f.m}; f.conns.push_back(p); }
  void run()
  {
    auto& f = FakeWs::get(); auto p = c; { std::lock_guard<std::recursive_mutex> l{f.m}; p->open = p->server; }
    if (!p->open) { if (on_fail) on_fail(p->get_handle()); return; }
    { std::lock_guard<std::recursive_mutex> l{f.m}; if (p->server->on_open) p->server->on_open(p); if (on_open) on_open(p->get_handle()); }
    block();
  }
  void drop() { auto& f = FakeWs::get(); std::lock_guard<std::recursive_mutex> l{f.m}; if (c) { c->client = nullptr; c->to_client.clear(); auto p = c; c.reset(); bool was = p->open; p->open = false; if (was && p->server && p->server->on_close) p->server->on_close(p); for (auto it = f.conns.begin(); it != f.conns.end(); ++it) if (*it == p) { f.conns.erase(it); break; } } }
  void stop() { drop(); unblock(); }
  template <typename... A> void close(A&&...) { drop(); unblock(); }
  void reset() { std::lock_guard<std::mutex> l{rm}; stopped = false; }
  void send(connection_hdl, const void* d, std::size_t n, frame::opcode::value op, lib::error_code& ec)
  {
    auto& f = FakeWs::get(); std::lock_guard<std::recursive_mutex> l{f.m};
    if (!c || !c->open) { ec = std::make_error_code(std::errc::not_connected); return; }
    c->to_server.push_back(std::make_shared<fake_message>(fake_message{op, std::string(static_cast<const char*>(d), n)}));
  }
  void send(connection_hdl h, const std::string& s, frame::opcode::value op, lib::error_code& ec) { send(h, s.data(), s.size(), op, ec); }
  ~fake_client() { drop(); }
};
inline void fake_connection::send(const void* d, std::size_t n, frame::opcode::value op)
{
  auto& f = FakeWs::get(); std::lock_guard<std::recursive_mutex> l{f.m};
  if (!open) { f.lost++; return; }
  sent++; to_client.push_back(std::make_shared<fake_message>(fake_message{op, std::string(static_cast<const char*>(d), n)}));
}
template <typename... A> void fake_connection::close(A&&...)
{
  auto& f = FakeWs::get(); std::lock_guard<std::recursive_mutex> l{f.m}; if (!open) return; open = false; if (client) { auto* cl = client; cl->unblock(); if (cl->on_close) cl->on_close(get_handle()); }
}
inline boost::asio::ip::tcp::socket& fake_connection::get_raw_socket()
{
  // only used to ask for the peer's address: one real connection to ourselves, shared
  struct pair { boost::asio::io_context io; boost::asio::ip::tcp::acceptor a{io, {boost::asio::ip::address_v4::loopback(), 0}}; boost::asio::ip::tcp::socket s{io}, t{io}; pair() { s.connect(a.local_endpoint()); a.accept(t); } };
  static pair* p = new pair; return p->t;
}
inline void FakeWs::step(int what)
{
  if (what == -1)
  {
    std::shared_ptr<http> r; fake_server* s{};
    { std::lock_guard<std::recursive_mutex> l{m}; r = requests.front(); if (r->answered) requests.pop_front(); if (auto i = servers.find(r->port); i != servers.end()) s = i->second; }
    if (!r->answered)
    {
      auto p = std::make_shared<fake_connection>(); p->number = -1; p->uri->res = r->path; r->answered = true; r->status = 0;
      if (s && s->on_http) { s->on_http(p); r->status = p->status; r->body = p->body; }
    }
    else r->reply(r->status, r->body);
    return;
  }
  std::shared_ptr<fake_connection> c; std::shared_ptr<fake_message> x;
  { std::lock_guard<std::recursive_mutex> l{m}; c = find(what / 2); if (!c) return; auto& q = what % 2 ? c->to_client : c->to_server; if (q.empty()) return; x = q.front(); q.pop_front(); }
  if (what % 2) { if (c->client && c->client->on_message) c->client->on_message(c->get_handle(), x); }
  else if (c->server && c->server->on_message) c->server->on_message(c, x);
}
namespace config { struct asio {}; struct asio_client {}; struct core {}; }
template <typename C> struct server : fake_server {};
template <typename C> struct client : fake_client {};
}
