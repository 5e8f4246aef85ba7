#pragma once
// In-memory stand-in: requests wait in FakeWs until the test lets them through.
#include <ossia/detail/config.hpp>
#include <ossia/detail/logger.hpp>
#include <websocketpp/fake.hpp>
namespace ossia { namespace net {
using tcp = boost::asio::ip::tcp;
template <typename Fun, typename Err>
class http_get_request : public std::enable_shared_from_this<http_get_request<Fun, Err>>
{
  Fun m_fun; Err m_err; std::string m_path; void* m_ctx;
public:
  http_get_request(Fun f, Err err, boost::asio::io_context& ctx, const std::string&, const std::string& path) : m_fun{std::move(f)}, m_err{std::move(err)}, m_ctx{&ctx}
  {
    for (char c : path) if (c != ' ') m_path += c; else m_path += "%20";
  }
  void resolve(const std::string&, const std::string& port)
  {
    auto& f = websocketpp::FakeWs::get(); std::lock_guard<std::recursive_mutex> l{f.m};
    auto r = std::make_shared<websocketpp::FakeWs::http>(); r->port = std::atoi(port.c_str()); r->path = m_path; r->owner = m_ctx;
    r->reply = [self = this->shared_from_this()](int status, std::string body) { if (status == 200) self->m_fun(*self, body); };
    f.requests.push_back(r);
  }
  void close() {}
};
} }
