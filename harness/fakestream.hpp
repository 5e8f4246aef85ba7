#pragma once
// A stream socket stand-in whose read and write segmentation the harness decides.
#include <boost/asio/buffer.hpp>
#include <boost/asio/error.hpp>
#include <boost/asio/io_context.hpp>
#include <boost/asio/read.hpp>
#include <boost/asio/write.hpp>
#include <memory>
#include <string>
#include <vector>
struct fake_stream
{
  using executor_type = boost::asio::io_context::executor_type;
  using lowest_layer_type = fake_stream;
  struct op_base { virtual ~op_base() = default; virtual void done(boost::system::error_code, std::size_t) = 0; };
  template <typename H> struct op final : op_base
  {
    H h; explicit op(H&& x) : h(std::move(x)) { }
    void done(boost::system::error_code e, std::size_t n) override { auto hh = std::move(h); hh(e, n); }
  };
  static boost::asio::io_context& io() { static boost::asio::io_context c; return c; }
  executor_type get_executor() { return io().get_executor(); }

  std::vector<boost::asio::mutable_buffer> pending;
  std::unique_ptr<op_base> handler;
  int requests{};

  template <typename B, typename H> void async_read_some(const B& b, H&& h)
  {
    pending.clear();
    for (auto it = boost::asio::buffer_sequence_begin(b); it != boost::asio::buffer_sequence_end(b); ++it) pending.push_back(*it);
    handler = std::make_unique<op<std::decay_t<H>>>(std::decay_t<H>(std::forward<H>(h)));
    requests++;
  }
  bool reading() const { return bool(handler); }
  //! one read completes with at most `data`; returns how many bytes the reader took
  std::size_t complete(std::string_view data)
  {
    auto h = std::move(handler);
    std::size_t n = 0;
    for (auto& b : pending)
    {
      auto k = std::min(b.size(), data.size() - n);
      std::memcpy(b.data(), data.data() + n, k);
      n += k;
    }
    h->done({}, n);
    return n;
  }
  void fail(boost::system::error_code e) { auto h = std::move(handler); h->done(e, 0); }
  //! deliver `data` as one segment: the kernel hands out at most this much per read
  //! returns false if the reader stopped asking
  bool segment(std::string_view data)
  {
    while (!data.empty())
    {
      if (!reading()) return false;
      auto n = complete(data);
      if (n == 0) return false;
      data.remove_prefix(n);
    }
    return true;
  }
  // synchronous writing side
  std::string written;
  std::size_t max_write{~std::size_t(0)};
  template <typename B> std::size_t write_some(const B& b)
  {
    boost::system::error_code ec; return write_some(b, ec);
  }
  template <typename B> std::size_t write_some(const B& b, boost::system::error_code& ec)
  {
    ec = {};
    std::size_t n = 0;
    for (auto it = boost::asio::buffer_sequence_begin(b); it != boost::asio::buffer_sequence_end(b); ++it)
    {
      boost::asio::const_buffer c = *it;
      auto k = std::min(c.size(), max_write - n);
      written.append(static_cast<const char*>(c.data()), k);
      n += k;
    }
    return n;
  }
};
