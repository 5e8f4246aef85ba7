#pragma once
// In-memory MIDI ports: sent messages are recorded, received ones are injected.
#include "api.hpp"
#include "message.hpp"
#include <functional>
#include <string>
#include <string_view>
#include <vector>
namespace libremidi
{
struct fake_midi
{
  std::vector<message> sent;
  std::vector<class midi_in*> inputs;
  static fake_midi& get() { static fake_midi f; return f; }
};
class midi_in
{
public:
  midi_in(API, std::string_view) { fake_midi::get().inputs.push_back(this); }
  ~midi_in() { auto& v = fake_midi::get().inputs; v.erase(std::remove(v.begin(), v.end(), this), v.end()); }
  void open_port(int, std::string_view) { m_open = true; }
  void open_virtual_port(std::string_view) { m_open = true; }
  void close_port() { m_open = false; }
  bool is_port_open() const { return m_open; }
  void set_callback(std::function<void(const message&)> f) { m_cb = std::move(f); }
  void cancel_callback() { m_cb = {}; }
  void ignore_types(bool, bool, bool) { }
  unsigned get_port_count() { return 1; }
  std::string get_port_name(unsigned) { return "in"; }
  void inject(const message& m) { if (m_open && m_cb) m_cb(m); }
private:
  std::function<void(const message&)> m_cb; bool m_open{};
};
class midi_out
{
public:
  midi_out(API, std::string_view) { }
  void open_port(int, std::string_view) { m_open = true; }
  void open_virtual_port(std::string_view) { m_open = true; }
  void close_port() { m_open = false; }
  void send_message(const message& m) { fake_midi::get().sent.push_back(m); }
  unsigned get_port_count() { return 1; }
  std::string get_port_name(unsigned) { return "out"; }
private:
  bool m_open{};
};
}
