#pragma once
// Stand-in for 3rdparty/libremidi's message type (empty git submodule here).
#include <algorithm>
#include <cstdint>
#include <initializer_list>
#include <vector>
namespace libremidi
{
using midi_bytes = std::vector<unsigned char>;
template <typename T> constexpr T clamp(T v, T mi, T ma) { return v < mi ? mi : (v > ma ? ma : v); }
enum class message_type : uint8_t
{
  INVALID = 0x0, NOTE_OFF = 0x80, NOTE_ON = 0x90, POLY_PRESSURE = 0xA0, CONTROL_CHANGE = 0xB0,
  PROGRAM_CHANGE = 0xC0, AFTERTOUCH = 0xD0, PITCH_BEND = 0xE0,
  SYSTEM_EXCLUSIVE = 0xF0, TIME_CODE = 0xF1, SONG_POS_POINTER = 0xF2, SONG_SELECT = 0xF3,
  TUNE_REQUEST = 0xF6, EOX = 0xF7, TIME_CLOCK = 0xF8, START = 0xFA, CONTINUE = 0xFB, STOP = 0xFC,
  ACTIVE_SENSING = 0xFE, SYSTEM_RESET = 0xFF
};
struct message
{
  midi_bytes bytes;
  double timestamp{};
  message() = default;
  message(const midi_bytes& b, double t) : bytes(b), timestamp(t) { }
  message(std::initializer_list<unsigned char> l) : bytes(l) { }
  static uint8_t make_command(message_type t, int ch) { return (uint8_t)((uint8_t)t | clamp(ch - 1, 0, 15)); }
  static message note_on(uint8_t c, uint8_t n, uint8_t v) { return {make_command(message_type::NOTE_ON, c), n, v}; }
  static message note_off(uint8_t c, uint8_t n, uint8_t v) { return {make_command(message_type::NOTE_OFF, c), n, v}; }
  static message control_change(uint8_t c, uint8_t n, uint8_t v) { return {make_command(message_type::CONTROL_CHANGE, c), n, v}; }
  static message program_change(uint8_t c, uint8_t v) { return {make_command(message_type::PROGRAM_CHANGE, c), v}; }
  static message pitch_bend(uint8_t c, int v) { return {make_command(message_type::PITCH_BEND, c), (unsigned char)(v & 0x7F), (uint8_t)((v >> 7) & 0x7F)}; }
  static message pitch_bend(uint8_t c, uint8_t l, uint8_t m) { return {make_command(message_type::PITCH_BEND, c), l, m}; }
  static message poly_pressure(uint8_t c, uint8_t n, uint8_t v) { return {make_command(message_type::POLY_PRESSURE, c), n, v}; }
  static message aftertouch(uint8_t c, uint8_t v) { return {make_command(message_type::AFTERTOUCH, c), v}; }
  bool uses_channel(int c) const { return c > 0 && (bytes[0] & 0xF) == c - 1; }
  int get_channel() const { return (bytes[0] & 0xF0) != 0xF0 ? (bytes[0] & 0xF) + 1 : 0; }
  message_type get_message_type() const
  {
    if (bytes.empty()) return message_type::INVALID;
    if (bytes[0] >= (uint8_t)message_type::SYSTEM_EXCLUSIVE) return (message_type)(bytes[0] & 0xFF);
    return (message_type)(bytes[0] & 0xF0);
  }
  bool is_note_on_or_off() const { auto s = get_message_type(); return s == message_type::NOTE_ON || s == message_type::NOTE_OFF; }
  bool empty() const { return bytes.empty(); }
  std::size_t size() const { return bytes.size(); }
  auto& operator[](int i) { return bytes[i]; }
  auto operator[](int i) const { return bytes[i]; }
  auto begin() const { return bytes.begin(); }
  auto end() const { return bytes.end(); }
  auto begin() { return bytes.begin(); }
  auto end() { return bytes.end(); }
  void clear() { bytes.clear(); timestamp = 0; }
  bool operator==(const message& o) const { return bytes == o.bytes; }
};
}
