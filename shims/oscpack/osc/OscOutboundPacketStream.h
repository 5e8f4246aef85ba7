#pragma once
#include "OscTypes.h"
#include <cstring>
#include <string>
#include <vector>
namespace oscpack {
struct OutOfBufferMemoryException : Exception { OutOfBufferMemoryException() : Exception{"out of buffer memory"} {} };
struct MessageInProgressException : Exception { MessageInProgressException() : Exception{"message in progress"} {} };
struct MessageNotInProgressException : Exception { MessageNotInProgressException() : Exception{"no message in progress"} {} };
struct BundleNotInProgressException : Exception { BundleNotInProgressException() : Exception{"no bundle in progress"} {} };
//! Builds OSC packets. Arguments are accumulated separately from the typetags
//! and the buffer bound is checked on every append, as upstream does.
class OutboundPacketStream {
public:
  OutboundPacketStream(char* buffer, std::size_t capacity) : m_buf{buffer}, m_cap{capacity} {}
  const char* Data() const { return m_buf; }
  std::size_t Size() const { return m_size + (m_inMessage ? pending() : 0); }
  std::size_t Capacity() const { return m_cap; }
  bool IsReady() const { return !m_inMessage && m_bundles.empty(); }
  bool IsMessageInProgress() const { return m_inMessage; }
  bool IsBundleInProgress() const { return !m_bundles.empty(); }
  void Clear() { m_size = 0; m_inMessage = false; m_bundles.clear(); m_tags.clear(); m_args.clear(); }

  OutboundPacketStream& operator<<(const BundleInitiator& b)
  {
    if (m_inMessage) throw MessageInProgressException{};
    const std::size_t need = 16 + (m_bundles.empty() ? 0 : 4);
    check(need);
    if (!m_bundles.empty()) { m_bundles.push_back(m_size); put32(m_size, 0); m_size += 4; }
    else m_bundles.push_back(npos);
    std::memcpy(m_buf + m_size, "#bundle\0", 8);
    put64(m_size + 8, b.timeTag);
    m_size += 16;
    return *this;
  }
  OutboundPacketStream& operator<<(const EndBundle&)
  {
    if (m_bundles.empty()) throw BundleNotInProgressException{};
    if (m_inMessage) throw MessageInProgressException{};
    auto p = m_bundles.back(); m_bundles.pop_back();
    if (p != npos) put32(p, uint32_t(m_size - p - 4));
    return *this;
  }
  OutboundPacketStream& operator<<(const BeginMessage& m) { return begin(m.addressPattern); }
  OutboundPacketStream& operator<<(const BeginMessageN& m) { return begin(m.addressPattern); }
  OutboundPacketStream& operator<<(const EndMessage&)
  {
    if (!m_inMessage) throw MessageNotInProgressException{};
    check(pending());
    std::size_t o = m_size;
    if (!m_bundles.empty()) { put32(o, uint32_t(pending() - 4)); o += 4; }
    o += padded(o, m_addr);
    o += padded(o, "," + m_tags);
    if (!m_args.empty()) std::memcpy(m_buf + o, m_args.data(), m_args.size());
    o += m_args.size();
    m_size = o;
    m_inMessage = false;
    return *this;
  }
  OutboundPacketStream& operator<<(bool v) { return tag(v ? 'T' : 'F'); }
  OutboundPacketStream& operator<<(const NilType&) { return tag('N'); }
  OutboundPacketStream& operator<<(const InfinitumType&) { return tag('I'); }
  OutboundPacketStream& operator<<(const BeginArray&) { return tag('['); }
  OutboundPacketStream& operator<<(const EndArray&) { return tag(']'); }
  OutboundPacketStream& operator<<(int32_t v) { arg32(uint32_t(v)); return tag('i'); }
  OutboundPacketStream& operator<<(float v) { uint32_t u; std::memcpy(&u, &v, 4); arg32(u); return tag('f'); }
  OutboundPacketStream& operator<<(char v) { arg32(uint32_t(int32_t(v))); return tag('c'); }
  OutboundPacketStream& operator<<(RgbaColor v) { arg32(v.value); return tag('r'); }
  OutboundPacketStream& operator<<(MidiMessage v) { arg32(v.value); return tag('m'); }
  OutboundPacketStream& operator<<(int64_t v) { arg64(uint64_t(v)); return tag('h'); }
  OutboundPacketStream& operator<<(TimeTag v) { arg64(v.value); return tag('t'); }
  OutboundPacketStream& operator<<(double v) { uint64_t u; std::memcpy(&u, &v, 8); arg64(u); return tag('d'); }
  OutboundPacketStream& operator<<(const char* v) { return str(v, 's'); }
  OutboundPacketStream& operator<<(std::string_view v) { return str(v, 's'); }
  OutboundPacketStream& operator<<(const std::string& v) { return str(v, 's'); }
  OutboundPacketStream& operator<<(const Symbol& v) { return str(v.value, 'S'); }
  OutboundPacketStream& operator<<(const Blob& b)
  {
    need();
    arg32(uint32_t(b.size));
    m_args.append(static_cast<const char*>(b.data), std::size_t(b.size));
    m_args.resize(RoundUp4(m_args.size()), '\0');
    return tag('b');
  }
private:
  static constexpr std::size_t npos = std::size_t(-1);
  std::size_t pending() const
  {
    return (m_bundles.empty() ? 0 : 4) + RoundUp4(m_addr.size() + 1) + RoundUp4(m_tags.size() + 2) + m_args.size();
  }
  void check(std::size_t n) const { if (m_size + n > m_cap) throw OutOfBufferMemoryException{}; }
  void need() const { if (!m_inMessage) throw MessageNotInProgressException{}; }
  OutboundPacketStream& begin(std::string_view s)
  {
    if (m_inMessage) throw MessageInProgressException{};
    m_addr.assign(s.data(), s.size()); m_tags.clear(); m_args.clear();
    m_inMessage = true;
    if (m_size + pending() > m_cap) { m_inMessage = false; throw OutOfBufferMemoryException{}; }
    return *this;
  }
  OutboundPacketStream& tag(char c) { need(); m_tags.push_back(c); check(pending()); return *this; }
  OutboundPacketStream& str(std::string_view s, char t)
  {
    need();
    m_args.append(s.data(), s.size());
    m_args.push_back('\0');
    m_args.resize(RoundUp4(m_args.size()), '\0');
    return tag(t);
  }
  void arg32(uint32_t v) { need(); for (int i = 3; i >= 0; i--) m_args.push_back(char((v >> (8 * i)) & 0xFF)); }
  void arg64(uint64_t v) { arg32(uint32_t(v >> 32)); arg32(uint32_t(v)); }
  void put32(std::size_t o, uint32_t v) { for (int i = 0; i < 4; i++) m_buf[o + i] = char((v >> (8 * (3 - i))) & 0xFF); }
  void put64(std::size_t o, uint64_t v) { put32(o, uint32_t(v >> 32)); put32(o + 4, uint32_t(v)); }
  std::size_t padded(std::size_t o, const std::string& s)
  {
    const auto n = RoundUp4(s.size() + 1);
    std::memset(m_buf + o, 0, n);
    std::memcpy(m_buf + o, s.data(), s.size());
    return n;
  }
  char* m_buf; std::size_t m_cap; std::size_t m_size{};
  bool m_inMessage{};
  std::vector<std::size_t> m_bundles;
  std::string m_addr, m_tags, m_args;
};
}
