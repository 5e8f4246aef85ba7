#pragma once
#include "OscTypes.h"
#include <cstring>
#include <string>
namespace oscpack {
struct MalformedPacketException : Exception { MalformedPacketException(const char* w = "malformed packet") : Exception{w} {} };
struct MalformedMessageException : Exception { MalformedMessageException(const char* w = "malformed message") : Exception{w} {} };
struct MalformedBundleException : Exception { MalformedBundleException(const char* w = "malformed bundle") : Exception{w} {} };
struct WrongArgumentTypeException : Exception { WrongArgumentTypeException(const char* w = "wrong argument type") : Exception{w} {} };
struct MissingArgumentException : Exception { MissingArgumentException(const char* w = "missing argument") : Exception{w} {} };
struct ExcessArgumentException : Exception { ExcessArgumentException(const char* w = "too many arguments") : Exception{w} {} };

namespace detail {
inline uint32_t be32(const char* p)
{
  auto u = reinterpret_cast<const unsigned char*>(p);
  return (uint32_t(u[0]) << 24) | (uint32_t(u[1]) << 16) | (uint32_t(u[2]) << 8) | u[3];
}
inline uint64_t be64(const char* p) { return (uint64_t(be32(p)) << 32) | be32(p + 4); }
//! one past the padded string starting at p, or nullptr if it is not terminated inside [p, end)
inline const char* str_end(const char* p, const char* end)
{
  if (p >= end) return nullptr;
  auto z = static_cast<const char*>(std::memchr(p, 0, std::size_t(end - p)));
  if (!z) return nullptr;
  auto n = RoundUp4(std::size_t(z - p) + 1);
  if (n > std::size_t(end - p)) return nullptr;
  return p + n;
}
}
class ReceivedPacket {
public:
  ReceivedPacket(const char* contents, std::size_t size) : m_p{contents}, m_n{size}
  {
    if (size < 4) throw MalformedPacketException{"packet too small"};
    if (!IsMultipleOf4(size)) throw MalformedPacketException{"size must be a multiple of 4"};
  }
  bool IsMessage() const { return !IsBundle(); }
  bool IsBundle() const { return m_n > 0 && m_p[0] == '#'; }
  std::size_t Size() const { return m_n; }
  const char* Contents() const { return m_p; }
private:
  const char* m_p; std::size_t m_n;
};
class ReceivedBundleElement {
public:
  explicit ReceivedBundleElement(const char* sizePtr) : m_sz{sizePtr} {}
  bool IsMessage() const { return !IsBundle(); }
  bool IsBundle() const { return Size() > 0 && Contents()[0] == '#'; }
  osc_bundle_element_size_t Size() const { return int32_t(detail::be32(m_sz)); }
  const char* Contents() const { return m_sz + 4; }
  const char* raw() const { return m_sz; }
private:
  const char* m_sz;
};
class ReceivedBundleElementIterator {
public:
  explicit ReceivedBundleElementIterator(const char* p) : m_v{p} {}
  ReceivedBundleElementIterator operator++() { m_v = ReceivedBundleElement{m_v.Contents() + m_v.Size()}; return *this; }
  ReceivedBundleElementIterator operator++(int) { auto o = *this; ++*this; return o; }
  const ReceivedBundleElement& operator*() const { return m_v; }
  const ReceivedBundleElement* operator->() const { return &m_v; }
  bool operator==(const ReceivedBundleElementIterator& o) const { return m_v.raw() == o.m_v.raw(); }
  bool operator!=(const ReceivedBundleElementIterator& o) const { return !(*this == o); }
private:
  ReceivedBundleElement m_v;
};
class ReceivedMessageArgument {
public:
  ReceivedMessageArgument(const char* tag, const char* arg) : m_t{tag}, m_a{arg} {}
  char TypeTag() const { return *m_t; }
  const char* tagPtr() const { return m_t; }
  const char* argPtr() const { return m_a; }
  bool IsBool() const { return *m_t == 'T' || *m_t == 'F'; }
  bool AsBoolUnchecked() const { return *m_t == 'T'; }
  bool AsBool() const { chk(IsBool()); return AsBoolUnchecked(); }
  bool IsNil() const { return *m_t == 'N'; }
  bool IsInfinitum() const { return *m_t == 'I'; }
  bool IsInt32() const { return *m_t == 'i'; }
  int32_t AsInt32Unchecked() const { return int32_t(detail::be32(m_a)); }
  int32_t AsInt32() const { chk(IsInt32()); return AsInt32Unchecked(); }
  bool IsFloat() const { return *m_t == 'f'; }
  float AsFloatUnchecked() const { uint32_t u = detail::be32(m_a); float f; std::memcpy(&f, &u, 4); return f; }
  float AsFloat() const { chk(IsFloat()); return AsFloatUnchecked(); }
  bool IsChar() const { return *m_t == 'c'; }
  char AsCharUnchecked() const { return char(detail::be32(m_a)); }
  char AsChar() const { chk(IsChar()); return AsCharUnchecked(); }
  bool IsRgbaColor() const { return *m_t == 'r'; }
  uint32_t AsRgbaColorUnchecked() const { return detail::be32(m_a); }
  uint32_t AsRgbaColor() const { chk(IsRgbaColor()); return AsRgbaColorUnchecked(); }
  uint32_t AsMidiMessageUnchecked() const { return detail::be32(m_a); }
  bool IsInt64() const { return *m_t == 'h'; }
  int64_t AsInt64Unchecked() const { return int64_t(detail::be64(m_a)); }
  int64_t AsInt64() const { chk(IsInt64()); return AsInt64Unchecked(); }
  bool IsTimeTag() const { return *m_t == 't'; }
  uint64_t AsTimeTagUnchecked() const { return detail::be64(m_a); }
  uint64_t AsTimeTag() const { chk(IsTimeTag()); return AsTimeTagUnchecked(); }
  bool IsDouble() const { return *m_t == 'd'; }
  double AsDoubleUnchecked() const { uint64_t u = detail::be64(m_a); double f; std::memcpy(&f, &u, 8); return f; }
  double AsDouble() const { chk(IsDouble()); return AsDoubleUnchecked(); }
  bool IsString() const { return *m_t == 's'; }
  const char* AsStringUnchecked() const { return m_a; }
  const char* AsString() const { chk(IsString()); return m_a; }
  bool IsSymbol() const { return *m_t == 'S'; }
  const char* AsSymbolUnchecked() const { return m_a; }
  const char* AsSymbol() const { chk(IsSymbol()); return m_a; }
  bool IsBlob() const { return *m_t == 'b'; }
  void AsBlobUnchecked(const void*& data, osc_bundle_element_size_t& size) const { size = int32_t(detail::be32(m_a)); data = m_a + 4; }
  void AsBlob(const void*& data, osc_bundle_element_size_t& size) const { chk(IsBlob()); AsBlobUnchecked(data, size); }
  bool IsArrayBegin() const { return *m_t == '['; }
  bool IsArrayEnd() const { return *m_t == ']'; }
  //! number of argument bytes this argument occupies
  std::size_t bytes() const
  {
    switch (*m_t) {
      case 'i': case 'f': case 'c': case 'r': case 'm': return 4;
      case 'h': case 't': case 'd': return 8;
      case 's': case 'S': return RoundUp4(std::strlen(m_a) + 1);
      case 'b': return 4 + RoundUp4(detail::be32(m_a));
      default: return 0;
    }
  }
private:
  static void chk(bool b) { if (!b) throw WrongArgumentTypeException{}; }
  const char* m_t; const char* m_a;
};
class ReceivedMessageArgumentIterator {
public:
  ReceivedMessageArgumentIterator(const char* tags, const char* args) : m_v{tags, args} {}
  ReceivedMessageArgumentIterator operator++()
  {
    if (m_v.TypeTag() != 0) m_v = ReceivedMessageArgument{m_v.tagPtr() + 1, m_v.argPtr() + m_v.bytes()};
    return *this;
  }
  ReceivedMessageArgumentIterator operator++(int) { auto o = *this; ++*this; return o; }
  const ReceivedMessageArgument& operator*() const { return m_v; }
  const ReceivedMessageArgument* operator->() const { return &m_v; }
  bool operator==(const ReceivedMessageArgumentIterator& o) const { return m_v.tagPtr() == o.m_v.tagPtr(); }
  bool operator!=(const ReceivedMessageArgumentIterator& o) const { return !(*this == o); }
private:
  ReceivedMessageArgument m_v;
};
class ReceivedMessage {
public:
  using const_iterator = ReceivedMessageArgumentIterator;
  explicit ReceivedMessage(const ReceivedPacket& p) { init(p.Contents(), p.Size()); }
  explicit ReceivedMessage(const ReceivedBundleElement& e) { init(e.Contents(), std::size_t(e.Size())); }
  const char* AddressPattern() const { return m_addr; }
  std::size_t AddressPatternLength() const { return std::strlen(m_addr); }
  uint32_t ArgumentCount() const { return uint32_t(m_tagsEnd - m_tags); }
  const char* TypeTags() const { return m_tags; }
  const_iterator ArgumentsBegin() const { return {m_tags, m_args}; }
  const_iterator ArgumentsEnd() const { return {m_tagsEnd, nullptr}; }
  const_iterator begin() const { return ArgumentsBegin(); }
  const_iterator end() const { return ArgumentsEnd(); }
private:
  void init(const char* p, std::size_t n)
  {
    static const char empty = 0;
    const char* const end = p + n;
    if (n > 0x7FFFFFFF || !IsMultipleOf4(n) || n == 0) throw MalformedMessageException{"invalid message size"};
    m_addr = p;
    auto t = detail::str_end(p, end);
    if (!t) throw MalformedMessageException{"unterminated address pattern"};
    m_tags = m_tagsEnd = &empty; m_args = end;
    if (t == end) return; // no typetags
    if (*t != ',') throw MalformedMessageException{"type tags not present"};
    auto a = detail::str_end(t, end);
    if (!a) throw MalformedMessageException{"type tags not terminated"};
    m_tags = t + 1; m_tagsEnd = t + std::strlen(t); m_args = a;
    int depth = 0;
    for (auto q = m_tags; q != m_tagsEnd; ++q)
    {
      std::size_t need = 0;
      switch (*q) {
        case 'T': case 'F': case 'N': case 'I': break;
        case '[': depth++; break;
        case ']': if (--depth < 0) throw MalformedMessageException{"unbalanced array"}; break;
        case 'i': case 'f': case 'c': case 'r': case 'm': need = 4; break;
        case 'h': case 't': case 'd': need = 8; break;
        case 's': case 'S': {
          auto e = detail::str_end(a, end);
          if (!e) throw MalformedMessageException{"unterminated string argument"};
          need = std::size_t(e - a); break;
        }
        case 'b': {
          if (std::size_t(end - a) < 4) throw MalformedMessageException{"arguments exceed message size"};
          uint32_t s = detail::be32(a);
          if (s > 0x7FFFFFF0u) throw MalformedMessageException{"invalid blob size"};
          need = 4 + RoundUp4(s); break;
        }
        default: throw MalformedMessageException{"unknown type tag"};
      }
      if (need > std::size_t(end - a)) throw MalformedMessageException{"arguments exceed message size"};
      a += need;
    }
    if (depth != 0) throw MalformedMessageException{"unterminated array"};
  }
  const char* m_addr{}; const char* m_tags{}; const char* m_tagsEnd{}; const char* m_args{};
};
class ReceivedBundle {
public:
  using const_iterator = ReceivedBundleElementIterator;
  explicit ReceivedBundle(const ReceivedPacket& p) { init(p.Contents(), p.Size()); }
  explicit ReceivedBundle(const ReceivedBundleElement& e) { init(e.Contents(), std::size_t(e.Size())); }
  uint64_t TimeTag() const { return detail::be64(m_p + 8); }
  uint32_t ElementCount() const { return m_count; }
  const_iterator ElementsBegin() const { return const_iterator{m_p + 16}; }
  const_iterator ElementsEnd() const { return const_iterator{m_end}; }
  const_iterator begin() const { return ElementsBegin(); }
  const_iterator end() const { return ElementsEnd(); }
private:
  void init(const char* p, std::size_t n)
  {
    if (n < 16) throw MalformedBundleException{"packet too short for bundle"};
    if (!IsMultipleOf4(n)) throw MalformedBundleException{"bundle size must be a multiple of 4"};
    if (std::memcmp(p, "#bundle\0", 8) != 0) throw MalformedBundleException{"bad bundle address pattern"};
    m_p = p; m_end = p + n;
    auto q = p + 16;
    while (q < m_end) {
      if (m_end - q < 4) throw MalformedBundleException{"packet too short for elementSize"};
      uint32_t s = detail::be32(q);
      if (!IsMultipleOf4(s) || s == 0) throw MalformedBundleException{"bundle element size must be multiple of four"};
      if (s > std::size_t(m_end - q - 4)) throw MalformedBundleException{"packet too short for bundle element"};
      q += 4 + s;
      m_count++;
    }
  }
  const char* m_p{}; const char* m_end{}; uint32_t m_count{};
};
}
