#pragma once
#include "OscReceivedElements.h"
#include <ostream>
namespace oscpack {
inline std::ostream& operator<<(std::ostream& os, const ReceivedMessageArgument& a)
{
  switch (a.TypeTag()) {
    case 'T': return os << "true"; case 'F': return os << "false"; case 'N': return os << "(Nil)"; case 'I': return os << "Infinitum";
    case 'i': return os << a.AsInt32Unchecked(); case 'f': return os << a.AsFloatUnchecked(); case 'c': return os << a.AsCharUnchecked();
    case 'r': return os << "RGBA:" << a.AsRgbaColorUnchecked(); case 'm': return os << "MIDI:" << a.AsMidiMessageUnchecked();
    case 'h': return os << a.AsInt64Unchecked(); case 't': return os << "OSC-timetag:" << a.AsTimeTagUnchecked(); case 'd': return os << a.AsDoubleUnchecked();
    case 's': case 'S': return os << '`' << a.AsStringUnchecked() << '\'';
    case 'b': { const void* d{}; osc_bundle_element_size_t n{}; a.AsBlobUnchecked(d, n); return os << "OSC-blob:" << n; }
    case '[': return os << '['; case ']': return os << ']';
  }
  return os << "unknown";
}
inline std::ostream& operator<<(std::ostream& os, const ReceivedMessage& m)
{
  os << m.AddressPattern();
  for (auto it = m.ArgumentsBegin(); it != m.ArgumentsEnd(); ++it) os << ' ' << *it;
  return os;
}
}
