#pragma once
#include "OscPrintReceivedElements.h"
namespace oscpack {
inline void debug(std::ostream& os, const ReceivedMessage& m) { os << m; }
}
