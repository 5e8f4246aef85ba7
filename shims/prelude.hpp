#pragma once
#define _GLIBCXX_FORMAT 1
#define _GLIBCXX_CHRONO_IO_H 1
#define FMT_CONSTEVAL
#define FMT_DEPRECATED_OSTREAM 1
// Force-included before every translation unit: bridges the API gap between the
// fmt version libossia bundles and the system's fmt 9, and a few transitive
// standard includes the bundled third-party headers used to provide.
#include <memory>
#include <sstream>
#include <iterator>
#include <fmt/format.h>
namespace fmt
{
template <size_t N, typename... T>
inline void format_to(basic_memory_buffer<char, N>& buf, std::string_view f, T&&... args)
{
  vformat_to(std::back_inserter(buf), f, make_format_args(args...));
}
}
