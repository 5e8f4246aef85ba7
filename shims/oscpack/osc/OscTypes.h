#pragma once
// API-compatible stand-in for the oscpack fork libossia uses (submodule absent
// in this sandbox). Written from the OSC 1.0/1.1 specifications.
#include <cstddef>
#include <cstdint>
#include <exception>
#include <stdexcept>
#include <string_view>
namespace oscpack {
using int32 = int32_t;
using int64 = int64_t;
using uint32 = uint32_t;
using uint64 = uint64_t;
using osc_bundle_element_size_t = int32_t;
constexpr std::size_t RoundUp4(std::size_t x) { return (x + 3) & ~std::size_t(3); }
constexpr bool IsMultipleOf4(std::size_t x) { return (x & 3) == 0; }
enum TypeTagValues : char {
  TRUE_TYPE_TAG = 'T', FALSE_TYPE_TAG = 'F', NIL_TYPE_TAG = 'N', INFINITUM_TYPE_TAG = 'I',
  INT32_TYPE_TAG = 'i', FLOAT_TYPE_TAG = 'f', CHAR_TYPE_TAG = 'c', RGBA_COLOR_TYPE_TAG = 'r',
  MIDI_MESSAGE_TYPE_TAG = 'm', INT64_TYPE_TAG = 'h', TIME_TAG_TYPE_TAG = 't', DOUBLE_TYPE_TAG = 'd',
  STRING_TYPE_TAG = 's', SYMBOL_TYPE_TAG = 'S', BLOB_TYPE_TAG = 'b',
  ARRAY_BEGIN_TYPE_TAG = '[', ARRAY_END_TYPE_TAG = ']'
};
struct BundleInitiator { uint64_t timeTag; explicit BundleInitiator(uint64_t t) : timeTag{t} {} };
struct BeginBundle : BundleInitiator { explicit BeginBundle(uint64_t t = 1) : BundleInitiator{t} {} };
struct BeginBundleImmediate : BundleInitiator { BeginBundleImmediate() : BundleInitiator{1} {} };
struct EndBundle {};
struct BeginMessage { std::string_view addressPattern; explicit BeginMessage(std::string_view s) : addressPattern{s} {} };
struct BeginMessageN { std::string_view addressPattern; explicit BeginMessageN(std::string_view s) : addressPattern{s} {} };
struct EndMessage {};
struct BeginArray {};
struct EndArray {};
struct NilType {};
inline NilType OscNil() { return {}; }
struct InfinitumType {};
inline InfinitumType Infinitum() { return {}; }
struct RgbaColor { uint32_t value{}; constexpr RgbaColor() = default; constexpr explicit RgbaColor(uint32_t v) : value{v} {} constexpr operator uint32_t() const { return value; } };
struct MidiMessage { uint32_t value{}; constexpr explicit MidiMessage(uint32_t v) : value{v} {} };
struct TimeTag { uint64_t value{}; constexpr explicit TimeTag(uint64_t v) : value{v} {} };
struct Symbol { std::string_view value; explicit Symbol(std::string_view v) : value{v} {} };
struct Blob { const void* data{}; osc_bundle_element_size_t size{}; Blob() = default; Blob(const void* d, osc_bundle_element_size_t s) : data{d}, size{s} {} };
struct Exception : std::runtime_error { using std::runtime_error::runtime_error; };
}
