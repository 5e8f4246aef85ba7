#pragma once
// Small bounded-exhaustive exploration toolkit shared by every harness.
//
// A harness enumerates cases (inputs, operation sequences, segmentations, schedules);
// every case has a textual id that is enough to replay it: with MC_ONLY=<id> the harness
// runs that case alone. Before a case runs, its id is written to a crumb file shared with
// the runner, so that a crash, sanitizer report, abort or hang is attributed to it.
#include <atomic>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <sys/mman.h>
#include <thread>
#include <unistd.h>
#include <unordered_set>
#include <vector>
namespace mc
{
inline uint64_t h64(const void* p, std::size_t n, uint64_t s = 1469598103934665603ull)
{
  auto b = static_cast<const unsigned char*>(p);
  for (std::size_t i = 0; i < n; i++) { s ^= b[i]; s *= 1099511628211ull; }
  return s ^ (s >> 29);
}
inline uint64_t h64(std::string_view s, uint64_t seed = 1469598103934665603ull) { return h64(s.data(), s.size(), seed); }

inline std::string esc(std::string_view s)
{
  std::string r;
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
    else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += char(c);
  }
  return r;
}
inline std::string hex(std::string_view s)
{
  std::string r; char b[4];
  for (unsigned char c : s) { std::snprintf(b, 4, "%02x", c); r += b; }
  return r;
}
template <typename... T> std::string cat(const T&... t) { std::ostringstream s; s.precision(9); ((s << t), ...); return s.str(); }

struct part
{
  uint64_t states{}, transitions{}, traces{};
  bool complete{true};
  std::string bounds;
  std::unordered_set<uint64_t> seen, outcomes;
  std::vector<std::string> samples;
};
struct failure { std::string key, id, detail; };

class ctx
{
public:
  static ctx& get() { static ctx c; return c; }
  std::string tier{"quick"};
  bool thorough() const { return tier == "thorough"; }
  //! select the part (sub-space) following counts belong to
  void in(const std::string& name, const std::string& bounds = {})
  {
    cur = &parts[name]; cur_name = name;
    if (!bounds.empty()) cur->bounds = bounds;
  }
  //! start of a case; false if it is filtered out by a replay
  bool want(const std::string& id)
  {
    if (!only.empty() ? only != id : nshards > 1 && h64(id) % nshards != shard) return false;
    current = id;
    if (crumb)
    {
      auto n = std::min<std::size_t>(id.size(), 16000);
      std::memcpy(crumb, id.data(), n);
      crumb[n] = 0;
    }
    ticks.fetch_add(1, std::memory_order_relaxed);
    return true;
  }
  bool replaying() const { return !only.empty(); }
  //! a state of the explored space (hash of its canonical form); true if new
  bool state(uint64_t h) { if (cur->seen.insert(h).second) { cur->states++; return true; } return false; }
  bool state(std::string_view s) { return state(h64(s)); }
  void step(uint64_t n = 1) { cur->transitions += n; }
  //! a complete execution of the real code whose result was compared with the oracle
  void trace() { cur->traces++; }
  void outcome(std::string_view s) { cur->outcomes.insert(h64(s)); }
  void sample(const std::string& s) { if (cur->samples.size() < 3) cur->samples.push_back(s); }
  void incomplete(const std::string& why) { cur->complete = false; cur->bounds += " [capped: " + why + "]"; }
  void fail(const std::string& key, const std::string& detail)
  {
    nfail++;
    const bool kn = known.count(key);
    if (keys.insert(key).second && fails.size() < 200)
    {
      fails.push_back({key, current, detail});
      if (!kn) write_report(false); // survives a later crash or time-out
      if (std::getenv("MC_VERBOSE")) std::fprintf(stderr, "FAIL %s\n  case %s\n  %s\n", key.c_str(), current.c_str(), detail.c_str());
    }
    if (!kn && ++nunknown >= 100) { cur->complete = false; write_report(true); std::fflush(nullptr); ::_exit(0); }
  }
  bool check(bool b, const std::string& key, const std::string& detail) { if (!b) fail(key, detail); return b; }

  int run(int argc, char** argv, const std::function<void(ctx&)>& f)
  {
    if (auto t = std::getenv("VERIF_TIER")) tier = t;
    if (auto t = std::getenv("MC_ONLY")) only = t;
    if (auto t = std::getenv("MC_SHARD")) std::sscanf(t, "%u/%u", &shard, &nshards);
    if (auto t = std::getenv("MC_CRUMB"))
    {
      int fd = ::open(t, O_RDWR | O_CREAT, 0600);
      if (fd >= 0 && ::ftruncate(fd, 16384) == 0)
        crumb = static_cast<char*>(::mmap(nullptr, 16384, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
      if (crumb == MAP_FAILED) crumb = nullptr;
    }
    if (auto t = std::getenv("MC_KNOWN"))
      if (auto f = std::fopen(t, "r"))
      {
        char line[4096];
        while (std::fgets(line, sizeof line, f)) { std::string k = line; while (!k.empty() && k.back() == '\n') k.pop_back(); known.insert(k); }
        std::fclose(f);
      }
    int limit = 60;
    if (auto t = std::getenv("MC_CASE_TIMEOUT")) limit = std::atoi(t);
    std::atomic_bool stop{false};
    std::thread dog;
    if (!no_watchdog)
      dog = std::thread([&] {
        uint64_t last = ~0ull; int same = 0;
        while (!stop)
        {
          for (int i = 0; i < 10 && !stop; i++) std::this_thread::sleep_for(std::chrono::milliseconds(100));
          auto t = ticks.load();
          if (t == last) { if (++same >= limit) { std::fprintf(stderr, "MC-HANG in case %s\n", current.c_str()); ::_exit(77); } }
          else { same = 0; last = t; }
        }
      });
    in("main");
    f(*this);
    stop = true;
    if (dog.joinable()) dog.join();
    write_report();
    return 0;
  }
  void write_report(bool done = true)
  {
    if (done) dump_seen();
    std::string s = "{\"parts\":{";
    bool first = true;
    for (auto& [n, p] : parts)
    {
      if (n == "main" && !p.states && !p.transitions && !p.traces) continue;
      if (!first) s += ",";
      first = false;
      s += cat("\"", esc(n), "\":{\"states\":", p.states, ",\"transitions\":", p.transitions, ",\"traces\":", p.traces,
               ",\"outcomes\":", p.outcomes.size(), ",\"complete\":", p.complete ? "true" : "false", ",\"bounds\":\"", esc(p.bounds), "\",\"samples\":[");
      for (std::size_t i = 0; i < p.samples.size(); i++) s += cat(i ? "," : "", "\"", esc(p.samples[i]), "\"");
      s += "]}";
    }
    s += "},\"failures\":[";
    for (std::size_t i = 0; i < fails.size(); i++)
      s += cat(i ? "," : "", "{\"key\":\"", esc(fails[i].key), "\",\"case\":\"", esc(fails[i].id), "\",\"detail\":\"", esc(fails[i].detail), "\"}");
    s += cat("],\"nfail\":", nfail, ",\"done\":", done ? "true" : "false", "}");
    if (auto o = std::getenv("MC_OUT")) { if (auto f = std::fopen(o, "w")) { std::fwrite(s.data(), 1, s.size(), f); std::fclose(f); } }
    else std::printf("%s\n", s.c_str());
  }
  void dump_seen()
  {
    auto o = std::getenv("MC_OUT"); if (!o || nshards < 2) return;
    for (auto& [n, p] : parts)
      for (int k = 0; k < 2; k++)
        if (auto f = std::fopen(cat(o, ".", n, k ? ".outcomes" : ".seen").c_str(), "w")) { for (auto h : k ? p.outcomes : p.seen) std::fwrite(&h, 8, 1, f); std::fclose(f); }
  }
  unsigned shard{}, nshards{1};
  bool no_watchdog{};
  std::string current;
  std::string only;
  std::map<std::string, part> parts;
  part* cur{}; std::string cur_name;
  uint64_t nfail{}, nunknown{};
  std::set<std::string> known;
private:
  std::vector<failure> fails;
  std::set<std::string> keys;
  char* crumb{};
  std::atomic<uint64_t> ticks{};
};

//! All words over [0, k) of length exactly n, in lexicographic order.
template <typename F> void words(int k, int n, F&& f)
{
  std::vector<int> w(n, 0);
  for (;;)
  {
    f(const_cast<const std::vector<int>&>(w));
    int i = n - 1;
    while (i >= 0 && ++w[i] == k) w[i--] = 0;
    if (i < 0) return;
  }
}
//! All ordered ways of cutting n bytes in non-empty chunks (2^(n-1) compositions).
template <typename F> void compositions(std::size_t n, F&& f)
{
  if (n == 0) { const std::vector<std::size_t> e; f(e); return; }
  for (uint64_t m = 0; m < (1ull << (n - 1)); m++)
  {
    std::vector<std::size_t> c{1};
    for (std::size_t i = 0; i + 1 < n; i++)
      if (m >> i & 1) c.push_back(1); else c.back()++;
    f(const_cast<const std::vector<std::size_t>&>(c));
  }
}
inline std::vector<std::vector<std::size_t>> compositions(std::size_t n) { std::vector<std::vector<std::size_t>> r; compositions(n, [&](auto& c) { r.push_back(c); }); return r; }
inline std::string join(const std::vector<int>& v, char c = '.')
{
  std::string s;
  for (std::size_t i = 0; i < v.size(); i++) { if (i) s += c; s += std::to_string(v[i]); }
  return s;
}
inline std::string join(const std::vector<std::size_t>& v, char c = '.')
{
  std::string s;
  for (std::size_t i = 0; i < v.size(); i++) { if (i) s += c; s += std::to_string(v[i]); }
  return s;
}
}
#define MC_MAIN(...) int main(int argc, char** argv) { return mc::ctx::get().run(argc, argv, __VA_ARGS__); }
