#pragma once
// Controlled scheduler for the real code: the library and the harness are compiled with
// -fsanitize=thread and linked with mcrt.cpp, which implements the instrumentation calls and
// interposes the pthread functions. One thread runs at a time; before every lock, atomic access,
// sleep, thread creation and join the explorer decides who goes on. explore() runs a program under every
// schedule with at most `preemptions` preemptions (switches away from a thread that could go on).
// Happens-before clocks report data races, accesses to freed memory, deadlocks; a race-free program is
// fully explored by choosing at synchronisation operations only.
#include <cstdint>
#include <functional>
#include <string>
namespace mcrt
{
struct stats { uint64_t schedules{}, points{}; bool complete{true}; std::string race, race_schedule; int max_threads{}; };
//! runs `program` under every schedule; program must create and join its threads itself.
//! `after` (uncontrolled) is called after each execution with the schedule; return false to stop.
stats explore(const std::function<void()>& program, int preemptions, uint64_t max_schedules, const std::function<bool(const std::string& schedule)>& after = {});
//! explicit scheduling point
void point();
//! monotonic stamp of the current execution (not a scheduling point)
uint64_t stamp();
//! events of the execution, kept by the runtime (no synchronisation seen by the explorer)
struct event { int kind, a, b, thread; uint64_t stamp; int64_t time; };
void log(int kind, int a = 0, int b = 0);
void log_freeze(bool);
int log_size();
const event& log_at(int i);
//! virtual time, in ns, since the start of the execution
int64_t now();
//! how many times sleeping threads may wake up while others can run
void sleep_budget(int n);
int self();
}
