// A scheduler that owns every thread of a case.
//
// pthread threads, mutexes, condition variables, joins, sleeps and stdin reads are interposed, and the
// code under test is compiled with -fsanitize=thread instrumentation whose calls end here, so that every
// atomic access is a point at which the tape may switch to another thread.  Only one thread runs at a
// time: a case is a pure function of its tape, and a deadlock is found exactly, without a time limit.
#pragma once
#include "pbt.hpp"

namespace sched {
void begin(pbt::Gen &g, std::function<std::string()> describe = {});   // the caller becomes thread 0
void end();                                // waits for all other threads to end
void yield();                              // a point at which another thread may go on
void waitUntil(std::function<bool()> pred, const char *what);
void quiesce();                            // until no other thread can go on
void script(std::vector<std::pair<uint64_t, int>> keys);   // stdin: key k arrives once `first` further points have passed
uint64_t steps();
size_t keysRead();
struct Quiet { bool before; Quiet(); ~Quiet() { release(); } void release(); };          // no switches within its scope (for the harness' own bookkeeping)
extern unsigned fakeProcessors;            // what the system reports as number of processors
[[noreturn]] void die(const std::string &msg);            // failure of this case
extern void (*onDie)(const std::string &);                // default: report to the engine and end the process
} // namespace sched
