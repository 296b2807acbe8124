// A scheduler that decides, from a seed, which thread runs at every access to
// memory and every synchronisation call.  The code under test is compiled with
// -fsanitize=thread and linked against the hooks in dsched.cc instead of the
// sanitizer's runtime; pthread, semaphore, futex, clock and sleep functions are
// taken over.  One thread runs at a time and time is virtual, so a seed stands
// for one interleaving, and a state in which nobody can go on is a deadlock.
#ifndef PV_DSCHED_H
#define PV_DSCHED_H
#include <cstdint>
#include <functional>
#include <string>
#include "engine.h"
#ifdef PV_NATIVE
#include <sched.h>
#include <unistd.h>
#endif
namespace ds
{
struct Config
{
    uint64_t seed = 0;
    int mode = 1;            // 0 only when blocked, 1 at synchronisation calls, 2 at memory accesses too, 3 priorities
    int sync_den = 4;        // switch at one in so many synchronisation calls
    int mem_den = 64;        // and one in so many memory accesses
    int changes = 3;         // priority changes (mode 3)
    int len_log2 = 10;       // over about so many steps (mode 3)
    int spurious_den = 0;    // one in so many condition waits wakes for nothing
    uint64_t fair_steps = 1000000;  // from here everybody gets his turn
    uint64_t max_steps = 30000000;  // far beyond what a run takes that ends
    uint64_t epoch = 0;      // system time at the start in ns, 0 the real one
};
// reads the scheduling part of a case: HDR words
Config config(pv::Src &h);
enum { HDR = 10 };
#ifdef PV_NATIVE
// the same scripts on the system's own scheduler
inline Config config(pv::Src &h) { for (int i = 0; i < 9; ++i) h.word(); return Config(); }
inline void run(const Config &, const std::function<void()> &fn) { fn(); }
inline void point() { sched_yield(); }
inline void yield() { sched_yield(); }
inline void settle() { usleep(300); }
inline uint64_t vnow() { return (uint64_t)(pv::now() * 1e9); }
#define PV_DSCHED 0
struct Quiet { };
#else
#define PV_DSCHED 1
// Runs fn as the first thread of a controlled execution.  Only in a forked
// case.  A deadlock or a run without end fails the case and ends the process.
void run(const Config &c, const std::function<void()> &fn);
bool active();
void point();                // a place to switch
void yield();                // let others go first
uint64_t vnow();             // virtual nanoseconds since the start
int self();                  // number of the calling thread, 0 first
int threads_alive();         // other than the caller
uint64_t steps();
uint64_t switches();
// number of threads blocked at the moment (other than by a finite sleep)
int blocked();
// let every other thread run until all of them are blocked or finished
void settle();
// called instead of failing at a deadlock, from whichever thread finds it; returns true
// if the case may go on (it must have made somebody runnable)
extern std::function<void(const std::string &)> on_deadlock;
// one in so many waits at a semaphore is interrupted by a signal; how many were
extern int sem_eintr, sem_interrupted;
// no switch while one exists (bookkeeping of a harness)
struct Quiet
{
    Quiet() { ++pv::nopreempt; }
    ~Quiet() { --pv::nopreempt; }
};
#endif
}
#endif
