// Systematic exploration of the thread schedules of OpenMP code: the code under test is compiled with -fsanitize=thread
// (which only inserts calls at memory accesses) and linked with this scheduler instead of libtsan and libgomp.  Threads of a
// team are fibers; every access to memory that is not on the thread's own stack is a step, and the executions are enumerated
// by dynamic partial order reduction (Flanagan & Godefroid), so that every Mazurkiewicz trace is executed once or more.
#ifndef VERIF_SCHED_HPP
#define VERIF_SCHED_HPP
#include <cstdint>
#include <functional>
#include <string>
namespace sched {
struct Result { uint64_t schedules, events, regions, races; bool capped; std::string bad, bad_schedule; };
// Runs fn once for every schedule of its parallel regions with teams of n threads; stops at the first result that is not want
// (want null: the results are collected in *all).  focus >= 0: only that region is explored, the others run in one order.
Result explore(int n, const std::string* want, const std::function<std::string()>& fn, uint64_t cap, int focus = -1, std::function<void(const std::string&)> all = nullptr, int preemptions = -1);
// preemptions >= 0: instead, every schedule with at most so many preemptions, each before an access to an address seen contested
std::string sequential(const std::function<std::string()>& fn, int* regions);      // with teams of one thread
}
#endif
