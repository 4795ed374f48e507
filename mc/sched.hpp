// Controlled scheduler and happens-before monitor for the threads of the code under test.
//
// The code under test is compiled with -fsanitize=thread -fopenmp, but linked against sched.cpp instead of libtsan and
// libgomp: every instrumented memory access, every OpenMP construct and every user thread enters the functions there.
// Exactly one thread runs at a time; which one runs next is decided at the scheduling points by the plan below, so an
// explorer enumerates schedules by enumerating plans. In every execution a vector-clock monitor checks all pairs of
// conflicting accesses: without conflicts all interleavings of the execution are equivalent (one Mazurkiewicz trace),
// so the executed schedule represents all of them.
#pragma once
#include <functional>
#include <string>
#include <utility>
#include <vector>
namespace sched {
struct Plan {
  int              deliver = 64;  // threads the OpenMP runtime grants at most
  int              hw = 4;        // omp_get_max_threads
  std::vector<int> order;         // order in which runnable threads are preferred; digit p (or the last) rules phase p: index of a permutation
  std::vector<std::pair<long, int>> preempt;  // (step, thread): after `step` accesses inside of regions switch to `thread`
};
struct Report {
  std::string error;     // race, barrier divergence, deadlock ("" if none)
  long        steps;     // instrumented accesses made inside of regions
  long        regions;   // parallel regions entered with more than one thread
  long        region_requests, max_team, switches, phases;
};
void   begin(const Plan &p);
Report end();
// runs the functions as concurrent user threads under the plan
void   run_threads(const std::vector<std::function<void()>> &f);
void   ignore(bool on);  // accesses of this thread are the explorer's own
}  // namespace sched
