// Schedule exploration: interface between the scenario program and the instrumented runtime.
#ifndef VERIF_TSAN_HPP
#define VERIF_TSAN_HPP
#include <cstdint>
namespace ts {
struct Point { uint32_t region, fiber; uint64_t ord; int32_t target; };      // preempt `fiber` before its access `ord` of `region`; run `target` (-1: all others) first
struct Plan { int32_t order, team; uint32_t npoints, commute; Point p[4]; uint64_t ngran; uint64_t gran[4096]; };
struct Report { uint64_t newgran, npoints, accesses, regions, truncated; uint64_t gran[4096]; Point p[20000]; char bad[400]; };
void enable(const Plan* plan, Report* rep);     // from here on parallel regions are tracked and scheduled as planned
void disable();
}
#endif
