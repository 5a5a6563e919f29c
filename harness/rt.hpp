#ifndef VERIF_RT_HPP
#define VERIF_RT_HPP
#include <vector>
#include <set>
#include <cstdint>
namespace rt {
struct Team;
struct Fiber {
    int id = 0; Team* team = nullptr; void* sp = nullptr; char* stack = nullptr;
    bool done = false, blocked = false, inline_run = false; Fiber* parent = nullptr;
    unsigned sect = 0; uint64_t work = 0; void* crit = nullptr;
};
struct Team {
    void (*fn)(void*) = nullptr; void* data = nullptr; unsigned n = 1; int live = 0;
    unsigned nsections = 0, next_section = 0; int bar_count = 0; uint64_t bar_gen = 0;
    Team* nested_in = nullptr; std::vector<Fiber*> fib; void* main_sp = nullptr; int last = -1;
    std::set<uint64_t> singles;
};
struct Hooks {
    void (*region_begin)(Team*) = nullptr;
    void (*region_end)(Team*) = nullptr;
    int (*pick)(Team*) = nullptr;
    void (*sync)(void*, int) = nullptr;
    void (*barrier_done)(Team*) = nullptr;
};
extern Team* team; extern Fiber* cur; extern int default_threads, order, team_override; extern uint64_t regions, multi_regions; extern Hooks* hooks;
void acquire(void* key); void release(void* key);

void yield_to_main();
}
#endif
