// Interface between harnesses and the engine.  Implemented by rt.cpp (symbolic run) and native.cpp (replay of one
// assignment on the ordinary build).
#ifndef SY_H_
#define SY_H_
#include <cstdint>
#include <string>
extern "C" {
// fresh symbolic values within [lo, hi]
uint64_t sy_u64(const char *name, uint64_t lo, uint64_t hi);
uint32_t sy_u32(const char *name, uint32_t lo, uint32_t hi);
uint8_t sy_u8(const char *name, uint8_t lo, uint8_t hi);
// a symbolic byte out of a set
uint8_t sy_among(const char *name, const char *set, uint64_t n);
// forks: a concrete value in 0..n-1 on each path, all of them explored
uint64_t sy_choice(const char *name, uint64_t n);
void sy_assume(bool c);
void sy_check(bool c, const char *msg);
void sy_fail(const char *msg);
void sy_reach(const char *tag);
void sy_obs(const char *tag, uint64_t v);
uint64_t sy_conc(uint64_t v);
int sy_known(uint64_t v);
void sy_cut();
void sy_done();
void sy_exit_ok(const char *tag);
void sy_exit(int code);
void sy_sched(int budget); // threads: all schedules with that many preemptions; -1: no exploration
void sy_rotate(int every); // threads: one schedule, in which they take turns
void sy_yield();
void sy_yield_hint();
void sy_progress();
int sy_symbolic();
// a private scratch directory becomes the working directory
void sy_scratch();
void sy_write_file(const char *name, const char *data, uint64_t n);
void sy_harness();
}
// harness helpers
static inline bool sy_bool(const char *n) { return sy_choice(n, 2) != 0; }
static inline bool sy_flag(const char *n) { return sy_u8(n, 0, 1) != 0; }
#endif
