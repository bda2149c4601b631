/* What workloads may ask of the simulator. */
#pragma once
#include <cstdint>
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32;
extern "C" {
void sim_pause();
void sim_resume();
int sim_quiesce();
void sim_yield();
void sim_point();
int sim_live_threads();
void sim_event_wait(volatile int *);
void sim_event_set(volatile int *);
void sim_alloc_arm(u64 at, u64 len);
u64 sim_alloc_count();
void sim_thread_arm(u64 at, u64 len);
u64 sim_thread_count();
u64 sim_fault_count();
u64 sim_live_allocs();
u64 sim_live_bytes();
u64 sim_random(u64 n);
int sim_tid();
void sim_fail(const char *kind, const char *msg) __attribute__((noreturn));
}
struct Quiet { Quiet() { sim_pause(); } ~Quiet() { sim_resume(); } };      /* harness bookkeeping: no faults, no preemption, not race-checked */
#define WL extern "C" __attribute__((visibility("default")))
