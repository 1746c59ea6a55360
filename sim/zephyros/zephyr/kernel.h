// A simulated Zephyr kernel: the part of its API that Spine uses, on top of the simulator.
#pragma once

#include <cstddef>
#include <cstdint>

// how many ticks the system clock makes per second (in reality fixed by Kconfig)
extern uint32_t sim_zephyr_ticks_per_s;

typedef int64_t k_ticks_t;
typedef struct {
    k_ticks_t ticks;
    int64_t us; // -1: forever
} k_timeout_t;

#define MSEC_PER_SEC 1000U
#define USEC_PER_MSEC 1000U
#define USEC_PER_SEC 1000000U
#define NSEC_PER_USEC 1000U
#define CONFIG_SYS_CLOCK_TICKS_PER_SEC sim_zephyr_ticks_per_s
#define K_USEC(t) (k_timeout_t{0, (int64_t)(t)})
#define K_MSEC(t) K_USEC((int64_t)(t) * 1000)
#define K_SECONDS(t) K_MSEC((int64_t)(t) * 1000)
#define K_MINUTES(t) K_SECONDS((int64_t)(t) * 60)
#define K_HOURS(t) K_MINUTES((int64_t)(t) * 60)
#define K_TICKS(t) (k_timeout_t{0, (int64_t)k_ticks_to_us_ceil64(t)})
#define K_NO_WAIT K_USEC(0)
#define K_FOREVER K_USEC(-1)
#define ARG_UNUSED(x) (void)(x)
#ifndef MIN
#    define MIN(a, b) (((a) < (b)) ? (a) : (b))
#    define MAX(a, b) (((a) > (b)) ? (a) : (b))
#endif

extern "C" {
int64_t k_uptime_get(void);
uint32_t k_uptime_get_32(void);
int64_t k_uptime_ticks(void);
uint32_t k_cycle_get_32(void);
int32_t k_msleep(int32_t ms);
int32_t k_usleep(int32_t us);
int32_t k_sleep(k_timeout_t timeout);
int64_t k_uptime_delta(int64_t* reftime);
uint64_t k_cycle_get_64(void);
uint32_t sys_clock_hw_cycles_per_sec(void);
unsigned int irq_lock(void);
void irq_unlock(unsigned int key);
void k_busy_wait(uint32_t us);
void k_yield(void);
}
[[noreturn]] void k_panic(void);
[[noreturn]] void k_oops(void);

static inline uint64_t sim_k_convert(uint64_t t, int round) {
    const unsigned __int128 p = (unsigned __int128)t * 1000000u;
    const uint32_t f = sim_zephyr_ticks_per_s;
    return (uint64_t)((p + (round == 1 ? f / 2 : round == 2 ? f - 1 : 0)) / f);
}
static inline uint32_t k_ticks_to_us_floor32(uint32_t t) { return (uint32_t)sim_k_convert(t, 0); }
static inline uint32_t k_ticks_to_us_near32(uint32_t t) { return (uint32_t)sim_k_convert(t, 1); }
static inline uint32_t k_ticks_to_us_ceil32(uint32_t t) { return (uint32_t)sim_k_convert(t, 2); }
static inline uint64_t k_ticks_to_us_floor64(uint64_t t) { return sim_k_convert(t, 0); }
static inline uint64_t k_ticks_to_us_near64(uint64_t t) { return sim_k_convert(t, 1); }
static inline uint64_t k_ticks_to_us_ceil64(uint64_t t) { return sim_k_convert(t, 2); }
static inline uint64_t k_ticks_to_ms_floor64(uint64_t t) { return sim_k_convert(t, 0) / 1000; }
static inline uint64_t k_ticks_to_ms_near64(uint64_t t) { return (sim_k_convert(t, 0) + 500) / 1000; }
static inline uint64_t k_ticks_to_ms_ceil64(uint64_t t) { return (sim_k_convert(t, 2) + 999) / 1000; }
static inline uint32_t k_ticks_to_ms_floor32(uint32_t t) { return (uint32_t)k_ticks_to_ms_floor64(t); }
static inline uint32_t k_uptime_seconds(void) { return (uint32_t)(k_uptime_get() / 1000); }
static inline uint64_t k_us_to_ticks_ceil64(uint64_t us) {
    return (uint64_t)(((unsigned __int128)us * sim_zephyr_ticks_per_s + 999999u) / 1000000u);
}
static inline uint64_t k_us_to_ticks_floor64(uint64_t us) {
    return (uint64_t)((unsigned __int128)us * sim_zephyr_ticks_per_s / 1000000u);
}
static inline uint64_t k_ms_to_ticks_ceil64(uint64_t ms) { return k_us_to_ticks_ceil64(ms * 1000); }
static inline uint64_t k_ms_to_ticks_floor64(uint64_t ms) { return k_us_to_ticks_floor64(ms * 1000); }
static inline uint64_t k_cyc_to_us_floor64(uint64_t c) { return c / (sys_clock_hw_cycles_per_sec() / 1000000u); }
static inline uint32_t k_cyc_to_us_floor32(uint32_t c) { return c / (sys_clock_hw_cycles_per_sec() / 1000000u); }
