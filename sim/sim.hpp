// Deterministic simulation core.
//
// One run = one choice tape. Every decision (which operation, which interleaving, which fault, how long a delay) is a
// draw from that tape; a tape is either generated from one seed or read from a replay file. The tape is divided into
// segments: segment 0 holds the choices made while setting a run up, every later segment belongs to one simulated step
// (including everything drawn from within callbacks and seams during that step). Deleting a segment deletes a step,
// draws that are missing read as 0 (always the tamest choice), which is what makes minimisation work.
#pragma once

#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>

namespace sim {

using u64 = uint64_t;
using i64 = int64_t;
using u32 = uint32_t;

// ---- choices ------------------------------------------------------------------------------------------------------
u64 draw(u64 n); // uniform in [0, n); 0 is the tamest choice
inline i64 range(i64 lo, i64 hi) { return lo + (i64)draw((u64)(hi - lo + 1)); } // inclusive
bool chance(u32 permille); // false is the tame choice
inline bool flip() { return draw(2) != 0; }
size_t pick(std::initializer_list<u32> weights); // weighted, index 0 is the tame choice
template<typename T>
T one_of(std::initializer_list<T> values) {
    return *(values.begin() + draw(values.size()));
}

bool step(); // begins the next step; false when the run is over
void limit_steps(u32 n); // how many steps a generated run gets (call during set up)
u64 run_seed();

// ---- recording ----------------------------------------------------------------------------------------------------
void log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void fault(const char* name, u64 n = 1); // a fault that really happened
void probe(const char* name, u64 n = 1); // a rare condition that was reached
void state(u64 abstract_state); // an (abstracted) state that was reached
void nontrivial(); // this run did what it is about
[[noreturn]] void violate(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
#define SIM_CHECK(cond, cls, ...)                                                                                      \
    do {                                                                                                               \
        if (!(cond)) ::sim::violate(cls, __VA_ARGS__);                                                                 \
    } while (0)
/// Is this class of violations what is being decided? A check that isn't fatal to the model is made with SIM_SOFT, so that
/// a deviation which breaks another property doesn't hide what happens next.
bool armed_class(const char* cls);
#define SIM_SOFT(cond, cls, ...)                                                                                       \
    do {                                                                                                               \
        if (!(cond)) {                                                                                                 \
            if (::sim::armed_class(cls)) ::sim::violate(cls, __VA_ARGS__);                                             \
            ::sim::log("other property: %s", cls);                                                                     \
        }                                                                                                              \
    } while (0)

// ---- simulated clock (the platform's clock state, see seams.cpp) ------------------------------------------------------
i64 now_us();
i64 now_ms(); // floor
void start_clock(i64 us); // sets the uptime at which a run starts
void set_clock_us(i64 us);
void advance_us(i64 us);
inline void advance_ms(i64 ms) { advance_us(ms * 1000); }
/// Let the clock advance in between two accesses by the code under test (preemption, slow code, interrupts)
void set_preemption(u32 permille, i64 max_us);
i64 preempted_us(); // total time taken by preemptions in this run
u64 clock_accesses();
void on_clock_access(void (*interrupt)()); // called whenever the code under test uses the clock

// ---- code under test scope: allocations made inside belong to it ------------------------------------------------------
struct Sut {
    Sut();
    ~Sut();
    int saved;
};
struct Host { // callback from the code under test back into the simulator
    Host();
    ~Host();
    int saved;
};
size_t live_allocations(); // allocations of the code under test that were not freed
u64 total_allocations(); // amount of allocations made by the code under test
void exhaust_heap(bool on); // from here on every allocation by the code under test fails
void on_heap_exhausted(void (*cb)(size_t));

// ---- console (whatever the platform prints) ---------------------------------------------------------------------------
std::vector<std::string> take_console(); // complete lines printed since the last call
u64 console_bytes();

// ---- machine-wide error handler ---------------------------------------------------------------------------------------
struct Thrown {
    std::string type, what;
};
std::vector<Thrown>& thrown(); // everything that went through the machine exception handler (see install_handler)
void install_handler();

// ---- scenarios --------------------------------------------------------------------------------------------------------
struct Scenario {
    const char* name;
    void (*run)();
    const Scenario* next;
};
struct Register {
    Scenario s;
    Register(const char* name, void (*run)());
};
#define SIM_SCENARIO(name)                                                                                             \
    static void scenario_##name();                                                                                     \
    static ::sim::Register register_##name(#name, scenario_##name);                                                    \
    static void scenario_##name()

const char* property(); // the property being decided
bool debug_build();

/// Typical uptimes at which a device may find itself, in microseconds
i64 draw_uptime_us();

} // namespace sim
