// The seams that every platform shares: heap, console, machine-wide error handler, and the course of time. What the clock
// is made of is up to the platform (clock_mock.cpp, board_arduino.cpp, kernel_zephyr.cpp).
#include "sim.hpp"

#include "spine/core/exception.hpp"

#include <iostream>
#include <new>
#include <streambuf>

extern "C" {
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);
}

namespace sim {

// ---- clock --------------------------------------------------------------------------------------------------------
namespace {
int g_depth = 0; // > 0 while inside the code under test
u64 g_accesses = 0;
u32 g_preempt_permille = 0;
i64 g_preempt_max = 0;
i64 g_preempted = 0;
} // namespace

void move_us(i64 us); // by the platform

i64 now_ms() { return now_us() / 1000; }
void advance_us(i64 us) { move_us(us); }
void set_preemption(u32 permille, i64 max_us) {
    g_preempt_permille = permille;
    g_preempt_max = max_us;
}
i64 preempted_us() { return g_preempted; }
u64 clock_accesses() { return g_accesses; }
u64 g_accesses_before_step = 0;
void clock_access_begin_step() { g_accesses_before_step = g_accesses; }

void (*g_interrupt)() = nullptr;
void on_clock_access(void (*interrupt)()) { g_interrupt = interrupt; }

void on_clock_access() {
    if (g_depth == 0) return;
    if (g_interrupt) {
        Host h;
        g_interrupt();
    }
    if (++g_accesses - g_accesses_before_step > 1000000)
        violate("hang", "the clock was accessed a million times within one step");
    if (g_preempt_permille && chance(g_preempt_permille)) {
        i64 us = 1 + (i64)draw((u64)g_preempt_max);
        g_preempted += us;
        fault("clock_advanced_between_reads");
        move_us(us);
    }
}

i64 draw_uptime_us() {
    constexpr i64 s = 1000000, h = 3600 * s, d = 24 * h;
    i64 base = 0;
    switch (draw(9)) {
    case 0: base = 0; break;
    case 1: base = 1 * s; break;
    case 2: base = 4 * h; break; // just below 2^24 ms
    case 3: base = 16777 * s; break; // at 2^24 ms
    case 4: base = 5 * h; break;
    case 5: base = 3 * d; break;
    case 6: base = 2147483 * s; break; // 2^31 ms
    case 7: base = 4294967 * s; break; // 2^32 ms
    case 8: base = 400 * d; break;
    }
    if (base) base += (i64)draw(5 * s);
    return base;
}

// ---- heap ---------------------------------------------------------------------------------------------------------
namespace {
constexpr size_t TABLE = 1 << 15;
void* g_table[TABLE];
size_t g_live = 0;
u64 g_total = 0;
bool g_exhausted = false;
void (*g_on_exhausted)(size_t) = nullptr;

size_t slot(void* p) { return (size_t)(((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 40) & (TABLE - 1); }
void track(void* p) {
    if (!p || g_depth == 0) return;
    ++g_total;
    if (g_live > TABLE / 2) return;
    size_t i = slot(p);
    while (g_table[i])
        i = (i + 1) & (TABLE - 1);
    g_table[i] = p;
    ++g_live;
}
void untrack(void* p) {
    if (!p || g_live == 0) return;
    size_t i = slot(p);
    while (g_table[i] && g_table[i] != p)
        i = (i + 1) & (TABLE - 1);
    if (!g_table[i]) return;
    --g_live;
    g_table[i] = nullptr;
    for (size_t j = (i + 1) & (TABLE - 1); g_table[j]; j = (j + 1) & (TABLE - 1)) {
        size_t want = slot(g_table[j]);
        if (((j - want) & (TABLE - 1)) >= ((j - i) & (TABLE - 1))) {
            g_table[i] = g_table[j];
            g_table[j] = nullptr;
            i = j;
        }
    }
}
bool deny(size_t n) {
    if (!g_exhausted || g_depth == 0) return false;
    fault("allocation_failed");
    if (g_on_exhausted) {
        int d = g_depth;
        g_depth = 0;
        g_on_exhausted(n);
        g_depth = d;
    }
    return true;
}
} // namespace

Sut::Sut() : saved(g_depth) { g_depth = g_depth + 1; }
Sut::~Sut() { g_depth = saved; }
Host::Host() : saved(g_depth) { g_depth = 0; }
Host::~Host() { g_depth = saved; }
void leave_sut() { g_depth = 0; }
size_t live_allocations() { return g_live; }
u64 total_allocations() { return g_total; }
void exhaust_heap(bool on) { g_exhausted = on; }
void on_heap_exhausted(void (*cb)(size_t)) { g_on_exhausted = cb; }

// ---- console ------------------------------------------------------------------------------------------------------
namespace {
struct Console : std::streambuf {
    // fixed memory: printing must not look like an allocation by the code under test
    char data[1 << 20];
    size_t n = 0;
    u64 total = 0;
    int overflow(int c) override {
        if (c != EOF) {
            ++total;
            if (n < sizeof(data)) data[n++] = (char)c;
        }
        return c;
    }
    std::streamsize xsputn(const char* s, std::streamsize len) override {
        for (std::streamsize i = 0; i < len; ++i)
            overflow((unsigned char)s[i]);
        return len;
    }
} g_console;
} // namespace

std::vector<std::string> take_console() {
    std::vector<std::string> lines;
    std::string cur;
    size_t start = 0;
    for (size_t i = 0; i < g_console.n; ++i) {
        if (g_console.data[i] == '\n') {
            lines.push_back(std::string(g_console.data + start, i - start));
            start = i + 1;
        }
    }
    std::memmove(g_console.data, g_console.data + start, g_console.n - start);
    g_console.n -= start;
    return lines;
}
void console_write(const char* s, size_t n) { g_console.xsputn(s, (std::streamsize)n); }
u64 console_bytes() { return g_console.total; }

// ---- machine-wide error handler -------------------------------------------------------------------------------------
namespace {
struct Handler : spn::core::ExceptionHandler {
    void handle_exception(const spn::core::Exception& e) override {
        Host host;
        thrown().push_back(Thrown{e.error_type(), e.what()});
    }
};
} // namespace
std::vector<Thrown>& thrown() {
    static std::vector<Thrown> v;
    return v;
}
void install_handler() {
    spn::core::set_machine_exception_handler(std::unique_ptr<spn::core::ExceptionHandler>(new Handler()));
}

void install_seams() {
    std::cout.rdbuf(&g_console);
    thrown().reserve(64);
}

bool debug_build() {
#ifdef DEBUG_SPINE
    return true;
#else
    return false;
#endif
}

} // namespace sim

extern "C" void* __wrap_malloc(size_t n) {
    if (sim::deny(n)) return nullptr;
    void* p = __real_malloc(n);
    sim::track(p);
    return p;
}
extern "C" void* __wrap_calloc(size_t a, size_t b) {
    if (sim::deny(a * b)) return nullptr;
    void* p = __real_calloc(a, b);
    sim::track(p);
    return p;
}
extern "C" void* __wrap_realloc(void* o, size_t n) {
    if (sim::deny(n)) return nullptr;
    sim::untrack(o);
    void* p = __real_realloc(o, n);
    sim::track(p);
    return p;
}
extern "C" void __wrap_free(void* p) {
    sim::untrack(p);
    __real_free(p);
}

void* operator new(size_t n) {
    if (sim::deny(n)) throw std::bad_alloc();
    void* p = __real_malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    sim::track(p);
    return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept {
    if (sim::deny(n)) return nullptr;
    void* p = __real_malloc(n ? n : 1);
    sim::track(p);
    return p;
}
void* operator new[](size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void operator delete(void* p) noexcept {
    sim::untrack(p);
    __real_free(p);
}
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { operator delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { operator delete(p); }
