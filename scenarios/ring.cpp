// Scenario: a producer and a consumer that share a ring buffer, a line buffer or a mock stream.
// Decides C10 (bounded queue), parts of C07 (lines), and C06 (no heap) for buffers.
#include "sim.hpp"
#include "spine/core/logging.hpp"
#include "spine/io/stream/implementations/mock.hpp"
#include "spine/structure/linebuffer.hpp"
#include "spine/structure/ringbuffer.hpp"

#include <algorithm>
#include <deque>
#include <memory>
#include <string>

using namespace sim;
using spn::structure::LineBuffer;
using spn::structure::RingBuffer;

namespace {

void arm() {
    if (strcmp(property(), "C06")) return;
    on_heap_exhausted([](size_t n) { violate("heap", "%zu bytes were requested from an exhausted heap", n); });
    exhaust_heap(true);
}

template<typename T>
struct Maker;
template<>
struct Maker<uint8_t> {
    static uint8_t make(u64 n) { return (uint8_t)(n * 7 + (n >> 8) * 3 + (n >> 16) + 1); }
};
template<>
struct Maker<u32> {
    static u32 make(u64 n) { return (u32)(n * 2654435761u + 1); }
};
struct Wide {
    u64 a = 0, b = 0, c = 0;
    bool operator==(const Wide& o) const { return a == o.a && b == o.b && c == o.c; }
};
template<>
struct Maker<Wide> {
    static Wide make(u64 n) { return Wide{n, ~n, n * 3}; }
};

template<typename T>
struct Ring {
    std::unique_ptr<RingBuffer<T>> rb;
    std::deque<T> q;
    size_t cap;
    u64 serial = 0, moved = 0;
    size_t overrun = 0;
    bool overrun_known = true;

    void check(const char* when) {
        size_t used, left, capacity, over;
        bool empty, full;
        {
            Sut s;
            used = rb->used_space();
            left = rb->free_space();
            capacity = rb->capacity();
            empty = rb->empty();
            full = rb->full();
            over = rb->overrun_space();
        }
        SIM_CHECK(capacity == cap, "ring:space", "%s: capacity is %zu instead of %zu", when, capacity, cap);
        SIM_CHECK(used == q.size() && left == cap - q.size(), "ring:space",
                  "%s: %zu used, %zu left instead of %zu, %zu", when, used, left, q.size(), cap - q.size());
        SIM_CHECK(empty == q.empty() && full == (q.size() == cap), "ring:space", "%s: empty=%d full=%d with %zu of %zu",
                  when, (int)empty, (int)full, q.size(), cap);
        if (overrun_known)
            SIM_CHECK(over == overrun, "ring:overrun", "%s: %zu elements are reported as overrun instead of %zu", when,
                      over, overrun);
        // look at everything from time to time, and always at both ends and beyond
        size_t n = q.size();
        bool all = chance(150);
        for (size_t i = 0; i <= n + 1; ++i) {
            if (!all && i == 1 && n > 2) i = n - 1;
            T v{};
            T* p = nullptr;
            bool a, b;
            {
                Sut s;
                a = rb->peek_at(v, i);
                b = rb->peek_at(&p, i);
            }
            SIM_CHECK(a == (i < n) && b == (i < n), "ring:peek", "%s: peeking at %zu of %zu is %d and %d", when, i, n,
                      (int)a, (int)b);
            if (i < n)
                SIM_CHECK(v == q[i] && p && *p == q[i], "ring:content", "%s: element %zu of %zu is another one", when,
                          i, n);
        }
    }
    void push(bool block) {
        bool rollover = chance(300);
        size_t n = block ? draw(flip() ? 4 : cap * 2 + 3) : 1;
        std::vector<T> v;
        for (size_t i = 0; i < n; ++i)
            v.push_back(Maker<T>::make(++serial));
        size_t got;
        {
            Sut s;
            got = block ? rb->push(v.data(), n, rollover) : (size_t)rb->push(v[0], rollover);
        }
        size_t want = rollover ? n : std::min(n, cap - q.size());
        log("push %zu rollover=%d -> %zu", n, (int)rollover, got);
        SIM_CHECK(got == want, "ring:accepted", "%zu of %zu elements were accepted instead of %zu", got, n, want);
        for (size_t i = 0; i < want; ++i) {
            if (q.size() == cap) {
                q.pop_front();
                ++overrun;
                probe("overrun");
            }
            q.push_back(v[i]);
        }
        if (want < n) probe("refused");
    }
    void pop() {
        switch (draw(3)) {
        case 0: {
            bool ok;
            {
                Sut s;
                ok = rb->pop();
            }
            log("pop -> %d", (int)ok);
            SIM_CHECK(ok == !q.empty(), "ring:pop", "popping from %zu elements is %d", q.size(), (int)ok);
            if (ok) took(1);
            break;
        }
        case 1: {
            T v{};
            bool ok;
            {
                Sut s;
                ok = rb->pop(v);
            }
            log("pop value -> %d", (int)ok);
            SIM_CHECK(ok == !q.empty(), "ring:pop", "popping from %zu elements is %d", q.size(), (int)ok);
            if (ok) {
                SIM_CHECK(v == q.front(), "ring:content", "another element than the oldest one was popped");
                took(1);
            }
            break;
        }
        case 2: {
            size_t n = draw(flip() ? 4 : cap + 2);
            std::unique_ptr<T[]> v(new T[n]); // exactly as large as announced
            size_t got;
            {
                Sut s;
                got = rb->pop(v.get(), n);
            }
            log("pop %zu -> %zu", n, got);
            size_t want = q.size() < n ? 0 : n;
            SIM_CHECK(got == want, "ring:pop", "%zu of %zu elements were popped instead of %zu", got, n, want);
            for (size_t i = 0; i < got; ++i)
                SIM_CHECK(v[i] == q[i], "ring:content", "popped element %zu is another one", i);
            if (want) took(want);
            break;
        }
        }
    }
    void took(size_t n) {
        q.erase(q.begin(), q.begin() + n);
        moved += n;
        overrun = 0;
        overrun_known = true;
    }
    void drop() {
        bool last = flip();
        if (chance(100)) {
            {
                Sut s;
                rb->clear();
            }
            log("clear");
            q.clear();
            overrun_known = false;
            return;
        }
        size_t n = flip() ? draw(4) : draw(cap + 3);
        size_t got;
        {
            Sut s;
            got = last ? rb->drop_last(n) : rb->drop_first(n);
        }
        size_t want = n ? std::min(n, q.size()) : q.size();
        log("drop %s %zu -> %zu", last ? "last" : "first", n, got);
        SIM_CHECK(got == want, "ring:dropped", "%zu elements were dropped instead of %zu", got, want);
        if (last) q.erase(q.end() - want, q.end());
        else
            q.erase(q.begin(), q.begin() + want);
        overrun_known = false;
    }
    void run() {
        cap = pick({1, 2}) ? 1 + draw(10) : one_of<size_t>({1, 2, 3, 64, 100});
        if (chance(30)) cap = one_of<size_t>({255, 256, 257, 300, 1000, 65535, 65536, 70000});
        log("capacity=%zu", cap);
        {
            Sut s;
            rb = std::make_unique<RingBuffer<T>>(cap);
        }
        arm();
        u32 w_drop = one_of<u32>({0, 1, 3}), w_push = one_of<u32>({2, 4, 8});
        check("at first");
        while (step()) {
            switch (pick({3, w_push, w_push, w_drop})) {
            case 0: pop(); break;
            case 1: push(false); break;
            case 2: push(true); break;
            case 3: drop(); break;
            }
            check("afterwards");
            state((std::min<u64>(q.size(), 15) * 16 + std::min<u64>(cap, 15)) * 64 + std::min<u64>(serial % 64, 63));
        }
        if (moved) nontrivial();
        exhaust_heap(false);
        {
            Sut s;
            rb.reset();
        }
        SIM_CHECK(live_allocations() == 0, "ring:leak", "%zu allocations were not released", live_allocations());
    }
};

/// MockStream: two ring buffers, seen from both sides
void run_mock() {
    size_t in_cap = 1 + draw(12), out_cap = 1 + draw(12);
    if (chance(30)) in_cap = one_of<size_t>({255, 256, 300}), out_cap = one_of<size_t>({255, 256, 300});
    std::unique_ptr<spn::io::MockStream> ms;
    log("in=%zu out=%zu", in_cap, out_cap);
    {
        Sut s;
        ms = std::make_unique<spn::io::MockStream>(
            spn::io::MockStream::Config{.input_buffer_size = in_cap, .output_buffer_size = out_cap});
    }
    std::deque<uint8_t> in, out;
    u64 serial = 0, moved = 0;
    while (step()) {
        switch (draw(6)) {
        case 0: {
            std::vector<uint8_t> v;
            for (size_t n = draw(in_cap + 3); n-- > 0;)
                ++serial, v.push_back((uint8_t)(serial + (serial >> 8)));
            {
                Sut s;
                ms->inject_bytestream(v);
            }
            log("inject %zu", v.size());
            for (auto c : v)
                if (in.size() < in_cap) in.push_back(c);
            break;
        }
        case 1: {
            std::vector<uint8_t> got;
            bool present;
            {
                Sut s;
                auto o = ms->extract_bytestream();
                present = o.has_value();
                Host h;
                if (o) got = *o;
            }
            log("extract -> %zu", got.size());
            SIM_CHECK(present && std::equal(got.begin(), got.end(), out.begin(), out.end()), "mock:content",
                      "%zu bytes were extracted that differ from the %zu that were written", got.size(), out.size());
            moved += out.size();
            out.clear();
            break;
        }
        case 2: {
            uint8_t v = 0;
            bool ok;
            {
                Sut s;
                ok = ms->read(v);
            }
            log("read -> %d", (int)ok);
            SIM_CHECK(ok == !in.empty() && (!ok || v == in.front()), "mock:content",
                      "reading a byte is %d with %zu left", (int)ok, in.size());
            if (ok) in.pop_front();
            break;
        }
        case 3: {
            size_t n = draw(in_cap + 2);
            std::unique_ptr<uint8_t[]> v(new uint8_t[n]);
            bool chars = flip();
            size_t got;
            {
                Sut s;
                got = chars ? ms->read((char*)v.get(), n) : ms->read(v.get(), n);
            }
            log("read %zu -> %zu", n, got);
            SIM_CHECK(got <= n && got <= in.size() && (n > in.size() || got == n), "mock:content",
                      "%zu of %zu bytes were read with %zu available", got, n, in.size());
            for (size_t i = 0; i < got; ++i) {
                SIM_CHECK(v[i] == in.front(), "mock:content", "byte %zu is another one", i);
                in.pop_front();
            }
            break;
        }
        case 4: {
            bool ok, chars = flip();
            {
                Sut s;
                ++serial;
                ok = chars ? ms->write((char)serial) : ms->write((uint8_t)serial);
            }
            log("write -> %d", (int)ok);
            SIM_CHECK(ok == (out.size() < out_cap), "mock:content", "writing a byte is %d with %zu of %zu used",
                      (int)ok, out.size(), out_cap);
            if (ok) out.push_back((uint8_t)serial);
            break;
        }
        case 5: {
            std::string v;
            for (size_t n = draw(out_cap + 3); n-- > 0;)
                v += (char)++serial;
            size_t got, how = draw(3);
            {
                Sut s;
                got = how == 0   ? ms->write(std::string_view(v))
                      : how == 1 ? ms->write(v.data(), v.size())
                                 : ms->write((const uint8_t*)v.data(), v.size());
            }
            log("write %zu -> %zu", v.size(), got);
            SIM_CHECK(got == std::min(v.size(), out_cap - out.size()), "mock:content", "%zu of %zu bytes were written",
                      got, v.size());
            for (size_t i = 0; i < got; ++i)
                out.push_back((uint8_t)v[i]);
            break;
        }
        }
        size_t a, w;
        {
            Sut s;
            a = ms->available();
            w = ms->available_for_write();
        }
        SIM_CHECK(a == in.size() && w == out_cap - out.size(), "mock:space",
                  "%zu readable, %zu writable instead of %zu, %zu", a, w, in.size(), out_cap - out.size());
        state((std::min<u64>(a, 15) * 16 + std::min<u64>(w, 15)) * 256 + std::min<u64>(in_cap, 15) * 16
              + std::min<u64>(out_cap, 15));
    }
    if (moved) nontrivial();
    {
        Sut s;
        ms.reset();
    }
    SIM_CHECK(live_allocations() == 0, "mock:leak", "%zu allocations were not released", live_allocations());
}

/// LineBuffer used directly
void run_lines() {
    size_t cap = pick({1, 2}) ? 1 + draw(12) : one_of<size_t>({1, 2, 64});
    if (chance(30)) cap = one_of<size_t>({255, 256, 257, 300});
    std::string delims[3] = {"\r\n", ";", std::string("\0|", 2)};
    std::string delim = delims[draw(3)];
    std::unique_ptr<LineBuffer> lb;
    log("capacity=%zu", cap);
    {
        Sut s;
        if (delim == "\r\n" && flip()) lb = std::make_unique<LineBuffer>(cap);
        else
            lb = std::make_unique<LineBuffer>(cap, std::string_view(delim));
    }
    arm();
    std::deque<char> q;
    u64 serial = 0, lines = 0;
    auto next = [&]() -> size_t {
        for (size_t i = 0; i < q.size(); ++i)
            if (delim.find(q[i]) != std::string::npos) return i + 1;
        return 0;
    };
    while (step()) {
        switch (pick({4, 3, 3, 2, 1})) {
        case 0: {
            std::string v;
            for (size_t n = draw(flip() ? 5 : cap + 3); n-- > 0;)
                v += (char)('a' + ++serial % 26);
            if (!chance(200)) v += flip() ? delim[draw(delim.size())] : ";\n\r|"[draw(4)];
            bool rollover = chance(200), by_view = !rollover && flip();
            size_t got;
            {
                Sut s;
                got = by_view ? lb->push(std::string_view(v)) : lb->push(v.data(), v.size(), rollover);
            }
            size_t want = rollover ? v.size() : std::min(v.size(), cap - q.size());
            log("push %zu rollover=%d -> %zu", v.size(), (int)rollover, got);
            SIM_CHECK(got == want, "line:accepted", "%zu of %zu bytes were accepted instead of %zu", got, v.size(),
                      want);
            for (size_t i = 0; i < want; ++i) {
                if (q.size() == cap) q.pop_front();
                q.push_back(v[i]);
            }
            break;
        }
        case 1: {
            size_t n = next();
            std::string got;
            bool present;
            {
                std::optional<std::string_view> o;
                {
                    Sut s;
                    o = lb->get_next_line_view();
                }
                present = o.has_value();
                if (o) got = std::string(*o);
            }
            log("view -> %d", (int)present);
            SIM_CHECK(present == (n > 0), "line:presence", "a view is %s", present ? "there" : "missing");
            if (n)
                SIM_CHECK(got == std::string(q.begin(), q.begin() + (n - 1)), "line:content", "a line reads '%s'",
                          got.c_str());
            break;
        }
        case 2: {
            size_t n = next();
            size_t max = flip() ? cap : draw(cap + 2);
            std::unique_ptr<char[]> buf(new char[max]);
            size_t got;
            {
                Sut s;
                got = lb->get_next_line(buf.get(), max);
            }
            log("copy at most %zu -> %zu", max, got);
            if (n == 0 || n > max) SIM_CHECK(got == 0, "line:content", "%zu bytes were copied", got);
            else {
                SIM_CHECK(got == n - 1 && std::equal(buf.get(), buf.get() + got, q.begin()) && buf[got] == 0,
                          "line:content", "a copied line differs");
                q.erase(q.begin(), q.begin() + n);
                ++lines;
            }
            break;
        }
        case 3: {
            size_t n = next();
            bool ok;
            {
                Sut s;
                ok = lb->drop_next_line();
            }
            log("drop -> %d", (int)ok);
            SIM_CHECK(ok == (n > 0), "line:presence", "dropping a line is %d", (int)ok);
            if (n) q.erase(q.begin(), q.begin() + n), ++lines;
            break;
        }
        case 4: {
            delim = delims[draw(3)];
            Sut s;
            lb->set_delimiters(std::string_view(delim));
            break;
        }
        }
        size_t len, used;
        bool has;
        {
            Sut s;
            len = lb->length_of_next_line();
            has = lb->has_line();
            used = lb->used_space();
        }
        SIM_CHECK(len == next() && has == (len > 0) && used == q.size(), "line:presence",
                  "length %zu, has line %d, used %zu instead of %zu, %zu", len, (int)has, used, next(), q.size());
        state((std::min<u64>(len, 15) * 16 + std::min<u64>(used, 15)) * 16 + std::min<u64>(cap, 15));
    }
    if (lines) nontrivial();
    exhaust_heap(false);
    {
        Sut s;
        lb.reset();
    }
    SIM_CHECK(live_allocations() == 0, "line:leak", "%zu allocations were not released", live_allocations());
}

void setup() {
    install_handler();
    spn::logging::set_log_level(spn::logging::LogLevel::OFF);
    start_clock(0);
    limit_steps((u32)one_of<i64>({10, 30, 60, 120}));
}

} // namespace

SIM_SCENARIO(ring) {
    setup();
    switch (draw(3)) {
    case 0: Ring<uint8_t>().run(); break;
    case 1: Ring<u32>().run(); break;
    case 2: Ring<Wide>().run(); break;
    }
}
SIM_SCENARIO(mockstream) {
    setup();
    run_mock();
}
SIM_SCENARIO(lines) {
    setup();
    run_lines();
}
