// Scenario: a whole event system under a simulated clock, with handlers that schedule, trigger, hold, stall and fail.
// Decides C01 (delivery), C02 (order), C03 (store), C04 (sleep between ticks), and C06 (no heap) for the event system.
#include "sim.hpp"
#include "spine/core/logging.hpp"
#include "spine/eventsystem/eventsystem.hpp"

#include <algorithm>
#include <functional>
#include <memory>
#include <optional>
#include <set>

using namespace sim;
using spn::core::Event;
using spn::core::EventHandler;
using spn::core::EventSystem;

namespace {

enum class Id : size_t {};
enum Kind { NONE, U32, F32, MS, S };

struct Payload {
    Kind kind = NONE;
    u32 v = 0;
};

Event::Data to_data(const Payload& p) {
    switch (p.kind) {
    case U32: return Event::Data(p.v);
    case F32: return Event::Data((float)p.v + 0.5f);
    case MS: return Event::Data(k_time_ms((i64)p.v * 1000003));
    case S: return Event::Data(k_time_s((i64)p.v * 86413));
    default: return Event::Data{};
    }
}

/// What an event carries. Asking for what it doesn't carry may throw, which is slow, so every question is asked once.
struct Seen {
    const Event::Data& d;
    std::optional<u32> u;
    std::optional<float> f;
    std::optional<i64> t[5];
    bool asked[5] = {};

    bool matches(const Payload& p) {
        if (d.has_value() != (p.kind != NONE)) return false;
        bool first = !asked[p.kind];
        asked[p.kind] = true;
        try {
            switch (p.kind) {
            case U32:
                if (first) u = d.unsigned_value();
                return u == p.v;
            case F32:
                if (first) f = d.value();
                return f == (float)p.v + 0.5f;
            case MS:
                if (first) t[MS] = d.ms().raw();
                return t[MS] == (i64)p.v * 1000003;
            case S:
                if (first) t[S] = d.s().raw();
                return t[S] == (i64)p.v * 86413;
            default:
#ifndef DEBUG_SPINE // there, asking for what isn't there is an error
                if (first && (d.unsigned_value() != 0 || d.value() != 0 || d.ms().raw() != 0 || d.s().raw() != 0))
                    return false;
#endif
                return true;
            }
        } catch (const std::bad_variant_access&) {
            return false;
        }
    }
};

struct HandlerFailure {};

struct Pending {
    u64 seq;
    size_t id;
    Payload p;
    i64 lo, hi; // the earliest and latest moment (ms) at which it may be due
    Event* ptr; // if known
};

struct Held {
    std::shared_ptr<Event> ev;
    size_t id;
    Payload p;
    i64 delay;
    bool pending;
    int busy = 0; // being triggered right now
};

struct Frame {
    bool loop;
    size_t id;
    Payload p;
    size_t next; // amount of handlers reached
    bool from_store;
};

struct World;
World* W;

struct Handler : EventHandler {
    size_t index;
    Handler(size_t i) : EventHandler(nullptr), index(i) {}
    void handle_event(const Event& e) override;
};

struct World {
    EventSystem::Config cfg;
    std::vector<std::unique_ptr<Handler>> handlers;
    std::vector<std::vector<size_t>> attached; // per id, handler indices in order of attaching
    std::unique_ptr<EventSystem> es;
    std::vector<Pending> pending;
    std::vector<Held> held;
    std::vector<Frame> stack;
    bool in_loop = false;
    size_t loop_base = 0;
    u64 seq = 0;
    u32 serial = 0;
    i64 last_handler_end_us = 0;
    bool fired_in_loop = false;
    int budget = 0; // of reentrant schedules per loop
    u64 delivered = 0;
    // swarm
    u32 w_reentrant, w_trigger, w_hold, w_slow, w_throw, w_attach, payload_mask, p_tie;
    i64 max_delay;
    bool armed; // heap exhausted

    size_t frames_from_store() const {
        size_t n = 0;
        for (auto& f : stack)
            n += f.from_store;
        return n;
    }
    size_t in_use() const {
        size_t n = held.size();
        for (auto& p : pending) {
            bool is_held = false;
            for (auto& h : held)
                is_held |= p.ptr && h.ev.get() == p.ptr;
            n += !is_held;
        }
        return n;
    }
    // how many events can be taken from the store: at least / at most (an event that is being delivered may or may
    // not have been returned already)
    long free_min() const { return (long)cfg.events_cap - (long)in_use() - (long)frames_from_store(); }
    long free_max() const { return (long)cfg.events_cap - (long)in_use(); }

    Payload draw_payload() {
        Payload p;
        size_t k = draw(5);
        p.kind = (payload_mask >> k) & 1 ? (Kind)k : U32;
        p.v = ++serial;
        return p;
    }
    i64 draw_delay() {
        if (!pending.empty() && chance(p_tie)) {
            auto& o = pending[draw(pending.size())];
            if (o.lo > now_ms()) {
                probe("tie_requested");
                return o.lo - now_ms() + (i64)pick({8, 1, 1}) * 1;
            }
        }
        switch (pick({4, 2, 4, 2, 1, 1})) {
        case 0: return range(1, 20);
        case 1: return 0;
        case 2: return range(1, 2000);
        case 3: return range(1, max_delay);
        case 4: return 3600000ll * range(1, 30);
        default: return 1000ll * range(1, 100);
        }
    }

    void add_pending(size_t id, Payload p, i64 before, i64 after, i64 delay, Event* ptr) {
        pending.push_back(Pending{++seq, id, p, before + delay, after + delay, ptr});
        if (pending.size() == cfg.events_cap) probe("pipeline_full");
    }

    std::shared_ptr<Event> acquire(size_t id, i64 delay, const Payload& p) {
        std::shared_ptr<Event> ev;
        long fmin = free_min(), fmax = free_max();
        {
            Sut s;
            ev = es->event((Id)id, k_time_ms(delay), to_data(p));
        }
        if (!ev) {
            SIM_CHECK(fmin <= 0, "store:refused", "no event was handed out although %ld of %zu are free", fmin,
                      cfg.events_cap);
            probe("store_exhausted");
            return nullptr;
        }
        SIM_CHECK(fmax > 0, "store:overcommitted", "an event was handed out although all %zu are in use",
                  cfg.events_cap);
        for (auto& h : held)
            SIM_CHECK(h.ev != ev, "store:shared", "an event that is held by somebody else was handed out again");
        for (auto& q : pending)
            SIM_CHECK(q.ptr != ev.get(), "store:shared", "an event that is still scheduled was handed out again");
        SIM_CHECK(ev->id() == id && Seen{ev->data()}.matches(p), "store:content",
                  "an event for id %zu came with id %zu or different data", id, (size_t)ev->id());
        return ev;
    }

    void op_schedule(const char* who) {
        size_t id = draw(attached.size());
        i64 delay = draw_delay();
        Payload p = draw_payload();
        if (in_loop && --budget < 0) return;
        if (in_loop && delay == 0) {
            probe("reentrant_immediate");
        }
        long fmin = free_min(), fmax = free_max();
        if (fmin != fmax && fmin <= 0 && fmax > 0) {
            // it depends on whether the event being delivered was returned: find out
            auto ev = acquire(id, delay, p);
            if (!ev) return;
            Event* raw = ev.get();
            i64 before = now_ms();
            {
                Sut s;
                es->schedule(std::move(ev));
            }
            add_pending(id, p, before, now_ms(), delay, raw);
        } else {
            i64 before = now_ms();
            {
                Sut s;
                es->schedule((Id)id, k_time_ms(delay), to_data(p));
            }
            if (fmin > 0) add_pending(id, p, before, now_ms(), delay, nullptr);
            else {
                fault("schedule_while_exhausted");
            }
        }
        log("%s schedule id=%zu in %ld ms serial=%u kind=%d pending=%zu", who, id, (long)delay, p.v, p.kind,
            pending.size());
    }

    void op_acquire(const char* who) {
        size_t id = draw(attached.size());
        i64 delay = draw_delay();
        Payload p = draw_payload();
        auto ev = acquire(id, delay, p);
        log("%s acquire id=%zu -> %s", who, id, ev ? "event" : "none");
        if (ev) held.push_back(Held{std::move(ev), id, p, delay, false});
    }

    void op_schedule_held(const char* who) {
        std::vector<size_t> idle;
        for (size_t i = 0; i < held.size(); ++i)
            if (!held[i].pending && !held[i].busy) idle.push_back(i);
        if (idle.empty()) return;
        size_t i = idle[draw(idle.size())];
        bool keep = chance(300);
        if (in_loop && --budget < 0) return;
        auto& h = held[i];
        i64 before = now_ms();
        std::shared_ptr<Event> ev = h.ev;
        if (!keep) h.ev = nullptr;
        Event* raw = ev.get();
        size_t id = h.id;
        Payload p = h.p;
        i64 delay = h.delay;
        {
            Sut s;
            es->schedule(std::move(ev));
        }
        ev = nullptr;
        add_pending(id, p, before, now_ms(), delay, raw);
        log("%s schedule held id=%zu in %ld ms serial=%u keep=%d", who, id, (long)delay, p.v, (int)keep);
        if (keep) {
            held[i].pending = true;
            probe("kept_while_scheduled");
        } else
            held.erase(held.begin() + i);
    }

    void op_release(const char* who) {
        if (held.empty()) return;
        size_t i = draw(held.size());
        if (held[i].busy) return;
        log("%s release id=%zu pending=%d", who, held[i].id, (int)held[i].pending);
        Sut s;
        held.erase(held.begin() + i);
    }

    void guarded_trigger(const std::function<void()>& f, Frame fr, bool may_skip) {
        size_t depth = stack.size();
        stack.push_back(fr);
        bool failed = false;
        try {
            Sut s;
            f();
        } catch (const HandlerFailure&) {
            failed = true;
        }
        SIM_CHECK(stack.size() == depth + 1, "delivery:nested", "deliveries are not nested properly");
        Frame done = stack.back();
        stack.pop_back();
        if (failed) return;
        if (may_skip && done.next == 0) {
            fault("trigger_while_exhausted");
            return;
        }
        SIM_SOFT(done.next == attached[done.id].size(), "delivery:incomplete",
                 "a trigger of id %zu reached %zu of %zu handlers", done.id, done.next, attached[done.id].size());
    }

    void op_trigger(const char* who) {
        if (stack.size() >= 3) return;
        size_t id = draw(attached.size());
        Payload p = draw_payload();
        bool may_skip = free_min() <= 0;
        log("%s trigger id=%zu serial=%u", who, id, p.v);
        guarded_trigger([&] { es->trigger((Id)id, to_data(p)); }, Frame{false, id, p, 0, true}, may_skip);
    }

    void op_trigger_held(const char* who) {
        if (stack.size() >= 3 || held.empty()) return;
        size_t i = draw(held.size());
        auto ev = held[i].ev;
        ++held[i].busy;
        Frame fr{false, held[i].id, held[i].p, 0, false};
        log("%s trigger held id=%zu serial=%u", who, fr.id, fr.p.v);
        if (flip()) guarded_trigger([&] { es->trigger(ev); }, fr, false);
        else
            guarded_trigger([&] { es->trigger(*ev); }, fr, false);
        for (auto& h : held)
            if (h.ev == ev) --h.busy;
    }

    void pick_from_pipeline(size_t handler, const Event& e, Seen& seen) {
        // the loop starts to deliver another event: which one?
        i64 now = now_ms();
        size_t id = e.id();
        Pending* best = nullptr;
        for (auto& q : pending) {
            if (q.id != id || !seen.matches(q.p)) continue;
            if (!best || q.lo < best->lo || (q.lo == best->lo && q.seq < best->seq)) best = &q;
        }
        SIM_CHECK(best, "delivery:spurious",
                  "handler %zu received an event (id %zu) that was never scheduled, or was delivered already, or has "
                  "other data",
                  handler, id);
        Pending ev = *best;
        SIM_SOFT(now >= ev.lo, "delivery:early", "event id %zu serial %u was delivered %ld ms early", id, ev.p.v,
                 (long)(ev.lo - now));
        for (auto& o : pending) {
            if (o.seq == ev.seq) continue;
            bool other_first = o.seq < ev.seq ? o.hi <= ev.lo : o.hi < ev.lo;
            // events without data are indistinguishable
            if (o.id == ev.id && o.p.kind == NONE && ev.p.kind == NONE) continue;
            SIM_SOFT(!other_first, o.hi == ev.lo ? "order:tie" : "order:due",
                     "event serial %u (due %ld, scheduled as #%lu) was delivered before serial %u (due %ld, #%lu)",
                     ev.p.v, (long)ev.lo, (unsigned long)ev.seq, o.p.v, (long)o.hi, (unsigned long)o.seq);
        }
        if (now - ev.hi > 1000) probe("late_because_of_stall");
        Event* ptr = ev.ptr;
        pending.erase(pending.begin() + (best - pending.data()));
        for (auto& h : held)
            if (ptr && h.ev.get() == ptr) h.pending = false;
        log("loop picks id=%zu serial=%u", id, ev.p.v);
        stack.push_back(Frame{true, id, ev.p, 0, true});
        fired_in_loop = true;
    }

    void on_event(Handler* h, const Event& e) {
        size_t id = e.id();
        SIM_CHECK(id < attached.size(), "delivery:spurious", "handler %zu received an unknown id %zu", h->index, id);
        Seen seen{e.data()};
        bool top_done = stack.empty() || (stack.back().loop && stack.back().next == attached[stack.back().id].size());
        if (in_loop && (stack.size() == loop_base || (stack.size() == loop_base + 1 && top_done))) {
            if (stack.size() == loop_base + 1) stack.pop_back();
            pick_from_pipeline(h->index, e, seen);
        }
        SIM_CHECK(!stack.empty(), "delivery:spurious", "handler %zu received id %zu out of the blue", h->index, id);
        {
            Frame& f = stack.back();
            SIM_CHECK(f.id == id && f.next < attached[id].size() && seen.matches(f.p), "delivery:fanout",
                      "handler %zu received id %zu while id %zu (serial %u) was being delivered to handler %zu of %zu",
                      h->index, id, f.id, f.p.v, f.next, attached[f.id].size());
            SIM_CHECK(attached[id][f.next] == h->index, "delivery:fanout",
                      "id %zu went to handler %zu instead of handler %zu", id, h->index, attached[id][f.next]);
            ++f.next;
        }
        ++delivered;
        log("handler %zu got id=%zu serial=%u", h->index, id, stack.back().p.v);
        if (attached[id].size() > 8 && stack.back().next % 97 != 1) { // in a crowd few have more to do
            last_handler_end_us = now_us();
            return;
        }
        size_t a = pick({20, w_slow, w_reentrant, w_trigger, w_hold, w_hold, w_throw, w_attach});
        switch (a) {
        case 1: {
            i64 ms = range(1, pick({3, 1}) ? 5000 : 20);
            advance_ms(ms);
            fault("slow_handler");
            log("handler is slow: %ld ms", (long)ms);
            break;
        }
        case 2: {
            int n = 1 + (int)draw(3);
            for (int i = 0; i < n; ++i)
                op_schedule("handler");
            probe("reentrant_schedule");
            break;
        }
        case 3:
            if (flip()) op_trigger("handler");
            else
                op_trigger_held("handler");
            break;
        case 4: op_acquire("handler"); break;
        case 5:
            if (flip()) op_schedule_held("handler");
            else
                op_release("handler");
            break;
        case 6:
            fault("handler_failed");
            log("handler fails");
            last_handler_end_us = now_us();
            throw HandlerFailure{};
        case 7: { // to another event than those that are being delivered
            size_t id = draw(attached.size());
            bool busy = armed || attached[id].size() >= cfg.handler_cap;
            for (auto& f : stack)
                busy |= f.id == id;
            if (busy) break;
            attached[id].push_back(draw(handlers.size()));
            log("handler attaches handler %zu to id=%zu", attached[id].back(), id);
            probe("attached_by_handler");
            Sut s;
            es->attach((Id)id, handlers[attached[id].back()].get());
            break;
        }
        }
        last_handler_end_us = now_us();
    }

    void op_loop() {
        i64 entry = now_us();
        i64 preempted0 = preempted_us();
        in_loop = true;
        loop_base = stack.size();
        budget = 60;
        fired_in_loop = false;
        last_handler_end_us = entry;
        bool failed = false;
        try {
            Sut s;
            es->loop();
        } catch (const HandlerFailure&) {
            failed = true;
        }
        in_loop = false;
        i64 end = now_us();
        if (stack.size() > loop_base) {
            Frame f = stack.back();
            stack.resize(loop_base);
            if (!failed)
                SIM_SOFT(f.next == attached[f.id].size(), "delivery:incomplete",
                         "id %zu serial %u reached %zu of %zu handlers", f.id, f.p.v, f.next, attached[f.id].size());
        }
        log("loop took %ld us, pending=%zu%s", (long)(end - entry), pending.size(), failed ? " (failed)" : "");
        if (failed) return;
        i64 ref = last_handler_end_us; // the last moment at which the loop certainly looked for due events afterwards
        bool late = false;
        for (auto& q : pending) {
            late |= q.hi <= ref / 1000;
            SIM_SOFT(q.hi > ref / 1000, "delivery:late",
                     "event id %zu serial %u, due at %ld ms, was not delivered by a loop that ran at %ld ms", q.id,
                     q.p.v, (long)q.hi, (long)(ref / 1000));
        }
        if (late) return; // how long to sleep is only specified for a loop that delivered what was due
        // sleep
        i64 slept = end - ref;
        i64 preempted = preempted_us() - preempted0;
        if (!cfg.delay_between_ticks) {
            SIM_SOFT(slept <= preempted, "sleep:unwanted", "slept %ld us although no delay is configured", (long)slept);
            return;
        }
        i64 min_us = cfg.min_delay_between_ticks.raw(), max_us = cfg.max_delay_between_ticks.raw();
        if (pending.empty()) {
            SIM_SOFT(slept >= min_us - 500 && slept <= min_us + 500 + preempted, "sleep:idle",
                     "idle loop slept %ld us instead of %ld us", (long)slept, (long)min_us);
            probe("idle_sleep");
            return;
        }
        i64 lo = INT64_MAX, hi = INT64_MAX;
        for (auto& q : pending) {
            lo = std::min(lo, q.lo);
            hi = std::min(hi, q.hi);
        }
        // the clock it sleeps by counts milliseconds, so the maximum is kept to the nearest one
        i64 max_lo = max_us % 1000 ? std::max<i64>(max_us - 500, 0) : max_us,
            max_hi = max_us % 1000 ? max_us + 500 : max_us;
        i64 want_hi = std::min(hi * 1000 - ref / 1000 * 1000, max_hi);
        i64 want_lo = std::min(lo * 1000 - (ref + preempted + 999) / 1000 * 1000, max_lo);
        if (want_lo < 0) want_lo = 0;
        if (preempted == 0) want_lo = std::min(hi * 1000 - ref / 1000 * 1000, max_lo); // exact
        SIM_SOFT(slept <= want_hi + preempted, "sleep:long",
                 "slept %ld us, next event was due in %ld us, maximum is %ld us", (long)slept, (long)(hi * 1000 - ref),
                 (long)max_us);
        SIM_SOFT(slept >= want_lo, "sleep:short", "slept %ld us, next event was due in %ld us, maximum is %ld us",
                 (long)slept, (long)(lo * 1000 - ref), (long)max_us);
        if (want_hi == max_hi) probe("sleep_capped");
        else
            probe("sleep_until_due");
    }

    void teardown() {
        bool release_first = flip();
        log("teardown pending=%zu held=%zu", pending.size(), held.size());
        if (!pending.empty()) fault("teardown_with_pending_events");
        if (!held.empty()) probe("teardown_with_held_events");
        if (release_first) {
            Sut s;
            held.clear();
        }
        {
            Sut s;
            es.reset();
        }
        {
            Sut s;
            held.clear();
        }
        SIM_CHECK(live_allocations() == 0, "store:leak", "%zu allocations were not released on teardown",
                  live_allocations());
    }
};

void Handler::handle_event(const Event& e) {
    Host host;
    W->on_event(this, e);
}

void run_evsys() {
    World w;
    W = &w;
    install_handler();
    spn::logging::set_log_level(spn::logging::LogLevel::OFF);
    std::string prop = property();
    w.armed = prop == "C06";

    start_clock(draw_uptime_us() + (i64)draw(1000) * (i64)draw(2));
    w.cfg.events_cap = one_of<size_t>({1, 2, 3, 4, 5, 8, 8, 16, 32, 100});
    if (chance(30)) w.cfg.events_cap = one_of<size_t>({256, 300, 1024});
    size_t n_ids = 1 + draw(5);
    if (chance(20)) n_ids = one_of<size_t>({255, 256, 257, 300});
    w.cfg.events_count = n_ids + draw(2);
    w.cfg.handler_cap = 1 + draw(5);
    bool crowd = chance(10); // more handlers than a byte can count
    if (crowd) w.cfg.handler_cap = one_of<size_t>({257, 300});
    w.cfg.delay_between_ticks = flip();
    w.cfg.min_delay_between_ticks =
        k_time_us(one_of<i64>({100000, 0, 1000, 10000, 250000, 5000000, 700, 999, 300, 1600, 99800}));
    w.cfg.max_delay_between_ticks =
        k_time_us(one_of<i64>({1000000, 1000, 10000, 50000, 5000000, 60000000, 700, 1600, 10300}));
    w.w_slow = one_of<u32>({0, 1, 4});
    w.w_reentrant = one_of<u32>({0, 1, 3, 6});
    w.w_trigger = one_of<u32>({0, 0, 1, 3});
    w.w_hold = one_of<u32>({0, 0, 1, 3});
    w.w_throw = chance(300) ? 1 : 0;
    w.w_attach = chance(200) ? one_of<u32>({1, 4}) : 0;
    w.payload_mask = (u32)draw(32) | 2;
    w.p_tie = one_of<u32>({0, 150, 500});
    w.max_delay = one_of<i64>({100, 10000, 3600000, 3ll * 86400000, 60ll * 86400000});
    bool preempt = chance(250);
    if (preempt)
        w.payload_mask &= ~1u; // events without data cannot be told apart when it is uncertain when they are due
    u32 w_sched = one_of<u32>({4, 10, 2}), w_held = one_of<u32>({0, 2, 5}), w_trig = one_of<u32>({0, 1, 3}),
        w_stall = one_of<u32>({0, 1, 2}), w_string = w.armed ? 0 : one_of<u32>({0, 0, 1});
    limit_steps((u32)one_of<i64>({8, 15, 30, 60, 120}));
    log("cap=%zu ids=%zu handler_cap=%zu delay=%d preempt=%d", w.cfg.events_cap, n_ids, w.cfg.handler_cap,
        (int)w.cfg.delay_between_ticks, (int)preempt);

    {
        Sut s;
        w.es = std::make_unique<EventSystem>(w.cfg);
    }
    size_t n_handlers = 1 + draw(5);
    for (size_t i = 0; i < n_handlers; ++i)
        w.handlers.push_back(std::make_unique<Handler>(i));
    w.attached.resize(n_ids);
    auto attach = [&](size_t id) {
        size_t h = draw(n_handlers);
        w.attached[id].push_back(h);
        Sut s;
        w.es->attach((Id)id, w.handlers[h].get());
    };
    for (size_t id = 0; id < n_ids; ++id) {
        size_t n = crowd && n_ids > 5 ? 1
                   : crowd && id == 0 ? w.cfg.handler_cap
                                      : 1 + draw(std::min<size_t>(w.cfg.handler_cap, 5));
        for (size_t k = 0; k < n; ++k)
            attach(id);
    }
    if (w.armed) {
        on_heap_exhausted([](size_t n) { violate("heap", "%zu bytes were requested from an exhausted heap", n); });
        exhaust_heap(true);
    }
    if (preempt) set_preemption(one_of<u32>({20, 100, 300}), one_of<i64>({1000, 3000, 20000}));
    u64 allocs0 = total_allocations();

    while (step()) {
        switch (pick({6, w_sched, 5, w_held, w_held, w_held, w_trig, w_trig, w_stall, w_string, 1})) {
        case 0: // tick
            advance_us((i64)draw(flip() ? 20000 : 300000));
            w.op_loop();
            break;
        case 1:
            for (u64 n = w.cfg.events_cap > 100 && chance(200) ? 1 + draw(300) : 1 + draw(4); n-- > 0;)
                w.op_schedule("main");
            break;
        case 2: { // run exactly around the moment the next event is due
            if (w.pending.empty()) break;
            i64 due = INT64_MAX;
            for (auto& q : w.pending)
                due = std::min(due, q.hi);
            i64 target = due * 1000 + one_of<i64>({0, -1, -1000, 999, 1000, 5000});
            if (target > now_us()) advance_us(target - now_us());
            w.op_loop();
            break;
        }
        case 3: w.op_acquire("main"); break;
        case 4: w.op_schedule_held("main"); break;
        case 5: w.op_release("main"); break;
        case 6: w.op_trigger("main"); break;
        case 7: w.op_trigger_held("main"); break;
        case 8: { // the device was busy or asleep
            i64 ms = one_of<i64>({1000, 60000, 3600000, 86400000});
            advance_ms(range(1, ms));
            fault("stall");
            log("stall");
            if (flip()) w.op_loop();
            break;
        }
        case 9: {
            std::string str;
            {
                Sut s;
                str = w.es->pipeline_as_string();
            }
            SIM_CHECK(str.find("Pipeline: [") == 0 && !str.empty() && str.back() == ']', "delivery:string",
                      "unreadable pipeline: %s", str.c_str());
            break;
        }
        case 10: {
            size_t id = draw(n_ids);
            if (w.attached[id].size() < w.cfg.handler_cap && !w.armed) {
                attach(id);
                log("late attach id=%zu handler=%zu", id, w.attached[id].back());
            }
            break;
        }
        }
        state((std::min<u64>(w.pending.size(), 10) * 8 + std::min<u64>(w.held.size(), 6)) * 64
              + std::min<u64>(w.free_max() > 0 ? w.free_max() : 0, 12) * 4 + (w.delivered > 0) * 2 + w.fired_in_loop);
    }
    if (w.delivered > 0) nontrivial();
    if (total_allocations() != allocs0) probe("allocated_after_construction");
    exhaust_heap(false);
    if (flip()) {
        // no more faults: everything that is pending has to arrive
        set_preemption(0, 0);
        w.w_throw = w.w_attach = w.w_reentrant = w.w_hold = w.w_slow = w.w_trigger = 0;
        for (int round = 0; round < 3 && !w.pending.empty(); ++round) {
            i64 last = 0;
            for (auto& q : w.pending)
                last = std::max(last, q.hi);
            if (last * 1000 > now_us()) advance_us(last * 1000 - now_us());
            w.op_loop();
        }
        SIM_SOFT(w.pending.empty(), "delivery:late", "%zu events were never delivered", w.pending.size());
        {
            Sut s;
            w.held.clear();
        }
        std::set<Event*> seen;
        for (size_t i = 0; i < w.cfg.events_cap; ++i) {
            Payload p{U32, ++w.serial};
            auto ev = w.acquire(0, 5, p);
            SIM_CHECK(seen.insert(ev.get()).second, "store:shared", "the same event was handed out twice");
            w.held.push_back(Held{ev, 0, p, 5, false});
        }
        Payload p{U32, ++w.serial};
        auto extra = w.acquire(0, 5, p);
        log("drained, capacity intact");
        if (flip()) {
            Sut s;
            w.held.clear();
        }
    }
    w.teardown();
}

} // namespace

SIM_SCENARIO(evsys) { run_evsys(); }
