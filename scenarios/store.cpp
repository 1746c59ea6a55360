// Scenarios: the pipeline of futures and the pool of objects, each on its own, at every fill level and position.
// Decides parts of C02 (order), C03 (store), C04 (time until the next future) and C06 (no heap).
#include "sim.hpp"

#include "spine/core/logging.hpp"
#include "spine/eventsystem/pipeline.hpp"
#include "spine/structure/pool.hpp"

#include <algorithm>
#include <memory>
#include <set>

using namespace sim;
using spn::eventsystem::Future;
using spn::eventsystem::Pipeline;

namespace {

void arm() {
    if (strcmp(property(), "C06")) return;
    on_heap_exhausted([](size_t n) { violate("heap", "%zu bytes were requested from an exhausted heap", n); });
    exhaust_heap(true);
}

// ---- pipeline ---------------------------------------------------------------------------------------------------------
struct Entry {
    u64 seq;
    i64 lo, hi;
    std::weak_ptr<Future> watch;
    Future* ptr;
};

void run_pipeline() {
    install_handler();
    spn::logging::set_log_level(spn::logging::LogLevel::OFF);
    bool armed = !strcmp(property(), "C06");
    start_clock(draw_uptime_us());
    size_t cap = one_of<size_t>({4, 1, 2, 3, 5, 8, 16, 64});
    bool huge = chance(15);
    if (huge) cap = one_of<size_t>({300, 256, 600});
    u32 w_push = one_of<u32>({4, 8}), w_expire = one_of<u32>({4, 8}), w_jump = one_of<u32>({1, 3, 0});
    u32 p_tie = one_of<u32>({0, 200, 700});
    i64 spread = one_of<i64>({20, 3, 1000, 86400000});
    u32 preempt = chance(250) ? one_of<u32>({20, 200}) : 0;
    limit_steps((u32)(huge ? one_of<i64>({10, 25}) : one_of<i64>({15, 40, 100, 250})));
    // the parts of a future are constructed up front
    std::vector<std::shared_ptr<Future>> stock;
    std::vector<Entry> model;
    std::unique_ptr<Pipeline> p;
    {
        Sut s;
        p = std::make_unique<Pipeline>(cap);
    }
    auto make = [&](i64 delay) {
        std::shared_ptr<Future> f;
        exhaust_heap(false);
        {
            Sut s;
            f = std::make_shared<Future>(k_time_ms(delay));
        }
        exhaust_heap(armed);
        return f;
    };
    log("cap=%zu", cap);
    arm();
    if (preempt) set_preemption(preempt, one_of<i64>({1000, 5000}));
    u64 seq = 0, popped = 0;

    auto check_front_time = [&] {
        i64 a = now_ms(), t;
        {
            Sut s;
            t = p->time_until_next_future().raw();
        }
        i64 b = now_ms();
        if (model.empty()) {
            SIM_SOFT(t == 0, "sleep:idle", "an empty pipeline has a future in %ld ms", (long)t);
            return;
        }
        i64 lo = INT64_MAX, hi = INT64_MAX;
        for (auto& e : model)
            lo = std::min(lo, e.lo), hi = std::min(hi, e.hi);
        i64 tmin = std::max<i64>(0, lo - b), tmax = std::max<i64>(0, hi - a);
        SIM_SOFT(t >= tmin, "sleep:short", "the next future is said to be in %ld ms, but is due in %ld", (long)t,
                  (long)tmin);
        SIM_SOFT(t <= tmax, "sleep:long", "the next future is said to be in %ld ms, but is due in %ld", (long)t,
                  (long)tmax);
    };
    auto check_contents = [&] {
        size_t n;
        bool any;
        {
            Sut s;
            n = p->pipe().size();
            any = p->contains_futures();
        }
        SIM_CHECK(n == model.size() && any == !model.empty(), "delivery:lost", "the pipeline contains %zu futures, not %zu",
                  n, model.size());
        if (preempt) return;
        // how the pipeline arranges what it holds is its own business
        for (auto it = p->pipe().begin(); it != p->pipe().end(); ++it) {
            Future* f = (*it).get();
            auto e = std::find_if(model.begin(), model.end(), [&](const Entry& m) { return m.ptr == f; });
            SIM_CHECK(e != model.end(), "delivery:spurious", "the pipeline holds a future that was never put in");
            SIM_SOFT(f->future().raw() == e->lo, "delivery:moment", "a future says it is due at %ld instead of %ld",
                     (long)f->future().raw(), (long)e->lo);
        }
        // comparing two futures compares the moments at which they are due
        if (model.size() < 2 || !chance(300)) return;
        // (of two that are due already, either may be said to be first)
        auto &x = model[draw(model.size())], &y = model[draw(model.size())];
        bool less, equal;
        {
            Sut s;
            less = *x.ptr < *y.ptr;
            equal = *x.ptr == *y.ptr;
        }
        if (std::min(x.lo, y.lo) <= now_ms() && std::max(x.lo, y.lo) <= now_ms()) return;
        SIM_SOFT(less == (x.lo < y.lo) && equal == (x.lo == y.lo), "order:compare",
                 "a future due at %ld is%s earlier than and is%s at the same moment as one due at %ld", (long)x.lo,
                 less ? "" : "n't", equal ? "" : "n't", (long)y.lo);
    };
    auto expire_one = [&](bool check_due) {
        i64 a = now_ms();
        bool ready;
        {
            Sut s;
            ready = p->contains_expired_futures();
        }
        i64 b = now_ms();
        bool must = false, may = false;
        for (auto& e : model)
            must |= e.hi <= a, may |= e.lo <= b;
        SIM_SOFT(!must || ready, "delivery:late", "a future is due but the pipeline doesn't say so");
        SIM_SOFT(may || !ready, "delivery:early", "nothing is due but the pipeline says so");
        if (!ready) return false;
        std::shared_ptr<Future> f;
        {
            Sut s;
            f = p->expire();
        }
        SIM_CHECK(f != nullptr, "delivery:lost", "a future that is due was not returned");
        auto it = std::find_if(model.begin(), model.end(), [&](const Entry& e) { return e.ptr == f.get(); });
        SIM_CHECK(it != model.end(), "delivery:spurious", "a future came out that was never put in or came out before");
        for (auto& o : model) {
            if (o.seq == it->seq) continue;
            bool other_first = o.seq < it->seq ? o.hi <= it->lo : o.hi < it->lo;
            SIM_SOFT(!other_first, o.hi == it->lo ? "order:tie" : "order:due",
                      "future #%lu (due %ld) came before #%lu (due %ld)", (unsigned long)it->seq, (long)it->lo,
                      (unsigned long)o.seq, (long)o.hi);
        }
        SIM_SOFT(it->lo <= now_ms(), "delivery:early", "a future came out %ld ms early", (long)(it->lo - now_ms()));
        log("expired #%lu", (unsigned long)it->seq);
        auto watch = it->watch;
        model.erase(it);
        ++popped;
        (void)check_due;
        {
            Sut s;
            f = nullptr;
        }
        SIM_CHECK(watch.expired(), "store:leak", "a future that came out is still in use");
        return true;
    };

    while (step()) {
        switch (pick({1, w_push, w_expire, 3, w_jump, 1, 1})) {
        case 0: {
            i64 us = (i64)draw(5000);
            advance_us(us);
            break;
        }
        case 1:
          // sometimes many at once, so that large pipelines fill up
          for (u64 n = huge && flip() ? cap / 2 + draw(cap) : 1; n-- > 0;) {
            if (model.size() >= cap) {
                probe("pipeline_full");
                break;
            }
            if (model.size() == 256) probe("pipeline_beyond_255");
            i64 delay = 1 + (i64)draw((u64)spread);
            if (!model.empty() && chance(p_tie)) {
                i64 d = model[draw(model.size())].lo - now_ms();
                if (d > 0) {
                    delay = d;
                    probe("tie_requested");
                }
            }
            auto f = make(delay);
            // futures may be constructed long before they are scheduled
            if (chance(150)) advance_us((i64)draw(20000));
            Future* raw = f.get();
            std::weak_ptr<Future> watch = f;
            i64 a = now_ms();
            {
                Sut s;
                p->push(std::move(f));
                f = nullptr;
            }
            i64 b = now_ms();
            model.push_back(Entry{++seq, a + delay, b + delay, watch, raw});
            SIM_CHECK(watch.use_count() == 1, "store:leak", "a future in the pipeline has %ld owners", watch.use_count());
            log("push #%lu in %ld ms, %zu pending", (unsigned long)seq, (long)delay, model.size());
          }
          break;
        case 2: expire_one(true); break;
        case 3: { // to the moment the next one is due, or just around it
            if (model.empty()) break;
            i64 due = INT64_MAX;
            for (auto& e : model)
                due = std::min(due, e.hi);
            i64 target = due * 1000 + one_of<i64>({0, -1, -1000, 999, 1000});
            if (target > now_us()) advance_us(target - now_us());
            while (expire_one(false) && flip()) {}
            break;
        }
        case 4: {
            advance_ms(one_of<i64>({1000, 60000, 86400000}));
            fault("stall");
            if (flip())
                while (expire_one(false)) {}
            break;
        }
        case 5: check_front_time(); break;
        case 6:
            if (armed || preempt) break;
            {
                std::string str;
                {
                    Sut s;
                    str = p->to_string();
                }
                SIM_CHECK(str.find("Pipeline: [") == 0 && str.back() == ']', "delivery:string", "unreadable: %s", str.c_str());
            }
            break;
        }
        check_contents();
        state(std::min<size_t>(model.size(), 20) * 64 + std::min<size_t>(cap, 16));
    }
    if (popped) nontrivial();
    exhaust_heap(false);
    set_preemption(0, 0);
    SIM_CHECK(thrown().empty(), "delivery:asserted", "an error was raised: %s", thrown()[0].what.c_str());
    {
        Sut s;
        p.reset();
    }
    for (auto& e : model)
        SIM_CHECK(e.watch.expired(), "store:leak", "a future that was pending on teardown is still in use");
    model.clear();
    SIM_CHECK(live_allocations() == 0, "store:leak", "%zu allocations were not released on teardown",
              live_allocations());
}

// ---- pool -------------------------------------------------------------------------------------------------------------
std::set<u64>* g_alive;
u64 g_uid = 0;
struct Obj {
    u64 uid;
    u32 user = 0;
    bool live = true;
    Obj() : uid(++g_uid) {
        Host h;
        g_alive->insert(uid);
    }
    Obj(Obj&& o) : uid(++g_uid) {
        Host h;
        g_alive->insert(uid);
        (void)o;
    }
    ~Obj() {
        Host h;
        SIM_CHECK(live && g_alive->erase(uid) == 1, "store:destroyed", "an object was destroyed twice");
        live = false;
    }
};

void run_pool() {
    std::set<u64> alive;
    g_alive = &alive;
    install_handler();
    spn::logging::set_log_level(spn::logging::LogLevel::OFF);
    start_clock(0);
    size_t cap = one_of<size_t>({4, 1, 2, 3, 5, 8, 16, 40});
    if (chance(20)) cap = one_of<size_t>({256, 300});
    u32 w_acq = one_of<u32>({5, 8, 4}), w_rel = one_of<u32>({4, 8, 2}), w_dup = one_of<u32>({0, 1, 2});
    size_t order = draw(3); // in which order things are released
    limit_steps((u32)one_of<i64>({15, 40, 100, 150}));
    using P = spn::structure::Pool<Obj>;
    std::unique_ptr<P> pool;
    struct User {
        std::shared_ptr<Obj> p;
        u32 tag;
    };
    std::vector<User> users; // owners of what was handed out; several may share one object
    users.reserve(4096);
    std::set<Obj*> members;
    u32 tag = 0;
    {
        Sut s;
        pool = std::make_unique<P>(cap);
    }
    size_t how = draw(4);
    for (size_t i = 0; i < cap; ++i) {
        size_t k = how == 3 ? draw(3) : how;
        Sut s;
        if (k == 0) pool->populate(new Obj());
        else if (k == 1)
            pool->populate(Obj());
        else
            pool->populate(std::make_shared<Obj>());
    }
    SIM_CHECK(pool->size() == cap && pool->is_fully_populated() && alive.size() == cap, "store:population",
              "a pool populated with %zu objects holds %zu, of which %zu exist", cap, pool->size(), alive.size());
    arm();
    size_t depopulated = 0;
    u64 handed_out = 0;
    auto in_use = [&] {
        std::set<Obj*> s;
        for (auto& u : users)
            s.insert(u.p.get());
        return s.size();
    };
    log("cap=%zu", cap);
    auto acquire = [&] {
        size_t used = in_use();
        std::shared_ptr<Obj> o;
        {
            Sut s;
            o = pool->acquire();
        }
        if (!o) {
            SIM_CHECK(used >= cap, "store:refused", "nothing was handed out although %zu of %zu are free", cap - used,
                      cap);
            probe("pool_exhausted");
            log("exhausted");
            return;
        }
        SIM_CHECK(used < cap, "store:overcommitted", "an object was handed out although all %zu are in use", cap);
        for (auto& u : users)
            SIM_CHECK(u.p != o, "store:shared", "an object that is in use was handed out again");
        SIM_CHECK(o->live && alive.count(o->uid), "store:destroyed", "a destroyed object was handed out");
        members.insert(o.get());
        SIM_CHECK(members.size() <= cap, "store:population", "more than %zu different objects were handed out", cap);
        o->user = ++tag;
        ++handed_out;
        users.push_back(User{std::move(o), tag});
        log("acquired, %zu in use", used + 1);
    };
    auto some = [&]() -> u64 { return chance(cap > 200 ? 300 : 60) ? 1 + draw(cap + 1) : 1 + draw(3); };
    while (step()) {
        switch (pick({1, w_acq, w_rel, w_dup, 1})) {
        case 0: break;
        case 1:
            for (u64 n = some(); n-- > 0;)
                acquire();
            break;
        case 2: {
            for (u64 n = some(); n-- > 0 && !users.empty();) {
                size_t i = order == 0 ? 0 : order == 1 ? users.size() - 1 : draw(users.size());
                SIM_CHECK(users[i].p->live && users[i].p->user == users[i].tag, "store:shared",
                          "an object changed hands while it was in use");
                Sut s;
                users.erase(users.begin() + i);
            }
            log("released, %zu users", users.size());
            break;
        }
        case 3:
            if (users.empty() || users.size() > 2000) break;
            users.push_back(users[draw(users.size())]);
            probe("shared_by_several_users");
            break;
        case 4: {
            size_t n;
            {
                Sut s;
                n = pool->size();
            }
            SIM_CHECK(n == cap, "store:population", "the pool has %zu objects instead of %zu", n, cap);
            break;
        }
        }
        SIM_CHECK(alive.size() == cap, "store:destroyed", "%zu of %zu objects exist", alive.size(), cap);
        state(std::min<size_t>(in_use(), 40) * 64 + std::min<size_t>(cap, 40));
    }
    if (handed_out) nontrivial();
    exhaust_heap(false);
    for (auto& u : users)
        SIM_CHECK(u.p->live && u.p->user == u.tag, "store:shared", "an object changed hands while it was in use");
    if (chance(300)) { // take some out before
        size_t n = 1 + draw(cap);
        for (size_t i = 0; i < n; ++i) {
            Sut s;
            auto o = pool->depopulate();
            ++depopulated;
        }
        SIM_CHECK(pool->size() == cap - n, "store:population", "the pool has %zu objects instead of %zu", pool->size(),
                  cap - n);
        SIM_CHECK(alive.size() >= cap - n, "store:destroyed", "too many objects were destroyed");
    }
    if (flip()) {
        Sut s;
        users.clear();
    }
    if (!users.empty()) probe("objects_outlive_the_pool");
    {
        Sut s;
        pool.reset();
    }
    SIM_CHECK(alive.size() == in_use(), "store:leak", "%zu objects exist after teardown, %zu are in use", alive.size(),
              in_use());
    for (auto& u : users)
        SIM_CHECK(u.p->live && u.p->user == u.tag, "store:destroyed", "an object was destroyed while it was in use");
    {
        Sut s;
        users.clear();
    }
    SIM_CHECK(alive.empty(), "store:leak", "%zu objects were never destroyed", alive.size());
    SIM_CHECK(live_allocations() == 0, "store:leak", "%zu allocations were not released on teardown",
              live_allocations());
    SIM_CHECK(thrown().empty(), "store:asserted", "an error was raised: %s", thrown()[0].what.c_str());
}

} // namespace

SIM_SCENARIO(pipeline) { run_pipeline(); }
SIM_SCENARIO(pool) { run_pool(); }
