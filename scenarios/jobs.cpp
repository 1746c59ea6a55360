// Scenario: a device that keeps its work in lists. Jobs arrive, are put off, moved up, called off and done, by handlers
// that may be late, slow or fail in the middle; samples are collected in one buffer while another is reported. Decides
// C24, and C06 (no heap) for vectors, stacks and arrays.
#include "sim.hpp"
#include "spine/core/logging.hpp"
#include "spine/eventsystem/eventsystem.hpp"
#include "spine/structure/array.hpp"
#include "spine/structure/result.hpp"
#include "spine/structure/stack.hpp"
#include "spine/structure/vector.hpp"

#include <algorithm>
#include <deque>
#include <memory>

using namespace sim;
using spn::core::Event;
using spn::core::EventHandler;
using spn::core::EventSystem;
using spn::structure::Array;
using spn::structure::Result;
using spn::structure::Stack;
using spn::structure::Vector;

namespace {

struct Failure {};
enum class Ev : size_t { ARRIVE, WORK, SAMPLE, REPORT, COUNT };

struct Job {
    u32 id;
    static i64 live;
    explicit Job(u32 i) : id(i) { ++live; }
    Job(const Job&) = delete;
    ~Job() {
        SIM_CHECK(live > 0 && id != 0xdeadbeef, "list:owned", "a job is destroyed twice");
        --live;
        id = 0xdeadbeef;
    }
};
i64 Job::live;
using Ref = std::shared_ptr<Job>;

/// A job together with what it is for
struct Order {
    i64 amount = 0;
    Ref job;
    bool urgent = false;
};

u32 id_of(const Ref& r) { return r ? r->id : 0; }
u32 id_of(const Order& o) { return id_of(o.job); }
const Ref& job_of(const Ref& r) { return r; }
const Ref& job_of(const Order& o) { return o.job; }
bool same(const Ref& a, const Ref& b) { return a == b; }
bool same(const Order& a, const Order& b) { return a.amount == b.amount && a.urgent == b.urgent && a.job == b.job; }
bool same(i64 a, i64 b) { return a == b; }

/// A vector holds exactly what its model does, whichever way one looks at it. (Called within the simulator)
template<typename T>
void agree(Vector<T>& v, const std::deque<T>& m, size_t capacity, const char* what) {
    const Vector<T>& c = v;
    SIM_CHECK(v.size() == m.size(), "list:size", "%s holds %zu instead of %zu elements", what, (size_t)v.size(),
              m.size());
    SIM_CHECK(v.max_size() == capacity, "list:size", "%s has place for %zu instead of %zu elements", what,
              (size_t)v.max_size(), capacity);
    SIM_CHECK(v.empty() == m.empty() && v.full() == (m.size() == capacity), "list:size",
              "%s with %zu of %zu elements is empty: %d, full: %d", what, m.size(), capacity, v.empty(), v.full());
    const size_t stride = m.size() > 5000 ? 4999 : 1; // all of that many would take too long
    for (size_t i = 0; i < m.size(); i += stride)
        SIM_CHECK(same(v[i], m[i]) && same(c[i], m[i]) && same(v.at(i), m[i]), "list:content",
                  "element %zu of %zu in %s differs", i, m.size(), what);
    if (!m.empty())
        SIM_CHECK(same(v.front(), m.front()) && same(v.back(), m.back()) && same(v.peek_front(), m.front())
                      && same(v.peek_back(), m.back()),
                  "list:content", "the ends of %s differ", what);
    if (stride > 1) return;
    auto walk = [&](auto b, auto e, bool reverse) {
        size_t i = 0;
        for (auto it = b; it != e; ++it, ++i) {
            SIM_CHECK(i < m.size(), "list:order", "more than %zu elements of %s are passed", m.size(), what);
            SIM_CHECK(same(*it, reverse ? m[m.size() - 1 - i] : m[i]), "list:order", "element %zu of %s differs%s", i,
                      what, reverse ? " in reverse" : "");
        }
        SIM_CHECK(i == m.size(), "list:order", "%zu of %zu elements of %s are passed%s", i, m.size(), what,
                  reverse ? " in reverse" : "");
    };
    {
        size_t i = 0; // first the element, then to the next one; and back again
        for (auto it = v.begin(); it != v.end() && i < m.size(); ++i)
            SIM_CHECK(same(*it++, m[i]), "list:order", "another element than %zu of %s is passed", i, what);
        SIM_CHECK(i == m.size(), "list:order", "%zu of %zu elements of %s are passed", i, m.size(), what);
        for (auto it = v.end(); i > 0; --i)
            SIM_CHECK(same(*--it, m[i - 1]), "list:order", "another element than %zu of %s is passed on the way back",
                      i - 1, what);
        for (auto it = v.rbegin(); it != v.rend() && i < m.size(); ++i)
            SIM_CHECK(same(*it++, m[m.size() - 1 - i]), "list:order",
                      "another element than %zu of %s is passed in reverse", i, what);
        if (m.size() > 1) {
            auto it = v.begin();
            auto last = v.rbegin();
            ++it, ++last;
            SIM_CHECK(same(*it--, m[1]) && it == v.begin() && same(*it, m[0]), "list:order", "no way back in %s", what);
            SIM_CHECK(same(*last--, m[m.size() - 2]) && last == v.rbegin() && same(*last, m.back()), "list:order",
                      "no way back in %s in reverse", what);
        }
    }
    walk(v.begin(), v.end(), false);
    walk(c.begin(), c.end(), false);
    walk(v.cbegin(), v.cend(), false);
    walk(v.rbegin(), v.rend(), true);
    walk(c.rbegin(), c.rend(), true);
    walk(v.crbegin(), v.crend(), true);
}

/// Why a job failed
struct Reason {
    u32 stage = 0;
    Ref job;
};
u32 id_of(const Reason& r) { return id_of(r.job); }
u32 id_of(u32 code) { return code / 128; } // of a reason that is a plain number
enum class Outcome { GOES_ON, SUCCEEDS, FAILS, NOTHING };

template<typename T>
struct Device : EventHandler {
    Device() : EventHandler(nullptr) {}
    std::unique_ptr<EventSystem> es;

    std::unique_ptr<Vector<T>> queue;
    std::deque<T> m_queue;
    std::unique_ptr<Stack<Ref>> undo;
    std::vector<Ref> m_undo;
    i64 store[6] = {};
    std::unique_ptr<Vector<i64>> samples, reported; // one is filled while the other is reported
    std::deque<i64> m_samples, m_reported;
    std::unique_ptr<Array<float>> latest, earlier, shown;
    std::vector<float> m_latest, m_earlier;
    alignas(float) uint8_t place[8 * sizeof(float)];

    size_t capacity = 1, undo_capacity = 1, samples_capacity = 1, reported_capacity = 1;
    i64 period[(size_t)Ev::COUNT] = {};
    u32 p_slow = 0, p_fail = 0, next_id = 1;
    bool arriving = true, orderly = false; // first come, first served
    u32 last_done = 0;
    bool in_line = false;
    u64 arrived = 0, done = 0, called_off = 0;
    bool starving = false;

    T make() {
        Host h;
        T t = order(Ref(new Job(next_id++)), (T*)nullptr);
        return t;
    }
    Ref order(Ref r, Ref*) { return r; }
    Order order(Ref r, Order*) {
        Order o;
        o.amount = range(-1000, 1000), o.urgent = flip(), o.job = std::move(r);
        return o;
    }

    void check() {
        Host h;
        agree(*queue, m_queue, capacity, "the queue");
        agree(*samples, m_samples, samples_capacity, "the samples");
        agree(*reported, m_reported, reported_capacity, "the report");
        SIM_CHECK(undo->size() == m_undo.size() && undo->empty() == m_undo.empty(), "list:size",
                  "the stack holds %zu instead of %zu elements", (size_t)undo->size(), m_undo.size());
        if (!m_undo.empty())
            SIM_CHECK(undo->top() == m_undo.back(), "list:content", "another job is on top of the stack");
        auto array = [&](Array<float>& a, const std::vector<float>& m, const char* what) {
            const Array<float>& c = a;
            SIM_CHECK(a.size() == m.size() && a.max_size() == m.size() && a.empty() == m.empty(), "list:size",
                      "%s hold %zu instead of %zu values", what, (size_t)a.size(), m.size());
            size_t n = 0, r = 0, cn = 0, cr = 0;
            for (auto& x : a)
                SIM_CHECK(n < m.size() && x == m[n++], "list:order", "%s differ", what);
            for (auto& x : c)
                SIM_CHECK(cn < m.size() && x == m[cn++], "list:order", "%s differ", what);
            for (auto it = a.rbegin(); it != a.rend(); ++it, ++r)
                SIM_CHECK(r < m.size() && *it == m[m.size() - 1 - r], "list:order", "%s differ in reverse", what);
            for (auto it = c.rbegin(); it != c.rend(); ++it, ++cr)
                SIM_CHECK(cr < m.size() && *it == m[m.size() - 1 - cr], "list:order", "%s differ in reverse", what);
            SIM_CHECK(n == m.size() && r == n && cn == n && cr == n, "list:order", "not all of %s are passed", what);
            cn = cr = 0;
            for (auto it = a.cbegin(); it != a.cend(); it++, ++cn)
                SIM_CHECK(cn < m.size() && *it == m[cn] && c.data()[cn] == m[cn], "list:order", "%s differ", what);
            for (auto it = a.crbegin(); it != a.crend(); it++, ++cr)
                SIM_CHECK(cr < m.size() && *it == m[m.size() - 1 - cr], "list:order", "%s differ in reverse", what);
            SIM_CHECK(cn == n && cr == n, "list:order", "not all of %s are passed", what);
            for (size_t i = 0; i < m.size(); ++i)
                SIM_CHECK(a[i] == m[i] && c[i] == m[i] && a.at(i) == m[i] && a.data()[i] == m[i], "list:content",
                          "value %zu of %s differs", i, what);
            if (!m.empty())
                SIM_CHECK(a.front() == m.front() && a.back() == m.back(), "list:content", "the ends of %s differ",
                          what);
        };
        array(*latest, m_latest, "the latest values");
        array(*earlier, m_earlier, "the earlier values");

        // each job is owned by the lists that hold it, once by each (and once by the model of each)
        i64 distinct = 0;
        for (size_t i = 0; i < m_queue.size(); ++i)
            owned(job_of(m_queue[i]), distinct);
        for (auto& r : m_undo)
            if (std::none_of(m_queue.begin(), m_queue.end(), [&](const T& t) { return job_of(t) == r; }))
                owned(r, distinct);
        SIM_CHECK(Job::live == distinct, "list:owned", "there are %ld jobs instead of %ld", (long)Job::live,
                  (long)distinct);
    }
    void owned(const Ref& r, i64& distinct) {
        ++distinct;
        long n = 0;
        for (auto& t : m_queue)
            n += 2 * (job_of(t) == r);
        for (auto& u : m_undo)
            n += 2 * (u == r);
        SIM_CHECK(r.use_count() == n, "list:owned", "job %u is owned %ld times instead of %ld", r->id,
                  (long)r.use_count(), n);
    }

    void slow() {
        Host h;
        if (!p_slow || !chance(p_slow)) return;
        advance_us((i64)draw(3000000));
        fault("slow_handler");
    }
    void fail() {
        {
            Host h;
            if (!p_fail || !chance(p_fail)) return;
            fault("handler_failed");
        }
        throw Failure{};
    }

    void handle_event(const Event& e) override {
        if ((Ev)e.id() != Ev::ARRIVE || arriving) evsys()->schedule((Ev)e.id(), k_time_ms(period[e.id()]));
        slow();
        switch ((Ev)e.id()) {
        case Ev::ARRIVE: arrive(); break;
        case Ev::WORK: work(); break;
        case Ev::SAMPLE: sample(); break;
        case Ev::REPORT: report(); break;
        default: break;
        }
        check();
    }

    /// A job is put in the queue
    void arrive() {
        size_t n;
        {
            Host h;
            n = 1 + draw(3);
        }
        while (n-- > 0) {
            size_t how, index = 0;
            bool full;
            {
                Host h;
                full = m_queue.size() == capacity;
                how = orderly ? pick({1, 1}) : pick({4, 3, 2, 2, 4});
                if (full && (how >= 2 || debug_build())) return; // that's an error
                index = draw(capacity + 2);
                if (full) probe("no_place");
            }
            T job = make();
            {
                Host h;
                ++arrived;
                log("job %u arrives (%zu at %zu of %zu)", id_of(job), how, index, m_queue.size());
            }
            switch (how) {
            case 0: queue->push_back(job); break;
            case 1: queue->emplace_back(T(job)); break;
            case 2: queue->push_front(job); break;
            case 3: queue->emplace_front(T(job)); break;
            default: queue->insert(index, job); break;
            }
            Host h;
            if (full) {
                --arrived;
                continue; // it is refused
            }
            if (how < 2) m_queue.push_back(job);
            else if (how < 4)
                m_queue.push_front(job);
            else
                m_queue.insert(m_queue.begin() + (long)std::min(index, m_queue.size()), job);
        }
        fail();
    }

    /// A job is taken from the queue and done
    void work() {
        size_t how, index;
        {
            Host h;
            how = m_queue.empty() ? 4 : orderly ? 0 : pick({5, 3, 4, 1, 2});
            index = m_queue.empty() ? 0 : draw(m_queue.size() + chance(100));
        }
        if (how == 3) { // all of it is called off
            queue->clear();
            Host h;
            log("%zu jobs are called off", m_queue.size());
            called_off += m_queue.size();
            m_queue.clear();
            return;
        }
        if (how == 4) { // the one that was done before is done again
            undo_one();
            return;
        }
        T job;
        if (how == 0) job = queue->pop_front();
        else if (how == 1)
            job = queue->pop_back();
        else
            job = queue->remove(index);
        {
            Host h;
            const size_t at = how == 0 ? 0 : how == 1 ? m_queue.size() - 1 : std::min(index, m_queue.size() - 1);
            const u32 expected = id_of(m_queue[at]);
            SIM_CHECK(same(job, m_queue[at]), "list:taken", "job %u is taken from %zu of %zu instead of %u", id_of(job),
                      at, m_queue.size(), expected);
            log("job %u is done", id_of(job));
            m_queue.erase(m_queue.begin() + (long)at);
            if (in_line) SIM_CHECK(expected > last_done, "list:order", "job %u is done after %u", expected, last_done);
            last_done = expected;
            ++done;
        }
        slow();
        fail(); // the job is lost, but nothing else
        size_t kind;
        {
            Host h;
            kind = pick({2, 2, 1});
        }
        if (kind == 0) carry_out<Result<Ref>, Ref, Ref>(job_of(job));
        else if (kind == 1)
            carry_out<Result<Ref, u32, Order>, u32, Order>(job_of(job));
        else
            carry_out<Result<Ref, Reason, Order>, Reason, Order>(job_of(job));
        bool keep, copy;
        {
            Host h;
            keep = m_undo.size() < undo_capacity && flip(), copy = flip();
        }
        if (!keep) return;
        Ref r = job_of(job);
        if (copy) undo->push(r);
        else
            undo->emplace(Ref(r));
        Host h;
        m_undo.push_back(job_of(job));
    }

    static Ref with(const Ref& r, u32, Ref*) { return r; }
    static Reason with(const Ref& r, u32 stage, Reason*) { return Reason{stage, r}; }
    static Order with(const Ref& r, u32 stage, Order*) {
        Order o;
        o.amount = stage, o.job = r;
        return o;
    }
    static u32 with(const Ref& r, u32 stage, u32*) { return r->id * 128 + stage; } // reasons may be plain numbers
    static u32 stage_of(u32 code, u32) { return code % 128; }
    static u32 stage_of(const Ref&, u32 otherwise) { return otherwise; }
    static u32 stage_of(const Reason& r, u32) { return r.stage; }
    static u32 stage_of(const Order& o, u32) { return (u32)o.amount; }

    /// A job is done in stages, each of which goes on, succeeds or fails
    template<typename R, typename E, typename I>
    void carry_out(const Ref& job) {
        Outcome plan[4] = {}, outcome;
        u32 stages, last = 0, ran = 0, starts = 0;
        long owners;
        bool moving, nothing;
        {
            Host h;
            stages = (u32)draw(5), moving = flip(), nothing = chance(50), owners = job.use_count();
            if (nothing) stages = 0; // nothing to go on from
            outcome = nothing ? Outcome::NOTHING : starts_as(starts);
            bool over = outcome != Outcome::GOES_ON;
            for (u32 i = 0; i < stages; ++i) {
                plan[i] = pick({5, 1, 1}) == 0 ? Outcome::GOES_ON : flip() ? Outcome::SUCCEEDS : Outcome::FAILS;
                if (over) continue;
                last = i + 1, outcome = plan[i], over = outcome != Outcome::GOES_ON;
            }
            if (outcome == Outcome::FAILS) probe("job_failed");
        }
        {
            R r = nothing                            ? R()
                  : starts == (u32)Outcome::SUCCEEDS ? R(job)
                  : starts == (u32)Outcome::FAILS    ? R::failed(with(job, 0, (E*)nullptr))
                                                     : R::intermediary(with(job, 0, (I*)nullptr));
            for (u32 i = 0; i < stages; ++i) {
                auto stage = [&](I& x) -> R {
                    {
                        Host h;
                        SIM_CHECK(id_of(x) == job->id && stage_of(x, i) == i, "list:outcome",
                                  "stage %u of job %u is given job %u of stage %u", i, job->id, id_of(x),
                                  stage_of(x, i));
                        SIM_CHECK(ran++ == i, "list:outcome", "stage %u of job %u is carried out as stage %u", i,
                                  job->id, ran);
                    }
                    slow();
                    fail();
                    if (plan[i] == Outcome::SUCCEEDS) return R(job);
                    if (plan[i] == Outcome::FAILS) return R::failed(with(job, i + 1, (E*)nullptr));
                    x = with(job, i + 1, (I*)nullptr);
                    return moving ? R::intermediary(std::move(x)) : R::intermediary(x);
                };
                if (moving) {
                    R next = r.chain(stage);
                    r = std::move(next);
                } else
                    r = r.chain(stage);
            }
            SIM_CHECK(ran == last, "list:outcome", "%u instead of %u stages are carried out", ran, last);
            R copy = r;
            judge<R, E, I>(copy, job, outcome, last);
            judge<R, E, I>(r, job, outcome, last);
        }
        SIM_CHECK(job.use_count() == owners, "list:owned", "an outcome leaves a job with %ld instead of %ld owners",
                  (long)job.use_count(), owners);
    }
    Outcome starts_as(u32& starts) {
        starts = (u32)(chance(100) ? Outcome::SUCCEEDS : chance(100) ? Outcome::FAILS : Outcome::GOES_ON);
        return (Outcome)starts;
    }

    template<typename R, typename E, typename I>
    void judge(R& r, const Ref& job, Outcome outcome, u32 stage) {
        const bool ok = outcome == Outcome::SUCCEEDS, failed = outcome == Outcome::FAILS,
                   on = outcome == Outcome::GOES_ON;
        const u32 id = job->id;
        SIM_CHECK(r.is_success() == ok && r.is_failed() == failed && r.is_intermediary() == on && (bool)r == ok,
                  "list:outcome", "job %u of which the outcome is %d succeeds: %d, fails: %d, goes on: %d", id,
                  (int)outcome, r.is_success(), r.is_failed(), r.is_intermediary());
        if (ok)
            SIM_CHECK(r.value() == job && *r == job && r->get() == job.get(), "list:outcome",
                      "job %u results in another", id);
        if (failed)
            SIM_CHECK(id_of(r.error_value()) == id && stage_of(r.error_value(), stage) == stage, "list:outcome",
                      "job %u fails with another reason", id);
        if (on)
            SIM_CHECK(id_of(r.intermediary_value()) == id && stage_of(r.intermediary_value(), stage) == stage,
                      "list:outcome", "job %u goes on with something else", id);
        if (outcome != Outcome::NOTHING) {
            const u32 matched =
                r.match([](const Ref& x) { return id_of(x) * 4; }, [](const E& x) { return id_of(x) * 4 + 1; },
                        [](const I& x) { return id_of(x) * 4 + 2; });
            SIM_CHECK(matched
                          == id * 4
                                 + (ok       ? 0u
                                    : failed ? 1u
                                             : 2u),
                      "list:outcome", "job %u matches %u", id, matched);
        }
        const auto mapped = r.map([](const Ref& x) { return (i64)x->id; });
        SIM_CHECK(mapped.is_success() == ok && mapped.is_failed() == failed && mapped.is_intermediary() == on,
                  "list:outcome", "the outcome of job %u changes when it is mapped", id);
        if (ok)
            SIM_CHECK(mapped.value() == (i64)id, "list:outcome", "the result of job %u is mapped to %ld", id,
                      (long)mapped.value());
        if (failed) SIM_CHECK(id_of(mapped.error_value()) == id, "list:outcome", "the reason of job %u gets lost", id);
        const auto reason = r.map_error([](const E& x) { return (i64)id_of(x); });
        SIM_CHECK(reason.is_success() == ok && reason.is_failed() == failed && reason.is_intermediary() == on,
                  "list:outcome", "the outcome of job %u changes when its reason is mapped", id);
        if (ok) SIM_CHECK(reason.value() == job, "list:outcome", "the result of job %u gets lost", id);
        if (failed)
            SIM_CHECK(reason.error_value() == (i64)id, "list:outcome", "the reason of job %u is mapped to %ld", id,
                      (long)reason.error_value());
        const auto between = r.map_intermediary([](const I& x) { return (i64)id_of(x); });
        SIM_CHECK(between.is_success() == ok && between.is_failed() == failed && between.is_intermediary() == on,
                  "list:outcome", "the outcome of job %u changes when what goes on is mapped", id);
        if (on)
            SIM_CHECK(between.intermediary_value() == (i64)id, "list:outcome", "job %u goes on with %ld", id,
                      (long)between.intermediary_value());
        u32 then = 0, otherwise = 0, fallback = 0;
        const auto next = r.and_then([&](const Ref& x) {
            ++then;
            return R::failed(with(x, 77, (E*)nullptr));
        });
        SIM_CHECK(then == ok && next.is_failed() == (ok || failed) && next.is_intermediary() == on, "list:outcome",
                  "after job %u %u others are done", id, then);
        const auto instead = r.or_else([&](const E& x) {
            ++otherwise;
            (void)x;
            return R(job);
        });
        SIM_CHECK(otherwise == failed && instead.is_success() == (ok || failed) && instead.is_intermediary() == on,
                  "list:outcome", "instead of job %u %u others are done", id, otherwise);
        const Ref none;
        SIM_CHECK(r.value_or(Ref()) == (ok ? job : none), "list:outcome", "the value of job %u is another", id);
        SIM_CHECK(id_of(r.error_or(E())) == (failed ? id : 0), "list:outcome", "the reason of job %u is another", id);
        const Ref got = r.unwrap_or_else([&] {
            ++fallback;
            return Ref();
        });
        SIM_CHECK(got == (ok ? job : none) && fallback == !ok, "list:outcome", "the value of job %u is another", id);
        { // a value in a variable is a value, also if it could be taken for a reason
            u32 number = id;
            i64 code = id;
            const Result<u32, i64> counted(number), refused(code);
            SIM_CHECK(counted.is_success() && counted.value() == id && refused.is_failed()
                          && refused.error_value() == id,
                      "list:outcome", "number %u is taken for a reason", id);
        }
        if (ok || failed) { // what is settled stays so, also for who looks at it later
            u32 more = 0;
            const R after = r.chain([&](I&) {
                ++more;
                return R();
            });
            SIM_CHECK(!more && after.is_success() == ok && after.is_failed() == failed && r.is_success() == ok
                          && r.is_failed() == failed,
                      "list:outcome", "job %u goes on after it was settled", id);
            if (ok)
                SIM_CHECK(after.value() == job && r.value() == job, "list:outcome", "the result of job %u gets lost",
                          id);
            if (failed)
                SIM_CHECK(id_of(after.error_value()) == id && id_of(r.error_value()) == id, "list:outcome",
                          "the reason of job %u gets lost", id);
        }
        if (ok) SIM_CHECK(r.unwrap() == job, "list:outcome", "job %u results in another", id);
        if (failed)
            SIM_CHECK(id_of(r.unwrap_error_value()) == id, "list:outcome", "job %u fails with another reason", id);
        if (on)
            SIM_CHECK(id_of(r.unwrap_intermediary_value()) == id, "list:outcome", "job %u goes on with something else",
                      id);
    }

    void undo_one() {
        {
            Host h;
            if (m_undo.empty()) return;
        }
        Ref r = undo->top();
        undo->pop();
        Host h;
        SIM_CHECK(r == m_undo.back(), "list:taken", "job %u is taken from the stack instead of %u", id_of(r),
                  id_of(m_undo.back()));
        m_undo.pop_back();
        log("job %u is undone", id_of(r));
        probe("undone");
    }

    void sample() {
        size_t what;
        i64 x;
        {
            Host h;
            what = pick({8, 1, 1, 2, 2, 1, 1, 1}), x = range(-1000000, 1000000);
            if (what == 2 && starving) what = 0;
        }
        if (what == 0) {
            bool full;
            {
                Host h;
                full = m_samples.size() == samples_capacity;
            }
            if (full) { // the oldest one makes place
                const i64 lost = samples->pop_front();
                Host h;
                SIM_CHECK(lost == m_samples.front(), "list:taken", "the oldest sample is %ld instead of %ld",
                          (long)lost, (long)m_samples.front());
                m_samples.pop_front();
            }
            samples->push_back(x);
            Host h;
            m_samples.push_back(x);
            return;
        }
        if (what == 1) {
            samples->fill(x);
            Host h;
            m_samples.assign(samples_capacity, x);
        } else if (what == 2) { // starts over with some samples
            size_t how, many = 4;
            {
                Host h;
                how = pick({2, 1, 1});
                if (chance(20)) many = one_of<size_t>({65536, 65537, 70000, 300});
                if (many > 65535 && how == 1) probe("huge_list");
            }
            if (how == 0) *samples = {x, x + 1, x + 2};
            else if (how == 1)
                *samples = Vector<i64>(many, x);
            else
                *samples = Vector<i64>(5);
            Host h;
            if (how == 0) m_samples = {x, x + 1, x + 2}, samples_capacity = 3;
            else if (how == 1)
                m_samples.assign(many, x), samples_capacity = many;
            else
                m_samples.clear(), samples_capacity = 5;
            probe("starts_over");
        } else if (what >= 4) { // some are left out, or put in between
            size_t i, n;
            bool full;
            {
                Host h;
                full = m_samples.size() == samples_capacity;
                if (what == 7 ? full : m_samples.empty()) return;
                n = what == 4 ? 1 + draw(m_samples.size()) : 1;
                i = draw(m_samples.size() + (what == 7));
            }
            while (n-- > 0) {
                i64 taken = 0;
                if (what == 4) taken = samples->pop_front();
                else if (what == 5)
                    taken = samples->pop_back();
                else if (what == 6)
                    taken = samples->remove(i);
                else
                    samples->insert(i, x);
                Host h;
                if (what == 7) {
                    m_samples.insert(m_samples.begin() + (long)i, x);
                    return;
                }
                auto it = what == 4 ? m_samples.begin() : what == 5 ? m_samples.end() - 1 : m_samples.begin() + (long)i;
                SIM_CHECK(taken == *it, "list:taken", "sample %ld is taken instead of %ld", (long)taken, (long)*it);
                m_samples.erase(it);
            }
        } else { // a value that is changed in place
            size_t i;
            {
                Host h;
                if (m_samples.empty()) return;
                i = draw(m_samples.size());
            }
            (*samples)[i] += x;
            Host h;
            m_samples[i] += x;
        }
    }

    void report() {
        bool swap, fill, show;
        size_t i;
        float x;
        {
            Host h;
            swap = chance(700), fill = chance(100), show = chance(100), i = draw(m_latest.size() + 1),
            x = (float)range(-100, 100);
            log("report of %zu samples (%d)", m_samples.size(), swap);
        }
        if (swap) {
            samples->swap(*reported);
            latest->swap(*earlier);
            {
                Host h;
                std::swap(m_samples, m_reported), std::swap(samples_capacity, reported_capacity),
                    std::swap(m_latest, m_earlier);
            }
            check();
            samples->clear();
            Host h;
            m_samples.clear();
        }
        if (show) { // what is shown is no longer what it was, the place for which is given up
            *shown = *latest;
            Host h;
            const Array<float>& c = *shown;
            SIM_CHECK(c.size() == m_latest.size(), "list:size", "a copy of %zu values holds %zu", m_latest.size(),
                      (size_t)c.size());
            for (size_t k = 0; k < m_latest.size(); ++k)
                SIM_CHECK(c[k] == m_latest[k], "list:content", "value %zu of a copy differs", k);
            probe("copied");
        }
        if (fill) latest->fill(x);
        else if (i < m_latest.size())
            (*latest)[i] = x;
        Host h;
        if (fill) m_latest.assign(m_latest.size(), x);
        else if (i < m_latest.size())
            m_latest[i] = x;
    }

    void drain() {
        while (!queue->empty())
            T job = queue->pop_front();
        while (!undo->empty())
            undo->pop();
    }
};

template<typename T>
void run_jobs() {
    spn::logging::set_log_level(spn::logging::LogLevel::OFF);
    start_clock(draw_uptime_us());
    install_handler();
    Job::live = 0;
    Device<T> d;
    d.capacity = (size_t)range(1, one_of<i64>({3, 8, 20}));
    d.undo_capacity = (size_t)range(1, 5);
    d.samples_capacity = (size_t)range(1, 6);
    d.reported_capacity = (size_t)range(1, 6);
    d.in_line = d.orderly = chance(300);
    for (auto& p : d.period)
        p = range(1, one_of<i64>({5, 100, 5000}));
    if (chance(500)) d.p_slow = one_of<u32>({5, 50});
    if (chance(500)) d.p_fail = one_of<u32>({5, 50, 200});
    if (chance(400)) set_preemption(one_of<u32>({2, 20, 200}), one_of<i64>({1000, 100000, 10000000}));
    limit_steps((u32)range(3, one_of<i64>({20, 120})));
    const bool external = flip();
    if (external) d.samples_capacity = 6;
    const bool given = flip(); // memory that something else used before
    const size_t over = draw(4);
    memset(d.place, 0x5a, sizeof(d.place));
    const size_t filled = external ? draw(7) : 0, values = 1 + draw(5), before = 1 + draw(5);
    for (size_t i = 0; i < filled; ++i)
        d.m_samples.push_back(d.store[i] = range(-9, 9));
    d.m_latest.assign(values, 0.5f), d.m_earlier.assign(before, 0);
    {
        Sut s;
        d.es = std::make_unique<EventSystem>(EventSystem::Config{
            .events_count = (size_t)Ev::COUNT, .events_cap = 8, .handler_cap = 1, .delay_between_ticks = false});
        d.attach_event_system(d.es.get());
        for (size_t i = 0; i < (size_t)Ev::COUNT; ++i)
            d.es->attach(i, &d);
        d.queue = std::make_unique<Vector<T>>(d.capacity);
        d.undo = std::make_unique<Stack<Ref>>(d.undo_capacity);
        d.samples = external ? std::make_unique<Vector<i64>>(d.store, filled)
                             : std::make_unique<Vector<i64>>(d.samples_capacity);
        d.reported = std::make_unique<Vector<i64>>(d.reported_capacity);
        d.latest = std::make_unique<Array<float>>(values, 0.5f);
        if (given) d.earlier = std::make_unique<Array<float>>(d.place, before * sizeof(float) + over);
        else
            d.earlier = std::make_unique<Array<float>>(before);
        d.shown = std::make_unique<Array<float>>(before + 1);
    }
    d.check();
    if (!strcmp(property(), "C06")) {
        on_heap_exhausted([](size_t k) { violate("heap", "%zu bytes were requested from an exhausted heap", k); });
        exhaust_heap(d.starving = true);
    }
    {
        Sut s;
        for (size_t i = 0; i < (size_t)Ev::COUNT; ++i)
            d.es->schedule(i, k_time_ms(1 + i));
    }
    auto loop = [&] {
        try {
            Sut s;
            d.es->loop();
        } catch (const Failure&) {
        }
        d.check();
        SIM_CHECK(thrown().empty(), "list:error", "an error was raised: %s", thrown().front().what.c_str());
    };
    while (step()) {
        switch (pick({20, 4, 2})) {
        case 0: advance_ms(1 + (i64)draw((u64)*std::min_element(d.period, d.period + (size_t)Ev::COUNT) * 2)); break;
        case 1: advance_ms((i64)draw(1 + (u64)d.period[(size_t)Ev::WORK])); break;
        case 2:
            advance_us((i64)draw(one_of<u64>({1000000, 1000000000, 1000000000000ull})));
            fault("stall");
            break;
        }
        loop();
        state(d.m_queue.size() * 64 + d.m_undo.size() * 8 + d.m_samples.size());
    }
    if (d.done > 2) nontrivial();

    // no more jobs arrive: the ones that are waiting get done
    set_preemption(0, 0);
    d.p_slow = d.p_fail = 0, d.arriving = false;
    d.orderly = true, d.last_done = 0; // from the front
    const size_t left = d.m_queue.size();
    d.in_line = false;
    for (size_t i = 0; i < left + 10 && !d.m_queue.empty(); ++i) {
        advance_ms(d.period[(size_t)Ev::WORK]);
        loop();
    }
    SIM_CHECK(d.m_queue.empty(), "list:progress", "%zu jobs are never done", d.m_queue.size());
    exhaust_heap(false);
    {
        Sut s;
        d.drain();
    }
    d.m_queue.clear(), d.m_undo.clear();
    SIM_CHECK(Job::live == 0, "list:owned", "%ld jobs are left", (long)Job::live);
    Sut s;
    d.es.reset();
    d.queue.reset(), d.undo.reset(), d.samples.reset(), d.reported.reset(), d.shown.reset(), d.latest.reset(),
        d.earlier.reset();
}

} // namespace

SIM_SCENARIO(jobs) {
    if (flip()) run_jobs<Order>();
    else
        run_jobs<Ref>();
    SIM_CHECK(live_allocations() == 0, "leak", "%zu allocations were not freed", live_allocations());
}
