// Scenario: two nodes made of the whole library on a serial line. A host sends requests, a device answers them in
// transactions from its event loop while it runs periodic events, schedules delayed replies and logs. The line delays,
// stalls, refuses and fails; in some runs bytes are lost and the device is reset in the middle of anything.
// Decides C18, and C06 (no heap) for the whole.
#include "platform.hpp"

#include "spine/core/logging.hpp"
#include "spine/eventsystem/eventsystem.hpp"
#include "spine/io/stream/buffered_stream.hpp"
#include "spine/platform/hal.hpp"
#include "spine/structure/time/timers.hpp"

#include <algorithm>
#include <deque>
#include <map>
#include <memory>
#include <optional>
#include <string>

using namespace sim;
using spn::core::Event;
using spn::core::EventHandler;
using spn::core::EventSystem;
using spn::io::BufferedStream;

namespace {

enum class Ev : size_t { POLL, TICK, TOCK, DELAYED, COUNT };

u32 checksum(const char* s, size_t n) {
    u32 h = 2166136261u;
    for (size_t i = 0; i < n; ++i)
        h = (h ^ (unsigned char)s[i]) * 16777619u;
    return h;
}

struct Request {
    u32 id;
    char op;
    std::string text;
    i64 delay;
    std::string line; // without delimiter
    bool answered = false;
    bool accepted = false; // a delayed one that the device took on
    i64 sent_us = 0;
};

std::string with_sum(const std::string& s) {
    char b[16];
    snprintf(b, sizeof(b), "*%08x", checksum(s.data(), s.size()));
    return s + b;
}

std::string shout(std::string s) {
    for (char& c : s)
        if (c >= 'a' && c <= 'z') c -= 32;
    return s;
}

/// One direction of the line: a transmit fifo that drains at the line's speed, then a delay, then the receiver's fifo
struct Direction {
    struct Byte {
        i64 departs, arrives;
        char c;
    };
    std::deque<Byte> bytes;
    i64 last_depart = 0, last_arrive = 0, byte_us = 87, latency_us = 0;
    size_t fifo = 16;
    i64 stalled_until = 0;
    u32 p_jitter = 0, p_read_fail = 0, p_write_fail = 0, p_lose = 0;
    u64 lost = 0;

    size_t queued() const {
        size_t n = 0;
        for (auto it = bytes.rbegin(); it != bytes.rend() && it->departs > now_us(); ++it)
            ++n;
        return n;
    }
    size_t room() const {
        if (now_us() < stalled_until) return 0;
        size_t q = queued();
        return q < fifo ? fifo - q : 0;
    }
    size_t arrived() const {
        if (now_us() < stalled_until) return 0;
        size_t n = 0;
        for (auto& b : bytes) {
            if (b.arrives > now_us()) break;
            ++n;
        }
        return n;
    }
    bool put(char c) {
        if (room() == 0) return false;
        if (p_write_fail && chance(p_write_fail)) {
            fault("write_failed");
            return false;
        }
        if (p_lose && chance(p_lose)) {
            fault("byte_lost");
            ++lost;
            return true;
        }
        i64 extra = p_jitter && chance(p_jitter) ? (i64)draw(20000) : 0;
        if (extra) fault("byte_delayed");
        last_depart = std::max(now_us(), last_depart) + byte_us;
        last_arrive = std::max(last_arrive, last_depart + latency_us + extra);
        bytes.push_back(Byte{last_depart, last_arrive, c});
        return true;
    }
    bool get(char& c) {
        if (arrived() == 0) return false;
        if (p_read_fail && chance(p_read_fail)) {
            fault("read_failed");
            return false;
        }
        c = bytes.front().c;
        bytes.pop_front();
        return true;
    }
    void heal() { p_jitter = p_read_fail = p_write_fail = p_lose = 0, stalled_until = 0; }
};

struct World;
World* W;

/// A node's end of the line
struct Port : spn::io::Stream {
    Direction *tx, *rx;
    bool device;
    void initialize() override {}
    void flush() override {}
    size_t available() const override {
        Host h;
        return rx->arrived();
    }
    size_t available_for_write() const override {
        Host h;
        return tx->room();
    }
    bool read(uint8_t& value) override {
        Host h;
        char c;
        if (!rx->get(c)) return false;
        value = (uint8_t)c;
        return true;
    }
    size_t read(uint8_t* buffer, size_t length) override {
        size_t n = 0;
        while (n < length && read(buffer[n]))
            ++n;
        return n;
    }
    void wrote(char c);
    bool write(const uint8_t value) override {
        Host h;
        if (!tx->put((char)value)) return false;
        wrote((char)value);
        return true;
    }
    size_t write(const uint8_t* const buffer, size_t length) override {
        size_t n = 0;
        while (n < length && write(buffer[n]))
            ++n;
        return n;
    }
};

struct Periodic {
    i64 period = 0, due = 0, due_hi = 0; // the clock may advance while an event is being scheduled
    u32 count = 0;
    u64 delivered = 0;
};

struct Device : EventHandler {
    Device() : EventHandler(nullptr) {}
    void handle_event(const Event& e) override;
    void poll();
    void tick(Periodic& p, Ev id, const Event& e);
    void delayed(const Event& e);
    bool answer();
    void say(const char* what);
    std::unique_ptr<EventSystem> es;
    std::unique_ptr<BufferedStream> stream;
    Periodic periodic[3]; // POLL, TICK, TOCK
    struct Delayed {
        u32 id;
        i64 due, due_hi;
        u64 seq;
    };
    std::deque<Delayed> delayed_model;
    char reply[256];
    i64 next_run = 0;
    u64 ticks_seen = 0;
};

/// Only watches
struct Monitor : EventHandler {
    Monitor() : EventHandler(nullptr) {}
    void handle_event(const Event& e) override;
};

struct Peer : EventHandler {
    Peer() : EventHandler(nullptr) {}
    void handle_event(const Event& e) override;
    void poll();
    void send();
    void receive();
    std::unique_ptr<EventSystem> es;
    std::unique_ptr<BufferedStream> stream;
    std::optional<spn::structure::time::AlarmTimer> retry;
    char line[256];
    i64 next_run = 0;
};

struct World {
    Direction to_device, to_host;
    Port device_port, host_port;
    std::unique_ptr<Device> device;
    std::unique_ptr<Monitor> monitor;
    std::unique_ptr<Peer> host;
    std::map<u32, Request> requests;
    std::deque<u32> outstanding;
    std::deque<u32> unread; // requests the device did not see yet (when nothing gets lost)
    std::deque<u32> in_order; // immediate replies that are expected, in order
    std::string promised; // everything the device accepted for output (when nothing gets lost)
    size_t promised_checked = 0;
    struct Log {
        i64 lo, hi;
        std::string text;
    };
    std::deque<Log> expected_logs;
    u32 next_id = 1;
    u64 seq = 0;
    bool lossy = false, faults = true, armed = false, sending = true;
    u64 answered = 0, resets = 0;
    // configuration
    size_t window, max_text, device_in, device_out, host_in, host_out, max_delayed, per_poll;
    i64 poll_ms, tick_ms, tock_ms, host_poll_ms, gap_us, retry_ms;
    bool crlf, sleeps, bold = false;
    i64 max_sleep_ms;
    u32 p_slow, p_clock;
    bool slow_now = false;

    void start_device();
    void run_device();
    void run_host();
    void check_logs();
};

void Port::wrote(char c) {
    World& w = *W;
    if (!device || w.lossy) return;
    SIM_CHECK(w.promised_checked < w.promised.size(), "system:output", "the device sent a byte (%02x) too many",
              (unsigned char)c);
    SIM_CHECK(w.promised[w.promised_checked] == c, "system:output", "the device sent %02x instead of %02x",
              (unsigned char)c, (unsigned char)w.promised[w.promised_checked]);
    if (++w.promised_checked > 4096) {
        w.promised.erase(0, w.promised_checked);
        w.promised_checked = 0;
    }
}

// ---- device -------------------------------------------------------------------------------------------------------

void Device::say(const char* what) {
    i64 lo = now_ms();
    SPN_LOG("device %s", what);
    Host h;
    W->expected_logs.push_back(World::Log{lo, now_ms(), std::string("[INFO] device ") + what});
}

void Device::handle_event(const Event& e) {
    {
        Host h;
        SIM_CHECK(W->device.get() == this, "system:handler", "an event of a device that is gone was delivered");
    }
    switch ((Ev)e.id()) {
    case Ev::POLL: tick(periodic[0], Ev::POLL, e); break;
    case Ev::TICK: tick(periodic[1], Ev::TICK, e); break;
    case Ev::TOCK: tick(periodic[2], Ev::TOCK, e); break;
    case Ev::DELAYED: delayed(e); break;
    default: violate("system:handler", "unknown event %zu", e.id());
    }
}

void Device::tick(Periodic& p, Ev id, const Event& e) {
    {
        Host h;
        SIM_CHECK(e.data().unsigned_value() == p.count, "system:rhythm", "event %zu carries %u instead of %u", (size_t)id,
                  e.data().unsigned_value(), p.count);
        SIM_CHECK(now_ms() >= p.due, "system:rhythm", "event %zu came %ld ms early", (size_t)id,
                  (long)(p.due - now_ms()));
        ++p.count, ++p.delivered;
        if (W->faults && W->p_slow && chance(W->p_slow)) {
            advance_us((i64)draw(200000));
            fault("slow_handler");
        }
    }
    if (id == Ev::POLL) poll();
    if (id == Ev::TICK) {
        char b[48];
        snprintf(b, sizeof(b), "tick %u", p.count);
        say(b);
    }
    i64 before;
    {
        Host h;
        before = now_ms();
    }
    evsys()->schedule(id, k_time_ms(p.period), Event::Data(p.count));
    Host h;
    p.due = before + p.period;
    p.due_hi = now_ms() + p.period;
}

void Monitor::handle_event(const Event& e) {
    Host h;
    World& w = *W;
    ++w.device->ticks_seen;
    SIM_CHECK(e.id() == (size_t)Ev::TICK && w.device->ticks_seen == w.device->periodic[1].delivered, "system:handler",
              "the second handler of an event saw %lu of %lu deliveries", (unsigned long)w.device->ticks_seen,
              (unsigned long)w.device->periodic[1].delivered);
}

void Device::poll() {
    stream->pull_in_data();
    for (size_t n = 0; n < W->per_poll; ++n)
        if (!answer()) break;
    stream->push_out_data();
}

/// Whether a line was consumed
bool Device::answer() {
    World& w = *W;
    if (!stream->has_line()) return false;
    // longest possible answer; a bold device finds out when it replies, as long as it can still put it off
    bool bold = w.bold && w.faults && delayed_model.size() < w.max_delayed;
    if (!bold && stream->output_buffer_space_left() <= w.max_text + 24) return false;
    auto tx = stream->new_transaction();
    Host h;
    SIM_CHECK(tx.has_value(), "system:request", "no transaction although a line is waiting");
    const std::string_view in = tx->incoming();
    std::string line(in);
    if (line.empty()) { // the other delimiter
        if (!w.lossy) {
            SIM_CHECK(!w.unread.empty() && w.unread.front() == 0, "system:request",
                      "the device got an empty line that was not sent");
            w.unread.pop_front();
        }
        Sut s;
        tx.reset();
        return true;
    }
    // parse
    u32 id = 0;
    size_t i = 0;
    while (i < line.size() && line[i] >= '0' && line[i] <= '9')
        id = id * 10 + (u32)(line[i++] - '0');
    bool ok = line.size() >= 9 + 2 && with_sum(line.substr(0, line.size() - 9)) == line;
    if (!w.lossy) {
        SIM_CHECK(!w.unread.empty(), "system:request", "the device got a request (%s) that was not sent", line.c_str());
        SIM_CHECK(w.unread.front(), "system:request", "the device got '%s' instead of an empty line", line.c_str());
        SIM_CHECK(w.requests[w.unread.front()].line == line, "system:request", "the device got '%s' instead of '%s'",
                  line.c_str(), w.requests[w.unread.front()].line.c_str());
        w.unread.pop_front();
    } else if (!ok) {
        probe("garbled_request");
        log("device drops garbage");
        Sut s;
        tx.reset();
        return true;
    } else
        SIM_CHECK(w.requests.count(id) && w.requests[id].line == line, "system:request",
                  "the device got '%s', which was never sent", line.c_str());
    Request& r = w.requests[id];
    if (w.faults && chance(20)) { // more arrives while the request is being handled
        i64 us = (i64)draw(5000);
        advance_us(us);
        Sut s;
        stream->pull_in_data();
    }
    auto compose = [&](char mark, const std::string& text) {
        std::string s = with_sum(std::to_string(id) + mark + text) + "\r\n";
        memcpy(reply, s.data(), s.size());
        if (!w.lossy && !bold) w.promised += s;
        return s.size();
    };
    auto put_off = [&](i64 delay) {
        i64 due = now_ms() + delay;
        r.accepted = true;
        Sut s;
        auto ev = evsys()->event(Ev::DELAYED, k_time_ms(delay), Event::Data(id));
        if (!ev) violate("system:store", "no event for a delayed reply");
        evsys()->schedule(std::move(ev));
        Host hh;
        delayed_model.push_back(Delayed{id, due, now_ms() + delay, ++w.seq});
    };
    if (bold && r.op != 'D') { // just tries
        size_t n = compose('=', shout(r.text)), cut = draw(n + 1), room, accepted = 0;
        if (r.op != 'E') r.op = 'E';
        {
            Sut s;
            room = tx->outgoing_space_left();
            if (cut) accepted = tx->outgoing(reply, cut);
            for (size_t k = cut; k < n && accepted == k; ++k)
                accepted += tx->outgoing(reply[k]);
            if (tx->outgoing_space_used() != accepted)
                violate("system:reply", "%zu bytes are queued instead of %zu", tx->outgoing_space_used(), accepted);
            if (std::string_view(line) != tx->incoming())
                violate("system:request", "the request changed while it was open");
        }
        SIM_CHECK(accepted == std::min(n, room), "system:reply", "%zu of %zu bytes were accepted where %zu were left", accepted, n,
                  room);
        if (accepted == n) {
            w.promised.append(reply, n);
            Sut s;
            tx->commit();
            tx.reset();
        } else {
            probe("reply_put_off");
            r.op = 'D';
            {
                Sut s;
                tx->abort();
                tx.reset();
            }
            put_off(5);
        }
        log("device handled %u%c boldly", id, r.op);
        return true;
    }
    switch (r.op) {
    case 'E': { // answered in the transaction, in pieces
        size_t n = compose('=', shout(r.text)), cut = w.faults ? draw(n + 1) : n;
        bool commits = w.faults ? flip() : true;
        Sut s;
        if (cut) tx->outgoing(reply, cut);
        for (size_t k = cut; k < n; ++k)
            if (tx->outgoing(reply[k]) != 1) violate("system:reply", "a reply did not fit although there was room");
        if (tx->outgoing_space_used() != n)
            violate("system:reply", "%zu bytes are queued instead of %zu", tx->outgoing_space_used(), n);
        if (std::string_view(line) != tx->incoming()) violate("system:request", "the request changed while it was open");
        if (commits) tx->commit();
        tx.reset();
        break;
    }
    case 'A': { // starts a reply, takes it back, and answers differently
        size_t junk = w.faults ? draw(w.max_text + 1) : 0;
        {
            Sut s;
            for (size_t k = 0; k < junk; ++k)
                tx->outgoing('#');
            tx->abort();
            tx.reset();
        }
        size_t n = compose('!', "no");
        Sut s;
        if (stream->buffered_write(reply, n) != n) violate("system:reply", "a reply did not fit although there was room");
        break;
    }
    case 'L': { // is logged
        {
            char b[256];
            snprintf(b, sizeof(b), "got %s", r.text.c_str());
            Sut s;
            say(b);
        }
        size_t n = compose('+', "");
        Sut s;
        tx->outgoing(std::string_view(reply, n));
        break; // goes out of scope
    }
    case 'D': { // answered later
        bool room = delayed_model.size() < w.max_delayed;
        if (room) {
            {
                Sut s;
                tx->commit();
            }
            put_off(r.delay);
        } else {
            probe("device_is_busy");
            size_t n = compose('-', "busy");
            Sut s;
            tx->outgoing(reply, n);
        }
        break;
    }
    }
    log("device handled %u%c", id, r.op);
    Sut s;
    tx.reset();
    return true;
}

void Device::delayed(const Event& e) {
    World& w = *W;
    Host h;
    u32 id = e.data().unsigned_value();
    auto best = delayed_model.end(); // a request that was repeated may be in progress more than once
    for (auto it = delayed_model.begin(); it != delayed_model.end(); ++it)
        if (it->id == id && (best == delayed_model.end() || it->due < best->due)) best = it;
    SIM_CHECK(best != delayed_model.end(), "system:delayed", "a delayed event (%u) that was not scheduled", id);
    for (auto& x : delayed_model)
        SIM_CHECK(x.id == id || x.due_hi > best->due || (x.due_hi == best->due && x.seq > best->seq), "system:delayed",
                  "the delayed event of %u came before that of %u", id, x.id);
    SIM_CHECK(best->due <= now_ms(), "system:delayed", "the delayed event of %u came %ld ms early", id,
              (long)(best->due - now_ms()));
    for (auto& x : delayed_model) // either may have been the one
        if (x.id == id && &x != &*best && x.due <= best->due_hi)
            x.due_hi = std::max(x.due_hi, best->due_hi), x.due = std::min(x.due, best->due), x.seq = std::max(x.seq, best->seq);
    std::string s = with_sum(std::to_string(id) + '@' + w.requests[id].text) + "\r\n";
    if (stream->output_buffer_space_left() < s.size()) { // later
        probe("delayed_again");
        best->due = now_ms() + 7;
        best->seq = ++w.seq;
        {
            Sut sut;
            evsys()->schedule(Ev::DELAYED, k_time_ms(7), Event::Data(id));
        }
        best->due_hi = now_ms() + 7;
        return;
    }
    delayed_model.erase(best);
    if (!w.lossy) w.promised += s;
    memcpy(reply, s.data(), s.size());
    size_t n = s.size();
    log("device answers delayed %u", id);
    Sut sut;
    if (stream->buffered_write(std::string_view(reply, n)) != n)
        violate("system:reply", "a delayed reply did not fit although there was room");
}

void World::start_device() {
    exhaust_heap(false);
    device_port.tx = &to_host, device_port.rx = &to_device, device_port.device = true;
    i64 first[3] = {range(1, poll_ms), range(1, tick_ms), range(1, tock_ms)};
    {
        Sut s;
        device.reset();
        monitor.reset();
        device = std::make_unique<Device>();
        monitor = std::make_unique<Monitor>();
        EventSystem::Config cfg{.events_count = (size_t)Ev::COUNT,
                                .events_cap = 3 + max_delayed + 1,
                                .handler_cap = 2,
                                .delay_between_ticks = sleeps,
                                .min_delay_between_ticks = k_time_us(k_time_ms(1)),
                                .max_delay_between_ticks = k_time_us(k_time_ms(max_sleep_ms))};
        device->es = std::make_unique<EventSystem>(cfg);
        auto uart = make_uart(&device_port);
        uart->initialize();
        device->stream = std::make_unique<BufferedStream>(
            uart, BufferedStream::Config{.input_buffer_size = device_in, .output_buffer_size = device_out});
        device->attach_event_system(device->es.get());
        for (size_t i = 0; i < (size_t)Ev::COUNT; ++i)
            device->es->attach((Ev)i, device.get());
        device->es->attach(Ev::TICK, monitor.get());
    }
    i64 periods[3] = {poll_ms, tick_ms, tock_ms};
    for (int i = 0; i < 3; ++i) {
        auto& p = device->periodic[i];
        p.period = periods[i];
        p.due = now_ms() + first[i];
        {
            Sut s;
            device->es->schedule((Ev)i, k_time_ms(first[i]), Event::Data((u32)0));
        }
        p.due_hi = now_ms() + first[i];
    }
    device->next_run = now_us();
    if (armed) exhaust_heap(true);
}

void World::run_device() {
    Device& d = *device;
    i64 begin = now_ms();
    {
        Sut s;
        d.es->loop();
    }
    for (int i = 0; i < 3; ++i)
        SIM_CHECK(d.periodic[i].due_hi > begin, "system:rhythm", "event %d is %ld ms late and was skipped", i,
                  (long)(begin - d.periodic[i].due_hi));
    for (auto& x : d.delayed_model)
        SIM_CHECK(x.due_hi > begin, "system:delayed", "the delayed event of %u is %ld ms late and was skipped", x.id,
                  (long)(begin - x.due_hi));
    check_logs();
}

void World::check_logs() {
    for (auto& line : take_console()) {
        SIM_CHECK(!expected_logs.empty(), "system:log", "unexpected output: '%s'", line.c_str());
        auto& want = expected_logs.front();
        i64 t = -1;
        for (i64 at = want.lo; t < 0 && at <= want.hi; ++at) {
            char b[32];
            snprintf(b, sizeof(b), "[%08u] ", (u32)at);
            if (b + want.text == line) t = at;
        }
        SIM_CHECK(t >= 0, "system:log", "'%s' was printed at %ld..%ld instead of '%s'", line.c_str(), (long)want.lo,
                  (long)want.hi, want.text.c_str());
        expected_logs.pop_front();
    }
    SIM_CHECK(expected_logs.empty(), "system:log", "'%s' was not printed", expected_logs.front().text.c_str());
    SIM_CHECK(thrown().empty(), "system:error", "an error was raised: %s", thrown().front().what.c_str());
}

// ---- host ---------------------------------------------------------------------------------------------------------

void Peer::handle_event(const Event&) {
    poll();
    evsys()->schedule((size_t)0, k_time_ms(W->host_poll_ms));
}

void Peer::poll() {
    stream->pull_in_data();
    receive();
    {
        Host h;
        if (W->sending)
            while (W->outstanding.size() < W->window && W->requests.size() < 4000
                   && stream->output_buffer_space_left() >= W->max_text + 40 && chance(600))
                send();
    }
    if (W->lossy) {
        bool again;
        {
            Host h;
            again = !W->outstanding.empty() && retry && stream->output_buffer_space_left() >= W->max_text + 40;
        }
        if (again && retry->expired()) {
            Host h;
            Request& r = W->requests[W->outstanding.front()];
            W->outstanding.push_back(W->outstanding.front());
            W->outstanding.pop_front();
            probe("retry");
            log("host repeats %u", r.id);
            std::string s = "\n" + r.line + "\n"; // whatever was cut off is ended first
            memcpy(line, s.data(), s.size());
            Sut sut;
            if (stream->buffered_write(line, s.size()) != s.size())
                violate("system:reply", "a request did not fit although there was room");
            retry.emplace(k_time_ms(W->retry_ms));
        }
    }
    stream->push_out_data();
}

void Peer::send() {
    World& w = *W;
    Request r;
    r.id = w.next_id++;
    r.op = "EEADL"[draw(5)];
    size_t n = draw(w.max_text + 1);
    for (size_t i = 0; i < n; ++i)
        r.text += (char)('a' + (r.id * 7 + i * (1 + r.id % 5)) % 26);
    if (n && r.op != 'L' && chance(150)) { // requests may consist of any byte that doesn't end a line
        char c = (char)draw(256);
        if (c != '\r' && c != '\n') r.text[draw(n)] = c;
        if (!c) probe("request_with_a_zero");
    }
    r.delay = one_of<i64>({10, 1, 2, 50, 300, 2000});
    r.line = with_sum(std::to_string(r.id) + r.op + r.text);
    r.sent_us = now_us();
    std::string s = r.line + (w.crlf ? "\r\n" : "\n");
    w.requests[r.id] = r;
    w.outstanding.push_back(r.id);
    if (!w.lossy) {
        w.unread.push_back(r.id);
        if (w.crlf) w.unread.push_back(0);
        w.in_order.push_back(r.id);
    }
    memcpy(line, s.data(), s.size());
    log("host asks %s", r.line.c_str());
    Sut sut;
    size_t written = 0;
    if (r.id & 1) written = stream->buffered_write(line, s.size());
    else
        for (size_t i = 0; i < s.size(); ++i)
            written += stream->buffered_write((uint8_t)line[i]);
    if (written != s.size()) violate("system:reply", "a request did not fit although there was room");
    if (w.lossy && !retry) retry.emplace(k_time_ms(w.retry_ms));
}

void Peer::receive() {
    World& w = *W;
    while (stream->has_line()) {
        Host h;
        std::string got;
        switch (w.faults ? draw(3) : 0) {
        case 0: {
            Sut s;
            size_t n = stream->get_next_line(line, sizeof(line));
            Host hh;
            got.assign(line, n);
            break;
        }
        case 1: {
            Sut s;
            auto v = stream->get_next_line_view();
            if (!v) violate("system:reply", "a line is waiting but cannot be viewed");
            {
                Host hh;
                got.assign(*v);
            }
            stream->drop_next_line();
            break;
        }
        default: {
            Sut s;
            auto tx = stream->new_transaction();
            if (!tx) violate("system:reply", "a line is waiting but no transaction can be started");
            {
                Host hh;
                got.assign(tx->incoming());
            }
            tx->abort();
            break;
        }
        }
        if (got.empty()) continue;
        bool ok = got.size() >= 11 && with_sum(got.substr(0, got.size() - 9)) == got;
        if (w.lossy && !ok) {
            probe("garbled_reply");
            continue;
        }
        SIM_CHECK(ok, "system:reply", "the host got '%s'", got.c_str());
        u32 id = 0;
        size_t i = 0;
        while (got[i] >= '0' && got[i] <= '9')
            id = id * 10 + (u32)(got[i++] - '0');
        char mark = got[i];
        std::string text = got.substr(i + 1, got.size() - 9 - i - 1);
        SIM_CHECK(w.requests.count(id), "system:reply", "the host got a reply to %u, which was never asked", id);
        Request& r = w.requests[id];
        std::string want;
        char want_mark = 0;
        switch (r.op) {
        case 'E': want = shout(r.text), want_mark = '='; break;
        case 'A': want = "no", want_mark = '!'; break;
        case 'L': want_mark = '+'; break;
        case 'D': want = r.accepted && mark == '@' ? r.text : "busy", want_mark = r.accepted && mark == '@' ? '@' : '-'; break;
        }
        SIM_CHECK(mark == want_mark && text == want, "system:reply", "the reply to '%s' is '%s'", r.line.c_str(),
                  got.c_str());
        if (!w.lossy) {
            SIM_CHECK(!r.answered, "system:reply", "%u was answered twice", id);
            if (mark == '@') {
                auto it = std::find(w.in_order.begin(), w.in_order.end(), id);
                SIM_CHECK(it != w.in_order.end(), "system:order", "a delayed reply to %u twice", id);
                w.in_order.erase(it);
            } else {
                while (!w.in_order.empty() && w.requests[w.in_order.front()].accepted) {
                    // answered later, does not take part in the order
                    auto f = w.in_order.front();
                    auto it = std::find_if(w.in_order.begin(), w.in_order.end(),
                                           [&](u32 x) { return !w.requests[x].accepted; });
                    if (it == w.in_order.end()) break;
                    w.in_order.erase(w.in_order.begin());
                    w.in_order.push_back(f);
                }
                SIM_CHECK(!w.in_order.empty() && w.in_order.front() == id, "system:order",
                          "%u was answered before %u", id, w.in_order.empty() ? 0 : w.in_order.front());
                w.in_order.pop_front();
            }
        }
        if (!r.answered) {
            ++w.answered;
            auto it = std::find(w.outstanding.begin(), w.outstanding.end(), id);
            if (it != w.outstanding.end()) w.outstanding.erase(it);
            r.answered = true;
            if (w.lossy) {
                Sut s;
                retry.reset();
                if (!w.outstanding.empty()) retry.emplace(k_time_ms(w.retry_ms));
            }
            log("host knows %u", id);
        }
    }
}

void World::run_host() {
    Sut s;
    host->es->loop();
}

void run_system() {
    install_handler();
    spn::logging::set_log_level(spn::logging::LogLevel::INFO);
    take_console(); // what setting up printed
    start_clock(draw_uptime_us());
    World w;
    W = &w;
    w.armed = std::string(property()) == "C06";
    w.lossy = chance(300);
    w.window = (size_t)range(1, 6);
    w.max_text = (size_t)one_of<i64>({20, 0, 1, 5, 60, 120});
    w.device_in = w.max_text + 24 + (size_t)one_of<i64>({0, 1, 40, 200});
    w.device_out = w.max_text + 26 + (size_t)one_of<i64>({0, 1, 30, 300});
    w.host_in = w.max_text + 26 + (size_t)one_of<i64>({0, 100});
    w.host_out = w.max_text + 42 + (size_t)one_of<i64>({0, 100});
    w.max_delayed = (size_t)range(1, 5);
    w.per_poll = (size_t)range(1, 5);
    w.poll_ms = one_of<i64>({10, 1, 5, 50});
    w.tick_ms = one_of<i64>({100, 7, 33, 1000});
    w.tock_ms = one_of<i64>({250, 10, 100, 5000});
    w.host_poll_ms = one_of<i64>({10, 1, 50});
    w.gap_us = one_of<i64>({5000, 1000, 20000, 60000});
    w.crlf = flip();
    w.sleeps = flip();
    w.max_sleep_ms = one_of<i64>({10, 1, 100});
    w.p_slow = one_of<u32>({0, 0, 20});
    if (chance(250)) set_preemption(one_of<u32>({1, 10}), 2000);
#ifndef DEBUG_SPINE // there, a reply that doesn't fit is an error
    w.bold = !w.lossy && chance(300);
#endif
    w.retry_ms = 4000;
    for (Direction* d : {&w.to_device, &w.to_host}) {
        d->byte_us = one_of<i64>({87, 10, 1042});
        d->fifo = (size_t)one_of<i64>({16, 1, 4, 64, 1000});
        d->latency_us = one_of<i64>({0, 500, 20000});
        d->p_jitter = one_of<u32>({0, 0, 20});
        d->p_read_fail = one_of<u32>({0, 0, 30, 200});
        d->p_write_fail = one_of<u32>({0, 0, 30, 200});
        if (w.lossy) d->p_lose = one_of<u32>({0, 2, 20});
    }
    limit_steps((u32)one_of<i64>({30, 60, 150}));
    w.start_device();
    w.host_port.tx = &w.to_device, w.host_port.rx = &w.to_host, w.host_port.device = false;
    exhaust_heap(false);
    {
        Sut s;
        w.host = std::make_unique<Peer>();
        EventSystem::Config cfg{.events_count = 1, .events_cap = 2, .handler_cap = 1, .delay_between_ticks = false};
        w.host->es = std::make_unique<EventSystem>(cfg);
        auto uart = make_uart(&w.host_port);
        w.host->stream = std::make_unique<BufferedStream>(
            uart, BufferedStream::Config{.input_buffer_size = w.host_in, .output_buffer_size = w.host_out});
        w.host->attach_event_system(w.host->es.get());
        w.host->es->attach((size_t)0, w.host.get());
        w.host->es->schedule((size_t)0, k_time_ms(1));
    }
    w.host->next_run = now_us();
    if (w.armed) {
        on_heap_exhausted([](size_t n) { violate("heap", "%zu bytes were requested from an exhausted heap", n); });
        exhaust_heap(true);
    }

    auto run_next = [&] {
        bool dev = w.device->next_run <= w.host->next_run;
        i64& next = dev ? w.device->next_run : w.host->next_run;
        if (next > now_us()) advance_us(next - now_us());
        if (dev) w.run_device();
        else w.run_host();
        i64& again = dev ? w.device->next_run : w.host->next_run;
        again = now_us() + (w.faults ? 1 + (i64)draw((u64)w.gap_us) : w.gap_us);
    };
    while (step()) {
        size_t what = pick({60, 2, 2, 2, w.lossy ? 2u : 0u});
        u64 n = 1 + draw(30);
        switch (what) {
        case 0:
            while (n-- > 0)
                run_next();
            break;
        case 1: // a node is busy with something else
            (flip() ? w.device->next_run : w.host->next_run) += range(1, 1500) * 1000;
            fault("node_stalled");
            log("stall");
            break;
        case 2: { // the line is down, or somebody holds its flow control
            Direction& d = flip() ? w.to_device : w.to_host;
            d.stalled_until = now_us() + range(1, 800) * 1000;
            fault("line_stalled");
            log("line stalls");
            break;
        }
        case 3: // everything stands still
            advance_ms(range(1, 3000));
            fault("all_stalled");
            break;
        case 4:
            log("device resets");
            fault("device_reset");
            ++w.resets;
            if (flip()) w.to_device.bytes.clear(); // its receiver was reset as well
            w.start_device();
            break;
        }
        state(std::min<u64>(w.outstanding.size(), 7) * 4096 + std::min<u64>(w.device->delayed_model.size(), 7) * 512
              + std::min<u64>(w.device->stream->output_buffer_space_used() * 8 / w.device_out, 7) * 64
              + std::min<u64>(w.device->stream->input_buffer_space_used() * 8 / w.device_in, 7) * 8
              + (w.to_device.room() == 0) * 4 + (w.to_host.room() == 0) * 2 + w.lossy);
    }
    if (w.answered > 0) nontrivial();

    // the faults stop: everything has to be answered
    w.faults = false;
    w.sending = false;
    set_preemption(0, 0);
    w.to_device.heal(), w.to_host.heal();
    w.device->next_run = std::min(w.device->next_run, now_us() + w.gap_us);
    w.host->next_run = std::min(w.host->next_run, now_us() + w.gap_us);
    i64 left_ms = 0; // delayed replies in progress
    for (auto& d : w.device->delayed_model)
        left_ms = std::max(left_ms, d.due - now_ms());
    i64 lines = (i64)w.window * 2 + 8, line = (i64)w.max_text + 32;
    i64 round_us = (w.poll_ms + w.host_poll_ms + w.max_sleep_ms) * 1000 + 4 * w.gap_us;
    i64 bytes = lines * line * 2 + (i64)(w.device_in + w.device_out + w.host_in + w.host_out)
                + (i64)w.to_device.bytes.size() + (i64)w.to_host.bytes.size();
    i64 line_us = std::max(w.to_device.last_arrive, w.to_host.last_arrive) - now_us();
    i64 bound_us = (left_ms + 2000 + 100) * 1000 + std::max<i64>(line_us, 0) + bytes * 2 * 1100
                   + bytes * round_us / (i64)std::min(w.to_device.fifo, w.to_host.fifo) + lines * round_us * 4;
    if (w.lossy) bound_us += (i64)(w.window + 2) * (w.retry_ms * 1000 + bound_us);
    i64 until = now_us() + bound_us;
    while (!w.outstanding.empty()) {
        SIM_CHECK(now_us() < until, "system:starved", "%zu requests (%u first) are not answered %ld ms after the last fault",
                  w.outstanding.size(), w.outstanding.front(), (long)(bound_us / 1000));
        run_next();
    }
    probe("all_answered");
    if (!w.lossy) {
        // the second half of the end of the last line may still be on its way
        bool all = std::none_of(w.unread.begin(), w.unread.end(), [](u32 id) { return id != 0; });
        SIM_CHECK(all && w.in_order.empty(), "system:order", "%zu unread, %zu unanswered", w.unread.size(),
                  w.in_order.size());
    }
    // and the device keeps its rhythm
    u64 polls = w.device->periodic[0].delivered, ticks = w.device->periodic[1].delivered;
    i64 t0 = now_us();
    while (now_us() - t0 < 500000)
        run_next();
    i64 worst_ms = w.gap_us * 2 / 1000 + 3 + (w.sleeps ? w.max_sleep_ms : 0);
    for (int i = 0; i < 2; ++i) {
        u64 got = w.device->periodic[i].delivered - (i ? ticks : polls);
        u64 want = (u64)(500 / (w.device->periodic[i].period + worst_ms));
        SIM_CHECK(got + 1 >= want, "system:rhythm", "event %d came %lu times in half a second instead of %lu", i,
                  (unsigned long)got, (unsigned long)want);
    }
    log("%lu answered", (unsigned long)w.answered);
    exhaust_heap(false);
    {
        Sut s;
        w.host.reset();
        w.device.reset();
        w.monitor.reset();
    }
    w.check_logs();
    SIM_CHECK(live_allocations() == 0, "leak", "%zu allocations were not freed", live_allocations());
}

} // namespace

SIM_SCENARIO(system) { run_system(); }
