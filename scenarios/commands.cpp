// Scenario: a device that is told what to do in lines of text. Lines arrive in pieces, are taken from the buffered
// stream in each of the ways it offers, and are picked apart with the library's text functions; durations that were
// read are waited for by the event system. Lines contain anything, lie anywhere in the buffer, and other lines lie
// behind them. Decides C23, and C06 (no heap) for static strings.
#include "platform.hpp"
#include "spine/core/logging.hpp"
#include "spine/core/utils/string.hpp"
#include "spine/core/utils/time_repr.hpp"
#include "spine/eventsystem/eventsystem.hpp"
#include "spine/io/stream/buffered_stream.hpp"
#include "spine/platform/hal.hpp"
#include "spine/structure/static_string.hpp"

#include <algorithm>
#include <climits>
#include <cmath>
#include <deque>
#include <memory>
#include <optional>
#include <string>

using namespace sim;
using spn::core::Event;
using spn::core::EventHandler;
using spn::core::EventSystem;
using spn::io::BufferedStream;
using spn::structure::StaticString;
namespace utils = spn::core::utils;

namespace {

enum class Ev : size_t { POLL, EXPIRE, COUNT };

std::string show(std::string_view s) {
    std::string o;
    for (char c : s) {
        char b[8];
        if (c >= 32 && c < 127) o += c;
        else {
            snprintf(b, sizeof(b), "\\x%02x", (unsigned char)c);
            o += b;
        }
    }
    return o;
}

// ---- what text says
// --------------------------------------------------------------------------------------------------
bool is_one_of(char c, const std::string& set) {
    for (char s : set)
        if (s == c) return true;
    return false;
}
std::string left_stripped(const std::string& s, const std::string& set) {
    size_t i = 0;
    while (i < s.size() && is_one_of(s[i], set))
        ++i;
    return s.substr(i);
}
std::string right_stripped(const std::string& s, const std::string& set) {
    size_t n = s.size();
    while (n > 0 && is_one_of(s[n - 1], set))
        --n;
    return s.substr(0, n);
}
size_t first_of(const std::string& s, const std::string& set) {
    for (size_t i = 0; i < s.size(); ++i)
        if (is_one_of(s[i], set)) return i;
    return std::string::npos;
}
bool begins(const std::string& s, const std::string& n) { return s.size() >= n.size() && s.substr(0, n.size()) == n; }
bool ends(const std::string& s, const std::string& n) {
    return s.size() >= n.size() && s.substr(s.size() - n.size()) == n;
}
bool digit(char c) { return c >= '0' && c <= '9'; }

enum class Number { DECIMAL, NONE, UNCLEAR };
Number kind_of_number(const std::string& s) {
    size_t i = 0, digits = 0;
    if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
    while (i < s.size() && digit(s[i]))
        ++i, ++digits;
    if (i < s.size() && s[i] == '.') {
        ++i;
        while (i < s.size() && digit(s[i]))
            ++i, ++digits;
    }
    if (digits) {
        if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
            size_t e = i + 1, n = 0;
            if (e < s.size() && (s[e] == '+' || s[e] == '-')) ++e;
            while (e < s.size() && digit(s[e]))
                ++e, ++n;
            if (n) i = e;
        }
        if (i == s.size()) return s.size() < 60 ? Number::DECIMAL : Number::UNCLEAR;
    }
    // other notations and leading space may be understood or not
    if (!s.empty() && std::isspace((unsigned char)s[0])) return Number::UNCLEAR;
    for (size_t k = 0; k < s.size() && k < 2; ++k)
        if (s[k] == 'i' || s[k] == 'I' || s[k] == 'n' || s[k] == 'N') return Number::UNCLEAR;
    for (char c : s)
        if (c == 'x' || c == 'X') return Number::UNCLEAR;
    return Number::NONE;
}

struct Duration {
    bool valid = false, beyond = false; // beyond what must be understood
    i64 count = 0;
    std::string unit;
    i64 unit_us() const {
        if (unit == "us") return 1;
        if (unit == "ms") return 1000;
        if (unit == "s") return 1000000;
        if (unit == "m") return 60000000ll;
        if (unit == "h") return 3600000000ll;
        return 86400000000ll;
    }
};
Duration duration_of(const std::string& s) {
    Duration d;
    size_t i = 0;
    __int128 n = 0;
    while (i < s.size() && digit(s[i])) {
        n = std::min<__int128>(n * 10 + (s[i] - '0'), (__int128)1 << 70);
        ++i;
    }
    if (i == 0) return d;
    d.unit = s.substr(i);
    for (const char* u : {"us", "ms", "s", "m", "h", "d"})
        if (d.unit == u) d.valid = true;
    d.beyond = n > INT_MAX;
    d.count = d.beyond ? 0 : (i64)n;
    if (n <= INT64_MAX) d.count = (i64)n;
    return d;
}

/// The other end of the line, which sends no more than fits
struct Line : spn::io::Stream {
    std::string arrived, in_flight;
    size_t room = 0;
    u32 p_fail = 0, p_arrive = 0;
    void arrive(size_t n) {
        n = std::min(n, in_flight.size());
        arrived += in_flight.substr(0, n);
        in_flight.erase(0, n);
    }
    using spn::io::Stream::read;
    using spn::io::Stream::write;
    void initialize() override {}
    void flush() override {}
    size_t available() const override {
        Host h;
        return std::min(arrived.size(), room);
    }
    size_t available_for_write() const override { return 0; }
    bool read(uint8_t& value) override {
        Host h;
        if (p_arrive && chance(p_arrive)) arrive(1 + draw(3));
        if (arrived.empty() || room == 0) return false;
        if (p_fail && chance(p_fail)) {
            fault("read_failed");
            return false;
        }
        value = (uint8_t)arrived[0];
        arrived.erase(0, 1);
        --room;
        return true;
    }
    size_t read(uint8_t* buffer, size_t length) override {
        size_t n = 0;
        while (n < length && read(buffer[n]))
            ++n;
        return n;
    }
    bool write(const uint8_t) override { return false; }
    size_t write(const uint8_t* const, size_t) override { return 0; }
};

struct Setting {
    u32 id;
    i64 due, due_hi;
};

struct Device;
Device* D;

struct Device : EventHandler {
    Device() : EventHandler(nullptr) {}
    void handle_event(const Event& e) override;
    void take();
    void understand(std::string_view text);
    void dissect(std::string_view text);
    void static_string(StaticString& s);
    void number(std::string_view text);
    std::optional<k_time_us> duration(std::string_view text);
    void describe();
    void set_for(k_time_ms t);

    std::unique_ptr<EventSystem> es;
    std::unique_ptr<BufferedStream> stream;
    std::shared_ptr<Line> line;
    std::unique_ptr<StaticString> text;
    std::deque<std::string> sent; // lines that were not taken yet, without their delimiter
    std::vector<Setting> settings; // in the order in which they expire
    std::string present; // the line that is being understood
    std::string spaces;
    char delimiter = '\n';
    size_t capacity = 0, max_settings = 0;
    i64 poll_ms = 0;
    u32 next_id = 0;
    u64 taken = 0, understood = 0, expired = 0;
    bool starving = false; // no heap
    u32 p_slow = 0;

    void heap(bool available) {
        if (starving) exhaust_heap(!available);
    }
};

std::string drawn_from(const char* alphabet, size_t max) {
    std::string s;
    size_t n = draw(max + 1), k = strlen(alphabet);
    for (size_t i = 0; i < n; ++i)
        s += alphabet[draw(k)];
    return s;
}

std::string draw_number() {
    switch (pick({6, 3, 2, 2, 1, 1, 1})) {
    case 0: return std::to_string(range(-2000, 2000)) + (flip() ? "." + std::to_string(draw(1000)) : "");
    case 1: return std::to_string(draw(10));
    case 2: return drawn_from("0123456789", 14) + "." + drawn_from("0123456789", 14);
    case 3: return std::to_string(draw(100)) + "e" + std::to_string(range(-45, 39));
    case 4: return drawn_from("0123456789+-.eE", 10);
    case 5:
        return one_of<const char*>({"1e400", "-0", "+.5", "5.", ".", "-", "e5", "1e", "inf", "nan", "0x1f", "1.2.3"});
    default: return drawn_from("0123456789", 45);
    }
}

std::string draw_duration() {
    const char* unit = one_of<const char*>({"s", "ms", "m", "h", "us", "d"});
    switch (pick({8, 2, 1, 1, 1, 1})) {
    case 0: return std::to_string(draw(100)) + unit;
    case 1: return std::to_string(draw(100000)) + unit;
    case 2: return std::to_string(range(INT_MAX - 3, (i64)INT_MAX + 3)) + unit;
    case 3: return drawn_from("0123456789", 30) + unit;
    case 4: return std::to_string(draw(100)) + one_of<const char*>({"", " s", "S", "min", "sm", "u", "\t", "5", "-1s"});
    default: return one_of<const char*>({"s", "ms", "-5s", "+5s", "0s", "00012m", "1.5s", "d", "5ss", "m5"});
    }
}

std::string draw_line(const Device& d, size_t max) {
    auto space = [&](size_t n) { return drawn_from(d.spaces.c_str(), n); };
    std::string s;
    switch (pick({10, 4, 3, 3, 3, 2})) {
    case 0: {
        s = space(2) + "set" + d.spaces[0] + space(2) + draw_number();
        if (flip()) s += d.spaces[0] + space(2) + draw_duration();
        s += space(3);
        break;
    }
    case 1: s = space(2) + "for" + d.spaces[0] + draw_duration(); break;
    case 2: s = space(2) + drawn_from("temhup", 5) + "?" + space(2); break;
    case 3: s = space(max); break; // nothing but space
    case 4: {
        size_t n = draw(max + 1);
        for (size_t i = 0; i < n; ++i)
            s += (char)draw(256);
        break;
    }
    case 5: s = std::string("set").substr(0, draw(4)) + space(1) + draw_number(); break;
    }
    for (char& c : s)
        if (c == d.delimiter) c = '_';
    return s.substr(0, max);
}

std::string draw_set(const Device& d, const std::string& t) {
    switch (pick({3, 2, 1, 1, 1})) {
    case 0: return " \f\n\r\t\v";
    case 1: return d.spaces;
    case 2: return drawn_from("set ?.0123456789\t\r", 4);
    case 4: { // some of what is at either end of the text
        const size_t n = std::min<size_t>(t.size(), 1 + draw(3));
        return t.substr(0, n) + t.substr(t.size() - n);
    }
    default: {
        std::string s;
        size_t n = draw(4);
        for (size_t i = 0; i < n; ++i)
            s += (char)draw(256);
        return s;
    }
    }
}

std::string draw_needle(const std::string& s, bool at_end) {
    size_t n = draw(s.size() + 1);
    std::string part = at_end ? s.substr(s.size() - n) : s.substr(0, n);
    switch (pick({5, 2, 2, 1})) {
    case 0: return part;
    case 1: return at_end ? "?" + part : part + "?";
    case 2:
        if (!part.empty()) part[draw(part.size())] ^= 1;
        return part;
    default: return s + s + "!";
    }
}

// ---- device
// ------------------------------------------------------------------------------------------------------------

void Device::handle_event(const Event& e) {
    if ((Ev)e.id() == Ev::EXPIRE) {
        Host h;
        u32 id = e.data().unsigned_value();
        auto it = std::find_if(settings.begin(), settings.end(), [&](const Setting& s) { return s.id == id; });
        SIM_CHECK(it != settings.end(), "text:duration", "setting %u expires, which isn't set", id);
        SIM_CHECK(now_ms() >= it->due, "text:duration", "setting %u expires %ld ms early", id,
                  (long)(it->due - now_ms()));
        log("setting %u expires", id);
        settings.erase(it);
        ++expired;
        return;
    }
    {
        Host h;
        if (p_slow && chance(p_slow)) {
            advance_us((i64)draw(2000000));
            fault("slow_handler");
        }
        line->room = capacity - stream->input_buffer_space_used();
    }
    stream->pull_in_data();
    u64 most;
    {
        Host h;
        most = 1 + draw(4);
    }
    while (most-- > 0 && stream->has_line())
        take();
    evsys()->schedule(Ev::POLL, k_time_ms(poll_ms));
}

/// Takes a line in one of the ways there are
void Device::take() {
    size_t way;
    {
        Host h;
        SIM_CHECK(!sent.empty(), "text:line", "there is a line although none was sent");
        present = sent.front();
        sent.pop_front();
        ++taken;
        way = pick({3, 3, 3, 2});
    }
    if (way == 0) {
        auto transaction = stream->new_transaction();
        if (!transaction) violate("text:line", "no transaction for a line");
        understand(transaction->incoming());
        if (Host h; flip()) return; // goes out of scope
        transaction->commit();
    } else if (way == 1) {
        auto view = stream->get_next_line_view();
        if (!view) violate("text:line", "no view of a line");
        understand(*view);
        stream->drop_next_line();
    } else if (way == 2) {
        const size_t length = stream->length_of_next_line();
        bool announced;
        {
            Host h;
            announced = present.size() > 0 && flip();
        }
        char* data = text->data(announced ? length - 1 : length); // the delimiter makes place for the end of the string
        const size_t taken = stream->get_next_line(data, length);
        if (!announced) text->set_size(taken);
        understand(text->view());
        static_string(*text);
    } else { // a copy of which nothing lies behind
        auto view = stream->get_next_line_view();
        if (!view) violate("text:line", "no view of a line");
        std::unique_ptr<char[]> copy;
        {
            Host h;
            copy.reset(new char[view->size()]);
            std::copy(view->begin(), view->end(), copy.get());
        }
        stream->drop_next_line();
        understand(std::string_view(copy.get(), present.size()));
        Host h;
        copy.reset();
    }
}

void Device::number(std::string_view text) {
    std::string t;
    {
        Host h;
        t = std::string(text);
        heap(true); // long numbers may be copied
    }
    const float value = utils::to_float(text);
    Host h;
    heap(false);
    Number kind = kind_of_number(t);
    if (kind == Number::UNCLEAR) return;
    float expected = kind == Number::DECIMAL ? strtof(t.c_str(), nullptr) : 0.0f;
    if (kind == Number::DECIMAL) probe("number_read"), ++understood;
    else
        probe("not_a_number");
    bool same = value == expected || std::abs((double)value - (double)expected) <= 1e-6 * std::abs((double)expected)
                || (std::abs((double)expected) < 1e-37 && std::abs((double)value) < 1e-37);
    SIM_CHECK(same, "text:number", "\"%s\" is read as %.9g instead of %.9g", show(t).c_str(), (double)value,
              (double)expected);
}

std::optional<k_time_us> Device::duration(std::string_view text) {
    Duration d;
    std::string t;
    {
        Host h;
        t = std::string(text);
        d = duration_of(t);
        heap(true);
    }
    const auto parsed = utils::parse_time(text);
    Host h;
    heap(false);
    if (!d.valid || (d.beyond && !parsed)) {
        SIM_CHECK(!parsed, "text:duration", "\"%s\" is read as a duration", show(t).c_str());
        probe("not_a_duration");
        return {};
    }
    SIM_CHECK(parsed.has_value(), "text:duration", "\"%s\" is not read as a duration", show(t).c_str());
    i64 raw = std::visit([](const auto& v) { return (i64)v.raw(); }, *parsed);
    static const char* units[] = {"us", "ms", "s", "m", "h", "d"};
    SIM_CHECK(raw == d.count && d.unit == units[parsed->index()], "text:duration", "\"%s\" is read as %ld %s",
              show(t).c_str(), (long)raw, units[parsed->index()]);
    if (d.count > 86400000000000ll / d.unit_us() * 100) return {}; // beyond what is waited for
    k_time_us us = std::visit([](const auto& v) { return k_time_us(v); }, *parsed);
    SIM_CHECK((i64)us.raw() == d.count * d.unit_us(), "text:duration", "\"%s\" lasts %ld us", show(t).c_str(),
              (long)us.raw());
    probe("duration_read");
    ++understood;

    // telling it
    std::string told;
    heap(true);
    {
        Sut s;
        told = std::visit([](const auto& v) { return utils::repr(v); }, *parsed);
    }
    heap(false);
    Duration back = duration_of(told);
    i64 exact = (i64)us.raw(), off = std::abs(back.count * back.unit_us() - exact);
    SIM_CHECK(back.valid && off * 2 <= back.unit_us() && (back.count > 0 || exact == 0), "text:told",
              "%ld us is told as \"%s\"", (long)exact, show(told).c_str());
    SIM_CHECK(exact < 900000000 - 500000 || back.unit_us() >= 60000000, "text:told", "%ld us is told as \"%s\"",
              (long)exact, show(told).c_str());
    SIM_CHECK(exact >= 900000000 - 500000 || back.unit_us() <= 1000000, "text:told", "%ld us is told as \"%s\"",
              (long)exact, show(told).c_str());
    told = std::string(); // it belongs to the device
    return us;
}

void Device::set_for(k_time_ms t) {
    u32 id;
    i64 before;
    {
        Host h;
        if (settings.size() >= max_settings) return;
        id = next_id++;
        before = now_ms();
    }
    evsys()->schedule(Ev::EXPIRE, t, Event::Data(id));
    Host h;
    Setting s{id, before + t.raw(), now_ms() + t.raw()};
    log("setting %u for %ld ms", id, (long)t.raw());
    auto it = settings.begin();
    while (it != settings.end() && it->due <= s.due)
        ++it;
    settings.insert(it, s);
}

/// Does what a line says
void Device::understand(std::string_view line) {
    std::string want, seps;
    {
        Host h;
        log("\"%s\"", show(line).c_str());
        SIM_CHECK(line == present, "text:line", "a line of \"%s\" is \"%s\"", show(present).c_str(),
                  show(line).c_str());
        seps = spaces;
    }
    const std::string_view separators(seps.data(), seps.size());
    const std::string_view text = utils::rstrip(utils::lstrip(line, separators), separators);
    {
        Host h;
        want = right_stripped(left_stripped(present, seps), seps);
        SIM_CHECK(text == want, "text:strip", "\"%s\" is stripped to \"%s\"", show(present).c_str(),
                  show(text).c_str());
    }
    const bool sets = utils::starts_with(text, "set"), lasts = utils::starts_with(text, "for"),
               asks = utils::ends_with(text, "?");
    {
        Host h;
        SIM_CHECK(sets == begins(want, "set") && lasts == begins(want, "for") && asks == ends(want, "?"), "text:match",
                  "\"%s\" is taken for another command", show(want).c_str());
    }
    if (sets || lasts) {
        std::string_view rest = utils::lstrip(text.substr(3), separators);
        {
            Host h;
            want = left_stripped(want.substr(3), seps);
            SIM_CHECK(rest == want, "text:strip", "\"%s\" is stripped to \"%s\"", show(present).c_str(),
                      show(rest).c_str());
        }
        if (sets) {
            const size_t end = utils::find_first_of(rest, separators);
            {
                Host h;
                SIM_CHECK(end == first_of(want, seps), "text:match", "the first word of \"%s\" ends at %zu",
                          show(want).c_str(), end);
            }
            number(rest.substr(0, end));
            rest = end == std::string::npos ? std::string_view() : utils::lstrip(rest.substr(end), separators);
        }
        if (!rest.empty()) {
            if (const auto d = duration(rest)) set_for(k_time_ms(std::max<int64_t>(1, k_time_ms(*d).raw())));
        }
    }
    if (asks) describe();
    bool closely;
    {
        Host h;
        closely = flip();
        seps = std::string(), want = std::string();
    }
    if (closely) dissect(line);
}

/// Each of the functions on its own
void Device::dissect(std::string_view text) {
    std::string t, set, head, tail;
    {
        Host h;
        t = std::string(text), set = draw_set(*this, t), head = draw_needle(t, false), tail = draw_needle(t, true);
    }
    const std::string_view delimiters(set.data(), set.size());
    const auto left = utils::lstrip(text, delimiters), right = utils::rstrip(text, delimiters);
    const bool starts = utils::starts_with(text, head), stops = utils::ends_with(text, tail);
    const size_t found = utils::find_first_of(text, delimiters);
    {
        Host h;
        SIM_CHECK(left == left_stripped(t, set), "text:strip", "\"%s\" is stripped to \"%s\"", show(t).c_str(),
                  show(left).c_str());
        SIM_CHECK(right == right_stripped(t, set), "text:strip", "\"%s\" is stripped to \"%s\"", show(t).c_str(),
                  show(right).c_str());
        SIM_CHECK(starts == begins(t, head), "text:match", "\"%s\" begins with \"%s\": %d", show(t).c_str(),
                  show(head).c_str(), starts);
        SIM_CHECK(stops == ends(t, tail), "text:match", "\"%s\" ends with \"%s\": %d", show(t).c_str(),
                  show(tail).c_str(), stops);
        SIM_CHECK(found == first_of(t, set), "text:match", "one of \"%s\" is found in \"%s\" at %zu", show(set).c_str(),
                  show(t).c_str(), found);
    }
    bool numbers;
    {
        Host h;
        numbers = flip();
    }
    if (numbers) number(text);
    else
        duration(text);
    Host h;
    t = std::string(), set = std::string(), head = std::string(), tail = std::string();
}

/// The same on a string of its own
void Device::static_string(StaticString& s) {
    std::string t, set, head, tail;
    size_t capacity = s.capacity();
    bool left;
    {
        Host h;
        t = present, set = draw_set(*this, t), head = draw_needle(t, false), tail = draw_needle(t, true), left = flip();
    }
    const bool starts = s.starts_with(head), stops = s.ends_with(tail);
    {
        Host h;
        SIM_CHECK(starts == begins(t, head), "text:match", "\"%s\" begins with \"%s\": %d", show(t).c_str(),
                  show(head).c_str(), starts);
        SIM_CHECK(stops == ends(t, tail), "text:match", "\"%s\" ends with \"%s\": %d", show(t).c_str(),
                  show(tail).c_str(), stops);
    }
    const std::string_view delimiters(set.data(), set.size());
    if (left) s.lstrip(delimiters);
    {
        Host h;
        if (left) t = left_stripped(t, set);
        SIM_CHECK(s.view() == t, "text:strip", "\"%s\" is stripped to \"%s\"", show(present).c_str(),
                  show(s.view()).c_str());
    }
    s.rstrip(delimiters);
    {
        Host h;
        t = right_stripped(t, set);
        SIM_CHECK(s.view() == t, "text:strip", "\"%s\" is stripped to \"%s\"", show(present).c_str(),
                  show(s.view()).c_str());
        SIM_CHECK(s.size() == t.size() && s.c_str()[t.size()] == 0 && s.capacity() == capacity, "text:strip",
                  "a string of %zu has size %zu and a capacity of %zu instead of %zu", t.size(), s.size(), s.capacity(),
                  capacity);
        t = std::string(), set = std::string(), head = std::string(), tail = std::string();
    }
#ifndef DEBUG_SPINE // there, asking for more than there is room for is an error
    size_t more;
    bool resizes;
    {
        Host h;
        more = capacity + (chance(300) ? draw(2 * capacity + 2) : 0), resizes = flip();
    }
    if (resizes) s.set_size(more);
    else
        s.data(more);
    Host h;
    if (more > capacity) probe("string_overasked");
    SIM_CHECK(s.size() == capacity && s.capacity() == capacity && s.c_str()[capacity] == 0, "text:strip",
              "a string for %zu bytes has size %zu and a capacity of %zu when it is asked to have %zu", capacity,
              s.size(), s.capacity(), more);
#endif
}

/// Tells what is pending
void Device::describe() {
    i64 lo, hi;
    {
        Host h;
        heap(true);
        lo = now_ms();
    }
    std::string told = evsys()->pipeline_as_string();
    {
        Host h;
        hi = now_ms();
        SIM_CHECK(told.rfind("Pipeline: [", 0) == 0, "text:told", "what is pending is told as \"%s\"",
                  show(told).c_str());
        std::vector<Duration> times;
        for (size_t i = 11; i < told.size();) {
            if (!digit(told[i])) {
                SIM_CHECK(is_one_of(told[i], ", ]-"), "text:told", "what is pending is told as \"%s\"",
                          show(told).c_str());
                ++i;
                continue;
            }
            size_t e = i;
            while (e < told.size() && !is_one_of(told[e], ", ]"))
                ++e;
            times.push_back(duration_of(told.substr(i, e - i)));
            SIM_CHECK(times.back().valid, "text:told", "what is pending is told as \"%s\"", show(told).c_str());
            i = e;
        }
        SIM_CHECK(times.size() == settings.size(), "text:told", "\"%s\" tells of %zu instead of %zu events",
                  show(told).c_str(), times.size(), settings.size());
        for (size_t i = 0; i < times.size(); ++i) { // (ties and preempted clocks may be in another order)
            bool found = false;
            for (auto& s : settings) {
                i64 least = std::max<i64>(0, s.due - hi) * 1000, most = std::max<i64>(0, s.due_hi - lo) * 1000,
                    is = times[i].count * times[i].unit_us(), half = times[i].unit_us() / 2 + 1;
                if (s.due <= hi) least = 0; // overdue
                if (s.due <= hi || (is + half >= least && is - half <= most)) found = true;
            }
            SIM_CHECK(found, "text:told", "\"%s\" tells of an event that isn't pending", show(told).c_str());
        }
        probe("pending_told");
        if (!settings.empty()) probe("some_pending_told");
        heap(false);
    }
    told = std::string();
}

void run_commands() {
    start_clock(draw_uptime_us());
    Device device;
    Device& d = device;
    D = &d;
    size_t max = (size_t)range(1, 60);
    d.capacity = max + 1 + draw(one_of<u64>({1, 20, 80}));
    d.delimiter = one_of<char>({'\n', '\r', ';', '\0', ' '});
    d.spaces = one_of<const char*>({" ", " \t", "\t ", ",", " \t\r\f\v", "=, "});
    if (d.delimiter == '\r') d.spaces = " \t";
    if (d.delimiter == ' ') d.spaces = "\t,";
    d.max_settings = (size_t)range(0, 8);
    d.poll_ms = range(1, 200);
    limit_steps((u32)range(3, 100));
    d.line = std::make_shared<Line>();
    if (chance(500)) d.line->p_fail = one_of<u32>({5, 50, 300});
    if (chance(500)) d.line->p_arrive = one_of<u32>({5, 50, 300});
    if (chance(400)) d.p_slow = one_of<u32>({10, 100});
    if (chance(400)) set_preemption(one_of<u32>({2, 20, 200}), one_of<i64>({1000, 100000, 10000000}));
    const size_t stock = draw(10);
    const std::string delimiter(1, d.delimiter);
    install_handler();
    {
        Sut s;
        d.es = std::make_unique<EventSystem>(EventSystem::Config{.events_count = (size_t)Ev::COUNT,
                                                                 .events_cap = d.max_settings + 2,
                                                                 .handler_cap = 1,
                                                                 .delay_between_ticks = false});
        d.attach_event_system(d.es.get());
        d.es->attach(Ev::POLL, &d);
        d.es->attach(Ev::EXPIRE, &d);
        d.stream = std::make_unique<BufferedStream>(
            d.line,
            BufferedStream::Config{.input_buffer_size = d.capacity, .output_buffer_size = 8, .delimiters = delimiter});
        d.text = std::make_unique<StaticString>(max + 1 + stock);
    }
    SIM_CHECK(d.text->capacity() >= max + 1 && d.text->size() == d.text->capacity(), "text:strip",
              "a string of %zu has a capacity of %zu", max + 1 + stock, d.text->capacity());
    if (!strcmp(property(), "C06")) {
        on_heap_exhausted([](size_t k) { violate("heap", "%zu bytes were requested from an exhausted heap", k); });
        exhaust_heap(d.starving = true);
    }
    {
        Sut s;
        d.es->schedule(Ev::POLL, k_time_ms(1));
    }
    auto loop = [&] {
        i64 start = now_ms();
        {
            Sut s;
            d.es->loop();
        }
        for (auto& s : d.settings)
            SIM_CHECK(s.due_hi > start, "text:duration", "setting %u is kept %ld ms too long", s.id,
                      (long)(start - s.due_hi));
        SIM_CHECK(thrown().empty(), "text:error", "an error was raised: %s", thrown().front().what.c_str());
    };
    auto send = [&] {
        std::string s = draw_line(d, max);
        d.sent.push_back(s);
        d.line->in_flight += s + d.delimiter;
    };
    while (step()) {
        switch (pick({40, 30, 4, 6})) {
        case 0:
            for (u64 n = 1 + draw(4); n > 0; --n)
                send();
            d.line->arrive(1 + draw(80));
            advance_ms(d.poll_ms + 1);
            loop();
            break;
        case 1:
            d.line->arrive(1 + draw(30));
            advance_us((i64)draw(500000));
            loop();
            break;
        case 2:
            advance_us((i64)draw(one_of<u64>({1000000, 1000000000, 100000000000ull})));
            fault("stall");
            loop();
            break;
        case 3: // around the moment at which a setting expires
            if (!d.settings.empty()) {
                i64 us = (d.settings[draw(d.settings.size())].due - now_ms()) * 1000
                         + one_of<i64>({0, -1000, 1000, -1, 999});
                if (us > 0 && us < 10000000000000ll) advance_us(us);
            }
            loop();
            break;
        }
        state(d.sent.size() * 64 + d.settings.size() * 8 + std::min<u64>(d.understood, 7));
    }
    if (d.understood) nontrivial();

    // the faults stop: all that was sent has to be understood
    set_preemption(0, 0);
    d.p_slow = 0, d.line->p_fail = 0, d.line->p_arrive = 0;
    d.line->arrive(d.line->in_flight.size());
    size_t polls = 0, most = d.sent.size() * 4 + d.line->arrived.size() + 10;
    while (!d.sent.empty()) {
        SIM_CHECK(++polls < most, "text:line", "%zu lines are never taken", d.sent.size());
        advance_ms(d.poll_ms + 1);
        loop();
    }
    exhaust_heap(false);
    {
        Sut s;
        d.stream.reset();
        d.es.reset();
        d.text.reset();
    }
    SIM_CHECK(live_allocations() == 0, "leak", "%zu allocations were not freed", live_allocations());
}

} // namespace

SIM_SCENARIO(commands) { run_commands(); }
