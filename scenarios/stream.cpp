// Scenario: a buffered stream and its transactions on top of a wire that delays, chunks, refuses and fails.
// Decides C07 (input), C08 (output), C09 (transactions), and C06 (no heap) for streams.
#include "sim.hpp"

#include "spine/core/logging.hpp"
#include "spine/io/stream/buffered_stream.hpp"

#include <algorithm>
#include <deque>
#include <memory>
#include <optional>
#include <string>

using namespace sim;
using spn::io::BufferedStream;
using spn::io::Transaction;

namespace {

using Bytes = std::deque<char>;

std::string show(const std::string& s) {
    std::string o;
    for (char c : s) {
        char b[8];
        if (c >= 32 && c < 127) o += c;
        else {
            snprintf(b, sizeof(b), "\\x%02x", (unsigned char)c);
            o += b;
        }
    }
    return o;
}
std::string show(const Bytes& s) { return show(std::string(s.begin(), s.end())); }

/// The peer's end of the wire
struct Wire : spn::io::Stream {
    Bytes arrived; // may be read now
    Bytes in_flight; // arrives later
    Bytes received; // what was written to the wire, and not yet checked
    size_t credit = 0; // how many bytes may be written now
    u32 p_read_fail = 0, p_write_fail = 0, p_arrive = 0, p_credit = 0, p_short = 0;
    bool read_failed = false, write_failed = false; // since the last reset
    u64 n_read = 0, n_written = 0;

    void arrive(size_t n) {
        while (n-- > 0 && !in_flight.empty()) {
            arrived.push_back(in_flight.front());
            in_flight.pop_front();
        }
    }
    void initialize() override {}
    void flush() override {}
    using spn::io::Stream::read;
    using spn::io::Stream::write;
    size_t available() const override {
        Host h;
        return arrived.size();
    }
    size_t available_for_write() const override {
        Host h;
        return credit;
    }
    bool read(uint8_t& value) override {
        Host h;
        if (p_arrive && chance(p_arrive)) {
            size_t n = 1 + draw(3);
            if (!in_flight.empty()) fault("bytes_arrive_while_pulling");
            arrive(n);
        }
        if (arrived.empty()) {
            read_failed = true;
            return false;
        }
        if (p_read_fail && chance(p_read_fail)) {
            fault("read_failed");
            read_failed = true;
            return false;
        }
        value = (uint8_t)arrived.front();
        arrived.pop_front();
        ++n_read;
        return true;
    }
    size_t read(uint8_t* buffer, size_t length) override {
        Host h;
        size_t n = std::min(length, arrived.size());
        if (n && p_short && chance(p_short)) {
            n = draw(n);
            fault("short_read");
            read_failed = true;
        }
        for (size_t i = 0; i < n; ++i) {
            buffer[i] = (uint8_t)arrived.front();
            arrived.pop_front();
        }
        n_read += n;
        return n;
    }
    bool write(const uint8_t value) override {
        Host h;
        if (credit == 0) {
            write_failed = true;
            return false;
        }
        if (p_write_fail && chance(p_write_fail)) {
            fault("write_failed");
            write_failed = true;
            return false;
        }
        --credit;
        received.push_back((char)value);
        ++n_written;
        if (p_credit && chance(p_credit)) {
            credit += 1 + draw(4);
            fault("peer_drains_while_pushing");
        }
        return true;
    }
    size_t write(const uint8_t* const buffer, size_t length) override {
        Host h;
        size_t n = std::min(length, credit);
        if (n && p_write_fail && chance(p_write_fail)) {
            n = draw(n);
            fault("short_write");
            write_failed = true;
        }
        for (size_t i = 0; i < n; ++i)
            received.push_back((char)buffer[i]);
        credit -= n;
        n_written += n;
        return n;
    }
};

struct World {
    std::shared_ptr<Wire> wire;
    std::unique_ptr<BufferedStream> bs;
    size_t in_cap, out_cap;
    std::string delimiters;
    Bytes in; // model of what is buffered
    Bytes out;
    Bytes sent; // everything that has to arrive on the wire next, in order
    // open transaction
    std::optional<Transaction> tx, ended; // the open one, and one that has ended
    std::string tx_line;
    size_t tx_queued = 0;
    bool tx_flushed = false;
    u64 lines = 0, overlong = 0;
    char serial = 0;

    bool is_delim(char c) const { return delimiters.find(c) != std::string::npos; }
    /// length of the next line including its delimiter, or 0
    size_t model_line() const {
        for (size_t i = 0; i < in.size(); ++i)
            if (is_delim(in[i])) return i + 1;
        return 0;
    }
    std::string model_text() const { return std::string(in.begin(), in.begin() + (model_line() - 1)); }
    void model_consume() {
        size_t n = model_line();
        in.erase(in.begin(), in.begin() + n);
        ++lines;
    }

    void check_input(const char* when) {
        size_t want = model_line(), got;
        bool has;
        size_t used, left;
        {
            Sut s;
            has = bs->has_line();
            got = bs->length_of_next_line();
            used = bs->input_buffer_space_used();
            left = bs->input_buffer_space_left();
        }
        SIM_CHECK(has == (want > 0), "input:presence", "%s: %s while '%s' is buffered", when,
                  has ? "a line is reported" : "no line is reported", show(in).c_str());
        SIM_CHECK(got == want, "input:presence", "%s: length of next line is %zu instead of %zu in '%s'", when, got, want,
                  show(in).c_str());
        SIM_CHECK(used == in.size() && left == in_cap - in.size(), "input:space",
                  "%s: %zu used and %zu left instead of %zu and %zu", when, used, left, in.size(), in_cap - in.size());
        if (tx) check_tx(when);
    }
    void check_output(const char* when) {
        size_t used, left;
        {
            Sut s;
            used = bs->output_buffer_space_used();
            left = bs->output_buffer_space_left();
        }
        SIM_CHECK(used == out.size() && left == out_cap - out.size(), "output:space",
                  "%s: %zu used and %zu left instead of %zu and %zu", when, used, left, out.size(),
                  out_cap - out.size());
    }
    void check_tx(const char* when) {
        std::string got;
        size_t queued, left;
        bool fin;
        {
            Sut s;
            fin = tx->is_finalized();
        }
        SIM_CHECK(!fin, "tx:state", "%s: an open transaction claims to be finalized", when);
        {
            std::string_view v;
            {
                Sut s;
                v = tx->incoming();
                queued = tx->outgoing_space_used();
                left = tx->outgoing_space_left();
            }
            got = std::string(v);
        }
        SIM_CHECK(got == tx_line, "tx:incoming", "%s: the request reads '%s' instead of '%s'", when, show(got).c_str(),
                  show(tx_line).c_str());
        if (!tx_flushed)
            SIM_CHECK(queued == tx_queued, "tx:queued", "%s: %zu bytes are reported as queued instead of %zu", when,
                      queued, tx_queued);
        SIM_CHECK(left == out_cap - out.size(), "tx:space", "%s: %zu bytes are reported as left instead of %zu", when,
                  left, out_cap - out.size());
    }

    // ---- input
    void op_send() {
        // the peer sends something
        std::string s;
        size_t n = 0;
        switch (pick({6, 2, 2, 1})) {
        case 0: n = draw(std::min<size_t>(in_cap + 1, 12)); break; // a short line
        case 1: n = in_cap > 2 ? in_cap - 2 + draw(4) : draw(4); break; // around the capacity
        case 2: n = in_cap + (in_cap > 10000 ? draw(4) : draw(2 * in_cap + 2)); break; // too long
        case 3: n = 0; break;
        }
        for (size_t i = 0; i < n; ++i) {
            char c = (char)('a' + (serial++ % 26));
            if (n < 3000 && chance(20)) c = (char)draw(256); // any byte, also a delimiter or a zero
            s += c;
        }
        if (!chance(150)) {
            if (delimiters == "\r\n" && flip()) s += "\r\n";
            else
                s += delimiters[draw(delimiters.size())];
        } else
            probe("line_sent_in_parts");
        if (n >= in_cap) ++overlong;
        log("peer sends '%s'", show(s).c_str());
        for (char c : s)
            wire->in_flight.push_back(c);
    }
    void op_arrive() {
        size_t n = flip() ? 1 + draw(4) : (flip() ? wire->in_flight.size() : draw(wire->in_flight.size() + 1));
        wire->arrive(n);
    }
    void op_pull() {
        Bytes before = wire->arrived;
        Bytes flight = wire->in_flight;
        wire->read_failed = false;
        u64 n0 = wire->n_read;
        bool line_before = model_line() > 0 && in.size() == in_cap;
        size_t got;
        {
            Sut s;
            got = bs->pull_in_data();
        }
        size_t taken = (size_t)(wire->n_read - n0);
        for (char c : flight)
            before.push_back(c);
        log("pull -> %zu (taken %zu, failed %d)", got, taken, (int)wire->read_failed);
        SIM_CHECK(got == taken, "input:count", "pulling in data reports %zu bytes, but %zu were taken", got, taken);
        SIM_CHECK(!(line_before && taken > 0), "input:overwritten",
                  "%zu bytes were taken although the buffer is full and a line is waiting", taken);
        size_t waiting = (size_t)std::count_if(in.begin(), in.end(), [&](char c) { return is_delim(c); });
        for (size_t i = 0; i < taken; ++i) {
            waiting += is_delim(before[i]);
            if (in.size() == in_cap) {
                SIM_CHECK(waiting == is_delim(before[i]), "input:overwritten", "byte %zu overwrote a line that was waiting", i);
                in.pop_front();
                if (!i) probe("overlong_line_continues");
            }
            in.push_back(before[i]);
        }
        if (!wire->arrived.empty() && !wire->read_failed) {
            SIM_CHECK(in.size() == in_cap && model_line() > 0, "input:stuck",
                      "%zu bytes were left with the peer although %zu of %zu bytes are free and %s line is waiting",
                      wire->arrived.size(), in_cap - in.size(), in_cap, model_line() ? "a" : "no");
            probe("pull_stopped_for_waiting_line");
        }
        check_input("after pulling");
    }
    void op_consume() {
        if (tx) return;
        size_t len = model_line();
        std::string want = len ? model_text() : "";
        bool discovered = flip();
        size_t disc = 0;
        if (discovered) {
            Sut s;
            disc = bs->length_of_next_line();
        }
        std::optional<size_t> arg = discovered && len ? std::optional<size_t>(disc) : std::nullopt;
        switch (draw(3)) {
        case 0: { // view, then drop
            std::string_view v;
            bool present;
            std::string got;
            {
                std::optional<std::string_view> o;
                {
                    Sut s;
                    o = bs->get_next_line_view(arg);
                }
                present = o.has_value();
                if (present) {
                    v = *o;
                    got = std::string(v);
                }
            }
            SIM_CHECK(present == (len > 0), "input:presence", "a view of the next line is %s while '%s' is buffered",
                      present ? "there" : "missing", show(in).c_str());
            log("view -> '%s'", show(got).c_str());
            if (!present) return;
            SIM_CHECK(got == want, "input:altered", "a line reads '%s' instead of '%s'", show(got).c_str(),
                      show(want).c_str());
            check_input("after viewing");
            if (flip()) {
                op_pull(); // whatever arrives meanwhile
                SIM_CHECK(std::string(v) == want, "input:altered", "a viewed line turned into '%s' instead of '%s'",
                          show(std::string(v)).c_str(), show(want).c_str());
            }
            if (flip()) return; // look again later
            [[fallthrough]];
        }
        case 1: {
            bool ok;
            {
                Sut s;
                ok = bs->drop_next_line(arg);
            }
            log("drop -> %d", (int)ok);
            SIM_CHECK(ok == (len > 0), "input:presence", "dropping a line %s while '%s' is buffered",
                      ok ? "succeeds" : "fails", show(in).c_str());
            if (ok) model_consume();
            break;
        }
        case 2: {
            // the destination has exactly the size that is passed, anything beyond it is out of bounds
            size_t max = flip() ? in_cap : draw(in_cap + 2);
            std::unique_ptr<char[]> buf(new char[max + 1]);
            memset(buf.get(), '#', max + 1);
            size_t n;
            {
                Sut s;
                n = bs->get_next_line(buf.get(), max, arg);
            }
            log("copy (at most %zu) -> %zu", max, n);
            SIM_CHECK(buf[max] == '#', "input:copy", "copying a line wrote beyond the %zu bytes of its destination", max);
            if (len == 0 || len > max) {
                SIM_CHECK(n == 0, "input:copy", "%zu bytes were copied although %s", n,
                          len ? "the line doesn't fit" : "there is no line");
                if (len) probe("line_does_not_fit_destination");
            } else {
                SIM_CHECK(n == want.size() && std::string(buf.get(), n) == want, "input:altered",
                          "a copied line reads '%s' instead of '%s'", show(std::string(buf.get(), n)).c_str(),
                          show(want).c_str());
                SIM_CHECK(buf[n] == '\0', "input:copy", "a copied line is not terminated");
                model_consume();
            }
            break;
        }
        }
        check_input("after consuming");
    }

    // ---- output
    std::string draw_output(size_t max) {
        std::string s;
        size_t n = draw(max + 1);
        for (size_t i = 0; i < n; ++i)
            s += (char)('A' + (serial++ % 26));
        if (n && chance(100)) s[draw(n)] = (char)draw(256);
        return s;
    }
    void op_write() {
        if (tx) return;
        bool rollover = chance(250);
        std::string s = draw_output(flip() ? 6 : out_cap + 4);
        size_t got;
        int how = (int)draw(3);
        if (how == 0) { // single byte
            if (s.empty()) s = "!";
            s.resize(1);
            Sut sut;
            got = rollover ? bs->buffered_write((uint8_t)s[0], true) : bs->buffered_write((uint8_t)s[0]);
        } else if (how == 1) {
            rollover = false;
            Sut sut;
            got = bs->buffered_write(std::string_view(s));
        } else {
            Sut sut;
            got = rollover ? bs->buffered_write(s.data(), s.size(), true) : bs->buffered_write(s.data(), s.size());
        }
        size_t want = rollover ? s.size() : std::min(s.size(), out_cap - out.size());
        log("write '%s' rollover=%d -> %zu", show(s).c_str(), (int)rollover, got);
        SIM_CHECK(got == want, "output:accepted", "%zu of %zu bytes were accepted instead of %zu (%zu free)", got, s.size(),
                  want, out_cap - out.size());
        if (want < s.size()) probe("output_full");
        for (size_t i = 0; i < want; ++i) {
            if (out.size() == out_cap) {
                out.pop_front();
                fault("output_rolled_over");
            }
            out.push_back(s[i]);
        }
        check_output("after writing");
    }
    void op_push() {
        wire->write_failed = false;
        u64 n0 = wire->n_written;
        size_t got;
        {
            Sut s;
            got = bs->push_out_data();
        }
        size_t taken = (size_t)(wire->n_written - n0);
        log("push -> %zu (written %zu, failed %d, credit %zu)", got, taken, (int)wire->write_failed, wire->credit);
        SIM_CHECK(taken <= out.size(), "output:duplicated", "%zu bytes were written, while %zu were buffered", taken,
                  out.size());
        for (size_t i = 0; i < taken; ++i) {
            char c = wire->received.front();
            wire->received.pop_front();
            SIM_CHECK(c == out.front(), "output:order", "byte %zu on the wire is '%s' instead of '%s'", i,
                      show(std::string(1, c)).c_str(), show(std::string(1, out.front())).c_str());
            out.pop_front();
        }
        SIM_CHECK(got == taken, "output:count", "pushing out data reports %zu bytes, but %zu were written", got, taken);
        if (tx && taken) tx_flushed = true;
        if (!wire->write_failed)
            SIM_CHECK(out.empty() || wire->credit == 0, "output:stuck",
                      "%zu bytes remain buffered although the peer accepts %zu", out.size(), wire->credit);
        check_output("after pushing");
        if (tx) check_tx("after pushing");
    }
    void op_drop_output() {
        if (tx) return;
        size_t n = flip() ? draw(out.size() + 3) : draw(4);
        if (n > 255) probe("many_bytes_dropped");
        size_t want = n == 0 ? out.size() : std::min(n, out.size());
        bool last = flip();
        size_t got;
        {
            Sut s;
            got = last ? bs->output_buffer_drop_last(n) : bs->output_buffer_drop_first(n);
        }
        log("drop %s %zu -> %zu", last ? "last" : "first", n, got);
        SIM_CHECK(got == want, "output:dropped", "%zu bytes were dropped instead of %zu", got, want);
        for (size_t i = 0; i < want; ++i)
            if (last) out.pop_back();
            else
                out.pop_front();
        check_output("after dropping");
    }

    // ---- transactions
    void op_begin() {
        if (tx) return;
        size_t len = model_line();
        {
            Sut s;
            auto t = bs->new_transaction();
            if (t) tx.emplace(std::move(*t));
        }
        SIM_CHECK(tx.has_value() == (len > 0), "tx:begin", "a transaction could %s be started while '%s' is buffered",
                  tx ? "" : "not", show(in).c_str());
        if (!tx) return;
        tx_line = model_text();
        tx_queued = 0;
        tx_flushed = false;
        log("transaction begins: '%s'", show(tx_line).c_str());
        check_input("when a transaction begins");
        check_output("when a transaction begins");
    }
    void op_reply() {
        if (!tx) return;
        std::string s = draw_output(flip() ? 6 : out_cap + 4);
        size_t got;
        int how = (int)draw(3);
        if (how == 0) {
            if (s.empty()) s = "?";
            s.resize(1);
            Sut sut;
            got = tx->outgoing(s[0]);
        } else if (how == 1) {
            Sut sut;
            got = tx->outgoing(std::string_view(s));
        } else {
            Sut sut;
            got = tx->outgoing(s.data(), s.size());
        }
        size_t want = std::min(s.size(), out_cap - out.size());
        log("reply '%s' -> %zu", show(s).c_str(), got);
        SIM_CHECK(got == want, "tx:accepted", "%zu of %zu bytes of a reply were accepted instead of %zu", got, s.size(),
                  want);
        if (want < s.size()) probe("reply_does_not_fit");
        for (size_t i = 0; i < want; ++i)
            out.push_back(s[i]);
        tx_queued += want;
        check_output("after replying");
        check_tx("after replying");
    }
    void op_move() {
        if (!tx) return;
        log("transaction is moved");
        if (ended && flip()) {
            // let the one that has ended take over
            bool old_final;
            {
                Sut s;
                *ended = std::move(*tx);
                old_final = tx->is_finalized();
                tx.reset();
                tx.emplace(std::move(*ended));
                ended.reset();
            }
            SIM_CHECK(old_final, "tx:state", "a transaction that was moved from is still open");
            probe("transaction_moved_over_an_ended_one");
        } else if (flip()) {
            bool old_final;
            {
                Sut s;
                Transaction moved(std::move(*tx));
                old_final = tx->is_finalized();
                tx.reset(); // must not finalize
                tx.emplace(std::move(moved));
            } // nor may this
            SIM_CHECK(old_final, "tx:state", "a transaction that was moved from is still open");
        } else {
            // move over a transaction that has ended
            Sut s;
            Transaction moved(std::move(*tx));
            *tx = std::move(moved);
        }
        probe("transaction_moved");
        check_input("after moving a transaction");
        check_output("after moving a transaction");
    }
    void op_end() {
        if (!tx) return;
        int how = (int)draw(4);
        bool fin = true, keep = flip();
        // how much of the reply is still buffered
        size_t buffered = std::min(tx_queued, out.size());
        if (tx_flushed && tx_queued > out.size()) probe("reply_partly_sent_when_it_ended");
        {
            Sut s;
            switch (how) {
            case 0: tx->commit(); break;
            case 1: tx->abort(); break;
            default: break; // out of scope
            }
            if (how < 2) fin = tx->is_finalized();
            if (how < 2 && keep) {
                ended.reset();
                ended.emplace(std::move(*tx));
                fin = fin && ended->is_finalized();
            }
            tx.reset();
        }
        SIM_CHECK(fin, "tx:state", "a transaction is still open after it was %s", how == 0 ? "committed" : "aborted");
        log("transaction ends: %s", how == 0 ? "committed" : how == 1 ? "aborted" : "out of scope");
        if (how == 1)
            for (size_t i = 0; i < buffered; ++i)
                out.pop_back();
        if (how == 1 && buffered > 255) probe("long_reply_aborted");
        if (how == 1 && tx_queued == 0) probe("empty_reply_aborted");
        model_consume();
        check_input("after a transaction");
        check_output("after a transaction");
    }
};

enum Focus { INPUT, OUTPUT, TX };

void run_stream(Focus focus) {
    World w;
    install_handler();
    spn::logging::set_log_level(spn::logging::LogLevel::OFF);
    bool armed = !strcmp(property(), "C06");
    start_clock(0);
    w.delimiters = one_of<const char*>({"\r\n", "\n", ";", "\r\n;|", "\n"});
    if (chance(100)) w.delimiters = std::string("\0", 1);
    w.in_cap = pick({1, 3}) ? 1 + draw(24) : one_of<size_t>({1, 2, 3, 64, 128, 256});
    if (chance(40)) w.in_cap = one_of<size_t>({255, 257, 300, 600});
    w.out_cap = pick({1, 3}) ? 1 + draw(24) : one_of<size_t>({1, 2, 3, 64, 128, 256});
    if (chance(60)) w.out_cap = one_of<size_t>({255, 257, 300, 600});
    const bool huge = chance(6); // there is more to them than 16 bits can count
    if (huge) w.in_cap = one_of<size_t>({65536, 65535, 65540, 70000}), w.out_cap = one_of<size_t>({65536, 65535, 65540, 70000});
    if (huge) probe("huge_buffers");
    w.wire = std::make_shared<Wire>();
    bool faults = !chance(200) && !huge;
    if (faults) {
        w.wire->p_read_fail = one_of<u32>({0, 20, 100, 300});
        w.wire->p_write_fail = one_of<u32>({0, 20, 100, 300});
        w.wire->p_arrive = one_of<u32>({0, 30, 200});
        w.wire->p_credit = one_of<u32>({0, 30, 200});
        w.wire->p_short = one_of<u32>({0, 100});
    }
    u32 w_in = focus == OUTPUT ? 0 : one_of<u32>({3, 6}), w_out = focus == INPUT ? 0 : one_of<u32>({3, 6}),
        w_tx = focus == TX ? 4 : 0, w_consume = focus == INPUT ? one_of<u32>({2, 5}) : focus == TX ? 1 : 0;
    limit_steps((u32)one_of<i64>({10, 20, 40, 80, huge ? 50 : 160}));
    log("in=%zu out=%zu delimiters='%s'", w.in_cap, w.out_cap, show(w.delimiters).c_str());
    {
        Sut s;
        w.bs = std::make_unique<BufferedStream>(
            w.wire, BufferedStream::Config{.input_buffer_size = w.in_cap,
                                           .output_buffer_size = w.out_cap,
                                           .delimiters = std::string_view(w.delimiters)});
    }
    if (armed) {
        on_heap_exhausted([](size_t n) { violate("heap", "%zu bytes were requested from an exhausted heap", n); });
        exhaust_heap(true);
    }
    while (step()) {
        switch (pick({1, w_in, w_in, w_in + w_in / 2, w_consume, w_out / 2, w_out / 2, w_out / 3, w_out ? 1u : 0u, w_tx, w_tx, w_tx / 2,
                      w_tx / 2})) {
        case 0: advance_ms(1); break;
        case 1: w.op_send(); break;
        case 2: w.op_arrive(); break;
        case 3: w.op_pull(); break;
        case 4: w.op_consume(); break;
        case 5: w.op_write(); break;
        case 6: w.op_push(); break;
        case 7: w.wire->credit += 1 + draw(huge && chance(700) ? 70000 : flip() ? 4 : 40); break;
        case 8: w.op_drop_output(); break;
        case 9: w.op_begin(); break;
        case 10: w.op_reply(); break;
        case 11: w.op_move(); break;
        case 12: w.op_end(); break;
        }
        auto bucket = [](size_t v, size_t cap) -> u64 { return v == 0 ? 0 : v == cap ? 3 : v * 2 < cap ? 1 : 2; };
        state((((bucket(w.in.size(), w.in_cap) * 4 + bucket(w.out.size(), w.out_cap)) * 4 + (w.model_line() > 0) * 2
                + w.tx.has_value())
                   * 4
               + bucket(w.tx_queued, w.out_cap))
                  * 32
              + std::min<u64>(w.in_cap, 7) * 4 + std::min<u64>(w.lines, 3));
    }
    // no more faults: everything has to come through
    w.wire->p_read_fail = w.wire->p_write_fail = w.wire->p_arrive = w.wire->p_credit = w.wire->p_short = 0;
    if (w.tx) w.op_end();
    if (focus != OUTPUT) {
        w.wire->arrive(w.wire->in_flight.size());
        for (int i = 0; i < 100000 && (!w.wire->arrived.empty() || w.model_line()); ++i) {
            w.op_pull();
            while (w.model_line()) {
                size_t before = w.in.size();
                if (focus == TX) {
                    w.op_begin();
                    w.op_end();
                } else
                    w.op_consume();
                if (w.in.size() == before && !flip()) break;
            }
        }
        SIM_CHECK(w.wire->arrived.empty(), "input:stuck", "%zu bytes never came in", w.wire->arrived.size());
    }
    if (focus != INPUT) {
        for (int i = 0; i < 1000 && !w.out.empty(); ++i) {
            w.wire->credit += huge ? 70000 : 1 + draw(20);
            w.op_push();
        }
        SIM_CHECK(w.out.empty(), "output:stuck", "%zu bytes were never sent", w.out.size());
        SIM_CHECK(w.wire->received.empty(), "output:duplicated", "%zu more bytes were sent than were ever accepted",
                  w.wire->received.size());
    }
    if (focus == INPUT ? w.lines > 0 : focus == OUTPUT ? w.wire->n_written > 0 : w.lines > 0) nontrivial();
    if (w.overlong) probe("overlong_line_sent");
    exhaust_heap(false);
    {
        Sut s;
        w.ended.reset();
        w.bs.reset();
    }
    SIM_CHECK(live_allocations() == 0, "leak", "%zu allocations were not released", live_allocations());
}

} // namespace

SIM_SCENARIO(input) { run_stream(INPUT); }
SIM_SCENARIO(output) { run_stream(OUTPUT); }
SIM_SCENARIO(tx) { run_stream(TX); }
