From f4b61f6ae1953634cf785229f83440f259905c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:23 +0000
Subject: [PATCH 01/63] fix: convert integral units with integer arithmetic

Converting through a float loses precision beyond 2^24, so with more than
4.6 hours of uptime timers and scheduled events fired early or late.
---
 src/spine/structure/units/primitives/unit.hpp | 32 +++++++++++++++++--
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/spine/structure/units/primitives/unit.hpp b/src/spine/structure/units/primitives/unit.hpp
index 04ae1f7..84fd2df 100644
--- a/src/spine/structure/units/primitives/unit.hpp
+++ b/src/spine/structure/units/primitives/unit.hpp
@@ -4,6 +4,7 @@
 
 #include <cmath>
 #include <cstdint>
+#include <numeric>
 #include <type_traits>
 
 namespace spn::structure::units {
@@ -137,9 +138,34 @@ private:
 
     template<typename MOther>
     ValueType from_other(const Unit<UT, MOther, VT>& other) const {
-        constexpr float ratio = MOther::Magnitude / MT::Magnitude;
-        if constexpr (is_integral()) return std::round(ratio * other.raw());
-        return ratio * other.raw();
+        if constexpr (is_integral()) {
+            // A float cannot represent every integer, so integral values are converted using integers only.
+            constexpr intmax_t num = multiple_of_base(MOther::Magnitude) * fraction_of_base(MT::Magnitude);
+            constexpr intmax_t den = multiple_of_base(MT::Magnitude) * fraction_of_base(MOther::Magnitude);
+            constexpr intmax_t divisor = std::gcd(num, den);
+            return divide_rounded(other.raw() * (num / divisor), den / divisor);
+        } else {
+            constexpr float ratio = MOther::Magnitude / MT::Magnitude;
+            return ratio * other.raw();
+        }
+    }
+
+    /// How many times the base unit fits in `magnitude`, or 1 when `magnitude` is smaller than the base unit
+    static constexpr intmax_t multiple_of_base(double magnitude) {
+        return magnitude < 1.0 ? 1 : static_cast<intmax_t>(magnitude + 0.5);
+    }
+
+    /// How many times `magnitude` fits in the base unit, or 1 when `magnitude` is larger than the base unit
+    static constexpr intmax_t fraction_of_base(double magnitude) {
+        return magnitude < 1.0 ? static_cast<intmax_t>(1.0 / magnitude + 0.5) : 1;
+    }
+
+    /// Integer division rounded to the nearest integer (halfway cases are rounded away from zero)
+    static constexpr intmax_t divide_rounded(intmax_t value, intmax_t divisor) {
+        const auto remainder = value % divisor;
+        const auto distance = remainder < 0 ? -remainder : remainder;
+        if (distance < divisor - distance) return value / divisor;
+        return value / divisor + (value < 0 ? -1 : 1);
     }
 };
 
-- 
2.43.0


From cc1e818ad53005d051aa5574d8ff84982a634b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:31 +0000
Subject: [PATCH 02/63] fix: let delays advance the mock clock by the requested
 time

The mock's micros were scaled by 1000 and then converted once more to
milliseconds, and the other way around.
---
 src/spine/platform/implementations/mock.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/spine/platform/implementations/mock.hpp b/src/spine/platform/implementations/mock.hpp
index fd890e9..41e6a28 100644
--- a/src/spine/platform/implementations/mock.hpp
+++ b/src/spine/platform/implementations/mock.hpp
@@ -217,8 +217,14 @@ struct Mock : Platform<Mock, MockConfig, MockGPIO, MockAnalogue, MockUART> {
 
     static void printflush() {}
 
-    static k_time_ms millis() { return k_time_ms(MockStateInstance().millis + MockStateInstance().micros / 1000); }
-    static k_time_us micros() { return k_time_us(MockStateInstance().micros + MockStateInstance().millis * 1000); }
+    static k_time_ms millis() {
+        const auto& state = MockStateInstance();
+        return k_time_ms(state.millis.raw() + state.micros.raw() / 1000);
+    }
+    static k_time_us micros() {
+        const auto& state = MockStateInstance();
+        return state.micros + state.millis;
+    }
     static void delay_us(k_time_us us) { MockStateInstance().micros += us; }
     static void delay_ms(k_time_ms ms) { MockStateInstance().millis += ms; }
 
-- 
2.43.0


From 444f3c3fda8642100247bae67b5a2fc8b4223120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:59 +0000
Subject: [PATCH 03/63] fix: release all events on teardown

The teardown loops of the pool and the event system compared a growing index
with a shrinking size and stopped half way, and the pipeline never released
the futures it still held.
---
 src/spine/eventsystem/eventsystem.cpp | 2 +-
 src/spine/eventsystem/pipeline.cpp    | 5 +++++
 src/spine/eventsystem/pipeline.hpp    | 1 +
 src/spine/structure/pool.hpp          | 2 +-
 4 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/spine/eventsystem/eventsystem.cpp b/src/spine/eventsystem/eventsystem.cpp
index 4c6337c..1d92e65 100644
--- a/src/spine/eventsystem/eventsystem.cpp
+++ b/src/spine/eventsystem/eventsystem.cpp
@@ -48,7 +48,7 @@ EventSystem::~EventSystem() {
     for (size_t i = 0; i < _map.size(); i++) {
         _map[i].reset();
     }
-    for (size_t i = 0; i < _store.size(); ++i) {
+    while (_store.size() > 0) {
         auto ev = _store.depopulate();
         ev.reset();
     }
diff --git a/src/spine/eventsystem/pipeline.cpp b/src/spine/eventsystem/pipeline.cpp
index 6447275..52d07e1 100644
--- a/src/spine/eventsystem/pipeline.cpp
+++ b/src/spine/eventsystem/pipeline.cpp
@@ -12,6 +12,11 @@ void Future::reschedule(k_time_ms time_from_now) {
     _timer = AlarmTimer(_time_from_now);
 }
 
+Pipeline::~Pipeline() {
+    while (!_pipe.empty())
+        _pipe.pop_front().reset();
+}
+
 std::string Pipeline::to_string() const {
     auto pipeline_repr = [&](std::string* s, bool length_only) -> size_t {
         size_t len = 0;
diff --git a/src/spine/eventsystem/pipeline.hpp b/src/spine/eventsystem/pipeline.hpp
index 83db01e..34ee4fe 100644
--- a/src/spine/eventsystem/pipeline.hpp
+++ b/src/spine/eventsystem/pipeline.hpp
@@ -50,6 +50,7 @@ public:
     using Pipe = spn::structure::Vector<std::shared_ptr<Future>>;
 
     Pipeline(size_t events_cap = 128) : _pipe(Pipe(events_cap)) {}
+    ~Pipeline();
 
     /// Push a new future in the pipeline (inserting it in chronological order)
     void push(std::shared_ptr<Future>&& future);
diff --git a/src/spine/structure/pool.hpp b/src/spine/structure/pool.hpp
index 38068ba..52c18bf 100644
--- a/src/spine/structure/pool.hpp
+++ b/src/spine/structure/pool.hpp
@@ -16,7 +16,7 @@ protected:
 public:
     Pool(size_t size) : _pointers(Vector<Pointer>(size)) {}
     ~Pool() {
-        for (size_t i = 0; i < _pointers.size(); ++i)
+        while (!_pointers.empty())
             depopulate().reset();
         spn_assert(_pointers.empty());
     }
-- 
2.43.0


From 2e59da39b8c357da2f6fa79746bf17d7dc35da78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:01 +0000
Subject: [PATCH 04/63] fix: don't dereference a missing event when the store
 is exhausted

event() returns a nullptr when all events are in use; triggering or scheduling
by id passed that nullptr on and crashed.
---
 src/spine/eventsystem/eventsystem.cpp | 3 ++-
 src/spine/eventsystem/pipeline.cpp    | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/spine/eventsystem/eventsystem.cpp b/src/spine/eventsystem/eventsystem.cpp
index 1d92e65..2f94804 100644
--- a/src/spine/eventsystem/eventsystem.cpp
+++ b/src/spine/eventsystem/eventsystem.cpp
@@ -56,7 +56,8 @@ EventSystem::~EventSystem() {
 }
 
 void EventSystem::trigger(const std::shared_ptr<Event>& event) {
-    spn_assert(event);
+    spn_assert(event); // catch gracefully, the store of events may be exhausted
+    if (!event) return;
     trigger(*event.get());
 }
 
diff --git a/src/spine/eventsystem/pipeline.cpp b/src/spine/eventsystem/pipeline.cpp
index 52d07e1..5ede5ab 100644
--- a/src/spine/eventsystem/pipeline.cpp
+++ b/src/spine/eventsystem/pipeline.cpp
@@ -72,6 +72,8 @@ std::shared_ptr<Future> Pipeline::expire() {
 }
 
 void Pipeline::push(std::shared_ptr<Future>&& future) {
+    spn_assert(future); // catch gracefully, the store of events may be exhausted
+    if (!future) return;
     spn_assert(_pipe.size() < _pipe.max_size());
     future->reschedule();
 
-- 
2.43.0


From 3923d5900c74cfe485c43a370e72f9cd2c8d9de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:04 +0000
Subject: [PATCH 05/63] fix: compare the maximal delay between ticks in
 milliseconds

Its raw value is in microseconds, so the loop slept up to 1000 times longer
than configured.
---
 src/spine/eventsystem/eventsystem.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spine/eventsystem/eventsystem.cpp b/src/spine/eventsystem/eventsystem.cpp
index 2f94804..1af004d 100644
--- a/src/spine/eventsystem/eventsystem.cpp
+++ b/src/spine/eventsystem/eventsystem.cpp
@@ -82,7 +82,8 @@ void EventSystem::loop() {
 
     if (_cfg.delay_between_ticks) {
         if (_pipeline.contains_futures())
-            HAL::delay_ms(std::min(_pipeline.time_until_next_future().raw(), _cfg.max_delay_between_ticks.raw()));
+            HAL::delay_ms(std::min(_pipeline.time_until_next_future().raw(),
+                                   k_time_ms(_cfg.max_delay_between_ticks).raw()));
         else
             HAL::delay(_cfg.min_delay_between_ticks);
     }
-- 
2.43.0


From bf8770364934790f49b86d16cdfefc7e32f16faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:32 +0000
Subject: [PATCH 06/63] fix: order futures by their absolute moment

Comparing the time left of two futures reads the clock twice; when it advances
in between, a future can end up behind one that is due later.
---
 src/spine/eventsystem/pipeline.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/eventsystem/pipeline.cpp b/src/spine/eventsystem/pipeline.cpp
index 5ede5ab..491eca4 100644
--- a/src/spine/eventsystem/pipeline.cpp
+++ b/src/spine/eventsystem/pipeline.cpp
@@ -79,7 +79,7 @@ void Pipeline::push(std::shared_ptr<Future>&& future) {
 
     size_t i = 0;
     for (auto& other_future : _pipe) {
-        if (future->time_until_future() < other_future->time_until_future()) {
+        if (future->future() < other_future->future()) {
             [[maybe_unused]] auto last_size = _pipe.size();
             _pipe.insert(i, std::move(future));
             spn_assert(last_size + 1 == _pipe.size());
-- 
2.43.0


From b33ace824e09e09df5390837d234aa778a810683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:40 +0000
Subject: [PATCH 07/63] fix: return a valid view of a line that wraps around in
 the buffer

The view started at the right element but continued past the end of the
buffer instead of at its start.
---
 src/spine/structure/linebuffer.cpp |  1 +
 src/spine/structure/ringbuffer.hpp | 12 ++++++++++++
 2 files changed, 13 insertions(+)

diff --git a/src/spine/structure/linebuffer.cpp b/src/spine/structure/linebuffer.cpp
index 960d3a7..e4c9950 100644
--- a/src/spine/structure/linebuffer.cpp
+++ b/src/spine/structure/linebuffer.cpp
@@ -13,6 +13,7 @@ std::optional<std::string_view> LineBuffer::get_next_line_view(const std::option
     auto length = discovered_length.value_or(length_of_next_line());
     if (length == 0) return {};
     length -= 1; // ignore delimiter
+    make_contiguous(length); // a view cannot wrap around
     char* str;
     if (peek_at(&str, 0) == false) return std::nullopt;
     return std::string_view(str, length);
diff --git a/src/spine/structure/ringbuffer.hpp b/src/spine/structure/ringbuffer.hpp
index 81472bc..0be9395 100644
--- a/src/spine/structure/ringbuffer.hpp
+++ b/src/spine/structure/ringbuffer.hpp
@@ -67,6 +67,9 @@ protected:
     /// Pull the writing head backwards by `n`, effectively dropping `n` last inserted  elements
     void retract_head(size_t n) { m_head = (m_head + m_buffer.size() - (n % m_buffer.size())) % m_buffer.size(); }
 
+    /// Rearrange memory such that the first `length` elements are stored contiguously
+    void make_contiguous(size_t length);
+
 private:
     Array<T> m_buffer;
     size_t m_head{0};
@@ -168,6 +171,15 @@ size_t RingBuffer<T>::drop_first(size_t n) {
     return n;
 }
 
+template<typename T>
+void RingBuffer<T>::make_contiguous(size_t length) {
+    if (m_tail + length <= m_buffer.size()) return; // doesn't wrap around
+    const auto used = used_space();
+    std::rotate(m_buffer.data(), m_buffer.data() + m_tail, m_buffer.data() + m_buffer.size());
+    m_tail = 0;
+    m_head = used % m_buffer.size();
+}
+
 template<typename T>
 size_t RingBuffer<T>::used_space() const {
     if (full()) return capacity();
-- 
2.43.0


From ebe830d2e373df35071eb4a34aa41a9270daa277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:09 +0000
Subject: [PATCH 08/63] fix: don't overwrite a waiting line when pulling in
 data again

After a line longer than the input buffer, the next pull overwrote the lines
that were still waiting in the full buffer.
---
 src/spine/io/stream/buffered_stream.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/spine/io/stream/buffered_stream.cpp b/src/spine/io/stream/buffered_stream.cpp
index 8606fcd..b1380e9 100644
--- a/src/spine/io/stream/buffered_stream.cpp
+++ b/src/spine/io/stream/buffered_stream.cpp
@@ -27,6 +27,9 @@ size_t BufferedStream::pull_in_data() {
     size_t bytes_read = 0;
     uint8_t last_char = '\0';
 
+    // a line that is still waiting to be taken may not be overwritten
+    if (_input_buffer.full() && _input_buffer.has_line()) return 0;
+
     while (_stream->available() > 0) {
         // early break when a delimiter has been found, as to lose no input if possible
         if (_input_buffer.full()) {
-- 
2.43.0


From 87cabae86a45e2770769d16deaf65236c349a41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:11 +0000
Subject: [PATCH 09/63] fix: keep a byte in the output buffer when writing it
 fails

---
 src/spine/io/stream/buffered_stream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spine/io/stream/buffered_stream.cpp b/src/spine/io/stream/buffered_stream.cpp
index b1380e9..aeb9a61 100644
--- a/src/spine/io/stream/buffered_stream.cpp
+++ b/src/spine/io/stream/buffered_stream.cpp
@@ -53,7 +53,8 @@ size_t BufferedStream::push_out_data() {
 
     while (_stream->available_for_write() > 0) {
         char v;
-        if (!_output_buffer.pop(v) || !_stream->write(v)) return bytes_written;
+        if (!_output_buffer.peek_at(v, 0) || !_stream->write(v)) return bytes_written;
+        _output_buffer.pop(); // only now it is certain that the byte was written
         ++bytes_written;
     }
     return bytes_written;
-- 
2.43.0


From b79a6cd5f55aef268d62569646e7037285715fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:12 +0000
Subject: [PATCH 10/63] fix: don't touch the output buffer when aborting an
 empty reply

Dropping zero bytes from a full output buffer marked it as empty, losing all
replies that were committed before.
---
 src/spine/io/stream/transaction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/io/stream/transaction.cpp b/src/spine/io/stream/transaction.cpp
index 605ee0a..afba9e4 100644
--- a/src/spine/io/stream/transaction.cpp
+++ b/src/spine/io/stream/transaction.cpp
@@ -56,7 +56,7 @@ void Transaction::finalize() {
 bool Transaction::is_finalized() const { return _is_finalized; }
 void Transaction::undo(size_t n_bytes) const {
     n_bytes = n_bytes > 0 ? std::min(n_bytes, _outgoing_queued_bytes) : _outgoing_queued_bytes;
-    _stream->output_buffer_drop_last(n_bytes);
+    if (n_bytes > 0) _stream->output_buffer_drop_last(n_bytes);
 }
 
 } // namespace spn::io
-- 
2.43.0


From a01ede0ff8e245135b476136b5e915b367cd3b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:22 +0000
Subject: [PATCH 11/63] fix: don't let the overrun of a ringbuffer underflow
 when dropping elements

---
 src/spine/structure/ringbuffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/structure/ringbuffer.hpp b/src/spine/structure/ringbuffer.hpp
index 0be9395..c305fa5 100644
--- a/src/spine/structure/ringbuffer.hpp
+++ b/src/spine/structure/ringbuffer.hpp
@@ -157,7 +157,7 @@ size_t RingBuffer<T>::drop_last(size_t n) {
     retract_head(n);
 
     m_is_full = false;
-    m_overwritten = std::max(static_cast<size_t>(0), m_overwritten - n);
+    m_overwritten -= std::min(m_overwritten, n);
     return n;
 }
 
-- 
2.43.0


From c3fb1ff1fb01e2f11123ac35aaca79fc25e669f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:18 +0000
Subject: [PATCH 12/63] fix: drop all elements of a ringbuffer when asked to
 drop zero

As documented. Instead nothing was dropped, or everything while reporting that
nothing was dropped if the ringbuffer was full.
---
 src/spine/structure/ringbuffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spine/structure/ringbuffer.hpp b/src/spine/structure/ringbuffer.hpp
index c305fa5..a3a3134 100644
--- a/src/spine/structure/ringbuffer.hpp
+++ b/src/spine/structure/ringbuffer.hpp
@@ -153,7 +153,7 @@ bool RingBuffer<T>::peek_at(T** ptr, size_t index) {
 
 template<typename T>
 size_t RingBuffer<T>::drop_last(size_t n) {
-    n = std::min(used_space(), n);
+    n = n > 0 ? std::min(used_space(), n) : used_space();
     retract_head(n);
 
     m_is_full = false;
@@ -163,7 +163,7 @@ size_t RingBuffer<T>::drop_last(size_t n) {
 
 template<typename T>
 size_t RingBuffer<T>::drop_first(size_t n) {
-    n = std::min(used_space(), n);
+    n = n > 0 ? std::min(used_space(), n) : used_space();
     advance_tail(n);
 
     m_is_full = false;
-- 
2.43.0


From e88bb7da9e71b96f78633e6e01aff989aa0a4895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:20 +0000
Subject: [PATCH 13/63] fix: enforce the maximal on and off time of a latch
 under steady readings

Every reading beyond a threshold restarted the timer, also if it didn't change
the state, so that the maximal time was never reached.
---
 src/spine/controller/sr_latch.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spine/controller/sr_latch.hpp b/src/spine/controller/sr_latch.hpp
index 1e6f2c1..e426ff3 100644
--- a/src/spine/controller/sr_latch.hpp
+++ b/src/spine/controller/sr_latch.hpp
@@ -35,6 +35,7 @@ public:
 
 protected:
     void set(const State state) {
+        if (_value == state) return; // keep track of how long the latch has been in this state
         _value = state;
         _last_turned.reset();
     }
-- 
2.43.0


From a08016282be241b42b0485544116730a375b6813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:22 +0000
Subject: [PATCH 14/63] fix: respect the configured proportionality of a PID

---
 src/spine/controller/pid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/controller/pid.cpp b/src/spine/controller/pid.cpp
index 3b4334b..0d145bb 100644
--- a/src/spine/controller/pid.cpp
+++ b/src/spine/controller/pid.cpp
@@ -5,7 +5,7 @@ namespace spn::controller {
 PID::PID(PID::Config&& cfg)
     : _cfg(cfg),
       _pid_backend(PIDController(&_input, &_output, &_setpoint, _cfg.tunings.Kp, _cfg.tunings.Ki, _cfg.tunings.Kd,
-                                 PIDController::Proportionality::ON_MEASUREMENT, _cfg.direction)) {
+                                 _cfg.proportionality, _cfg.direction)) {
     spn_assert(k_time_ms(_cfg.sample_interval).raw() > 0);
 }
 
-- 
2.43.0


From 3e46adb8dba4e715a0b2b1c809da3c3ca9ab3721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:24 +0000
Subject: [PATCH 15/63] fix: scale PID gains by the real ratio of sampling
 times

The integer division zeroed the integral gain and made the derivative gain
infinite for sampling times below 100 ms.
---
 src/spine/controller/implementations/pid/pid_controller.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/controller/implementations/pid/pid_controller.cpp b/src/spine/controller/implementations/pid/pid_controller.cpp
index 6737297..eebd9e5 100644
--- a/src/spine/controller/implementations/pid/pid_controller.cpp
+++ b/src/spine/controller/implementations/pid/pid_controller.cpp
@@ -111,7 +111,7 @@ void PIDController::set_controller_direction(const PIDController::Direction dire
 void PIDController::set_sampling_time(const k_time_ms sampling_time) {
     // adjust sample
     if (sampling_time > k_time_ms(0)) {
-        float ratio = sampling_time.raw() / _sampling_time.raw();
+        const float ratio = sampling_time.raw<float>() / _sampling_time.raw<float>();
         _ki *= ratio;
         _kd /= ratio;
         _sampling_time = sampling_time;
-- 
2.43.0


From 8060c656a6320129a98458dd69ee81b9530f07a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:05 +0000
Subject: [PATCH 16/63] fix: end a fade on the setpoint

When the distance is no multiple of the increment, or by floating point
errors, the output stopped short of the setpoint or overshot it while the
setpoint was reported.
---
 src/spine/platform/gpio.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/spine/platform/gpio.cpp b/src/spine/platform/gpio.cpp
index 42ba896..9e568ad 100644
--- a/src/spine/platform/gpio.cpp
+++ b/src/spine/platform/gpio.cpp
@@ -10,18 +10,17 @@ void fade_to(void (*set_value)(void*, float), void* imp, float value, float setp
              k_time_ms increment_interval) {
     spn_assert(setpoint >= 0.0f && setpoint <= 1.0f);
 
-    const float decimals_of_diff = 1.0f / increment;
-    float diff = std::round(std::fabs(value - setpoint) * decimals_of_diff) / decimals_of_diff;
+    const float diff = std::fabs(value - setpoint);
 
     if (diff < increment) {
         set_value(imp, setpoint);
         return;
     }
     const auto invert = value > setpoint ? -1 : 1;
-    while (diff > 0) {
-        value = std::clamp(value + invert * increment, 0.0f, 1.0f);
-        set_value(imp, value);
-        diff -= increment;
+    const auto steps = static_cast<int>(std::ceil(diff / increment - 0.001f)); // forgive floating point errors
+    for (int step = 1; step <= steps; ++step) {
+        const float next = std::clamp(value + invert * increment * step, 0.0f, 1.0f);
+        set_value(imp, step < steps ? next : setpoint); // land on the setpoint exactly
         HAL::delay(increment_interval);
     }
 }
-- 
2.43.0


From d1d4762fae933d6ced7130176820e1c4e9eba063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:05 +0000
Subject: [PATCH 17/63] fix: don't write past the log buffer after a truncated
 message

For debug messages the remaining space underflowed when the message alone
filled the buffer.
---
 src/spine/core/logging.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/spine/core/logging.cpp b/src/spine/core/logging.cpp
index 9413373..a300d1a 100644
--- a/src/spine/core/logging.cpp
+++ b/src/spine/core/logging.cpp
@@ -2,6 +2,7 @@
 
 #include "spine/platform/hal.hpp"
 
+#include <algorithm>
 #include <cinttypes>
 
 namespace spn::logging {
@@ -42,12 +43,14 @@ void print(const LogLevel level, const char* filename, const int line_number, co
 
 #ifndef SPN_LOG_OVERLOAD
     space_used += snprintf(msg_buffer, sizeof(msg_buffer), "[%s] [%s] ", get_current_time(), to_string(level));
+    space_used = std::min(space_used, sizeof(msg_buffer) - 1);
 #endif
 
     va_list args;
     va_start(args, fmt);
     space_used += vsnprintf(msg_buffer + space_used, sizeof(msg_buffer) - space_used, fmt, args);
     va_end(args);
+    space_used = std::min(space_used, sizeof(msg_buffer) - 1); // the message may have been truncated
 
     if (level == LogLevel::DEBUG) {
         space_used += snprintf(msg_buffer + space_used, sizeof(msg_buffer) - space_used, " (%s:%d %s)", filename,
-- 
2.43.0


From a033ff0bfaeff762ce0a241de30cd013e9d82997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:12 +0000
Subject: [PATCH 18/63] fix: time the preheating of an autotune with the
 provided clock

With another clock than the platform's the timeout was never reached, or too
early.
---
 src/spine/controller/pid.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/spine/controller/pid.cpp b/src/spine/controller/pid.cpp
index 0d145bb..955056d 100644
--- a/src/spine/controller/pid.cpp
+++ b/src/spine/controller/pid.cpp
@@ -27,11 +27,11 @@ PID::Tunings PID::autotune(const PID::TuneConfig& tune_config, std::function<voi
                            std::function<k_time_ms()> uptime, std::function<void(k_time_ms)> sleep) const {
     SPN_LOG("Starting autotune");
 
-    using spn::structure::time::AlarmTimer;
     const auto block_until_setpoint = [&](const float setpoint, k_time_ms timeout = k_time_ms(0),
                                           bool saturated = false) {
-        auto timer = AlarmTimer(timeout);
-        while (process_getter() < setpoint && (!timer.expired() || timeout == k_time_ms(0))) {
+        const auto start = uptime();
+        const auto timed_out = [&]() { return timeout != k_time_ms(0) && uptime() - start >= timeout; };
+        while (process_getter() < setpoint && !timed_out()) {
             process_setter(_cfg.output_upper_limit);
             if (loop) loop();
             SPN_DBG("Waiting until temperature of %.2f C reaches %.2f C, saturating thermal capacitance",
@@ -41,7 +41,7 @@ PID::Tunings PID::autotune(const PID::TuneConfig& tune_config, std::function<voi
         process_setter(_cfg.output_lower_limit);
         if (loop) loop();
         if (saturated) return;
-        while (process_getter() > setpoint && (!timer.expired() || timeout == k_time_ms(0))) {
+        while (process_getter() > setpoint && !timed_out()) {
             SPN_DBG("Waiting until temperature of %.2f C reaches %.2f C, unloading thermal capacitance",
                     process_getter(), setpoint);
             sleep(k_time_ms(1000));
-- 
2.43.0


From 21a9c75a0d8b392903ba48f9f515a101d0a7a2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:12 +0000
Subject: [PATCH 19/63] fix: divide the autotuned gains by the amount of
 averaged cycles

The first two cycles are left out of the sum, but only one of them was left
out of the divisor, and a single cycle divided by zero.
---
 src/spine/controller/implementations/pid/pid_tuner.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/spine/controller/implementations/pid/pid_tuner.cpp b/src/spine/controller/implementations/pid/pid_tuner.cpp
index 26f334b..54bb36f 100644
--- a/src/spine/controller/implementations/pid/pid_tuner.cpp
+++ b/src/spine/controller/implementations/pid/pid_tuner.cpp
@@ -117,9 +117,11 @@ float PIDAutotuner::do_autotune(float input, k_time_ms ms) {
     if (is_finished()) {
         output = false;
         outputValue = minOutput;
-        kp = pAverage / (cycle - 1);
-        ki = iAverage / (cycle - 1);
-        kd = dAverage / (cycle - 1);
+        if (cycle > 2) { // the first two cycles are not part of the average
+            kp = pAverage / (cycle - 2);
+            ki = iAverage / (cycle - 2);
+            kd = dAverage / (cycle - 2);
+        }
     }
 
     return outputValue;
-- 
2.43.0


From a94d67e99c63de7654987c731879fbcec19263b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:14 +0000
Subject: [PATCH 20/63] fix: start counting rejections anew after the rejection
 limit was reached

Otherwise every single outlier that follows is accepted at once.
---
 src/spine/filter/implementations/bandpass.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spine/filter/implementations/bandpass.hpp b/src/spine/filter/implementations/bandpass.hpp
index 5983670..b2177bf 100644
--- a/src/spine/filter/implementations/bandpass.hpp
+++ b/src/spine/filter/implementations/bandpass.hpp
@@ -74,6 +74,7 @@ public:
                 spn::throw_exception(spn::runtime_exception("BandPass: rejection limit reached"));
             }
             _value = sample;
+            _rejections = 0;
         }
     }
 
-- 
2.43.0


From 040ac1e9f57047078e345ddfa3461ff07b73b3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:23 +0000
Subject: [PATCH 21/63] fix: allow filters to be detached from a stack

It called a function which the underlying container doesn't have, so that any
use of it failed to compile.
---
 src/spine/filter/filterstack.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/spine/filter/filterstack.hpp b/src/spine/filter/filterstack.hpp
index 1baa066..54973cb 100644
--- a/src/spine/filter/filterstack.hpp
+++ b/src/spine/filter/filterstack.hpp
@@ -24,7 +24,10 @@ public:
     /// Detach a filter for a provided slot's index
     std::unique_ptr<Filter<ValueType>> detach_filter(uint8_t index) {
         spn_expect(index < _filters.size());
-        return index < _filters.size() ? _filters.remove(index) : nullptr;
+        if (index >= _filters.size()) return nullptr;
+        auto filter = std::move(_filters[index]);
+        _filters.erase(_filters.begin() + index);
+        return filter;
     }
 
     /// Take a new sample, returns filtered value
-- 
2.43.0


From fd413ff1b3e3c9440c1d06e5e8c99d2fc8f86501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:25 +0000
Subject: [PATCH 22/63] fix: compute the width of a bandpass as documented

The mantissa was raised to the power as well.
---
 src/spine/filter/implementations/bandpass.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spine/filter/implementations/bandpass.hpp b/src/spine/filter/implementations/bandpass.hpp
index b2177bf..fbfd8ec 100644
--- a/src/spine/filter/implementations/bandpass.hpp
+++ b/src/spine/filter/implementations/bandpass.hpp
@@ -94,8 +94,9 @@ public:
 protected:
     void update_limits() {
         ValueType compensated_midpoint = _cfg.mode == Mode::RELATIVE ? _value + _cfg.offset : _cfg.offset;
-        _upper = compensated_midpoint + std::pow(_cfg.mantissa * 10, (_cfg.decades + 1));
-        _lower = compensated_midpoint - std::pow(_cfg.mantissa * 10, (_cfg.decades + 1));
+        const ValueType width = _cfg.mantissa * std::pow(ValueType(10), _cfg.decades + 1);
+        _upper = compensated_midpoint + width;
+        _lower = compensated_midpoint - width;
     }
 
     /// Arbitrary value to be used as a default value
-- 
2.43.0


From 98f2abfb9e328b42c66f0a8af6a026270de63c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:54 +0000
Subject: [PATCH 23/63] fix: keep pulling in data when zero bytes delimit lines

---
 src/spine/io/stream/buffered_stream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/io/stream/buffered_stream.cpp b/src/spine/io/stream/buffered_stream.cpp
index aeb9a61..614a245 100644
--- a/src/spine/io/stream/buffered_stream.cpp
+++ b/src/spine/io/stream/buffered_stream.cpp
@@ -33,7 +33,7 @@ size_t BufferedStream::pull_in_data() {
     while (_stream->available() > 0) {
         // early break when a delimiter has been found, as to lose no input if possible
         if (_input_buffer.full()) {
-            if (_input_buffer.delimiters().find(last_char) != std::string::npos)
+            if (bytes_read > 0 && _input_buffer.delimiters().find(last_char) != std::string::npos)
                 break; // break when the last incoming was a delimiter
             if (_input_buffer.overrun_space() == 0 && _input_buffer.has_line())
                 break; // break when the buffer just turned full and the buffer already contains a line
-- 
2.43.0


From 79a13dfc9af387feb7cf1015a3703da1b0258274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:08 +0000
Subject: [PATCH 24/63] fix: count the overrun of a ringbuffer with a single
 element

---
 src/spine/structure/ringbuffer.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spine/structure/ringbuffer.hpp b/src/spine/structure/ringbuffer.hpp
index a3a3134..d9662bc 100644
--- a/src/spine/structure/ringbuffer.hpp
+++ b/src/spine/structure/ringbuffer.hpp
@@ -84,11 +84,11 @@ bool RingBuffer<T>::push(const T& value, bool rollover) {
     if (m_is_full && !rollover) return false;
     m_buffer[m_head] = value;
     m_head = (m_head + 1) % m_buffer.size();
-    if (m_head == m_tail) {
-        m_is_full = true;
-    } else if (m_is_full) {
+    if (m_is_full) {
         m_tail = (m_tail + 1) % m_buffer.size();
         ++m_overwritten;
+    } else if (m_head == m_tail) {
+        m_is_full = true;
     }
     return true;
 }
-- 
2.43.0


From 92f222ff860580ef1316793d47068b9d50b13724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:20 +0000
Subject: [PATCH 25/63] fix: don't raise an error when describing a pipeline in
 few characters

---
 src/spine/eventsystem/pipeline.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/eventsystem/pipeline.cpp b/src/spine/eventsystem/pipeline.cpp
index 491eca4..904f58a 100644
--- a/src/spine/eventsystem/pipeline.cpp
+++ b/src/spine/eventsystem/pipeline.cpp
@@ -47,7 +47,7 @@ std::string Pipeline::to_string() const {
     pipeline_repr(&result, false);
 
     spn_assert(result.size() <= total_length); // no reallocation
-    spn_assert(result.capacity() == total_length); // no reallocation
+    spn_assert(result.capacity() >= total_length); // no reallocation
     return result;
 }
 
-- 
2.43.0


From 78669412023df18b184245db9290d78f9a7f2989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:20 +0000
Subject: [PATCH 26/63] fix: don't narrow the samples of a stack of filters

---
 src/spine/filter/filterstack.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/filter/filterstack.hpp b/src/spine/filter/filterstack.hpp
index 54973cb..1b3b73a 100644
--- a/src/spine/filter/filterstack.hpp
+++ b/src/spine/filter/filterstack.hpp
@@ -31,7 +31,7 @@ public:
     }
 
     /// Take a new sample, returns filtered value
-    ValueType value(const float new_sample) {
+    ValueType value(const ValueType new_sample) {
         ValueType new_value = new_sample;
         for (auto& sf : _filters) {
             spn_assert(sf.get() != nullptr);
-- 
2.43.0


From 4aab0634170e2c290a917d73f983f4d46f6d2d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:01 +0000
Subject: [PATCH 27/63] fix: keep track of values that are set on an analogue
 output directly

---
 src/spine/platform/gpio.hpp                    | 4 ++++
 src/spine/platform/implementations/arduino.hpp | 1 +
 src/spine/platform/implementations/mock.hpp    | 1 +
 3 files changed, 6 insertions(+)

diff --git a/src/spine/platform/gpio.hpp b/src/spine/platform/gpio.hpp
index cc9c4ce..f26c532 100644
--- a/src/spine/platform/gpio.hpp
+++ b/src/spine/platform/gpio.hpp
@@ -61,6 +61,10 @@ public:
         _value = setpoint;
     }
 
+protected:
+    /// Keep track of the value that an implementation gives to the hardware
+    void remember(float value) { _value = value; }
+
 private:
     float _value = 0;
 };
diff --git a/src/spine/platform/implementations/arduino.hpp b/src/spine/platform/implementations/arduino.hpp
index 1381c6b..907a6c9 100644
--- a/src/spine/platform/implementations/arduino.hpp
+++ b/src/spine/platform/implementations/arduino.hpp
@@ -102,6 +102,7 @@ public:
     // value between 0 and 1 where 1 is the logical state ON
     void set_value(float value) {
         spn_assert(value >= 0.0f && value <= 1.0f);
+        remember(value);
         if (_cfg.active_on_low) value = 1.0f - value;
 
         analogWrite(_cfg.pin, int(value * powf(2, _cfg.resolution)));
diff --git a/src/spine/platform/implementations/mock.hpp b/src/spine/platform/implementations/mock.hpp
index 41e6a28..61f83a2 100644
--- a/src/spine/platform/implementations/mock.hpp
+++ b/src/spine/platform/implementations/mock.hpp
@@ -89,6 +89,7 @@ public:
     // value between 0 and 1 where 1 is the logical state ON
     void set_value(float value) {
         spn_assert(value >= 0.0f && value <= 1.0f);
+        remember(value);
         if (_cfg.active_on_low) value = 1.0f - value;
     }
 
-- 
2.43.0


From 741f10ddf1eb04396221ab8d6a89b445ec6031fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:09 +0000
Subject: [PATCH 28/63] fix: the next block of a schedule is the earliest one,
 in whichever order blocks are listed

---
 src/spine/structure/time/schedule.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spine/structure/time/schedule.cpp b/src/spine/structure/time/schedule.cpp
index 487c0b0..2a0f11a 100644
--- a/src/spine/structure/time/schedule.cpp
+++ b/src/spine/structure/time/schedule.cpp
@@ -23,10 +23,11 @@ float Schedule::value_at(const k_time_s t) const {
 }
 
 k_time_s Schedule::start_of_next_block(const k_time_s t) const {
+    k_time_s next = k_time_h(24);
     for (auto& b : _blocks) {
-        if (t < b.start) return b.start;
+        if (t < b.start && b.start < next) next = b.start; // blocks may be listed in any order
     }
-    return k_time_h(24);
+    return next;
 }
 
 } // namespace spn::structure::time
-- 
2.43.0


From 7990db4f145e6c7ff4f09cf533d1047cc49a4e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:57 +0000
Subject: [PATCH 29/63] fix: keep counting when the clocks of an Arduino board
 roll over

---
 src/spine/platform/implementations/arduino.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/spine/platform/implementations/arduino.hpp b/src/spine/platform/implementations/arduino.hpp
index 907a6c9..6bf5b99 100644
--- a/src/spine/platform/implementations/arduino.hpp
+++ b/src/spine/platform/implementations/arduino.hpp
@@ -331,8 +331,17 @@ struct Arduino : public Platform<Arduino, ArduinoConfig, ArduinoGPIO, ArduinoAna
 
     static void printflush() { Serial.flush(); }
 
-    static k_time_ms millis() { return k_time_ms(::millis()); }
-    static k_time_us micros() { return k_time_us(::micros()); }
+    static k_time_ms millis() {
+        // the board's counter rolls over after 49 days, so keep track of the time by following it
+        static int64_t uptime = 0;
+        uptime += static_cast<int32_t>(static_cast<uint32_t>(::millis()) - static_cast<uint32_t>(uptime));
+        return k_time_ms(uptime);
+    }
+    static k_time_us micros() {
+        // the board's counter rolls over after 71 minutes, it refines the time in milliseconds
+        const int64_t uptime = static_cast<int64_t>(millis().raw()) * 1000;
+        return k_time_us(uptime + static_cast<int32_t>(static_cast<uint32_t>(::micros()) - static_cast<uint32_t>(uptime)));
+    }
     static void delay_us(k_time_us us) { ::delayMicroseconds(us.raw()); }
     static void delay_ms(k_time_ms ms) { ::delay(ms.raw()); }
 
-- 
2.43.0


From 9598680598310598e3e69a2670dba6d37d0b81da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:57 +0000
Subject: [PATCH 30/63] fix: don't report a byte when an Arduino serial port
 has none

---
 src/spine/platform/implementations/arduino.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spine/platform/implementations/arduino.hpp b/src/spine/platform/implementations/arduino.hpp
index 6bf5b99..4aebb79 100644
--- a/src/spine/platform/implementations/arduino.hpp
+++ b/src/spine/platform/implementations/arduino.hpp
@@ -254,7 +254,9 @@ public:
 
     size_t read(uint8_t* const buffer, size_t length) override { return _stream_ref->readBytes(buffer, length); }
     bool read(uint8_t& value) override {
-        value = _stream_ref->read();
+        const int read = _stream_ref->read();
+        if (read < 0) return false; // there is nothing to read
+        value = static_cast<uint8_t>(read);
         return true;
     }
 
-- 
2.43.0


From db1b582957a399840e5637e9daa32a30055fb3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:57 +0000
Subject: [PATCH 31/63] fix: keep the full value of an Arduino analogue output
 within its resolution

---
 src/spine/platform/implementations/arduino.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/platform/implementations/arduino.hpp b/src/spine/platform/implementations/arduino.hpp
index 4aebb79..5bf1b04 100644
--- a/src/spine/platform/implementations/arduino.hpp
+++ b/src/spine/platform/implementations/arduino.hpp
@@ -105,7 +105,7 @@ public:
         remember(value);
         if (_cfg.active_on_low) value = 1.0f - value;
 
-        analogWrite(_cfg.pin, int(value * powf(2, _cfg.resolution)));
+        analogWrite(_cfg.pin, int(std::lround(value * (powf(2, _cfg.resolution) - 1))));
     }
 
 private:
-- 
2.43.0


From bc1a7c38b39d49d5696d1cbf8f6daed28e602304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:57 +0000
Subject: [PATCH 32/63] fix: detach an Arduino interrupt from the number it was
 attached to

---
 src/spine/platform/implementations/arduino.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/spine/platform/implementations/arduino.hpp b/src/spine/platform/implementations/arduino.hpp
index 5bf1b04..919b458 100644
--- a/src/spine/platform/implementations/arduino.hpp
+++ b/src/spine/platform/implementations/arduino.hpp
@@ -211,7 +211,13 @@ public:
 #endif
     }
 
-    void detach_interrupt() { ::detachInterrupt(_cfg.pin); }
+    void detach_interrupt() {
+#if defined(__AVR_ATmega8__) || defined(__AVR_ATmega168__) || defined(__AVR_ATmega328P__)
+        ::detachInterrupt(_cfg.pin);
+#else
+        ::detachInterrupt(digitalPinToInterrupt(_cfg.pin));
+#endif
+    }
 
 private:
     const Config _cfg;
-- 
2.43.0


From bb42c719d67b2b32feb2901a2da9702e2dac77c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:57 +0000
Subject: [PATCH 33/63] fix: don't roll over the microseconds on Zephyr, nor
 let them run ahead of the clock

---
 src/spine/platform/implementations/zephyr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/platform/implementations/zephyr.hpp b/src/spine/platform/implementations/zephyr.hpp
index 5580703..9104595 100644
--- a/src/spine/platform/implementations/zephyr.hpp
+++ b/src/spine/platform/implementations/zephyr.hpp
@@ -36,7 +36,7 @@ struct Zephyr : Platform<Zephyr, ZephyrConfig> {
     }
 
     static k_time_ms millis() { return k_time_ms(k_uptime_get()); }
-    static k_time_us micros() { return k_time_us(k_ticks_to_us_near32(k_uptime_ticks())); }
+    static k_time_us micros() { return k_time_us(k_ticks_to_us_floor64(k_uptime_ticks())); }
     static void delay_us(k_time_us us) {
         if (us.raw() >= 1000) {
             k_msleep(us.raw() / 1000);
-- 
2.43.0


From 017684d775f5c43255a0a4052745f53dd72a30f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:57 +0000
Subject: [PATCH 34/63] fix: don't shorten delays to whole milliseconds on
 Zephyr

---
 src/spine/platform/implementations/zephyr.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/spine/platform/implementations/zephyr.hpp b/src/spine/platform/implementations/zephyr.hpp
index 9104595..c249613 100644
--- a/src/spine/platform/implementations/zephyr.hpp
+++ b/src/spine/platform/implementations/zephyr.hpp
@@ -40,9 +40,8 @@ struct Zephyr : Platform<Zephyr, ZephyrConfig> {
     static void delay_us(k_time_us us) {
         if (us.raw() >= 1000) {
             k_msleep(us.raw() / 1000);
-        } else {
-            k_busy_wait(us.raw()); // Busy wait for shorter delays
         }
+        k_busy_wait(us.raw() % 1000); // Busy wait for shorter delays
     }
     static void delay_ms(k_time_ms ms) { k_msleep(ms.raw()); }
 };
-- 
2.43.0


From 7488c6fa9d71781517a13f0fc8a6c63f552e8066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:57 +0000
Subject: [PATCH 35/63] fix: turn logging off on Zephyr when asked to

---
 src/spine/platform/implementations/zephyr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/platform/implementations/zephyr.cpp b/src/spine/platform/implementations/zephyr.cpp
index fd40d9c..457f1a8 100644
--- a/src/spine/platform/implementations/zephyr.cpp
+++ b/src/spine/platform/implementations/zephyr.cpp
@@ -29,7 +29,7 @@ void zephyr_set_log_level(spn::logging::LogLevel level) {
     LOG_MODULE_DECLARE(spine, LOG_LEVEL_INF);
 
     switch (level) {
-    case spn::logging::LogLevel::OFF: log_filter_set(log_backend_get_by_name("spine"), 0, 0, LOG_LEVEL_NONE);
+    case spn::logging::LogLevel::OFF: log_filter_set(log_backend_get_by_name("spine"), 0, 0, LOG_LEVEL_NONE); break;
     case spn::logging::LogLevel::ERR: log_filter_set(log_backend_get_by_name("spine"), 0, 0, LOG_LEVEL_ERR); break;
     case spn::logging::LogLevel::WARN: log_filter_set(log_backend_get_by_name("spine"), 0, 0, LOG_LEVEL_WRN); break;
     case spn::logging::LogLevel::INFO: log_filter_set(log_backend_get_by_name("spine"), 0, 0, LOG_LEVEL_INF); break;
-- 
2.43.0


From f7dc5d9cc414c395d6c38cec108ab1e353c63cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:56 +0000
Subject: [PATCH 36/63] fix: strip no more than the whole string

---
 src/spine/core/utils/string.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spine/core/utils/string.cpp b/src/spine/core/utils/string.cpp
index 4c1ad1d..e3ca1c8 100644
--- a/src/spine/core/utils/string.cpp
+++ b/src/spine/core/utils/string.cpp
@@ -9,7 +9,7 @@ namespace spn::core::utils {
 /// Returns a string_view with the beginning of the string `strv` stripped of any char in `delimiters`
 std::string_view lstrip(const std::string_view& strv, const std::string_view& delimiters) {
     auto it = strv.begin();
-    while (delimiters.find(*it) != std::string::npos)
+    while (it != strv.end() && delimiters.find(*it) != std::string::npos)
         ++it;
     const auto len = it - strv.begin();
     return {strv.data() + len, strv.size() - len};
@@ -18,7 +18,7 @@ std::string_view lstrip(const std::string_view& strv, const std::string_view& de
 /// Returns a string_view with the end of the string `strv` stripped of any char in `delimiters`
 std::string_view rstrip(const std::string_view& strv, const std::string_view& delimiters) {
     auto it = strv.rbegin();
-    while (delimiters.find(*it) != std::string::npos)
+    while (it != strv.rend() && delimiters.find(*it) != std::string::npos)
         ++it;
     const auto len = it - strv.rbegin();
     return {strv.data() + len, strv.size() - len};
-- 
2.43.0


From 1c7a3804fa9249cce03ffc83c3a4cc0acd5592ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:56 +0000
Subject: [PATCH 37/63] fix: a string doesn't end with a longer one

---
 src/spine/core/utils/string.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/core/utils/string.cpp b/src/spine/core/utils/string.cpp
index e3ca1c8..07b7c9d 100644
--- a/src/spine/core/utils/string.cpp
+++ b/src/spine/core/utils/string.cpp
@@ -31,7 +31,7 @@ bool starts_with(const std::string_view& strv, const std::string_view& needle) {
 
 /// Returns true if string `strv` ends with `needle
 bool ends_with(const std::string_view& strv, const std::string_view& needle) {
-    return strv.compare(strv.size() - needle.size(), strv.size(), needle) == 0;
+    return strv.size() >= needle.size() && strv.compare(strv.size() - needle.size(), needle.size(), needle) == 0;
 }
 
 /// Find the first occurence of any char in `delimiters` in the string `strv` or return std::string::npos when nothing
-- 
2.43.0


From 69bd233bedfab8645678834e1253f94c3bbe9868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:34 +0000
Subject: [PATCH 38/63] fix: strip the end of a string rather than its
 beginning

---
 src/spine/core/utils/string.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/core/utils/string.cpp b/src/spine/core/utils/string.cpp
index 07b7c9d..3d71609 100644
--- a/src/spine/core/utils/string.cpp
+++ b/src/spine/core/utils/string.cpp
@@ -21,7 +21,7 @@ std::string_view rstrip(const std::string_view& strv, const std::string_view& de
     while (it != strv.rend() && delimiters.find(*it) != std::string::npos)
         ++it;
     const auto len = it - strv.rbegin();
-    return {strv.data() + len, strv.size() - len};
+    return {strv.data(), strv.size() - len};
 }
 
 /// Returns true if string `strv` starts with `needle
-- 
2.43.0


From 6bbc752a64c71b8fa1969375d2e5c6c3330dea5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:54 +0000
Subject: [PATCH 39/63] fix: read a float from a view that isn't
 null-terminated

---
 src/spine/core/utils/string.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spine/core/utils/string.cpp b/src/spine/core/utils/string.cpp
index 3d71609..404392b 100644
--- a/src/spine/core/utils/string.cpp
+++ b/src/spine/core/utils/string.cpp
@@ -57,10 +57,11 @@ std::size_t find_first_of(const std::string_view& strv, const std::string_view&
 // }
 
 float to_float(const std::string_view& sv) {
+    const std::string text(sv); // a view isn't null-terminated, something else may lie behind it
     char* end;
-    float result = std::strtof(sv.data(), &end);
+    float result = std::strtof(text.c_str(), &end);
 
-    if (end == sv.data() || *end != '\0') {
+    if (end == text.c_str() || *end != '\0') {
         return 0.0f; // Handle conversion error
     }
 
-- 
2.43.0


From 26291a49b5688e21808333a4becf5756f2a0ab41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:54 +0000
Subject: [PATCH 40/63] fix: don't fail on durations without a value or with
 one that is too large

---
 src/spine/core/utils/time_repr.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/spine/core/utils/time_repr.cpp b/src/spine/core/utils/time_repr.cpp
index 98643fc..3c7ce20 100644
--- a/src/spine/core/utils/time_repr.cpp
+++ b/src/spine/core/utils/time_repr.cpp
@@ -1,7 +1,10 @@
 #include "spine/core/utils/time_repr.hpp"
 
 // #include <charconv>
+#include <cerrno>
+#include <cstdlib>
 #include <iterator>
+#include <limits>
 #include <numeric>
 #include <optional>
 #include <variant>
@@ -34,9 +37,12 @@ parse_time(const std::string_view input) {
     // Find the position of the first non-digit character
     std::size_t pos = input.find_first_not_of("0123456789");
     if (pos == std::string_view::npos) return std::nullopt; // No unit found
+    if (pos == 0) return std::nullopt; // No value found
 
     // Extract numeric value and unit
-    int value = std::stoi(std::string(input.substr(0, pos)));
+    errno = 0;
+    const auto value = std::strtoll(std::string(input.substr(0, pos)).c_str(), nullptr, 10);
+    if (errno == ERANGE || value > std::numeric_limits<int>::max()) return std::nullopt; // Value is too large
     std::string_view unit = input.substr(pos);
 
     if (unit == "us") return k_time_us(value);
-- 
2.43.0


From 84c0a54e3941157f457fa9eb9a009722e0de763f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:11 +0000
Subject: [PATCH 41/63] fix: strip no more than the whole static string

---
 src/spine/structure/static_string.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spine/structure/static_string.cpp b/src/spine/structure/static_string.cpp
index bdf3927..9f0ad8c 100644
--- a/src/spine/structure/static_string.cpp
+++ b/src/spine/structure/static_string.cpp
@@ -17,7 +17,7 @@ char* StaticString::data(const size_t expected_bytes_written) {
 }
 StaticString& StaticString::lstrip(std::string_view delimiters) {
     auto it = _buffer.begin();
-    while (delimiters.find(*it) != std::string::npos)
+    while (it != _buffer.end() && delimiters.find(*it) != std::string::npos)
         ++it;
     const auto len = it - _buffer.begin();
     std::memmove(data(), data() + len, size() - len);
@@ -26,7 +26,7 @@ StaticString& StaticString::lstrip(std::string_view delimiters) {
 }
 StaticString& StaticString::rstrip(std::string_view delimiters) {
     auto it = _buffer.rbegin();
-    while (delimiters.find(*it) != std::string::npos)
+    while (it != _buffer.rend() && delimiters.find(*it) != std::string::npos)
         ++it;
     const auto len = it - _buffer.rbegin();
     set_size(_buffer.size() - len);
-- 
2.43.0


From b97aaf227b51a85d330c9d0a7d91c26723280b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:23 +0000
Subject: [PATCH 42/63] fix: a static string doesn't end with a longer one

---
 src/spine/structure/static_string.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spine/structure/static_string.cpp b/src/spine/structure/static_string.cpp
index 9f0ad8c..9c6fe97 100644
--- a/src/spine/structure/static_string.cpp
+++ b/src/spine/structure/static_string.cpp
@@ -36,6 +36,7 @@ bool StaticString::starts_with(const std::string_view needle) const {
     return _buffer.compare(0, needle.size(), needle, 0) == 0;
 }
 bool StaticString::ends_with(const std::string_view needle) const {
-    return _buffer.compare(_buffer.size() - needle.size(), _buffer.size(), needle) == 0;
+    return _buffer.size() >= needle.size()
+           && _buffer.compare(_buffer.size() - needle.size(), needle.size(), needle) == 0;
 }
 } // namespace spn::structure
-- 
2.43.0


From ffc7e3c1076877e01bd75b26c58ed59e9b797b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:17 +0000
Subject: [PATCH 43/63] fix: describe a pipeline while time passes

---
 src/spine/eventsystem/pipeline.cpp | 38 +++++++-----------------------
 1 file changed, 8 insertions(+), 30 deletions(-)

diff --git a/src/spine/eventsystem/pipeline.cpp b/src/spine/eventsystem/pipeline.cpp
index 904f58a..b7da26d 100644
--- a/src/spine/eventsystem/pipeline.cpp
+++ b/src/spine/eventsystem/pipeline.cpp
@@ -18,36 +18,14 @@ Pipeline::~Pipeline() {
 }
 
 std::string Pipeline::to_string() const {
-    auto pipeline_repr = [&](std::string* s, bool length_only) -> size_t {
-        size_t len = 0;
-        auto put = [&](std::string_view i) {
-            if (!length_only) {
-                *s += i;
-            }
-            len += i.size();
-        };
-        put("Pipeline: [");
-        for (auto it = _pipe.begin(); it != _pipe.end(); ++it) {
-            auto& future = *it;
-            put(utils::repr(future->time_until_future()));
-            if (it != _pipe.end()) put(", ");
-        }
-        put("]");
-        return len;
-    };
-
-    // First pass to calculate total length
-    size_t total_length = pipeline_repr(nullptr, true);
-
-    // Reserve capacity to avoid multiple allocations
-    std::string result;
-    result.reserve(total_length);
-
-    // Second pass to build the string
-    pipeline_repr(&result, false);
-
-    spn_assert(result.size() <= total_length); // no reallocation
-    spn_assert(result.capacity() >= total_length); // no reallocation
+    // the time left is read once per future, its length may be different a moment later
+    std::string result = "Pipeline: [";
+    for (auto it = _pipe.begin(); it != _pipe.end(); ++it) {
+        if (it != _pipe.begin()) result += ", ";
+        auto& future = *it;
+        result += utils::repr(future->time_until_future());
+    }
+    result += "]";
     return result;
 }
 
-- 
2.43.0


From 5799634d7f3d581eaca78c67ecca48a9489f1815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:19 +0000
Subject: [PATCH 44/63] fix: remove an element of a vector by its index, and
 only that one

---
 src/spine/structure/vector.hpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/spine/structure/vector.hpp b/src/spine/structure/vector.hpp
index 4ed5d8c..56bd444 100644
--- a/src/spine/structure/vector.hpp
+++ b/src/spine/structure/vector.hpp
@@ -243,23 +243,23 @@ void Vector<T>::insert(ArrayBase::Size index, const T& item) {
 
 template<typename T>
 T Vector<T>::remove(ArrayBase::Size index) {
-    if (index == m_head) {
+    spn_assert(!empty() && index <= size()); // just like with `insert`, the end stands for the last element
+    if (empty() || index > size()) return {};
+    if (index == 0) {
         return std::move(pop_front());
     }
-    if (index == m_tail) {
+    if (index + 1 >= size()) {
         return std::move(pop_back());
     }
-    if (index > m_head && index < m_tail) {
-        auto removed = std::move(this->m_store[index]);
-        memmove(&this->m_store[index], &this->m_store[index + 1], (m_tail-- - index) * sizeof(T));
-        if (m_tail == m_head) {
-            m_tail = 0;
-            m_head = 0;
-        }
-        return removed;
-    }
-    spn_assert(!"remove was called with illegal index");
-    return {};
+
+    // todo: convert this brutal C-stuff into nice and fluffy CPP-stuff
+    const auto position = m_head + index;
+    auto removed = std::move(this->m_store[position]);
+    this->m_store[position].~T(); // nothing may be left of what is overwritten
+    memmove((char*)&this->m_store[position], (char*)&this->m_store[position + 1],
+            (m_tail - position - 1) * sizeof(T));
+    memset((char*)&this->m_store[--m_tail], '\0', sizeof(T)); // the last element lives one place to the front
+    return removed;
 }
 
 template<typename T>
-- 
2.43.0


From b781f43544c8d46d7bb7ca2fdeae302274dc6ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:19 +0000
Subject: [PATCH 45/63] fix: access the elements of a vector rather than those
 of its storage

---
 src/spine/structure/vector.hpp | 36 ++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/spine/structure/vector.hpp b/src/spine/structure/vector.hpp
index 56bd444..cb5ff16 100644
--- a/src/spine/structure/vector.hpp
+++ b/src/spine/structure/vector.hpp
@@ -53,17 +53,23 @@ public:
 
     void clear();
 
+    T& at(Size index) const;
+    T& front();
     T& back();
 
     typename Array<T>::iterator begin();
     typename Array<T>::const_iterator begin() const;
     typename Array<T>::iterator end();
     typename Array<T>::const_iterator end() const;
+    typename Array<T>::const_iterator cbegin() const;
+    typename Array<T>::const_iterator cend() const;
 
     typename Array<T>::reverse_iterator rbegin();
     typename Array<T>::reverse_iterator rend();
     typename Array<T>::const_reverse_iterator rbegin() const;
     typename Array<T>::const_reverse_iterator rend() const;
+    typename Array<T>::const_reverse_iterator crbegin() const;
+    typename Array<T>::const_reverse_iterator crend() const;
 
     bool empty() const;
     bool full() const;
@@ -269,6 +275,16 @@ void Vector<T>::clear() {
     }
 }
 
+template<typename T>
+T& Vector<T>::at(ArrayBase::Size index) const {
+    return this->m_store[m_head + index];
+}
+
+template<typename T>
+T& Vector<T>::front() {
+    return this->m_store[m_head];
+}
+
 template<typename T>
 T& Vector<T>::back() {
     return this->m_store[m_tail > 0 ? m_tail - 1 : 0];
@@ -296,6 +312,16 @@ typename Array<T>::const_iterator Vector<T>::end() const {
     return typename Array<T>::const_iterator(this->m_store, m_tail);
 }
 
+template<typename T>
+typename Array<T>::const_iterator Vector<T>::cbegin() const {
+    return begin();
+}
+
+template<typename T>
+typename Array<T>::const_iterator Vector<T>::cend() const {
+    return end();
+}
+
 /* reverse iterators */
 
 template<typename T>
@@ -318,6 +344,16 @@ typename Array<T>::const_reverse_iterator Vector<T>::rend() const {
     return typename Array<T>::const_reverse_iterator(this->m_store, m_head - (m_tail != m_head));
 }
 
+template<typename T>
+typename Array<T>::const_reverse_iterator Vector<T>::crbegin() const {
+    return rbegin();
+}
+
+template<typename T>
+typename Array<T>::const_reverse_iterator Vector<T>::crend() const {
+    return rend();
+}
+
 /* utility functions */
 
 template<typename T>
-- 
2.43.0


From bace1f8a68fe46386acfe8684285687ed59c8782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:19 +0000
Subject: [PATCH 46/63] fix: swap arrays and vectors as a whole

---
 src/spine/structure/array.hpp  | 7 ++++---
 src/spine/structure/vector.hpp | 8 ++++++++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/spine/structure/array.hpp b/src/spine/structure/array.hpp
index 83df11f..2bf28f9 100644
--- a/src/spine/structure/array.hpp
+++ b/src/spine/structure/array.hpp
@@ -5,6 +5,7 @@
 #include <cstdlib>
 #include <cstring>
 #include <initializer_list>
+#include <utility>
 
 namespace spn::structure {
 
@@ -318,9 +319,9 @@ ArrayBase::Size Array<T>::max_size() const {
 
 template<typename T>
 void Array<T>::swap(Array& other) noexcept {
-    T* tmp = this->m_store;
-    this->m_store = other.m_store;
-    other.m_store = tmp;
+    std::swap(m_store, other.m_store);
+    std::swap(m_max_size, other.m_max_size);
+    std::swap(m_store_is_internal, other.m_store_is_internal);
 }
 
 template<typename T>
diff --git a/src/spine/structure/vector.hpp b/src/spine/structure/vector.hpp
index cb5ff16..a3c263b 100644
--- a/src/spine/structure/vector.hpp
+++ b/src/spine/structure/vector.hpp
@@ -75,6 +75,7 @@ public:
     bool full() const;
     Size size() const;
 
+    void swap(Vector& other) noexcept;
     void fill(const T& value);
 
 private:
@@ -371,6 +372,13 @@ bool Vector<T>::full() const {
     return size() == this->m_max_size;
 }
 
+template<typename T>
+void Vector<T>::swap(Vector& other) noexcept {
+    Array<T>::swap(other);
+    std::swap(m_head, other.m_head);
+    std::swap(m_tail, other.m_tail);
+}
+
 template<typename T>
 void Vector<T>::fill(const T& value) {
     Array<T>::fill(value);
-- 
2.43.0


From 70a0677b132e1e76fef30e5fb4a06fe4a40bd490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:19 +0000
Subject: [PATCH 47/63] fix: free the storage of an array that is moved over

---
 src/spine/structure/array.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spine/structure/array.hpp b/src/spine/structure/array.hpp
index 2bf28f9..1ec85f4 100644
--- a/src/spine/structure/array.hpp
+++ b/src/spine/structure/array.hpp
@@ -181,6 +181,9 @@ template<typename T>
 Array<T>& Array<T>::operator=(Array&& other) noexcept {
     if (this == &other) return *this;
     ArrayBase::operator=(std::move(other));
+    if (m_store_is_internal) {
+        std::free(m_store);
+    }
     m_store = other.m_store;
     other.m_store = nullptr;
     m_max_size = other.m_max_size;
@@ -190,9 +193,6 @@ Array<T>& Array<T>::operator=(Array&& other) noexcept {
 
 template<typename T>
 Array<T>& Array<T>::operator=(const std::initializer_list<T>& value_list) noexcept {
-    if (m_store_is_internal) {
-        std::free(m_store);
-    }
     *this = Array<T>(value_list);
     return *this;
 }
-- 
2.43.0


From b9513e74297e6fe33faea23352aa95efc09ff426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:19 +0000
Subject: [PATCH 48/63] fix: iterate over all of a constant array in reverse

---
 src/spine/structure/array.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/spine/structure/array.hpp b/src/spine/structure/array.hpp
index 1ec85f4..49fd0a5 100644
--- a/src/spine/structure/array.hpp
+++ b/src/spine/structure/array.hpp
@@ -282,22 +282,22 @@ typename Array<T>::reverse_iterator Array<T>::rend() {
 
 template<typename T>
 typename Array<T>::const_reverse_iterator Array<T>::rbegin() const {
-    return const_reverse_iterator(m_store, m_max_size - (m_max_size > 0));
+    return const_reverse_iterator(m_store, m_max_size - 1);
 }
 
 template<typename T>
 typename Array<T>::const_reverse_iterator Array<T>::rend() const {
-    return const_reverse_iterator(m_store, (m_max_size - (m_max_size > 0)));
+    return const_reverse_iterator(m_store, -1);
 }
 
 template<typename T>
 typename Array<T>::const_reverse_iterator Array<T>::crbegin() const {
-    return const_reverse_iterator(m_store, m_max_size - (m_max_size > 0));
+    return rbegin();
 }
 
 template<typename T>
 typename Array<T>::const_reverse_iterator Array<T>::crend() const {
-    return const_reverse_iterator(m_store, (m_max_size - (m_max_size > 0)));
+    return rend();
 }
 
 /* utility */
-- 
2.43.0


From b9a47abae0a35aec1778c4b48fd098c66b42c69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:19 +0000
Subject: [PATCH 49/63] fix: make stacks usable, release what is popped from
 them

---
 src/spine/structure/stack.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spine/structure/stack.hpp b/src/spine/structure/stack.hpp
index 58aa474..56fef04 100644
--- a/src/spine/structure/stack.hpp
+++ b/src/spine/structure/stack.hpp
@@ -6,7 +6,7 @@ namespace spn::structure {
 
 template<typename T>
 /// A Vector that only allows Last-In-First-Out access order.
-class Stack : public Vector<T> {
+class Stack {
 public:
     using Size = ArrayBase::Size;
 
@@ -16,7 +16,7 @@ public:
     void push(T& element) { emplace(std::forward<T>(element)); }
 
     /// Pop an element from the stack.
-    void pop() { store.pop_back(); }
+    void pop() { [[maybe_unused]] const T popped = store.pop_back(); }
 
     /// Returns a reference to the element on top without removing it (dangerous!).
     T& top() {
-- 
2.43.0


From 79663d83170dec97c18ef667fa32b9e9b8f643b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:28 +0000
Subject: [PATCH 50/63] fix: pop the last element of a vector rather than the
 first of its storage

---
 src/spine/structure/vector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spine/structure/vector.hpp b/src/spine/structure/vector.hpp
index a3c263b..9d32872 100644
--- a/src/spine/structure/vector.hpp
+++ b/src/spine/structure/vector.hpp
@@ -165,6 +165,7 @@ T& Vector<T>::peek_back() const {
 template<typename T>
 [[nodiscard]] T&& Vector<T>::pop_back() {
     spn_assert(size() > 0);
+    const auto last = m_tail > 0 ? m_tail - 1 : 0;
     if (m_tail > 0) {
         m_tail--;
         if (m_tail == m_head) {
@@ -172,7 +173,7 @@ template<typename T>
             m_head = 0;
         }
     }
-    return std::move(this->m_store[m_tail]);
+    return std::move(this->m_store[last]);
 }
 
 template<typename T>
-- 
2.43.0


From 4ac406236de29d5e85e5f06d71ac2593db1dbd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:05 +0000
Subject: [PATCH 51/63] fix: read hours, minutes and seconds as decimals

---
 src/spine/structure/time/datetime.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/structure/time/datetime.cpp b/src/spine/structure/time/datetime.cpp
index 806a5f3..b87b6fe 100644
--- a/src/spine/structure/time/datetime.cpp
+++ b/src/spine/structure/time/datetime.cpp
@@ -133,7 +133,7 @@ DateTime::DateTime(const char* date, const char* time) {
     _tm.tm_mon = month - 1;
     _tm.tm_mday = day;
     int hour, min, sec;
-    sscanf(time, "%i:%i:%i", &hour, &min, &sec);
+    sscanf(time, "%d:%d:%d", &hour, &min, &sec);
     _tm.tm_hour = hour;
     _tm.tm_min = min;
     _tm.tm_sec = sec;
-- 
2.43.0


From 044d7cc63033c5ff6d54d559ca0a34c2f7d7048c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:05 +0000
Subject: [PATCH 52/63] fix: don't leave it to chance whether a date lies in
 summer time

---
 src/spine/structure/time/datetime.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spine/structure/time/datetime.cpp b/src/spine/structure/time/datetime.cpp
index b87b6fe..71ca70b 100644
--- a/src/spine/structure/time/datetime.cpp
+++ b/src/spine/structure/time/datetime.cpp
@@ -138,6 +138,7 @@ DateTime::DateTime(const char* date, const char* time) {
     _tm.tm_min = min;
     _tm.tm_sec = sec;
     _tm.tm_yday = calcYearDay(year, month, day);
+    _tm.tm_isdst = -1; // unknown
     set_timestamps();
 }
 
-- 
2.43.0


From 973b95cf05a93aa8c14fa576d941014813667f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:05 +0000
Subject: [PATCH 53/63] fix: don't fail on moments before 2000

---
 src/spine/structure/time/datetime.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/spine/structure/time/datetime.cpp b/src/spine/structure/time/datetime.cpp
index 71ca70b..b97b382 100644
--- a/src/spine/structure/time/datetime.cpp
+++ b/src/spine/structure/time/datetime.cpp
@@ -85,8 +85,7 @@ static uint8_t bcd2bin(uint8_t val) { return static_cast<uint8_t>(val - 6 * (val
  * @param unix_timestamp
  */
 DateTime::DateTime(time_t unix_timestamp)
-    : _unix_timestamp{unix_timestamp}, _y2k_timestamp{static_cast<time_t>(unix_timestamp - UNIX_OFFSET)} {
-    spn_assert(unix_timestamp - UNIX_OFFSET <= LONG_MAX);
+    : _unix_timestamp{unix_timestamp}, _y2k_timestamp{unix_timestamp - static_cast<time_t>(UNIX_OFFSET)} {
     gmtime_r(&_unix_timestamp, &_tm);
 }
 
-- 
2.43.0


From 970ac30468ca20e280d2f383448ed8eb617e348c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:17 +0000
Subject: [PATCH 54/63] fix: let an iterator that is incremented after its use
 return the element it was at

---
 src/spine/structure/array.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/spine/structure/array.hpp b/src/spine/structure/array.hpp
index 49fd0a5..c7e2c94 100644
--- a/src/spine/structure/array.hpp
+++ b/src/spine/structure/array.hpp
@@ -358,8 +358,9 @@ ArrayIterator<T>& ArrayIterator<T>::operator++() {
 
 template<typename T>
 ArrayIterator<T> ArrayIterator<T>::operator++(int) {
-    m_index++;
-    return *this;
+    const auto previous = *this;
+    ++*this;
+    return previous;
 }
 
 template<typename T>
@@ -370,8 +371,9 @@ ArrayIterator<T>& ArrayIterator<T>::operator--() {
 
 template<typename T>
 ArrayIterator<T> ArrayIterator<T>::operator--(int) {
-    m_index--;
-    return *this;
+    const auto previous = *this;
+    --*this;
+    return previous;
 }
 
 template<typename T>
@@ -409,8 +411,9 @@ ArrayReverseIterator<T>& ArrayReverseIterator<T>::operator++() {
 
 template<typename T>
 ArrayReverseIterator<T> ArrayReverseIterator<T>::operator++(int) {
-    --this->m_index;
-    return *this;
+    const auto previous = *this;
+    ++*this;
+    return previous;
 }
 template<typename T>
 ArrayReverseIterator<T>& ArrayReverseIterator<T>::operator--() {
@@ -419,8 +422,9 @@ ArrayReverseIterator<T>& ArrayReverseIterator<T>::operator--() {
 }
 template<typename T>
 ArrayReverseIterator<T> ArrayReverseIterator<T>::operator--(int) {
-    ++this->m_index;
-    return *this;
+    const auto previous = *this;
+    --*this;
+    return previous;
 }
 
 } // namespace spn::structure
-- 
2.43.0


From 2c1e705ca42026aedcd7a5c2f3e3700232355ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:17 +0000
Subject: [PATCH 55/63] fix: free what an array held when it becomes a copy of
 another

---
 src/spine/structure/array.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/spine/structure/array.hpp b/src/spine/structure/array.hpp
index c7e2c94..43ca4eb 100644
--- a/src/spine/structure/array.hpp
+++ b/src/spine/structure/array.hpp
@@ -171,9 +171,12 @@ template<typename T>
 Array<T>& Array<T>::operator=(const Array& other) {
     if (this == &other) return *this;
     ArrayBase::operator=(other);
+    if (m_store != other.m_store) {
+        if (m_store_is_internal) std::free(m_store);
+        m_store_is_internal = false; // prevent double free
+    }
     m_store = other.m_store;
     m_max_size = other.m_max_size;
-    m_store_is_internal = false; // prevent double free
     return *this;
 }
 
-- 
2.43.0


From 7c9a0bdf129a7ca78d0cdffdecd3b5d8fd5012f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:24 +0000
Subject: [PATCH 56/63] fix: convert between units with the precision of the
 type they are held in

With SPN_PLATFORM_CAP_DOUBLE amounts are held in doubles, but magnitudes and ratios
were floats, so that converted amounts were only as precise as a float, and equal
amounts of different magnitudes didn't compare as equal.
---
 .../structure/units/primitives/magnitudes.hpp | 46 +++++++++----------
 src/spine/structure/units/primitives/unit.hpp |  2 +-
 2 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/spine/structure/units/primitives/magnitudes.hpp b/src/spine/structure/units/primitives/magnitudes.hpp
index c34c14f..d09659d 100644
--- a/src/spine/structure/units/primitives/magnitudes.hpp
+++ b/src/spine/structure/units/primitives/magnitudes.hpp
@@ -4,76 +4,76 @@ namespace spn::structure::units {
 
 // SI magnitude tags
 struct Atto {
-    static constexpr float Magnitude = 1e-18f;
+    static constexpr double Magnitude = 1e-18;
 };
 struct Femto {
-    static constexpr float Magnitude = 1e-15f;
+    static constexpr double Magnitude = 1e-15;
 };
 struct Pico {
-    static constexpr float Magnitude = 1e-12f;
+    static constexpr double Magnitude = 1e-12;
 };
 struct Nano {
-    static constexpr float Magnitude = 1e-9f;
+    static constexpr double Magnitude = 1e-9;
 };
 struct Micro {
-    static constexpr float Magnitude = 1e-6f;
+    static constexpr double Magnitude = 1e-6;
 };
 struct Milli {
-    static constexpr float Magnitude = 1e-3f;
+    static constexpr double Magnitude = 1e-3;
 };
 struct Centi {
-    static constexpr float Magnitude = 1e-2f;
+    static constexpr double Magnitude = 1e-2;
 };
 struct Deci {
-    static constexpr float Magnitude = 1e-1f;
+    static constexpr double Magnitude = 1e-1;
 };
 struct Deca {
-    static constexpr float Magnitude = 1e1f;
+    static constexpr double Magnitude = 1e1;
 };
 struct Hecto {
-    static constexpr float Magnitude = 1e2f;
+    static constexpr double Magnitude = 1e2;
 };
 struct Kilo {
-    static constexpr float Magnitude = 1e3f;
+    static constexpr double Magnitude = 1e3;
 };
 struct Mega {
-    static constexpr float Magnitude = 1e6f;
+    static constexpr double Magnitude = 1e6;
 };
 struct Giga {
-    static constexpr float Magnitude = 1e9f;
+    static constexpr double Magnitude = 1e9;
 };
 struct Tera {
-    static constexpr float Magnitude = 1e12f;
+    static constexpr double Magnitude = 1e12;
 };
 struct Peta {
-    static constexpr float Magnitude = 1e15f;
+    static constexpr double Magnitude = 1e15;
 };
 struct Exa {
-    static constexpr float Magnitude = 1e18f;
+    static constexpr double Magnitude = 1e18;
 };
 
 struct Base {
-    static constexpr float Magnitude = 1.0f;
+    static constexpr double Magnitude = 1.0;
 };
 
 // time types
 struct Minute {
-    static constexpr float Magnitude = 60.0f;
+    static constexpr double Magnitude = 60.0;
 };
 struct Hour {
-    static constexpr float Magnitude = 60.0f * 60.0f;
+    static constexpr double Magnitude = 60.0 * 60.0;
 };
 struct Day {
-    static constexpr float Magnitude = 60.0f * 60.0f * 24.0f;
+    static constexpr double Magnitude = 60.0 * 60.0 * 24.0;
 };
 struct Week {
-    static constexpr float Magnitude = Day::Magnitude * 7.0f;
+    static constexpr double Magnitude = Day::Magnitude * 7.0;
 };
 struct Month {
-    static constexpr float Magnitude = Week::Magnitude * 4.0f;
+    static constexpr double Magnitude = Week::Magnitude * 4.0;
 };
 struct Year {
-    static constexpr float Magnitude = Day::Magnitude * 365.0f;
+    static constexpr double Magnitude = Day::Magnitude * 365.0;
 };
 
 } // namespace spn::structure::units
diff --git a/src/spine/structure/units/primitives/unit.hpp b/src/spine/structure/units/primitives/unit.hpp
index 84fd2df..bb56093 100644
--- a/src/spine/structure/units/primitives/unit.hpp
+++ b/src/spine/structure/units/primitives/unit.hpp
@@ -145,7 +145,7 @@ private:
             constexpr intmax_t divisor = std::gcd(num, den);
             return divide_rounded(other.raw() * (num / divisor), den / divisor);
         } else {
-            constexpr float ratio = MOther::Magnitude / MT::Magnitude;
+            constexpr auto ratio = static_cast<ValueType>(MOther::Magnitude / MT::Magnitude);
             return ratio * other.raw();
         }
     }
-- 
2.43.0


From 3dfe4a6b396d6eeafe43efa9c04462456d9c958a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:40 +0000
Subject: [PATCH 57/63] fix: let an amount of light in lux be computed with

---
 src/spine/structure/units/illuminance.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/structure/units/illuminance.hpp b/src/spine/structure/units/illuminance.hpp
index 95ae4c0..85f8f16 100644
--- a/src/spine/structure/units/illuminance.hpp
+++ b/src/spine/structure/units/illuminance.hpp
@@ -9,4 +9,4 @@ struct TagIlluminance {};
 } // namespace spn::structure::units
 
 // Illuminance, with unit: lux
-using lux = spnu::Unit<spnu::TagIlluminance, spnu::TagIlluminance, spnu::RealRawType>;
+using lux = spnu::Unit<spnu::TagIlluminance, spnu::Base, spnu::RealRawType>;
-- 
2.43.0


From a75eb7dc5de293d6ce2e55d0414dae3ab88c38e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:40 +0000
Subject: [PATCH 58/63] fix: tell the tunings of a PID as they were given

---
 src/spine/controller/pid.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/spine/controller/pid.hpp b/src/spine/controller/pid.hpp
index 2f5f9ce..168a4df 100644
--- a/src/spine/controller/pid.hpp
+++ b/src/spine/controller/pid.hpp
@@ -56,13 +56,12 @@ public:
 
     /// Set the controller's tuning parameters
     void set_tunings(const Tunings& tunings, const Proportionality proportionality = Proportionality::ON_ERROR) {
+        _cfg.tunings = tunings;
         _pid_backend.set_tunings(tunings.Kp, tunings.Ki, tunings.Kd, proportionality);
     }
 
     /// Returns the controller's tuning parameters
-    Tunings tunings() const {
-        return Tunings{.Kp = _pid_backend.Kp(), .Ki = _pid_backend.Ki(), .Kd = _pid_backend.Kd()};
-    }
+    Tunings tunings() const { return _cfg.tunings; } // as given, the backend scales them with its sampling time
 
     /// Set latest reading (update happens based on system clock)
     void new_reading(float value);
-- 
2.43.0


From 4d98d29a85f4e11492cb54a2547c5e1690ea2589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:40 +0000
Subject: [PATCH 59/63] fix: let a PID that was copied or moved use its own
 variables

---
 .../implementations/pid/pid_controller.hpp        |  7 +++++++
 src/spine/controller/pid.hpp                      | 15 +++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/src/spine/controller/implementations/pid/pid_controller.hpp b/src/spine/controller/implementations/pid/pid_controller.hpp
index d2748d1..eaae099 100644
--- a/src/spine/controller/implementations/pid/pid_controller.hpp
+++ b/src/spine/controller/implementations/pid/pid_controller.hpp
@@ -33,6 +33,13 @@ public:
 
     bool update(const k_time_ms now);
 
+    /// Use other variables from here on, without touching their values
+    void set_variables(float* const input, float* const output, float* const setpoint) {
+        _user_input = input;
+        _user_output = output;
+        _user_setpoint = setpoint;
+    }
+
     void set_output_limits(float Min, float Max);
 
     void set_tunings(float Kp, float Ki, float Kd,
diff --git a/src/spine/controller/pid.hpp b/src/spine/controller/pid.hpp
index 168a4df..171cda6 100644
--- a/src/spine/controller/pid.hpp
+++ b/src/spine/controller/pid.hpp
@@ -47,6 +47,21 @@ public:
 public:
     PID(Config&& cfg);
     PID(const Config& cfg) : PID(Config(cfg)) {}
+    PID(const PID& other)
+        : _cfg(other._cfg), _pid_backend(other._pid_backend), _setpoint(other._setpoint), _input(other._input),
+          _output(other._output) {
+        _pid_backend.set_variables(&_input, &_output, &_setpoint); // and not those of the other
+    }
+    PID& operator=(const PID& other) {
+        if (this == &other) return *this;
+        _cfg = other._cfg;
+        _pid_backend = other._pid_backend;
+        _setpoint = other._setpoint;
+        _input = other._input;
+        _output = other._output;
+        _pid_backend.set_variables(&_input, &_output, &_setpoint);
+        return *this;
+    }
 
     /// Initialize the PID-controller backend
     void initialize();
-- 
2.43.0


From 2cd2c02e14957916806c49299cba09ec85cc34d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:40 +0000
Subject: [PATCH 60/63] fix: let an array of any type be laid over given bytes

---
 src/spine/structure/array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/structure/array.hpp b/src/spine/structure/array.hpp
index 43ca4eb..fb30534 100644
--- a/src/spine/structure/array.hpp
+++ b/src/spine/structure/array.hpp
@@ -122,7 +122,7 @@ Array<T>::Array(T (&store)[CAP]) : m_store(store), m_max_size(CAP), m_store_is_i
 
 template<typename T>
 Array<T>::Array(uint8_t* buffer, Size buffer_length)
-    : m_store(static_cast<T*>(buffer)), m_max_size(buffer_length / sizeof(T)), m_store_is_internal(false) {
+    : m_store(reinterpret_cast<T*>(buffer)), m_max_size(buffer_length / sizeof(T)), m_store_is_internal(false) {
     memset(m_store, '\0', m_max_size * sizeof(T));
 }
 
-- 
2.43.0


From 1ad2efbeb59f4a28d7dd965f1a81192cfe2db1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:40 +0000
Subject: [PATCH 61/63] fix: reach a pin's implementation through the type that
 all platforms share

---
 src/spine/platform/gpio.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/spine/platform/gpio.hpp b/src/spine/platform/gpio.hpp
index f26c532..09246f3 100644
--- a/src/spine/platform/gpio.hpp
+++ b/src/spine/platform/gpio.hpp
@@ -30,8 +30,8 @@ template<typename GPIOImp>
 struct DigitalInput {
     using LogicalState = core::LogicalState;
 
-    void initialize() { static_cast<GPIOImp>(this)->initialize(); }
-    LogicalState state() const { return static_cast<GPIOImp>(this)->state(); }
+    void initialize() { static_cast<GPIOImp*>(this)->initialize(); }
+    LogicalState state() const { return static_cast<LogicalState>(static_cast<const GPIOImp*>(this)->state()); }
 };
 
 namespace detail {
@@ -43,7 +43,7 @@ template<typename GPIOImp>
 class AnalogueOutput {
 public:
     /// Initialize a port/pin
-    void initialize() { static_cast<GPIOImp>(this)->initialize(); }
+    void initialize() { static_cast<GPIOImp*>(this)->initialize(); }
 
     /// Set the output to the provided `value`
     void set_value(float value) {
@@ -72,10 +72,10 @@ private:
 template<typename GPIOImp>
 struct AnalogueInput {
     /// Initialize an analogue input port/pin
-    void initialize() { static_cast<GPIOImp>(this)->initialize(); }
+    void initialize() { static_cast<GPIOImp*>(this)->initialize(); }
 
     /// Reads the Analogue input port/pin
-    float read() { return static_cast<GPIOImp>(this)->read(); }
+    float read() { return static_cast<GPIOImp*>(this)->read(); }
 };
 
 // todo: Add an ADC/DAC configuration blocks to set up stuff like read/write resolution, ref voltage and sampling
@@ -86,15 +86,15 @@ struct Interrupt {
     using TriggerType = core::TriggerType;
 
     /// Intializes the interrupt (doesn't attach it)
-    void initialize() { static_cast<GPIOImp>(this)->initialize(); }
+    void initialize() { static_cast<GPIOImp*>(this)->initialize(); }
 
     /// Attaches the interrupt to the callback.
     void attach_interrupt(void (*callback)() = nullptr, TriggerType trigger = TriggerType::UNDEFINED) {
-        static_cast<GPIOImp>(this)->attach_interrupt(callback, trigger);
+        static_cast<GPIOImp*>(this)->attach_interrupt(callback, trigger);
     }
 
     /// Detaches the interrupt from the callback
-    void detach_interrupt() { static_cast<GPIOImp>(this)->detach_interrupt(); }
+    void detach_interrupt() { static_cast<GPIOImp*>(this)->detach_interrupt(); }
 };
 
 } // namespace spn::platform
-- 
2.43.0


From 3a7585557bfdab4932c9509ede2c60e7583626bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:09:50 +0000
Subject: [PATCH 62/63] fix: a result that was copied, or made of a value in a
 variable, could turn into a failure

The constructor for anything that is convertible into an error was a better match than the copy constructor
for a result that isn't const (a result converts into a bool, and that into a number), and than the one for a
value if that is convertible too.
---
 src/spine/structure/result.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/spine/structure/result.hpp b/src/spine/structure/result.hpp
index b445a64..fca9eb0 100644
--- a/src/spine/structure/result.hpp
+++ b/src/spine/structure/result.hpp
@@ -38,7 +38,10 @@ public:
     template<typename U = E, typename = std::enable_if_t<std::is_convertible_v<U, E> && !std::is_same_v<E, T>>>
     Result(const U& error) : _v(std::in_place, WrappedE(error)), _type(Type::FAILED) {}
 
-    template<typename U = E, typename = std::enable_if_t<std::is_convertible_v<U, E> && !std::is_same_v<E, T>>>
+    // (a value or another result isn't an error, even when it could be converted into one)
+    template<typename U = E, typename = std::enable_if_t<std::is_convertible_v<U, E> && !std::is_same_v<E, T>
+                                                         && !std::is_same_v<std::decay_t<U>, T>
+                                                         && !std::is_same_v<std::decay_t<U>, Result>>>
     Result(U&& error) : _v(std::in_place, WrappedE(std::forward<U>(error))), _type(Type::FAILED) {}
 
     bool is_success() const { return _type == Type::OK; }
-- 
2.43.0


From 2c16c07e573b30d38f7e1f5aff08f42e1642a1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:14:29 +0000
Subject: [PATCH 63/63] fix: text with a zero behind a number was taken for
 that number

---
 src/spine/core/utils/string.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/core/utils/string.cpp b/src/spine/core/utils/string.cpp
index 404392b..cee1358 100644
--- a/src/spine/core/utils/string.cpp
+++ b/src/spine/core/utils/string.cpp
@@ -61,7 +61,7 @@ float to_float(const std::string_view& sv) {
     char* end;
     float result = std::strtof(text.c_str(), &end);
 
-    if (end == text.c_str() || *end != '\0') {
+    if (end == text.c_str() || end != text.c_str() + text.size()) { // a zero may be part of the text
         return 0.0f; // Handle conversion error
     }
 
-- 
2.43.0

