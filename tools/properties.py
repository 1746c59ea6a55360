#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text lives here because JSON lines are no place to write prose)."""
import json, os

P = []


def prop(id, title, statement, over, text, tests, files, mechanism, observe, state=None):
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": over, "text": " ".join(text.split())},
              "why_tests_cant": " ".join(tests.split()),
              "anchors": {"files": files,
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                          "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                          "observe_at": observe, "hook_needed": None}})


S = "src/spine/"
ES = [S + "eventsystem/eventsystem.hpp", S + "eventsystem/eventsystem.cpp", S + "eventsystem/pipeline.hpp",
      S + "eventsystem/pipeline.cpp"]

prop("C01", "Every scheduled event reaches all its handlers exactly once, never early",
     """An event that was scheduled is delivered exactly once, with the id and data it was given, to every handler that
     is attached to its id and to no other handler, in the order in which they were attached. It is never delivered
     before its delay has passed on the system clock, and the first run of the event loop at or after that moment
     delivers it, however late that run is, whatever handlers schedule, trigger or hold meanwhile. Triggering an event
     delivers it at once to the same handlers, and a handler that fails loses at most the delivery it failed in.""",
     ["schedules", "histories", "fault_sequences", "configurations"],
     """Every interleaving of scheduling, triggering, holding and looping by the main program and by handlers (nested),
     any uptime, any stall or slow handler, the clock advancing between any two reads, any capacity.""",
     """The event system tests use one handler, at most three events, a clock near zero and no scheduling from
     handlers; nothing is ever late, tied, nested or failing.""",
     ES, [("loop delivers everything that expired", ES[1]), ("pipeline keeps futures sorted", ES[3])],
     ["EventHandler::handle_event", "EventSystem::schedule/trigger/loop"],
     [("pipeline", "scheduled events", ES[2])])
prop("C02", "Events are delivered in the order in which they are due",
     """Of the events that are due, the one with the earliest due moment is delivered first, and events with the same
     due moment are delivered in the order in which they were scheduled. This holds whatever was scheduled before,
     including events that were scheduled by handlers while the loop was busy delivering, and events whose due moments
     have passed long ago.""",
     ["schedules", "histories", "fault_sequences"],
     """Every sequence of insertions and expiries, at any fill level of the pipeline, any uptime, with stalls that make
     many events due at once, and with the clock advancing in the middle of an insertion.""",
     """One test checks three events that are inserted against an unmoving clock; ties, wrap-around of the storage,
     insertion while delivering and moving clocks are not reached.""",
     ES + [S + "structure/vector.hpp"], [("sorted insertion", ES[3])],
     ["EventHandler::handle_event", "Pipeline::push/expire/pipe"])
prop("C03", "The event store hands each event to one user at a time and loses none",
     """A store of events (and the pool of objects underneath) hands out an object only while nobody else uses it: not
     while it is scheduled, held or being delivered by someone. As long as fewer objects are in use than the capacity a
     request is served, when all are in use the request is refused and has no other effect, and everything that was
     handed out is available again once its users are done with it. Tearing the system down at any moment releases
     every object exactly once, also objects that are scheduled or outlive it.""",
     ["histories", "fault_sequences", "crash_points", "configurations"],
     """Every history of acquiring, scheduling, holding, releasing and exhausting, every capacity, and tear down after
     any step.""",
     """Tests cycle through a pool of fixed size in order; exhaustion in the event system, release in arbitrary order,
     and tear down while events are pending are not reached.""",
     [S + "structure/pool.hpp", S + "structure/vector.hpp"] + ES,
     [("reference count of one means free", S + "structure/pool.hpp"), ("destructors", ES[1])],
     ["EventSystem::event", "Pool::acquire/populate/depopulate", "object destructors", "the heap"])
prop("C04", "The loop sleeps until the next event, within its configured bounds",
     """When a delay between ticks is configured, a run of the event loop that delivered what was due sleeps exactly
     until the earliest pending event is due, but never longer than the configured maximum, and when nothing is pending
     it sleeps for the configured minimum. When no delay is configured it doesn't sleep at all.""",
     ["schedules", "histories", "configurations"],
     """Any set of pending events, any uptime, any configuration of bounds from zero to minutes, slow handlers, and time
     passing between reads of the clock.""",
     """No test configures a delay between ticks together with a pending event.""",
     ES + [S + "platform/implementations/mock.hpp"], [("delay at the end of the loop", ES[1])],
     ["the simulated clock before and after EventSystem::loop"])
prop("C05", "Errors reach the machine-wide error handler exactly once",
     """An error that the library raises is given to the currently installed machine-wide error handler exactly once,
     with its own kind and message, after which the operation that raised it completes; a handler may replace itself,
     raise another error or unwind while it is called. Without a handler the error is still reported as a warning and
     nothing crashes. Replacing the handler returns the previous one, and from then on only the new one is called.""",
     ["histories", "fault_sequences"],
     """Every sequence of installing, replacing and removing handlers between and during errors that are raised by
     rejected samples, values out of range, direct throws and (in debug builds) failed assertions.""",
     """No test installs an error handler or raises an error.""",
     [S + "core/exception.hpp", S + "core/exception.cpp", S + "core/debugging.hpp"],
     [("throw_error calls the installed handler", S + "core/exception.cpp")],
     ["ExceptionHandler::handle_exception", "console"])
prop("C06", "No heap memory is used once everything is constructed",
     """After construction (and, for an event system, attaching of handlers) the event system, streams, transactions,
     ring and line buffers, pools, timers, controllers, latches, filters, outputs and log messages perform all their
     work without requesting memory from the heap. A device whose heap is exhausted therefore keeps working.""",
     ["histories", "fault_sequences", "configurations"],
     """Every history of operations of those parts, with every single allocation after construction made to fail.""",
     """Tests never look at the heap and never let an allocation fail.""",
     [S + "structure/array.hpp", S + "structure/vector.hpp", S + "structure/pool.hpp", S + "structure/ringbuffer.hpp",
      S + "eventsystem", S + "io/stream", S + "filter", S + "controller"],
     [("single allocation containers", S + "structure/array.hpp")], ["operator new, malloc"])
prop("C07", "Lines arrive complete and in order, however the bytes trickle in",
     """A buffered stream presents exactly the lines that the peer sent, in order and without their delimiter, however
     the bytes are chunked, delayed or interrupted by failed reads, and whichever of viewing, copying or dropping is
     used to consume them. A line that fits in the input buffer is never altered, truncated or merged with another one,
     and a line that is waiting is never overwritten; of a line that doesn't fit the last bytes that do fit remain, and
     the lines after it arrive intact. Pulling in data reports exactly the amount of bytes taken from the peer and takes
     whatever it can, until the peer has no more or a line has to be consumed first.""",
     ["inputs", "schedules", "histories", "fault_sequences", "configurations"],
     """Every byte stream, every chunking and every position of failing reads, every interleaving of pulling and
     consuming, every buffer size and set of delimiters.""",
     """Tests inject a few strings whole, through a mock that never fails, and consume right away.""",
     [S + "io/stream/buffered_stream.hpp", S + "io/stream/buffered_stream.cpp", S + "structure/linebuffer.hpp",
      S + "structure/linebuffer.cpp", S + "structure/ringbuffer.hpp"],
     [("break before overwriting a waiting line", S + "io/stream/buffered_stream.cpp")],
     ["BufferedStream::pull_in_data/has_line/get_next_line(_view)/drop_next_line", "Stream::read/available"])
prop("C08", "Output bytes go out exactly once, in order, whatever the peer accepts",
     """Every byte that a buffered stream accepted for output is written to the underlying stream exactly once and in
     order, whichever writes fail or are refused and however they are interleaved with new output; a byte that is not
     yet written stays buffered. Output that doesn't fit is refused by exactly the amount that was not accepted, unless
     rolling over was asked for, in which case the oldest buffered bytes make place. Pushing out data reports exactly
     the amount of bytes that were written, continues for as long as the peer accepts bytes, and space used and space
     left always add up to the capacity.""",
     ["inputs", "schedules", "histories", "fault_sequences", "configurations"],
     """Every sequence of writes (single, block, with and without rollover), drops and flushes, every position of a
     failing write and every pattern of backpressure, every buffer size.""",
     """Tests write a few strings into a mock that always accepts everything.""",
     [S + "io/stream/buffered_stream.hpp", S + "io/stream/buffered_stream.cpp", S + "structure/ringbuffer.hpp"],
     [("write before pop", S + "io/stream/buffered_stream.cpp")],
     ["BufferedStream::buffered_write/push_out_data/output_buffer_*", "Stream::write/available_for_write"])
prop("C09", "A transaction consumes one request and answers all or nothing",
     """A transaction can be started exactly when a line is waiting, and presents that line unchanged for as long as it
     is open, whatever arrives meanwhile. However it ends (committed, aborted, or going out of scope, also after being
     moved) exactly that line is consumed, exactly once. Committing or going out of scope leaves all of the queued reply
     in the output, aborting removes exactly the reply of this transaction and leaves all earlier output in place, and
     what is reported as queued or left is true throughout.""",
     ["schedules", "histories", "fault_sequences", "inputs"],
     """Every interleaving of arriving bytes with opening, replying, moving, committing, aborting and destroying
     transactions, at every fill level of both buffers.""",
     """One test runs a single transaction on empty buffers with everything arriving beforehand.""",
     [S + "io/stream/transaction.hpp", S + "io/stream/transaction.cpp", S + "io/stream/buffered_stream.cpp"],
     [("finalize drops the line once", S + "io/stream/transaction.cpp"), ("undo", S + "io/stream/transaction.cpp")],
     ["Transaction::incoming/outgoing*/commit/abort/is_finalized", "BufferedStream"])
prop("C10", "A ring buffer is a bounded queue between producer and consumer",
     """A ring buffer returns the elements that were put in, each once and in order. When it is full it refuses further
     elements, unless rolling over was asked for, in which case exactly the oldest elements are lost; dropping removes
     exactly the requested amount of newest or oldest elements (all of them for zero or more than there are). Space
     used, space left, empty, full, peeking and the mock stream that is built on it always agree with that.""",
     ["histories", "schedules", "configurations"],
     """Every interleaving of single and block pushes, pops, peeks, drops and clears by a producer and a consumer, every
     capacity and every position of the heads.""",
     """Tests walk one buffer through a fixed script; wrap-around combined with overflow and drops is hardly
     reached.""",
     [S + "structure/ringbuffer.hpp", S + "io/stream/implementations/mock.hpp", S + "io/stream/implementations/mock.cpp"],
     [("head, tail and full flag", S + "structure/ringbuffer.hpp")],
     ["RingBuffer push/pop/peek_at/drop_*/used_space/free_space", "MockStream"])
prop("C11", "Timers follow the system clock at any uptime",
     """A stopwatch reports exactly the time that passed on the system clock since it was last reset. An alarm expires
     at its moment and not before, and stays expired; an interval timer fires at most once per interval and never before
     a whole interval has passed, and when it is allowed to catch up it fires once for every interval that passed, no
     matter how late it is polled, and otherwise restarts at the moment it fired. Milliseconds and microseconds are two
     readings of one clock, and a delay advances it by exactly the requested time.""",
     ["schedules", "histories", "fault_sequences"],
     """Every sequence of polls, resets and delays, any uptime up to years, any interval up to days, polls that come
     late by any amount, and the clock advancing between any two reads.""",
     """Timers and the clock have no tests of their own, and the tests that use them run within seconds of uptime
     zero.""",
     [S + "structure/time/timers.hpp", S + "structure/time/timers.cpp", S + "platform/platform.hpp",
      S + "platform/implementations/mock.hpp"],
     [("timers compare against the HAL clock", S + "structure/time/timers.cpp")],
     ["Timer, AlarmTimer, IntervalTimer", "HAL::millis/micros/delay*"])
prop("C12", "A latch switches on its thresholds and respects its time limits",
     """A latch turns on only for a reading above its high threshold or when it was off for longer than its maximal off
     time, turns off only for a reading below its low threshold or when it was on for longer than its maximal on time,
     and otherwise keeps its state. It never leaves a state before the minimal time for that state has passed since it
     entered it, and the first reading at which it may and has to switch makes it switch, also under steady readings
     and whatever the readings are.""",
     ["schedules", "inputs", "histories", "fault_sequences", "configurations"],
     """Every sequence of readings (noisy, stuck, exactly on a threshold, not a number) at any spacing, any uptime, any
     combination of thresholds and time limits.""",
     """The latch has no tests.""",
     [S + "controller/sr_latch.hpp", S + "controller/sr_latch.cpp"],
     [("new_reading", S + "controller/sr_latch.cpp")], ["SRLatch::response after every reading"])
prop("C13", "A PID controller follows its control law, cadence and limits",
     """The response of a PID controller always lies within the configured output limits, and changes at most once per
     sampling interval. On every reading that comes at least an interval after the previous computation it becomes
     what the PID law yields for the configured gains, sampling time, direction and proportionality, with an integral
     that never winds up beyond the limits; in between, readings have no influence on the response. Reinitialising
     continues bumplessly from the current response and reading. The tunings it tells are those it was given, and it goes on
     in the same way when it was copied, moved or assigned to another place.""",
     ["schedules", "inputs", "histories", "fault_sequences", "configurations"],
     """Every sequence of readings and setpoints at any spacing (jitter, stalls, bursts, clocks provided by the caller),
     any uptime, all gains, limits, directions and proportionalities, changes of tuning in between.""",
     """The PID controller has no tests.""",
     [S + "controller/pid.hpp", S + "controller/pid.cpp", S + "controller/implementations/pid/pid_controller.hpp",
      S + "controller/implementations/pid/pid_controller.cpp"],
     [("update", S + "controller/implementations/pid/pid_controller.cpp")], ["PID::new_reading/response/error"])
prop("C14", "Autotuning terminates, stays within limits and yields the relay method's gains",
     """Autotuning drives the process only with the configured lower and upper output limit, switching off only for a
     reading above the setpoint by more than the hysteresis and on only for one below it by more than the hysteresis,
     once per sampling interval. It first preheats to the starting point if one is given, for no longer than half an
     hour; it then runs exactly the configured number of cycles and leaves the process turned off. The gains it returns
     are those of the configured Ziegler-Nichols variant for the oscillations that were observed, averaged over the
     cycles after the first two.""",
     ["schedules", "inputs", "histories", "fault_sequences", "configurations"],
     """Every simulated process (lags, dead time, noise, stuck sensors during preheating), any sampling interval, number
     of cycles, hysteresis, aggressiveness and uptime, slow sensors and callbacks.""",
     """Autotuning has no tests.""",
     [S + "controller/pid.cpp", S + "controller/implementations/pid/pid_tuner.hpp",
      S + "controller/implementations/pid/pid_tuner.cpp"],
     [("do_autotune", S + "controller/implementations/pid/pid_tuner.cpp"), ("autotune", S + "controller/pid.cpp")],
     ["the setter, getter, clock and sleep callbacks of PID::autotune", "the returned tunings"])
prop("C15", "Outputs fade gradually, end exactly on the setpoint and report what they drive",
     """A fade moves the output monotonously from its present value to the setpoint, in steps no larger than the given
     increment and no closer in time than the given interval, without leaving the range between zero and one, and ends
     with the hardware exactly on the setpoint. At every moment the value or state that an output reports is the one it
     last gave to the hardware, and flipping a digital output gives it the opposite state.""",
     ["histories", "inputs", "schedules", "configurations"],
     """Every sequence of sets, flips and fades, also to where it already is, over any distance, increment and interval,
     at any uptime and with time passing between steps.""",
     """Outputs have no tests.""",
     [S + "platform/gpio.hpp", S + "platform/gpio.cpp"], [("fade_to", S + "platform/gpio.cpp")],
     ["values and states that reach the hardware implementation, with the simulated time"])
prop("C16", "Filters bound what a faulty sensor can do to a signal",
     """A band pass passes a sample only when it lies within the configured distance, otherwise keeps its value, and
     accepts an outlier only after more than the configured number of consecutive rejections, raising an error then if
     so configured; an accepted sample starts the count anew. A moving average never leaves the range of the samples it
     has seen and tracks them with its configured length, a mapped range always stays within its output limits, and
     inverting and passing through are exact. A stack of filters is the composition of its filters in the order in
     which they were attached, also after filters were detached or reset, and always reports the present value of its
     last filter.""",
     ["inputs", "histories", "fault_sequences", "configurations"],
     """Every sequence of samples with spikes, stuck values, drift, dropouts and noise, every configuration and
     stacking, with resets and detaching in between. Samples are numbers; a band pass is also given readings that are
     not.""",
     """Filters have no tests.""",
     [S + "filter/filterstack.hpp", S + "filter/implementations/bandpass.hpp", S + "filter/implementations/ewma.hpp",
      S + "filter/implementations/mapped_range.hpp", S + "filter/implementations/invert.hpp",
      S + "filter/implementations/passthrough.hpp"],
     [("value", S + "filter/filterstack.hpp")], ["Filter::value/new_sample/reset_to", "machine-wide error handler"])
prop("C17", "Every log message that is enabled appears once, in order, intact and in bounds",
     """A message is printed exactly when its level is at most the level that is set at that moment, once, in the order
     of the calls, prefixed with the uptime in milliseconds (of which 32 bits are printed) and its level. A message that fits is printed completely; a
     message of any length is cut off at the maximal message size, of which it is a prefix, and never touches memory
     outside of it.""",
     ["inputs", "histories", "configurations"],
     """Every sequence of messages and level changes, also from within handlers and failing assertions, every message
     length around and beyond the limit, any uptime.""",
     """Logging has no tests.""",
     [S + "core/logging.hpp", S + "core/logging.cpp"], [("print", S + "core/logging.cpp")], ["console"])
prop("C18", "A device answers each request exactly once, in order, over a faulty line",
     """A device that is composed of these parts (an event system that polls a buffered stream, answers each line in a
     transaction and logs, with periodic events besides) answers every request that a peer sends within the limits of
     its buffers exactly once, in order and with the right content, while bytes are delayed, reads and writes fail for a
     while and the device stalls. Once the faults stop every outstanding request is answered within a bounded number of
     loops, and the periodic events keep their rhythm throughout.""",
     ["schedules", "histories", "fault_sequences", "configurations"],
     """Every interleaving of both nodes and the wire between them, every placement of faults, any uptime and buffer
     sizes.""",
     """No test combines the parts.""",
     ES + [S + "io/stream/buffered_stream.cpp", S + "io/stream/transaction.cpp", S + "structure/linebuffer.cpp",
           S + "platform/implementations/mock.hpp", S + "core/logging.cpp"],
     [("the whole library", "src/spine")], ["bytes on the simulated wire", "deliveries of periodic events"])

prop("C19", "A device that follows a schedule has the right value all day",
     """At every moment of the day a schedule yields the value of the block that contains that moment, from the second at
     which the block starts up to but not including the second at which it ends, also for a block that continues after
     midnight, and zero when no block does. The next block it reports is the one that starts first after that moment on
     the same day, or the end of the day if there is none, in whichever order the blocks are listed. A device that looks
     at its schedule whenever the next block starts and at midnight therefore applies the right value throughout every
     block, however late it wakes up and whenever its wall clock is set.""",
     ["schedules", "inputs", "histories", "configurations"],
     """Every schedule of blocks that do not overlap, every moment, any number of days, stalls and changes of the wall
     clock.""",
     """Unit tests sample one schedule at a few moments.""",
     [S + "structure/time/schedule.hpp", S + "structure/time/schedule.cpp", ES[1]],
     [("value_at", S + "structure/time/schedule.cpp")], ["Schedule::value_at/start_of_next_block", "values in force"])

A = S + "platform/implementations/arduino.hpp"
Z = S + "platform/implementations/zephyr"
prop("C20", "On Arduino, pins, converters, interrupts, serial port and clock do as asked",
     """On an Arduino board a digital output drives its pin to the level that stands for its state and reports that state,
     an input reads the level of its pin (high when nothing is connected and it is pulled up), and an analogue output is
     given a value from zero up to the largest value of its resolution, in proportion to what was set and inverted when
     it is active on low. An analogue input reads a number between zero and one in proportion to its sample, and full
     scale when it is pulled up and nothing is connected. A callback is called for exactly the edges that it is attached
     to, until it is detached, which leaves other interrupts alone; attaching it anew without naming a callback or edge goes on with the last one.
     Every byte that the serial port reports as read or written came from or went to the line, once and in order, and a
     read or write that didn't happen is not reported. Uptime in milliseconds and in microseconds keeps counting when the
     board's 32-bit counters roll over, and delays last as long as asked. What is printed goes to the console, and halting
     gives its reason before it stops everything.""",
     ["schedules", "histories", "inputs", "fault_sequences", "configurations"],
     """Every sequence of uses of every part, every configuration of pins, any uptime, any behaviour of the outside world:
     levels, edges, disconnected pins, bytes that trickle in, reads and writes that fail or are refused.""",
     """Tests run natively only, no test even compiles this back end.""",
     [A, S + "platform/gpio.hpp", S + "platform/platform.hpp"], [("adapters", A)],
     ["the vendor's API (pins, converters, interrupts, serial ports, clocks)"])
prop("C21", "On Zephyr, clock, delays and logging do as asked",
     """On Zephyr the uptime in milliseconds and in microseconds are two readings of the kernel's clock that never go back,
     run ahead or roll over, a delay lasts at least as long as asked and at most some ticks longer, and a log message
     arrives at the kernel's logger once, with its level and unchanged, exactly when its level is enabled. Setting the
     log level sets the level at which the kernel's logger filters. Halting gives its reason and panics.""",
     ["schedules", "histories", "configurations"],
     """Every sequence of calls, any uptime, any length of a tick, any level.""",
     """Tests run natively only, no test even compiles this back end.""",
     [Z + ".hpp", Z + ".cpp", S + "core/logging.cpp"], [("adapters", Z + ".hpp")],
     ["the kernel's API (uptime, sleeping, logging)"])

prop("C22", "A controller made of all parts outputs what they yield and comes under control",
     """A node whose event system periodically reads sensors, passes the readings through stacks of filters, hands them to
     its controllers, switches a cooler with a hysteresis latch and drives a heating with a PID controller towards a daily
     schedule, does at every reading what its parts together yield: each controller gets the filtered reading once, in the
     order in which handlers were attached, the relay is in the state of the latch, the heating gets the output of the
     PID controller in proportion to its range, and the setpoint is what the schedule has for that time of day, whenever
     the wall clock is set. Sensors are never read and reports are never logged early, however long the node stalls or a
     handler takes, and no reading or report is skipped. Once sensors heal and stalls stop, both temperatures return to where they should be
     within a bounded time and stay there.""",
     ["schedules", "histories", "inputs", "fault_sequences", "configurations"],
     """Every configuration of rooms, filters, controllers and schedule, any uptime, any sequence of sensors that spike,
     stick or jump, stalls, slow handlers, disturbances of the rooms and changes of the wall clock.""",
     """No test combines the parts, and none lets time pass in a controlled process.""",
     ES + [S + "filter/filterstack.hpp", S + "filter/implementations/bandpass.hpp", S + "filter/implementations/ewma.hpp",
           S + "filter/implementations/mapped_range.hpp", S + "controller/sr_latch.cpp", S + "controller/pid.cpp",
           S + "controller/implementations/pid/pid_controller.cpp", S + "structure/time/schedule.cpp", S + "platform/gpio.hpp"],
     [("the whole library", "src/spine")], ["relay and heating outputs", "readings handed to handlers", "log", "temperatures"])

prop("C23", "Lines of text are understood for what they say, wherever they lie",
     """A node that takes lines from its buffered stream, in any of the ways offered, and picks them apart with the text
     functions (stripping, tests for a prefix or suffix, searching, reading numbers and durations, static strings) reaches
     the result that follows from that line alone, wherever in the buffer it lies and whatever lies behind it, for any
     bytes. No line makes it read or write outside of it, throw or allocate for a static string. A text that isn't a
     number or duration isn't taken for one; one that is has its value; a setting for such a duration expires when that has
     passed and not earlier. A duration is told in text within half a unit, and describing what is pending
     tells of every pending event how much time is left, and raises no error while time passes.""",
     ["inputs", "histories", "schedules", "fault_sequences"],
     """Every sequence of lines of any bytes, in any chunks, at any place in a buffer of any size, with any delimiter and
     separators, failing reads, stalls and slow handlers.""",
     """Text functions have no tests, and no test picks apart a line that lies in a buffer among others.""",
     [S + "core/utils/string.cpp", S + "core/utils/time_repr.hpp", S + "core/utils/time_repr.cpp",
      S + "structure/static_string.cpp", S + "eventsystem/pipeline.cpp", S + "io/stream/buffered_stream.hpp",
      S + "io/stream/transaction.cpp"],
     [("strip", S + "core/utils/string.cpp"), ("parse_time", S + "core/utils/time_repr.cpp"),
      ("repr", S + "core/utils/time_repr.hpp"), ("static string", S + "structure/static_string.cpp")],
     ["views and values returned", "events delivered", "descriptions"])

prop("C24", "Lists hand out what was put in them, in order, once each",
     """A node that keeps its work in vectors, stacks and arrays (as a queue, as a double-ended queue, by index, last in first
     out, with one buffer that is filled while another is reported) finds in them exactly what was put in and not yet
     taken out, in that order, from whichever side, by whichever means (indices, ends, iteration in either direction) it
     looks, however often the list ran full, ran empty or was swapped. Each element that owns something is owned once: what was
     taken out, popped or cleared is released with the last one that refers to it, nothing is released earlier or twice, and no
     storage is lost, also when handlers fail in the middle. Work that is carried out in stages (results) goes on,
     succeeds or fails as the stage that settled it said, with its value or reason, and no later stage is carried out.""",
     ["histories", "schedules", "fault_sequences"],
     """Every sequence of calls on lists of any capacity, with elements that share ownership, by handlers at any moment that are
     late, slow or fail.""",
     """Tests walk through fixed scripts, mostly on integers, and hardly ever from a list whose front moved.""",
     [S + "structure/vector.hpp", S + "structure/array.hpp", S + "structure/stack.hpp", S + "structure/result.hpp",
      S + "core/meta/unique_type_variant.hpp"],
     [("vector", S + "structure/vector.hpp"), ("stack", S + "structure/stack.hpp"), ("chain", S + "structure/result.hpp")],
     ["elements returned", "owners of each element", "allocations"])

prop("C25", "A calendar shows the date and time that it is",
     """A node that keeps a calendar from what it was built at (text of date and time), from the fields of a clock
     chip that survives resets, or from timestamps that a peer sends, shows at any moment the year, month, day, hour, minute,
     second, day of the week and of the year which that moment has, its timestamps since 1970 and since 2000 differ by a
     constant, fields that run over are carried into the next, going from timestamp to fields and back changes nothing,
     and its text is the one asked for and stays within its buffer. No moment raises an error.""",
     ["histories", "inputs", "fault_sequences"],
     """Any moment from 1970 up to 2400, and any history of resets (of which only the clock chip knows how long they took), empty
     batteries, stalls and settings of the time.""",
     """Date and time have no tests.""",
     [S + "structure/time/datetime.hpp", S + "structure/time/datetime.cpp"],
     [("constructors", S + "structure/time/datetime.cpp"), ("set_timestamps", S + "structure/time/datetime.cpp")],
     ["getters", "timestamps", "text"])

prop("C26", "A meter's amounts keep their value, whichever units its parts hold them in",
     """A device that adds up what passes (periods of its clock, volumes, energy, rates), takes away, scales, compares it
     with limits and reports it, holds at any moment the amount that these steps yield, whichever magnitudes of a unit its
     parts use: periods of the clock to the nearest whole number and exactly so at any uptime, other amounts within the precision of
     their type. A real period that is made into a whole one is rounded as asked, by default up, so that a delay made of it is never
     too short. A rate is the ratio of its parts, also after it was converted, added to, taken from, scaled, negated
     or simplified, and comparisons agree with each other and with the amounts. Dividing by nothing, and asking for a rate over no
     time, raises an error once and changes nothing; nothing else raises one.""",
     ["histories", "inputs", "schedules"],
     """Any sequence of operations between units of any magnitude, at any uptime, with time that passes at its own pace.""",
     """Unit tests sample a handful of values, at which roundings don't show.""",
     [S + "structure/units/primitives/unit.hpp", S + "structure/units/primitives/compound_unit.hpp",
      S + "structure/units/primitives/magnitudes.hpp", S + "structure/units/time.hpp", S + "structure/units/energy.hpp",
      S + "structure/units/volume.hpp", S + "structure/units/temperature.hpp"],
     [("from_other", S + "structure/units/primitives/unit.hpp"), ("sums of rates", S + "structure/units/primitives/compound_unit.hpp"),
      ("to_kernel_time", S + "structure/units/time.hpp")],
     ["amounts", "comparisons", "errors", "delays made of real periods"])

prop("N01", "Arithmetic of points is that of vectors",
     """Adding, subtracting, scaling and normalising points yields what the same operation yields on the vectors they stand
     for.""",
     ["inputs"], "All values.", "Unit tests sample a handful of values.",
     [S + "structure/point.hpp"], [("operators", S + "structure/point.hpp")],
     ["return values"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
