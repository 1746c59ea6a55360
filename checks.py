"""What each check runs: scenarios, build configurations, and which violation classes belong to the property."""

CONFIGS = {
    "release": {"flags": ["-DNATIVE"], "seams": ["seams.cpp", "clock_mock.cpp"]},
    "debug": {"flags": ["-DNATIVE", "-DDEBUG_SPINE"], "seams": ["seams.cpp", "clock_mock.cpp"]},
    # amounts held in doubles, an option of the library
    "precise": {"flags": ["-DNATIVE", "-DSPN_PLATFORM_CAP_DOUBLE"], "seams": ["seams.cpp", "clock_mock.cpp"]},
    # the other platforms, on a simulated Arduino core and a simulated Zephyr kernel
    "arduino": {"flags": ["-DARDUINO=10819"], "include": ["arduino"],
                "seams": ["seams.cpp", "board_arduino.cpp"]},
    "arduino-debug": {"flags": ["-DARDUINO=10819", "-DDEBUG_SPINE"], "include": ["arduino"],
                      "seams": ["seams.cpp", "board_arduino.cpp"]},
    "zephyr-debug": {"flags": ["-DZEPHYR", "-DCONFIG_LOG_RUNTIME_FILTERING", "-DDEBUG_SPINE"], "include": ["zephyros"],
                     "seams": ["seams.cpp", "kernel_zephyr.cpp"]},
    "zephyr": {"flags": ["-DZEPHYR", "-DCONFIG_LOG_RUNTIME_FILTERING"], "include": ["zephyros"],
               "seams": ["seams.cpp", "kernel_zephyr.cpp"]},
}

# a crash, memory error, abort or hang inside a scenario breaks whatever is being decided
ALWAYS = ["memory:*", "crash", "abort", "hang"]

REAL = ["all of /repo/src/spine as built for NATIVE (every .cpp of the working tree, AddressSanitizer on)"]
STUBS = ["clock: the library's own mock platform state, advanced only by the simulator",
         "console: std::cout into memory", "heap: real, but watched and failing on request"]

BOTH = {"release": 0.75, "debug": 0.25}


def everywhere(*platforms, **special):
    """Natively in both builds, and on the named simulated platforms."""
    out = dict(BOTH)
    for p in platforms:
        out[p] = dict({"share": 0.1, "optional": True}, **special.get(p.replace("-", "_"), {}))
    return out

EVSYS_RULE = ("Each run draws capacities, ids, handlers, payload types, an uptime and a fault mix, then up to 120 steps "
              "of scheduling, triggering, holding, stalling and looping; non-trivial: at least one event was delivered.")
EVSYS_ASSUMES = ["every id has a handler", "an event object is not scheduled again while it is scheduled"]

STREAM_RULE = ("Each run draws buffer sizes, delimiters, a byte stream and a fault mix, then up to 150 steps of "
               "receiving, pulling, viewing, copying, dropping, writing and flushing; non-trivial: data came through.")
STREAM_ASSUMES = ["the underlying stream honours its own available() and available_for_write()"]

CHECKS = {
    "C01": dict(
        files=["evsys", "store"], scenarios=["evsys", "evsys", "pipeline"], configs=everywhere("arduino", "zephyr"), runs=60000, only=["delivery:*"],
        rule=EVSYS_RULE, assumptions=EVSYS_ASSUMES,
        oracle="against a reference model of pending events and attached handlers",
        note="Real event system, pipeline, pool and timers under a simulated clock."),
    "C02": dict(
        files=["evsys", "store"], scenarios=["evsys", "pipeline"], configs=everywhere("arduino", "zephyr"), runs=60000, only=["order:*"],
        rule=EVSYS_RULE, assumptions=EVSYS_ASSUMES,
        oracle="against the total order on (due moment, scheduling order)",
        note="Real event system, pipeline, pool and timers under a simulated clock."),
    "C03": dict(
        files=["evsys", "store"], scenarios=["evsys", "pipeline", "pool"], configs=everywhere("arduino", "zephyr"), runs=60000, only=["store:*"],
        rule=EVSYS_RULE, assumptions=EVSYS_ASSUMES,
        oracle="against an ownership model, with every allocation tracked",
        note="Real event system, pipeline, pool and timers under a simulated clock."),
    "C04": dict(
        files=["evsys", "store"], scenarios=["evsys", "evsys", "pipeline"], configs=everywhere("arduino", "zephyr"), runs=60000, only=["sleep:*"],
        rule=EVSYS_RULE, assumptions=EVSYS_ASSUMES,
        oracle="against the earliest pending due moment",
        note="Real event system, pipeline, pool and timers under a simulated clock."),
    "C05": dict(
        files=["diag"], scenarios=["errors"], configs=BOTH, runs=60000, only=["error:*"],
        rule="Each run draws a behaviour of handlers and up to 80 steps of raising errors directly, through filters, "
             "units and assertions, and of replacing handlers; non-trivial: an error was raised.",
        assumptions=["whoever replaces a handler from within that handler keeps it alive until it returns"],
        oracle="against a model of the installed handler and the errors being raised",
        note="Real error handling, logging, filters and units."),
    "C06": dict(
        files=["evsys", "store", "stream", "ring", "timers", "diag", "control", "outputs", "filters", "system", "daily", "climate", "commands", "jobs"],
        scenarios=["evsys", "input", "output", "tx", "evsys", "ring", "lines", "timers",
                   "pipeline", "pool", "errors", "logs", "latch", "pid", "pidcore", "outputs", "filter", "filterstack", "system", "schedule", "climate", "commands", "jobs"],
        configs=everywhere(
            "arduino", "zephyr",
            arduino=dict(files=["evsys", "stream", "timers", "control", "outputs", "system", "daily", "board"],
                         scenarios=["evsys", "tx", "timers", "latch", "pid", "outputs", "system", "schedule", "board"]),
            zephyr=dict(files=["evsys", "timers", "control", "system", "daily", "kernel"],
                        scenarios=["evsys", "timers", "latch", "pid", "system", "schedule", "kernel"])), runs=60000, only=["heap"],
        rule=EVSYS_RULE, assumptions=EVSYS_ASSUMES,
        oracle="with every allocation after construction failing",
        note="Real event system, streams, buffers and timers under a simulated clock."),
    "C07": dict(
        files=["stream", "ring"], scenarios=["input", "input", "lines"], configs=BOTH, runs=40000,
        only=["input:*", "line:*", "leak"],
        rule=STREAM_RULE, assumptions=STREAM_ASSUMES,
        oracle="against a reference model of the lines on the wire",
        note="Real buffered stream and line buffer on a simulated wire."),
    "C08": dict(
        files=["stream"], scenarios=["output"], configs=BOTH, runs=40000, only=["output:*", "leak"],
        rule=STREAM_RULE, assumptions=STREAM_ASSUMES,
        oracle="against a reference queue of accepted bytes",
        note="Real buffered stream and ring buffer on a simulated wire."),
    "C09": dict(
        files=["stream"], scenarios=["tx"], configs=BOTH, runs=40000, only=["tx:*", "input:*", "output:*", "leak"],
        rule=STREAM_RULE, assumptions=STREAM_ASSUMES + ["one transaction is open at a time",
                                                        "nothing else is written to or flushed with rollover while a "
                                                        "transaction is open"],
        oracle="against a reference model of both buffers",
        note="Real buffered stream and transactions on a simulated wire."),
    "C10": dict(
        files=["ring"], scenarios=["ring", "ring", "mockstream"], configs=BOTH, runs=40000, only=["ring:*", "mock:*"],
        rule="Each run draws a capacity and up to 200 operations of a producer and a consumer; non-trivial: elements "
             "went through.",
        assumptions=["peeking and popping only when there is something (as documented)"],
        oracle="against a reference queue", note="Real ring buffer and mock stream."),
    "C11": dict(
        files=["timers"], scenarios=["timers"], configs=everywhere("arduino", "zephyr"), runs=60000,
        only=["clock:*", "timer:*", "alarm:*", "interval:*"],
        rule="Each run draws an uptime and up to 100 polls, resets, delays and stalls of several timers; non-trivial: a "
             "timer fired.",
        assumptions=["an interval timer that is polled exactly at its interval may fire then or at the next poll"],
        oracle="against exact integer arithmetic on the simulated clock",
        note="Real timers and clock."),
    "C12": dict(
        files=["control"], scenarios=["latch"], configs=everywhere("arduino"), runs=60000, only=["latch:*"],
        rule="Each run draws a configuration, an uptime and up to 120 polls of a noisy signal with jitter, stalls and "
             "reconfigurations; non-trivial: the latch switched.",
        assumptions=["polled in time order on one clock"],
        oracle="against a reference latch on the simulated clock", note="Real hysteresis latch."),
    "C13": dict(
        files=["control"], scenarios=["pid", "pidcore"], configs=everywhere("arduino"), runs=60000, only=["pid:*"],
        rule="Each run draws tunings, limits, an uptime and up to 120 samples with jitter, stalls, repeated moments, "
             "noise and reconfigurations; non-trivial: outputs were computed.",
        assumptions=["samples are finite numbers", "the first sample is not taken before the controller was made"],
        oracle="against a reference controller and bounds on its output", note="Real PID controller."),
    "C14": dict(
        files=["control"], scenarios=["autotune"], configs=everywhere("arduino"), runs=20000, only=["tune:*"],
        rule="Each run draws a plant, a tuner configuration, an uptime and a fault mix (jitter, stalls, noise, dead "
             "sensors, restarts) and runs a tuning to its end; non-trivial: the tuner swept.",
        assumptions=["samples are finite numbers", "the tuner is called periodically"],
        oracle="against bounds on every step and a bound on its duration", note="Real autotuner on a simulated plant."),
    "C15": dict(
        files=["outputs"], scenarios=["outputs"], configs=everywhere("arduino"), runs=60000, only=["output:*", "digital:*", "fade:*"],
        rule="Each run draws pins, polarities, limits and up to 100 steps of setting, fading, toggling and polling with "
             "jitter and stalls; non-trivial: an output changed.",
        assumptions=["finite values", "fade increments above zero"],
        oracle="against the values the pins must have", note="Real digital and analogue outputs on mock pins."),
    "C16": dict(
        files=["filters"], scenarios=["filter", "filterstack"], configs=BOTH, runs=60000, only=["filter:*", "stack:*"],
        rule="Each run draws a filter or a stack of filters and up to 120 samples with outliers, resets and "
             "reconfigurations; non-trivial: samples came through.",
        assumptions=["samples are numbers (not-a-number is only fed to the band pass)"],
        oracle="against reference filters in double precision", note="Real filters and filter stacks."),
    "C17": dict(
        files=["diag"], scenarios=["logs"],
        configs={"release": 0.5, "debug": 0.5, "arduino": {"share": 0.1, "optional": True},
                 "zephyr-debug": {"share": 0.1, "optional": True}}, runs=60000, only=["log:*"],
        rule="Each run draws a level, an uptime and up to 80 steps of printing messages of any size, alone, nested, in "
             "bursts and from handlers, and of changing the level; non-trivial: something was printed.",
        assumptions=["messages are printed with the library's macros, and the default sink"],
        oracle="against the exact text that is expected",
        note="Real logging on a console in memory."),
}

CHECKS["C18"] = dict(
    files=["system"], scenarios=["system"], configs=everywhere("arduino", "zephyr"), runs=24000, only=["system:*", "leak"],
    rule="Each run draws two nodes, a line between them and a fault mix, then up to 150 steps of running either node, "
         "stalling nodes and the line, and resetting the device, and ends with a fault-free sweep; non-trivial: a "
         "request was answered while faults were on.",
    assumptions=["bytes that arrived are not corrupted", "requests and replies fit in the buffers of both nodes",
                 "a reset device forgets what it was doing, and then the host repeats itself"],
    oracle="against the exact bytes each node promised, with bounded liveness once the faults stop",
    note="Real event system, streams, transactions, UART adapter, timers and logging on both nodes.",
    stubs=STUBS + ["the serial line and the application logic of both nodes"])

CHECKS["C19"] = dict(
    files=["daily"], scenarios=["schedule"], configs=everywhere("arduino", "zephyr"), runs=40000, only=["schedule:*"],
    rule="Each run draws a schedule and a time of day, then up to 60 steps of waiting for a change, polling, stalling, "
         "setting the wall clock and asking about arbitrary moments; non-trivial: the value in force changed.",
    assumptions=["blocks do not overlap and start within the day"],
    oracle="against a reference calendar", note="Real schedule, event system and clock.")

CHECKS["C20"] = dict(
    files=["board"], scenarios=["board"], configs={"arduino": 0.6, "arduino-debug": 0.4}, runs=24000, only=["board:*"],
    rule="Each run sets up a board with outputs, inputs, converters, interrupts and a serial port at any uptime, then takes "
         "up to 80 steps of using and disturbing them, and may end with a halt; non-trivial: a pin was switched or bytes "
         "came through.",
    assumptions=["the board has one resolution for all its analogue outputs",
                 "the uptime is asked for at least once in ten days",
                 "interrupts are numbered by the vendor's mapping from pins to interrupts, edges as on AVR, SAM and STM32"],
    oracle="against the state of a simulated board", note="Real Arduino back end on a simulated Arduino core.",
    real=["all of /repo/src/spine as built for ARDUINO, AddressSanitizer on"],
    stubs=["the vendor's core: pins, converters, interrupts, serial ports and 32-bit clocks (sim/board_arduino.cpp)",
           "the peer on the serial line", "heap: real, but watched"])

CHECKS["C21"] = dict(
    files=["kernel"], scenarios=["kernel"], configs={"zephyr": 0.6, "zephyr-debug": 0.4}, runs=24000, only=["kernel:*"],
    rule="Each run draws a tick length and an uptime, then up to 80 steps of waiting, delaying, logging and changing the "
         "level, and may end with a halt; non-trivial: a delay ended or a message came through.",
    assumptions=["a sleep isn't cut short by waking the thread up", "delays are shorter than 24 days"],
    oracle="against the state of a simulated kernel", note="Real Zephyr back end on a simulated Zephyr kernel.",
    real=["all of /repo/src/spine as built for ZEPHYR, AddressSanitizer on"],
    stubs=["the kernel: uptime, sleeping, busy waiting and its logger (sim/kernel_zephyr.cpp)", "heap: real, but watched"])

CHECKS["C22"] = dict(
    files=["climate"], scenarios=["climate"], configs=everywhere("arduino", "zephyr"), runs=16000, only=["climate:*", "leak"],
    rule="Each run draws two rooms, sensors, filters, controllers, a schedule and a fault mix, then up to 150 steps of "
         "running the controller, stalling it, opening doors and setting its wall clock, and ends with a fault-free sweep; "
         "non-trivial: the cooler was switched.",
    assumptions=["blocks do not overlap", "sensors that fail yield some number"],
    oracle="against reference models of every part, and bounds on what is controlled once the faults stop",
    note="Real event system, filters, latch, PID controller, schedule, outputs, timers and logging.",
    stubs=STUBS + ["the rooms, their sensors, and the application's handlers"])

CHECKS["C23"] = dict(
    files=["commands"], scenarios=["commands"], configs=BOTH, runs=40000, only=["text:*", "leak"],
    rule="Each run draws a buffer, separators, a fault mix and up to 100 steps of sending lines (commands, edge cases and "
         "garbage), letting them arrive in pieces, stalling and looping; non-trivial: a number or duration was understood.",
    assumptions=["lines fit in the buffers", "a number is written as a decimal (other notations may be understood or not)"],
    oracle="against what each line says by itself, and settings that last as long as they say",
    note="Real text functions, static strings, buffered stream, transactions and event system.")

CHECKS["C24"] = dict(
    files=["jobs"], scenarios=["jobs"], configs=BOTH, runs=40000, only=["list:*", "leak"],
    rule="Each run draws capacities, periods, a fault mix and up to 120 steps of letting time pass, in which handlers put jobs "
         "in lists, take them out, look at them and swap buffers; non-trivial: three jobs were done.",
    assumptions=["lists are emptied before they are torn down", "elements may be moved in memory (which the lists do)",
                 "nothing is put in front of or into a list that is full"],
    oracle="against reference lists, with the owners of every job counted",
    note="Real vectors, stacks, arrays and event system.")

CHECKS["C25"] = dict(
    files=["calendar"], scenarios=["calendar"], configs=BOTH, runs=24000, only=["calendar:*", "leak"],
    rule="Each run draws a moment at which the device was built and one that its clock chip has, and up to 60 steps of letting "
         "time pass, setting the time and resetting the device; non-trivial: three dates were derived.",
    assumptions=["the time zone is UTC (as on a device), or local time is neither skipped nor repeated", "moments from 1970 up to 2400"],
    oracle="against a calendar that is counted day by day",
    note="Real date and time, and event system.", stubs=STUBS + ["the clock chip"])

CHECKS["C26"] = dict(
    files=["meter"], scenarios=["meter"], configs={"release": 0.5, "precise": 0.35, "debug": 0.15}, runs=40000, only=["units:*", "leak"],
    rule="Each run draws an uptime, a period, a fault mix and up to 100 steps of letting time pass, at which the device adds the "
         "time that passed to its totals and works with amounts in any unit; non-trivial: three readings were processed.",
    assumptions=["amounts are within the range of their type in every unit that is used", "a rate's parts are taken anew before they "
                 "leave that range", "whole numbers halfway may be rounded either way"],
    oracle="against exact integers (periods of the clock) and extended precision with a tolerance of some roundings (others)",
    note="Real units, clock and event system.")

PURE = "a pure function of its arguments: nothing in it depends on scheduling, time, I/O, faults or other parties"
NOT_APPLICABLE = {
    "N01": PURE,
}
