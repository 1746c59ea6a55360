// The simulated board behind the simulated Arduino core.
#pragma once

#include "sim.hpp"

#include <functional>

namespace sim::board {

constexpr int PINS = 24;

struct Pin {
    int mode = -1; // -1: never configured
    int driven = 0; // the level that the board gives it
    int level = 0; // the level that the outside world gives it, -1: not connected
    int duty = -1; // -1: never given
    int duty_bits = 0; // the resolution at which it was given
    int sample = 0; // what the converter will read
    u64 writes = 0, duties = 0;
};
struct Board {
    Pin pins[PINS];
    int write_resolution = 8, read_resolution = 10;
    struct {
        void (*isr)() = nullptr;
        int mode = -1;
        bool pending = false; // it came while interrupts were disabled
    } vectors[8]; // by interrupt, not by pin
    bool interrupts = true;
    bool halting = false; // disabling the interrupts is the last thing that the board is expected to do
    i64 baudrate = -1;
    int begins = 0;
    u64 flushes = 0;
    u64 serial_flushes = 0;
};
Board& board();
void reset();

/// The outside world changes the level of a pin; an interrupt that waits for that edge fires at once
void drive(int pin, int level);
int vector_of(int pin);
int level_at(int pin);

struct Halted {};

/// Runs `f` and returns true if it is still spinning after a while (it is never returned to), or false if it came back
bool spins(const std::function<void()>& f);

} // namespace sim::board
