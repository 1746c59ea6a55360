// A simulated Zephyr logger: whatever a module logs arrives at the simulator, filtered by level.
#pragma once

#include <cstdarg>

#define LOG_LEVEL_NONE 0
#define LOG_LEVEL_ERR 1
#define LOG_LEVEL_WRN 2
#define LOG_LEVEL_INF 3
#define LOG_LEVEL_DBG 4

void sim_zephyr_log(int level, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
#define LOG_MODULE_REGISTER(name, level) static const int sim_log_module_level = level
#define LOG_MODULE_DECLARE(name, level) (void)0
#define SIM_LOG_(level, ...)                                                                                           \
    do {                                                                                                               \
        if (level <= sim_log_module_level) sim_zephyr_log(level, __VA_ARGS__);                                         \
    } while (0)
#define LOG_ERR(...) SIM_LOG_(LOG_LEVEL_ERR, __VA_ARGS__)
#define LOG_WRN(...) SIM_LOG_(LOG_LEVEL_WRN, __VA_ARGS__)
#define LOG_INF(...) SIM_LOG_(LOG_LEVEL_INF, __VA_ARGS__)
#define LOG_DBG(...) SIM_LOG_(LOG_LEVEL_DBG, __VA_ARGS__)
