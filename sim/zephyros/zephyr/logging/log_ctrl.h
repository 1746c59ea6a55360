// Control over the levels at which the simulated logger filters at run time.
#pragma once

#include <cstddef>
#include <cstdint>

extern "C" {
struct log_backend;
const struct log_backend* log_backend_get_by_name(const char* name);
uint32_t log_filter_set(struct log_backend const* const backend, uint32_t domain_id, int16_t source_id, uint32_t level);
}
