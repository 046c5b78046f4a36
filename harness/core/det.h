// Deterministic environment for whole-table explorations: wall clock, sleeps and the kernel's uuid
// source are replaced so that re-executing the same choices gives the same files.
#pragma once
#include <cstdint>

namespace det {
extern bool on;             // replacements active
extern int64_t now_us;      // what gettimeofday reports; advances by 1 ms per call
extern uint64_t uuid_next;  // the next uuid handed out
void Reset(uint64_t uuid_base = 1);
}  // namespace det
