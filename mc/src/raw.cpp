// System calls that stay real even where a harness interposes the libc functions.
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
namespace mc {
int RawClock(struct timespec* ts) {
    return static_cast<int>(syscall(SYS_clock_gettime, CLOCK_MONOTONIC, ts));
}
namespace {}
void RawSleep(struct timespec* ts) { syscall(SYS_nanosleep, ts, nullptr); }
}  // namespace mc
