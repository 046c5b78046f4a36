#include "core/det.h"

#include <dlfcn.h>
#include <sched.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

namespace det {
bool on = false;
int64_t now_us = 0;
uint64_t uuid_next = 1;
void Reset(uint64_t uuid_base) {
    on = true;
    now_us = 1700000000000000LL;
    uuid_next = uuid_base;
}
}  // namespace det

extern "C" {

int gettimeofday(struct timeval* tv, void* tz) __THROW {
    (void)tz;
    if (!det::on) {
        struct timespec ts;
        clock_gettime(CLOCK_REALTIME, &ts);
        tv->tv_sec = ts.tv_sec;
        tv->tv_usec = ts.tv_nsec / 1000;
        return 0;
    }
    det::now_us += 1000;
    tv->tv_sec = det::now_us / 1000000;
    tv->tv_usec = det::now_us % 1000000;
    return 0;
}

using NanoFn = int (*)(const struct timespec*, struct timespec*);
int nanosleep(const struct timespec* req, struct timespec* rem) {
    if (det::on) return 0;
    static NanoFn real = reinterpret_cast<NanoFn>(dlsym(RTLD_NEXT, "nanosleep"));
    return real(req, rem);
}
using ClockNanoFn = int (*)(clockid_t, int, const struct timespec*, struct timespec*);
int clock_nanosleep(clockid_t c, int flags, const struct timespec* req, struct timespec* rem) {
    if (det::on) return 0;
    static ClockNanoFn real = reinterpret_cast<ClockNanoFn>(dlsym(RTLD_NEXT, "clock_nanosleep"));
    return real(c, flags, req, rem);
}

using UsleepFn = int (*)(useconds_t);
int usleep(useconds_t us) {
    if (det::on) return sched_yield();
    static UsleepFn real = reinterpret_cast<UsleepFn>(dlsym(RTLD_NEXT, "usleep"));
    return real(us);
}

using FopenFn = FILE* (*)(const char*, const char*);
static FILE* OpenFile(const char* name, const char* path, const char* mode, FopenFn* real) {
    if (det::on && strcmp(path, "/proc/sys/kernel/random/uuid") == 0) {
        char buf[64];
        unsigned long long u = det::uuid_next++;
        int n = snprintf(buf, sizeof(buf), "%08llx-0000-4000-8000-%012llx\n", u & 0xffffffffULL, u);
        int fd = memfd_create("uuid", MFD_CLOEXEC);
        if (fd < 0 || write(fd, buf, n) != n || lseek(fd, 0, SEEK_SET) != 0) return nullptr;
        return fdopen(fd, mode);
    }
    if (!*real) *real = reinterpret_cast<FopenFn>(dlsym(RTLD_NEXT, name));
    return (*real)(path, mode);
}
FILE* fopen(const char* path, const char* mode) {
    static FopenFn real = nullptr;
    return OpenFile("fopen", path, mode, &real);
}
FILE* fopen64(const char* path, const char* mode) {
    static FopenFn real = nullptr;
    return OpenFile("fopen64", path, mode, &real);
}
}
