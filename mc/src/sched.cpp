// Scheduler and race detector behind the instrumentation of -fsanitize=thread. See mc/sched.h.
// This file is compiled without instrumentation and uses no standard containers, so none of its code
// is shared with the instrumented program.
#include "mc/sched.h"

#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <atomic>

#include "mc/mc.h"

namespace mc {
bool InEngine();
}

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
}

namespace {

constexpr int kMaxThreads = 8;
constexpr int kFairness = 60;        // points a thread may pass alone while others could run
constexpr uint64_t kMaxPoints = 60000;

struct VC {
    uint32_t c[kMaxThreads];
};
void Join(VC* a, const VC& b) {
    for (int i = 0; i < kMaxThreads; i++) {
        if (b.c[i] > a->c[i]) a->c[i] = b.c[i];
    }
}

enum Wait { NONE, MUTEX, COND, JOIN, RDLOCK, WRLOCK, FUTEX, ONCE, SLEEP, GUARD };

struct Thread {
    bool used, finished, spinning, detached, joined;
    Wait wait;
    void* obj;
    void* obj2;           // mutex to take again after a condition wait
    bool signaled, timed;
    int64_t deadline;     // virtual nanoseconds
    int futex;
    int futex_val;
    pthread_t handle;
    void* (*fn)(void*);
    void* arg;
    VC vc, acq_pending, rel_fence;
    void* last_load;
    uint64_t last_val;
    int repeat;
};

bool g_active = false;
Thread g_thr[kMaxThreads];
int g_n = 0;
int g_cur = 0;
int g_alone = 0;
uint64_t g_points = 0;
int64_t g_now = 1000000000LL;
bool g_races = true;
bool g_spurious = false;
bool g_delays = false;
thread_local int t_id = -1;
thread_local int t_rt = 0;

struct Rt {
    Rt() { t_rt++; }
    ~Rt() { t_rt--; }
};

bool On() { return g_active && t_id >= 0 && t_rt == 0 && !mc::InEngine(); }
// memory may be given out again by code that is hidden and then be used by code that is not
bool Fresh() { return g_active && t_id >= 0 && !mc::InEngine(); }

void FutexWait(int* p, int v) { syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
void FutexWake(int* p) { syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

// ---- tables -----------------------------------------------------------------------------------

// Open addressing over a dense arena, so that an execution touches few pages.
template <typename V, int LOG>
struct Table {
    struct E {
        uintptr_t k;
        V v;
    };
    uint32_t* index = nullptr;
    E* e = nullptr;
    uint32_t used = 0;
    static void* Map(size_t n) {
        return mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    }
    V* Get(uintptr_t k, bool create) {
        if (!index) {
            index = static_cast<uint32_t*>(Map(sizeof(uint32_t) << LOG));
            e = static_cast<E*>(Map(sizeof(E) << LOG));
        }
        // neighbouring keys share a page of the index
        size_t i = (((k >> 6) * 0x9e3779b97f4a7c15ULL >> (64 - LOG)) & ~size_t{63}) | (k & 63);
        while (index[i]) {
            if (e[index[i]].k == k) return &e[index[i]].v;
            i = (i + 1) & ((size_t{1} << LOG) - 1);
        }
        if (!create) return nullptr;
        if (++used > (size_t{1} << LOG) * 3 / 4) {
            fprintf(stderr, "sched: table full\n");
            _exit(70);
        }
        index[i] = used;
        e[used].k = k;
        return &e[used].v;
    }
    void Clear(uintptr_t from, uintptr_t to) {
        if (used == 0 || from >= to) return;
        if (to - from > used) {
            for (uint32_t i = 1; i <= used; i++) {
                if (e[i].k >= from && e[i].k < to) memset(&e[i].v, 0, sizeof(V));
            }
            return;
        }
        for (uintptr_t k = from; k < to; k++) {
            V* v = Get(k, false);
            if (v) memset(v, 0, sizeof(V));
        }
    }
};

struct Cell {
    uint32_t w[kMaxThreads], r[kMaxThreads];
    uint8_t wm[kMaxThreads], rm[kMaxThreads];
    void* wpc;
    int wthr;
};
Table<VC, 14> g_sync;  // clocks of synchronisation objects and atomics
Table<Cell, 19> g_shadow;

VC* Obj(const void* p) { return g_sync.Get(reinterpret_cast<uintptr_t>(p), true); }
void Tick() { g_thr[t_id].vc.c[t_id]++; }
void Acquire(const void* p) {
    VC* v = g_sync.Get(reinterpret_cast<uintptr_t>(p), false);
    if (v) Join(&g_thr[t_id].vc, *v);
}
void Release(const void* p) {
    Join(Obj(p), g_thr[t_id].vc);
    Tick();
}

void ClearShadow(const void* p, size_t n) {
    auto a = reinterpret_cast<uintptr_t>(p);
    g_shadow.Clear(a >> 3, (a + n + 7) >> 3);
    g_sync.Clear(a, a + n);
}

void Describe(char* out, size_t n, void* pc) {
    Dl_info info;
    if (dladdr(pc, &info) && info.dli_sname) {
        int st = 0;
        char* d = abi::__cxa_demangle(info.dli_sname, nullptr, nullptr, &st);
        snprintf(out, n, "%.150s", d ? d : info.dli_sname);
    } else {
        snprintf(out, n, "%p", pc);
    }
}

void Access(uintptr_t addr, size_t size, bool write, void* pc) {
    if (!g_active || t_id < 0 || t_rt || g_n < 2 || !g_races || mc::InEngine()) return;
    Rt rt;
    Thread& t = g_thr[t_id];
    while (size > 0) {
        uintptr_t g = addr >> 3;
        unsigned off = addr & 7;
        unsigned n = size < 8 - off ? size : 8 - off;
        auto mask = static_cast<uint8_t>(((1u << n) - 1) << off);
        Cell* c = g_shadow.Get(g, true);
        for (int i = 0; i < g_n; i++) {
            if (i == t_id) continue;
            bool bad = (c->wm[i] & mask) && c->w[i] > t.vc.c[i];
            bool badr = write && (c->rm[i] & mask) && c->r[i] > t.vc.c[i];
            if (bad || badr) {
                char a[200], b[200];
                Describe(a, sizeof a, pc);
                Describe(b, sizeof b, c->wthr == i ? c->wpc : nullptr);
                mc::Fail("data-race",
                         "thread %d %s %u byte(s) without synchronisation with thread %d's %s; here: %s; "
                         "other: %s",
                         t_id, write ? "writes" : "reads", n, i, bad ? "write" : "read", a, b);
            }
        }
        if (write) {
            if (c->w[t_id] == t.vc.c[t_id]) {
                c->wm[t_id] |= mask;
            } else {
                c->w[t_id] = t.vc.c[t_id];
                c->wm[t_id] = mask;
            }
            c->wpc = pc;
            c->wthr = t_id;
        } else {
            if (c->r[t_id] == t.vc.c[t_id]) {
                c->rm[t_id] |= mask;
            } else {
                c->r[t_id] = t.vc.c[t_id];
                c->rm[t_id] = mask;
            }
        }
        addr += n;
        size -= n;
    }
}

// ---- scheduling -------------------------------------------------------------------------------

int* Owner(pthread_mutex_t* m) { return &m->__data.__owner; }  // thread id + 1, 0 when free
struct RwState {
    int writer;   // thread id + 1
    int readers;
};
RwState* Rw(pthread_rwlock_t* l) { return reinterpret_cast<RwState*>(l); }

bool Enabled(int i) {
    Thread& t = g_thr[i];
    if (!t.used || t.finished) return false;
    switch (t.wait) {
        case NONE:
            return true;
        case MUTEX:
            return *Owner(static_cast<pthread_mutex_t*>(t.obj)) == 0;
        case COND:
            return t.signaled && *Owner(static_cast<pthread_mutex_t*>(t.obj2)) == 0;
        case JOIN:
            return g_thr[t.futex_val].finished;
        case RDLOCK:
            return Rw(static_cast<pthread_rwlock_t*>(t.obj))->writer == 0;
        case WRLOCK: {
            RwState* s = Rw(static_cast<pthread_rwlock_t*>(t.obj));
            return s->writer == 0 && s->readers == 0;
        }
        case FUTEX:
            return t.signaled;
        case ONCE:
            return *static_cast<int*>(t.obj) != 1;
        case GUARD:
            return reinterpret_cast<char*>(t.obj)[1] == 0;
        case SLEEP:
            return false;
    }
    return false;
}

void SwitchTo(int to) {
    int me = t_id;
    if (to == me) return;
    g_cur = to;
    g_alone = 0;
    __atomic_store_n(&g_thr[to].futex, 1, __ATOMIC_RELEASE);
    FutexWake(&g_thr[to].futex);
    if (g_thr[me].finished) return;
    while (__atomic_load_n(&g_thr[me].futex, __ATOMIC_ACQUIRE) == 0) FutexWait(&g_thr[me].futex, 0);
    g_thr[me].futex = 0;
}

const char* WaitName(Wait w) {
    switch (w) {
        case MUTEX:
            return "mutex";
        case COND:
            return "condition";
        case JOIN:
            return "join";
        case RDLOCK:
        case WRLOCK:
            return "rwlock";
        case FUTEX:
            return "future";
        case ONCE:
        case GUARD:
            return "once";
        case SLEEP:
            return "sleep";
        default:
            return "running";
    }
}

// Chooses who runs next. The caller's thread state is already updated. `yield` demotes the caller.
void Schedule(bool yield) {
    int me = t_id;
    if (++g_points > kMaxPoints) {
        mc::Fail("livelock", "the threads pass %llu scheduling points without finishing",
                 static_cast<unsigned long long>(g_points));
    }
    while (true) {
        int cand[kMaxThreads];
        int n = 0;
        bool self = Enabled(me) && !g_thr[me].spinning;
        if (yield || g_alone > kFairness) {
            bool others = false;
            for (int i = 0; i < g_n; i++) others = others || (i != me && Enabled(i) && !g_thr[i].spinning);
            if (others) self = false;
        }
        if (self) cand[n++] = me;
        for (int k = 1; k <= g_n; k++) {
            int i = (me + k) % g_n;
            if (i != me && Enabled(i) && !g_thr[i].spinning) cand[n++] = i;
        }
        if (n == 0) {
            // only spinning threads left: let them look again
            bool any = false;
            for (int i = 0; i < g_n; i++) {
                if (Enabled(i) && g_thr[i].spinning) {
                    g_thr[i].spinning = false;
                    any = true;
                }
            }
            if (any) continue;
            // time passes
            int best = -1;
            for (int i = 0; i < g_n; i++) {
                Thread& t = g_thr[i];
                if (t.used && !t.finished && (t.wait == SLEEP || t.timed) &&
                    (best < 0 || t.deadline < g_thr[best].deadline)) {
                    if ((t.wait == COND || t.wait == FUTEX || t.wait == SLEEP)) best = i;
                }
            }
            if (best >= 0) {
                Thread& t = g_thr[best];
                if (t.deadline > g_now) g_now = t.deadline;
                if (t.wait == SLEEP) {
                    t.wait = NONE;
                } else {
                    t.signaled = true;
                    t.timed = false;
                    t.futex_val = ETIMEDOUT;
                }
                continue;
            }
            char buf[600];
            int o = 0;
            for (int i = 0; i < g_n; i++) {
                if (!g_thr[i].finished) {
                    o += snprintf(buf + o, sizeof buf - o, " thread %d waits for %s;", i,
                                  WaitName(g_thr[i].wait));
                }
                if (o > 500) break;
            }
            mc::Fail("deadlock", "no thread can run:%s", buf);
        }
        int pick;
        if (n == 1) {
            pick = cand[0];
        } else if (self) {
            pick = cand[mc::ChooseDev(n)];
        } else if (g_alone > kFairness) {
            pick = cand[0];
        } else {
            pick = cand[g_delays ? mc::ChooseDev(n) : mc::Choose(n)];
        }
        if (pick == me) {
            g_alone++;
            return;
        }
        for (int i = 0; i < g_n; i++) {
            if (i != me) g_thr[i].spinning = g_thr[i].spinning && i != pick;
        }
        SwitchTo(pick);
        return;
    }
}

void Wake() {
    // the running thread changed something: spinning threads may look again
    for (int i = 0; i < g_n; i++) {
        if (i != t_id) g_thr[i].spinning = false;
    }
}

void PointRt() {
    Schedule(false);
}

void Block(Wait w, void* obj) {
    Thread& t = g_thr[t_id];
    t.wait = w;
    t.obj = obj;
    Schedule(false);
    g_thr[t_id].wait = NONE;
}

void LockMutex(pthread_mutex_t* m) {
    int me = t_id + 1;
    if (*Owner(m) == me) {
        if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) {
            m->__data.__count++;
            return;
        }
        mc::Fail("deadlock", "thread %d locks a mutex it already holds", t_id);
    }
    while (*Owner(m) != 0) Block(MUTEX, m);
    *Owner(m) = me;
    m->__data.__count = 1;
    Acquire(m);
}

void UnlockMutex(pthread_mutex_t* m) {
    if (*Owner(m) != t_id + 1) {
        mc::Fail("unlock", "thread %d unlocks a mutex it does not hold", t_id);
    }
    if (--m->__data.__count > 0) return;
    Release(m);
    *Owner(m) = 0;
    Wake();
}

int64_t ToNs(const struct timespec* ts) { return ts->tv_sec * 1000000000LL + ts->tv_nsec; }

int CondWait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* abs) {
    PointRt();
    if (g_spurious && mc::ChooseDev(2) == 1) {
        // woken without a signal
        UnlockMutex(m);
        PointRt();
        LockMutex(m);
        return 0;
    }
    Thread& t = g_thr[t_id];
    UnlockMutex(m);
    t.signaled = false;
    t.timed = abs != nullptr;
    t.deadline = abs ? ToNs(abs) : 0;
    t.futex_val = 0;
    t.wait = COND;
    t.obj = c;
    t.obj2 = m;
    Schedule(false);
    t.wait = NONE;
    t.timed = false;
    int rc = t.futex_val == ETIMEDOUT ? ETIMEDOUT : 0;
    t.futex_val = 0;
    LockMutex(m);
    if (rc == 0) Acquire(c);
    return rc;
}

void CondSignal(pthread_cond_t* c, bool all) {
    PointRt();
    Release(c);
    int cand[kMaxThreads];
    int n = 0;
    for (int i = 0; i < g_n; i++) {
        Thread& t = g_thr[i];
        if (t.used && !t.finished && t.wait == COND && t.obj == c && !t.signaled) cand[n++] = i;
    }
    if (all) {
        for (int i = 0; i < n; i++) g_thr[cand[i]].signaled = true;
    } else if (n > 0) {
        g_thr[cand[n == 1 ? 0 : mc::Choose(n)]].signaled = true;
    }
    Wake();
}

void* ThreadMain(void* p) {
    auto id = static_cast<int>(reinterpret_cast<intptr_t>(p));
    Thread& t = g_thr[id];
    while (__atomic_load_n(&t.futex, __ATOMIC_ACQUIRE) == 0) FutexWait(&t.futex, 0);
    t.futex = 0;
    t_id = id;
    {
        Rt rt;
        pthread_attr_t a;
        void* base;
        size_t size;
        if (pthread_getattr_np(pthread_self(), &a) == 0) {
            pthread_attr_getstack(&a, &base, &size);
            pthread_attr_destroy(&a);
            ClearShadow(base, size);
        }
    }
    void* r = t.fn(t.arg);
    {
        Rt rt;
        t.vc.c[id]++;
        t.finished = true;
        Wake();
        Schedule(false);
        t_id = -1;
    }
    return r;
}

template <typename F>
F Real(const char* name) {
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}

}  // namespace

namespace mc::sched {
void Begin(int preemptions) {
    Rt rt;
    g_n = 1;
    t_id = 0;
    memset(&g_thr[0], 0, sizeof(Thread));
    g_thr[0].used = true;
    g_thr[0].vc.c[0] = 1;
    g_cur = 0;
    g_points = 0;
    SetDeviationBound(preemptions);
    g_active = true;
}
void End() {
    g_active = false;
    mc::Steps(g_points);
}
void Point() {
    if (!On()) return;
    Rt rt;
    PointRt();
}
void Yield() {
    if (!On()) return;
    Rt rt;
    Schedule(true);
}
uint64_t PointCount() { return g_points; }
void ReportRaces(bool on) { g_races = on; }
void CountDelays(bool on) { g_delays = on; }
void SpuriousWakeups(bool on) { g_spurious = on; }
Hidden::Hidden() { t_rt++; }
Hidden::~Hidden() { t_rt--; }
int Self() { return t_id; }
}  // namespace mc::sched

// ---- libc and libstdc++ entry points ------------------------------------------------------------

extern "C" {

int pthread_create(pthread_t* th, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
    static auto real = Real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>(
        "pthread_create");
    if (!On()) return real(th, attr, fn, arg);
    Rt rt;
    PointRt();
    if (g_n >= kMaxThreads) {
        fprintf(stderr, "sched: too many threads\n");
        _exit(70);
    }
    int id = g_n;
    Thread& t = g_thr[id];
    memset(&t, 0, sizeof t);
    t.fn = fn;
    t.arg = arg;
    t.vc = g_thr[t_id].vc;
    t.vc.c[id] = 1;
    Tick();
    t.used = true;
    int rc = real(&t.handle, attr, ThreadMain, reinterpret_cast<void*>(static_cast<intptr_t>(id)));
    if (rc != 0) _exit(70);
    g_n++;
    *th = t.handle;
    return 0;
}

int pthread_join(pthread_t th, void** ret) {
    static auto real = Real<int (*)(pthread_t, void**)>("pthread_join");
    if (!On()) return real(th, ret);
    int id = -1;
    {
        Rt rt;
        PointRt();
        for (int i = 0; i < g_n; i++) {
            if (i != 0 && g_thr[i].used && !g_thr[i].joined && pthread_equal(g_thr[i].handle, th)) id = i;
        }
        if (id == t_id) mc::Fail("deadlock", "thread %d joins itself", id);
        if (id >= 0) {
            g_thr[t_id].futex_val = id;
            if (!g_thr[id].finished) Block(JOIN, nullptr);
            g_thr[t_id].futex_val = 0;
            g_thr[id].joined = true;
            Join(&g_thr[t_id].vc, g_thr[id].vc);
        }
    }
    return real(th, ret);
}

int pthread_detach(pthread_t th) {
    static auto real = Real<int (*)(pthread_t)>("pthread_detach");
    return real(th);
}

int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!On()) {
        m->__data.__count++;
        return 0;
    }
    Rt rt;
    PointRt();
    LockMutex(m);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!On()) {
        m->__data.__count++;
        return 0;
    }
    Rt rt;
    PointRt();
    if (*Owner(m) != 0 && !(*Owner(m) == t_id + 1 &&
                            (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP)) {
        return EBUSY;
    }
    LockMutex(m);
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!On()) {
        m->__data.__count = 0;
        *Owner(m) = 0;
        return 0;
    }
    Rt rt;
    UnlockMutex(m);
    return 0;
}

int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (!On()) return 0;
    Rt rt;
    return CondWait(c, m, nullptr);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
    if (!On()) return ETIMEDOUT;
    Rt rt;
    return CondWait(c, m, ts);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* ts) {
    if (!On()) return ETIMEDOUT;
    Rt rt;
    return CondWait(c, m, ts);
}
int pthread_cond_signal(pthread_cond_t* c) {
    if (!On()) return 0;
    Rt rt;
    CondSignal(c, false);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    if (!On()) return 0;
    Rt rt;
    CondSignal(c, true);
    return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) {
    if (!On()) return 0;
    Rt rt;
    for (int i = 0; i < g_n; i++) {
        if (g_thr[i].used && !g_thr[i].finished && g_thr[i].wait == COND && g_thr[i].obj == c) {
            mc::Fail("destroyed-while-waiting", "a condition is destroyed while thread %d waits on it", i);
        }
    }
    return 0;
}

int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
    if (!On()) return 0;
    Rt rt;
    PointRt();
    while (Rw(l)->writer != 0) Block(RDLOCK, l);
    Rw(l)->readers++;
    Acquire(l);
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
    if (!On()) return 0;
    Rt rt;
    PointRt();
    while (Rw(l)->writer != 0 || Rw(l)->readers != 0) Block(WRLOCK, l);
    Rw(l)->writer = t_id + 1;
    Acquire(l);
    Acquire(reinterpret_cast<char*>(l) + 16);
    return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) {
    if (!On()) return 0;
    Rt rt;
    PointRt();
    if (Rw(l)->writer != 0) return EBUSY;
    Rw(l)->readers++;
    Acquire(l);
    return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) {
    if (!On()) return 0;
    Rt rt;
    PointRt();
    if (Rw(l)->writer != 0 || Rw(l)->readers != 0) return EBUSY;
    Rw(l)->writer = t_id + 1;
    Acquire(l);
    Acquire(reinterpret_cast<char*>(l) + 16);
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
    if (!On()) return 0;
    Rt rt;
    if (Rw(l)->writer == t_id + 1) {
        Release(l);
        Rw(l)->writer = 0;
    } else {
        // readers are ordered before the next writer only
        Release(reinterpret_cast<char*>(l) + 16);
        Rw(l)->readers--;
    }
    Wake();
    return 0;
}

int pthread_once(pthread_once_t* o, void (*fn)()) {
    auto* s = reinterpret_cast<int*>(o);
    if (!On()) {
        if (*s != 2) {
            fn();
            *s = 2;
        }
        return 0;
    }
    {
        Rt rt;
        PointRt();
        while (*s == 1) Block(ONCE, s);
        if (*s == 2) {
            Acquire(o);
            return 0;
        }
        *s = 1;
    }
    try {
        fn();
    } catch (...) {
        Rt rt;
        *s = 0;
        Wake();
        throw;
    }
    Rt rt;
    Release(o);
    *s = 2;
    Wake();
    return 0;
}

int sched_yield() {
    if (!On()) return 0;
    Rt rt;
    g_thr[t_id].spinning = true;
    Schedule(true);
    g_thr[t_id].spinning = false;
    return 0;
}

static int SleepFor(int64_t ns) {
    Thread& t = g_thr[t_id];
    t.deadline = g_now + ns;
    t.wait = SLEEP;
    Schedule(false);
    t.wait = NONE;
    return 0;
}
int nanosleep(const struct timespec* req, struct timespec*) {
    if (!On()) return static_cast<int>(syscall(SYS_nanosleep, req, nullptr));
    Rt rt;
    return SleepFor(ToNs(req));
}
int clock_nanosleep(clockid_t, int flags, const struct timespec* req, struct timespec*) {
    if (!On()) return static_cast<int>(syscall(SYS_nanosleep, req, nullptr));
    Rt rt;
    int64_t ns = ToNs(req);
    return SleepFor((flags & TIMER_ABSTIME) ? (ns > g_now ? ns - g_now : 0) : ns);
}
int usleep(useconds_t us) {
    struct timespec ts = {us / 1000000, static_cast<long>(us % 1000000) * 1000};
    return nanosleep(&ts, nullptr);
}
int clock_gettime(clockid_t id, struct timespec* ts) {
    if (!g_active) return static_cast<int>(syscall(SYS_clock_gettime, id, ts));
    ts->tv_sec = g_now / 1000000000LL;
    ts->tv_nsec = g_now % 1000000000LL;
    g_now += 1000;
    return 0;
}

// function-local statics
int __cxa_guard_acquire(long long* g) {
    auto* b = reinterpret_cast<char*>(g);
    if (!On()) {
        if (b[0]) return 0;
        b[1] = 1;
        return 1;
    }
    Rt rt;
    PointRt();
    while (b[1]) Block(GUARD, g);
    if (b[0]) {
        Acquire(g);
        return 0;
    }
    b[1] = 1;
    return 1;
}
void __cxa_guard_release(long long* g) {
    auto* b = reinterpret_cast<char*>(g);
    if (On()) {
        Rt rt;
        Release(g);
        b[0] = 1;
        b[1] = 0;
        Wake();
        return;
    }
    b[0] = 1;
    b[1] = 0;
}
void __cxa_guard_abort(long long* g) {
    reinterpret_cast<char*>(g)[1] = 0;
    if (On()) Wake();
}

// memory: a fresh block has no history
void* malloc(size_t n) {
    void* p = __libc_malloc(n);
    if (p && Fresh()) {
        Rt rt;
        ClearShadow(p, n);
    }
    return p;
}
void free(void* p) { __libc_free(p); }
void* calloc(size_t a, size_t b) {
    void* p = __libc_calloc(a, b);
    if (p && Fresh()) {
        Rt rt;
        ClearShadow(p, a * b);
    }
    return p;
}
void* realloc(void* q, size_t n) {
    void* p = __libc_realloc(q, n);
    if (p && Fresh()) {
        Rt rt;
        ClearShadow(p, n);
    }
    return p;
}
void* memalign(size_t a, size_t n) {
    void* p = __libc_memalign(a, n);
    if (p && Fresh()) {
        Rt rt;
        ClearShadow(p, n);
    }
    return p;
}
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** out, size_t a, size_t n) {
    void* p = memalign(a, n);
    if (!p) return ENOMEM;
    *out = p;
    return 0;
}

// ---- instrumentation --------------------------------------------------------------------------

#define PC __builtin_return_address(0)
#define A(p) reinterpret_cast<uintptr_t>(p)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n)                                                                \
    void __tsan_read##n(void* p) { Access(A(p), n, false, PC); }             \
    void __tsan_write##n(void* p) { Access(A(p), n, true, PC); }             \
    void __tsan_unaligned_read##n(void* p) { Access(A(p), n, false, PC); }   \
    void __tsan_unaligned_write##n(void* p) { Access(A(p), n, true, PC); }   \
    void __tsan_volatile_read##n(void* p) { Access(A(p), n, false, PC); }    \
    void __tsan_volatile_write##n(void* p) { Access(A(p), n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { Access(A(p), n, false, PC); }
void __tsan_write_range(void* p, size_t n) { Access(A(p), n, true, PC); }
void __tsan_vptr_update(void** p, void* v) {
    if (*p != v) Access(A(p), 8, true, PC);
}
void __tsan_vptr_read(void** p) { Access(A(p), 8, false, PC); }

}  // extern "C"

namespace {
bool Acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
bool Rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

void AtomicPoint() { PointRt(); }

void AfterLoad(const volatile void* p, int mo, uint64_t value) {
    Thread& t = g_thr[t_id];
    auto* q = const_cast<void*>(p);
    VC* v = g_sync.Get(reinterpret_cast<uintptr_t>(q), false);
    if (v) {
        if (Acq(mo)) {
            Join(&t.vc, *v);
        } else {
            Join(&t.acq_pending, *v);
        }
    }
    // a thread that keeps reading the same value is waiting for somebody
    if (t.last_load == q && t.last_val == value) {
        if (++t.repeat >= 3) {
            t.repeat = 0;
            t.spinning = true;
            Schedule(true);
            g_thr[t_id].spinning = false;
        }
    } else {
        t.last_load = q;
        t.last_val = value;
        t.repeat = 0;
    }
}
void BeforeStore(const volatile void* p, int mo, bool rmw) {
    Thread& t = g_thr[t_id];
    VC* v = Obj(const_cast<void*>(p));
    if (!rmw) memset(v, 0, sizeof *v);
    if (Rel(mo)) {
        Join(v, t.vc);
        Tick();
    } else {
        Join(v, t.rel_fence);
    }
    t.last_load = nullptr;
    Wake();
}
}  // namespace

extern "C" {

#define ATOMICS(bits, T)                                                                          \
    T __tsan_atomic##bits##_load(const volatile T* p, int mo) {                                   \
        if (!On()) return __atomic_load_n(p, __ATOMIC_SEQ_CST);                                   \
        Rt rt;                                                                                    \
        AtomicPoint();                                                                            \
        T v = __atomic_load_n(p, __ATOMIC_SEQ_CST);                                               \
        AfterLoad(p, mo, static_cast<uint64_t>(v));                                               \
        return v;                                                                                 \
    }                                                                                             \
    void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) {                                \
        if (!On()) {                                                                              \
            __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                             \
            return;                                                                               \
        }                                                                                         \
        Rt rt;                                                                                    \
        AtomicPoint();                                                                            \
        BeforeStore(p, mo, false);                                                                \
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                 \
    }                                                                                             \
    T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) {                                \
        if (!On()) return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                            \
        Rt rt;                                                                                    \
        AtomicPoint();                                                                            \
        if (Acq(mo)) Acquire(const_cast<T*>(p));                                                  \
        BeforeStore(p, mo, true);                                                                 \
        return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                       \
    }                                                                                             \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T c, T v, int mo, int fmo) {      \
        T e = c;                                                                                  \
        if (!On()) {                                                                              \
            __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);     \
            return e;                                                                             \
        }                                                                                         \
        Rt rt;                                                                                    \
        AtomicPoint();                                                                            \
        if (__atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) {   \
            if (Acq(mo)) Acquire(const_cast<T*>(p));                                              \
            BeforeStore(p, mo, true);                                                             \
        } else {                                                                                  \
            AfterLoad(p, fmo, static_cast<uint64_t>(e));                                          \
        }                                                                                         \
        return e;                                                                                 \
    }                                                                                             \
    bool __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* c, T v, int mo, int fmo) { \
        T old = *c;                                                                               \
        T e = __tsan_atomic##bits##_compare_exchange_val(p, old, v, mo, fmo);                     \
        if (e == old) return true;                                                                \
        *c = e;                                                                                   \
        return false;                                                                             \
    }                                                                                             \
    bool __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* c, T v, int mo, int fmo) { \
        return __tsan_atomic##bits##_compare_exchange_strong(p, c, v, mo, fmo);                   \
    }

#define RMW(bits, T, name, builtin)                                   \
    T __tsan_atomic##bits##_##name(volatile T* p, T v, int mo) {      \
        if (!On()) return builtin(p, v, __ATOMIC_SEQ_CST);            \
        Rt rt;                                                        \
        AtomicPoint();                                                \
        if (Acq(mo)) Acquire(const_cast<T*>(p));                      \
        BeforeStore(p, mo, true);                                     \
        return builtin(p, v, __ATOMIC_SEQ_CST);                       \
    }

#define ALL(bits, T)                                \
    ATOMICS(bits, T)                                \
    RMW(bits, T, fetch_add, __atomic_fetch_add)     \
    RMW(bits, T, fetch_sub, __atomic_fetch_sub)     \
    RMW(bits, T, fetch_and, __atomic_fetch_and)     \
    RMW(bits, T, fetch_or, __atomic_fetch_or)       \
    RMW(bits, T, fetch_xor, __atomic_fetch_xor)     \
    RMW(bits, T, fetch_nand, __atomic_fetch_nand)

ALL(8, uint8_t)
ALL(16, uint16_t)
ALL(32, uint32_t)
ALL(64, uint64_t)

void __tsan_atomic_thread_fence(int mo) {
    if (!On()) {
        __atomic_thread_fence(__ATOMIC_SEQ_CST);
        return;
    }
    Rt rt;
    Thread& t = g_thr[t_id];
    static char fence;
    if (Acq(mo)) Join(&t.vc, t.acq_pending);
    if (Rel(mo)) {
        t.rel_fence = t.vc;
        Tick();
    }
    (void)fence;
    __atomic_thread_fence(__ATOMIC_SEQ_CST);
}
void __tsan_atomic_signal_fence(int) {}

}  // extern "C"

// futures
#include <chrono>
#include <bits/atomic_futex.h>
namespace std {
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* addr, unsigned val, bool has_timeout,
                                                       chrono::seconds s, chrono::nanoseconds ns) {
    if (!On()) return true;
    Rt rt;
    PointRt();
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) return true;
    Thread& t = g_thr[t_id];
    t.signaled = false;
    t.timed = has_timeout;
    t.deadline = s.count() * 1000000000LL + ns.count();
    t.futex_val = 0;
    t.wait = FUTEX;
    t.obj = addr;
    Schedule(false);
    t.wait = NONE;
    t.timed = false;
    bool ok = t.futex_val != ETIMEDOUT;
    t.futex_val = 0;
    return ok;
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* addr, unsigned val,
                                                              bool has_timeout, chrono::seconds s,
                                                              chrono::nanoseconds ns) {
    return _M_futex_wait_until(addr, val, has_timeout, s, ns);
}
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* addr) {
    if (!On()) return;
    Rt rt;
    PointRt();
    for (int i = 0; i < g_n; i++) {
        if (g_thr[i].wait == FUTEX && g_thr[i].obj == addr) g_thr[i].signaled = true;
    }
    Wake();
}
}  // namespace std

namespace tbb::detail::r1 {
void* allocate_memory(size_t n) { return malloc(n); }
void deallocate_memory(void* p) { free(p); }
void* cache_aligned_allocate(size_t n) { return memalign(128, n); }
void cache_aligned_deallocate(void* p) { free(p); }
}  // namespace tbb::detail::r1
