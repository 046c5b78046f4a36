#include "mc/mc.h"

#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <unordered_set>

namespace mc {
int RawClock(struct timespec* ts);
void RawSleep(struct timespec* ts);
namespace {

constexpr int kMaxDepth = 1 << 16;
constexpr int kMaxWorkers = 64;
constexpr uint32_t kChildStates = 1 << 13;
constexpr uint32_t kChildText = 1 << 14;
// exit codes of an execution's own process
constexpr int kChildSkip = 3, kChildPrune = 4, kChildKnown = 5;

// Shared between a worker and its parent, so that a crashed or hung worker's execution is known.
struct WorkerShared {
    volatile uint64_t heartbeat;
    volatile int depth;
    volatile int scenario;
    volatile int done;      // 1: finished all, 2: violation recorded, 3: budget hit
    volatile uint64_t executions, pruned, steps, choices, nontrivial, validated, max_depth, known;
    char sig[256];
    char msg[8192];
    uint32_t choice[kMaxDepth];
    // results of an execution that runs in a process of its own
    uint32_t arity[kMaxDepth];
    volatile int child_nontrivial;
    volatile uint32_t nstates;
    uint64_t states[kChildStates];
    volatile uint32_t ntext;
    char text[kChildText];  // '\0'-terminated records: kind letter, then the string
};

std::vector<Scenario>& Scenarios() {
    static std::vector<Scenario> v;
    return v;
}

struct Point {
    uint32_t value, arity;
};

WorkerShared* g_sh = nullptr;
std::vector<Point> g_stack;
size_t g_pos = 0;
int g_dev_bound = 1 << 30;
int g_dev_used = 0;
bool g_replay = false;
bool g_thorough = false;
int g_shard = 0, g_nshards = 1, g_split = 0;
bool g_skip = false;
bool g_abort_on_fail = false;
bool g_child = false;  // this process runs one execution of a FORK scenario
thread_local int g_in_engine = 0;
struct Guard {
    Guard() { g_in_engine++; }
    ~Guard() { g_in_engine--; }
};
bool g_nontrivial = false;
uint64_t g_prefix_hash = 0;
std::unordered_set<uint64_t> g_states;
std::set<std::string> g_outcomes;
std::vector<std::string> g_samples;
std::set<std::string> g_known;         // known-finding signatures
std::set<std::string> g_known_hit;
bool g_state_cap = false;
constexpr size_t kStateCap = 40u << 20;

double Now() {
    struct timespec ts;
    RawClock(&ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

uint64_t Mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL;
    h ^= h >> 33;
    return h;
}

uint32_t Draw(uint32_t n) {
    if (g_pos < g_stack.size()) {
        Point& p = g_stack[g_pos];
        if (p.arity == 0) p.arity = n;  // replayed prefix: arity unknown yet
        if (p.arity != n || p.value >= n) {
            fprintf(stderr,
                    "mc: nondeterministic scenario: choice %zu had arity %u, now %u (value %u)\n",
                    g_pos, p.arity, n, p.value);
            _exit(70);
        }
    } else {
        g_stack.push_back({0, n});
    }
    uint32_t v = g_stack[g_pos].value;
    if (g_pos < kMaxDepth) {
        g_sh->choice[g_pos] = v;
        g_sh->arity[g_pos] = n;
    }
    g_pos++;
    g_sh->depth = static_cast<int>(g_pos);
    g_sh->choices = g_sh->choices + 1;
    if (static_cast<int>(g_pos) <= g_split) {
        g_prefix_hash = Mix(g_prefix_hash, v);
        if (static_cast<int>(g_pos) == g_split && g_nshards > 1 && !g_replay &&
            static_cast<int>(g_prefix_hash % g_nshards) != g_shard) {
            g_skip = true;
            if (g_child) _exit(kChildSkip);
            throw Unwind();
        }
    }
    return v;
}

bool Advance() {
    // Moves to the next execution. The stack is cut where the last execution ended.
    g_stack.resize(g_pos);
    while (!g_stack.empty()) {
        Point& p = g_stack.back();
        if (p.value + 1 < p.arity) {
            p.value++;
            return true;
        }
        g_stack.pop_back();
    }
    return false;
}

void BeginExecution() {
    g_pos = 0;
    g_dev_used = 0;
    g_dev_bound = 1 << 30;
    g_prefix_hash = 0x1234;
    g_skip = false;
    g_nontrivial = false;
    g_sh->depth = 0;
}

std::string ChoiceString() {
    std::ostringstream os;
    for (size_t i = 0; i < g_pos; i++) os << (i ? "," : "") << g_stack[i].value;
    return os.str();
}

void ChildText(char kind, const std::string& s) {
    uint32_t at = g_sh->ntext;
    if (at + s.size() + 2 > kChildText) return;
    g_sh->text[at] = kind;
    memcpy(g_sh->text + at + 1, s.c_str(), s.size() + 1);
    g_sh->ntext = at + s.size() + 2;
}

// Runs one execution in a process of its own. Returns true if it was completed.
bool RunForked(const Scenario& s) {
    g_sh->nstates = 0;
    g_sh->ntext = 0;
    g_sh->child_nontrivial = 0;
    pid_t me = getpid();
    pid_t pid = fork();
    if (pid < 0) _exit(70);
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        if (getppid() != me) _exit(70);
        g_child = true;
        try {
            s.body();
        } catch (const Unwind&) {
            _exit(kChildPrune);
        }
        g_sh->child_nontrivial = g_nontrivial;
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0) {
        if (errno != EINTR) _exit(70);
    }
    if (g_sh->done == 2) _exit(1);
    if (WIFSIGNALED(st)) {
        snprintf(g_sh->sig, sizeof g_sh->sig, "crash");
        snprintf(g_sh->msg, sizeof g_sh->msg, "execution died with signal %d (%s)", WTERMSIG(st),
                 strsignal(WTERMSIG(st)));
        g_sh->done = 2;
        _exit(1);
    }
    int rc = WEXITSTATUS(st);
    if (rc == 70) _exit(70);
    if (rc != 0 && rc != kChildSkip && rc != kChildPrune && rc != kChildKnown) {
        snprintf(g_sh->sig, sizeof g_sh->sig, "crash");
        snprintf(g_sh->msg, sizeof g_sh->msg, "execution ended the process with status %d", rc);
        g_sh->done = 2;
        _exit(1);
    }
    // the decisions the execution took
    g_pos = std::min(static_cast<int>(g_sh->depth), static_cast<int>(kMaxDepth));
    g_stack.resize(g_pos);
    for (size_t i = 0; i < g_pos; i++) g_stack[i] = {g_sh->choice[i], g_sh->arity[i]};
    g_skip = rc == kChildSkip;
    g_nontrivial = g_sh->child_nontrivial;
    if (rc == 0 || rc == kChildKnown) {
        for (uint32_t i = 0; i < g_sh->nstates; i++) State(g_sh->states[i]);
        for (uint32_t at = 0; at < g_sh->ntext;) {
            std::string t(g_sh->text + at + 1);
            if (g_sh->text[at] == 'O') Outcome(t);
            if (g_sh->text[at] == 'K') g_known_hit.insert(t);
            at += t.size() + 2;
        }
    }
    return rc == 0 || rc == kChildKnown;
}

// Explores one scenario completely in this worker. Returns false when the budget ran out.
bool Explore(int idx, double deadline) {
    const Scenario& s = Scenarios()[idx];
    g_sh->scenario = idx;
    g_stack.clear();
    g_split = s.split;
    while (true) {
        BeginExecution();
        bool finished = false, known = false;
        if (s.tiers & FORK) {
            finished = RunForked(s);
        } else {
            try {
                s.body();
                finished = true;
            } catch (const Unwind&) {
                known = false;
            }
        }
        if (finished) {
            // executions shorter than the split prefix are seen by every worker; count them once
            bool mine = static_cast<int>(g_pos) >= g_split || g_nshards == 1 || g_shard == 0;
            if (mine) {
                g_sh->executions = g_sh->executions + 1;
                if (g_nontrivial) g_sh->nontrivial = g_sh->nontrivial + 1;
                if (g_pos > g_sh->max_depth) g_sh->max_depth = g_pos;
                if (g_samples.size() < 2) {
                    g_samples.push_back(std::string(s.name) + ":[" + ChoiceString().substr(0, 200) +
                                        "]");
                }
            }
        } else if (!g_skip) {
            g_sh->pruned = g_sh->pruned + 1;
        }
        (void)known;
        g_sh->heartbeat = g_sh->heartbeat + 1;
        if (!Advance()) return true;
        if ((g_sh->heartbeat & 0x3f) == 0 && Now() > deadline) return false;
    }
}

std::string JsonEsc(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += static_cast<char>(c);
        } else if (c < 0x20 || c >= 0x7f) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        } else {
            o += static_cast<char>(c);
        }
    }
    return o;
}

// Comma-separated names; a trailing '*' matches any rest.
bool Matches(const std::string& list, const std::string& name) {
    std::istringstream is(list);
    std::string item;
    while (std::getline(is, item, ',')) {
        if (item == name) return true;
        if (!item.empty() && item.back() == '*' &&
            name.compare(0, item.size() - 1, item, 0, item.size() - 1) == 0) {
            return true;
        }
    }
    return false;
}

// Resident memory of a process, in MiB.
long ResidentMb(pid_t pid) {
    std::ifstream f("/proc/" + std::to_string(pid) + "/statm");
    long size = 0, rss = 0;
    f >> size >> rss;
    return rss * 4 / 1024;
}

void WriteReplay(const std::string& path, const char* scenario, const std::string& choices,
                 const std::string& sig, const std::string& msg, bool thorough) {
    std::ofstream f(path);
    f << "scenario " << scenario << "\n"
      << "tier " << (thorough ? "thorough" : "quick") << "\n"
      << "choices " << choices << "\n"
      << "sig " << sig << "\n"
      << "# " << msg << "\n";
}

}  // namespace

Register::Register(const Scenario& s) { Scenarios().push_back(s); }

int Choose(int n) {
    if (n <= 0) {
        fprintf(stderr, "mc: Choose(%d)\n", n);
        _exit(70);
    }
    if (n == 1) return 0;
    Guard guard;
    return static_cast<int>(Draw(n));
}

int ChooseDev(int n) {
    if (n <= 1 || g_dev_used >= g_dev_bound) return 0;
    Guard guard;
    int v = static_cast<int>(Draw(n));
    if (v != 0) g_dev_used++;
    return v;
}
void SetDeviationBound(int bound) { g_dev_bound = bound; }
int DeviationsUsed() { return g_dev_used; }

void Prune() {
    if (g_child) _exit(kChildPrune);
    throw Unwind();
}
bool InEngine() { return g_in_engine > 0; }

void SetAbortOnFail(bool on) { g_abort_on_fail = on; }

void FailStr(const char* sig, const std::string& msg) {
    Guard guard;
    if (g_child && g_known.count(sig)) {
        ChildText('K', sig);
        g_sh->known = g_sh->known + 1;
        _exit(kChildKnown);
    }
    if (g_known.count(sig)) {
        if (g_known_hit.insert(sig).second) {
            fprintf(stderr, "mc: known finding %s: %s\n", sig, msg.c_str());
        }
        g_sh->known = g_sh->known + 1;
        if (!g_abort_on_fail) throw Unwind();
    }
    snprintf(g_sh->sig, sizeof g_sh->sig, "%s", sig);
    snprintf(g_sh->msg, sizeof g_sh->msg, "%s", msg.c_str());
    g_sh->done = 2;
    if (g_replay) fprintf(stdout, "REPRODUCED sig=%s\n%s\n", sig, msg.c_str());
    fflush(stdout);
    _exit(1);
}
void Fail(const char* sig, const char* fmt, ...) {
    char buf[8192];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    FailStr(sig, buf);
}
void FailUnlessKnown(const char* sig, const char* fmt, ...) {
    char buf[8192];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (!g_known.count(sig)) FailStr(sig, buf);
    Guard guard;
    if (g_child) {
        ChildText('K', sig);
    } else if (g_known_hit.insert(sig).second) {
        fprintf(stderr, "mc: known finding %s: %s\n", sig, buf);
    }
    g_sh->known = g_sh->known + 1;
}
bool IsKnown(const char* sig) { return g_known.count(sig) > 0; }

void State(uint64_t hash) {
    Guard guard;
    if (g_child) {
        if (g_sh->nstates < kChildStates) g_sh->states[g_sh->nstates++] = hash;
        return;
    }
    if (g_states.size() < kStateCap) {
        g_states.insert(hash);
    } else {
        g_state_cap = true;
    }
}
void Steps(uint64_t n) { g_sh->steps = g_sh->steps + n; }
void Outcome(const std::string& s) {
    Guard guard;
    if (g_child) {
        ChildText('O', s);
        return;
    }
    if (g_outcomes.size() < 200) g_outcomes.insert(s);
}
void Nontrivial() { g_nontrivial = true; }
void TraceValidated() { g_sh->validated = g_sh->validated + 1; }
void Log(const char* fmt, ...) {
    if (!g_replay) return;
    va_list ap;
    va_start(ap, fmt);
    vfprintf(stdout, fmt, ap);
    va_end(ap);
    fputc('\n', stdout);
    fflush(stdout);
}
bool Replaying() { return g_replay; }
bool Thorough() { return g_thorough; }

int Main(int argc, char** argv) {
    std::string out, replay_dir = ".", replay, only, known_file;
    int jobs = 1;
    double budget = 1e9, hang = 180;
    bool list = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--out") out = next();
        else if (a == "--replay-dir") replay_dir = next();
        else if (a == "--replay") replay = next();
        else if (a == "--scenario") only = next();
        else if (a == "--jobs") jobs = atoi(next().c_str());
        else if (a == "--budget") budget = atof(next().c_str());
        else if (a == "--hang") hang = atof(next().c_str());
        else if (a == "--known") known_file = next();
        else if (a == "--thorough") g_thorough = true;
        else if (a == "--list") list = true;
        else {
            fprintf(stderr, "mc: unknown argument %s\n", a.c_str());
            return 64;
        }
    }
    if (jobs > kMaxWorkers) jobs = kMaxWorkers;
    if (!known_file.empty()) {
        std::ifstream f(known_file);
        std::string line;
        while (std::getline(f, line)) {
            if (!line.empty()) g_known.insert(line);
        }
    }
    auto& scs = Scenarios();
    if (list) {
        for (auto& s : scs) printf("%s\t%d\t%s\n", s.name, s.tiers, s.doc);
        return 0;
    }
    size_t bytes = sizeof(WorkerShared) * jobs;
    auto* shared = static_cast<WorkerShared*>(
        mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (shared == MAP_FAILED) {
        perror("mmap");
        return 70;
    }

    if (!replay.empty()) {
        std::ifstream f(replay);
        std::string line, scen, ch, tier;
        while (std::getline(f, line)) {
            if (line.rfind("scenario ", 0) == 0) scen = line.substr(9);
            if (line.rfind("choices ", 0) == 0) ch = line.substr(8);
            if (line == "tier thorough") g_thorough = true;
        }
        g_sh = &shared[0];
        g_replay = true;
        g_known.clear();
        std::istringstream is(ch);
        std::string tok;
        while (std::getline(is, tok, ',')) {
            if (!tok.empty()) g_stack.push_back({static_cast<uint32_t>(atoi(tok.c_str())), 0});
        }
        for (auto& s : scs) {
            if (scen == s.name) {
                BeginExecution();
                try {
                    s.body();
                    printf("NOT REPRODUCED\n");
                } catch (const Unwind&) {
                    printf("NOT REPRODUCED (pruned)\n");
                }
                return 0;
            }
        }
        fprintf(stderr, "mc: no scenario %s\n", scen.c_str());
        return 64;
    }

    double start = Now();
    std::vector<pid_t> pids(jobs);
    std::vector<std::string> res_files(jobs);
    std::vector<int> selected;
    for (size_t i = 0; i < scs.size(); i++) {
        if (!only.empty() && !Matches(only, scs[i].name)) continue;
        if (!(scs[i].tiers & (g_thorough ? THOROUGH : QUICK))) continue;
        selected.push_back(static_cast<int>(i));
    }
    if (selected.empty()) {
        fprintf(stderr, "mc: no scenario matches %s\n", only.c_str());
        return 64;
    }
    char tmpl[] = "/tmp/mcresXXXXXX";
    if (!mkdtemp(tmpl)) {
        perror("mkdtemp");
        return 70;
    }
    std::string tmpdir = tmpl;
    fflush(stdout);
    fflush(stderr);
    for (int w = 0; w < jobs; w++) {
        res_files[w] = tmpdir + "/w" + std::to_string(w);
        pid_t pid = fork();
        if (pid < 0) {
            perror("fork");
            return 70;
        }
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            g_sh = &shared[w];
            g_shard = w;
            g_nshards = jobs;
            bool complete = true;
            std::ostringstream per;
            for (int idx : selected) {
                uint64_t e0 = g_sh->executions;
                if (!Explore(idx, start + budget)) {
                    complete = false;
                    per << "S " << scs[idx].name << " " << (g_sh->executions - e0) << " capped\n";
                    break;
                }
                per << "S " << scs[idx].name << " " << (g_sh->executions - e0) << " done\n";
            }
            std::ofstream f(res_files[w], std::ios::binary);
            f << per.str();
            for (auto& o : g_outcomes) f << "O " << JsonEsc(o) << "\n";
            for (auto& s : g_samples) f << "P " << JsonEsc(s) << "\n";
            for (auto& s : g_known_hit) f << "K " << s << "\n";
            if (g_state_cap) f << "C\n";
            f << "H " << g_states.size() << "\n";
            for (uint64_t h : g_states) f.write(reinterpret_cast<const char*>(&h), 8);
            f.close();
            g_sh->done = complete ? 1 : 3;
            _exit(0);
        }
        pids[w] = pid;
    }

    // Parent: watch progress.
    std::vector<uint64_t> last(jobs, 0);
    std::vector<double> last_t(jobs, start);
    std::vector<bool> alive(jobs, true);
    int nalive = jobs;
    bool violation = false;
    std::string vsig, vmsg, vscen, vchoices;
    bool infra = false;
    auto take_choices = [&](int w) {
        std::ostringstream os;
        int d = shared[w].depth;
        for (int i = 0; i < d && i < kMaxDepth; i++) os << (i ? "," : "") << shared[w].choice[i];
        return os.str();
    };
    auto report = [&](int w, const std::string& sig, const std::string& msg) {
        if (violation) return;
        violation = true;
        vsig = sig;
        vmsg = msg;
        vscen = scs[shared[w].scenario].name;
        vchoices = take_choices(w);
    };
    uint64_t polls = 0;
    constexpr long kMaxResidentMb = 3072;
    while (nalive > 0 && !violation && !infra) {
        int st = 0;
        pid_t p = waitpid(-1, &st, WNOHANG);
        if (p > 0) {
            for (int w = 0; w < jobs; w++) {
                if (pids[w] != p) continue;
                alive[w] = false;
                nalive--;
                if (shared[w].done == 2) {
                    report(w, shared[w].sig, shared[w].msg);
                } else if (WIFSIGNALED(st)) {
                    report(w, "crash",
                           std::string("execution died with signal ") +
                               std::to_string(WTERMSIG(st)) + " (" + strsignal(WTERMSIG(st)) + ")");
                } else if (WEXITSTATUS(st) == 70) {
                    infra = true;
                } else if (WEXITSTATUS(st) != 0) {
                    report(w, "crash",
                           "execution ended the process with status " +
                               std::to_string(WEXITSTATUS(st)) + " (memory error report on stderr)");
                }
            }
            continue;
        }
        double t = Now();
        for (int w = 0; w < jobs; w++) {
            if (!alive[w]) continue;
            if (++polls % 40 == 0 && ResidentMb(pids[w]) > kMaxResidentMb) {
                report(w, "memory", "execution uses more than 3 GB of memory");
            }
            if (shared[w].heartbeat != last[w]) {
                last[w] = shared[w].heartbeat;
                last_t[w] = t;
            } else if (t - last_t[w] > hang && shared[w].done == 0) {
                report(w, "hang", "execution does not terminate");
            }
        }
        struct timespec ts = {0, 5 * 1000 * 1000};
        RawSleep(&ts);
    }
    for (int w = 0; w < jobs; w++) {
        if (alive[w]) kill(pids[w], SIGKILL);
    }
    for (int w = 0; w < jobs; w++) {
        if (alive[w]) waitpid(pids[w], nullptr, 0);
    }

    uint64_t ex = 0, pr = 0, stp = 0, ch = 0, nt = 0, val = 0, md = 0, kn = 0;
    bool capped = false;
    for (int w = 0; w < jobs; w++) {
        ex += shared[w].executions;
        pr += shared[w].pruned;
        stp += shared[w].steps;
        ch += shared[w].choices;
        nt += shared[w].nontrivial;
        val += shared[w].validated;
        kn += shared[w].known;
        if (shared[w].max_depth > md) md = shared[w].max_depth;
        if (shared[w].done == 3) capped = true;
    }
    std::unordered_set<uint64_t> states;
    std::set<std::string> outcomes, known_hit;
    std::vector<std::string> samples;
    std::map<std::string, std::pair<uint64_t, bool>> per;
    if (!violation && !infra) {
        for (int w = 0; w < jobs; w++) {
            std::ifstream f(res_files[w], std::ios::binary);
            std::string line;
            while (std::getline(f, line)) {
                if (line[0] == 'O') outcomes.insert(line.substr(2));
                else if (line[0] == 'P') { if (samples.size() < 12) samples.push_back(line.substr(2)); }
                else if (line[0] == 'K') known_hit.insert(line.substr(2));
                else if (line[0] == 'C') capped = true;
                else if (line[0] == 'S') {
                    std::istringstream is(line.substr(2));
                    std::string n, d;
                    uint64_t c;
                    is >> n >> c >> d;
                    per[n].first += c;
                    if (d == "capped") per[n].second = true;
                } else if (line[0] == 'H') {
                    size_t n = strtoull(line.c_str() + 2, nullptr, 10);
                    for (size_t i = 0; i < n; i++) {
                        uint64_t h;
                        f.read(reinterpret_cast<char*>(&h), 8);
                        states.insert(h);
                    }
                }
            }
        }
    }
    for (auto& r : res_files) unlink(r.c_str());
    rmdir(tmpdir.c_str());

    std::string replay_path;
    if (violation) {
        static int seq = 0;
        replay_path = replay_dir + "/" + vscen + "-" + std::to_string(getpid()) + "-" +
                      std::to_string(seq++) + ".replay";
        WriteReplay(replay_path, vscen.c_str(), vchoices, vsig, vmsg, g_thorough);
    }
    std::ostringstream os;
    os << "{\"executions\":" << ex << ",\"pruned\":" << pr << ",\"steps\":" << stp
       << ",\"choices\":" << ch << ",\"nontrivial\":" << nt << ",\"validated\":" << val
       << ",\"states\":" << states.size() << ",\"max_depth\":" << md << ",\"known_hits\":" << kn
       << ",\"capped\":" << (capped ? "true" : "false")
       << ",\"infra\":" << (infra ? "true" : "false") << ",\"wall_s\":" << (Now() - start);
    os << ",\"scenarios\":[";
    bool first = true;
    for (int idx : selected) {
        auto& s = scs[idx];
        os << (first ? "" : ",") << "{\"name\":\"" << s.name << "\",\"executions\":"
           << per[s.name].first << ",\"capped\":" << (per[s.name].second ? "true" : "false")
           << ",\"bounds\":\"" << JsonEsc(s.doc) << "\"}";
        first = false;
    }
    os << "],\"outcomes\":[";
    first = true;
    for (auto& o : outcomes) {
        os << (first ? "\"" : ",\"") << o << "\"";
        first = false;
    }
    os << "],\"samples\":[";
    first = true;
    for (auto& o : samples) {
        os << (first ? "\"" : ",\"") << o << "\"";
        first = false;
    }
    os << "],\"known\":[";
    first = true;
    for (auto& o : known_hit) {
        os << (first ? "\"" : ",\"") << JsonEsc(o) << "\"";
        first = false;
    }
    os << "]";
    if (violation) {
        os << ",\"violation\":{\"scenario\":\"" << vscen << "\",\"sig\":\"" << JsonEsc(vsig)
           << "\",\"msg\":\"" << JsonEsc(vmsg) << "\",\"replay\":\"" << JsonEsc(replay_path)
           << "\"}";
    }
    os << "}";
    if (!out.empty()) {
        std::ofstream f(out);
        f << os.str() << "\n";
    } else {
        printf("%s\n", os.str().c_str());
    }
    if (infra) return 70;
    return violation ? 1 : 0;
}

}  // namespace mc

__attribute__((weak)) int main(int argc, char** argv) { return mc::Main(argc, argv); }
