// Concurrency: every schedule, up to a number of preemptions, of the executor, futures, queue, map,
// metrics, memory pool, registry and file system cache; unordered accesses are reported as races.
#include <algorithm>
#include <atomic>
#include <cassert>
#include <deque>
#include <future>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>

#include "lin.h"
#include "mc/mc.h"
#include "mc/sched.h"
#include "paimon/common/executor/future.h"
#include "paimon/common/factories/io_hook.h"
#include "paimon/common/metrics/metrics_impl.h"
#include "paimon/common/utils/concurrent_hash_map.h"
#include "paimon/common/utils/threadsafe_queue.h"
#include "paimon/executor.h"
#include "paimon/factories/factory.h"
#include "paimon/factories/factory_creator.h"
#include "paimon/memory/memory_pool.h"

using namespace paimon;  // NOLINT
namespace {

int Bound(int quick, int thorough) { return mc::Thorough() ? thorough : quick; }

void Threads(const std::vector<std::function<void()>>& bodies) {
    std::vector<std::thread> ts;
    for (size_t i = 1; i < bodies.size(); i++) ts.emplace_back(bodies[i]);
    if (!bodies.empty()) bodies[0]();
    for (auto& t : ts) t.join();
}

// A few scheduling points. (Sleeping would not do: idle workers of an executor that is being destroyed
// spin until the last task is done, and virtual time stands still while a thread runs.)
void Dawdle() {
    std::atomic<int> n{0};
    while (n++ < 3) {
    }
}

// ---- executor ---------------------------------------------------------------------------------

MC_SCENARIO(executor_drain, mc::BOTH | mc::FORK, 4,
            "1-2 workers, 0-3 tasks from one thread, empty task anywhere or nowhere, destroyed at once; 2 preemptions up to two tasks (3 thorough), otherwise 1 (2 thorough)") {
    int workers = 1 + mc::Choose(2);
    int tasks = mc::Choose(mc::Thorough() ? 5 : 4);
    int empty = mc::Choose(2) ? mc::Choose(tasks + 1) : -1;
    mc::sched::Begin(tasks <= 2 && empty < 0 ? Bound(2, 3) : Bound(1, 2));
    int ran[8] = {0};
    std::vector<int> order;
    auto token = std::make_shared<int>(1);
    {
        auto ex = CreateDefaultExecutor(workers);
        for (int i = 0; i < tasks; i++) {
            if (i == empty) ex->Add(std::function<void()>());
            ex->Add([&ran, i, &order, workers, token]() {
                ran[i]++;
                if (workers == 1) order.push_back(i);
            });
        }
        if (empty == tasks) ex->Add(nullptr);
    }
    mc::sched::End();
    for (int i = 0; i < tasks; i++) {
        MC_CHECK(ran[i] == 1, "executor-runs", "task %d ran %d times before the executor was gone", i, ran[i]);
    }
    if (workers == 1) {
        MC_CHECK(std::is_sorted(order.begin(), order.end()), "executor-order",
                 "one worker ran the tasks out of order");
    }
    MC_CHECK(token.use_count() == 1, "executor-leak", "a task outlives its executor");
    mc::Nontrivial();
    mc::State(mc::Hash().U(workers).U(tasks).U(empty).h);
    mc::Outcome("drained");
}

MC_SCENARIO(executor_wide, mc::BOTH | mc::FORK, 4,
            "1-4 workers, 5, 8 or 12 tasks, all quick or every third or second one slow, destroyed at once "
            "or after a pause; 1 delay (2 thorough)") {
    int workers = 1 + mc::Choose(4);
    int tasks = mc::Pick(std::vector<int>{5, 8, 12});
    int slow = mc::Choose(3);
    bool pause = mc::ChooseBool();
    mc::sched::CountDelays(true);
    mc::sched::Begin(Bound(1, 2));
    int ran[16] = {0};
    std::vector<int> order;
    auto token = std::make_shared<int>(1);
    {
        auto ex = CreateDefaultExecutor(workers);
        for (int i = 0; i < tasks; i++) {
            ex->Add([&ran, i, &order, workers, slow, token]() {
                if (slow && i % (4 - slow) == 0) Dawdle();
                ran[i]++;
                if (workers == 1) order.push_back(i);
            });
        }
        if (pause) std::this_thread::sleep_for(std::chrono::milliseconds(12));
    }
    mc::sched::End();
    for (int i = 0; i < tasks; i++) {
        MC_CHECK(ran[i] == 1, "executor-runs", "task %d of %d ran %d times before the executor was gone", i,
                 tasks, ran[i]);
    }
    if (workers == 1) {
        MC_CHECK(std::is_sorted(order.begin(), order.end()), "executor-order",
                 "one worker ran the tasks out of order");
    }
    MC_CHECK(token.use_count() == 1, "executor-leak", "a task outlives its executor");
    mc::Nontrivial();
    mc::State(mc::Hash().U(workers).U(tasks).U(slow).U(pause).h);
}

MC_SCENARIO(executor_batches, mc::BOTH | mc::FORK, 4,
            "2-3 batches of 1 or 3 tasks on 1-3 workers, each after the workers went idle, 2 executors at a time "
            "or one; all of a batch has run by the next one; 1 delay (2 thorough)") {
    int workers = 1 + mc::Choose(3);
    int batches = 2 + mc::Choose(2);
    int size = 1 + 2 * mc::Choose(2);
    bool two = workers <= 2 && mc::ChooseBool();
    mc::sched::CountDelays(true);
    mc::sched::Begin(Bound(1, 2));
    std::atomic<int> ran[2] = {{0}, {0}};
    int seen[2][3] = {{0}};
    {
        auto a = CreateDefaultExecutor(workers);
        std::unique_ptr<Executor> b = two ? CreateDefaultExecutor(1) : nullptr;
        for (int k = 0; k < batches; k++) {
            for (int i = 0; i < size; i++) {
                a->Add([&ran]() { ran[0]++; });
                if (b) b->Add([&ran]() { ran[1]++; });
            }
            std::this_thread::sleep_for(std::chrono::milliseconds(20));
            seen[0][k] = ran[0];
            seen[1][k] = ran[1];
        }
    }
    mc::sched::End();
    for (int k = 0; k < batches; k++) {
        MC_CHECK(seen[0][k] == (k + 1) * size, "executor-stuck",
                 "%d of %d tasks had run after batch %d and a pause", seen[0][k], (k + 1) * size, k);
        MC_CHECK(!two || seen[1][k] == (k + 1) * size, "executor-stuck",
                 "%d of %d tasks of the second executor had run", seen[1][k], (k + 1) * size);
    }
    mc::Nontrivial();
    mc::State(mc::Hash().U(workers).U(batches).U(size).U(two).h);
}

MC_SCENARIO(executor_submitters, mc::BOTH | mc::FORK, 4,
            "two submitting threads with 1-2 tasks each on 1-2 workers; 1 preemption (2 thorough)") {
    int workers = 1 + mc::Choose(2);
    int na = 1 + mc::Choose(2), nb = 1 + mc::Choose(2);
    mc::sched::Begin(Bound(1, 2));
    int ran[4] = {0};
    std::vector<int> order;
    {
        auto ex = CreateDefaultExecutor(workers);
        auto add = [&](int i) {
            ex->Add([&, i]() {
                ran[i]++;
                if (workers == 1) order.push_back(i);
            });
        };
        Threads({[&]() {
                     for (int i = 0; i < na; i++) add(i);
                 },
                 [&]() {
                     for (int i = 0; i < nb; i++) add(2 + i);
                 }});
    }
    mc::sched::End();
    for (int i = 0; i < 4; i++) {
        int want = (i < 2 ? i < na : i - 2 < nb) ? 1 : 0;
        MC_CHECK(ran[i] == want, "executor-runs", "task %d ran %d times, %d submitted", i, ran[i], want);
    }
    if (workers == 1) {
        for (int base : {0, 2}) {
            auto a = std::find(order.begin(), order.end(), base);
            auto b = std::find(order.begin(), order.end(), base + 1);
            MC_CHECK(b == order.end() || a < b, "executor-order", "tasks of one submitter ran out of order");
        }
    }
    mc::Nontrivial();
    mc::Hash h;
    for (int i : order) h.U(i);
    mc::State(h.U(workers).U(na).U(nb).h);
}

MC_SCENARIO(executor_rendezvous, mc::BOTH | mc::FORK, 3,
            "tasks that wait for each other on as many workers, after 0-1 earlier tasks, executor destroyed at once or after they met; 1 preemption (2 thorough)") {
    int workers = 2;
    int before = mc::Choose(2);
    bool wait = mc::ChooseBool();
    mc::sched::Begin(Bound(1, 2));
    int ran = 0;
    {
        auto ex = CreateDefaultExecutor(workers);
        std::promise<void> first;
        if (before) {
            ex->Add([&]() { first.set_value(); });
            first.get_future().get();
        }
        std::promise<void> a, b;
        auto fa = a.get_future(), fb = b.get_future();
        std::promise<void> da, db;
        auto fda = da.get_future(), fdb = db.get_future();
        std::atomic<int> done{0};
        ex->Add([&]() {
            a.set_value();
            fb.get();
            done++;
            da.set_value();
        });
        ex->Add([&]() {
            b.set_value();
            fa.get();
            done++;
            db.set_value();
        });
        if (wait) {
            fda.get();
            fdb.get();
        }
        ex.reset();
        ran = done.load();
    }
    mc::sched::End();
    MC_CHECK(ran == 2, "executor-runs", "%d of 2 waiting tasks finished", ran);
    mc::Nontrivial();
    mc::State(mc::Hash().U(before).U(ran).h);
}

MC_SCENARIO(executor_nested, mc::BOTH | mc::FORK, 3,
            "a task that submits a task, executor destroyed at once or after the first task ended; 1-2 workers; 2 preemptions (3 thorough)") {
    int workers = 1 + mc::Choose(2);
    bool wait = mc::ChooseBool();
    mc::sched::Begin(Bound(2, 3));
    int outer = 0, inner = 0;
    {
        auto ex = CreateDefaultExecutor(workers);
        std::promise<void> p;
        auto f = p.get_future();
        Executor* e = ex.get();
        ex->Add([&, e]() {
            outer++;
            e->Add([&]() { inner++; });
            p.set_value();
        });
        if (wait) f.get();
        ex.reset();
    }
    mc::sched::End();
    MC_CHECK(outer == 1, "executor-runs", "the task ran %d times", outer);
    MC_CHECK(inner <= 1, "executor-runs", "the nested task ran %d times", inner);
    if (wait) MC_CHECK(inner == 1, "executor-runs", "a task accepted before the destruction never ran");
    mc::Nontrivial();
    mc::State(mc::Hash().U(workers).U(wait).U(inner).h);
    mc::Outcome(inner ? "nested ran" : "nested dropped");
}

// ---- futures ----------------------------------------------------------------------------------

MC_SCENARIO(future_collect, mc::BOTH | mc::FORK, 5,
            "0-3 asynchronous calls on 1-2 workers, collected in order by the caller, at most one throws; 2 preemptions up to one call (3 thorough), otherwise 1 (2 thorough)") {
    int workers = 1 + mc::Choose(2);
    int n = mc::Choose(4);
    int thrower = n ? mc::Choose(n + 1) - 1 : -1;
    mc::sched::Begin(n <= 1 ? Bound(2, 3) : Bound(1, 2));
    std::vector<int> got;
    std::string error;
    {
        auto ex = CreateDefaultExecutor(workers);
        std::vector<std::future<int>> fs;
        int data[4] = {0};
        for (int i = 0; i < n; i++) {
            fs.push_back(Via(ex.get(), [i, thrower, &data]() -> int {
                if (i == thrower) throw std::runtime_error("call " + std::to_string(i));
                data[i] = i + 1;  // published to the collector
                return 10 * i;
            }));
        }
        try {
            got = CollectAll(fs);
            for (int i = 0; i < n; i++) MC_CHECK(data[i] == i + 1, "future-publish", "effect %d missing", i);
        } catch (const std::runtime_error& e) {
            error = e.what();
        } catch (...) {
            error = "other";
        }
    }
    mc::sched::End();
    if (thrower >= 0) {
        MC_CHECK(error == "call " + std::to_string(thrower), "future-exception",
                 "the exception of call %d arrived as '%s'", thrower, error.c_str());
    } else {
        MC_CHECK(error.empty(), "future-exception", "unexpected exception '%s'", error.c_str());
        MC_CHECK(static_cast<int>(got.size()) == n, "future-collect", "%zu of %d results", got.size(), n);
        for (int i = 0; i < n; i++) MC_CHECK(got[i] == 10 * i, "future-collect", "result %d is %d", i, got[i]);
    }
    mc::Nontrivial();
    mc::State(mc::Hash().U(workers).U(n).U(thrower).h);
}

MC_SCENARIO(future_kinds, mc::BOTH | mc::FORK, 4,
            "a call that ends with a number, a text, a class of its own or a standard exception, or gives a "
            "value that can only be moved or a failed status, between two others, on 1-2 workers; 1 preemption "
            "(2 thorough)") {
    struct Own {
        int v;
    };
    int workers = 1 + mc::Choose(2);
    int kind = mc::Choose(6);
    mc::sched::Begin(Bound(1, 2));
    std::string seen;
    int others = 0;
    {
        auto ex = CreateDefaultExecutor(workers);
        auto before = Via(ex.get(), []() { return 1; });
        std::future<std::unique_ptr<int>> f = Via(ex.get(), [kind]() -> std::unique_ptr<int> {
            if (kind == 0) throw 7;
            if (kind == 1) throw std::string("text");
            if (kind == 2) throw Own{9};
            if (kind == 3) throw std::out_of_range("range");
            return std::make_unique<int>(5);
        });
        auto st = Via(ex.get(), [kind]() { return kind == 5 ? Status::NotExist("gone") : Status::OK(); });
        auto after = Via(ex.get(), []() { return 2; });
        try {
            seen = std::to_string(*f.get());
        } catch (int x) {
            seen = "int " + std::to_string(x);
        } catch (const std::string& x) {
            seen = x;
        } catch (const Own& x) {
            seen = "own " + std::to_string(x.v);
        } catch (const std::out_of_range& x) {
            seen = x.what();
        } catch (...) {
            seen = "other";
        }
        others = before.get() + after.get() * 10;
        Status s = st.get();
        if (kind == 5) {
            MC_CHECK(s.IsNotExist() && s.message() == "gone", "future-status", "%s", s.ToString().c_str());
        } else {
            MC_CHECK(s.ok(), "future-status", "%s", s.ToString().c_str());
        }
    }
    mc::sched::End();
    const char* want[] = {"int 7", "text", "own 9", "range", "5", "5"};
    MC_CHECK(seen == want[kind], "future-exception", "got '%s' want '%s'", seen.c_str(), want[kind]);
    MC_CHECK(others == 21, "future-collect", "the other calls gave %d", others);
    mc::Nontrivial();
    mc::State(mc::Hash().U(workers).U(kind).h);
}

MC_SCENARIO(future_many, mc::BOTH | mc::FORK, 4,
            "5-10 calls on 1-3 workers, some slow, none, one or two of them throwing at any place; collected "
            "or waited for; 1 delay (2 thorough)") {
    int workers = 1 + mc::Choose(3);
    int n = mc::Pick(std::vector<int>{5, 10});
    int t1 = mc::Choose(n + 1) - 1;
    int t2 = t1 < 0 ? -1 : mc::ChooseBool() ? n - 1 : -1;
    bool collect = mc::ChooseBool();
    mc::sched::CountDelays(true);
    mc::sched::Begin(Bound(1, 2));
    std::vector<std::string> got;
    std::string error;
    int done[10] = {0};
    {
        auto ex = CreateDefaultExecutor(workers);
        std::vector<std::future<std::string>> fs;
        std::vector<std::future<void>> vs;
        for (int i = 0; i < n; i++) {
            auto call = [i, t1, t2, &done]() -> std::string {
                if (i % 3 == 0) Dawdle();
                if (i == t1 || i == t2) throw std::runtime_error("call " + std::to_string(i));
                done[i] = 1;
                return "result " + std::to_string(i);
            };
            if (collect) {
                fs.push_back(Via(ex.get(), call));
            } else {
                vs.push_back(Via(ex.get(), [call]() { (void)call(); }));
            }
        }
        try {
            if (collect) {
                got = CollectAll(fs);
            } else {
                Wait(vs);
            }
            for (int i = 0; i < n; i++) MC_CHECK(done[i] == 1, "future-publish", "effect %d missing", i);
        } catch (const std::runtime_error& e) {
            error = e.what();
        } catch (...) {
            error = "other";
        }
    }
    mc::sched::End();
    if (t1 >= 0) {
        MC_CHECK(error == "call " + std::to_string(t1), "future-exception",
                 "the exception of call %d arrived as '%s'", t1, error.c_str());
    } else {
        MC_CHECK(error.empty(), "future-exception", "unexpected exception '%s'", error.c_str());
        if (collect) {
            MC_CHECK(static_cast<int>(got.size()) == n, "future-collect", "%zu of %d results", got.size(), n);
            for (int i = 0; i < n; i++) {
                MC_CHECK(got[i] == "result " + std::to_string(i), "future-collect", "result %d is '%s'", i,
                         got[i].c_str());
            }
        }
    }
    for (int i = 0; i < n; i++) {
        MC_CHECK(done[i] == (i != t1 && i != t2), "future-run", "call %d done=%d", i, done[i]);
    }
    mc::Nontrivial();
    mc::State(mc::Hash().U(workers).U(n).U(t1).U(t2).U(collect).h);
}

MC_SCENARIO(future_wait, mc::BOTH | mc::FORK, 5,
            "0-3 void calls on 1-2 workers, an invalid future anywhere, at most one throws; 2 preemptions up to one call (3 thorough), otherwise 1 (2 thorough)") {
    int workers = 1 + mc::Choose(2);
    int n = mc::Choose(4);
    int hole = mc::Choose(n + 2) - 1;
    int thrower = n ? mc::Choose(n + 1) - 1 : -1;
    mc::sched::Begin(n <= 1 ? Bound(2, 3) : Bound(1, 2));
    std::string error;
    int done_at_return = 0;
    {
        auto ex = CreateDefaultExecutor(workers);
        std::vector<std::future<void>> fs;
        int data[4] = {0};
        for (int i = 0; i < n; i++) {
            if (i == hole) fs.emplace_back();
            fs.push_back(Via(ex.get(), [i, thrower, &data]() {
                data[i] = 1;
                if (i == thrower) throw std::logic_error("call " + std::to_string(i));
            }));
        }
        if (hole == n) fs.emplace_back();
        try {
            Wait(fs);
            for (int i = 0; i < n; i++) done_at_return += data[i];
        } catch (const std::logic_error& e) {
            error = e.what();
        }
    }
    mc::sched::End();
    if (thrower >= 0) {
        MC_CHECK(error == "call " + std::to_string(thrower), "future-exception",
                 "the exception of call %d arrived as '%s'", thrower, error.c_str());
    } else {
        MC_CHECK(error.empty() && done_at_return == n, "future-wait", "%d of %d calls done when Wait returned",
                 done_at_return, n);
    }
    mc::Nontrivial();
    mc::State(mc::Hash().U(workers).U(n).U(hole).U(thrower).h);
}

MC_SCENARIO(future_dropped, mc::BOTH | mc::FORK, 3,
            "a call submitted from a task while the executor is being destroyed: its future still gets an answer; 2 preemptions (3 thorough)") {
    int workers = 1 + mc::Choose(2);
    mc::sched::Begin(Bound(2, 3));
    int answer = 0;
    {
        auto ex = CreateDefaultExecutor(workers);
        Executor* e = ex.get();
        std::future<int> inner;
        auto outer = Via(e, [e]() { return Via(e, []() { return 7; }); });
        ex.reset();
        inner = outer.get();
        try {
            answer = inner.get();
        } catch (const std::future_error&) {
            answer = -1;
        }
    }
    mc::sched::End();
    MC_CHECK(answer == 7 || answer == -1, "future-dropped", "answer %d", answer);
    mc::Nontrivial();
    mc::State(answer);
    mc::Outcome(answer == 7 ? "ran" : "abandoned");
}

// ---- queue ------------------------------------------------------------------------------------

struct QueueSpec {
    std::deque<int> q;
};
struct Elem {  // copies and moves are visible
    std::string s;
    int v = 0;
    Elem() = default;
    explicit Elem(int x) : s(std::string(20, static_cast<char>('a' + x))), v(x) {}
};

void QueueOp(Lin<QueueSpec>* lin, ThreadsafeQueue<Elem>* q, int op, int value) {
    switch (op) {
        case 0:
            lin->Do("push " + std::to_string(value),
                    [&]() {
                        q->push(Elem(value));
                        return 0;
                    },
                    [value](QueueSpec* s, int) {
                        s->q.push_back(value);
                        return true;
                    });
            break;
        case 1:
            lin->Do("push& " + std::to_string(value),
                    [&]() {
                        const Elem e(value);
                        q->push(e);
                        return 0;
                    },
                    [value](QueueSpec* s, int) {
                        s->q.push_back(value);
                        return true;
                    });
            break;
        case 2:
            lin->Do("pop",
                    [&]() {
                        auto r = q->try_pop();
                        if (r && r->s != Elem(r->v).s) return -2;
                        return r ? r->v : -1;
                    },
                    [](QueueSpec* s, int r) {
                        if (s->q.empty()) return r == -1;
                        bool ok = s->q.front() == r;
                        s->q.pop_front();
                        return ok;
                    });
            break;
        case 3:
            lin->Do("size", [&]() { return static_cast<int>(q->size()); },
                    [](QueueSpec* s, int r) { return r == static_cast<int>(s->q.size()); });
            break;
        case 4:
            lin->Do("empty", [&]() { return static_cast<int>(q->empty()); },
                    [](QueueSpec* s, int r) { return (r != 0) == s->q.empty(); });
            break;
        default:
            lin->Do("front", [&]() { return q->try_front() != nullptr ? 1 : 0; },
                    [](QueueSpec* s, int r) { return (r == 1) == !s->q.empty(); });
            break;
    }
}

MC_SCENARIO(queue_concurrent, mc::BOTH | mc::FORK, 6,
            "initial length 0-1, two threads with two operations each out of 6; 2 preemptions (3 thorough)") {
    int init = mc::Choose(2);
    int ops[2][2];
    for (auto& t : ops) {
        for (int& o : t) o = mc::Choose(6);
    }
    mc::Assume(std::vector<int>{ops[0][0], ops[0][1]} <= std::vector<int>{ops[1][0], ops[1][1]});
    mc::sched::Begin(Bound(2, 3));
    ThreadsafeQueue<Elem> q;
    Lin<QueueSpec> lin;
    QueueSpec spec;
    for (int i = 0; i < init; i++) {
        q.push(Elem(9));
        spec.q.push_back(9);
    }
    Threads({[&]() {
                 for (int i = 0; i < 2; i++) QueueOp(&lin, &q, ops[0][i], i);
             },
             [&]() {
                 for (int i = 0; i < 2; i++) QueueOp(&lin, &q, ops[1][i], 2 + i);
             }});
    mc::sched::End();
    for (int i = 0; i < 6; i++) QueueOp(&lin, &q, 2, 0);  // what is left
    lin.Check("queue-linearizable", spec);
    mc::Nontrivial();
    mc::State(mc::Hash().U(init).U(ops[0][0] * 216 + ops[0][1] * 36 + ops[1][0] * 6 + ops[1][1]).h);
}

MC_SCENARIO(queue_three, mc::BOTH | mc::FORK, 4,
            "two producers of one element, one consumer popping twice; 2 preemptions (3 thorough)") {
    mc::sched::Begin(Bound(2, 3));
    ThreadsafeQueue<Elem> q;
    Lin<QueueSpec> lin;
    Threads({[&]() {
                 QueueOp(&lin, &q, 2, 0);
                 QueueOp(&lin, &q, 2, 0);
             },
             [&]() { QueueOp(&lin, &q, 0, 1); }, [&]() { QueueOp(&lin, &q, 1, 2); }});
    mc::sched::End();
    for (int i = 0; i < 3; i++) QueueOp(&lin, &q, 2, 0);
    lin.Check("queue-linearizable", QueueSpec());
    mc::Nontrivial();
    mc::State(lin.ops().size());
}

MC_SCENARIO(queue_wide, mc::BOTH | mc::FORK, 5,
            "three threads with three operations each: two of 4 producing and one of 4 consuming programs; "
            "nothing lost, doubled or reordered; 1 delay (2 thorough)") {
    const int produce[4][3] = {{0, 0, 0}, {1, 1, 1}, {0, 2, 1}, {0, 3, 1}};
    const int consume[4][3] = {{2, 2, 2}, {4, 2, 2}, {2, 3, 2}, {5, 2, 0}};
    int a = mc::Choose(4), b = mc::Choose(4), c = mc::Choose(4);
    int init = mc::Choose(2) * 2;
    mc::sched::CountDelays(true);
    mc::sched::Begin(Bound(1, 2));
    ThreadsafeQueue<Elem> q;
    Lin<QueueSpec> lin;
    QueueSpec spec;
    for (int i = 0; i < init; i++) {
        q.push(Elem(20 + i));
        spec.q.push_back(20 + i);
    }
    Threads({[&]() {
                 for (int i = 0; i < 3; i++) QueueOp(&lin, &q, produce[a][i], i);
             },
             [&]() {
                 for (int i = 0; i < 3; i++) QueueOp(&lin, &q, produce[b][i], 3 + i);
             },
             [&]() {
                 for (int i = 0; i < 3; i++) QueueOp(&lin, &q, consume[c][i], 6 + i);
             }});
    mc::sched::End();
    for (int i = 0; i < 10; i++) QueueOp(&lin, &q, 2, 0);  // what is left
    lin.Check("queue-linearizable", spec);
    mc::Nontrivial();
    mc::State(mc::Hash().U(init).U(a).U(b).U(c).h);
}

MC_SCENARIO(queue_deep, mc::BOTH, 4, "all sequences of 6 operations out of 6 by one thread (7 thorough)") {
    ThreadsafeQueue<Elem> q;
    std::deque<int> m;
    std::string ctx;
    for (int i = 0; i < (mc::Thorough() ? 7 : 6); i++) {
        int op = mc::Choose(6);
        ctx += "pPosef"[op];
        mc::Steps();
        if (op <= 1) {
            if (op == 0) {
                Elem e(i + 1);
                q.push(e);
            } else {
                q.push(Elem(i + 1));
            }
            m.push_back(i + 1);
        } else if (op == 2) {
            auto r = q.try_pop();
            MC_CHECK(r.has_value() == !m.empty(), "queue-pop", "%s: pop", ctx.c_str());
            if (r) {
                MC_CHECK(r->v == m.front(), "queue-order", "%s: %d want %d", ctx.c_str(), r->v, m.front());
                m.pop_front();
            }
        } else if (op == 5) {
            auto* f = q.try_front();
            MC_CHECK((f != nullptr) == !m.empty() && (!f || f->v == m.front()), "queue-front", "%s: front",
                     ctx.c_str());
        }
        MC_CHECK(q.size() == m.size() && q.empty() == m.empty(), "queue-size", "%s: %zu elements want %zu",
                 ctx.c_str(), static_cast<size_t>(q.size()), m.size());
    }
    mc::State(mc::Hash().S(ctx).h);
    mc::Nontrivial();
}

// ---- concurrent hash map ----------------------------------------------------------------------

struct MapSpec {
    std::map<int, int> m;
};
using Map = ConcurrentHashMap<std::vector<std::string>, int, VectorStringHashCompare>;
std::vector<std::string> Key(int k) {
    return k == 0 ? std::vector<std::string>{"a"} : std::vector<std::string>{"a", "b"};
}

void MapOp(Lin<MapSpec>* lin, Map* m, int op, int key, int value) {
    std::string k = std::to_string(key);
    switch (op) {
        case 0:
            lin->Do("insert " + k + "=" + std::to_string(value),
                    [&]() {
                        m->Insert(Key(key), value);
                        return 0;
                    },
                    [key, value](MapSpec* s, int) {
                        s->m[key] = value;
                        return true;
                    });
            break;
        case 1:
            lin->Do("erase " + k,
                    [&]() {
                        m->Erase(Key(key));
                        return 0;
                    },
                    [key](MapSpec* s, int) {
                        s->m.erase(key);
                        return true;
                    });
            break;
        default:
            lin->Do("find " + k,
                    [&]() {
                        auto r = m->Find(Key(key));
                        return r ? *r : -1;
                    },
                    [key](MapSpec* s, int r) {
                        auto it = s->m.find(key);
                        return r == (it == s->m.end() ? -1 : it->second);
                    });
            break;
    }
}

MC_SCENARIO(map_concurrent, mc::BOTH | mc::FORK, 6,
            "insert/erase/find on one of two keys, initially empty or with key 0; two threads, one with one and one with two operations; 1 preemption (2 thorough)") {
    int init = mc::Choose(2);
    int a = mc::Choose(6), b = mc::Choose(6), c = mc::Choose(6);
    mc::sched::Begin(Bound(1, 2));
    {
        Map m;
        Lin<MapSpec> lin;
        MapSpec spec;
        if (init) {
            m.Insert(Key(0), 9);
            spec.m[0] = 9;
        }
        Threads({[&]() {
                     MapOp(&lin, &m, a % 3, a / 3, 1);
                     MapOp(&lin, &m, b % 3, b / 3, 2);
                 },
                 [&]() { MapOp(&lin, &m, c % 3, c / 3, 3); }});
        mc::sched::End();
        MapOp(&lin, &m, 2, 0, 0);
        MapOp(&lin, &m, 2, 1, 0);
        lin.Check("map-linearizable", spec);
        size_t live = (m.Find(Key(0)) ? 1 : 0) + (m.Find(Key(1)) ? 1 : 0);
        MC_CHECK(m.Size() == live, "map-size", "size %zu with %zu entries", m.Size(), live);
    }
    mc::Nontrivial();
    mc::State(mc::Hash().U(init).U(a * 36 + b * 6 + c).h);
}

MC_SCENARIO(map_wide, mc::BOTH | mc::FORK, 5,
            "three threads with two operations each out of insert, erase and find on one of two keys; 1 delay "
            "(2 thorough)") {
    int init = mc::Choose(2);
    int o[3];
    for (int& x : o) x = mc::Choose(6);
    int second = mc::Choose(3);
    mc::sched::CountDelays(true);
    mc::sched::Begin(Bound(1, 2));
    {
        Map m;
        Lin<MapSpec> lin;
        MapSpec spec;
        if (init) {
            m.Insert(Key(0), 9);
            spec.m[0] = 9;
        }
        auto body = [&](int t) {
            MapOp(&lin, &m, o[t] % 3, o[t] / 3, 1 + t);
            MapOp(&lin, &m, (o[t] + second) % 3, second % 2, 5 + t);
        };
        Threads({[&]() { body(0); }, [&]() { body(1); }, [&]() { body(2); }});
        mc::sched::End();
        MapOp(&lin, &m, 2, 0, 0);
        MapOp(&lin, &m, 2, 1, 0);
        lin.Check("map-linearizable", spec);
        size_t live = (m.Find(Key(0)) ? 1 : 0) + (m.Find(Key(1)) ? 1 : 0);
        MC_CHECK(m.Size() == live, "map-size", "size %zu with %zu entries", m.Size(), live);
    }
    mc::Nontrivial();
    mc::State(mc::Hash().U(init).U(o[0] * 36 + o[1] * 6 + o[2]).U(second).h);
}

MC_SCENARIO(map_deep, mc::BOTH, 3,
            "all sequences of 4 operations (5 thorough) by one thread over 7 keys whose texts concatenate or hash alike") {
    static const std::vector<std::vector<std::string>> keys = []() {
        std::vector<std::vector<std::string>> r{{"ab"}, {"a", "b"}, {"", "ab"}, {}, {"ab", ""}};
        // two keys of equal length with the same hash
        std::map<size_t, std::string> seen;
        for (int i = 100000; i < 1000000; i++) {
            auto k = std::to_string(i);
            auto [it, fresh] = seen.emplace(VectorStringHashCompare().hash({k}), k);
            if (!fresh) {
                r.push_back({it->second});
                r.push_back({k});
                break;
            }
        }
        return r;
    }();
    static const int kKeys = static_cast<int>(keys.size());
    Map m;
    std::map<std::vector<std::string>, int> ref;
    std::string ctx;
    for (int i = 0; i < (mc::Thorough() ? 5 : 4); i++) {
        int k = mc::Choose(kKeys), op = mc::Choose(2);
        ctx += (op ? " erase " : " insert ") + std::to_string(k);
        mc::Steps();
        if (op) {
            m.Erase(keys[k]);
            ref.erase(keys[k]);
        } else {
            m.Insert(keys[k], i);
            ref[keys[k]] = i;
        }
        MC_CHECK(m.Size() == ref.size(), "map-size", "%s: size %zu want %zu", ctx.c_str(), m.Size(), ref.size());
        for (auto& key : keys) {
            auto r = m.Find(key);
            auto it = ref.find(key);
            MC_CHECK(r.has_value() == (it != ref.end()) && (!r || *r == it->second), "map-find", "%s",
                     ctx.c_str());
        }
    }
    mc::State(mc::Hash().S(ctx).h);
    mc::Nontrivial();
}

MC_SCENARIO(map_many, mc::BOTH, 2,
            "10, 300 and 3000 keys inserted, some overwritten, every 2nd, 3rd or 7th erased, then all found "
            "or not") {
    int n = mc::Pick(std::vector<int>{10, 300, 3000});
    int step = mc::Pick(std::vector<int>{2, 3, 7});
    int shape = mc::Choose(3);
    Map m;
    auto key = [shape](int i) {
        std::string a = std::to_string(i % 50), b = std::to_string(i / 50);
        return shape == 0   ? std::vector<std::string>{std::to_string(i)}
               : shape == 1 ? std::vector<std::string>{a, b}
                            : std::vector<std::string>{"p=" + a + std::string(i % 40, 'x'), b, ""};
    };
    for (int i = 0; i < n; i++) m.Insert(key(i), i);
    for (int i = 0; i < n; i += 5) m.Insert(key(i), -i);
    for (int i = 0; i < n; i += step) m.Erase(key(i));
    size_t live = 0;
    for (int i = 0; i < n; i++) {
        auto r = m.Find(key(i));
        bool want = i % step != 0;
        live += want;
        MC_CHECK(r.has_value() == want && (!r || *r == (i % 5 ? i : -i)), "map-find", "key %d of %d", i, n);
        mc::Steps();
    }
    MC_CHECK(m.Size() == live, "map-size", "size %zu want %zu", m.Size(), live);
    mc::State(mc::Hash().U(n).U(step).U(shape).h);
    mc::Nontrivial();
}

// ---- metrics ----------------------------------------------------------------------------------

struct MetricSpec {
    std::map<std::string, uint64_t> m;
};

void MetricOp(Lin<MetricSpec>* lin, MetricsImpl* m, int op) {
    switch (op) {
        case 0:
            lin->Do("set a=1",
                    [&]() {
                        m->SetCounter("a", 1);
                        return 0;
                    },
                    [](MetricSpec* s, int) {
                        s->m["a"] = 1;
                        return true;
                    });
            break;
        case 1:
            lin->Do("set b=2",
                    [&]() {
                        m->SetCounter("b", 2);
                        return 0;
                    },
                    [](MetricSpec* s, int) {
                        s->m["b"] = 2;
                        return true;
                    });
            break;
        case 2:
            lin->Do("merge a+=10",
                    [&]() {
                        auto o = std::make_shared<MetricsImpl>();
                        o->SetCounter("a", 10);
                        m->Merge(o);
                        return 0;
                    },
                    [](MetricSpec* s, int) {
                        s->m["a"] += 10;
                        return true;
                    });
            break;
        case 3:
            lin->Do("get a",
                    [&]() {
                        auto r = m->GetCounter("a");
                        return r.ok() ? static_cast<int>(r.value()) : -1;
                    },
                    [](MetricSpec* s, int r) {
                        auto it = s->m.find("a");
                        return r == (it == s->m.end() ? -1 : static_cast<int>(it->second));
                    });
            break;
        case 4:
            lin->Do("all", [&]() { return m->GetAllCounters(); },
                    [](MetricSpec* s, const std::map<std::string, uint64_t>& r) { return r == s->m; });
            break;
        case 5:
            lin->Do("overwrite {a=5,c=6}",
                    [&]() {
                        auto o = std::make_shared<MetricsImpl>();
                        o->SetCounter("a", 5);
                        o->SetCounter("c", 6);
                        m->Overwrite(o);
                        return 0;
                    },
                    [](MetricSpec* s, int) {
                        s->m = {{"a", 5}, {"c", 6}};
                        return true;
                    });
            break;
        default:
            lin->Do("text", [&]() { return m->ToString(); },
                    [](MetricSpec* s, const std::string& r) {
                        std::string w = "{";
                        for (auto& [k, v] : s->m) {
                            w += (w.size() > 1 ? "," : "") + ("\"" + k + "\":" + std::to_string(v));
                        }
                        return r == w + "}";
                    });
            break;
    }
}

MC_SCENARIO(metrics_concurrent, mc::BOTH | mc::FORK, 6,
            "initially empty or {a,b}; two threads, one with two and one with one operation out of 7; 1 preemption (2 thorough)") {
    int init = mc::Choose(2);
    int a = mc::Choose(7), b = mc::Choose(7), c = mc::Choose(7);
    mc::sched::Begin(Bound(1, 2));
    MetricsImpl m;
    Lin<MetricSpec> lin;
    MetricSpec spec;
    if (init) {
        m.SetCounter("a", 3);
        m.SetCounter("b", 4);
        spec.m = {{"a", 3}, {"b", 4}};
    }
    Threads({[&]() {
                 MetricOp(&lin, &m, a);
                 MetricOp(&lin, &m, b);
             },
             [&]() { MetricOp(&lin, &m, c); }});
    mc::sched::End();
    MetricOp(&lin, &m, 4);
    lin.Check("metrics-linearizable", spec);
    mc::Nontrivial();
    mc::State(mc::Hash().U(init).U(a * 49 + b * 7 + c).h);
}

MC_SCENARIO(metrics_merge, mc::BOTH | mc::FORK, 4,
            "two threads merge into or overwrite one set of counters, or each the other's, with 1-2 counters; 2 preemptions (3 thorough)") {
    bool crossed = mc::ChooseBool();
    int over = crossed ? mc::Choose(4) : 0;  // bit per thread: overwrite instead of merge
    int n = 1 + mc::Choose(2);
    mc::sched::Begin(Bound(2, 3));
    auto x = std::make_shared<MetricsImpl>(), y = std::make_shared<MetricsImpl>(),
         z = std::make_shared<MetricsImpl>();
    for (int i = 0; i < n; i++) {
        std::string k(1, static_cast<char>('a' + i));
        x->SetCounter(k, 1);
        y->SetCounter(k, 10);
        z->SetCounter(k, 100);
    }
    auto apply = [](const std::shared_ptr<MetricsImpl>& to, const std::shared_ptr<MetricsImpl>& from, bool ow) {
        if (ow) {
            to->Overwrite(from);
        } else {
            to->Merge(from);
        }
    };
    Threads({[&]() { apply(x, y, over & 1); },
             [&]() { crossed ? apply(y, x, over & 2) : x->Merge(z); }});
    mc::sched::End();
    for (int i = 0; i < n; i++) {
        std::string k(1, static_cast<char>('a' + i));
        uint64_t vx = x->GetCounter(k).value(), vy = y->GetCounter(k).value();
        std::set<std::pair<uint64_t, uint64_t>> allowed;
        auto put = [](uint64_t to, uint64_t from, bool ow) { return ow ? from : to + from; };
        if (crossed) {
            uint64_t x1 = put(1, 10, over & 1), y1 = put(10, 1, over & 2);
            allowed = {{x1, y1}, {x1, put(10, x1, over & 2)}, {put(1, y1, over & 1), y1}};
        } else {
            allowed = {{111, 10}};
        }
        MC_CHECK(allowed.count({vx, vy}), "metrics-merge", "counters %llu and %llu",
                 static_cast<unsigned long long>(vx), static_cast<unsigned long long>(vy));
    }
    mc::Nontrivial();
    mc::State(mc::Hash().U(crossed).U(over).U(n).h);
}

// ---- memory pool ------------------------------------------------------------------------------

MC_SCENARIO(pool_concurrent, mc::BOTH | mc::FORK, 5,
            "two threads allocating, growing, shrinking and freeing blocks of one pool; 2 preemptions (3 thorough)") {
    int prog[2] = {static_cast<int>(mc::Choose(4)), static_cast<int>(mc::Choose(4))};
    mc::Assume(prog[0] <= prog[1]);
    mc::sched::Begin(Bound(2, 3));
    auto pool = GetMemoryPool();
    uint64_t base = pool->CurrentUsage();
    uint64_t floor_seen[2] = {0, 0};  // bytes a thread itself held at its busiest moment
    int64_t left[2] = {0, 0};
    bool low[2] = {false, false};
    auto body = [&](int t) {
        uint64_t unit = t == 0 ? 100 : 1000;
        auto* p = static_cast<char*>(pool->Malloc(unit, 64));
        if (pool->CurrentUsage() < unit) low[t] = true;
        floor_seen[t] = unit;
        switch (prog[t]) {
            case 0:
                pool->Free(p, unit);
                break;
            case 1:
                p = static_cast<char*>(pool->Realloc(p, unit, 3 * unit, 64));
                floor_seen[t] = 3 * unit;
                if (pool->CurrentUsage() < 3 * unit) low[t] = true;
                pool->Free(p, 3 * unit);
                break;
            case 2:
                p = static_cast<char*>(pool->Realloc(p, unit, unit * 3 / 4, 64));
                pool->Free(p, unit * 3 / 4);
                break;
            default:
                left[t] = static_cast<int64_t>(unit);
                break;
        }
    };
    Threads({[&]() { body(0); }, [&]() { body(1); }});
    mc::sched::End();
    uint64_t now = pool->CurrentUsage(), peak = pool->MaxMemoryUsage();
    MC_CHECK(base == 0 && now == static_cast<uint64_t>(left[0] + left[1]), "pool-usage",
             "usage %llu with %lld bytes live", static_cast<unsigned long long>(now),
             static_cast<long long>(left[0] + left[1]));
    MC_CHECK(!low[0] && !low[1], "pool-usage", "usage below what one thread holds");
    MC_CHECK(peak >= std::max(floor_seen[0], floor_seen[1]) && peak >= now && peak <= 100 * 4 + 1000 * 4,
             "pool-peak", "peak %llu", static_cast<unsigned long long>(peak));
    mc::Nontrivial();
    mc::State(mc::Hash().U(prog[0]).U(prog[1]).U(peak).h);
}

MC_SCENARIO(pool_peak, mc::BOTH | mc::FORK, 3,
            "three threads each take a block and keep it: the peak is the sum; 2 preemptions (3 thorough)") {
    mc::sched::Begin(Bound(2, 3));
    auto pool = GetMemoryPool();
    Threads({[&]() { (void)pool->Malloc(10, 8); }, [&]() { (void)pool->Malloc(200, 8); },
             [&]() { (void)pool->Malloc(3000, 8); }});
    mc::sched::End();
    MC_CHECK(pool->CurrentUsage() == 3210 && pool->MaxMemoryUsage() == 3210, "pool-peak",
             "usage %llu peak %llu after keeping 3210 bytes", static_cast<unsigned long long>(pool->CurrentUsage()),
             static_cast<unsigned long long>(pool->MaxMemoryUsage()));
    mc::Nontrivial();
    mc::State(1);
}

MC_SCENARIO(pool_default, mc::BOTH | mc::FORK, 3,
            "two threads ask for the default pool first; 2 preemptions (3 thorough)") {
    mc::sched::Begin(Bound(2, 3));
    MemoryPool* seen[2];
    Threads({[&]() {
                 seen[0] = GetDefaultPool().get();
                 seen[0]->Free(seen[0]->Malloc(8, 8), 8);
             },
             [&]() {
                 seen[1] = GetDefaultPool().get();
                 seen[1]->Free(seen[1]->Malloc(8, 8), 8);
             }});
    mc::sched::End();
    MC_CHECK(seen[0] && seen[0] == seen[1], "pool-default", "two default pools");
    mc::Nontrivial();
    mc::State(1);
}

// ---- registry ---------------------------------------------------------------------------------

class StubFactory : public Factory {
 public:
    explicit StubFactory(std::string id) : id_(std::move(id)) {}
    const char* Identifier() const override { return id_.c_str(); }

 private:
    std::string id_;
};

MC_SCENARIO(registry_singleton, mc::BOTH | mc::FORK, 3,
            "two threads ask for the registry first, each registers a factory and looks both up; 2 preemptions (3 thorough)") {
    mc::sched::Begin(Bound(2, 3));
    FactoryCreator* seen[2];
    Factory* own[2] = {new StubFactory("x"), new StubFactory("y")};
    Factory* found[2][2];
    auto body = [&](int t) {
        seen[t] = FactoryCreator::GetInstance();
        seen[t]->Register(t ? "mc-y" : "mc-x", own[t]);
        found[t][0] = seen[t]->Create("mc-x");
        found[t][1] = seen[t]->Create("mc-y");
    };
    Threads({[&]() { body(0); }, [&]() { body(1); }});
    mc::sched::End();
    MC_CHECK(seen[0] && seen[0] == seen[1], "registry-singleton", "two registries");
    for (int t = 0; t < 2; t++) {
        MC_CHECK(found[t][t] == own[t], "registry-lookup", "thread %d does not find its own factory", t);
        MC_CHECK(!found[t][1 - t] || found[t][1 - t] == own[1 - t], "registry-lookup",
                 "thread %d finds a wrong factory", t);
    }
    FactoryCreator* r = FactoryCreator::GetInstance();
    MC_CHECK(r->Create("mc-x") == own[0] && r->Create("mc-y") == own[1] && !r->Create("mc-z"),
             "registry-lookup", "a registration was lost");
    auto types = r->GetRegisteredType();
    MC_CHECK(std::count(types.begin(), types.end(), "mc-x") == 1 && std::count(types.begin(), types.end(), "mc-y") == 1,
             "registry-types", "types listed wrongly");
    mc::Nontrivial();
    mc::State(mc::Hash().U(found[0][1] != nullptr).U(found[1][0] != nullptr).h);
}

MC_SCENARIO(registry_hook, mc::BOTH | mc::FORK, 3,
            "two threads count operations with the IO hook, failing from position 0-2; 2 preemptions (3 thorough)") {
    int pos = mc::Choose(4);
    IOHook* h = IOHook::GetInstance();
    h->Reset(pos, IOHook::Mode::RETURN_ERROR);
    mc::sched::Begin(Bound(2, 3));
    int ok[2] = {0, 0};
    Threads({[&]() { ok[0] += IOHook::GetInstance()->Try("p").ok() + IOHook::GetInstance()->Try("p").ok(); },
             [&]() { ok[1] += IOHook::GetInstance()->Try("p").ok(); }});
    mc::sched::End();
    MC_CHECK(h->IOCount() == 3 && ok[0] + ok[1] == std::min(pos, 3), "hook-count",
             "%lld operations counted, %d let through with position %d", static_cast<long long>(h->IOCount()),
             ok[0] + ok[1], pos);
    mc::Nontrivial();
    mc::State(mc::Hash().U(pos).U(ok[0]).h);
}

MC_SCENARIO(registry_hook_history, mc::BOTH | mc::FORK, 2,
            "12 operations from every position 0-13 in all modes, set up anew or cleared in between at any "
            "place") {
    IOHook* h = IOHook::GetInstance();
    int pos = mc::Choose(14), mode = mc::Choose(3), again = mc::Choose(13);
    bool clear = mc::ChooseBool();
    const IOHook::Mode modes[] = {IOHook::Mode::SILENT, IOHook::Mode::RETURN_ERROR, IOHook::Mode::THROW_EXCEPTION};
    h->Reset(pos, modes[mode]);
    int count = 0;
    mc::State(mc::Hash().U(pos).U(mode).U(again).U(clear).h);
    mc::Nontrivial();
    for (int i = 0; i < 12; i++) {
        if (i == again) {
            if (clear) {
                h->Clear();
                mode = 0;
            } else {
                h->Reset(pos, modes[mode]);
            }
            count = 0;
        }
        int got = 0;
        try {
            Status st = h->Try("some/path");
            if (!st.ok()) {
                got = 1;
                MC_CHECK(st.IsIOError() && st.message().find("some/path") != std::string::npos, "hook-error", "%s",
                         st.ToString().c_str());
            }
        } catch (const std::runtime_error& e) {
            got = 2;
        }
        int want = count < pos ? 0 : mode;
        MC_CHECK(got == want, "hook-answer", "operation %d after position %d in mode %d: %d", count, pos, mode, got);
        count++;
        MC_CHECK(h->IOCount() == count, "hook-count", "%lld operations counted, want %d",
                 static_cast<long long>(h->IOCount()), count);
        mc::Steps();
    }
    h->Clear();
}

MC_SCENARIO(registry_many, mc::BOTH | mc::FORK, 2,
            "up to 40 factories registered in 3 orders: after each, every name finds its own factory or none") {
    auto* r = FactoryCreator::GetInstance();
    int n = mc::Pick({1, 2, 5, 16, 40}), in = mc::Choose(3);
    std::set<std::string> names;
    for (auto& t : r->GetRegisteredType()) names.insert(t);
    std::vector<Factory*> made(n, nullptr);
    auto at = [n, in](int i) { return in == 0 ? i : in == 1 ? n - 1 - i : (i + n / 2) % n; };
    auto name = [](int k) { return "mc-" + std::string(k % 7, 'z') + std::to_string(k); };
    for (int i = 0; i < n; i++) {
        int k = at(i);
        made[k] = new StubFactory(name(k));
        r->Register(name(k), made[k]);
        names.insert(name(k));
        for (int j = 0; j < n; j++) {
            MC_CHECK(r->Create(name(j)) == made[j], "registry-many", "%s after %d", name(j).c_str(), i + 1);
        }
        auto types = r->GetRegisteredType();
        MC_CHECK(types.size() == names.size() && std::set<std::string>(types.begin(), types.end()) == names,
                 "registry-many", "%zu types", types.size());
        mc::Steps();
    }
    MC_CHECK(r->Create("mc-") == nullptr && r->Create("") == nullptr, "registry-many", "a name that nobody registered");
    mc::State(mc::Hash().U(n).U(in).h);
    mc::Nontrivial();
}

}  // namespace
