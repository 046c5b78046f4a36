// Linearizability of a short concurrent history against a sequential specification.
#pragma once
#include <functional>
#include <string>
#include <vector>

#include "mc/mc.h"
#include "mc/sched.h"

struct LinOp {
    int thread;
    std::string what;      // printable
    uint64_t start, end;   // positions in the schedule
    // Applies the operation to the specification state; false if the recorded answer is not the one
    // the specification gives.
    std::function<bool(void*)> step;
};

template <typename Spec>
class Lin {
 public:
    // Called by the threads of the execution; only one runs at a time.
    template <typename Call, typename Check>
    void Do(const std::string& what, Call&& call, Check&& check) {
        size_t i;
        {
            mc::sched::Hidden hidden;
            i = ops_.size();
            ops_.emplace_back();
            ops_[i].thread = mc::sched::Self();
            ops_[i].start = ++clock_;
        }
        auto answer = call();
        mc::sched::Hidden hidden;
        LinOp& o = ops_[i];
        o.end = ++clock_;
        o.what = what;
        o.step = [answer, check](void* s) { return check(static_cast<Spec*>(s), answer); };
    }
    // After the execution: is there an order?
    void Check(const char* sig, const Spec& init) {
        std::vector<bool> used(ops_.size(), false);
        if (!Search(init, &used, 0)) {
            std::string h;
            for (auto& o : ops_) {
                h += " [t" + std::to_string(o.thread) + " " + o.what + " @" + std::to_string(o.start) + "-" +
                     std::to_string(o.end) + "]";
            }
            mc::FailStr(sig, "no sequential order explains the answers:" + h);
        }
    }
    std::vector<LinOp>& ops() { return ops_; }

 private:
    bool Search(const Spec& s, std::vector<bool>* used, size_t n) {
        if (n == ops_.size()) return true;
        for (size_t i = 0; i < ops_.size(); i++) {
            if ((*used)[i]) continue;
            bool first = true;
            for (size_t j = 0; j < ops_.size(); j++) {
                if (!(*used)[j] && j != i && ops_[j].end < ops_[i].start) first = false;
            }
            if (!first) continue;
            Spec t = s;
            if (!ops_[i].step(&t)) continue;
            (*used)[i] = true;
            if (Search(t, used, n + 1)) return true;
            (*used)[i] = false;
        }
        return false;
    }
    std::vector<LinOp> ops_;
    uint64_t clock_ = 0;
};
