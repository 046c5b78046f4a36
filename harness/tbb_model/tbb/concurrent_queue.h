// The bounded queue of oneTBB as this project uses it, with its order of events: a push takes its place first and then
// waits for room, a pop takes a place whose element may still be on its way. Built from one lock, so that the scheduler
// sees it. Used instead of the library's own header when threads are explored.
#pragma once
#include <condition_variable>
#include <cstddef>
#include <limits>
#include <map>
#include <mutex>
#include <utility>

namespace tbb {
template <typename T>
class concurrent_bounded_queue {
 public:
    using size_type = std::ptrdiff_t;
    void set_capacity(size_type c) {
        std::lock_guard<std::mutex> g(m_);
        capacity_ = c < 0 ? std::numeric_limits<size_type>::max() : c;
    }
    void push(const T& v) {
        Push(T(v));
    }
    void push(T&& v) {
        Push(std::move(v));
    }
    bool try_push(T&& v) {
        std::unique_lock<std::mutex> g(m_);
        if (tail_ - head_ >= capacity_) return false;
        items_.emplace(tail_++, std::move(v));
        changed_.notify_all();
        return true;
    }
    bool try_pop(T& out) {
        std::unique_lock<std::mutex> g(m_);
        if (tail_ - head_ <= 0) return false;
        Take(g, head_++, &out);
        return true;
    }
    void pop(T& out) {
        std::unique_lock<std::mutex> g(m_);
        Take(g, head_++, &out);
    }
    bool empty() const {
        std::lock_guard<std::mutex> g(m_);
        return tail_ - head_ <= 0;
    }
    size_type size() const {
        std::lock_guard<std::mutex> g(m_);
        return tail_ - head_;
    }
    size_type capacity() const {
        std::lock_guard<std::mutex> g(m_);
        return capacity_;
    }
    void clear() {
        std::lock_guard<std::mutex> g(m_);
        items_.clear();
        head_ = tail_;
        changed_.notify_all();
    }

 private:
    void Push(T&& v) {
        std::unique_lock<std::mutex> g(m_);
        size_type t = tail_++;
        changed_.wait(g, [&] { return t - head_ < capacity_; });
        items_.emplace(t, std::move(v));
        changed_.notify_all();
    }
    void Take(std::unique_lock<std::mutex>& g, size_type t, T* out) {
        changed_.notify_all();
        changed_.wait(g, [&] { return items_.count(t) != 0; });
        auto i = items_.find(t);
        *out = std::move(i->second);
        items_.erase(i);
    }
    mutable std::mutex m_;
    std::condition_variable changed_;
    std::map<size_type, T> items_;
    size_type head_ = 0, tail_ = 0;
    size_type capacity_ = std::numeric_limits<size_type>::max();
};
}  // namespace tbb
