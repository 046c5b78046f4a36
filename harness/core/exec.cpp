// Executors that run each task at once in the caller: used in place of the thread pool by the
// harnesses that explore one process at a time (the pool itself is explored under the controlled
// scheduler).
#include "core/world.h"

namespace paimon {
std::shared_ptr<Executor> GetGlobalDefaultExecutor() {
    static std::shared_ptr<Executor> e = std::make_shared<w::Inline>();
    return e;
}
std::unique_ptr<Executor> CreateDefaultExecutor() { return std::make_unique<w::Inline>(); }
std::unique_ptr<Executor> CreateDefaultExecutor(uint32_t) { return std::make_unique<w::Inline>(); }
}  // namespace paimon
