// Contract stub for the third-party ThreadPool (thirdparty/ThreadPool): a task given to
// enqueue() runs exactly once, and its future is ready once it has run. The stub runs the
// task at the enqueue point; that the result does not depend on the schedule is a separate
// obligation / assumption recorded with each property that uses it.
#ifndef THREAD_POOL_H
#define THREAD_POOL_H
#include <vector>
#include <queue>
#include <memory>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <future>
#include <functional>
#include <stdexcept>
std::future<void> verif_ready_future();
class ThreadPool {
public:
    ThreadPool(size_t) {}
    template<class F> std::future<void> enqueue(F&& f) { f(); return verif_ready_future(); }
};
#endif
