// Stand-in of tbb::parallel_for for race detection: the real scheduler is not instrumented, so its synchronisation is
// invisible to the race detector. Same contract: iterations run in any order, on any thread, and end before the return.
#pragma once
#include <algorithm>
#include <atomic>
#include <cstddef>
#include <exception>
#include <thread>
#include <vector>
namespace mon_par {
// relaxed: the monitor adds no ordering between the threads it watches
inline std::atomic<unsigned long> calls {0}, iterations {0}, threads {0};
} // namespace mon_par
namespace tbb {
template<class T> class blocked_range
{
  public:
    blocked_range(T b, T e, std::size_t = 1) : _b(b), _e(e) {}
    T begin() const { return _b; }
    T end() const { return _e; }
    bool empty() const { return !(_b < _e); }
    std::size_t size() const { return static_cast<std::size_t>(_e - _b); }

  private:
    T _b, _e;
};
template<class I, class F> void parallel_for(I first, I last, const F& f)
{
    if (!(first < last)) return;
    const std::size_t n = static_cast<std::size_t>(last - first), nt = std::min<std::size_t>(n, 4);
    mon_par::calls.fetch_add(1, std::memory_order_relaxed);
    mon_par::iterations.fetch_add(n, std::memory_order_relaxed);
    mon_par::threads.fetch_add(nt, std::memory_order_relaxed);
    std::vector<std::exception_ptr> errors(nt);
    std::vector<std::thread> pool;
    for (std::size_t t = 0; t < nt; ++t)
        pool.emplace_back([&, t] {
            try
            {
                // each thread takes every nt-th iteration, the last ones first on odd threads
                for (std::size_t k = 0; t + k * nt < n; ++k)
                {
                    std::size_t i = t + k * nt;
                    if (t % 2 == 1) i = t + ((n - 1 - t) / nt - k) * nt;
                    f(static_cast<I>(first + static_cast<I>(i)));
                    if (i % 7 == 3) std::this_thread::yield();
                }
            }
            catch (...)
            {
                errors[t] = std::current_exception();
            }
        });
    for (auto& t: pool) t.join();
    for (auto& e: errors)
        if (e) std::rethrow_exception(e);
}
template<class I, class F> void parallel_for(I first, I last, I step, const F& f)
{
    const I n = (last - first + step - 1) / step;
    parallel_for(I(0), n, [&](I k) { f(static_cast<I>(first + k * step)); });
}
template<class T, class F> void parallel_for(const blocked_range<T>& r, const F& f)
{
    const std::size_t n = r.size(), chunk = std::max<std::size_t>(1, n / 16), parts = (n + chunk - 1) / chunk;
    parallel_for(std::size_t(0), parts, [&](std::size_t k) {
        f(blocked_range<T>(static_cast<T>(r.begin() + static_cast<T>(k * chunk)), static_cast<T>(r.begin() + static_cast<T>(std::min(n, (k + 1) * chunk)))));
    });
}
} // namespace tbb
