// Verification stand-in for moodycamel::ConcurrentQueue (a third-party library that is not part of /repo): an
// unbounded FIFO whose operations are atomic steps; an unsuccessful dequeue lets the other threads run.
#ifndef SHIM_CQ_
#define SHIM_CQ_
#include <cstddef>
#include <deque>
#include <utility>
#include <atomic>
extern "C" void sy_yield();
extern "C" void sy_yield_hint();
extern "C" void sy_progress();
extern "C" void sy_race_off(const void *, unsigned);
extern "C" void sy_race_on();
namespace moodycamel
{
template <class T> class ConcurrentQueue
{
    std::deque<T> q;

  public:
    ConcurrentQueue(size_t = 0) {}
    ConcurrentQueue(const ConcurrentQueue &) = delete;
    ConcurrentQueue &operator=(const ConcurrentQueue &) = delete;
    ConcurrentQueue(ConcurrentQueue &&o) : q(std::move(o.q)) {}
    ConcurrentQueue &operator=(ConcurrentQueue &&o) { q = std::move(o.q); return *this; }
    bool enqueue(const T &x) { sy_yield(); sy_race_off(this, 1); q.push_back(x); sy_race_on(); sy_progress(); return true; }
    bool enqueue(T &&x) { sy_yield(); sy_race_off(this, 1); q.push_back(std::move(x)); sy_race_on(); sy_progress(); return true; }
    bool try_enqueue(const T &x) { return enqueue(x); }
    bool try_enqueue(T &&x) { return enqueue(std::move(x)); }
    template <class It> bool enqueue_bulk(It it, size_t n) { for (size_t i = 0; i < n; i++, ++it) enqueue(*it); return true; }
    template <class U> bool try_dequeue(U &out)
    {
        sy_yield();
        sy_race_off(this, 0);
        if (q.empty()) { sy_race_on(); sy_yield_hint(); return false; }
        out = std::move(q.front());
        q.pop_front();
        sy_race_on();
        sy_progress();
        return true;
    }
    template <class It> size_t try_dequeue_bulk(It it, size_t n)
    {
        size_t k = 0;
        T x;
        while (k < n && try_dequeue(x)) { *it = std::move(x); ++it; k++; }
        return k;
    }
    size_t size_approx() const { sy_race_off(this, 3); size_t n = q.size(); sy_race_on(); return n; }
};
} // namespace moodycamel
#endif
