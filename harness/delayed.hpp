// Delays around the operations of boost's bounded queue, to widen the windows between them. Include before the library.
#ifndef VERIF_DELAYED_HPP
#define VERIF_DELAYED_HPP

#include <atomic>
#include <chrono>
#include <thread>

#include <boost/thread.hpp>
#include <boost/thread/executors/basic_thread_pool.hpp>
#include <boost/thread/concurrent_queues/sync_bounded_queue.hpp>

namespace vh {

    inline std::atomic<std::uint64_t> delay_step{0}, delays_injected{0};
    inline std::atomic<unsigned> delay_percent{0};

    inline void delay() {
        const auto percent = delay_percent.load(std::memory_order_relaxed);
        if (percent == 0) {
            return;
        }
        std::uint64_t h = delay_step.fetch_add(1, std::memory_order_relaxed) * 0x9e3779b97f4a7c15ull;
        h ^= h >> 29;
        h *= 0xbf58476d1ce4e5b9ull;
        h ^= h >> 32;
        if (h % 100 < percent) {
            delays_injected.fetch_add(1, std::memory_order_relaxed);
            std::this_thread::sleep_for(std::chrono::microseconds{1 + (h >> 40) % 120});
        }
    }

}

namespace boost {

    template<typename T>
    class delayed_bounded_queue : public sync_bounded_queue<T> {
        using base = sync_bounded_queue<T>;

        template<typename F>
        static auto around(F &&f) {
            vh::delay();
            struct after {
                ~after() { vh::delay(); }
            } a;
            return f();
        }

    public:
        using base::base;

        bool empty() const { return around([&] { return base::empty(); }); }
        bool full() const { return around([&] { return base::full(); }); }
        bool closed() const { return around([&] { return base::closed(); }); }
        void close() { around([&] { base::close(); }); }
        template<typename E>
        auto wait_push_back(E &&e) { return around([&] { return base::wait_push_back(std::forward<E>(e)); }); }
        auto wait_pull_front(T &t) { return around([&] { return base::wait_pull_front(t); }); }
        template<typename E>
        auto try_push_back(E &&e) { return around([&] { return base::try_push_back(std::forward<E>(e)); }); }
        auto try_pull_front(T &t) { return around([&] { return base::try_pull_front(t); }); }
    };

}

#define sync_bounded_queue delayed_bounded_queue

#endif
