// Ends the process when a case does not end: a deadlock uses no processor time.
#ifndef VERIF_WATCHDOG_HPP
#define VERIF_WATCHDOG_HPP

#include <condition_variable>
#include <mutex>
#include <thread>
#include <unistd.h>

namespace vh {

    class watchdog {
        std::mutex _m;
        std::condition_variable _cv;
        bool _done{false};
        std::thread _t;

    public:
        explicit watchdog(int seconds) : _t{[this, seconds] {
            std::unique_lock l{_m};
            if (not _cv.wait_for(l, std::chrono::seconds{seconds}, [this] { return _done; })) {
                static const char msg[] = "\nVH-HANG: case did not end (deadlock)\n";
                [[maybe_unused]] auto r = ::write(2, msg, sizeof msg - 1);
                ::_exit(97);
            }
        }} {}

        ~watchdog() {
            {
                std::scoped_lock l{_m};
                _done = true;
            }
            _cv.notify_all();
            _t.join();
        }
    };

    inline void spin(std::uint64_t iterations) {
        for (std::uint64_t i = 0; i < iterations; ++i) {
            asm volatile("" ::: "memory");
        }
    }

}

#endif
