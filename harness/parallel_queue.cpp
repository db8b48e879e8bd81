// Monitor: every queued task is executed exactly once, for all numbers of threads, producers and delays.
#include "delayed.hpp"
#include "common/vh.hpp"
#include "watchdog.hpp"

#include <atomic>
#include <semaphore>

#include <boost/thread.hpp>
#include "util/coordinator.hpp"

namespace {

    struct task {
        std::uint64_t number{};
        std::unique_ptr<std::string> payload{}; // shared or lost payloads become visible
    };

    struct workers : map_matching_2::util::coordinator<task> {
        struct plan {
            std::uint64_t delay{}; // at most
            std::uint64_t fail{}; // every n-th task
        };
        plan p;
        std::vector<std::atomic<int>> runs;
        std::atomic<int> now{0}, most{0}, wrong{0};
        std::mutex m;
        std::vector<std::uint64_t> order;

        workers(std::uint32_t threads, std::size_t tasks, plan p)
            : coordinator{threads}, p{p}, runs(tasks) {}
        workers(std::uint32_t threads, std::uint32_t queue, std::size_t tasks, plan p)
            : coordinator{threads, queue}, p{p}, runs(tasks) {}

        void execute(task &&t) override {
            const int k = ++now;
            int seen = most.load();
            while (k > seen and not most.compare_exchange_weak(seen, k)) {}
            if (t.payload == nullptr or *t.payload != std::to_string(t.number)) {
                ++wrong;
            }
            {
                std::scoped_lock l{m};
                order.push_back(t.number);
            }
            if (p.delay > 0) {
                vh::spin((t.number * 2654435761u) % p.delay);
            }
            ++runs[t.number];
            --now;
            if (p.fail > 0 and t.number % p.fail == 0) {
                throw std::runtime_error{"failing task"};
            }
        }
    };

    task make(std::uint64_t number) { return {number, std::make_unique<std::string>(std::to_string(number))}; }

    void queue(vh::context &ctx, vh::rng &r) {
        vh::watchdog dog{40};
        const auto tasks = static_cast<std::size_t>(r.chance(0.1) ? 0 : r.range(1, r.chance(0.2) ? 500 : 60));
        const auto threads = static_cast<std::uint32_t>(r.chance(0.3) ? 1 : r.range(1, 12));
        const auto producers = static_cast<std::size_t>(r.chance(0.6) ? 1 : r.range(2, 4));
        const std::uint64_t pause = r.chance(0.5) ? 0 : r.range(1, 30000);
        workers::plan p;
        p.delay = r.chance(0.4) ? 0 : r.range(1, 30000);
        p.fail = r.chance(0.6) ? 0 : r.range(1, 5);
        const bool own_queue = r.chance(0.5);
        const auto size = static_cast<std::uint32_t>(r.range(1, 20));
        vh::delay_percent = r.chance(0.5) ? 0 : static_cast<unsigned>(r.range(1, 60));
        const bool join = r.chance(0.8), late = r.chance(0.2);
        const auto say = [&] {
            return vh::cat("tasks ", tasks, " threads ", threads, " producers ", producers, " pause ", pause, " delay ", p.delay, " fail ", p.fail,
                    " queue ", own_queue ? std::to_string(size) : "default", " late ", late, " delays ", vh::delay_percent.load());
        };
        ctx.observe(vh::hash_str(say()));
        auto w = own_queue ? std::make_unique<workers>(threads, size, tasks, p) : std::make_unique<workers>(threads, tasks, p);
        // a late start finds tasks waiting
        const std::size_t room = own_queue ? size : threads == 1 ? 1 : 2 * threads;
        std::size_t first = 0;
        if (late) {
            while (first < std::min(tasks, room)) {
                w->queue(make(first++));
            }
        }
        w->start();
        std::vector<std::thread> feed;
        for (std::size_t k = 0; k < producers; ++k) {
            feed.emplace_back([&, k] {
                for (std::size_t i = first + k; i < tasks; i += producers) {
                    vh::spin(pause == 0 ? 0 : (i * 40503) % pause);
                    w->queue(make(i));
                }
            });
        }
        for (auto &f : feed) {
            f.join();
        }
        w->stop();
        w->join();
        for (std::size_t i = 0; i < tasks; ++i) {
            ctx.require(w->runs[i] == 1, "task not executed exactly once", [&] { return vh::cat("task ", i, ": ", w->runs[i].load(), " times, ", say()); });
        }
        ctx.require(w->order.size() == tasks, "number of executed tasks", [&] { return vh::cat(w->order.size(), " ", say()); });
        ctx.require(w->wrong == 0, "task arrives with another payload", say);
        ctx.require(w->most <= static_cast<int>(threads), "more tasks at a time than threads", [&] { return vh::cat(w->most.load(), " ", say()); });
        if (threads == 1 and producers == 1) {
            for (std::size_t i = 0; i < w->order.size(); ++i) {
                ctx.require(w->order[i] == i, "one thread does not keep the order", say);
            }
            ctx.stat("orders_kept");
        }
        if (join) {
            w->join();
        }
        ctx.stat("tasks", tasks);
        ctx.stat("tasks_at_a_time", static_cast<std::uint64_t>(w->most.load()));
        ctx.stat(p.fail > 0 ? "queues_with_failing_tasks" : "queues_without_failing_tasks");
        // order of execution other than the queued one: an observed interleaving
        if (not std::is_sorted(w->order.begin(), w->order.end())) {
            ctx.stat("orders_interleaved");
        }
        w.reset();
        ctx.stat("delays_injected", vh::delays_injected.exchange(0));
    }

}

int main(int argc, char **argv) {
    return vh::run(argc, argv, {{"queue", queue, 1500, 40000}});
}
