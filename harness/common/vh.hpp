// Shared monitor runtime for the map-matching-2 checks: deterministic case generation, violation recording,
// crash/hang attribution and a machine readable report of what was actually observed.
#ifndef VERIF_VH_HPP
#define VERIF_VH_HPP

#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <unordered_set>
#include <vector>

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

namespace vh {

    inline std::uint64_t mix(std::uint64_t x) {
        x += 0x9E3779B97F4A7C15ull;
        x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
        x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
        return x ^ (x >> 31);
    }

    inline std::uint64_t hash_bytes(const void *data, std::size_t n, std::uint64_t h = 1469598103934665603ull) {
        const auto *p = static_cast<const unsigned char *>(data);
        for (std::size_t i = 0; i < n; ++i) {
            h = (h ^ p[i]) * 1099511628211ull;
        }
        return h;
    }

    inline std::uint64_t hash_str(const std::string &s) { return hash_bytes(s.data(), s.size()); }

    struct rng {
        std::uint64_t state;

        explicit rng(std::uint64_t seed) : state{mix(seed)} {}

        std::uint64_t next() {
            state += 0x9E3779B97F4A7C15ull;
            return mix(state);
        }

        // uniform in [lo, hi]
        std::int64_t range(std::int64_t lo, std::int64_t hi) {
            return lo + static_cast<std::int64_t>(next() % static_cast<std::uint64_t>(hi - lo + 1));
        }

        bool chance(double p) { return real() < p; }

        double real() { return static_cast<double>(next() >> 11) * 0x1.0p-53; }

        double real(double lo, double hi) { return lo + (hi - lo) * real(); }

        template<typename C>
        auto &pick(C &&c) { return c[static_cast<std::size_t>(range(0, static_cast<std::int64_t>(c.size()) - 1))]; }

        template<typename C>
        void shuffle(C &c) {
            for (std::size_t i = c.size(); i > 1; --i) {
                std::swap(c[i - 1], c[static_cast<std::size_t>(range(0, static_cast<std::int64_t>(i) - 1))]);
            }
        }
    };

    inline std::string json_escape(const std::string &s) {
        std::string out;
        for (const char ch : s) {
            const auto c = static_cast<unsigned char>(ch);
            if (c == '"' or c == '\\') {
                out += '\\';
                out += ch;
            } else if (c < 0x20 or c >= 0x7f) {
                char buf[8];
                std::snprintf(buf, sizeof buf, "\\u%04x", c);
                out += buf;
            } else {
                out += ch;
            }
        }
        return out;
    }

    struct case_failed {};

    struct violation {
        std::string key, detail, scenario;
        std::uint64_t index;
    };

    struct context {
        std::uint64_t seed{1};
        bool thorough{false};
        std::string scenario;
        std::uint64_t index{0};
        std::filesystem::path scratch;

        std::uint64_t evaluations{0};
        std::uint64_t fingerprint{0};
        bool nontrivial{false};
        std::unordered_set<std::uint64_t> distinct; // one fingerprint per non-trivial case
        std::map<std::string, long long> stats;
        std::map<std::string, std::vector<std::string>> samples;
        std::vector<violation> violations;

        // records a violation and ends the current case
        [[noreturn]] void fail(const std::string &key, const std::string &detail) {
            violate(key, detail);
            throw case_failed{};
        }

        void violate(const std::string &key, const std::string &detail) {
            std::size_t same = 0;
            for (const auto &v : violations) {
                same += v.key == key;
            }
            if (same < 3) {
                violations.push_back({key, detail.substr(0, 4000), scenario, index});
                std::cerr << "[violation] " << key << " (" << scenario << " #" << index << "): "
                        << detail.substr(0, 1500) << std::endl;
            }
        }

        void require(bool ok, const std::string &key, const std::string &detail) {
            if (not ok) {
                fail(key, detail);
            }
        }

        template<typename F> requires std::invocable<F>
        void require(bool ok, const std::string &key, F &&detail) {
            if (not ok) {
                fail(key, detail());
            }
        }

        // marks the running case as non-trivial and folds the value into its fingerprint
        void observe(std::uint64_t value) {
            nontrivial = true;
            fingerprint = mix(fingerprint ^ mix(value));
        }

        void stat(const std::string &name, long long n = 1) { stats[name] += n; }

        void sample(const std::string &text) {
            auto &s = samples[scenario];
            if (s.size() < 3) {
                s.push_back(text.substr(0, 600));
            }
        }
    };

    struct scenario {
        std::string name;
        std::function<void(context &, rng &)> fn;
        std::uint64_t quick, thorough;
        double cpu_limit{60.0};
    };

    inline char *progress = nullptr;

    inline void on_prof(int) {
        static const char msg[] = "\nVH-HANG: case exceeded its CPU budget\n";
        [[maybe_unused]] auto r = ::write(2, msg, sizeof msg - 1);
        ::_exit(97);
    }

    inline void arm(double seconds) {
        itimerval t{};
        t.it_value.tv_sec = static_cast<long>(seconds);
        ::setitimer(ITIMER_PROF, &t, nullptr);
    }

    inline bool close(double a, double b, double rel = 1e-9, double abs = 1e-9) {
        if (std::isnan(a) or std::isnan(b)) {
            return std::isnan(a) and std::isnan(b);
        }
        if (a == b) {
            return true;
        }
        return std::abs(a - b) <= std::max(abs, rel * std::max(std::abs(a), std::abs(b)));
    }

    template<typename... Args>
    std::string cat(const Args &... args) {
        std::ostringstream out;
        out.precision(17);
        ((out << args), ...);
        return out.str();
    }

    // usage: <binary> --seed S --tier quick|thorough --shard i/n --out FILE --progress FILE --scratch DIR
    //        [--scenario NAME --case INDEX] [--scale F]
    inline int run(int argc, char **argv, const std::vector<scenario> &scenarios) {
        context ctx;
        std::string out_file, only_scenario, progress_file;
        long long only_case = -1;
        std::uint64_t shard = 0, shards = 1;
        double scale = 1.0;
        ctx.scratch = std::filesystem::current_path();
        for (int i = 1; i + 1 < argc; i += 2) {
            const std::string arg{argv[i]}, val{argv[i + 1]};
            if (arg == "--seed") ctx.seed = std::stoull(val);
            else if (arg == "--tier") ctx.thorough = val == "thorough";
            else if (arg == "--out") out_file = val;
            else if (arg == "--progress") progress_file = val;
            else if (arg == "--scratch") ctx.scratch = val;
            else if (arg == "--scenario") only_scenario = val;
            else if (arg == "--case") only_case = std::stoll(val);
            else if (arg == "--scale") scale = std::stod(val);
            else if (arg == "--shard") {
                shard = std::stoull(val.substr(0, val.find('/')));
                shards = std::stoull(val.substr(val.find('/') + 1));
            }
        }

        static char fallback[256];
        progress = fallback;
        if (not progress_file.empty()) {
            const int fd = ::open(progress_file.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
            if (fd >= 0 and ::ftruncate(fd, 256) == 0) {
                void *p = ::mmap(nullptr, 256, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
                if (p != MAP_FAILED) {
                    progress = static_cast<char *>(p);
                }
            }
        }
        ::signal(SIGPROF, on_prof);

        for (const auto &s : scenarios) {
            if (not only_scenario.empty() and s.name != only_scenario) {
                continue;
            }
            ctx.scenario = s.name;
            auto count = static_cast<std::uint64_t>(
                    static_cast<double>(ctx.thorough ? s.thorough : s.quick) * scale);
            for (std::uint64_t i = 0; i < count or (only_case >= 0 and i <= static_cast<std::uint64_t>(only_case)); ++i) {
                if (only_case >= 0) {
                    i = static_cast<std::uint64_t>(only_case);
                } else if (i % shards != shard) {
                    continue;
                }
                ctx.index = i;
                std::snprintf(progress, 256, "%s %llu", s.name.c_str(), static_cast<unsigned long long>(i));
                rng r{mix(ctx.seed) ^ hash_str(s.name) ^ mix(i * 2654435761ull + 17)};
                arm(s.cpu_limit);
                ctx.fingerprint = hash_str(s.name);
                ctx.nontrivial = false;
                try {
                    s.fn(ctx, r);
                } catch (const case_failed &) {
                } catch (const std::exception &e) {
                    ctx.violate(std::string{"unexpected-exception:"} + s.name,
                            std::string{typeid(e).name()} + ": " + e.what());
                }
                ++ctx.evaluations;
                if (ctx.nontrivial) {
                    ctx.distinct.insert(ctx.fingerprint);
                }
                if (only_case >= 0) {
                    break;
                }
            }
            arm(0);
        }
        std::snprintf(progress, 256, "done");

        std::ostringstream json;
        json << "{\"evaluations\":" << ctx.evaluations << ",\"distinct\":[";
        bool first = true;
        for (const auto d : ctx.distinct) {
            json << (first ? "" : ",") << "\"" << std::hex << d << std::dec << "\"";
            first = false;
        }
        json << "],\"stats\":{";
        first = true;
        for (const auto &[k, v] : ctx.stats) {
            json << (first ? "" : ",") << "\"" << json_escape(k) << "\":" << v;
            first = false;
        }
        json << "},\"samples\":{";
        first = true;
        for (const auto &[k, vs] : ctx.samples) {
            json << (first ? "" : ",") << "\"" << json_escape(k) << "\":[";
            first = false;
            for (std::size_t i = 0; i < vs.size(); ++i) {
                json << (i ? "," : "") << "\"" << json_escape(vs[i]) << "\"";
            }
            json << "]";
        }
        json << "},\"violations\":[";
        for (std::size_t i = 0; i < ctx.violations.size(); ++i) {
            const auto &v = ctx.violations[i];
            json << (i ? "," : "") << "{\"key\":\"" << json_escape(v.key) << "\",\"detail\":\"" << json_escape(v.detail)
                    << "\",\"scenario\":\"" << json_escape(v.scenario) << "\",\"case\":" << v.index << "}";
        }
        json << "]}\n";
        if (not out_file.empty()) {
            std::ofstream out{out_file};
            out << json.str();
        } else {
            std::cout << "evaluations " << ctx.evaluations << " distinct " << ctx.distinct.size() << "\n";
            for (const auto &[k, v] : ctx.stats) {
                std::cout << "  " << k << " = " << v << "\n";
            }
            for (const auto &[k, vs] : ctx.samples) {
                for (const auto &v : vs) {
                    std::cout << "  sample " << k << ": " << v << "\n";
                }
            }
        }
        std::cerr.flush();
        return ctx.violations.empty() ? 0 : 3;
    }

}

#endif
