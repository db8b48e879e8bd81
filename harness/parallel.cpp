// Monitor: the matcher with any number of threads against one thread and against direct matching.
#include "delayed.hpp"
#include "matching.hpp"
#include "watchdog.hpp"

#include <deque>
#include <fstream>
#include <iostream>

#include "matching/matcher.hpp"

namespace {

    using namespace matching;
    using multi_track_type = ma::network_traits<N>::multi_track_type;
    using variant_type = map_matching_2::geometry::track::multi_track_variant_type;
    using single_type = map_matching_2::environment::single<N>;
    using hmm_type = map_matching_2::environment::hmm<N>;
    using row = std::vector<std::string>;

    struct job {
        std::string id;
        std::vector<std::vector<xy>> lines;
        S s;
        bool fails{};
    };

    multi_track_type make_multi(const job &j) {
        multi_track_type::multi_line_type lines;
        for (const auto &l : j.lines) {
            line_type line;
            for (const auto &q : l) {
                line.emplace_back(P(q));
            }
            lines.emplace_back(std::move(line));
        }
        return multi_track_type{j.id, std::move(lines)};
    }

    // a track in other coordinates, which can not be matched in this network
    variant_type make_foreign(const job &j) {
        using first = std::variant_alternative_t<0, variant_type>;
        using last = std::variant_alternative_t<std::variant_size_v<variant_type> - 1, variant_type>;
        using foreign = std::conditional_t<std::same_as<first, multi_track_type>, last, first>;
        static_assert(not std::same_as<foreign, multi_track_type>);
        foreign f;
        f.id = j.id;
        return f;
    }

    std::vector<row> read_csv(const std::filesystem::path &p) {
        std::ifstream in{p};
        std::vector<row> rows;
        std::string all{std::istreambuf_iterator<char>{in}, {}};
        row r;
        std::string field;
        bool quoted = false;
        for (std::size_t i = 0; i < all.size(); ++i) {
            const char c = all[i];
            if (quoted) {
                if (c == '"' and i + 1 < all.size() and all[i + 1] == '"') {
                    field += c, ++i;
                } else if (c == '"') {
                    quoted = false;
                } else {
                    field += c;
                }
            } else if (c == '"') {
                quoted = true;
            } else if (c == ',' or c == '\n') {
                r.push_back(std::move(field));
                field.clear();
                if (c == '\n') {
                    rows.push_back(std::move(r));
                    r.clear();
                }
            } else {
                field += c;
            }
        }
        if (not field.empty() or not r.empty()) {
            r.push_back(field);
            r.push_back("<unfinished row>");
            rows.push_back(r);
        }
        return rows;
    }

    constexpr const char *columns = "id,aborted,track,prepared,match,track_length,prepared_length,match_length,edge_ids";
    constexpr const char *candidate_columns = "id,part_index,set_index,candidate_index,projection,distance,from,to,edge_id,is_result";

    struct output {
        std::vector<row> rows, candidates; // without header, sorted
        std::vector<std::string> lines; // printed
        row header, candidates_header;
    };

    thread_local std::uint64_t slow = 0;
    std::atomic<std::uint64_t> write_delay{0};
    void delay_write() {
        vh::spin(write_delay == 0 ? 0 : (++slow * 7919) % write_delay);
    }

    struct schedule {
        std::uint32_t threads{1};
        std::size_t producers{1};
        std::uint64_t pause{}, delay{};
        unsigned interrupts{};
        bool console{}, verbose{}, join{true}, candidates{true};
        std::string str() const {
            return vh::cat("threads ", threads, " producers ", producers, " pause ", pause, " delay ", delay, " interrupts ", interrupts, " console ", console, " verbose ",
                    verbose, " join ", join, " candidates ", candidates);
        }
    };

    output run(vh::context &ctx, const N &n, const std::vector<job> &jobs, const schedule &s, const std::string &name) {
        const auto file = ctx.scratch / (name + ".csv"), candidates_file = ctx.scratch / (name + "-candidates.csv");
        write_delay = s.delay;
        csv::on_write = delay_write;
        std::ostringstream printed;
        auto *const cout = std::cout.rdbuf(printed.rdbuf());
        {
            const ma::matcher_output_settings out{file.string(), columns, s.candidates ? candidates_file.string() : "", candidate_columns, s.console,
                    s.verbose};
            auto matcher = std::make_unique<ma::matcher<N>>(n, out, s.threads);
            matcher->start();
            std::vector<std::thread> feed;
            for (std::size_t k = 0; k < s.producers; ++k) {
                feed.emplace_back([&, k] {
                    for (std::size_t i = k; i < jobs.size(); i += s.producers) {
                        vh::spin(s.pause == 0 ? 0 : (i * 40503) % s.pause);
                        if (jobs[i].fails) {
                            matcher->match(make_foreign(jobs[i]), jobs[i].s);
                        } else {
                            matcher->match(make_multi(jobs[i]), jobs[i].s);
                        }
                    }
                });
            }
            for (auto &f : feed) {
                f.join();
            }
            if (s.join) {
                matcher->stop();
                matcher->join();
            }
            matcher.reset();
        }
        std::cout.rdbuf(cout);
        csv::on_write = nullptr;
        output o;
        const auto take = [](const std::filesystem::path &p, std::vector<row> &rows, row &header) {
            rows = read_csv(p);
            if (not rows.empty()) {
                header = rows.front();
                rows.erase(rows.begin());
            }
            std::sort(rows.begin(), rows.end());
            std::filesystem::remove(p);
        };
        take(file, o.rows, o.header);
        if (s.candidates) {
            take(candidates_file, o.candidates, o.candidates_header);
        }
        std::istringstream in{printed.str()};
        for (std::string l; std::getline(in, l);) {
            o.lines.push_back(l);
        }
        return o;
    }

    // what matching one track gives without any threads
    row direct(const N &n, const job &j) {
        map_matching_2::util::time_helper time;
        ma::algorithms<N> algorithms{n, time};
        const auto multi = make_multi(j);
        std::deque<std::shared_ptr<void>> keep; // the routes refer to them
        std::vector<route_type> matches;
        std::vector<line_type> prepared;
        std::vector<std::uint64_t> ids;
        const auto part = [&]<typename E, typename L>(std::type_identity<E>, std::type_identity<L>, const track_type &track) {
            const auto kept = std::make_shared<E>(n, algorithms, j.s);
            keep.push_back(kept);
            auto &environment = *kept;
            const auto kept_learner = std::make_shared<L>(environment, j.s);
            keep.push_back(kept_learner);
            auto &learner = *kept_learner;
            environment.set(track);
            policy_type policy;
            for (const auto &[c, e] : learner()) {
                policy.emplace_back(c, e);
            }
            prepared.push_back(environment.track().rich_line.line());
            auto route = environment.result(policy);
            const auto edges = algorithms.router.edges_list(route);
            if (j.s.export_edges) {
                route = algorithms.router.export_edges_route(edges);
            }
            if (j.s.export_edge_ids) {
                for (const auto id : algorithms.router.edge_ids(edges)) {
                    ids.push_back(id);
                }
            }
            matches.emplace_back(route);
        };
        for (std::size_t i = 0; i < multi.size(); ++i) {
            const auto track = multi.get_track(i);
            using namespace map_matching_2::learning;
            switch (j.s.model) {
                case S::POLICY_ITERATION:
                    part(std::type_identity<single_type>{}, std::type_identity<policy_iteration<single_type>>{}, track);
                    break;
                case S::VITERBI:
                    part(std::type_identity<hmm_type>{}, std::type_identity<viterbi<hmm_type>>{}, track);
                    break;
                default:
                    part(std::type_identity<single_type>{}, std::type_identity<value_iteration<single_type>>{}, track);
                    break;
            }
        }
        const auto match = route_type::template merge<ma::network_traits<N>::lazy_rich_line_type>({matches.begin(), matches.end()});
        const auto len = [](const auto &x) { return std::to_string(x.has_length() ? static_cast<double>(x.length()) : 0.0); };
        multi_track_type::multi_line_type lines;
        for (auto &l : prepared) {
            lines.emplace_back(l);
        }
        const multi_track_type p{j.id, std::move(lines)};
        std::string list;
        for (const auto id : ids) {
            list += (list.empty() ? "" : ",") + std::to_string(id);
        }
        return {j.id, "no", multi.wkt(), p.wkt(), match.wkt(), len(multi.multi_rich_line), len(p.multi_rich_line), len(match), list};
    }

    std::vector<job> random_jobs(vh::context &ctx, vh::rng &r, const net::plan &p, double unit) {
        std::vector<job> jobs;
        auto s = random_settings(r, unit);
        s.k_nearest = std::min<std::size_t>(s.k_nearest, 3);
        s.radius = s.radius_lower_limit = std::min(s.radius, unit);
        const bool mixed = r.chance(0.3);
        const auto count = r.chance(0.05) ? 0 : r.range(1, ctx.thorough ? 40 : 20);
        for (std::int64_t i = 0; i < count; ++i) {
            job j;
            const char *names[] = {"a,b", "", "say \"x\"", "7", "line\nbreak", "tab\there"};
            j.id = r.chance(0.2) ? names[r.range(0, 5)] : std::to_string(i);
            j.s = s;
            if (mixed) {
                j.s.candidate_adoption_siblings = r.chance(0.5);
                j.s.skip_errors = r.chance(0.5);
            }
            const S::MODEL models[] = {S::VALUE_ITERATION, S::POLICY_ITERATION, S::VITERBI};
            j.s.model = models[r.range(0, 2)];
            j.s.export_edges = r.chance(0.2);
            j.s.export_edge_ids = r.chance(0.5);
            j.s.filter_duplicates = r.chance(0.5);
            j.s.simplify_track = r.chance(0.2);
            j.s.simplify_track_distance_tolerance = unit * 0.1;
            j.s.median_merge = r.chance(0.2);
            j.s.median_merge_distance_tolerance = unit * 0.2;
            j.fails = r.chance(0.05);
            for (auto k = r.chance(0.8) ? 1 : r.range(0, 3); k > 0; --k) {
                auto l = random_track(r, p, r.range(0, 6));
                if (r.chance(0.05)) {
                    for (auto &q : l) {
                        q.first += unit * 1e4; // out of reach
                    }
                }
                j.lines.push_back(std::move(l));
            }
            jobs.push_back(std::move(j));
        }
        return jobs;
    }

    void parallel(vh::context &ctx, vh::rng &r) {
        vh::watchdog dog{80};
        const bool integers = r.chance(0.5);
        const double unit = integers ? static_cast<double>(r.range(1, 50)) : r.real(1, 50);
        const auto p = random_roads(ctx, r, integers, unit, 0);
        const auto n = bake(p);
        const auto jobs = random_jobs(ctx, r, p, unit);
        std::ostringstream w;
        for (const auto &j : jobs) {
            w << "\n" << j.id << ": " << say_settings(j.s) << (j.fails ? " fails" : "");
            for (const auto &l : j.lines) {
                w << " [" << say_track(l) << "]";
            }
        }
        ctx.observe(vh::hash_str(vh::cat(w.str(), p.str())));
        // as many as good tracks, whatever the schedule
        std::vector<row> expected;
        for (const auto &j : jobs) {
            if (not j.fails) {
                expected.push_back(direct(n, j));
            } else {
                ctx.stat("failing_tracks");
            }
            map_matching_2::geometry::reset_distance_cache();
            map_matching_2::geometry::reset_azimuth_cache();
        }
        const auto unsorted = expected;
        std::sort(expected.begin(), expected.end());
        schedule one;
        const auto sequential = run(ctx, n, jobs, one, "sequential");
        const auto check = [&](const output &o, const schedule &s) {
            const auto say = [&] { return vh::cat(s.str(), " tracks", w.str(), "\n", p.str()); };
            if (s.console) {
                ctx.require(o.rows.empty() and o.candidates.empty(), "console output writes a file", say);
                std::vector<std::string> want, got = o.lines;
                for (const auto &e : expected) {
                    if (not e[4].empty()) {
                        want.push_back(e[4]);
                    }
                }
                std::sort(want.begin(), want.end());
                std::sort(got.begin(), got.end());
                ctx.require(got == want, "printed matches are not the matches", [&] {
                    return vh::cat(got.size(), " of ", want.size(), " ", got.empty() ? "" : got[0], " ", want.empty() ? "" : want[0], " ", say());
                });
                ctx.stat("matches_printed", got.size());
                return;
            }
            ctx.require(o.rows.size() == expected.size(), "not one result per track", [&] {
                return vh::cat(o.rows.size(), " results of ", expected.size(), " tracks, ", say());
            });
            for (std::size_t i = 0; i < std::min(o.rows.size(), expected.size()); ++i) {
                ctx.require(o.rows[i] == expected[i], "result differs from matching the track alone", [&] {
                    std::ostringstream d;
                    for (const auto &x : {o.rows[i], expected[i]}) {
                        for (const auto &f : x) {
                            d << f << " | ";
                        }
                        d << "\n";
                    }
                    return vh::cat(d.str(), say());
                });
            }
            ctx.require(o.rows.empty() or o.header.size() == 9, "header of the results", say);
            if (s.verbose) {
                std::size_t matches = 0;
                for (const auto &l : o.lines) {
                    if (l.starts_with("Match " + std::to_string(matches + 1) + " with id")) {
                        ++matches;
                    }
                }
                ctx.require(matches == expected.size(), "not one report per track", [&] { return vh::cat(matches, " ", say()); });
            }
            ctx.stat("results", o.rows.size());
        };
        check(sequential, one);
        for (int k = 0; k < 2; ++k) {
            schedule s;
            s.threads = static_cast<std::uint32_t>(r.range(2, 12));
            s.producers = r.chance(0.7) ? 1 : static_cast<std::size_t>(r.range(2, 4));
            s.pause = r.chance(0.6) ? 0 : r.range(1, 200000);
            s.delay = r.chance(0.6) ? 0 : r.range(1, 200000);
            s.console = r.chance(0.1);
            s.verbose = r.chance(0.3);
            s.join = r.chance(0.8);
            s.candidates = r.chance(0.7);
            vh::delay_percent = s.interrupts = r.chance(0.5) ? 0 : static_cast<unsigned>(r.range(1, 40));
            const auto o = run(ctx, n, jobs, s, "parallel");
            vh::delay_percent = 0;
            ctx.stat("delays_injected", vh::delays_injected.exchange(0));
            check(o, s);
            if (not s.console and s.candidates) {
                ctx.require(o.candidates == sequential.candidates, "candidates differ from one thread", [&] {
                    return vh::cat(o.candidates.size(), " and ", sequential.candidates.size(), " rows, ", s.str(), " tracks", w.str(), "\n", p.str());
                });
                ctx.stat("candidate_rows", o.candidates.size());
            }
            ctx.stat("runs_parallel");
            ctx.stat(s.producers > 1 ? "runs_with_producers" : "runs_with_one_producer");
            ctx.stat(s.join ? "runs_joined" : "runs_not_joined");
        }
    }

}

int main(int argc, char **argv) {
#ifdef VERIF_GEOGRAPHIC
    map_matching_2::geometry::enable_cache(); // as the application does
#endif
    return vh::run(argc, argv, {{"parallel", parallel, 250, 8000}});
}
