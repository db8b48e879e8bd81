// Monitor: matches of whole tracks walked over the directed roads.
#include "matching.hpp"

#include "types/environment/environments/single.hpp"
#include "types/environment/environments/hmm.hpp"
#include "types/learning/algorithms/policy_iteration.hpp"
#include "types/learning/algorithms/value_iteration.hpp"
#include "types/learning/algorithms/q_learning.hpp"
#include "types/learning/algorithms/viterbi.hpp"

extern const std::function<void(vh::context &, vh::rng &)> matching_routes;

namespace {

    using namespace matching;
    using single_type = map_matching_2::environment::single<N>;
    using hmm_type = map_matching_2::environment::hmm<N>;

    // a match of a whole track with any model and setting
    template<typename Check>
    void match(const N &n, const track_type &track, const S &s, Check check) {
        map_matching_2::util::time_helper time;
        ma::algorithms<N> algorithms{n, time};
        const auto run = [&]<typename Learner>() {
            typename Learner::environment_type environment{n, algorithms, s};
            Learner learner{environment, s};
            environment.set(track);
            if constexpr (requires { environment.init(); }) {
                if (s.state_size > 2) {
                    environment.init();
                    for (const auto &candidate : environment.candidates()) {
                        if (candidate.edges.size() > 10) {
                            return; // larger states multiply the candidates
                        }
                    }
                }
            }
            policy_type policy;
            for (const auto &[c, e] : learner()) {
                policy.emplace_back(c, e);
            }
            check(algorithms, environment.track(), environment.candidates(), policy, environment.result(policy));
        };
        switch (s.model) {
            case S::VALUE_ITERATION:
                return run.template operator()<map_matching_2::learning::value_iteration<single_type>>();
            case S::POLICY_ITERATION:
                return run.template operator()<map_matching_2::learning::policy_iteration<single_type>>();
            case S::Q_LEARNING:
                return run.template operator()<map_matching_2::learning::q_learning<single_type>>();
            case S::VITERBI:
                return run.template operator()<map_matching_2::learning::viterbi<hmm_type>>();
        }
    }

    const char *model_name(const S &s) {
        return s.model == S::VALUE_ITERATION ? "value_iteration" : s.model == S::POLICY_ITERATION ? "policy_iteration" :
                s.model == S::Q_LEARNING ? "q_learning" : "viterbi";
    }

    void noisy(vh::context &ctx, vh::rng &r) {
        const bool integers = r.chance(0.5);
        const double unit = integers ? static_cast<double>(r.range(1, 50)) : r.real(1, 50);
        const auto p = random_roads(ctx, r, integers, unit, 0);
        const auto n = bake(p);
        const roads rd{n};
        auto s = random_settings(r, unit);
        s.model = static_cast<S::MODEL>(r.range(0, 3));
        s.state_size = r.chance(0.7) ? 2 : 3;
        s.k_nearest = std::min<std::size_t>(s.k_nearest, 3);
        s.radius = std::min(s.radius, unit);
        s.filter_duplicates = r.chance(0.5);
        s.simplify_track = r.chance(0.4);
        s.simplify_track_distance_tolerance = unit * r.real(0.05, 0.5);
        s.median_merge = r.chance(0.4);
        s.median_merge_distance_tolerance = unit * r.real(0.1, 1);
        s.adaptive_median_merge = r.chance(0.5);
        s.early_stop_factor = 1;
        s.episodes = 300;
        const auto points = random_track(r, p, r.range(0, ctx.thorough ? 10 : 6));
        const std::function<std::string()> say = [&] { return vh::cat(say_settings(s), " track", say_track(points), " ", p.str()); };
        ctx.observe(vh::hash_str(say()));
        match(n, make_track(points), s, [&](const auto &algorithms, const track_type &track, const auto &candidates, const policy_type &policy,
                const route_type &result) {
            ctx.stat(vh::cat("matches_", model_name(s)));
            const monitor m{ctx, rd, s, candidates};
            std::size_t last = 0;
            for (const auto &[c, e] : policy) {
                ctx.require(c >= last and c < candidates.size() and e < candidates[c].edges.size(), "policy names no candidate, or goes back",
                        [&] { return vh::cat(c, ".", e, " ", say()); });
                last = c;
            }
            m.policy(algorithms.router, result, policy, say);
            if (s.filter_duplicates and not s.simplify_track and not s.median_merge) {
                const auto prepared = net::to_xys(track.rich_line.line());
                for (std::size_t i = 1; i < prepared.size(); ++i) {
                    ctx.require(prepared[i - 1] != prepared[i], "repeated point stays in the track", say);
                }
                ctx.require(points.empty() == prepared.empty(), "prepared track lost all its points", say);
            }
        });
    }

    // a track that drives exactly along roads
    void drives(vh::context &ctx, vh::rng &r) {
        const double unit = r.real(40, 100);
        auto p = random_roads(ctx, r, false, unit, 0);
        std::erase_if(p.edges, [&](const auto &e) { return net::length(e.line) < 1.0; });
        if (p.edges.empty()) {
            return;
        }
        // a random drive without turning back
        std::vector<std::size_t> driven;
        auto e = static_cast<std::size_t>(r.range(0, static_cast<std::int64_t>(p.edges.size()) - 1));
        for (auto k = r.range(1, ctx.thorough ? 6 : 4); k > 0; --k) {
            driven.push_back(e);
            std::vector<std::size_t> next;
            for (std::size_t f = 0; f < p.edges.size(); ++f) {
                if (p.edges[f].s == p.edges[e].t and not(p.edges[f].t == p.edges[e].s and p.edges[f].line == net::reversed(p.edges[e].line))) {
                    next.push_back(f);
                }
            }
            if (next.empty()) {
                break;
            }
            e = r.pick(next);
        }
        std::vector<xy> way;
        for (const auto f : driven) {
            for (const auto &q : p.edges[f].line) {
                if (way.empty() or way.back() != q) {
                    way.push_back(q);
                }
            }
        }
        const auto between = [](const xy &a, const xy &b, double f) { return xy{a.first + f * (b.first - a.first), a.second + f * (b.second - a.second)}; };
        // begin and end anywhere
        if (r.chance(0.7)) {
            way.front() = between(way[0], way[1], r.real(0.05, 0.8));
        }
        if (r.chance(0.7)) {
            way.back() = between(way[way.size() - 2], way.back(), r.real(0.2, 0.95));
        }
        for (std::size_t i = 1; i < way.size(); ++i) {
            if (net::dist(way[i - 1], way[i]) < 1.0) {
                return;
            }
        }
        // bends of nearly half a turn leave the direction of the drive open
        for (std::size_t i = 2; i < way.size(); ++i) {
            const double ab = net::dist(way[i - 2], way[i - 1]), bc = net::dist(way[i - 1], way[i]), ac = net::dist(way[i - 2], way[i]);
            const double cosine = (ab * ab + bc * bc - ac * ac) / (2 * ab * bc);
            if (cosine > std::cos(3.14159 / 18)) {
                return;
            }
        }
        std::vector<xy> points;
        for (std::size_t i = 0; i < way.size(); ++i) {
            if (i > 0) {
                std::vector<double> f;
                for (auto k = r.range(0, 2); k > 0; --k) {
                    f.push_back(r.real(0.1, 0.9));
                }
                std::sort(f.begin(), f.end());
                for (const double g : f) {
                    const auto q = between(way[i - 1], way[i], g);
                    if (net::dist(points.back(), q) > 1.0 and net::dist(q, way[i]) > 1.0) {
                        points.push_back(q);
                    }
                }
            }
            points.push_back(way[i]);
        }
        const auto n = bake(p);
        const roads rd{n};
        S s;
        s.model = r.chance(0.4) ? S::VITERBI : r.chance(0.5) ? S::VALUE_ITERATION : S::POLICY_ITERATION;
        s.candidate_search = static_cast<S::CANDIDATE_SEARCH>(r.range(0, 2));
        s.k_nearest = 24;
        s.radius = s.radius_lower_limit = r.real(1, 20);
        s.radius_upper_limit = s.radius * 10;
        s.adaptive_radius = false;
        s.filter_duplicates = r.chance(0.5);
        s.simplify_track = s.median_merge = false;
        s.candidate_adoption_siblings = r.chance(0.5);
        s.candidate_adoption_nearby = r.chance(0.3);
        s.join_merges = r.chance(0.5);
        s.a_star = r.chance(0.3);
        s.within_edge_turns = r.chance(0.2);
        s.state_size = r.chance(0.8) ? 2 : 3;
        if (s.candidate_search != S::CIRCLE and s.candidate_search != S::COMBINED) {
            s.k_nearest = s.state_size > 2 or s.candidate_adoption_nearby ? 6 : 16;
        }
        const std::function<std::string()> say = [&] { return vh::cat(say_settings(s), " track", say_track(points), " ", p.str()); };
        // the search has to offer the driven roads
        std::size_t most = 0;
        for (const auto &q : points) {
            std::size_t here = 0;
            for (std::size_t f = 0; f < rd.edges.size(); ++f) {
                // candidates have one position per road
                if (auto o = rd.offsets(f, q); o.size() > (rd.edges[f].s == rd.edges[f].t and q == rd.edges[f].line.front() ? 2u : 1u)) {
                    return;
                }
            }
            for (const auto &f : rd.edges) {
                for (std::size_t k = 1; k < f.line.size(); ++k) {
                    const double ab = net::dist(f.line[k - 1], f.line[k]), aq = net::dist(f.line[k - 1], q), qb = net::dist(q, f.line[k]);
                    here += aq + qb - ab < 0.05 ? 1u : 0u;
                }
            }
            most = std::max(most, here);
        }
        if (most > s.k_nearest) {
            return;
        }
        ctx.observe(vh::hash_str(say()));
        match(n, make_track(points), s, [&](const auto &algorithms, const track_type &, const auto &candidates, const policy_type &policy,
                const route_type &result) {
            const auto ls = lines(result);
            const auto what = [&] { return vh::cat("matched ", str(ls), " ", say()); };
            const monitor m{ctx, rd, s, candidates};
            m.policy(algorithms.router, result, policy, say);
            const auto y = straight(points, roads::tol);
            bool same = ls.size() == 1;
            if (same) {
                const auto x = straight(ls[0], roads::tol);
                same = x.size() == y.size();
                for (std::size_t k = 0; same and k < x.size(); ++k) {
                    same = net::dist(x[k], y[k]) <= 2 * roads::tol;
                }
            }
            ctx.require(same, "a drive along roads is matched to other roads", what);
            ctx.stat(vh::cat("drives_", model_name(s)));
            ctx.stat("drive_points", points.size());
        });
    }

}

int main(int argc, char **argv) {
    return vh::run(argc, argv, {{"routes", matching_routes, 10000, 300000}, {"noisy", noisy, 5000, 150000}, {"drives", drives, 5000, 150000}});
}
