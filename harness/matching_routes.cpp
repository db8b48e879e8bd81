// Monitor: routes between candidates and routes of policies walked over the directed roads.
#include "matching.hpp"

namespace {

    using namespace matching;

    // routes between random candidates, and along random policies
    void routes(vh::context &ctx, vh::rng &r) {
        const bool integers = r.chance(0.5);
        const double unit = integers ? static_cast<double>(r.range(1, 50)) : r.real(1, 50);
        const auto p = random_roads(ctx, r, integers, unit, r.chance(0.3) ? 15 : 0);
        const auto n = bake(p);
        const roads rd{n};
        for (int round = 0; round < 2; ++round) {
            auto s = random_settings(r, unit);
            const auto points = random_track(r, p, r.range(2, 6));
            const auto track = make_track(points);
            map_matching_2::util::time_helper time;
            const ma::candidate_searcher<N> searcher{n, time};
            const auto candidates = searcher.candidate_search(track, s);
            const std::function<std::string()> say = [&] { return vh::cat(say_settings(s), " track", say_track(points), " ", p.str()); };
            ctx.observe(vh::hash_str(say()));
            std::vector<std::size_t> usable;
            for (std::size_t i = 0; i < candidates.size(); ++i) {
                if (not candidates[i].edges.empty()) {
                    usable.push_back(i);
                }
            }
            if (usable.empty()) {
                continue;
            }
            const monitor m{ctx, rd, s, candidates};
            const ma::router<N> router{n, time};
            const auto pick_edge = [&](std::size_t i) { return static_cast<std::size_t>(r.range(0, static_cast<std::int64_t>(candidates[i].edges.size()) - 1)); };
            for (int k = 0; k < 25; ++k) {
                const auto from = r.pick(usable), to = r.pick(usable);
                const auto source = pick_edge(from), target = pick_edge(to);
                m.route(router.candidate_route(candidates, from, source, to, target, s.within_edge_turns, s.a_star,
                        s.routing_max_distance_factor), from, source, to, target, say);
            }
            // random choices, and choices that prefer connected candidates
            for (int k = 0; k < 4; ++k) {
                policy_type policy;
                const bool careful = r.chance(0.6);
                for (const auto i : usable) {
                    if (r.chance(0.1) and not policy.empty() and (policy.size() < 2 or policy[policy.size() - 2] != policy.back())) {
                        policy.push_back(policy.back());
                    }
                    auto e = pick_edge(i);
                    for (int t = 0; careful and t < 8 and not policy.empty() and
                            m.expected(policy.back().first, policy.back().second, i, e) != verdict::valid; ++t) {
                        e = pick_edge(i);
                    }
                    if (not policy.empty() and policy.back().first == i) {
                        continue;
                    }
                    policy.emplace_back(i, e);
                }
                m.policy(router, router.candidates_route(candidates, policy, s.within_edge_turns, s.join_merges, s.a_star,
                        s.routing_max_distance_factor), policy, say);
            }
        }
    }

}

extern const std::function<void(vh::context &, vh::rng &)> matching_routes = routes;
