// Monitor: policies of all solvers against the best sequence under independently computed scores.
#include "scoring.hpp"

#include "types/environment/environments/single.hpp"
#include "types/environment/environments/hmm.hpp"
#include "types/learning/algorithms/policy_iteration.hpp"
#include "types/learning/algorithms/value_iteration.hpp"
#include "types/learning/algorithms/q_learning.hpp"
#include "types/learning/algorithms/viterbi.hpp"

namespace {

    using namespace scoring;
    namespace le = map_matching_2::learning;
    using single_type = map_matching_2::environment::single<N>;
    using hmm_type = map_matching_2::environment::hmm<N>;

    policy_type convert(const std::vector<std::pair<std::size_t, std::size_t>> &p) {
        policy_type out;
        for (const auto &[c, e] : p) {
            out.emplace_back(c, e);
        }
        return out;
    }

    std::string str(const policy_type &p) {
        std::string s;
        for (const auto &[c, e] : p) {
            s += vh::cat(" ", c, ".", e);
        }
        return s;
    }

    struct world {
        net::plan p;
        std::vector<xy> points;
        S s;
        std::string say() const {
            return vh::cat(say_settings(s), " threshold ", s.threshold, " discount ", s.discount, " mdp ", s.mdp_distance_factor, " ",
                    s.mdp_length_factor, " ", s.mdp_azimuth_factor, " ", s.mdp_direction_factor, " ", s.mdp_turn_factor, " hmm ",
                    s.hmm_distance_factor, " ", s.hmm_length_factor, " ", s.hmm_azimuth_factor, " ", s.hmm_direction_factor, " ",
                    s.hmm_turn_factor, " track", say_track(points), " ", p.str());
        }
    };

    world random_world(vh::context &ctx, vh::rng &r) {
        const bool integers = r.chance(0.5);
        const double unit = integers ? static_cast<double>(r.range(1, 50)) : r.real(1, 50);
        world w;
        w.p = random_roads(ctx, r, integers, unit, 0);
        w.s = random_settings(r, unit);
        w.s.k_nearest = std::min<std::size_t>(w.s.k_nearest, 3);
        w.s.radius = std::min(w.s.radius, unit);
        w.s.radius_lower_limit = w.s.radius;
        // sometimes points stay without candidates
        w.s.radius_upper_limit = r.chance(0.3) ? w.s.radius : w.s.radius * 20;
        w.s.state_size = r.chance(0.6) ? 2 : 3;
        w.s.filter_duplicates = r.chance(0.5);
        w.s.simplify_track = w.s.median_merge = false;
        w.s.threshold = r.chance(0.5) ? 1e-3 : 1e-7;
        const double discounts[] = {0.99, 0.99, 1.0, 0.5};
        w.s.discount = discounts[r.range(0, 3)];
        if (r.chance(0.6)) {
            for (double *f : {&w.s.mdp_distance_factor, &w.s.mdp_length_factor, &w.s.mdp_azimuth_factor, &w.s.mdp_direction_factor,
                    &w.s.mdp_turn_factor, &w.s.hmm_distance_factor, &w.s.hmm_length_factor, &w.s.hmm_azimuth_factor,
                    &w.s.hmm_direction_factor, &w.s.hmm_turn_factor}) {
                *f = r.chance(0.2) ? 0.0 : r.chance(0.1) ? r.real(3, 40) : r.real(0, 3);
            }
        }
        w.s.episodes = 300;
        w.points = random_track(r, w.p, r.range(0, ctx.thorough ? 8 : 6));
        return w;
    }

    // solvers of the decision process
    void decisions(vh::context &ctx, vh::rng &r) {
        const auto w = random_world(ctx, r);
        const auto &s = w.s;
        const auto n = bake(w.p);
        map_matching_2::util::time_helper time;
        ma::algorithms<N> algorithms{n, time};
        single_type environment{n, algorithms, s};
        environment.set(make_track(w.points));
        environment.init();
        std::size_t states = 1;
        for (const auto &c : environment.candidates()) {
            states = std::max(states, c.edges.size());
        }
        if (s.state_size > 2 and states > 8) {
            return;
        }
        const auto candidates = algorithms.searcher.candidate_search(environment.track(), s);
        mdp model{{algorithms.router, s, candidates}};
        model.settle();
        const double best = model.value({}, 0);
        ctx.observe(vh::hash_str(w.say()));

        const auto run = [&]<typename L>(std::type_identity<L>, const char *name, bool exact) {
            const auto what = [&](const policy_type &p) { return vh::cat(name, ":", str(p), " best score ", best, " ", w.say()); };
            L learner{environment, s};
            const auto policy = convert(learner());
            ctx.stat(vh::cat("policies_", name));
            model.skips = 0;
            const auto [score, wrong] = model.replay(policy);
            ctx.require(wrong.empty(), "policy is no sequence of steps", [&] { return vh::cat(wrong, " ", what(policy)); });
            if (not wrong.empty()) {
                return;
            }
            ctx.stat(model.skips > 0 ? "policies_with_skips" : "policies_without_skips");
            const double tol = s.threshold * 2 * static_cast<double>(candidates.size() + 1) + 1e-9 * (1 + std::abs(best));
            ctx.require(score <= best + tol, "policy scores higher than possible", [&] { return vh::cat(score, " ", what(policy)); });
            if (exact) {
                ctx.require(score >= best - tol, "policy is not the best one", [&] { return vh::cat(score, " ", what(policy)); });
                ctx.stat("best_sequences");
                if (s.routing_max_distance_factor < 0) {
                    // the same problem again
                    map_matching_2::util::time_helper time2;
                    ma::algorithms<N> algorithms2{n, time2};
                    single_type environment2{n, algorithms2, s};
                    L learner2{environment2, s};
                    environment2.set(make_track(w.points));
                    ctx.require(convert(learner2()) == policy, "solver is not repeatable", [&] { return what(policy); });
                    ctx.stat("repeated");
                }
                ctx.require(convert(learner()) == policy, "solver is not repeatable", [&] { return what(policy); });
            }
        };
        run(std::type_identity<le::value_iteration<single_type>>{}, "value_iteration", true);
        run(std::type_identity<le::policy_iteration<single_type>>{}, "policy_iteration", true);
        if (states <= 16) {
            run(std::type_identity<le::q_learning<single_type>>{}, "q_learning", false);
        }
        ctx.stat("points", candidates.size());
    }

    // the hidden Markov model
    void probabilities(vh::context &ctx, vh::rng &r) {
        const auto w = random_world(ctx, r);
        const auto &s = w.s;
        const auto n = bake(w.p);
        map_matching_2::util::time_helper time;
        ma::algorithms<N> algorithms{n, time};
        {
            // all routes known before the model asks for them
            hmm_type environment{n, algorithms, s};
            environment.set(make_track(w.points));
            hmm model{{algorithms.router, s, environment.candidates()}};
            model.settle();
        }
        hmm_type environment{n, algorithms, s};
        environment.set(make_track(w.points));
        const auto &candidates = environment.candidates();
        hmm model{{algorithms.router, s, candidates}};
        model.settle();
        const double best = model.best();
        le::viterbi<hmm_type> learner{environment, s};
        const auto policy = convert(learner());
        const auto what = [&] { return vh::cat("viterbi:", str(policy), " best score ", best, " ", w.say()); };
        ctx.observe(vh::hash_str(w.say()));
        ctx.stat("policies_viterbi");
        for (std::size_t i = 0; i < policy.size(); ++i) {
            const auto &[c, e] = policy[i];
            ctx.require(c < candidates.size() and e < candidates[c].edges.size(), "policy names no candidate", what);
            ctx.require(i == 0 or c == policy[i - 1].first + 1, "policy leaves out a point", what);
            if (i > 0) {
                ctx.require(model.transition(c, policy[i - 1].second, e) > -inf, "policy chooses a candidate out of reach", what);
            }
        }
        if (best > -inf) {
            const auto t0 = model.first();
            ctx.require(policy.size() == candidates.size() - t0 and policy.front().first == t0, "policy is not complete", what);
            if (policy.size() == candidates.size() - t0) {
                std::vector<std::size_t> chosen;
                for (const auto &[c, e] : policy) {
                    chosen.push_back(e);
                }
                const double score = model.score(chosen);
                ctx.require(vh::close(score, best, 1e-9, 1e-9), "policy is not the best one", [&] { return vh::cat(score, " ", what()); });
                ctx.stat("best_probabilities");
            }
        } else {
            ctx.stat("no_feasible_sequence");
        }
        // few sequences: try each of them
        double count = 1;
        for (std::size_t t = model.first(); t < candidates.size(); ++t) {
            count *= static_cast<double>(candidates[t].edges.size());
        }
        if (best > -inf and count <= 500) {
            std::vector<std::size_t> chosen(candidates.size() - model.first(), 0);
            double highest = -inf;
            for (;;) {
                highest = std::max(highest, model.score(chosen));
                std::size_t k = 0;
                while (k < chosen.size() and ++chosen[k] == candidates[model.first() + k].edges.size()) {
                    chosen[k++] = 0;
                }
                if (k == chosen.size()) {
                    break;
                }
                ctx.stat("sequences_tried");
            }
            ctx.require(vh::close(highest, best, 1e-9, 1e-9), "harness: recursion and enumeration differ", what);
        }
        ctx.require(convert(le::viterbi<hmm_type>{environment, s}()) == policy, "solver is not repeatable", what);
    }

    // out of time
    void interrupted(vh::context &ctx, vh::rng &r) {
        const auto w = random_world(ctx, r);
        auto s = w.s;
        s.state_size = 2;
        const auto n = bake(w.p);
        const auto run = [&]<typename E, typename L>(std::type_identity<E>, std::type_identity<L>) {
            map_matching_2::util::time_helper time{r.chance(0.3) ? 1e-9 : r.real(0, 2e-3)};
            ma::algorithms<N> algorithms{n, time};
            E environment{n, algorithms, s};
            L learner{environment, s};
            environment.set(make_track(w.points));
            const auto policy = convert(learner());
            std::size_t last = 0;
            for (const auto &[c, e] : policy) {
                ctx.require(c >= last and c < environment.candidates().size() and e < environment.candidates()[c].edges.size(),
                        "policy out of time names no candidate", [&] { return vh::cat(str(policy), " ", w.say()); });
                last = c;
            }
            ctx.stat(policy.empty() ? "interrupted_without_policy" : "interrupted_with_policy");
            if (not policy.empty()) {
                const auto route = environment.result(policy);
                ctx.stat(route.is_invalid() ? "interrupted_no_route" : "interrupted_route");
            }
        };
        ctx.observe(vh::hash_str(w.say()));
        run(std::type_identity<single_type>{}, std::type_identity<le::value_iteration<single_type>>{});
        run(std::type_identity<single_type>{}, std::type_identity<le::policy_iteration<single_type>>{});
        run(std::type_identity<single_type>{}, std::type_identity<le::q_learning<single_type>>{});
        run(std::type_identity<hmm_type>{}, std::type_identity<le::viterbi<hmm_type>>{});
    }

}

int main(int argc, char **argv) {
    return vh::run(argc, argv, {{"decisions", decisions, 12000, 400000}, {"probabilities", probabilities, 15000, 600000},
            {"interrupted", interrupted, 1000, 20000}});
}
