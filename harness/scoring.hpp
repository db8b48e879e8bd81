// The scores that solvers optimise, computed from routes, candidates and track without the environments.
#ifndef VERIF_SCORING_HPP
#define VERIF_SCORING_HPP

#include "matching.hpp"

namespace scoring {

    using namespace matching;
    using pair_type = std::pair<std::size_t, std::int64_t>;
    using window = std::vector<pair_type>;

    struct problem {
        const ma::router<N> &router;
        const S &s;
        const std::vector<candidate_type> &candidates;
        std::map<std::array<std::size_t, 3>, route_type> cache{};

        const route_type &route(std::size_t from, std::size_t source, std::size_t to, std::size_t target) {
            const std::array<std::size_t, 3> key{to, source, target};
            const auto it = cache.find(key);
            if (it != cache.end()) {
                return it->second;
            }
            return cache.emplace(key, router.candidate_route(candidates, from, source, to, target, s.within_edge_turns, s.a_star,
                    s.routing_max_distance_factor)).first->second;
        }

        // asks for all routes until the known ones do not change any more, so that every later request gives the same answer
        void settle() {
            for (int round = 0; round < 8; ++round) {
                std::size_t changed = 0;
                for (std::size_t to = 1; to < candidates.size(); ++to) {
                    for (std::size_t a = 0; a < candidates[to - 1].edges.size(); ++a) {
                        for (std::size_t b = 0; b < candidates[to].edges.size(); ++b) {
                            auto r = router.candidate_route(candidates, to - 1, a, to, b, s.within_edge_turns, s.a_star,
                                    s.routing_max_distance_factor);
                            const auto it = cache.find({to, a, b});
                            if (it == cache.end() or it->second.is_invalid() != r.is_invalid()) {
                                ++changed;
                                cache.insert_or_assign({to, a, b}, std::move(r));
                            }
                        }
                    }
                }
                if (changed == 0) {
                    return;
                }
            }
        }

        [[nodiscard]] double walked(std::size_t to) const {
            const auto &line = candidates[to].track->rich_line;
            return line.has_length(to - 1) ? static_cast<double>(line.length(to - 1)) : 0.0;
        }

        static double off(double a, double b) {
            // difference of two directions in degrees
            double d = std::fmod(std::abs(a - b), 360.0);
            return d > 180 ? 360 - d : d;
        }
        static double turn(double a, double b) {
            double d = std::fmod(a - b, 360.0);
            return d > 180 ? d - 360 : d < -180 ? d + 360 : d;
        }
    };

    // rewards: how well positions are near, and routes follow, the track
    struct mdp : problem {
        struct outcome {
            window next;
            std::size_t at{};
            double reward{};
            bool skip{}, stop{};
        };
        std::map<std::pair<window, std::size_t>, double> values{};
        std::size_t skips{};

        [[nodiscard]] double remaining(std::size_t from) const {
            double sum = 0;
            for (std::size_t i = from + 1; i < candidates.size(); ++i) {
                sum += walked(i);
            }
            return sum;
        }

        outcome step(const window &w, std::size_t at, std::int64_t e) {
            outcome o{w, at + 1};
            if (o.next.size() + 1 >= s.state_size) {
                o.next.erase(o.next.begin());
            }
            o.next.emplace_back(at, e);
            const auto skip = [&] {
                o.next = window(std::next(w.begin()), w.end());
                o.at = at;
                o.skip = true;
            };
            if (e < 0) {
                return o;
            }
            const auto &target = candidates[at].edges[static_cast<std::size_t>(e)];
            if (w.empty()) {
                o.reward -= s.mdp_distance_factor * target.distance * (at == 0 ? 3.0 : 0.1);
                return o;
            }
            const auto [from, a] = w.back();
            if (a < 0) {
                return o;
            }
            const auto &source = candidates[from].edges[static_cast<std::size_t>(a)];
            const auto &r = route(from, static_cast<std::size_t>(a), at, static_cast<std::size_t>(e));
            if (r.is_invalid()) {
                o.reward -= remaining(from);
                if (s.skip_errors) {
                    skip();
                }
                return o;
            }
            const auto &track = candidates[at].track->rich_line;
            const double next = walked(at), length = r.has_length() ? static_cast<double>(r.length()) : 0.0;
            if (not(candidates[from].next_equal and not r.has_length())) {
                o.reward -= s.mdp_distance_factor * (target.distance + source.distance);
                if (at + 1 >= candidates.size()) {
                    o.reward -= s.mdp_distance_factor * target.distance * 2;
                }
                if (length > 0 and next > 0) {
                    o.reward -= s.mdp_length_factor * std::abs(next - length) * (length / next);
                    if (s.skip_errors and length / next > 10) {
                        skip();
                    }
                } else {
                    o.reward -= s.mdp_length_factor * std::abs(next - length);
                }
                if (r.has_azimuth()) {
                    const double heading = r.azimuth();
                    o.reward -= s.mdp_azimuth_factor * (track.has_azimuth(at - 1) ? off(track.azimuth(at - 1), heading) : 0.0);
                    if (at >= 2 and track.has_azimuth(at - 2) and track.has_direction(at - 2)) {
                        o.reward -= s.mdp_turn_factor * off(track.direction(at - 2), turn(track.azimuth(at - 2), heading));
                    }
                }
                if (r.has_directions()) {
                    o.reward -= s.mdp_direction_factor * static_cast<double>(r.absolute_directions());
                }
            }
            if (w.size() > 1 and w[w.size() - 2].second >= 0) {
                const auto [before, b] = w[w.size() - 2];
                const auto &prev = route(before, static_cast<std::size_t>(b), from, static_cast<std::size_t>(a));
                if (not prev.is_invalid()) {
                    if (not prev.attaches(r)) {
                        o.reward -= remaining(from);
                        o.stop = true;
                    } else {
                        if (prev.has_azimuth() and r.has_azimuth() and track.has_direction(at - 2)) {
                            o.reward -= s.mdp_turn_factor * off(track.direction(at - 2), turn(prev.azimuth(), r.azimuth()));
                        }
                        if (prev.has_length() and r.has_length()) {
                            const auto back = prev.template extract_return_line<
                                typename ma::network_traits<N>::lazy_rich_line_type>(r);
                            if (back.has_length()) {
                                o.reward -= s.mdp_length_factor * static_cast<double>(back.length()) * 2;
                            }
                        }
                    }
                }
            }
            return o;
        }

        [[nodiscard]] std::vector<std::int64_t> actions(std::size_t at) const {
            std::vector<std::int64_t> a(candidates[at].edges.size());
            std::iota(a.begin(), a.end(), 0);
            return a.empty() ? std::vector<std::int64_t>{-1} : a;
        }

        // the highest discounted score from here on, over all sequences
        double value(const window &w, std::size_t at) {
            if (at >= candidates.size()) {
                return 0;
            }
            const std::pair key{w, at};
            if (const auto it = values.find(key); it != values.end()) {
                return it->second;
            }
            double best = -inf;
            for (const auto e : actions(at)) {
                const auto o = step(w, at, e);
                best = std::max(best, o.reward + (o.stop ? 0.0 : s.discount * value(o.next, o.at)));
            }
            return values[key] = best;
        }

        // the discounted score of a policy, or what is wrong with it
        std::pair<double, std::string> replay(const policy_type &policy) {
            window w;
            std::size_t at = 0, i = 0;
            double score = 0, weight = 1;
            while (at < candidates.size()) {
                outcome o;
                if (candidates[at].edges.empty()) {
                    o = step(w, at, -1);
                    if (i > 0) {
                        if (i >= policy.size() or policy[i] != policy[i - 1]) {
                            return {0, vh::cat("entry ", i, " does not repeat the last one at a point without candidates")};
                        }
                        ++i;
                    }
                } else {
                    if (i >= policy.size()) {
                        return {0, vh::cat("policy ends before point ", at)};
                    }
                    if (policy[i].first == at) {
                        if (policy[i].second >= candidates[at].edges.size()) {
                            return {0, vh::cat("entry ", i, " names no candidate")};
                        }
                        o = step(w, at, static_cast<std::int64_t>(policy[i].second));
                        if (o.skip) {
                            return {0, vh::cat("entry ", i, " chooses a candidate out of reach")};
                        }
                    } else if (i > 0 and policy[i] == policy[i - 1]) {
                        double best = -inf;
                        for (const auto e : actions(at)) {
                            const auto x = step(w, at, e);
                            if (x.skip and x.reward > best) {
                                best = x.reward;
                                o = x;
                            }
                        }
                        if (best == -inf) {
                            return {0, vh::cat("entry ", i, " skips although every candidate is in reach")};
                        }
                        ++skips;
                    } else {
                        return {0, vh::cat("entry ", i, " is not for point ", at)};
                    }
                    ++i;
                }
                score += weight * o.reward;
                weight *= s.discount;
                if (o.stop) {
                    break;
                }
                w = o.next;
                at = o.at;
            }
            return i == policy.size() ? std::pair{score, std::string{}} : std::pair{0.0, vh::cat("policy goes on after entry ", i)};
        }
    };

    // logarithmic probabilities of positions and of routes between them
    struct hmm : problem {
        [[nodiscard]] double observation(std::size_t at, std::size_t e) const {
            double far = 0;
            for (const auto &edge : candidates[at].edges) {
                far = std::max(far, static_cast<double>(edge.distance));
            }
            far = (far + 0.01) * 1.01;
            const double p = std::max(1e-20, (far - candidates[at].edges[e].distance) / far);
            return s.hmm_distance_factor * (at == 0 or at + 1 >= candidates.size() ? 3 : 1) * std::log(p);
        }

        double transition(std::size_t at, std::size_t source, std::size_t target) {
            const auto &r = route(at - 1, source, at, target);
            if (r.is_invalid()) {
                return -inf;
            }
            if (candidates[at - 1].next_equal and not r.has_length()) {
                return 0;
            }
            const auto &track = candidates[at].track->rich_line;
            const double next = track.has_length(at - 1) ? static_cast<double>(track.length(at - 1)) : 1.0;
            const double length = r.has_length() ? static_cast<double>(r.length()) : 1.0;
            double p = std::max(1e-20, std::min(next, length) / std::max(next, length));
            if (next > 0 and length > 0) {
                p *= std::min(next, length) / std::max(next, length) * (length / next > 10 ? 0.01 : 1.0);
            }
            double sum = s.hmm_length_factor * std::log(p);
            if (r.has_azimuth()) {
                const double heading = r.azimuth();
                if (track.has_azimuth(at - 1)) {
                    sum += s.hmm_azimuth_factor * std::log(std::max(1e-20, (180 - off(track.azimuth(at - 1), heading)) / 180));
                }
                if (at >= 2 and track.has_azimuth(at - 2) and track.has_direction(at - 2)) {
                    sum += s.hmm_turn_factor * std::log(std::max(1e-20,
                            (360 - off(track.direction(at - 2), turn(track.azimuth(at - 2), heading))) / 360));
                }
            }
            if (r.has_directions()) {
                sum += s.hmm_direction_factor * std::log(std::max(1e-20, (360 - static_cast<double>(r.absolute_directions())) / 360));
            }
            return sum;
        }

        // points before the first candidates do not count
        [[nodiscard]] std::size_t first() const {
            std::size_t t = 0;
            while (t < candidates.size() and candidates[t].edges.empty()) {
                ++t;
            }
            return t;
        }

        // the score of one candidate per point from the first on
        double score(const std::vector<std::size_t> &chosen) {
            double sum = 0;
            for (std::size_t i = 0; i < chosen.size(); ++i) {
                const std::size_t at = first() + i;
                sum += observation(at, chosen[i]);
                if (i > 0) {
                    sum += transition(at, chosen[i - 1], chosen[i]);
                }
            }
            return sum;
        }

        // the highest score of all sequences, -inf without a feasible one
        double best() {
            const std::size_t t0 = first();
            if (t0 >= candidates.size()) {
                return -inf;
            }
            std::vector<double> now;
            for (std::size_t e = 0; e < candidates[t0].edges.size(); ++e) {
                now.push_back(observation(t0, e));
            }
            for (std::size_t at = t0 + 1; at < candidates.size(); ++at) {
                std::vector<double> next(candidates[at].edges.size(), -inf);
                for (std::size_t b = 0; b < next.size(); ++b) {
                    for (std::size_t a = 0; a < now.size(); ++a) {
                        next[b] = std::max(next[b], now[a] + transition(at, a, b) + observation(at, b));
                    }
                }
                now = std::move(next);
            }
            double best = -inf;
            for (const double v : now) {
                best = std::max(best, v);
            }
            return best;
        }
    };

}

#endif
