// Checks of routes between candidates and of routes of policies, and random networks, tracks and settings for them.
#ifndef VERIF_MATCHING_HPP
#define VERIF_MATCHING_HPP

#include "drive.hpp"

namespace matching {


    using namespace drive;
    using S = settings;

    constexpr double inf = std::numeric_limits<double>::infinity();

    inline void place(net::plan &p, const std::function<xy(xy)> &f) {
        std::map<std::size_t, xy> moved;
        for (auto &v : p.nodes) {
            v.p = f(v.p);
        }
        for (auto &e : p.edges) {
            for (std::size_t i = 1; i + 1 < e.line.size(); ++i) {
                e.line[i] = f(e.line[i]);
            }
            e.line.front() = p.nodes[e.s].p;
            e.line.back() = p.nodes[e.t].p;
        }
    }

    inline N bake(net::plan p) {
        place(p, placed);
        auto n = net::bake<N>(net::build<import_type<CS>>(p));
        n.build_spatial_indices();
        return n;
    }

    inline net::plan random_roads(vh::context &ctx, vh::rng &r, bool integers, double unit, int coincident) {
        net::plan_options o;
        o.min_nodes = 2;
        o.max_nodes = ctx.thorough ? 20 : 10;
        o.grid = static_cast<int>(r.range(4, 12));
        o.edge_factor = r.real(0.7, 2.2);
        o.two_way = r.real(0, 1);
        o.coincident = coincident / 100.0;
        auto p = net::random_plan(r, o);
        if (integers) {
            place(p, [&](xy q) { return xy{unit * q.first, unit * q.second}; });
        } else {
            // one irregular position per position, so both directions of a road keep the same points
            std::map<xy, xy> at;
            place(p, [&](xy q) {
                const auto [it, fresh] = at.try_emplace(q);
                if (fresh) {
                    it->second = {unit * (q.first + r.real(-0.3, 0.3)), unit * (q.second + r.real(-0.3, 0.3))};
                }
                return it->second;
            });
        }
        return p;
    }

    inline S random_settings(vh::rng &r, double unit) {
        S s;
        s.candidate_search = static_cast<S::CANDIDATE_SEARCH>(r.range(0, 3));
        s.k_nearest = static_cast<std::size_t>(s.candidate_search == S::NEXT ? 1 : r.range(1, 5));
        s.radius = unit * r.real(0.5, 4);
        s.radius_lower_limit = s.radius;
        s.radius_upper_limit = s.radius * 20;
        s.adaptive_radius = r.chance(0.5);
        s.candidate_adoption_siblings = r.chance(0.5);
        s.candidate_adoption_nearby = r.chance(0.5);
        s.candidate_adoption_reverse = s.candidate_adoption_nearby and r.chance(0.4);
        s.within_edge_turns = r.chance(0.3);
        s.a_star = r.chance(0.3);
        s.join_merges = r.chance(0.6);
        s.skip_errors = r.chance(0.7);
        const double factors[] = {-1.0, 0.0, 1.0, 2.0, 5.0, 10.0};
        s.routing_max_distance_factor = factors[r.range(0, 5)];
        return s;
    }

    inline std::vector<xy> random_track(vh::rng &r, const net::plan &p, std::int64_t points) {
        std::vector<xy> track;
        double x0 = inf, x1 = -inf, y0 = inf, y1 = -inf;
        for (const auto &e : p.edges) {
            for (const auto &q : e.line) {
                x0 = std::min(x0, q.first), x1 = std::max(x1, q.first), y0 = std::min(y0, q.second), y1 = std::max(y1, q.second);
            }
        }
        for (; points > 0; --points) {
            if (r.chance(0.1) and not track.empty()) {
                track.push_back(r.pick(track));
            } else if (r.chance(0.8) and not p.edges.empty()) {
                const auto &l = r.pick(p.edges).line;
                const auto k = static_cast<std::size_t>(r.range(1, static_cast<std::int64_t>(l.size()) - 1));
                const double f = r.chance(0.2) ? 0 : r.chance(0.2) ? 1 : r.real(0, 1);
                xy q{l[k - 1].first + f * (l[k].first - l[k - 1].first), l[k - 1].second + f * (l[k].second - l[k - 1].second)};
                if (r.chance(0.6)) {
                    q.first += r.real(-0.1, 0.1) * (x1 - x0);
                    q.second += r.real(-0.1, 0.1) * (y1 - y0);
                }
                track.push_back(q);
            } else {
                track.push_back({r.real(x0 - 1, x1 + 1), r.real(y0 - 1, y1 + 1)});
            }
        }
        return track;
    }

    inline std::string say_settings(const S &s) {
        return vh::cat("model ", s.model, " search ", s.candidate_search, " k ", s.k_nearest, " radius ", s.radius, " turns ", s.within_edge_turns,
                " a_star ", s.a_star, " join ", s.join_merges, " skip_errors ", s.skip_errors, " factor ", s.routing_max_distance_factor,
                " siblings ", s.candidate_adoption_siblings, " nearby ", s.candidate_adoption_nearby, " reverse ", s.candidate_adoption_reverse,
                " state_size ", s.state_size);
    }

    inline std::string say_track(const std::vector<xy> &track) {
        std::ostringstream w;
        w << std::setprecision(17);
        for (const auto &q : track) {
            w << " (" << q.first << "," << q.second << ")";
        }
        return w.str();
    }

    enum class verdict { none, valid, either };

    struct monitor {
        vh::context &ctx;
        const roads &rd;
        const S &s;
        const std::vector<candidate_type> &candidates;
        // whether turns within roads can be told from acute turns between roads
        bool blurred{s.within_edge_turns and rd.acute()};

        [[nodiscard]] bool drives(const std::vector<xy> &l, const std::vector<xy> &turns = {}, const std::vector<xy> &jumps = {}) const {
            if (blurred or (not turns.empty() and rd.doubled())) {
                ctx.stat("turns_not_decided");
                return true;
            }
            return rd.walk(l, s.within_edge_turns, turns, jumps) == -1;
        }

        // must there be a route between two candidates
        verdict expected(std::size_t from, std::size_t source, std::size_t to, std::size_t target) const {
            const auto a = rd.at(candidates[from].edges[source]), b = rd.at(candidates[to].edges[target]);
            if (a.q == b.q and rd.same_place(a, b)) {
                return verdict::valid;
            }
            if (a.e == b.e and a.o <= b.o) {
                return b.o - a.o > 1e-9 ? verdict::valid : verdict::either;
            }
            const auto [total, d] = rd.between(a, b);
            if (d == inf) {
                return net::dist(a.q, b.q) <= roads::tol ? verdict::either : verdict::none;
            }
            if (s.routing_max_distance_factor < 0) {
                return verdict::valid;
            }
            double reach = 0;
            const auto &start = rd.view.nodes[rd.edges[a.e].t].p;
            if (s.a_star) {
                reach = net::dist(start, rd.view.nodes[rd.edges[b.e].s].p);
            } else {
                for (const auto &node : candidates[to].nodes) {
                    reach = std::max(reach, net::dist(start, net::to_xy(rd.n.vertex(node.vertex_desc).point)));
                }
            }
            const double limit = s.routing_max_distance_factor * reach;
            // earlier searches with a larger limit may have found the same way
            return d <= limit - 1e-9 * (1 + limit) ? verdict::valid : verdict::either;
        }

        // one route between two candidates
        void route(const route_type &route, std::size_t from, std::size_t source, std::size_t to, std::size_t target,
                const std::function<std::string()> &say) const {
            const auto a = rd.at(candidates[from].edges[source]), b = rd.at(candidates[to].edges[target]);
            const auto v = expected(from, source, to, target);
            const auto [total, d] = rd.between(a, b);
            const auto what = [&] {
                return vh::cat("route ", from, ".", source, " (edge ", rd.edges[a.e].id, " at ", a.o, ") to ", to, ".", target, " (edge ",
                        rd.edges[b.e].id, " at ", b.o, "), shortest drive ", total, ": ", route.is_invalid() ? "invalid" : str(lines(route)), " ", say());
            };
            if (route.is_invalid()) {
                ctx.stat(d == inf ? "routes_without_connection" : "routes_beyond_limit");
                ctx.require(v != verdict::valid, "connected candidates without route", what);
                return;
            }
            ctx.require(v != verdict::none, "route without connection", what);
            if (v == verdict::none) {
                return;
            }
            const auto ls = lines(route);
            const double len = route.has_length() ? static_cast<double>(route.length()) : 0.0;
            ctx.require(vh::close(len, length(ls), 1e-9, 1e-6), "length of route is not the sum of its parts", what);
            if (a.q == b.q or net::dist(a.q, b.q) <= roads::tol) {
                if (ls.empty()) {
                    ctx.stat("routes_standing");
                    return;
                }
            }
            ctx.require(ls.size() == 1, "route of two candidates is one line", what);
            if (ls.size() != 1) {
                return;
            }
            ctx.require(net::dist(ls[0].front(), a.q) <= roads::tol and net::dist(ls[0].back(), b.q) <= roads::tol,
                    "route begins and ends at its candidates", what);
            ctx.require(drives(ls[0]), "route is not a drive", what);
            if (net::dist(a.q, b.q) <= roads::tol and a.q != b.q) {
                // which of them comes first on a round road is not decided
                ctx.stat("routes_standing_not_decided");
                return;
            }
            if (s.within_edge_turns) {
                ctx.require(len <= total + roads::tol, "route with turns is longer than the drive without", what);
                ctx.stat(len < total - roads::tol ? "routes_turned" : "routes_driven");
            } else {
                ctx.require(std::abs(len - total) <= roads::tol, "route is not the shortest drive", what);
                ctx.stat(a.e == b.e and a.o <= b.o ? "routes_within_edge" : "routes_driven");
            }
        }

        static lines_type touching(const lines_type &ls, std::vector<xy> &jumps) {
            lines_type out;
            for (const auto &l : ls) {
                if (not out.empty() and net::dist(out.back().back(), l.front()) <= roads::tol) {
                    jumps.push_back(l.front());
                    out.back().insert(out.back().end(), l.begin(), l.end());
                } else {
                    out.push_back(l);
                }
            }
            return out;
        }

        // the route of a policy out of the routes of its pairs
        void policy(const ma::router<N> &router, const route_type &given, const policy_type &policy, const std::function<std::string()> &say) const {
            lines_type parts;
            std::vector<xy> places, jumps;
            bool gap = true, open = false, moved = false;
            double sum = 0;
            std::size_t gaps = 0;
            for (std::size_t i = 0, j = 1; j < policy.size(); ++i, ++j) {
                const auto &[from, source] = policy[i];
                const auto &[to, target] = policy[j];
                if (from == to) {
                    // a repeated entry marks a skip: the next pair is not connected
                    ++i;
                    ++j;
                    gap = true;
                    ctx.stat("policies_with_skip");
                    continue;
                }
                const auto route = router.candidate_route(candidates, from, source, to, target, s.within_edge_turns, s.a_star,
                        s.routing_max_distance_factor);
                open = open or expected(from, source, to, target) == verdict::either;
                const auto a = rd.at(candidates[from].edges[source]);
                if (route.is_invalid()) {
                    gap = true;
                    ++gaps;
                    continue;
                }
                const auto ls = lines(route);
                if (ls.empty()) {
                    places.push_back(a.q);
                    continue;
                }
                moved = true;
                sum += length(ls);
                if (gap) {
                    parts.push_back(ls[0]);
                } else {
                    ctx.require(net::dist(parts.back().back(), ls[0].front()) <= roads::tol, "routes of consecutive candidates do not meet", [&] {
                        return vh::cat(str(parts), " ", str(ls), " ", say());
                    });
                    parts.back().insert(parts.back().end(), ls[0].begin(), ls[0].end());
                }
                gap = false;
            }
            // earlier routes beyond the limit may be known by now
            const auto result = open ? router.candidates_route(candidates, policy, s.within_edge_turns, s.join_merges, s.a_star,
                    s.routing_max_distance_factor) : given;
            auto ls = lines(result);
            const auto what = [&] {
                std::ostringstream w;
                for (const auto &[c, e] : policy) {
                    w << " " << c << "." << e;
                }
                return vh::cat("policy", w.str(), ": ", str(ls), " expected ", str(parts), " ", say());
            };
            if (not moved) {
                ctx.require(ls.empty(), "route of a policy that does not move", what);
                ctx.stat("policies_standing");
                return;
            }
            ctx.require(not result.is_invalid(), "route of a policy is missing", what);
            if (result.is_invalid()) {
                return;
            }
            const double len = result.has_length() ? static_cast<double>(result.length()) : 0.0;
            ctx.require(vh::close(len, length(ls), 1e-9, 1e-6), "length of the match is not the sum of its parts", what);
            if (blurred) {
                ctx.stat("turns_not_decided");
                return;
            }
            ctx.require(std::abs(len - sum) <= roads::tol * static_cast<double>(1 + policy.size()), "length of the match is not the sum of its routes", what);
            // the ends of a gap may be one place
            parts = touching(parts, jumps);
            ls = touching(ls, jumps);
            ctx.require(ls.size() == parts.size(), "gaps of the match are not where no connection exists", what);
            if (ls.size() != parts.size()) {
                return;
            }
            for (std::size_t i = 0; i < ls.size(); ++i) {
                const auto x = straight(ls[i], roads::tol), y = straight(parts[i], roads::tol);
                bool same = x.size() == y.size();
                for (std::size_t k = 0; same and k < x.size(); ++k) {
                    same = net::dist(x[k], y[k]) <= 2 * roads::tol;
                }
                ctx.require(same, "match differs from the joined routes of its candidates", what);
                ctx.require(drives(ls[i], places, jumps), "match is not a drive", what);
            }
            ctx.stat("policies_joined", parts.size());
            ctx.stat(gaps > 0 ? "policies_with_gap" : "policies_without_gap");
            ctx.stat("segments_walked", [&] {
                std::size_t k = 0;
                for (const auto &l : ls) {
                    k += l.size() - 1;
                }
                return k;
            }());
        }
    };

}

#endif
