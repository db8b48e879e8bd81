// Walks lines over the directed edges of a network and predicts drives between candidates.
#ifndef VERIF_DRIVE_HPP
#define VERIF_DRIVE_HPP

#include "net.hpp"

#include <numbers>

#include "types/geometry/network/network.hpp"
#include "types/matching/algorithm/algorithms.hpp"

#include "matching/settings.hpp"

namespace drive {

    namespace mg = map_matching_2::geometry;
    namespace ma = map_matching_2::matching;
    using net::xy;
    using settings = ma::settings;

    template<typename CS>
    using import_type = MM2_NETWORK_IMPORT(MM2_GRAPH_HELPER_IMPORT(CS, MM2_MEMORY_TYPES, MM2_TAG_HELPER(MM2_MEMORY_TYPES)));
    template<typename CS>
    using network_type = MM2_NETWORK(MM2_GRAPH_HELPER(CS, MM2_MEMORY_TYPES, MM2_TAG_HELPER(MM2_MEMORY_TYPES)),
            MM2_INDEX_HELPER(CS, MM2_MEMORY_TYPES, MM2_MEMORY_TYPES));

#ifdef VERIF_GEOGRAPHIC
    using CS = MM2_GEOGRAPHIC;
    // the positions of the plane in centimeters to meters around a place
    inline xy placed(const xy &q) { return {8.0 + q.first * 1e-5, 48.0 + q.second * 1e-5}; }
#else
    using CS = MM2_CARTESIAN;
    inline xy placed(const xy &q) { return q; }
#endif
    using N = network_type<CS>;
    using traits = ma::network_traits<N>;
    using track_type = traits::track_type;
    using line_type = mg::rich_line_traits<traits::track_rich_line_type>::line_type;
    using candidate_type = traits::candidate_type;
    using candidate_edge_type = traits::candidate_edge_type;
    using edge_desc = traits::edge_descriptor;
    using point_type = traits::point_type;
    using route_type = traits::route_type;
    using policy_type = traits::policy_type;
    using multi_type = traits::lazy_multi_rich_line_type;
    using lines_type = std::vector<std::vector<xy>>;

    inline point_type P(const xy &q) { return point_type{placed(q).first, placed(q).second}; }

    inline track_type make_track(const std::vector<xy> &points) {
        line_type line;
        for (const auto &q : points) {
            line.emplace_back(P(q));
        }
        return track_type{"t", std::move(line)};
    }

    // the lines of a route without repeated points and without lines of a single position
    inline lines_type lines(const route_type &route) {
        lines_type out;
        if (route.is_invalid()) {
            return out;
        }
        const auto multi = route.template get_multi_rich_line<multi_type>();
        for (const auto &rich_line : multi.rich_lines()) {
            std::vector<xy> l;
            for (const auto &q : net::to_xys(rich_line.line())) {
                if (l.empty() or l.back() != q) {
                    l.push_back(q);
                }
            }
            if (l.size() > 1) {
                out.push_back(l);
            }
        }
        return out;
    }

    inline double length(const lines_type &ls) {
        double d = 0;
        for (const auto &l : ls) {
            d += net::length(l);
        }
        return d;
    }

    inline std::string str(const lines_type &ls) {
        std::ostringstream w;
        w << std::setprecision(12);
        for (const auto &l : ls) {
            w << "[";
            for (const auto &q : l) {
                w << "(" << q.first << "," << q.second << ")";
            }
            w << "]";
        }
        return w.str();
    }

    // without points on straight pieces
    inline std::vector<xy> straight(const std::vector<xy> &l, double tol) {
        std::vector<xy> out;
        for (const auto &q : l) {
            while (out.size() >= 2) {
                const auto &a = out[out.size() - 2], &b = out.back();
                const double ab = net::dist(a, b), bq = net::dist(b, q), aq = net::dist(a, q);
                if (ab + bq - aq > tol * tol / (1 + aq)) {
                    break;
                }
                out.pop_back();
            }
            if (out.empty() or net::dist(out.back(), q) > tol) {
                out.push_back(q);
            }
        }
        return out;
    }

    class roads {
    public:
        struct edge {
            edge_desc e;
            std::uint64_t id;
            std::size_t s, t;
            std::vector<xy> line;
            std::vector<double> at; // distance of every point from the start
            [[nodiscard]] double length() const { return at.back(); }
        };

        static constexpr double tol = 1e-3;

        const N &n;
        std::vector<edge> edges;
        std::map<std::size_t, std::size_t> number; // descriptor -> edge number
        net::view view;

        explicit roads(const N &n) : n{n}, view{net::observe(n)} {
            const auto vv = n.graph().vertices_view();
            std::map<std::size_t, std::size_t> pos;
            for (auto it = vv.begin(); it != vv.end(); it = vv.next(it)) {
                const auto k = pos.size();
                pos[it] = k;
                _vertices.push_back(it);
            }
            const auto ev = n.graph().edges_view();
            for (auto it = ev.begin(); it != ev.end(); it = ev.next(it)) {
                const auto &d = n.graph().get_edge_data(it);
                number[it] = edges.size();
                edge e{it, d.id, pos.at(n.graph().source(it)), pos.at(n.graph().target(it)), net::to_xys(d.rich_line.line()), {}};
                e.at.push_back(0);
                for (std::size_t i = 1; i < e.line.size(); ++i) {
                    e.at.push_back(e.at.back() + net::dist(e.line[i - 1], e.line[i]));
                }
                edges.push_back(std::move(e));
            }
            _distances.resize(view.nodes.size());
        }

        [[nodiscard]] std::size_t vertices() const { return _vertices.size(); }

        [[nodiscard]] std::size_t vertex(std::size_t descriptor) const {
            return static_cast<std::size_t>(std::find(_vertices.begin(), _vertices.end(), descriptor) - _vertices.begin());
        }

        [[nodiscard]] const std::vector<double> &distances(std::size_t s) const {
            if (_distances[s].empty()) {
                _distances[s] = net::distances(view, s);
            }
            return _distances[s];
        }

        // all distances from the start of an edge at which it passes a position
        [[nodiscard]] std::vector<double> offsets(std::size_t e, const xy &q) const {
            const auto &g = edges[e];
            std::vector<double> out;
            for (std::size_t k = 1; k < g.line.size(); ++k) {
                const auto &a = g.line[k - 1], &b = g.line[k];
                const double dx = b.first - a.first, dy = b.second - a.second, l2 = dx * dx + dy * dy;
                const double t = l2 > 0 ? std::clamp(((q.first - a.first) * dx + (q.second - a.second) * dy) / l2, 0.0, 1.0) : 0.0;
                if (net::dist(q, {a.first + t * dx, a.second + t * dy}) <= tol) {
                    const double o = g.at[k - 1] + t * std::sqrt(l2);
                    if (out.empty() or std::abs(out.back() - o) > tol) {
                        out.push_back(o);
                    }
                }
            }
            return out;
        }

        // do two roads leave one position in nearly the same direction, so a turn from one into the other looks like turning back
        [[nodiscard]] bool acute() const {
            std::set<xy> places;
            for (const auto &v : view.nodes) {
                if (not places.insert(v.p).second) {
                    return true; // a cut turn may end on the other node of a place
                }
            }
            std::map<std::pair<xy, xy>, std::pair<std::size_t, std::size_t>> segments;
            std::map<xy, std::vector<xy>> from;
            for (std::size_t e = 0; e < edges.size(); ++e) {
                const auto &l = edges[e].line;
                for (std::size_t k = 1; k < l.size(); ++k) {
                    const auto &a = l[k - 1], &b = l[k];
                    if (a == b) {
                        continue;
                    }
                    const auto [it, fresh] = segments.try_emplace(std::minmax(a, b), e, k);
                    if (fresh) {
                        from[a].push_back(b);
                        from[b].push_back(a);
                    } else if (const auto f = it->second.first; f == e or not(twins(e, f) or l == edges[f].line)) {
                        return true;
                    }
                }
            }
            for (const auto &[a, bs] : from) {
                for (std::size_t i = 0; i < bs.size(); ++i) {
                    for (std::size_t j = 0; j < i; ++j) {
                        const double x = std::atan2(bs[i].second - a.second, bs[i].first - a.first);
                        const double y = std::atan2(bs[j].second - a.second, bs[j].first - a.first);
                        if (std::abs(std::remainder(x - y, 2 * std::numbers::pi)) < 2.0 * std::numbers::pi / 180) {
                            return true;
                        }
                    }
                }
            }
            return false;
        }

        // does a road run over a stretch of itself, so one place is two positions on it
        [[nodiscard]] bool doubled() const {
            for (const auto &e : edges) {
                const auto &l = e.line;
                for (std::size_t i = 1; i < l.size(); ++i) {
                    for (std::size_t j = i + 1; j < l.size(); ++j) {
                        const double dx = l[i].first - l[i - 1].first, dy = l[i].second - l[i - 1].second, d = std::hypot(dx, dy);
                        const auto side = [&](const xy &q) { return std::abs((q.first - l[i - 1].first) * dy - (q.second - l[i - 1].second) * dx); };
                        if (d > 0 and side(l[j - 1]) <= tol * d and side(l[j]) <= tol * d) {
                            const auto along = [&](const xy &q) { return ((q.first - l[i - 1].first) * dx + (q.second - l[i - 1].second) * dy) / d; };
                            const auto [a, b] = std::minmax(along(l[j - 1]), along(l[j]));
                            if (std::min(b, d) - std::max(a, 0.0) > tol) {
                                return true;
                            }
                        }
                    }
                }
            }
            return false;
        }

        [[nodiscard]] bool twins(std::size_t a, std::size_t b) const {
            return edges[a].s == edges[b].t and edges[a].t == edges[b].s and edges[a].line == net::reversed(edges[b].line);
        }

        // positions (edge, offset) reachable without moving
        using state = std::pair<std::size_t, double>;
        using states = std::vector<state>;

        void close(states &s, bool turn, bool anywhere, const xy &q) const {
            const auto add = [&](std::size_t e, double o) {
                for (const auto &[f, p] : s) {
                    if (f == e and std::abs(p - o) <= tol) {
                        return;
                    }
                }
                s.emplace_back(e, o);
            };
            if (anywhere) {
                for (std::size_t e = 0; e < edges.size(); ++e) {
                    for (const double o : offsets(e, q)) {
                        add(e, o);
                    }
                }
                return;
            }
            for (std::size_t i = 0; i < s.size(); ++i) {
                const auto [e, o] = s[i];
                if (o >= edges[e].length() - tol) {
                    for (std::size_t f = 0; f < edges.size(); ++f) {
                        if (edges[f].s == edges[e].t) {
                            add(f, 0);
                        }
                    }
                }
                if (turn) {
                    for (std::size_t f = 0; f < edges.size(); ++f) {
                        if (twins(e, f)) {
                            add(f, edges[f].length() - o);
                        }
                        // a road that passes the place again
                        if (twins(e, f) or e == f) {
                            for (const double p : offsets(f, q)) {
                                add(f, p);
                            }
                        }
                    }
                }
            }
        }

        // -1 when the whole line is a drive, else the number of the first piece that is not. A turn onto the other direction
        // of a road within the road is only allowed when turn is set or at a listed position.
        // At jumps, a line may go on anywhere.
        [[nodiscard]] int walk(const std::vector<xy> &l, bool turn, const std::vector<xy> &turns = {}, const std::vector<xy> &jumps = {}) const {
            const auto listed = [](const std::vector<xy> &places, const xy &q) {
                return std::any_of(places.begin(), places.end(), [&](const xy &p) { return net::dist(p, q) <= tol; });
            };
            states s;
            close(s, false, true, l.front());
            for (std::size_t i = 1; i < l.size(); ++i) {
                close(s, turn or listed(turns, l[i - 1]), listed(jumps, l[i - 1]), l[i - 1]);
                const double d = net::dist(l[i - 1], l[i]);
                states next;
                for (const auto &[e, o] : s) {
                    for (const double p : offsets(e, l[i])) {
                        if (std::abs(p - o - d) <= tol) {
                            next.emplace_back(e, p);
                        }
                    }
                }
                if (next.empty()) {
                    return static_cast<int>(i);
                }
                s = std::move(next);
            }
            return -1;
        }

        struct position {
            std::size_t e;
            double o;
            xy q;
        };

        [[nodiscard]] position at(const candidate_edge_type &c) const {
            const auto e = number.at(c.edge_desc);
            return {e, c.from->has_length() ? static_cast<double>(c.from->length()) : 0.0, net::to_xy(c.projection_point)};
        }

        // length of the shortest drive between two positions, infinity when there is none, and its share between the edges
        [[nodiscard]] std::pair<double, double> between(const position &a, const position &b) const {
            if (a.e == b.e and a.o <= b.o) {
                return {b.o - a.o, 0.0};
            }
            const double d = distances(edges[a.e].t)[edges[b.e].s];
            return {edges[a.e].length() - a.o + d + b.o, d};
        }

        // are two equal positions really the same place of the network
        [[nodiscard]] bool same_place(const position &a, const position &b) const {
            if (a.e == b.e) {
                return std::abs(a.o - b.o) <= tol or between(a, b).first <= tol or between(b, a).first <= tol;
            }
            return twins(a.e, b.e) or between(a, b).first <= tol or node(a) == node(b);
        }

        // the node a position lies on, or a number unlike any other
        [[nodiscard]] std::size_t node(const position &a) const {
            return a.o <= tol ? edges[a.e].s : a.o >= edges[a.e].length() - tol ? edges[a.e].t : vertices() + a.e;
        }

    private:
        std::vector<std::size_t> _vertices;
        mutable std::vector<std::vector<double>> _distances;
    };

}

#endif
