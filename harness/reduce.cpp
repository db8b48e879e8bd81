// Monitor: line simplification and median merging against independent references.
#include "net.hpp"

#include "types/geometry/point.hpp"
#include "types/geometry/rich_type/eager_rich_line.hpp"
#include "types/geometry/rich_type/lazy_rich_line.hpp"
#include "types/geometry/rich_type/lazy_rich_segment.hpp"
#include "types/geometry/rich_type/rich_line.hpp"

#include "geometry/algorithm/median_merge.hpp"
#include "geometry/algorithm/simplify.hpp"

namespace {

    using namespace map_matching_2;
    namespace mg = map_matching_2::geometry;
    namespace bg = boost::geometry;
    using net::xy;

    template<typename P>
    constexpr bool is_plane = std::is_same_v<typename mg::data<P>::coordinate_system_type, mg::cs_cartesian>;

    template<typename P>
    constexpr bool is_sphere = std::is_same_v<typename mg::data<P>::coordinate_system_type,
        mg::cs_spherical_equatorial>;

    // relative error allowed for distances: outside of the plane, metres come from a local flat map, and boxes around
    // points on the sphere are made with the radii of the ellipsoid
    template<typename P>
    constexpr double rel = is_plane<P> ? 1e-9 : is_sphere<P> ? 2e-2 : 2e-3;

    // local flat map in metres, and the way back
    template<typename P>
    struct flat {
        double kx{1}, ky{1}, x0{0}, y0{0};

        flat() {
            if constexpr (not is_plane<P>) {
                x0 = 11.5;
                y0 = 48.1;
                const double phi = y0 * M_PI / 180;
                if constexpr (is_sphere<P>) {
                    kx = 6371000 * std::cos(phi) * M_PI / 180;
                    ky = 6371000 * M_PI / 180;
                } else {
                    const double a = 6378137, e2 = 0.00669437999014, w = 1 - e2 * std::sin(phi) * std::sin(phi);
                    kx = a / std::sqrt(w) * std::cos(phi) * M_PI / 180;
                    ky = a * (1 - e2) / std::pow(w, 1.5) * M_PI / 180;
                }
            }
        }

        P at(const xy &p) const { return P{x0 + p.first / kx, y0 + p.second / ky}; }

        xy from(const P &p) const { return {(bg::get<0>(p) - x0) * kx, (bg::get<1>(p) - y0) * ky}; }
    };

    double to_segment(const xy &p, const xy &a, const xy &b) {
        const double dx = b.first - a.first, dy = b.second - a.second, l = dx * dx + dy * dy;
        double f = l > 0 ? ((p.first - a.first) * dx + (p.second - a.second) * dy) / l : 0;
        f = std::clamp(f, 0.0, 1.0);
        return std::hypot(p.first - a.first - f * dx, p.second - a.second - f * dy);
    }

    std::vector<xy> random_points(vh::rng &r, double size) {
        std::vector<xy> p;
        const int n = static_cast<int>(r.range(0, r.chance(0.2) ? 40 : 12));
        const bool grid = r.chance(0.5);
        xy at{0, 0};
        for (int i = 0; i < n; ++i) {
            const double mode = r.real(0, 1);
            if (i > 0 and mode < 0.1) {
                // stays
            } else if (i > 1 and mode < 0.2) {
                at = p[p.size() - 2]; // back again
            } else if (mode < 0.5) {
                at = {at.first + r.real(0, size / 4), at.second + r.real(-size / 40, size / 40)};
            } else if (mode < 0.7) {
                at = {at.first + r.real(-size / 30, size / 30), at.second + r.real(-size / 30, size / 30)};
            } else {
                at = {r.real(0, size), r.real(0, size)};
            }
            if (grid) {
                at = {std::round(at.first / size * 40) * size / 40, std::round(at.second / size * 40) * size / 40};
            }
            p.push_back(at);
        }
        return p;
    }

    std::string str(const std::vector<xy> &p) {
        std::string s;
        for (const auto &q : p) {
            s += vh::cat("(", q.first, " ", q.second, ")");
        }
        return s;
    }

    // own Douglas-Peucker: the kept indices; unclear when decisions are closer than the distances are known
    struct reference {
        const std::vector<xy> &p;
        double tolerance, margin;
        std::set<std::size_t> kept{};
        bool unclear{};

        void cut(std::size_t from, std::size_t to) { // both included
            kept.insert(from);
            kept.insert(to);
            std::size_t best = from;
            double most = 0, second = 0;
            for (auto i = from + 1; i < to; ++i) {
                const double d = to_segment(p[i], p[from], p[to]);
                if (d > most) {
                    second = most;
                    most = d;
                    best = i;
                } else {
                    second = std::max(second, d);
                }
            }
            const double near = margin * (1 + most);
            if (std::fabs(most - tolerance) <= near) {
                unclear = true;
            } else if (most > tolerance) {
                unclear |= most - second <= near;
                cut(from, best);
                cut(best, to);
            }
        }
    };

    // positions of half-turns; unclear near the limit
    std::vector<std::size_t> reversals(const std::vector<xy> &p, double limit, bool &unclear) {
        std::vector<std::size_t> out;
        for (std::size_t i = 1; i + 1 < p.size(); ++i) {
            if (p[i - 1] == p[i] or p[i] == p[i + 1]) {
                continue;
            }
            const double a = std::atan2(p[i].second - p[i - 1].second, p[i].first - p[i - 1].first);
            const double b = std::atan2(p[i + 1].second - p[i].second, p[i + 1].first - p[i].first);
            double turn = std::fabs(a - b) * 180 / M_PI;
            turn = turn > 180 ? 360 - turn : turn;
            const double excess = turn - (180 - limit);
            if (std::fabs(excess) < 1e-9 or (limit == 0 and turn > 179.999)) {
                unclear = true;
            }
            if (excess > 0) {
                out.push_back(i);
            }
        }
        return out;
    }

    template<typename R>
    struct reducer {
        using P = typename R::point_type;
        vh::context &ctx;
        vh::rng &r;
        flat<P> map{};

        typename R::line_type as_line(const std::vector<xy> &p) const {
            typename R::line_type line;
            for (const auto &q : p) {
                line.push_back(map.at(q));
            }
            return line;
        }

        static bool same(const P &a, const P &b) {
            return bg::get<0>(a) == bg::get<0>(b) and bg::get<1>(a) == bg::get<1>(b);
        }

        void simplify_one() {
            const double size = is_plane<P> and r.chance(0.3) ? r.pick(std::vector<double>{1e-2, 1, 1e5}) : 400;
            const auto p = random_points(r, size);
            const double tolerance = r.chance(0.15) ? 0.0 : r.real(0, size / (r.chance(0.5) ? 10 : 100));
            const bool retain = r.chance(0.5);
            const double limit = r.chance(0.5) ? r.real(0.1, 20) : 1e-3;
            R line{as_line(p)};
            const auto before = as_line(p);
            if (r.chance(0.3) and line.size() > 1) {
                (void) line.has_length();
                (void) line.has_azimuth();
            }
            ctx.observe(vh::hash_str(str(p)));
            mg::simplify_rich_line(line, retain, tolerance, limit);
            ctx.stat("lines_simplified");
            const auto about = [&](const char *what) {
                return vh::cat(what, ": tolerance ", tolerance, retain ? " retained " : " ", limit, " ", str(p), " -> ",
                        line.wkt());
            };
            if (p.size() < 3) {
                bool all = line.size() == p.size();
                for (std::size_t i = 0; all and i < p.size(); ++i) {
                    all = same(line[i], before[i]);
                }
                ctx.require(all, "short_line_changed", [&] { return about("short line changed"); });
                return;
            }
            if (line.size() < 2) {
                ctx.fail("line_lost", about("line lost"));
                return;
            }
            ctx.require(same(line.front(), before.front()) and same(line.back(), before.back()), "end_moved", [&] {
                return about("end point moved");
            });
            // which points were kept: smallest distance of dropped points over all ways to see it as a subsequence
            const std::size_t n = p.size(), m = line.size();
            const double inf = std::numeric_limits<double>::infinity();
            std::vector<std::vector<double>> cost(n, std::vector<double>(n, 0));
            for (std::size_t i = 0; i < n; ++i) {
                for (std::size_t j = i + 1; j < n; ++j) {
                    for (auto k = i + 1; k < j; ++k) {
                        cost[i][j] = std::max(cost[i][j], to_segment(p[k], p[i], p[j]));
                    }
                }
            }
            std::vector<double> best(n, inf);
            best[0] = 0;
            for (std::size_t k = 1; k < m; ++k) {
                std::vector<double> next(n, inf);
                for (std::size_t j = k; j < n; ++j) {
                    if (same(before[j], line[k])) {
                        for (std::size_t i = k - 1; i < j; ++i) {
                            next[j] = std::min(next[j], std::max(best[i], cost[i][j]));
                        }
                    }
                }
                best = std::move(next);
            }
            ctx.require(best[n - 1] < inf, "not_a_subsequence", [&] { return about("other or reordered points"); });
            const double slack = is_plane<P> ? 1e-9 * size : (is_sphere<P> ? 1e-2 : 0.2) + rel<P> * tolerance;
            ctx.require(not (best[n - 1] < inf) or best[n - 1] <= tolerance + slack, "moved_too_far", [&] {
                return vh::cat(about("dropped point too far"), " distance ", best[n - 1]);
            });
            ctx.stat("points_dropped", static_cast<std::int64_t>(n - m));
            // exactly the points needed
            if constexpr (is_plane<P>) {
                bool unclear = false;
                std::vector<std::size_t> cuts{0};
                if (retain) {
                    for (const auto i : reversals(p, limit, unclear)) {
                        cuts.push_back(i);
                    }
                }
                cuts.push_back(n - 1);
                reference ref{p, tolerance, 1e-9 * size};
                for (std::size_t i = 0; i + 1 < cuts.size(); ++i) {
                    ref.cut(cuts[i], cuts[i + 1]);
                }
                if (not (unclear or ref.unclear)) {
                    std::vector<std::size_t> kept(ref.kept.begin(), ref.kept.end());
                    bool equal = kept.size() == m;
                    for (std::size_t i = 0; equal and i < m; ++i) {
                        equal = same(before[kept[i]], line[i]);
                    }
                    ctx.require(equal, "other_points_kept", [&] { return about("not the result of Douglas-Peucker"); });
                    ctx.stat("compared_with_reference");
                    ctx.stat("reversals_retained", static_cast<std::int64_t>(cuts.size() - 2));
                }
            }
            // the line remains usable
            const R fresh{line.line()};
            ctx.require(fresh.has_length() == line.has_length() and
                (not line.has_length() or vh::close(fresh.length(), line.length(), 1e-9, 1e-9)), "length_after", [&] {
                return about("wrong length afterwards");
            });
        }

        void segments_one() {
            using rich_segment_type = typename R::rich_segment_type;
            const double size = 400;
            auto p = random_points(r, size);
            if (p.size() < 2) {
                return;
            }
            const double tolerance = r.chance(0.15) ? 0.0 : r.real(0, size / 20);
            const bool retain = r.chance(0.7);
            const double limit = r.chance(0.5) ? r.real(0.1, 20) : 1e-3;
            std::pmr::monotonic_buffer_resource memory;
            std::pmr::list<rich_segment_type> list{&memory};
            const R line{as_line(p)};
            for (std::size_t i = 0; i + 1 < p.size(); ++i) {
                list.push_back(line.rich_segment(i));
            }
            mg::simplify_rich_segments(list, retain, tolerance, limit);
            ctx.stat("segment_lists_simplified");
            std::string after;
            for (const auto &s : list) {
                after += s.wkt();
            }
            const auto about = [&](const char *what) {
                return vh::cat(what, ": tolerance ", tolerance, retain ? " retained " : " ", limit, " ", str(p), " -> ",
                        after);
            };
            ctx.require(not list.empty() and same(list.front().first(), line.front()) and
                same(list.back().second(), line.back()), "segments_end_moved", [&] { return about("end moved"); });
            for (auto it = list.begin(); it != list.end() and std::next(it) != list.end(); ++it) {
                ctx.require(same(it->second(), std::next(it)->first()), "segments_gap", [&] { return about("gap"); });
                ctx.require(vh::close(R{typename R::line_type{it->first(), it->second()}}.has_length() ?
                        mg::distance(it->first(), it->second()) : 0.0, it->has_length() ? it->length() : 0.0, 1e-9, 1e-9),
                        "segment_length", [&] { return about("length of a segment"); });
            }
            if constexpr (is_plane<P>) {
                bool unclear = false;
                std::vector<std::size_t> cuts{0};
                if (retain) {
                    for (const auto i : reversals(p, limit, unclear)) {
                        cuts.push_back(i);
                    }
                }
                cuts.push_back(p.size() - 1);
                reference ref{p, tolerance, 1e-9 * size};
                for (std::size_t i = 0; i + 1 < cuts.size(); ++i) {
                    ref.cut(cuts[i], cuts[i + 1]);
                }
                if (not (unclear or ref.unclear)) {
                    std::vector<std::size_t> kept(ref.kept.begin(), ref.kept.end());
                    bool equal = kept.size() == list.size() + 1;
                    auto it = list.begin();
                    for (std::size_t i = 0; equal and i + 1 < kept.size(); ++i, ++it) {
                        equal = same(line[kept[i]], it->first()) and same(line[kept[i + 1]], it->second());
                    }
                    ctx.require(equal, "other_segments_kept", [&] { return about("not the result of Douglas-Peucker"); });
                    ctx.stat("segments_compared_with_reference");
                }
            }
        }

        static double middle(std::vector<double> v) {
            std::sort(v.begin(), v.end());
            const auto h = v.size() / 2;
            return v.size() % 2 ? v[h] : (v[h - 1] + v[h]) / 2;
        }

        // own merge: runs of points near their first point become the median of the run
        template<typename Tolerance>
        void compare_merged(const std::vector<xy> &p, const typename R::line_type &before,
                const typename R::line_type &after, const Tolerance &tolerance, const std::string &how) {
            std::vector<P> expected;
            bool unclear = false;
            std::size_t merged = 0;
            for (std::size_t i = 0; i < p.size();) {
                const double t = tolerance(i);
                std::vector<double> x, y;
                auto j = i;
                for (; j < p.size(); ++j) {
                    const double d = net::dist(p[i], p[j]);
                    if (j > i and d > 0 and std::fabs(d - t) <= rel<P> * (t + 1)) {
                        unclear = true;
                    }
                    if (j > i and d > t) {
                        break;
                    }
                    x.push_back(bg::get<0>(before[j]));
                    y.push_back(bg::get<1>(before[j]));
                }
                if (j - i > 1) {
                    ++merged;
                    ctx.stat((j - i) % 2 ? "odd_runs" : "even_runs");
                }
                expected.push_back(P{middle(x), middle(y)});
                i = j;
            }
            if (unclear) {
                return;
            }
            ctx.stat("median_merges_compared");
            bool equal = expected.size() == after.size();
            for (std::size_t i = 0; equal and i < expected.size(); ++i) {
                equal = vh::close(bg::get<0>(expected[i]), bg::get<0>(after[i]), 1e-14, 1e-14) and
                        vh::close(bg::get<1>(expected[i]), bg::get<1>(after[i]), 1e-14, 1e-14);
            }
            ctx.require(equal, "merged_differently", [&] {
                std::vector<xy> e, a;
                for (const auto &q : expected) {
                    e.push_back(map.from(q));
                }
                for (const auto &q : after) {
                    a.push_back(map.from(q));
                }
                return vh::cat(how, " ", str(p), " -> ", str(a), " instead of ", str(e));
            });
        }

        void merge_one() {
            auto p = random_points(r, r.chance(0.5) ? 100 : 400);
            if (r.chance(0.3) and not p.empty()) {
                // a cloud
                const auto c = r.pick(p);
                const int n = static_cast<int>(r.range(2, 40));
                for (int i = 0; i < n; ++i) {
                    p.push_back({c.first + r.real(-5, 5), c.second + r.real(-5, 5)});
                }
            }
            // outside of the plane, circles of less than a metre are not made precisely
            const double tolerance = r.chance(0.1) ? 0.0 : is_plane<P> and r.chance(0.2) ? r.real(0.001, 1) :
                    r.real(1, 40);
            const auto before = as_line(p);
            ctx.observe(vh::hash_str(str(p)));
            const auto after = mg::median_merge(before, tolerance);
            compare_merged(p, before, after, [&](std::size_t) { return tolerance; }, vh::cat("tolerance ", tolerance));
        }

        void run() {
            for (int i = 0; i < 8; ++i) {
                simplify_one();
                if constexpr (requires(R x) { x.rich_segment(0); }) {
                    segments_one();
                }
                merge_one();
            }
        }
    };

    template<typename P>
    void reduce(vh::context &ctx, vh::rng &r) {
        switch (r.range(0, 2)) {
            case 0:
                return reducer<mg::rich_line<P>>{ctx, r}.run();
            case 1:
                return reducer<mg::lazy_rich_line<P>>{ctx, r}.run();
            default:
                return reducer<mg::eager_rich_line<P>>{ctx, r}.run();
        }
    }

    // points far from roads are merged with half their distance to the next road
    void adaptive(vh::context &ctx, vh::rng &r) {
        net::plan_options o;
        o.scale = r.pick(std::vector<double>{1, 10, 40});
        auto plan = net::random_plan(r, o);
        if (r.chance(0.05)) {
            plan.edges.clear();
        }
        const auto import = net::build(plan);
        auto network = net::bake(import);
        network.build_spatial_indices();
        using P = typename net::network::point_type;
        reducer<mg::rich_line<P>> red{ctx, r};
        for (int i = 0; i < 6; ++i) {
            const auto p = random_points(r, o.scale * 12);
            const double tolerance = r.chance(0.2) ? 0.0 : r.real(0, o.scale);
            const bool on = r.chance(0.8);
            const auto before = red.as_line(p);
            const auto after = mg::median_merge(before, tolerance, on, &network);
            ctx.observe(vh::hash_str(plan.str() + str(p)));
            ctx.stat("adaptive_merges");
            red.compare_merged(p, before, after, [&](std::size_t i) {
                double road = std::numeric_limits<double>::infinity();
                for (const auto &e : plan.edges) {
                    for (std::size_t k = 1; k < e.line.size(); ++k) {
                        road = std::min(road, to_segment(p[i], e.line[k - 1], e.line[k]));
                    }
                }
                return on and std::isfinite(road) ? std::max(tolerance, road * 0.5) : tolerance;
            }, vh::cat("tolerance ", tolerance, on ? " adaptive on " : " on ", plan.str()));
        }
    }

}

int main(int argc, char **argv) {
    return vh::run(argc, argv, {
            {"plane", reduce<mg::point_type<mg::cs_cartesian>>, 4000, 150000, 20},
            {"sphere", reduce<mg::point_type<mg::cs_spherical_equatorial>>, 800, 20000, 20},
            {"ellipsoid", reduce<mg::point_type<mg::cs_geographic>>, 800, 20000, 20},
            {"adaptive", adaptive, 1500, 40000, 20},
    });
}
