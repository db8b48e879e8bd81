// Monitor: parts cut out of lines against the walk along the line's own points.
#include "types/geometry/point.hpp"
#include "types/geometry/rich_type/eager_rich_line.hpp"
#include "types/geometry/rich_type/lazy_rich_line.hpp"
#include "types/geometry/rich_type/rich_line.hpp"

#include "geometry/algorithm/distance.hpp"
#include "geometry/algorithm/substring.hpp"

#include "vh.hpp"

namespace {

    using namespace map_matching_2;
    namespace mg = map_matching_2::geometry;
    namespace bg = boost::geometry;

    template<typename P>
    constexpr bool is_plane = std::is_same_v<typename mg::data<P>::coordinate_system_type, mg::cs_cartesian>;

    template<typename P>
    constexpr bool is_sphere = std::is_same_v<typename mg::data<P>::coordinate_system_type,
        mg::cs_spherical_equatorial>;

    template<typename P>
    double metres(const P &a, const P &b) {
        return bg::equals(a, b) ? 0.0 : mg::distance(a, b);
    }

    template<typename P>
    bool same(const P &a, const P &b) {
        return bg::get<0>(a) == bg::get<0>(b) and bg::get<1>(a) == bg::get<1>(b);
    }

    // tolerance for positions along the line
    template<typename P>
    double tolerance(double length) {
        // interpolation on the sphere goes through cosines of small angles, on the ellipsoid through short series
        return is_plane<P> ? 1e-9 * (1 + length) : is_sphere<P> ? 0.1 : 0.1 + 1e-3 * length;
    }

    template<typename R>
    struct cutter {
        using P = typename R::point_type;
        using points = std::vector<P>;

        vh::context &ctx;
        vh::rng &r;
        points line;
        std::vector<double> at; // position of each point
        double tol{};
        std::string text;

        double length() const {
            return at.back();
        }

        static points random_line(vh::rng &r, bool monotone) {
            points p;
            const int n = static_cast<int>(r.range(2, 8));
            double x = 0, y = 0;
            for (int i = 0; i < n; ++i) {
                if (i > 0 and r.chance(0.15)) {
                    p.push_back(p.back());
                    continue;
                }
                if (monotone) {
                    const double step = r.chance(0.5) ? static_cast<double>(r.range(1, 5)) : r.real(0.5, 300);
                    x += step;
                    // no sharp turns where positions can only be told roughly
                    y += not is_plane<P> ? r.real(-step, step) : r.chance(0.5) ? static_cast<double>(r.range(-5, 5)) :
                            r.real(-300, 300);
                } else if (i > 1 and r.chance(0.2)) {
                    p.push_back(p[p.size() - 2]); // back and forth
                    continue;
                } else {
                    x = r.chance(0.7) ? static_cast<double>(r.range(0, 6)) : r.real(0, 1000);
                    y = r.chance(0.7) ? static_cast<double>(r.range(0, 6)) : r.real(0, 1000);
                }
                if constexpr (is_plane<P>) {
                    p.push_back(P{x, y});
                } else {
                    // metres to some hundred metres, where straight in degrees is straight enough
                    p.push_back(P{11.5 + x * 3e-6, 48.1 + y * 3e-6});
                }
            }
            if (not monotone and r.chance(0.2)) {
                p.push_back(p.front());
            }
            return p;
        }

        void set(points p) {
            line = std::move(p);
            at.assign(1, 0.0);
            for (std::size_t i = 0; i + 1 < line.size(); ++i) {
                at.push_back(at.back() + metres(line[i], line[i + 1]));
            }
            tol = tolerance<P>(length());
            text = R{as_line(line)}.wkt();
        }

        static typename R::line_type as_line(const points &p) {
            return typename R::line_type{p.begin(), p.end()};
        }

        // whether the point is at the position of the line
        bool is_at(const P &p, double position) const {
            for (std::size_t i = 0; i + 1 < line.size(); ++i) {
                if (at[i] - tol <= position and position <= at[i + 1] + tol) {
                    const double segment = at[i + 1] - at[i];
                    const double before = metres(line[i], p), after = metres(p, line[i + 1]);
                    if (std::fabs(before - (position - at[i])) <= 3 * tol and
                        std::fabs(before + after - segment) <= 3 * tol) {
                        return true;
                    }
                }
            }
            return false;
        }

        // own interpolation in coordinates
        P point_at(double position) const {
            for (std::size_t i = 0; i + 1 < line.size(); ++i) {
                if (position <= at[i + 1] and at[i + 1] > at[i]) {
                    const double f = std::clamp((position - at[i]) / (at[i + 1] - at[i]), 0.0, 1.0);
                    if (f == 0.0) {
                        return line[i];
                    }
                    if (f == 1.0) {
                        return line[i + 1];
                    }
                    return P{bg::get<0>(line[i]) + f * (bg::get<0>(line[i + 1]) - bg::get<0>(line[i])),
                            bg::get<1>(line[i]) + f * (bg::get<1>(line[i + 1]) - bg::get<1>(line[i]))};
                }
            }
            return line.back();
        }

        double position() {
            switch (r.range(0, 5)) {
                case 0:
                    return 0.0;
                case 1:
                    return R{as_line(line)}.length();
                case 2:
                    return at[r.range(0, static_cast<int>(at.size()) - 1)];
                case 3:
                    return std::clamp(at[r.range(0, static_cast<int>(at.size()) - 1)] + r.real(-0.5, 0.5), 0.0, length());
                default:
                    return r.real(0, length());
            }
        }

        // the part from a to b, a < b within the line
        void check_part(const R &part, double a, double b, const std::string &how, std::size_t extra = 0) {
            const auto about = [&](const char *what) {
                return vh::cat(how, " ", a, "-", b, " of ", text, ": ", what, " ", part.wkt());
            };
            ctx.stat("parts_checked");
            if (b - a <= 4 * tol) {
                // nothing or next to nothing remains
                double left = 0;
                for (std::size_t i = 0; i + 1 < part.size(); ++i) {
                    left += metres(part[i], part[i + 1]);
                }
                ctx.require(left <= 12 * tol, "nothing_left", [&] {
                    return about("nothing should remain");
                });
                return;
            }
            if (part.size() < 2) {
                ctx.fail("part_missing", about("part is missing"));
                return;
            }
            ctx.require(is_at(part.front(), a), "part_start", [&] {
                return about("does not start there");
            });
            ctx.require(is_at(part.back(), b), "part_end", [&] {
                return about("does not end there");
            });
            // points of the line clearly in between have to be there exactly, in order and once
            std::vector<P> between;
            std::size_t allowed = 2 + extra;
            double last = -std::numeric_limits<double>::infinity();
            for (std::size_t i = 0; i < line.size(); ++i) {
                if (at[i] >= a - 4 * tol and at[i] <= b + 4 * tol) {
                    ++allowed;
                }
                if (at[i] > a + 4 * tol and at[i] < b - 4 * tol) {
                    // cuts at repeated points keep one of them, and cuts near points cannot be told from them
                    if (extra == 0 or (not same(between.empty() ? line.front() : between.back(), line[i]) and
                        (is_plane<P> or at[i] > last + 16 * tol)) or between.empty()) {
                        between.push_back(line[i]);
                        last = at[i];
                    }
                }
            }
            std::size_t found = 0;
            for (std::size_t i = 0; i < part.size() and found < between.size(); ++i) {
                // pieces joined again may have been cut at a point
                if (extra == 0 ? same(part[i], between[found]) : metres(part[i], between[found]) <= 4 * tol) {
                    ++found;
                }
            }
            ctx.require(found == between.size(), "part_points", [&] {
                return about("points are missing or out of order");
            });
            ctx.require(part.size() <= allowed, "part_repeats", [&] {
                return about("too many points");
            });
            double sum = 0;
            for (std::size_t i = 0; i + 1 < part.size(); ++i) {
                sum += metres(part[i], part[i + 1]);
            }
            ctx.require(std::fabs(sum - (b - a)) <= 8 * tol, "part_length", [&] {
                return vh::cat(about("length"), " ", sum);
            });
            ctx.require(part.has_length() and std::fabs(part.length() - sum) <= 8 * tol, "part_reported_length", [&] {
                return vh::cat(about("reported length"), " ", part.length());
            });
        }

        std::pair<double, double> two_positions() {
            double a = position(), b = position();
            if (a > b) {
                std::swap(a, b);
            }
            return {a, b};
        }

        void by_distance(const R &rich) {
            const auto [a, b] = two_positions();
            const bool give_from = r.chance(0.4), give_to = r.chance(0.4);
            P from{}, to{};
            if (give_from) {
                from = point_at(a);
            }
            if (give_to) {
                to = point_at(b);
            }
            check_part(mg::substring(rich, a, b, from, to, give_from, give_to), a, b,
                    vh::cat("substring", give_from, give_to));
            check_part(mg::substring_from(rich, a, from, give_from), a, length(), vh::cat("substring_from", give_from));
            check_part(mg::substring_to(rich, b, to, give_to), 0, b, vh::cat("substring_to", give_to));
            if (r.chance(0.3)) {
                // positions outside of the line take what is there
                const double before = -r.real(0, 5), after = length() + r.real(0, 5);
                check_part(mg::substring(rich, before, b), 0, b, "substring from before start");
                check_part(mg::substring(rich, a, after), a, length(), "substring to after end");
                ctx.require(not mg::substring(rich, after, after + 1).has_length(), "part_after_end", [&] {
                    return vh::cat("part after end of ", text, ": ", mg::substring(rich, after, after + 1).wkt());
                });
            }
            if (b - a > 4 * tol) {
                ctx.require(not mg::substring(rich, b, a).has_length(), "reversed_part", [&] {
                    return vh::cat("substring ", b, " to ", a, " of ", text);
                });
            }
        }

        // positions given as points, only for lines where a point is at one position
        void by_points(const R &rich) {
            const auto [a, b] = two_positions();
            const P from = point_at(a), to = point_at(b);
            const double exact = tol;
            if constexpr (not is_plane<P>) {
                tol = 0.1; // of the closest point on a sphere
            }
            const bool use_from = r.chance(0.5), use_to = r.chance(0.5);
            ctx.require(std::fabs(mg::distance_from(rich, from, use_from) - a) <= 8 * tol, "distance_from", [&] {
                return vh::cat("position ", a, " of ", text, " found at ", mg::distance_from(rich, from, use_from));
            });
            ctx.require(std::fabs(mg::distance_to(rich, to, use_to) - b) <= 8 * tol, "distance_to", [&] {
                return vh::cat("position ", b, " of ", text, " found at ", mg::distance_to(rich, to, use_to));
            });
            check_part(mg::substring_points(rich, from, to, use_from, use_to), a, b,
                    vh::cat("substring_points", use_from, use_to));
            check_part(mg::substring_point_from(rich, from, use_from), a, length(), "substring_point_from");
            check_part(mg::substring_point_to(rich, to, use_to), 0, b, "substring_point_to");
            ctx.stat("positions_by_point");
            tol = exact;
        }

        void pieces(const R &rich) {
            std::vector<double> cuts{0.0, R{as_line(line)}.length()};
            const int n = static_cast<int>(r.range(1, 5));
            for (int i = 0; i < n; ++i) {
                cuts.push_back(position());
            }
            std::sort(cuts.begin(), cuts.end());
            const bool give = r.chance(0.5);
            R joined{};
            for (std::size_t i = 0; i + 1 < cuts.size(); ++i) {
                if (cuts[i + 1] - cuts[i] <= 4 * tol) {
                    cuts[i + 1] = cuts[i];
                    continue;
                }
                auto piece = give ? mg::substring(rich, cuts[i], cuts[i + 1], point_at(cuts[i]), point_at(cuts[i + 1]),
                        true, true) : mg::substring(rich, cuts[i], cuts[i + 1]);
                try {
                    joined.merge(std::move(piece));
                } catch (const mg::rich_line_merge_exception &e) {
                    ctx.fail("pieces_do_not_join", vh::cat("pieces of ", text, " at ", cuts[i], ": ", e.what()));
                    return;
                }
            }
            ctx.stat("lines_joined_again");
            check_part(joined, 0, cuts.back(), "joined pieces", cuts.size());
        }

        void run() {
            for (int i = 0; i < 6; ++i) {
                const bool monotone = r.chance(0.5);
                set(random_line(r, monotone));
                const R rich{as_line(line)};
                if (length() <= (is_plane<P> ? 0 : 16) * tol) {
                    ctx.require(length() > 0 or not mg::substring(rich, 0.0, 1.0).has_length(), "line_without_length", [&] {
                        return text;
                    });
                    continue;
                }
                if (r.chance(0.5)) {
                    (void) rich.length();
                }
                ctx.observe(vh::hash_str(text));
                for (int j = 0; j < 4; ++j) {
                    by_distance(rich);
                    if (monotone) {
                        by_points(rich);
                    }
                    pieces(rich);
                }
                if (same(line.front(), line.back())) {
                    ctx.stat("closed_lines");
                }
            }
            // lines without any segment
            const R empty{};
            ctx.require(mg::substring(empty, 0.0, 1.0).empty(), "part_of_empty", "part of an empty line is not empty");
            const R single{as_line(points{line.front()})};
            ctx.require(not mg::substring(single, 0.0, 1.0).has_length(), "part_of_point",
                    "part of a single point has length");
        }
    };

    template<typename R>
    void cut_type(vh::context &ctx, vh::rng &r) {
        cutter<R> c{ctx, r, {}, {}, {}, {}};
        c.run();
    }

    template<typename P>
    void cut(vh::context &ctx, vh::rng &r) {
        switch (r.range(0, 2)) {
            case 0:
                return cut_type<mg::rich_line<P>>(ctx, r);
            case 1:
                return cut_type<mg::lazy_rich_line<P>>(ctx, r);
            default:
                return cut_type<mg::eager_rich_line<P>>(ctx, r);
        }
    }

}

int main(int argc, char **argv) {
    return vh::run(argc, argv, {
            {"plane", cut<mg::point_type<mg::cs_cartesian>>, 6000, 200000, 20},
            {"sphere", cut<mg::point_type<mg::cs_spherical_equatorial>>, 1500, 30000, 20},
            {"ellipsoid", cut<mg::point_type<mg::cs_geographic>>, 1500, 30000, 20},
    });
}
