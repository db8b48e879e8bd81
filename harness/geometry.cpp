// Monitor: distances, bearings, turns and buffers against independent formulas, for every call history and thread.
#include "common/vh.hpp"

#include "types/geometry/point.hpp"
#include "geometry/point.hpp"
#include "geometry/types.hpp"
#include "geometry/algorithm/azimuth.hpp"
#include "geometry/algorithm/buffer.hpp"
#include "geometry/algorithm/direction.hpp"
#include "geometry/algorithm/distance.hpp"
#include "geometry/algorithm/equals.hpp"
#include "geometry/algorithm/length.hpp"
#include "geometry/algorithm/median.hpp"
#include "geometry/algorithm/reverse.hpp"

#include <bit>
#include <cmath>
#include <iomanip>
#include <sstream>
#include <numbers>
#include <thread>
#include <vector>

namespace {

    namespace g = map_matching_2::geometry;
    using real = long double;
    constexpr real pi = std::numbers::pi_v<real>;

    using plane = map_matching_2::geometry::cs_cartesian;
    using sphere = map_matching_2::geometry::cs_spherical_equatorial;
    using ellipsoid = map_matching_2::geometry::cs_geographic;

    template<typename CS> using point_of = g::point_type<CS>;

    struct xy {
        double x, y;
    };

    struct inverse {
        real distance;
        real azimuth; // degrees, of b as seen from a
        bool sure;
    };

    std::string full(double v) {
        std::ostringstream o;
        o << std::setprecision(17) << v;
        return o.str();
    }

    real rad(real deg) { return deg * (pi / 180); }
    real deg(real r) { return r * (180 / pi); }

    // independent formulas
    template<typename CS>
    inverse truth(const xy &a, const xy &b);

    template<>
    inverse truth<plane>(const xy &a, const xy &b) {
        const real dx = static_cast<real>(b.x) - a.x, dy = static_cast<real>(b.y) - a.y;
        return {std::sqrt(dx * dx + dy * dy), (dx == 0 and dy == 0) ? 0 : deg(std::atan2(dx, dy)), true};
    }

    // with vectors in space instead of trigonometry on the sphere
    template<>
    inverse truth<sphere>(const xy &a, const xy &b) {
        struct v3 { real x, y, z; };
        const auto at = [](const xy &p) -> v3 {
            const real l = rad(p.x), f = rad(p.y);
            return {std::cos(f) * std::cos(l), std::cos(f) * std::sin(l), std::sin(f)};
        };
        const auto dot = [](const v3 &u, const v3 &v) { return u.x * v.x + u.y * v.y + u.z * v.z; };
        const v3 u = at(a), v = at(b);
        const v3 d{v.x - u.x, v.y - u.y, v.z - u.z}, s{v.x + u.x, v.y + u.y, v.z + u.z};
        const real angle = 2 * std::atan2(std::sqrt(dot(d, d)), std::sqrt(dot(s, s)));
        const real l = rad(a.x), f = rad(a.y);
        const v3 east{-std::sin(l), std::cos(l), 0}, north{-std::sin(f) * std::cos(l), -std::sin(f) * std::sin(l), std::cos(f)};
        const real de = dot(d, east), dn = dot(d, north);
        return {angle * 6371000, (std::abs(de) < 1e-17L and std::abs(dn) < 1e-17L) ? 0 : deg(std::atan2(de, dn)), angle < pi - 1e-6L};
    }

    // Vincenty's iteration
    template<>
    inverse truth<ellipsoid>(const xy &a, const xy &b) {
        const real A = 6378137.0L, F = 1 / 298.257223563L, B = A * (1 - F);
        real l = rad(static_cast<real>(b.x) - a.x);
        l = std::remainder(l, 2 * pi);
        // reduced latitudes through sine and cosine so that the poles are exact
        const auto reduced = [&](real lat, real &s, real &c) {
            s = (1 - F) * std::sin(rad(lat));
            c = std::abs(lat) == 90 ? 0 : std::cos(rad(lat));
            const real n = std::hypot(s, c);
            s /= n;
            c /= n;
        };
        real s1, c1, s2, c2;
        reduced(a.y, s1, c1);
        reduced(b.y, s2, c2);
        real lambda = l, last, ss{}, cs{}, sigma{}, sa, ca2{}, cm{};
        for (int i = 0; i < 200; ++i) {
            const real sl = std::sin(lambda), cl = std::cos(lambda);
            ss = std::hypot(c2 * sl, c1 * s2 - s1 * c2 * cl);
            if (ss == 0) {
                return {0, 0, s1 * s2 + c1 * c2 * cl > 0}; // the same point or the opposite one
            }
            cs = s1 * s2 + c1 * c2 * cl;
            sigma = std::atan2(ss, cs);
            sa = c1 * c2 * sl / ss;
            ca2 = 1 - sa * sa;
            cm = ca2 == 0 ? 0 : cs - 2 * s1 * s2 / ca2;
            const real C = F / 16 * ca2 * (4 + F * (4 - 3 * ca2));
            last = lambda;
            lambda = l + (1 - C) * F * sa * (sigma + C * ss * (cm + C * cs * (-1 + 2 * cm * cm)));
            if (std::abs(lambda - last) < 1e-17L) {
                break;
            }
        }
        const real u2 = ca2 * (A * A - B * B) / (B * B);
        const real KA = 1 + u2 / 16384 * (4096 + u2 * (-768 + u2 * (320 - 175 * u2)));
        const real KB = u2 / 1024 * (256 + u2 * (-128 + u2 * (74 - 47 * u2)));
        const real ds = KB * ss * (cm + KB / 4 * (cs * (-1 + 2 * cm * cm) - KB / 6 * cm * (-3 + 4 * ss * ss) * (-3 + 4 * cm * cm)));
        const real sl = std::sin(lambda), cl = std::cos(lambda);
        return {B * KA * (sigma - ds), deg(std::atan2(c2 * sl, c1 * s2 - s1 * c2 * cl)), sigma < rad(170)};
    }

    real off(real a, real b) { return std::abs(std::remainder(a - b, 360.0L)); }

    template<typename CS>
    constexpr const char *name_of() { return std::same_as<CS, plane> ? "plane" : std::same_as<CS, sphere> ? "sphere" : "ellipsoid"; }

    template<typename CS>
    xy anywhere(vh::rng &r) {
        if constexpr (std::same_as<CS, plane>) {
            switch (r.range(0, 3)) {
                case 0: return {static_cast<double>(r.range(-5, 5)), static_cast<double>(r.range(-5, 5))};
                case 1: return {r.real(-1e7, 1e7), r.real(-1e7, 1e7)};
                case 2: return {r.real(-1e3, 1e3), r.real(-1e3, 1e3)};
                default: return {r.chance(0.5) ? 0.0 : -0.0, r.chance(0.5) ? r.real(-10, 10) : -0.0};
            }
        } else {
            static constexpr double xs[] = {-180, 180, 0, -0.0, 90, -90, 179.9999999, -179.9999999, 179.99, -179.99, 1e-7, 45, -135};
            static constexpr double ys[] = {-90, 90, 0, -0.0, 45, -45, 89.9999999, -89.9999999, 89.99, -89.99, 1e-7};
            xy out{r.real(-180, 180), r.real(-90, 90)};
            if (r.chance(0.3)) { out.x = xs[r.range(0, 12)]; }
            if (r.chance(0.3)) { out.y = ys[r.range(0, 10)]; }
            if (r.chance(0.2)) { out.x = static_cast<double>(r.range(-180, 180)); }
            if (r.chance(0.2)) { out.y = static_cast<double>(r.range(-90, 90)); }
            return out;
        }
    }

    template<typename CS>
    xy related(vh::rng &r, const xy &a) {
        switch (r.range(0, 8)) {
            case 0: return a;
            case 1: case 2: case 3: { // as far as points of tracks and roads
                xy out = a;
                const double s = std::same_as<CS, plane> ? std::pow(10.0, r.real(-3, 5)) : std::pow(10.0, r.real(-6, 1));
                out.x += r.chance(0.2) ? 0.0 : s * r.real(-1, 1);
                out.y += r.chance(0.2) ? 0.0 : s * r.real(-1, 1);
                if constexpr (not std::same_as<CS, plane>) {
                    if (out.y > 90) { out.y = 90; }
                    if (out.y < -90) { out.y = -90; }
                    if (out.x > 180) { out.x -= 360; }
                    if (out.x < -180) { out.x += 360; }
                }
                return out;
            }
            case 4: { auto out = anywhere<CS>(r); out.x = a.x; return out; }
            case 5: { auto out = anywhere<CS>(r); out.y = a.y; return out; }
            case 6: {
                if constexpr (not std::same_as<CS, plane>) {
                    return r.chance(0.5) ? xy{a.x > 0 ? a.x - 180 : a.x + 180, r.chance(0.5) ? -a.y : a.y} : xy{-a.x, a.y};
                }
                return {-a.x, -a.y};
            }
            default: return anywhere<CS>(r);
        }
    }

    // how far results may be from the truth, in metres and degrees
    template<typename CS>
    real distance_tolerance(const inverse &t) {
        if constexpr (std::same_as<CS, plane>) {
            return 1e-12L * t.distance;
        } else if constexpr (std::same_as<CS, sphere>) {
            return t.sure ? 1e-9L * t.distance + 1e-7L : 100.0L;
        } else {
            return (t.distance > 1.5e7L ? 1e-4L : 2e-5L) * t.distance + (t.distance < 1 ? 0.5L : 0.05L); // its formula is a series
        }
    }

    template<typename CS>
    bool azimuth_decided(const inverse &t) {
        if constexpr (std::same_as<CS, plane>) {
            return t.distance > 0;
        } else if constexpr (std::same_as<CS, sphere>) {
            return t.sure and t.distance > 0.05L;
        } else {
            return t.sure and t.distance > 1;
        }
    }

    template<typename CS>
    real azimuth_tolerance(const inverse &t) {
        if constexpr (std::same_as<CS, plane>) {
            return 1e-10L;
        } else if constexpr (std::same_as<CS, sphere>) {
            return 1e-8L + 1e-5L / std::min(t.distance, std::abs(pi * 6371000 - t.distance)); // neither is it known well at opposite points
        } else {
            return t.distance > 1e7L ? 0.2L : 2e-3L;
        }
    }

    template<typename CS>
    void pairs(vh::context &ctx, vh::rng &r) {
        using point = point_of<CS>;
        using models = g::models<point>;
        using segment = typename models::segment_type;
        using line = typename models::template line_type<>;
        if (r.chance(0.5)) {
            g::disable_cache();
        } else {
            g::enable_cache();
            if (r.chance(0.1)) { g::reset_distance_cache(); }
            if (r.chance(0.1)) { g::reset_azimuth_cache(); }
        }
        std::vector<xy> at{anywhere<CS>(r)};
        const auto count = r.range(1, 6);
        while (static_cast<std::int64_t>(at.size()) < count) {
            at.push_back(r.chance(0.15) ? at[r.range(0, static_cast<std::int64_t>(at.size()) - 1)] : related<CS>(r, at.back()));
        }
        line l;
        for (const auto &p : at) { l.emplace_back(p.x, p.y); }
        const auto text = [&] {
            std::ostringstream o;
            o << std::setprecision(17) << name_of<CS>() << (g::use_distance_cache ? " cached" : "");
            for (const auto &p : at) { o << " (" << p.x << " " << p.y << ")"; }
            return o.str();
        };
        ctx.stat(name_of<CS>());
        ctx.observe(vh::hash_str(text()));

        real total = 0, total_tolerance = 1e-9L;
        bool all_sure = true;
        std::vector<segment> segments;
        std::vector<double> azimuths;
        for (std::size_t i = 0; i + 1 < l.size(); ++i) {
            const auto t = truth<CS>(at[i], at[i + 1]);
            const auto say = [&](const char *what, double got, real expected) {
                return [&, what, got, expected] { return vh::cat(text(), "; pair ", i, ": ", what, " ", full(got), " instead of ", full(static_cast<double>(expected))); };
            };
            const auto tolerance = distance_tolerance<CS>(t);
            total += t.distance;
            total_tolerance += tolerance;
            all_sure &= t.sure;
            if (t.sure or std::same_as<CS, sphere>) {
                const double d = g::distance(l[i], l[i + 1]), e = g::point_distance(l[i], l[i + 1]), f = g::point_distance(l[i + 1], l[i]);
                ctx.require(std::abs(d - t.distance) <= tolerance, "distance", say("distance", d, t.distance));
                ctx.require(std::abs(e - t.distance) <= tolerance, "distance", say("point distance", e, t.distance));
                ctx.require(std::abs(f - t.distance) <= tolerance, "distance", say("distance back", f, t.distance));
                ctx.require(d >= 0 and e >= 0, "distance", say("distance", d, t.distance));
                ctx.stat("distances");
            }
            if (g::equals_points(l[i], l[i + 1])) {
                ctx.require(g::point_distance(l[i], l[i + 1]) == 0, "distance of coincident points", text);
                ctx.stat("coincident");
            }
            const double az = g::azimuth_deg(l[i], l[i + 1]);
            ctx.require(az >= -180.0000001 and az <= 180.0000001, "bearing range", say("bearing", az, t.azimuth));
            if (azimuth_decided<CS>(t)) {
                ctx.require(off(az, t.azimuth) <= azimuth_tolerance<CS>(t), "bearing", say("bearing", az, t.azimuth));
                ctx.require(vh::close(g::azimuth_rad(l[i], l[i + 1]) * 180 / M_PI, az, 1e-12, 1e-12), "bearing in radians", text);
                ctx.stat("bearings");
            }
            if constexpr (std::same_as<CS, plane>) {
                ctx.require(vh::close(g::euclidean_distance(l[i], l[i + 1]), static_cast<double>(t.distance), 1e-12, 0), "euclidean distance", text);
            }
            if constexpr (not std::same_as<CS, plane>) {
                if (std::abs(at[i].y) == 90 or std::abs(at[i + 1].y) == 90) { ctx.stat("poles"); }
                if (std::abs(at[i].x - at[i + 1].x) > 180) { ctx.stat("date_line"); }
            }
            segments.emplace_back(l[i], l[i + 1]);
            azimuths.push_back(az);
            ctx.require(g::length_segment(segments.back()) == g::point_distance(l[i], l[i + 1]), "length of a segment", text);
            ctx.require(g::azimuth_segment_deg(segments.back()) == az, "bearing of a segment", text);
            ctx.require(static_cast<bool>(g::equals_points_segment(segments.back())) == (at[i].x == at[i + 1].x and at[i].y == at[i + 1].y),
                    "segment without length", text);
        }
        if (all_sure) {
            const double length = g::length(l);
            ctx.require(std::abs(length - total) <= total_tolerance, "length of a line", [&] {
                return vh::cat(text(), "; length ", full(length), " instead of ", full(static_cast<double>(total)));
            });
            ctx.stat("lengths");
        }
        if (l.size() >= 2) {
            ctx.require(g::azimuth_line_deg(l) == g::azimuth_deg(l.front(), l.back()), "bearing of a line", text);
        } else {
            ctx.require(g::azimuth_line_deg(l) == 0, "bearing of a line", text);
        }

        // turns
        real turns = 0, absolute = 0, turn_tolerance = 1e-9L;
        bool straight_back = false, decided = true;
        for (std::size_t i = 0; i + 2 < l.size(); ++i) {
            const auto t1 = truth<CS>(at[i], at[i + 1]), t2 = truth<CS>(at[i + 1], at[i + 2]);
            const double turn = g::direction_deg(l[i], l[i + 1], l[i + 2]);
            const auto say = [&] { return vh::cat(text(), "; turn ", i, ": ", full(turn), ", bearings ", full(static_cast<double>(t1.azimuth)), ", ",
                    full(static_cast<double>(t2.azimuth))); };
            ctx.require(turn >= -180.0000001 and turn <= 180.0000001, "turn range", say);
            if (azimuth_decided<CS>(t1) and azimuth_decided<CS>(t2)) {
                const auto tolerance = azimuth_tolerance<CS>(t1) + azimuth_tolerance<CS>(t2);
                real expected = std::remainder(t1.azimuth - t2.azimuth, 360.0L);
                ctx.require(off(turn, expected) <= tolerance, "turn", say);
                if constexpr (std::same_as<CS, plane>) { // independent of bearings
                    const real ux = static_cast<real>(at[i + 1].x) - at[i].x, uy = static_cast<real>(at[i + 1].y) - at[i].y;
                    const real vx = static_cast<real>(at[i + 2].x) - at[i + 1].x, vy = static_cast<real>(at[i + 2].y) - at[i + 1].y;
                    ctx.require(off(turn, deg(std::atan2(ux * vy - uy * vx, ux * vx + uy * vy))) <= 1e-9L, "turn to the left is positive", say);
                }
                straight_back |= std::abs(std::abs(expected) - 180) <= tolerance;
                if (std::abs(std::abs(expected) - 180) <= tolerance) { ctx.stat("turned_back"); }
                turns += expected;
                absolute += std::abs(expected);
                turn_tolerance += tolerance;
                ctx.stat("turns");
            } else {
                decided = false;
            }
        }
        if (decided) {
            const auto combined = g::combined_directions_deg(l);
            const double d = g::directions_deg(l), a = g::absolute_directions_deg(l);
            const auto say = [&] { return vh::cat(text(), "; turns ", full(d), ", absolute ", full(a)); };
            ctx.require(std::abs(a - absolute) <= turn_tolerance and vh::close(combined.second, a), "turns in total", say);
            ctx.require((straight_back ? off(d, turns) : std::abs(d - turns)) <= turn_tolerance and vh::close(combined.first, d), "turns in total", say);
        }
        const auto directions = g::segments_directions_deg(segments), absolutes = g::segments_absolute_directions_deg(segments);
        const auto from_azimuths = g::segments_directions_deg(segments, azimuths), absolute_from = g::segments_absolute_directions_deg(segments, azimuths);
        const auto combined = g::segments_combined_directions_deg(segments), combined_from = g::segments_combined_directions_deg(segments, azimuths);
        std::vector<double> expected, expected_absolute;
        for (std::size_t i = 0; i + 2 < l.size(); ++i) {
            expected.push_back(g::direction_deg(l[i], l[i + 1], l[i + 2]));
            expected_absolute.push_back(std::fabs(expected.back()));
        }
        ctx.require(directions == expected and from_azimuths == expected and combined.first == expected and combined_from.first == expected,
                "turns of segments", text);
        ctx.require(absolutes == expected_absolute and absolute_from == expected_absolute and combined.second == expected_absolute and
                combined_from.second == expected_absolute, "turns of segments", text);
        const auto lengths = g::segments_lengths(segments);
        const auto segment_azimuths = g::segments_azimuths_deg(segments);
        ctx.require(segment_azimuths == azimuths and lengths.size() == segments.size(), "bearings of segments", text);
        if (segments.empty()) { ctx.stat("no_segments"); }

        // equality and order of points, reversed lines
        for (const auto &p : l) {
            for (const auto &q : l) {
                const bool same = p.template get<0>() == q.template get<0>() and p.template get<1>() == q.template get<1>();
                const bool less = p.template get<0>() < q.template get<0>() or
                        (p.template get<0>() == q.template get<0>() and p.template get<1>() < q.template get<1>());
                ctx.require((p == q) == same and (p != q) == not same and g::equals_points(p, q) == same, "equal points", text);
                ctx.require((p < q) == less and (p >= q) == not less and (p <= q) == (less or same) and (p > q) == (not less and not same), "order of points", text);
                if (same) { ctx.require(std::hash<point>{}(p) == std::hash<point>{}(q), "equal points have equal hashes", text); }
            }
        }
        line back{l.rbegin(), l.rend()};
        ctx.require(g::lines_are_reversed(l, back), "reversed line", text);
        if (l.size() >= 2) {
            const auto i = static_cast<std::size_t>(r.range(0, static_cast<std::int64_t>(back.size()) - 1));
            back[i] = point{back[i].template get<0>(), back[i].template get<1>() + (back[i].template get<1>() > 0 ? -1 : 1)};
            ctx.require(not g::lines_are_reversed(l, back), "other line is not reversed", text);
        }
    }

    // where one arrives after a distance into a direction
    template<typename CS>
    xy destination(const xy &a, real azimuth, real distance) {
        if constexpr (std::same_as<CS, plane>) {
            return {static_cast<double>(a.x + distance * std::sin(rad(azimuth))), static_cast<double>(a.y + distance * std::cos(rad(azimuth)))};
        } else {
            // buffers on the sphere are computed on the ellipsoid, too
            const real A = 6378137.0L, F = 1 / 298.257223563L, B = A * (1 - F);
            const real tu = (1 - F) * std::tan(rad(a.y)), cu = 1 / std::sqrt(1 + tu * tu), su = tu * cu;
            const real sa1 = std::sin(rad(azimuth)), ca1 = std::cos(rad(azimuth));
            const real s1 = std::atan2(tu, ca1), sa = cu * sa1, c2a = 1 - sa * sa, u2 = c2a * (A * A - B * B) / (B * B);
            const real KA = 1 + u2 / 16384 * (4096 + u2 * (-768 + u2 * (320 - 175 * u2)));
            const real KB = u2 / 1024 * (256 + u2 * (-128 + u2 * (74 - 47 * u2)));
            real s = distance / (B * KA), cm{}, ss{}, cs{};
            for (int i = 0; i < 50; ++i) {
                cm = std::cos(2 * s1 + s);
                ss = std::sin(s);
                cs = std::cos(s);
                s = distance / (B * KA) + KB * ss * (cm + KB / 4 * (cs * (-1 + 2 * cm * cm) - KB / 6 * cm * (-3 + 4 * ss * ss) * (-3 + 4 * cm * cm)));
            }
            const real t = su * ss - cu * cs * ca1;
            const real lat = std::atan2(su * cs + cu * ss * ca1, (1 - F) * std::sqrt(sa * sa + t * t));
            const real lam = std::atan2(ss * sa1, cu * cs - su * ss * ca1);
            const real C = F / 16 * c2a * (4 + F * (4 - 3 * c2a));
            const real l = lam - (1 - C) * F * sa * (s + C * ss * (cm + C * cs * (-1 + 2 * cm * cm)));
            return {static_cast<double>(a.x + deg(l)), static_cast<double>(deg(lat))};
        }
    }

    template<typename CS>
    void buffers(vh::context &ctx, vh::rng &r) {
        using point = point_of<CS>;
        xy a = anywhere<CS>(r);
        const double radius = r.chance(0.3) ? static_cast<double>(r.range(1, 500)) : std::pow(10.0, r.real(0, 3.7));
        if constexpr (not std::same_as<CS, plane>) {
            a.y = std::clamp(a.y, -85.0, 85.0); // further, a buffer may contain a pole
        }
        const point p{a.x, a.y};
        const auto text = [&] { return vh::cat(std::setprecision(17), name_of<CS>(), " (", a.x, " ", a.y, ") radius ", radius); };
        ctx.observe(vh::hash_str(text()));
        const auto t_of = [&](const point &q) { return truth<CS>(a, {q.template get<0>(), q.template get<1>()}); };
        // buffers on the sphere are those of the ellipsoid
        const real slack = std::same_as<CS, plane> ? 1e-9L * radius + 4e-15L * (std::abs(a.x) + std::abs(a.y)) : std::same_as<CS, sphere> ? 0.007L * radius : 1e-3L * radius + 0.05L;

        const auto points = r.chance(0.5) ? std::size_t{0} : std::size_t{1} << r.range(2, 6);
        const auto buffer = points ? g::buffer(p, radius, points) : g::buffer(p, radius);
        ctx.require(buffer.size() == 1 and buffer.front().inners().empty(), "buffer is one area", [&] { return vh::cat(text(), ": ", buffer.size()); });
        const auto &ring = buffer.front().outer();
        const auto expected = points ? points : std::max<std::size_t>(8, std::bit_ceil(static_cast<std::size_t>(radius / 4)));
        ctx.require(ring.size() == expected + 1, "buffer has as many points as wanted", [&] { return vh::cat(text(), ": ", ring.size() - 1, " instead of ", expected); });
        for (const auto &q : ring) {
            const auto t = t_of(q);
            ctx.require(std::abs(t.distance - radius) <= slack, "buffer has the radius", [&] { return vh::cat(text(), ": ", full(static_cast<double>(t.distance))); });
            ctx.stat("buffer_points");
        }

        const auto box = g::buffer_box(p, radius);
        const auto contains = [&](const auto &box, const xy &q, real within) {
            real dx = within, dy = within;
            if constexpr (not std::same_as<CS, plane>) {
                dy = within / 110000.0L;
                dx = dy / std::cos(rad(a.y));
            }
            const auto y = q.y >= box.min_corner().template get<1>() - dy and q.y <= box.max_corner().template get<1>() + dy;
            const auto in = [&](real x) { return x >= box.min_corner().template get<0>() - dx and x <= box.max_corner().template get<0>() + dx; };
            return y and (in(q.x) or (not std::same_as<CS, plane> and (in(q.x + 360.0L) or in(q.x - 360.0L))));
        };
        const auto say = [&](const xy &q, const auto &box) {
            return [&, q] { return vh::cat(std::setprecision(17), text(), ": (", q.x, " ", q.y, ") in ", boost::geometry::wkt(box)); };
        };
        for (int i = 0; i < 16; ++i) {
            const real azimuth = r.chance(0.5) ? 90.0L * static_cast<real>(r.range(0, 3)) : static_cast<real>(r.real(-180, 180));
            const auto inside = destination<CS>(a, azimuth, radius);
            ctx.require(contains(box, inside, slack), "box contains everything within the radius", say(inside, box));
            ctx.stat("box_inside");
        }
        for (int i = 0; i < 4; ++i) {
            const auto outside = destination<CS>(a, 90.0L * i, radius * 1.05 + 1);
            ctx.require(not contains(box, outside, 0), "box is not larger than necessary", say(outside, box));
            ctx.stat("box_outside");
        }
        if constexpr (not std::same_as<CS, plane>) {
            if (180 - std::abs(a.x) < 0.01) { ctx.stat("boxes_at_date_line"); }
        }
        if (std::same_as<CS, plane> or std::abs(a.x) < 170) {
            const auto b = destination<CS>(a, r.real(-180, 180), r.real(0, 1000));
            const auto segment = typename g::models<point>::segment_type{p, point{b.x, b.y}};
            const auto segment_box = g::segment_buffer_box(segment, radius);
            for (const auto &end : {a, b}) {
                const auto inside = destination<CS>(end, static_cast<real>(r.real(-180, 180)), radius);
                ctx.require(contains(segment_box, inside, slack), "box of a segment contains everything within the radius of its ends", say(inside, segment_box));
            }
            ctx.stat("segment_boxes");
        }
        for (const double none : {0.0, -1.0}) {
            bool thrown = false;
            try {
                (void)g::buffer(p, none, 8);
            } catch (const std::invalid_argument &) {
                thrown = true;
            }
            ctx.require(thrown, "buffers need a radius", text);
        }
    }

    // angles and medians
    void numbers(vh::context &ctx, vh::rng &r) {
        const auto angle = [&] { return r.chance(0.4) ? static_cast<double>(r.range(-4, 4)) * 45 : r.real(-180, 180); };
        const double a = angle(), b = angle();
        const auto text = [&] { return vh::cat(full(a), " ", full(b)); };
        const double d = g::angle_diff(a, b);
        ctx.require(d >= -180 and d <= 180 and off(static_cast<real>(d), static_cast<real>(a) - b) < 1e-9L, "difference of angles",
                [&] { return vh::cat(text(), ": ", full(d)); });
        ctx.require(vh::close(g::deg2rad(a), static_cast<double>(rad(a)), 1e-14, 1e-300) and vh::close(g::rad2deg(g::deg2rad(a)), a, 1e-14, 1e-300), "degrees and radians", text);
        const auto n = r.chance(0.5) ? static_cast<std::uint64_t>(r.range(1, 5000)) : static_cast<std::uint64_t>(r.range(1, std::int64_t{1} << 62));
        ctx.require(g::next_pow2(n) == std::bit_ceil(n), "next power of two", [&] { return vh::cat(n, ": ", g::next_pow2(n)); });

        std::vector<double> values(static_cast<std::size_t>(r.range(1, 12)));
        for (auto &v : values) { v = r.chance(0.5) ? static_cast<double>(r.range(-3, 3)) : r.real(-1e6, 1e6); }
        const auto median_of = [](std::vector<double> v) {
            std::sort(v.begin(), v.end());
            return v.size() % 2 ? v[v.size() / 2] : (v[v.size() / 2 - 1] + v[v.size() / 2]) / 2;
        };
        const auto say = [&] {
            std::ostringstream o;
            for (const auto v : values) { o << full(v) << " "; }
            return o.str();
        };
        auto copy = values;
        const double m = g::median(copy);
        ctx.require(m == median_of(values), "median", [&] { return vh::cat(say(), ": ", full(m)); });
        auto deviations = values;
        for (auto &v : deviations) { v = std::abs(v - median_of(values)); }
        copy = values;
        const double mad = g::median_absolute_deviation(copy);
        ctx.require(mad == median_of(deviations), "median absolute deviation", [&] { return vh::cat(say(), ": ", full(mad)); });
        std::vector<point_of<plane>> points;
        std::vector<double> xs, ys;
        for (const auto v : values) {
            points.emplace_back(v, r.real(-5, 5));
            xs.push_back(v);
            ys.push_back(points.back().get<1>());
        }
        const auto p = g::median_point(points);
        ctx.require(p.get<0>() == median_of(xs) and p.get<1>() == median_of(ys), "median point", say);
        ctx.stat("angles");
        ctx.stat("medians");
        ctx.observe(vh::hash_str(text()));
    }

    // the same results from every thread and regardless of what was computed before
    struct query {
        int system{}, kind{};
        xy a, b;
    };

    double answer(const query &q) {
        const auto ask = [&]<typename CS>(CS) -> double {
            const point_of<CS> a{q.a.x, q.a.y}, b{q.b.x, q.b.y};
            return q.kind == 0 ? g::point_distance(a, b) : g::azimuth_deg(a, b);
        };
        return q.system == 0 ? ask(plane{}) : q.system == 1 ? ask(sphere{}) : ask(ellipsoid{});
    }

    void histories(vh::context &ctx, vh::rng &r) {
        std::vector<query> queries;
        const int systems = static_cast<int>(r.range(0, 3)); // all of them or one
        for (int i = 0; i < 40; ++i) {
            query q{systems == 3 ? static_cast<int>(r.range(0, 2)) : systems, static_cast<int>(r.range(0, 1)), {}, {}};
            if (not queries.empty() and r.chance(0.6)) {
                const auto &other = queries[r.range(0, static_cast<std::int64_t>(queries.size()) - 1)];
                q.a = other.a;
                q.b = other.b;
                if (r.chance(0.3)) { std::swap(q.a, q.b); }
                if (r.chance(0.2)) { q.b = other.a; }
                if (r.chance(0.1)) { std::swap(q.b.x, q.b.y); q.b.y /= 2; }
                if (r.chance(0.1)) { std::swap(q.a.x, q.b.x); }
            } else {
                q.a = anywhere<ellipsoid>(r);
                q.b = related<ellipsoid>(r, q.a);
            }
            queries.push_back(q);
        }
        g::disable_cache();
        std::vector<double> expected;
        for (const auto &q : queries) { expected.push_back(answer(q)); }
        g::enable_cache();
        const auto threads = r.range(1, 4);
        std::vector<std::string> wrong(static_cast<std::size_t>(threads));
        std::vector<std::size_t> asked(static_cast<std::size_t>(threads));
        const auto work = [&](std::size_t t, std::uint64_t seed) {
            vh::rng own{seed};
            for (int i = 0; i < 200; ++i) {
                const auto k = static_cast<std::size_t>(own.range(0, static_cast<std::int64_t>(queries.size()) - 1));
                if (own.chance(0.01)) { g::reset_distance_cache(); }
                if (own.chance(0.01)) { g::reset_azimuth_cache(); }
                const double got = answer(queries[k]);
                ++asked[t];
                const auto &[system, kind, a, b] = queries[k];
                // coincident points have no bearing, with negative zeros any may be given
                const bool same = kind == 0 ? got == expected[k] : off(got, expected[k]) < 1e-9L or (a.x == b.x and a.y == b.y);
                if (not same and wrong[t].empty()) {
                    const auto &q = queries[k];
                    wrong[t] = vh::cat(std::setprecision(17), q.kind == 0 ? "distance" : "bearing", " in system ", q.system, " from (", q.a.x, " ", q.a.y, ") to (",
                            q.b.x, " ", q.b.y, ") was ", expected[k], " without other computations, is ", got);
                }
            }
        };
        std::vector<std::thread> running;
        for (std::int64_t t = 1; t < threads; ++t) { running.emplace_back(work, static_cast<std::size_t>(t), r.next()); }
        work(0, r.next());
        for (auto &t : running) { t.join(); }
        for (std::size_t t = 0; t < wrong.size(); ++t) {
            ctx.stat("cached_queries", asked[t]);
            ctx.require(wrong[t].empty(), "results depend on earlier computations", wrong[t]);
        }
        ctx.stat(systems == 3 ? "mixed_systems" : "single_system");
        if (threads > 1) { ctx.stat("threads"); }
        ctx.observe(r.next());
    }

}

int main(int argc, char **argv) {
    return vh::run(argc, argv, {
#ifdef VERIF_HISTORIES
            {"histories", histories, 1500, 60000},
#else
            {"pairs-plane", pairs<plane>, 60000, 2000000},
            {"pairs-sphere", pairs<sphere>, 60000, 2000000},
            {"pairs-ellipsoid", pairs<ellipsoid>, 60000, 2000000},
            {"buffers-plane", buffers<plane>, 3000, 60000},
            {"buffers-sphere", buffers<sphere>, 2000, 40000},
            {"buffers-ellipsoid", buffers<ellipsoid>, 2000, 40000},
            {"numbers", numbers, 30000, 600000},
            {"histories", histories, 3000, 60000},
#endif
    });
}
