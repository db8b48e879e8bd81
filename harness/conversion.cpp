// Monitor: coordinates converted between reference systems against the formulas of the projections, and the chosen systems.
#include "common/vh.hpp"

#include "geometry/algorithm/reproject.hpp"
#include "geometry/algorithm/srs_dispatch.hpp"
#include "geometry/network/node.hpp"
#include "geometry/srs.hpp"
#include "types/geometry/point.hpp"
#include "types/geometry/reprojector.hpp"
#include "types/geometry/track/measurement.hpp"
#include "types/geometry/track/multi_track.hpp"
#include "types/geometry/track/track.hpp"

#include <array>
#include <cmath>
#include <functional>
#include <numbers>
#include <string>
#include <thread>
#include <vector>

namespace {

    namespace g = map_matching_2::geometry;
    using g::SRS;

    struct xy {
        double x{}, y{};
    };
    constexpr double pi = std::numbers::pi, deg = pi / 180;

    // the formulas -----------------------------------------------------------------------------------------------------------------

    struct ellipsoid {
        double a, f;
        [[nodiscard]] double e2() const { return f * (2 - f); }
        [[nodiscard]] double e() const { return std::sqrt(e2()); }
    };
    constexpr ellipsoid wgs84{6378137, 1 / 298.257223563}, grs80{6378137, 1 / 298.257222101}, bessel{6377397.155, 1 / 299.1528128},
            airy{6377563.396, 1 - 6356256.910 / 6377563.396};

    using helmert = std::array<double, 7>;
    constexpr helmert potsdam{598.1, 73.7, 418.2, 0.202, 0.045, -2.455, 6.7}, osgb{446.448, -125.157, 542.060, 0.1502, 0.2470, 0.8421, -20.4894};

    using xyz = std::array<double, 3>;

    xyz to_space(const ellipsoid &l, xy p) {
        const double s = std::sin(p.y * deg), n = l.a / std::sqrt(1 - l.e2() * s * s), c = std::cos(p.y * deg);
        return {n * c * std::cos(p.x * deg), n * c * std::sin(p.x * deg), n * (1 - l.e2()) * s};
    }

    xy from_space(const ellipsoid &l, const xyz &q) {
        const double d = std::hypot(q[0], q[1]);
        double phi = std::atan2(q[2], d * (1 - l.e2()));
        for (int i = 0; i < 20; ++i) {
            const double s = std::sin(phi), n = l.a / std::sqrt(1 - l.e2() * s * s);
            phi = std::atan2(q[2] + l.e2() * n * s, d);
        }
        return {std::atan2(q[1], q[0]) / deg, phi / deg};
    }

    // from WGS84 to another datum
    xy shift(const ellipsoid &l, const helmert &h, xy p) {
        const auto q = to_space(wgs84, p);
        const double sec = deg / 3600, m = 1 + h[6] * 1e-6, rx = h[3] * sec, ry = h[4] * sec, rz = h[5] * sec;
        const double x = (q[0] - h[0]) / m, y = (q[1] - h[1]) / m, z = (q[2] - h[2]) / m;
        return from_space(l, {x + rz * y - ry * z, -rz * x + y + rx * z, ry * x - rx * y + z});
    }

    // transverse mercator by the series of Krueger
    xy transverse(const ellipsoid &l, xy p, double lat0, double lon0, double k, double x0, double y0) {
        const double n = l.f / (2 - l.f), n2 = n * n, n3 = n2 * n, n4 = n3 * n;
        const double big = l.a / (1 + n) * (1 + n2 / 4 + n4 / 64);
        const double al[] = {n / 2 - 2 * n2 / 3 + 5 * n3 / 16 + 41 * n4 / 180, 13 * n2 / 48 - 3 * n3 / 5 + 557 * n4 / 1440, 61 * n3 / 240 - 103 * n4 / 140, 49561 * n4 / 161280};
        const auto at = [&](double lon, double lat) -> xy {
            const double s = std::sin(lat), e = l.e(), t = std::sinh(std::atanh(s) - e * std::atanh(e * s));
            const double xi = std::atan2(t, std::cos(lon)), eta = std::asinh(std::sin(lon) / std::hypot(t, std::cos(lon)));
            double x = eta, y = xi;
            for (int j = 1; j <= 4; ++j) {
                x += al[j - 1] * std::cos(2 * j * xi) * std::sinh(2 * j * eta);
                y += al[j - 1] * std::sin(2 * j * xi) * std::cosh(2 * j * eta);
            }
            return {big * x, big * y};
        };
        const auto q = at((p.x - lon0) * deg, p.y * deg), o = at(0, lat0 * deg);
        return {x0 + k * q.x, y0 + k * (q.y - o.y)};
    }

    xy web_mercator(xy p) { return {wgs84.a * p.x * deg, wgs84.a * std::asinh(std::tan(p.y * deg))}; }

    xy world_mercator(xy p) {
        const double e = wgs84.e(), s = std::sin(p.y * deg);
        return {wgs84.a * p.x * deg, wgs84.a * (std::atanh(s) - e * std::atanh(e * s))};
    }

    // Lambert's conformal cone, France
    xy conformal_cone(xy p) {
        const auto &l = grs80;
        const double e = l.e();
        const auto t = [&](double lat) { return std::tan(pi / 4 - lat / 2) / std::pow((1 - e * std::sin(lat)) / (1 + e * std::sin(lat)), e / 2); };
        const auto m = [&](double lat) { return std::cos(lat) / std::sqrt(1 - l.e2() * std::sin(lat) * std::sin(lat)); };
        const double l1 = 49 * deg, l2 = 44 * deg;
        const double n = std::log(m(l1) / m(l2)) / std::log(t(l1) / t(l2)), f = m(l1) / (n * std::pow(t(l1), n));
        const auto rho = [&](double lat) { return l.a * f * std::pow(t(lat), n); };
        const double angle = n * (p.x - 3) * deg, r = rho(p.y * deg), r0 = rho(46.5 * deg);
        return {700000 + r * std::sin(angle), 6600000 + r0 - r * std::cos(angle)};
    }

    // Lambert's equal area, Europe
    xy equal_area(xy p) {
        const auto &l = grs80;
        const double e = l.e(), e2 = l.e2();
        const auto q = [&](double lat) {
            const double s = std::sin(lat);
            return (1 - e2) * (s / (1 - e2 * s * s) + std::atanh(e * s) / e);
        };
        const double lat0 = 52 * deg, qp = q(pi / 2), b0 = std::asin(q(lat0) / qp), b = std::asin(q(p.y * deg) / qp), d = (p.x - 10) * deg;
        const double rq = l.a * std::sqrt(qp / 2), m = l.a * std::cos(lat0) / std::sqrt(1 - e2 * std::sin(lat0) * std::sin(lat0)), dd = m / (rq * std::cos(b0));
        const double k = rq * std::sqrt(2 / (1 + std::sin(b0) * std::sin(b) + std::cos(b0) * std::cos(b) * std::cos(d)));
        return {4321000 + k * dd * std::cos(b) * std::sin(d), 3210000 + k / dd * (std::cos(b0) * std::sin(b) - std::sin(b0) * std::cos(b) * std::cos(d))};
    }

    // the reference systems ---------------------------------------------------------------------------------------------------------

    struct code {
        std::int32_t epsg;
        bool degrees;
        double west, south, east, north; // area of use
        std::function<xy(xy)> at; // of a place in WGS84, if its formula is known
        double accuracy; // in meters
        // how it relates to WGS84: the same, by a shift, or not known to the library, which then takes it for the same
        [[nodiscard]] bool shifted() const { return epsg == 4314 or epsg == 4277 or epsg == 27700 or epsg == 21781 or (epsg >= 31466 and epsg <= 31469); }
        [[nodiscard]] bool unknown() const { return epsg == 4258 or epsg == 3035 or epsg == 28992 or (epsg >= 25800 and epsg < 25900); }
    };

    // are the systems both related to WGS84
    bool related(const code &a, const code &b) { return not(a.shifted() and b.unknown()) and not(a.unknown() and b.shifted()); }

    const std::vector<code> &codes() {
        static const auto all = [] {
            const auto same = [](xy p) { return p; };
            std::vector<code> c{
                    {4326, true, -180, -90, 180, 90, same, 1e-6},
                    {4258, true, -16, 33, 40, 84, same, 2e-3},
                    {4269, true, -170, 15, -50, 84, same, 2e-3},
                    {4171, true, -9, 41, 10, 51, same, 2e-3},
                    {4314, true, 5.9, 47.3, 15, 55, [](xy p) { return shift(bessel, potsdam, p); }, 1e-2},
                    {4277, true, -8, 50, 1.7, 60.8, [](xy p) { return shift(airy, osgb, p); }, 1e-2},
                    {3857, false, -180, -85, 180, 85, web_mercator, 1e-5},
                    {3395, false, -180, -80, 180, 84, world_mercator, 1e-5},
                    {2154, false, -9, 41, 10, 51, conformal_cone, 2e-3},
                    {3035, false, -10, 35, 32, 71, equal_area, 1e-2},
                    {27700, false, -7.5, 50, 1.7, 60.8, [](xy p) { return transverse(airy, shift(airy, osgb, p), 49, -2, 0.9996012717, 400000, -100000); }, 5e-2},
                    {2193, false, 169.5, -47, 176.5, -34.5, [](xy p) { return transverse(grs80, p, 0, 173, 0.9996, 1600000, 10000000); }, 1e-2},
                    {28992, false, 3.4, 50.8, 7.2, 53.5, {}, 1e-2},
                    {21781, false, 6, 45.9, 10.4, 47.8, {}, 1e-2},
                    {3031, false, -179, -89, 179, -62, {}, 1e-2},
            };
            for (int zone = 1; zone <= 60; ++zone) {
                const double m = zone * 6 - 183.0;
                c.push_back({32600 + zone, false, m - 3, 0, m + 3, 84, [m](xy p) { return transverse(wgs84, p, 0, m, 0.9996, 500000, 0); }, 1e-2});
                c.push_back({32700 + zone, false, m - 3, -80, m + 3, 0, [m](xy p) { return transverse(wgs84, p, 0, m, 0.9996, 500000, 10000000); }, 1e-2});
                if (zone >= 28 and zone <= 37) {
                    c.push_back({25800 + zone, false, m - 3, 34, m + 3, 84, [m](xy p) { return transverse(grs80, p, 0, m, 0.9996, 500000, 0); }, 1e-2});
                }
            }
            for (int zone = 2; zone <= 5; ++zone) {
                const double m = zone * 3.0;
                c.push_back({31464 + zone, false, std::max(5.9, m - 2), 47.3, std::min(15.0, m + 2), 55,
                        [m, zone](xy p) { return transverse(bessel, shift(bessel, potsdam, p), 0, m, 1, zone * 1e6 + 500000, 0); }, 1e-2});
            }
            return c;
        }();
        return all;
    }

    bool contains(const code &c, xy p) { return p.x >= c.west and p.x <= c.east and p.y >= c.south and p.y <= c.north; }

    const char *type_name(SRS t) { return t == SRS::CS_GEOGRAPHIC ? "geographic" : t == SRS::CS_SPHERICAL_EQUATORIAL ? "spherical-equatorial" : "cartesian"; }

    SRS some_type(vh::rng &r, const code &c) { return not c.degrees ? SRS::CS_CARTESIAN : r.chance(0.6) ? SRS::CS_GEOGRAPHIC : SRS::CS_SPHERICAL_EQUATORIAL; }

    // how far apart in meters, near enough
    double apart(const code &c, xy a, xy b, double lat) {
        if (not c.degrees) { return std::hypot(a.x - b.x, a.y - b.y); }
        const double dx = std::remainder(a.x - b.x, 360.0);
        return std::hypot(dx * std::cos(lat * deg), a.y - b.y) * 111320;
    }

    // a system with known formula around a place
    const code &pick(vh::rng &r, const std::function<bool(const code &)> &fits) {
        while (true) {
            // not only zones
            const auto &c = r.chance(0.6) ? codes()[static_cast<std::size_t>(r.range(0, 14))] : r.pick(codes());
            if (fits(c)) { return c; }
        }
    }

    xy place(vh::rng &r, const code &c) {
        const auto some = [&](double lo, double hi) {
            const double margin = std::min(1e-6, (hi - lo) / 10);
            return r.chance(0.1) ? lo + margin : r.chance(0.1) ? hi - margin : r.chance(0.1) ? std::round((lo + hi) / 2) : r.real(lo + margin, hi - margin);
        };
        return {some(c.west, c.east), some(c.south, c.north)};
    }

    template<typename P>
    xy get(const P &p) { return {p.template get<0>(), p.template get<1>()}; }

    // through every way geometry is converted: points, lines, tracks, nodes, measurements
    template<typename In, typename Out>
    std::vector<std::vector<xy>> convert(vh::context &ctx, const g::srs_transform &t, const std::vector<std::vector<xy>> &lines, const std::function<std::string()> &say) {
        const auto reprojector = g::create_point_reprojector(t);
        using in_track = g::track::multi_track_type<In>;
        using out_track = g::track::multi_track_type<Out>;
        typename in_track::multi_line_type in;
        std::vector<std::vector<xy>> out;
        for (const auto &l : lines) {
            typename in_track::line_type line;
            auto &o = out.emplace_back();
            for (const auto &p : l) {
                line.emplace_back(In{p.x, p.y});
                Out q;
                g::reproject_point(In{p.x, p.y}, q, reprojector);
                o.push_back(get(q));
                const g::track::measurement<Out> m{1234567, In{p.x, p.y}, reprojector};
                const g::network::node<Out> n{77, In{p.x, p.y}, reprojector};
                ctx.require(m.timestamp == 1234567 and get(m.point).x == get(q).x and get(m.point).y == get(q).y, "converted measurement", say);
                ctx.require(n.id == 77 and get(n.point).x == get(q).x and get(n.point).y == get(q).y, "converted node", say);
            }
            const g::track::track_type<Out> track{"t", line, reprojector};
            const out_track single{"s", line, reprojector};
            const auto check = [&](const auto &converted) {
                bool good = converted.size() == o.size();
                for (std::size_t i = 0; good and i < o.size(); ++i) { good = get(converted[i]).x == o[i].x and get(converted[i]).y == o[i].y; }
                ctx.require(good, "points of a converted line", say);
            };
            check(track.rich_line.line());
            ctx.require(track.id == "t" and single.id == "s" and single.size() == 1, "converted track", say);
            if (single.size() == 1) { check(single.get_track(0).rich_line.line()); }
            in.emplace_back(std::move(line));
        }
        const out_track multi{"m", in, reprojector};
        bool good = multi.size() == out.size() and multi.id == "m";
        for (std::size_t k = 0; good and k < out.size(); ++k) {
            const auto track = multi.get_track(k);
            const auto &line = track.rich_line.line();
            good = line.size() == out[k].size();
            for (std::size_t i = 0; good and i < line.size(); ++i) { good = get(line[i]).x == out[k][i].x and get(line[i]).y == out[k][i].y; }
        }
        ctx.require(good, "parts of a converted track", say);
        ctx.stat("converted_lines", lines.size());
        return out;
    }

    std::vector<std::vector<xy>> convert(vh::context &ctx, const g::srs_transform &t, const std::vector<std::vector<xy>> &lines, const std::function<std::string()> &say) {
        return g::srs_dispatch(t, [&]<typename In, typename Out>() { return convert<g::point_type<In>, g::point_type<Out>>(ctx, t, lines, say); });
    }

    void conversions(vh::context &ctx, vh::rng &r) {
        const auto &a = pick(r, [](const auto &) { return true; });
        std::vector<std::vector<xy>> places;
        const xy first = place(r, a);
        const auto &b = pick(r, [&](const code &c) { return contains(c, first) and related(a, c); });
        const auto &next = pick(r, [&](const code &c) { return contains(c, first) and c.at and related(b, c); });
        for (auto k = r.chance(0.7) ? 1 : r.range(0, 3); k > 0; --k) {
            auto &l = places.emplace_back();
            for (auto i = r.chance(0.1) ? 0 : r.range(1, 6); i > 0; --i) {
                const xy p = l.empty() ? first : place(r, a);
                if (contains(b, p) and contains(next, p)) { l.push_back(p); }
            }
        }
        const auto ta = some_type(r, a), tb = some_type(r, b), tn = some_type(r, next);
        const bool named_a = ta == SRS::CS_SPHERICAL_EQUATORIAL or r.chance(0.3), named_b = tb == SRS::CS_SPHERICAL_EQUATORIAL or r.chance(0.3);
        const auto transform = g::compute_srs_transform(a.epsg, named_a ? type_name(ta) : "", b.epsg, named_b ? type_name(tb) : "");
        const auto say = [&] {
            std::string o = vh::cat(a.epsg, " ", type_name(ta), " to ", b.epsg, " ", type_name(tb), " to ", next.epsg, " ", type_name(tn), " of");
            for (const auto &l : places) {
                o += " [";
                for (const auto &p : l) { o += vh::cat("(", p.x, ",", p.y, ")"); }
                o += "]";
            }
            return o;
        };
        ctx.observe(vh::hash_str(say()));
        ctx.require(transform.srs_code == a.epsg and transform.srs_type == ta and transform.transform_srs_code == b.epsg and transform.transform_srs_type == tb, "reference systems", say);
        ctx.require(transform.transform == not(a.epsg == b.epsg and ta == tb), "is there a transformation", say);
        const auto following = g::compute_next_srs_transform(transform, next.epsg, tn);
        ctx.require(following.srs_code == b.epsg and following.srs_type == tb and following.transform_srs_code == next.epsg and following.transform_srs_type == tn, "next reference systems", say);

        // a system without formula is entered from WGS84
        std::vector<std::vector<xy>> from = places;
        for (auto &l : from) {
            for (auto &p : l) { p = a.at ? a.at(p) : p; }
        }
        if (not a.at) {
            from = convert(ctx, g::srs_transform{g::srs{4326, SRS::CS_GEOGRAPHIC}, a.epsg, ta}, places, say);
            ctx.stat("without_formula");
        }
        const auto to = convert(ctx, transform, from, say);
        const auto back = convert(ctx, g::srs_transform{g::srs{b.epsg, tb}, a.epsg, ta}, to, say);
        const auto last = convert(ctx, following, to, say);
        for (std::size_t k = 0; k < places.size(); ++k) {
            for (std::size_t i = 0; i < places[k].size(); ++i) {
                const auto &p = places[k][i];
                const auto describe = [&](const char *what, xy is, xy want) {
                    std::ostringstream o;
                    o.precision(15);
                    o << what << " of " << p.x << " " << p.y << ": " << is.x << " " << is.y << " instead of " << want.x << " " << want.y << ": " << say();
                    return o.str();
                };
                // Mercator's projections enlarge
                const double accuracy = (a.accuracy + b.accuracy) / std::cos(p.y * deg);
                if (b.at) {
                    ctx.require(apart(b, to[k][i], b.at(p), p.y) <= accuracy, "converted coordinates", [&] { return describe("position", to[k][i], b.at(p)); });
                    ctx.stat("positions");
                }
                ctx.require(apart(a, back[k][i], from[k][i], p.y) <= (5e-3 + (a.shifted() != b.shifted() ? 1e-2 : 0)) / std::cos(p.y * deg), "converted there and back", [&] { return describe("back", back[k][i], from[k][i]); });
                ctx.require(apart(next, last[k][i], next.at(p), p.y) <= accuracy + (next.accuracy + (b.at ? 0 : 1e-2)) / std::cos(p.y * deg), "coordinates converted next", [&] { return describe("next", last[k][i], next.at(p)); });
                if (a.epsg == b.epsg and ta == tb) {
                    ctx.require(to[k][i].x == from[k][i].x and to[k][i].y == from[k][i].y, "same system is not kept", [&] { return describe("same", to[k][i], from[k][i]); });
                    ctx.stat("unchanged_positions");
                }
                ctx.stat("there_and_back");
            }
        }
        ctx.stat(vh::cat(type_name(ta), "_to_", type_name(tb)));
    }

    // what is chosen when not everything is stated
    void choices(vh::context &ctx, vh::rng &r) {
        const auto &a = pick(r, [](const auto &) { return true; });
        const auto &b = pick(r, [](const auto &) { return true; });
        const auto ta = some_type(r, a);
        const bool named_a = ta == SRS::CS_SPHERICAL_EQUATORIAL or r.chance(0.3);
        const std::string name = named_a ? type_name(ta) : "";
        const auto say = [&] { return vh::cat(a.epsg, " ", name); };
        const auto base = g::compute_srs(a.epsg, name);
        ctx.require(base.srs_code == a.epsg and base.srs_type == ta, "type of a reference system", say);
        bool thrown = false;
        try {
            (void) g::compute_srs(static_cast<std::int32_t>(r.range(-5, -1)), name);
        } catch (const std::invalid_argument &) { thrown = true; }
        ctx.require(thrown, "invalid reference system accepted", say);
        const auto kind = r.range(0, 2);
        ctx.observe(vh::hash_str(vh::cat(say(), " ", kind, " ", b.epsg)));
        if (kind == 0) {
            // nothing is stated
            const auto t = g::compute_srs_transform(a.epsg, name, -1, "");
            ctx.require(not t.transform and t.transform_srs_code == a.epsg and t.transform_srs_type == ta, "transformation without reason", say);
            ctx.stat("no_target");
        } else if (kind == 1) {
            const auto t = g::compute_srs_transform(a.epsg, name, b.epsg, "");
            const auto tb = b.degrees ? SRS::CS_GEOGRAPHIC : SRS::CS_CARTESIAN;
            ctx.require(t.transform_srs_code == b.epsg and t.transform_srs_type == tb and t.transform == not(a.epsg == b.epsg and ta == tb), "target by code", [&] { return vh::cat(say(), " ", b.epsg); });
            ctx.stat("target_by_code");
        } else {
            const SRS types[] = {SRS::CS_GEOGRAPHIC, SRS::CS_SPHERICAL_EQUATORIAL, SRS::CS_CARTESIAN};
            const auto tb = types[r.range(0, 2)];
            const auto t = g::compute_srs_transform(a.epsg, name, -1, type_name(tb));
            const auto it = std::find_if(codes().begin(), codes().end(), [&](const auto &c) { return c.epsg == t.transform_srs_code; });
            const auto describe = [&] { return vh::cat(say(), " to ", type_name(tb), ": ", t.transform_srs_code); };
            ctx.require(t.transform_srs_type == tb and it != codes().end() and it->degrees == (tb != SRS::CS_CARTESIAN), "target system does not suit its type", describe);
            if (it != codes().end() and it->at and a.at and related(a, *it) and it->degrees == (tb != SRS::CS_CARTESIAN)) {
                auto p = place(r, a);
                p.y = std::clamp(p.y, -80.0, 80.0);
                if (contains(a, p)) {
                    const auto to = convert(ctx, t, {{a.at(p)}}, describe);
                    ctx.require(apart(*it, to[0][0], it->at(p), p.y) <= (a.accuracy + it->accuracy) / std::cos(p.y * deg), "coordinates in the chosen system", describe);
                }
            }
            ctx.stat("target_by_type");
        }
    }

}

int main(int argc, char **argv) {
    return vh::run(argc, argv, {{"conversions", conversions, 40000, 2000000}, {"choices", choices, 10000, 200000}});
}
