// Monitor: routes of owned, borrowed and mixed lines against plain polylines over histories of operations.
#include <deque>
#include <memory>
#include <optional>

#include "types/geometry/point.hpp"
#include "types/geometry/rich_type/eager_multi_rich_line.hpp"
#include "types/geometry/rich_type/lazy_multi_rich_line.hpp"
#include "types/geometry/rich_type/multi_rich_line.hpp"
#include "types/geometry/network/route/eager_route.hpp"
#include "types/geometry/network/route/lazy_route.hpp"
#include "types/geometry/network/route/route.hpp"

#include "vh.hpp"

namespace {

    using namespace map_matching_2;
    namespace mg = map_matching_2::geometry;
    namespace bg = boost::geometry;
    using cs = mg::cs_cartesian;
    using point = mg::point_type<cs>;
    using plain_line = mg::rich_line_type<point>;
    using eager_line = mg::eager_rich_line_type<point>;
    using lazy_line = mg::lazy_rich_line_type<point>;
    using line_type = typename plain_line::line_type;

    using xy = std::pair<int, int>;
    using poly = std::vector<xy>;

    poly reversed(poly p) {
        std::reverse(p.begin(), p.end());
        return p;
    }

    line_type as_line(const poly &p) {
        line_type l;
        for (const auto &q : p) {
            l.push_back(point{static_cast<double>(q.first), static_cast<double>(q.second)});
        }
        return l;
    }

    template<typename L>
    poly as_poly(const L &line) {
        poly p;
        for (std::size_t i = 0; i < line.size(); ++i) {
            p.push_back({static_cast<int>(bg::get<0>(line.at(i))), static_cast<int>(bg::get<1>(line.at(i)))});
        }
        return p;
    }

    std::string str(const poly &p) {
        std::string s = "(";
        for (const auto &q : p) {
            s += vh::cat(s.size() > 1 ? " " : "", q.first, ",", q.second);
        }
        return s + ")";
    }

    std::string str(const std::vector<poly> &l) {
        std::string s = "[";
        for (const auto &p : l) {
            s += str(p);
        }
        return s + "]";
    }

    double distance(const xy &a, const xy &b) { return std::hypot(b.first - a.first, b.second - a.second); }

    double azimuth(const xy &a, const xy &b) {
        return std::atan2(b.first - a.first, b.second - a.second) * 180.0 / M_PI;
    }

    double turn(double a, double b) {
        double d = std::fmod(a - b, 360.0);
        if (d > 180.0) {
            d -= 360.0;
        }
        if (d < -180.0) {
            d += 360.0;
        }
        return d;
    }

    bool long_enough(const poly &p) {
        for (std::size_t i = 1; i < p.size(); ++i) {
            if (p[i] != p[i - 1]) {
                return true;
            }
        }
        return false;
    }

    bool long_enough(const std::vector<poly> &l) {
        return std::any_of(l.begin(), l.end(), [](const auto &p) { return long_enough(p); });
    }

    // the drive itself: connected pieces without repeated points
    std::vector<poly> drive(const std::vector<poly> &lines) {
        std::vector<poly> out;
        for (const auto &l : lines) {
            if (l.empty()) {
                continue;
            }
            if (out.empty() or out.back().back() != l.front()) {
                out.emplace_back();
            }
            for (const auto &p : l) {
                if (out.back().empty() or out.back().back() != p) {
                    out.back().push_back(p);
                }
            }
        }
        std::erase_if(out, [](const auto &p) { return p.size() < 2; });
        return out;
    }

    struct measures {
        std::optional<double> length, azimuth, directions, absolute;
        bool turns_back{}, connected{true};
    };

    measures measure(const std::vector<poly> &lines) {
        measures m;
        const xy *first{}, *last{};
        const auto add = [&](const xy &a, const xy &b, const xy &c, const xy &d) {
            if (a != b and c != d) {
                const double t = turn(azimuth(a, b), azimuth(c, d));
                m.directions = m.directions.value_or(0) + t;
                m.absolute = m.absolute.value_or(0) + std::fabs(t);
                m.turns_back |= std::fabs(t) > 180 - 1e-6;
            }
        };
        for (std::size_t i = 0; i < lines.size(); ++i) {
            const auto &l = lines[i];
            for (std::size_t k = 1; k < l.size(); ++k) {
                if (l[k] != l[k - 1]) {
                    m.length = m.length.value_or(0) + distance(l[k - 1], l[k]);
                }
                if (k > 1) {
                    add(l[k - 2], l[k - 1], l[k - 1], l[k]);
                }
            }
            if (not l.empty()) {
                first = first ? first : &l.front();
                last = &l.back();
                if (i > 0 and not lines[i - 1].empty()) {
                    const auto &b = lines[i - 1];
                    if (b.back() != l.front()) {
                        m.connected = false;
                    } else if (b.size() > 1 and l.size() > 1) {
                        add(b[b.size() - 2], b.back(), l[0], l[1]);
                    }
                }
            }
        }
        if (first and *first != *last) {
            m.azimuth = azimuth(*first, *last);
        }
        return m;
    }

    template<typename Route>
    struct session {
        using variant = typename Route::rich_line_variant_type;
        using reference = typename Route::rich_line_reference_variant_type;

        struct entry {
            std::unique_ptr<Route> route;
            std::vector<poly> lines;
            bool invalid;
        };

        vh::context &ctx;
        vh::rng &r;
        std::vector<std::unique_ptr<variant>> network{}; // what is borrowed, lives longer than all routes
        std::vector<poly> network_lines{};
        std::vector<entry> routes{};
        std::string history{};

        poly random_line(std::optional<xy> from) {
            poly p;
            const auto n = r.chance(0.05) ? r.range(0, 1) : r.range(2, 5);
            for (int i = 0; i < n; ++i) {
                if (i == 0) {
                    p.push_back(from.value_or(xy{r.range(0, 4), r.range(0, 4)}));
                } else if (r.chance(0.07)) {
                    p.push_back(p.back());
                } else if (i > 1 and r.chance(0.1)) {
                    p.push_back(p[p.size() - 2]);
                } else {
                    const xy &b = p.back();
                    p.push_back(r.chance(0.6) ? xy{std::clamp<int>(b.first + r.range(-1, 1), 0, 4),
                                            std::clamp<int>(b.second + r.range(-1, 1), 0, 4)} :
                                        xy{r.range(0, 4), r.range(0, 4)});
                }
            }
            return p;
        }

        variant make_line(const poly &p) {
            switch (r.range(0, 2)) {
                case 0:
                    return variant{plain_line{as_line(p)}};
                case 1:
                    return variant{eager_line{as_line(p)}};
                default:
                    return variant{lazy_line{as_line(p)}};
            }
        }

        // a line borrowed from the network, starting at the point if there is one
        std::optional<std::size_t> borrow(std::optional<xy> from) {
            std::vector<std::size_t> fit;
            for (std::size_t i = 0; i < network_lines.size(); ++i) {
                if (not from or (not network_lines[i].empty() and network_lines[i].front() == *from)) {
                    fit.push_back(i);
                }
            }
            if (fit.empty()) {
                return {};
            }
            return r.pick(fit);
        }

        static std::optional<xy> end_of(const std::vector<poly> &lines) {
            for (auto it = lines.rbegin(); it != lines.rend(); ++it) {
                if (not it->empty()) {
                    return it->back();
                }
            }
            return {};
        }

        entry make_route(std::optional<xy> from) {
            if (r.chance(0.06)) {
                const bool invalid = r.chance(0.5);
                return {std::make_unique<Route>(invalid), {}, invalid};
            }
            const auto n = r.range(1, 4);
            std::list<variant> own;
            std::vector<reference> references;
            std::vector<poly> lines;
            const double owning = r.chance(0.3) ? 0.0 : r.chance(0.3) ? 1.0 : 0.5;
            for (int i = 0; i < n; ++i) {
                const auto at = r.chance(0.9) ? (i == 0 ? from : end_of(lines)) : std::nullopt;
                if (not r.chance(owning)) {
                    if (const auto b = borrow(at)) {
                        std::visit([&](auto &&l) { references.emplace_back(std::cref(l)); }, *network[*b]);
                        lines.push_back(network_lines[*b]);
                        continue;
                    }
                }
                lines.push_back(random_line(at));
                own.push_back(make_line(lines.back()));
                std::visit([&](auto &&l) { references.emplace_back(std::cref(l)); }, own.back());
            }
            entry e{nullptr, lines, false};
            if (own.empty() and r.chance(0.7)) {
                e.route = std::make_unique<Route>(std::move(references));
            } else if (own.size() == references.size() and r.chance(0.7)) {
                e.route = std::make_unique<Route>(std::move(own));
            } else {
                e.route = std::make_unique<Route>(std::move(own), std::move(references));
            }
            return e;
        }

        static std::vector<poly> lines_of(const Route &route) {
            std::vector<poly> out;
            for (const auto &l : route.rich_lines()) {
                out.push_back(std::visit([](auto &&line) { return as_poly(line.get()); }, l));
            }
            return out;
        }

        std::string about(const entry &e) const {
            return vh::cat(history, " | expected ", e.invalid ? "invalid " : "", str(e.lines), " has ",
                    e.route->is_invalid() ? "invalid " : "", str(lines_of(*e.route)));
        }

        // whole observation of one route
        void check(const entry &e) {
            const Route &t = *e.route;
            ctx.stat("routes_checked");
            ctx.require(t.is_invalid() == e.invalid, "validity", [&] { return about(e); });
            ctx.require(lines_of(t) == e.lines and t.size() == e.lines.size() and t.empty() == e.lines.empty(),
                    "lines", [&] { return about(e); });
            if (lines_of(t) != e.lines) {
                return;
            }
            const measures m = measure(e.lines);
            ctx.require(t.has_length() == m.length.has_value() and
                (not m.length or vh::close(t.length(), *m.length, 1e-9, 1e-9)), "length", [&] {
                return vh::cat(about(e), " length ", t.has_length() ? t.length() : -1, " instead of ", m.length.value_or(-1));
            });
            ctx.require(t.has_azimuth() == m.azimuth.has_value() and
                (not m.azimuth or std::fabs(turn(t.azimuth(), *m.azimuth)) < 1e-9), "azimuth", [&] {
                return vh::cat(about(e), " azimuth ", t.has_azimuth() ? t.azimuth() : -1, " instead of ", m.azimuth.value_or(-1));
            });
            ctx.require(t.has_directions() == m.directions.has_value(), "directions_known", [&] { return about(e); });
            if (m.directions and t.has_directions()) {
                ctx.require(vh::close(t.absolute_directions(), *m.absolute, 1e-9, 1e-6) and (m.turns_back or
                    vh::close(t.directions(), *m.directions, 1e-9, 1e-6)), "directions", [&] {
                    return vh::cat(about(e), " directions ", t.directions(), "/", t.absolute_directions(), " instead of ",
                            *m.directions, "/", *m.absolute);
                });
            }
            ctx.require(t.is_connected() == m.connected, "connected", [&] { return about(e); });
            ctx.require(t.mergeable() == (not e.invalid and long_enough(e.lines)), "mergeable", [&] { return about(e); });
            // as one and as many lines
            const auto expected = drive(e.lines);
            std::vector<poly> got;
            const auto multi = t.template get_multi_rich_line<mg::lazy_multi_rich_line_type<point>>();
            for (std::size_t i = 0; i < multi.size(); ++i) {
                got.push_back(as_poly(multi.at(i)));
            }
            ctx.require(drive(got) == expected, "as_multi_line", [&] {
                return vh::cat(about(e), " as multi-line ", str(got));
            });
            poly joined;
            for (const auto &l : e.lines) {
                for (const auto &p : l) {
                    if (joined.empty() or joined.back() != p) {
                        joined.push_back(p);
                    }
                }
            }
            const auto one = as_poly(t.template get_rich_line<lazy_line>());
            poly dedup;
            for (const auto &p : one) {
                if (dedup.empty() or dedup.back() != p) {
                    dedup.push_back(p);
                }
            }
            ctx.require(dedup == joined, "as_line", [&] { return vh::cat(about(e), " as line ", str(one)); });
        }

        void expect_drive(const entry &e, const std::vector<poly> &expected, const char *what) {
            ctx.require(drive(lines_of(*e.route)) == expected, what, [&] {
                return vh::cat(history, " | drives ", str(lines_of(*e.route)), " instead of ", str(expected));
            });
        }

        // own version of trimming: how many segments at the end of a are driven back at the start of b
        static poly flat(const std::vector<poly> &l) {
            poly out;
            for (const auto &p : l) {
                for (const auto &q : p) {
                    if (out.empty() or out.back() != q) {
                        out.push_back(q);
                    }
                }
            }
            return out;
        }

        // only uninterrupted drives are trimmed
        static bool trimmable(const entry &e) {
            auto lines = e.lines;
            std::erase_if(lines, [](const poly &p) { return p.empty(); });
            return not e.invalid and long_enough(lines) and measure(lines).connected and not e.lines.front().empty() and
                    not e.lines.back().empty();
        }

        void trim(const entry &a, const entry &b) {
            history += " trim";
            if (a.lines.empty() or b.lines.empty() or a.invalid or b.invalid) {
                const auto t = a.route->template trim_merge<lazy_line>(*b.route);
                ctx.require(t.is_invalid() and t.empty(), "trim_of_nothing", [&] { return history; });
                return;
            }
            if (not trimmable(a) or not trimmable(b)) {
                return;
            }
            auto t = a.route->template trim_merge<lazy_line>(*b.route);
            if (a.lines.back().back() != b.lines.front().front()) {
                ctx.require(t.is_invalid(), "trim_of_apart", [&] { return history; });
                return;
            }
            poly x = flat(a.lines), y = flat(b.lines);
            std::size_t k = 0;
            while (k + 1 < x.size() and k + 1 < y.size() and x[x.size() - 2 - k] == y[k + 1]) {
                ++k;
            }
            const double full = *measure({x}).length + *measure({y}).length;
            double back = 0;
            for (std::size_t i = 0; i < k; ++i) {
                back += distance(y[i], y[i + 1]);
            }
            ctx.stat(k > 0 ? "returns_trimmed" : "joins_without_return");
            x.resize(x.size() - k);
            y.erase(y.begin(), y.begin() + static_cast<std::ptrdiff_t>(k));
            // what is left may still turn back on itself within a segment, which is cut short
            const bool spike = x.size() > 1 and y.size() > 1 and
                    std::fabs(turn(azimuth(x[x.size() - 2], x.back()), azimuth(y[0], y[1]))) > 180 * 0.99;
            poly whole = x;
            if (spike) {
                whole.pop_back();
                ctx.stat("spikes_cut");
            }
            whole.insert(whole.end(), y.begin() + 1, y.end());
            entry e{std::make_unique<Route>(std::move(t)), {}, false};
            ctx.require(not e.route->is_invalid(), "trim_invalid", [&] { return history; });
            if (not spike) {
                const double left = e.route->has_length() ? e.route->length() : 0.0;
                ctx.require(vh::close(left, full - 2 * back, 1e-9, 1e-9), "trim_length", [&] {
                    return vh::cat(history, " trimmed to ", left, " instead of ", full - 2 * back);
                });
            }
            expect_drive(e, drive({whole}), "trim_geometry");
            e.lines = lines_of(*e.route);
            keep(std::move(e));
        }

        // the part driven back
        void returns(const entry &a, const entry &b) {
            history += " return";
            if (not trimmable(a) or not trimmable(b)) {
                return;
            }
            const bool self = r.chance(0.5);
            const auto line = a.route->template extract_return_line<lazy_line>(*b.route, self);
            poly x = flat(a.lines), y = flat(b.lines), expected;
            if (a.lines.back().back() == b.lines.front().front()) {
                std::size_t k = 0;
                while (k + 1 < x.size() and k + 1 < y.size() and x[x.size() - 2 - k] == y[k + 1]) {
                    ++k;
                }
                expected.assign(y.begin(), y.begin() + static_cast<std::ptrdiff_t>(k + 1));
                if (self) {
                    expected = reversed(expected);
                }
            }
            ctx.stat("returns_extracted");
            ctx.require(drive({as_poly(line)}) == drive({expected}), "return_line", [&] {
                return vh::cat(history, " returns ", str(as_poly(line)), " instead of ", str(expected));
            });
        }

        void sub(const entry &e) {
            const auto n = static_cast<int>(e.lines.size());
            if (n == 0) {
                return;
            }
            const auto from = static_cast<std::size_t>(r.range(0, n - 1)), to = static_cast<std::size_t>(r.range(
                    static_cast<int>(from), n));
            if (r.chance(0.5)) {
                history += vh::cat(" sub ", from, "-", to);
                entry s{std::make_unique<Route>(e.route->sub_route(from, to)), {}, false};
                s.lines.assign(e.lines.begin() + static_cast<std::ptrdiff_t>(from),
                        e.lines.begin() + static_cast<std::ptrdiff_t>(to));
                ctx.stat("sub_routes");
                keep(std::move(s));
                return;
            }
            if (to == from or e.lines[from].empty() or e.lines[to - 1].empty()) {
                return;
            }
            auto from_pos = static_cast<std::size_t>(r.range(0, static_cast<int>(e.lines[from].size()) - 1));
            auto to_pos = static_cast<std::size_t>(r.range(0, static_cast<int>(e.lines[to - 1].size())));
            if (from + 1 == to and from_pos > to_pos) {
                std::swap(from_pos, to_pos);
            }
            history += vh::cat(" sub ", from, ".", from_pos, "-", to, ".", to_pos);
            std::vector<poly> expected(e.lines.begin() + static_cast<std::ptrdiff_t>(from),
                    e.lines.begin() + static_cast<std::ptrdiff_t>(to));
            expected.back().resize(to_pos);
            expected.front().erase(expected.front().begin(), expected.front().begin() +
                    static_cast<std::ptrdiff_t>(std::min(from_pos, expected.front().size())));
            entry s{std::make_unique<Route>(e.route->template sub_route<lazy_line>(from, from_pos, to, to_pos)), {}, false};
            ctx.stat("sub_routes_by_position");
            s.invalid = s.route->is_invalid();
            expect_drive(s, drive(expected), "sub_route_geometry");
            s.lines = lines_of(*s.route);
            keep(std::move(s));
        }

        void merge() {
            const auto n = r.range(0, 4);
            std::vector<Route> parts;
            std::vector<poly> all, connected;
            bool gap = false, valid = false;
            const bool connect = r.chance(0.3), except = not connect and r.chance(0.3);
            history += vh::cat(" merge", connect ? " connect" : except ? " strict" : "");
            for (int i = 0; i < n; ++i) {
                const auto &e = r.pick(routes);
                parts.emplace_back(*e.route);
                history += str(e.lines);
                valid |= not e.invalid;
                if (not e.invalid and long_enough(e.lines)) {
                    if (not all.empty() and not all.back().empty() and not e.lines.front().empty() and
                        all.back().back() != e.lines.front().front()) {
                        gap = true;
                        connected.push_back({all.back().back(), e.lines.front().front()});
                    }
                    all.insert(all.end(), e.lines.begin(), e.lines.end());
                    connected.insert(connected.end(), e.lines.begin(), e.lines.end());
                }
            }
            try {
                entry m{std::make_unique<Route>(Route::template merge<lazy_line>(std::move(parts), connect, except)),
                        connect ? connected : all, not valid};
                ctx.require(not (except and gap), "gap_accepted", [&] { return history; });
                ctx.stat("merges");
                ctx.stat(gap ? "merges_with_gap" : "merges_without_gap");
                keep(std::move(m));
            } catch (const mg::network::route_merge_exception &) {
                ctx.stat("merges_refused");
                ctx.require(except and gap, "merge_refused", [&] { return history; });
            }
        }

        void join() {
            // two routes where the second turns back into the first
            entry a = make_route({}), b{};
            const auto at = end_of(a.lines);
            if (at and r.chance(0.6) and not a.lines.back().empty()) {
                auto back = reversed(a.lines.back());
                if (r.chance(0.5)) {
                    back.resize(static_cast<std::size_t>(r.range(1, static_cast<int>(back.size()))));
                    const auto more = random_line(back.back());
                    back.insert(back.end(), more.begin(), more.end());
                }
                b = {std::make_unique<Route>(std::list<variant>{make_line(back)}), {back}, false};
            } else {
                b = make_route(at);
            }
            const bool retain = r.chance(0.4);
            history += vh::cat(" join", retain ? " retaining " : " ", str(a.lines), str(b.lines));
            const bool ask = r.chance(0.5);
            if (ask) {
                check(a);
                check(b);
            }
            Route::template join<lazy_line>(*a.route, *b.route, retain);
            auto x = a.lines, y = b.lines;
            bool joins = not (a.invalid or b.invalid or x.empty() or y.empty()) and x.back().size() >= 2 and
                    y.front().size() >= 2;
            if (joins and retain) {
                const auto &p = x.back();
                const auto &q = y.front();
                const auto s = p.size();
                joins = not (p[s - 2] != p[s - 1] and q[0] != q[1] and
                    std::fabs(turn(azimuth(p[s - 2], p[s - 1]), azimuth(q[0], q[1]))) > 180 * 0.99);
                ctx.stat(joins ? "joined" : "reversals_kept");
            }
            if (joins) {
                x.back().back() = y.front()[1];
                y.front().erase(y.front().begin());
                if (y.front().size() < 2) {
                    y.erase(y.begin());
                }
                ctx.stat("joins");
            }
            a.lines = x;
            b.lines = y;
            check(a);
            check(b);
            keep(std::move(a));
            keep(std::move(b));
        }

        void keep(entry e) {
            check(e);
            routes.push_back(std::move(e));
        }

        void step() {
            history.clear();
            auto i = static_cast<std::size_t>(r.range(0, static_cast<int>(routes.size()) - 1));
            history += str(routes[i].lines);
            switch (r.range(0, 9)) {
                case 0:
                    history += " copy";
                    keep({std::make_unique<Route>(*routes[i].route), routes[i].lines, routes[i].invalid});
                    break;
                case 1: {
                    history += " move";
                    entry e{std::make_unique<Route>(std::move(*routes[i].route)), routes[i].lines, routes[i].invalid};
                    routes.erase(routes.begin() + static_cast<std::ptrdiff_t>(i));
                    keep(std::move(e));
                    break;
                }
                case 2: {
                    // over another route
                    entry e = make_route({});
                    const bool move = r.chance(0.5);
                    history += move ? " move assign" : " copy assign";
                    if (move) {
                        Route copy{*routes[i].route};
                        *e.route = std::move(copy);
                    } else {
                        *e.route = *routes[i].route;
                    }
                    e.lines = routes[i].lines;
                    e.invalid = routes[i].invalid;
                    keep(std::move(e));
                    break;
                }
                case 3:
                case 4:
                    sub(routes[i]);
                    break;
                case 5:
                    merge();
                    break;
                case 6:
                case 7: {
                    const auto &a = routes[i];
                    entry b = make_route(end_of(a.lines));
                    if (r.chance(0.6) and not a.lines.empty()) {
                        // drives back for a while, cut into lines elsewhere
                        poly back = reversed(flat(a.lines));
                        back.resize(static_cast<std::size_t>(r.range(0, static_cast<int>(back.size()))));
                        const auto more = random_line(back.empty() ? end_of(a.lines) : std::optional{back.back()});
                        back.insert(back.end(), more.begin(), more.end());
                        std::list<variant> own;
                        std::vector<poly> lines;
                        std::size_t at = 0;
                        while (at + 1 < back.size()) {
                            const auto next = static_cast<std::size_t>(r.range(static_cast<int>(at) + 1,
                                    static_cast<int>(back.size()) - 1));
                            lines.emplace_back(back.begin() + static_cast<std::ptrdiff_t>(at),
                                    back.begin() + static_cast<std::ptrdiff_t>(next) + 1);
                            own.push_back(make_line(lines.back()));
                            at = next;
                        }
                        if (not lines.empty()) {
                            b = {std::make_unique<Route>(std::move(own)), lines, false};
                        }
                    }
                    history += str(b.lines);
                    ctx.require(a.route->attaches(*b.route) == (not a.invalid and not b.invalid and (a.lines.empty() or
                            b.lines.empty() or a.lines.back().empty() or b.lines.front().empty() or
                            a.lines.back().back() == b.lines.front().front())), "attaches", [&] { return history; });
                    if (r.chance(0.7)) {
                        trim(routes[i], b);
                    } else {
                        returns(a, b);
                    }
                    break;
                }
                case 8:
                    join();
                    break;
                default:
                    history += " drop";
                    routes.erase(routes.begin() + static_cast<std::ptrdiff_t>(i));
                    routes.push_back(make_route({}));
                    check(routes.back());
            }
            // what remains of earlier results must not depend on routes that are gone
            while (routes.size() > 6) {
                routes.erase(routes.begin() + r.range(0, static_cast<int>(routes.size()) - 1));
            }
            for (const auto &e : routes) {
                history += "";
                if (r.chance(0.4)) {
                    check(e);
                }
            }
        }

        void run() {
            const auto n = r.range(0, 8);
            for (int i = 0; i < n; ++i) {
                network_lines.push_back(random_line({}));
                network.push_back(std::make_unique<variant>(make_line(network_lines.back())));
            }
            for (int i = 0; i < 3; ++i) {
                routes.push_back(make_route({}));
                check(routes.back());
            }
            const int steps = ctx.thorough ? 60 : 25;
            for (int i = 0; i < steps; ++i) {
                step();
                ctx.stat("steps");
            }
            std::string all;
            for (const auto &e : routes) {
                all += str(e.lines);
            }
            ctx.observe(vh::hash_str(all));
        }
    };

    template<typename Route>
    void operate(vh::context &ctx, vh::rng &r) {
        session<Route> s{ctx, r};
        s.run();
    }

}

int main(int argc, char **argv) {
    return vh::run(argc, argv, {
            {"plain", operate<mg::network::route_type<cs>>, 1500, 40000, 20},
            {"lazy", operate<mg::network::lazy_route_type<cs>>, 1500, 40000, 20},
            {"eager", operate<mg::network::eager_route_type<cs>>, 1500, 40000, 20},
    });
}
