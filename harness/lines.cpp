// Monitor: measures of every line type against their current points after any history of edits.
#include <sstream>
#include <variant>

#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>

#include "types/geometry/point.hpp"
#include "types/geometry/rich_type/eager_multi_rich_line.hpp"
#include "types/geometry/rich_type/lazy_multi_rich_line.hpp"
#include "types/geometry/rich_type/multi_rich_line.hpp"

#include "vh.hpp"

namespace {

    using namespace map_matching_2;
    namespace mg = map_matching_2::geometry;

    struct measures {
        std::optional<double> length, azimuth, directions, absolute;
        bool turns_back = false; // some turn by 180 degrees, whose sign is arbitrary
        std::vector<std::optional<double>> lengths, azimuths, turns;
    };

    double cyclic(double a) {
        a = std::fmod(a, 360.0);
        if (a > 180.0) {
            a -= 360.0;
        }
        if (a < -180.0) {
            a += 360.0;
        }
        return a;
    }

    template<typename P>
    constexpr bool is_plane = std::is_same_v<typename mg::data<P>::coordinate_system_type, mg::cs_cartesian>;

    template<typename P>
    bool same(const P &a, const P &b) {
        return boost::geometry::get<0>(a) == boost::geometry::get<0>(b) and
                boost::geometry::get<1>(a) == boost::geometry::get<1>(b);
    }

    template<typename P>
    double true_length(const P &a, const P &b) {
        if constexpr (is_plane<P>) {
            return std::hypot(boost::geometry::get<0>(b) - boost::geometry::get<0>(a),
                    boost::geometry::get<1>(b) - boost::geometry::get<1>(a));
        } else {
            return mg::length_segment(typename mg::models<P>::segment_type{a, b});
        }
    }

    template<typename P>
    double true_azimuth(const P &a, const P &b) {
        if constexpr (is_plane<P>) {
            return std::atan2(boost::geometry::get<0>(b) - boost::geometry::get<0>(a),
                    boost::geometry::get<1>(b) - boost::geometry::get<1>(a)) * 180.0 / M_PI;
        } else {
            return mg::azimuth_deg(a, b);
        }
    }

    void add_turn(measures &m, std::optional<double> a, std::optional<double> b) {
        std::optional<double> turn;
        if (a and b) {
            turn = cyclic(*a - *b);
            m.directions = m.directions.value_or(0) + *turn;
            m.absolute = m.absolute.value_or(0) + std::fabs(*turn);
            m.turns_back = m.turns_back or std::fabs(*turn) > 180.0 - 1e-6;
        }
        m.turns.emplace_back(turn);
    }

    template<typename P>
    measures measure(const std::vector<P> &points) {
        measures m;
        for (std::size_t i = 0; i + 1 < points.size(); ++i) {
            std::optional<double> l, a;
            if (not same(points[i], points[i + 1])) {
                l = true_length(points[i], points[i + 1]);
                a = true_azimuth(points[i], points[i + 1]);
                m.length = m.length.value_or(0) + *l;
            }
            m.lengths.emplace_back(l);
            m.azimuths.emplace_back(a);
        }
        for (std::size_t i = 0; i + 1 < m.azimuths.size(); ++i) {
            add_turn(m, m.azimuths[i], m.azimuths[i + 1]);
        }
        if (points.size() >= 2 and not same(points.front(), points.back())) {
            m.azimuth = true_azimuth(points.front(), points.back());
        }
        return m;
    }

    template<typename P>
    measures measure(const std::vector<std::vector<P>> &lines) {
        measures m;
        const P *first = nullptr, *last = nullptr;
        std::size_t parts = 0;
        for (std::size_t i = 0; i < lines.size(); ++i) {
            const measures line = measure(lines[i]);
            if (line.length) {
                m.length = m.length.value_or(0) + *line.length;
            }
            if (line.directions) {
                m.directions = m.directions.value_or(0) + *line.directions;
                m.absolute = m.absolute.value_or(0) + *line.absolute;
            }
            m.turns_back = m.turns_back or line.turns_back;
            if (i > 0 and not lines[i - 1].empty() and not lines[i].empty() and
                same(lines[i - 1].back(), lines[i].front())) {
                const measures before = measure(lines[i - 1]);
                if (not before.azimuths.empty() and not line.azimuths.empty()) {
                    add_turn(m, before.azimuths.back(), line.azimuths.front());
                }
            }
            if (not lines[i].empty()) {
                ++parts;
                if (not first) {
                    first = &lines[i].front();
                }
                last = &lines[i].back();
            }
        }
        if (parts > 0 and not same(*first, *last)) {
            m.azimuth = true_azimuth(*first, *last);
        }
        m.turns.clear();
        return m;
    }

    bool agree(double a, double b) {
        return vh::close(a, b, 1e-9, 1e-9);
    }

    bool agree_angle(double a, double b) {
        return std::fabs(cyclic(a - b)) < 1e-6;
    }

    // the whole line's measures; which ones are asked for is random, so that caches get partly filled
    template<typename R>
    void check_totals(vh::context &ctx, vh::rng &r, const R &rich, const measures &m, double part,
            const std::string &what) {
        const auto show = [&](const char *measure, auto expected) {
            return vh::cat(what, ": ", measure, " of ", rich.wkt(), " expected ",
                    expected ? std::to_string(*expected) : "none");
        };
        std::vector<int> order{0, 1, 2, 3};
        r.shuffle(order);
        for (int which : order) {
            if (not r.chance(part)) {
                continue;
            }
            ctx.stat("totals_compared");
            if (which == 0) {
                ctx.require(rich.has_length() == m.length.has_value(), "has_length", [&] {
                    return show("presence of length", m.length);
                });
                if (m.length) {
                    ctx.require(agree(rich.length(), *m.length), "length", [&] {
                        return vh::cat(show("length", m.length), " is ", rich.length());
                    });
                }
            } else if (which == 1) {
                ctx.require(rich.has_azimuth() == m.azimuth.has_value(), "has_azimuth", [&] {
                    return show("presence of azimuth", m.azimuth);
                });
                if (m.azimuth) {
                    ctx.require(agree_angle(rich.azimuth(), *m.azimuth), "azimuth", [&] {
                        return vh::cat(show("azimuth", m.azimuth), " is ", rich.azimuth());
                    });
                }
            } else if (which == 2) {
                ctx.require(rich.has_directions() == m.directions.has_value(), "has_directions", [&] {
                    return show("presence of directions", m.directions);
                });
                if (m.directions) {
                    const double d = rich.directions();
                    ctx.require(std::isfinite(d) and agree_angle(d, *m.directions) and
                            (m.turns_back or std::fabs(d - *m.directions) < 1e-6), "directions", [&] {
                                return vh::cat(show("directions", m.directions), " is ", d);
                            });
                }
            } else if (m.absolute) {
                const double d = rich.absolute_directions();
                ctx.require(std::fabs(d - *m.absolute) < 1e-6, "absolute_directions", [&] {
                    return vh::cat(show("absolute directions", m.absolute), " is ", d);
                });
            }
        }
    }

    template<typename F>
    bool refuses(F &&f) {
        try {
            (void) f();
        } catch (const std::out_of_range &) {
            return true;
        }
        return false;
    }

    template<typename P>
    struct world {
        using plain = mg::rich_line<P>;
        using lazy = mg::lazy_rich_line<P>;
        using eager = mg::eager_rich_line<P>;
        using line_type = typename plain::line_type;
        using points = std::vector<P>;

        struct object {
            std::variant<plain, lazy, eager> rich;
            points expected;
        };

        using multi_plain = mg::multi_rich_line<plain>;
        using multi_lazy = mg::lazy_multi_rich_line<lazy>;
        using multi_eager = mg::eager_multi_rich_line<eager>;

        struct multi_object {
            std::variant<multi_plain, multi_lazy, multi_eager> rich;
            std::vector<points> expected;
        };

        vh::context &ctx;
        vh::rng &r;
        std::vector<object> objects;
        std::vector<multi_object> multis;
        std::string history;

        P point() {
            if constexpr (is_plane<P>) {
                return r.chance(0.8) ? P{double(r.range(0, 4)), double(r.range(0, 4))}
                                     : P{r.real(-1e5, 1e5), r.real(-1e5, 1e5)};
            } else {
                return r.chance(0.5) ? P{double(r.range(9, 11)) , double(r.range(48, 50))}
                                     : P{r.real(-170, 170), r.real(-80, 80)};
            }
        }

        points random_points(std::size_t min, std::size_t max) {
            points p;
            const auto n = static_cast<std::size_t>(r.range(static_cast<int>(min), static_cast<int>(max)));
            while (p.size() < n) {
                if (not p.empty() and r.chance(0.15)) {
                    p.push_back(p.back());
                } else if (p.size() > 1 and r.chance(0.15)) {
                    p.push_back(p[p.size() - 2]);
                } else if (p.size() > 1 and r.chance(0.1)) {
                    p.push_back(p.front());
                } else {
                    p.push_back(point());
                }
            }
            return p;
        }

        static line_type as_line(const points &p) {
            return line_type{p.begin(), p.end()};
        }

        void check_positions(const auto &rich, const measures &m, std::size_t pos) {
            using rich_type = std::decay_t<decltype(rich)>;
            const auto where = [&](const char *measure) {
                return vh::cat(history, ": ", measure, " at ", pos, " of ", rich.wkt());
            };
            ctx.stat("positions_compared");
            const int which = static_cast<int>(r.range(0, 4));
            if (which == 0 or which == 4) {
                ctx.require(rich.has_length(pos) == m.lengths[pos].has_value(), "segment_has_length", [&] {
                    return where("presence of length");
                });
                if (m.lengths[pos]) {
                    ctx.require(agree(rich.length(pos), *m.lengths[pos]), "segment_length", [&] {
                        return where("length");
                    });
                }
            }
            if (which == 1 or which == 4) {
                ctx.require(rich.has_azimuth(pos) == m.azimuths[pos].has_value(), "segment_has_azimuth", [&] {
                    return where("presence of azimuth");
                });
                if (m.azimuths[pos]) {
                    ctx.require(agree_angle(rich.azimuth(pos), *m.azimuths[pos]), "segment_azimuth", [&] {
                        return where("azimuth");
                    });
                }
            }
            if ((which == 2 or which == 4) and pos < m.turns.size()) {
                try {
                    ctx.require(rich.has_direction(pos) == m.turns[pos].has_value(), "has_direction", [&] {
                        return where("presence of direction");
                    });
                    const double d = rich.direction(pos);
                    const double a = rich.absolute_direction(pos);
                    if (m.turns[pos]) {
                        ctx.require(std::fabs(d) <= 180.0 + 1e-6 and agree_angle(d, *m.turns[pos]), "direction",
                                [&] {
                                    return where("direction");
                                });
                        ctx.require(std::fabs(a - std::fabs(*m.turns[pos])) < 1e-6, "absolute_direction", [&] {
                            return where("absolute direction");
                        });
                        ctx.stat("directions_compared");
                    } else {
                        ctx.require(not mg::valid(d) and not mg::valid(a), "direction_without_segments", [&] {
                            return vh::cat(where("direction"), " is ", d);
                        });
                    }
                } catch (const std::out_of_range &e) {
                    ctx.fail("direction_refused", vh::cat(where("direction"), " refused: ", e.what()));
                }
            }
            if (which == 3 or which == 4) {
                const auto check_segment = [&](const auto &segment) {
                    ctx.require(segment.has_length() == m.lengths[pos].has_value() and
                            segment.has_azimuth() == m.azimuths[pos].has_value(), "rich_segment_presence", [&] {
                                return where("rich segment");
                            });
                    if (m.lengths[pos]) {
                        ctx.require(agree(segment.length(), *m.lengths[pos]) and
                                agree_angle(segment.azimuth(), *m.azimuths[pos]), "rich_segment", [&] {
                                    return where("rich segment");
                                });
                    }
                };
                if (r.chance(0.5)) {
                    check_segment(rich.rich_segment(pos));
                } else {
                    check_segment(rich.rich_referring_segment(pos));
                }
            }
            (void) sizeof(rich_type);
        }

        void check(const object &o, double part) {
            std::visit([&](const auto &rich) {
                bool points_match = rich.size() == o.expected.size();
                for (std::size_t i = 0; points_match and i < rich.size(); ++i) {
                    points_match = same(rich[i], o.expected[i]);
                }
                ctx.require(points_match, "points", [&] {
                    return vh::cat(history, ": points are ", rich.wkt(), " expected ", plain{as_line(o.expected)}.wkt());
                });
                if (not points_match) {
                    return;
                }
                const measures m = measure(o.expected);
                check_totals(ctx, r, rich, m, part, history);
                for (std::size_t i = 0; i < m.lengths.size(); ++i) {
                    if (r.chance(part)) {
                        check_positions(rich, m, i);
                    }
                }
                if (r.chance(0.2 * part)) {
                    const std::size_t beyond = m.lengths.size() + static_cast<std::size_t>(r.range(0, 2));
                    ctx.require(refuses([&] { return rich.length(beyond); }) and
                            refuses([&] { return rich.azimuth(beyond); }) and
                            refuses([&] { return rich.has_direction(beyond); }), "beyond_end", [&] {
                                return vh::cat(history, ": measures at ", beyond, " of ", rich.wkt());
                            });
                }
            }, o.rich);
        }

        void check(const multi_object &o, double part) {
            std::visit([&](const auto &rich) {
                bool points_match = rich.size() == o.expected.size();
                for (std::size_t l = 0; points_match and l < rich.size(); ++l) {
                    points_match = rich[l].size() == o.expected[l].size();
                    for (std::size_t i = 0; points_match and i < rich[l].size(); ++i) {
                        points_match = same(rich[l][i], o.expected[l][i]);
                    }
                }
                ctx.require(points_match, "multi_points", [&] {
                    return vh::cat(history, ": points are ", rich.wkt());
                });
                if (points_match) {
                    ctx.stat("multi_lines_compared");
                    check_totals(ctx, r, rich, measure(o.expected), part, history);
                }
            }, o.rich);
        }

        std::variant<plain, lazy, eager> make(const points &p) {
            switch (r.range(0, 2)) {
                case 0:
                    return plain{as_line(p)};
                case 1:
                    return lazy{as_line(p)};
                default:
                    return eager{as_line(p)};
            }
        }

        object &any() {
            return objects[r.range(0, static_cast<int>(objects.size()) - 1)];
        }

        multi_object &any_multi() {
            return multis[r.range(0, static_cast<int>(multis.size()) - 1)];
        }

        // a line of the given type with whatever measures it has cached until now
        template<typename R>
        R part_of(const points &p) {
            R rich;
            if (p.size() >= 2 and r.chance(0.5)) {
                points longer = p;
                const auto front = r.range(0, 2), back = r.range(0, 2);
                for (int i = 0; i < front; ++i) {
                    longer.insert(longer.begin(), point());
                }
                for (int i = 0; i < back; ++i) {
                    longer.push_back(point());
                }
                const R whole{as_line(longer)};
                check_totals(ctx, r, whole, measure(longer), 0.5, history);
                rich = whole.sub_rich_line(front, front + p.size());
            } else {
                rich = R{as_line(p)};
            }
            if (r.chance(0.5)) {
                check_totals(ctx, r, rich, measure(p), 0.5, history);
            }
            return rich;
        }

        void merge(object &o) {
            std::visit([&](auto &rich) {
                using R = std::decay_t<decltype(rich)>;
                std::vector<points> added;
                P end = o.expected.empty() ? point() : o.expected.back();
                points expected = o.expected;
                bool fits = true;
                const bool gaps = r.chance(0.15);
                const int n = static_cast<int>(r.range(0, 3));
                for (int i = 0; i < n; ++i) {
                    points p = random_points(r.chance(0.1) ? 0 : 1, 4);
                    if (not p.empty()) {
                        if (not gaps) {
                            p.front() = end;
                        }
                        if (fits) {
                            if (expected.empty()) {
                                expected = p;
                            } else if (same(expected.back(), p.front())) {
                                expected.insert(expected.end(), std::next(p.begin()), p.end());
                            } else {
                                fits = false;
                            }
                        }
                        end = p.back();
                    }
                    added.push_back(p);
                }
                history += vh::cat(fits ? " merge" : " merge-with-gap", n);
                bool thrown = false;
                try {
                    const int form = static_cast<int>(r.range(0, 1));
                    if (form == 0 or n == 0) {
                        std::vector<R> parts;
                        for (const auto &p : added) {
                            parts.push_back(part_of<R>(p));
                        }
                        rich.merge(std::move(parts));
                    } else if (n == 1) {
                        rich.merge(part_of<R>(added[0]));
                    } else if (n == 2) {
                        rich.merge(part_of<R>(added[0]), part_of<R>(added[1]));
                    } else {
                        rich.merge(part_of<R>(added[0]), part_of<R>(added[1]), part_of<R>(added[2]));
                    }
                } catch (const mg::rich_line_merge_exception &) {
                    thrown = true;
                }
                ctx.require(thrown == not fits, "merge_refused", [&] {
                    return vh::cat(history, ": merging ", fits ? "was refused" : "a line that does not touch was accepted");
                });
                ctx.stat(fits ? "lines_merged" : "merges_refused");
                if (fits) {
                    o.expected = std::move(expected);
                } else {
                    // refused merges may have taken some of the parts, the measures have to follow the points
                    o.expected.assign(rich.line().begin(), rich.line().end());
                    const auto &constant = rich;
                    bool prefix = constant.size() <= expected.size();
                    for (std::size_t i = 0; prefix and i < constant.size(); ++i) {
                        prefix = same(constant[i], expected[i]);
                    }
                    ctx.require(prefix, "refused_merge_points", [&] {
                        return vh::cat(history, ": ", rich.wkt());
                    });
                }
            }, o.rich);
        }

        void erase(object &o) {
            std::visit([&](auto &rich) {
                using R = std::decay_t<decltype(rich)>;
                if (o.expected.empty()) {
                    return;
                }
                const auto n = o.expected.size();
                if (r.chance(0.5)) {
                    const std::size_t at = r.chance(0.3) ? 0 : r.chance(0.4) ? n - 1 :
                            static_cast<std::size_t>(r.range(0, static_cast<int>(n) - 1));
                    history += vh::cat(" erase", at, "of", n);
                    if constexpr (std::is_same_v<R, plain>) {
                        rich.erase(at);
                    } else {
                        rich.erase(at, true);
                    }
                    o.expected.erase(o.expected.begin() + static_cast<std::ptrdiff_t>(at));
                } else {
                    std::vector<std::size_t> indices;
                    const double chance = r.real(0.1, 0.9);
                    for (std::size_t i = 0; i < n; ++i) {
                        if (r.chance(chance)) {
                            indices.push_back(i);
                        }
                    }
                    history += " erase{";
                    for (auto i : indices) {
                        history += vh::cat(i, " ");
                    }
                    history += vh::cat("}of", n);
                    rich.erase(indices);
                    for (auto i = indices.size(); i-- > 0;) {
                        o.expected.erase(o.expected.begin() + static_cast<std::ptrdiff_t>(indices[i]));
                    }
                }
                ctx.stat("points_erased");
            }, o.rich);
        }

        // assigning, constructing and moving across the line types
        void transfer(object &to, const object &from) {
            const int form = static_cast<int>(r.range(0, 2));
            history += vh::cat(" transfer", from.rich.index(), "to", to.rich.index(), "form", form);
            std::visit([&](auto &a, const auto &b) {
                using A = std::decay_t<decltype(a)>;
                using B = std::decay_t<decltype(b)>;
                if (form == 0) {
                    if constexpr (std::is_same_v<A, plain> and not std::is_same_v<B, plain>) {
                        a = static_cast<const plain &>(b);
                    } else {
                        a = b;
                    }
                } else if (form == 1) {
                    A c(b);
                    if (r.chance(0.5)) {
                        check_totals(ctx, r, c, measure(from.expected), 0.6, history);
                    }
                    a = std::move(c);
                } else {
                    B copy(b);
                    A c(std::move(copy));
                    A d(std::move(c));
                    a = d;
                }
            }, to.rich, from.rich);
            points expected = from.expected;
            to.expected = std::move(expected);
            ctx.stat("lines_transferred");
        }

        void transfer(multi_object &to, const multi_object &from) {
            const int form = static_cast<int>(r.range(0, 2));
            history += vh::cat(" multitransfer", from.rich.index(), "to", to.rich.index(), "form", form);
            std::visit([&](auto &a, const auto &b) {
                using A = std::decay_t<decltype(a)>;
                if (form == 0) {
                    a = b;
                } else if (form == 1) {
                    A c(b);
                    if (r.chance(0.5)) {
                        check_totals(ctx, r, c, measure(from.expected), 0.6, history);
                    }
                    a = std::move(c);
                } else {
                    A c(b);
                    A d(std::move(c));
                    a = d;
                }
            }, to.rich, from.rich);
            auto expected = from.expected;
            to.expected = std::move(expected);
            ctx.stat("multi_lines_transferred");
        }

        template<typename Archive, typename Input, typename R>
        static R stored(const R &rich) {
            std::stringstream stream;
            {
                Archive out{stream};
                out << rich;
            }
            R back;
            Input in{stream};
            in >> back;
            return back;
        }

        multi_object make_multi() {
            multi_object o;
            const int n = static_cast<int>(r.range(0, 4));
            for (int i = 0; i < n; ++i) {
                points p = random_points(1, 5);
                if (i > 0 and not o.expected.back().empty() and r.chance(0.6)) {
                    p.front() = o.expected.back().back();
                }
                o.expected.push_back(p);
            }
            if (r.chance(0.15)) {
                o.expected.insert(r.chance(0.5) ? o.expected.begin() : o.expected.end(), points{});
            }
            const auto fill = [&]<typename M>(std::in_place_type_t<M>) {
                using R = typename M::rich_line_type;
                if (o.expected.size() == 1 and r.chance(0.3)) {
                    o.rich = M{part_of<R>(o.expected.front())};
                } else {
                    std::vector<R> parts;
                    for (const auto &p : o.expected) {
                        parts.push_back(part_of<R>(p));
                    }
                    o.rich = M{std::move(parts)};
                }
            };
            switch (r.range(0, 2)) {
                case 0:
                    fill(std::in_place_type<multi_plain>);
                    break;
                case 1:
                    fill(std::in_place_type<multi_lazy>);
                    break;
                default:
                    fill(std::in_place_type<multi_eager>);
            }
            ctx.stat("multi_lines_built");
            return o;
        }

        void merge(multi_object &o) {
            std::visit([&](auto &rich) {
                using R = typename std::decay_t<decltype(rich)>::rich_line_type;
                std::vector<R> parts;
                std::vector<points> added;
                const int n = static_cast<int>(r.range(1, 4));
                for (int i = 0; i < n; ++i) {
                    points p = random_points(1, 4);
                    if (i > 0 and r.chance(0.6)) {
                        p.front() = added.back().back();
                        points &joined = added.back();
                        parts.push_back(part_of<R>(p));
                        joined.insert(joined.end(), std::next(p.begin()), p.end());
                        continue;
                    }
                    parts.push_back(part_of<R>(p));
                    if (i > 0 and same(added.back().back(), p.front())) {
                        added.back().insert(added.back().end(), std::next(p.begin()), p.end());
                    } else {
                        added.push_back(p);
                    }
                }
                history += vh::cat(" multimerge", n);
                rich.merge(std::move(parts));
                o.expected.insert(o.expected.end(), added.begin(), added.end());
                ctx.stat("multi_lines_merged");
            }, o.rich);
        }

        void step() {
            object &o = any();
            switch (r.range(0, 11)) {
                case 0: {
                    o.expected = random_points(0, 7);
                    o.rich = make(o.expected);
                    history += " new";
                    break;
                }
                case 1: {
                    // assign points to an existing line
                    const auto p = random_points(0, 7);
                    history += " assign-points";
                    std::visit([&](auto &rich) {
                        rich = as_line(p);
                    }, o.rich);
                    o.expected = p;
                    break;
                }
                case 2:
                case 3:
                    erase(o);
                    break;
                case 4:
                case 5:
                    merge(o);
                    break;
                case 6:
                    transfer(o, any());
                    break;
                case 7: {
                    if (not o.expected.empty()) {
                        const auto n = o.expected.size();
                        const auto from = static_cast<std::size_t>(r.range(0, static_cast<int>(n) - 1));
                        const auto to = r.chance(0.3) ? n : static_cast<std::size_t>(
                                r.range(static_cast<int>(from), static_cast<int>(n)));
                        history += vh::cat(" sub", from, "-", to, "of", n);
                        std::visit([&](auto &rich) {
                            auto sub = std::as_const(rich).sub_rich_line(from, to);
                            rich = std::move(sub);
                        }, o.rich);
                        o.expected = points(o.expected.begin() + static_cast<std::ptrdiff_t>(from),
                                o.expected.begin() + static_cast<std::ptrdiff_t>(to));
                        ctx.stat("parts_taken");
                    } else {
                        std::visit([&](auto &rich) {
                            ctx.require(refuses([&] { return rich.sub_rich_line(0, 1); }), "part_beyond_end",
                                    "part of an empty line was not refused");
                        }, o.rich);
                    }
                    break;
                }
                case 8: {
                    history += " store";
                    std::visit([&](auto &rich) {
                        using R = std::decay_t<decltype(rich)>;
                        if (r.chance(0.5)) {
                            rich = stored<boost::archive::binary_oarchive, boost::archive::binary_iarchive, R>(rich);
                        }
                    }, o.rich);
                    break;
                }
                case 9:
                    any_multi() = make_multi();
                    history += " newmulti";
                    break;
                case 10:
                    transfer(any_multi(), any_multi());
                    break;
                default:
                    merge(any_multi());
            }
        }

        void run() {
            for (int i = 0; i < 4; ++i) {
                object o;
                o.expected = random_points(0, 6);
                o.rich = make(o.expected);
                objects.push_back(std::move(o));
            }
            for (int i = 0; i < 2; ++i) {
                multis.push_back(make_multi());
            }
            const int steps = static_cast<int>(r.range(5, ctx.thorough ? 60 : 25));
            for (int i = 0; i < steps; ++i) {
                step();
                ctx.stat("edits");
                const double part = r.chance(0.3) ? 1.0 : r.chance(0.3) ? 0.0 : r.real(0.1, 0.7);
                for (const auto &o : objects) {
                    check(o, part);
                }
                for (const auto &o : multis) {
                    check(o, part);
                }
            }
            ctx.observe(vh::hash_str(history));
        }
    };

    template<typename P>
    void lines(vh::context &ctx, vh::rng &r) {
        world<P> w{ctx, r, {}, {}, {}};
        w.run();
    }

}

int main(int argc, char **argv) {
    return vh::run(argc, argv, {
            {"plane", lines<mg::point_type<mg::cs_cartesian>>, 12000, 300000, 20},
#ifndef VERIF_PLANE_ONLY
            {"sphere", lines<mg::point_type<mg::cs_spherical_equatorial>>, 4000, 60000, 20},
            {"ellipsoid", lines<mg::point_type<mg::cs_geographic>>, 4000, 60000, 20},
#endif
    });
}
