// Monitor: comparison reports account for every metre of both lines.
// Lines are walks over a lattice, so every part of a line is a multiset of directed primitive steps.
#include "common/vh.hpp"

#include "types/geometry/point.hpp"
#include "geometry/algorithm/compare.hpp"
#include "geometry/rich_type/rich_line.hpp"
#include "geometry/rich_type/multi_rich_line.hpp"

#include <map>
#include <numeric>
#include <set>

namespace {

    namespace g = map_matching_2::geometry;

    using xy = std::pair<std::int64_t, std::int64_t>;
    using step = std::pair<xy, xy>;
    using steps = std::map<step, std::int64_t>;
    using walk = std::vector<xy>; // every lattice position on the way
    using walks = std::vector<walk>;

    constexpr std::pair<int, int> directions[] = {{1, 0}, {0, 1}, {-1, 0}, {0, -1}, {1, 1}, {-1, 1}, {-1, -1}, {1, -1}};

    struct world {
        std::int64_t width{}, height{};
        int kinds{4};
        double unit{};
        bool inside(const xy &p) const { return p.first >= 0 and p.second >= 0 and p.first < width and p.second < height; }
    };

    walk random_walk(vh::rng &r, const world &w, xy at, std::int64_t count) {
        walk out{at};
        int dir = static_cast<int>(r.range(0, w.kinds - 1));
        for (std::int64_t i = 0; i < count; ++i) {
            if (out.size() >= 2 and r.chance(0.08)) {
                out.push_back(out[out.size() - 2]); // turn around
            } else {
                for (int attempt = 0; attempt < 20; ++attempt) {
                    if (r.chance(0.4) or attempt > 0) {
                        dir = static_cast<int>(r.range(0, w.kinds - 1));
                    }
                    const xy next{out.back().first + directions[dir].first, out.back().second + directions[dir].second};
                    if (w.inside(next)) {
                        out.push_back(next);
                        break;
                    }
                }
            }
        }
        return out;
    }

    xy anywhere(vh::rng &r, const world &w) { return {r.range(0, w.width - 1), r.range(0, w.height - 1)}; }

    // from one position to another
    void go(vh::rng &r, walk &out, const xy &to) {
        while (out.back() != to) {
            auto next = out.back();
            const auto dx = to.first - next.first, dy = to.second - next.second;
            if (dx != 0 and (dy == 0 or r.chance(0.5))) {
                next.first += dx > 0 ? 1 : -1;
            } else {
                next.second += dy > 0 ? 1 : -1;
            }
            out.push_back(next);
        }
    }

    walk vary(vh::rng &r, const world &w, walk a) {
        for (auto k = r.range(1, 3); k > 0 and a.size() >= 2; --k) {
            const auto i = static_cast<std::size_t>(r.range(0, static_cast<std::int64_t>(a.size()) - 1));
            const auto j = static_cast<std::size_t>(r.range(static_cast<std::int64_t>(i), std::min<std::int64_t>(static_cast<std::int64_t>(a.size()) - 1,
                    static_cast<std::int64_t>(i) + 8)));
            const auto ai = a.begin() + static_cast<std::ptrdiff_t>(i), aj = a.begin() + static_cast<std::ptrdiff_t>(j);
            switch (r.range(0, 7)) {
                case 0: // another way between two positions
                {
                    walk detour{*ai};
                    if (r.chance(0.6)) {
                        detour = random_walk(r, w, *ai, r.range(0, 4));
                    }
                    go(r, detour, *aj);
                    walk out{a.begin(), ai};
                    out.insert(out.end(), detour.begin(), detour.end());
                    out.insert(out.end(), aj + 1, a.end());
                    a = out;
                    break;
                }
                case 1: // and back
                {
                    auto spur = random_walk(r, w, *ai, r.range(1, 3));
                    auto back = spur;
                    std::reverse(back.begin(), back.end());
                    spur.insert(spur.end(), back.begin() + 1, back.end());
                    walk out{a.begin(), ai};
                    out.insert(out.end(), spur.begin(), spur.end());
                    out.insert(out.end(), ai + 1, a.end());
                    a = out;
                    break;
                }
                case 2: // back and forth on itself
                {
                    walk out{a.begin(), aj + 1};
                    for (auto q = aj; q != ai;) {
                        out.push_back(*--q);
                    }
                    out.insert(out.end(), ai + 1, a.end());
                    a = out;
                    break;
                }
                case 3:
                    a.erase(a.begin(), ai);
                    break;
                case 4:
                    a.erase(aj + 1, a.end());
                    break;
                case 5: // longer at the start
                {
                    auto more = random_walk(r, w, a.front(), r.range(1, 4));
                    std::reverse(more.begin(), more.end());
                    more.insert(more.end(), a.begin() + 1, a.end());
                    a = more;
                    break;
                }
                case 6: // longer at the end
                {
                    const auto more = random_walk(r, w, a.back(), r.range(1, 4));
                    a.insert(a.end(), more.begin() + 1, more.end());
                    break;
                }
                default:
                    if (r.chance(0.2)) {
                        std::reverse(a.begin(), a.end());
                    }
                    break;
            }
        }
        return a;
    }

    // a line without touching itself and the same line with one detour
    std::pair<walk, walk> detour(vh::rng &r, const world &w) {
        walk a{anywhere(r, w)};
        std::set<xy> used{a.front()};
        for (auto k = r.range(2, 20); k > 0; --k) {
            const auto &d = directions[r.range(0, w.kinds - 1)];
            const xy next{a.back().first + d.first, a.back().second + d.second};
            if (w.inside(next) and used.insert(next).second) {
                a.push_back(next);
            }
        }
        const auto last = static_cast<std::int64_t>(a.size()) - 1;
        const auto i = r.range(0, last), j = std::min(last, i + r.range(1, 6));
        const xy from = a[static_cast<std::size_t>(i)], to = a[static_cast<std::size_t>(j)];
        std::map<xy, xy> came{{from, from}};
        std::vector<xy> queue{from};
        for (std::size_t q = 0; q < queue.size() and not came.contains(to); ++q) {
            std::vector<int> order{0, 1, 2, 3};
            r.shuffle(order);
            for (const int k : order) {
                const xy next{queue[q].first + directions[k].first, queue[q].second + directions[k].second};
                // not by the straight step that the line takes itself
                if (w.inside(next) and (next == to ? not (q == 0 and j == i + 1) : not used.contains(next)) and came.try_emplace(next, queue[q]).second) {
                    queue.push_back(next);
                }
            }
        }
        if (not came.contains(to) or from == to) {
            return {a, a};
        }
        walk way{to};
        while (way.back() != from) {
            way.push_back(came.at(way.back()));
        }
        std::reverse(way.begin(), way.end());
        walk b{a.begin(), a.begin() + i};
        b.insert(b.end(), way.begin(), way.end());
        b.insert(b.end(), a.begin() + j + 1, a.end());
        return {a, b};
    }

    steps take(const walks &ws) {
        steps out;
        for (const auto &w : ws) {
            for (std::size_t i = 1; i < w.size(); ++i) {
                ++out[{w[i - 1], w[i]}];
            }
        }
        return out;
    }

    // cuts into lines, with or without gaps
    walks cut(vh::rng &r, const walk &w) {
        walks out;
        walk now;
        for (std::size_t i = 0; i < w.size(); ++i) {
            now.push_back(w[i]);
            if (r.chance(0.12)) {
                out.push_back(now);
                now.clear();
                if (r.chance(0.5)) {
                    now.push_back(w[i]); // no gap
                } else {
                    i += static_cast<std::size_t>(r.range(0, 3));
                }
            }
        }
        if (not now.empty()) {
            out.push_back(now);
        }
        if (r.chance(0.1)) {
            out.insert(out.begin() + r.range(0, static_cast<std::int64_t>(out.size())), walk{});
        }
        return out;
    }

    // some of the positions that are not needed for the shape
    walk thin(vh::rng &r, const walk &w, double keep) {
        walk out;
        for (std::size_t i = 0; i < w.size(); ++i) {
            const bool straight = i > 0 and i + 1 < w.size() and w[i].first - w[i - 1].first == w[i + 1].first - w[i].first and
                    w[i].second - w[i - 1].second == w[i + 1].second - w[i].second;
            if (not straight or r.chance(keep)) {
                out.push_back(w[i]);
            }
            if (r.chance(0.03)) {
                out.push_back(w[i]); // the same position twice
            }
        }
        return out;
    }

    std::string say(const walks &ws) {
        std::ostringstream o;
        for (const auto &w : ws) {
            o << "[";
            for (const auto &p : w) {
                o << " " << p.first << "," << p.second;
            }
            o << " ] ";
        }
        return o.str();
    }

    std::string say(const steps &s) {
        std::ostringstream o;
        for (const auto &[k, n] : s) {
            if (n != 0) {
                o << k.first.first << "," << k.first.second << ">" << k.second.first << "," << k.second.second << "*" << n << " ";
            }
        }
        return o.str();
    }

    template<typename CS>
    struct monitor {
        using point = g::point_type<CS>;
        using line = typename g::models<point>::template line_type<>;
        using rich_line = g::rich_line<point>;
        using multi_rich_line = g::multi_rich_line<rich_line>;
        using comparator = g::line_comparator<multi_rich_line>;
        static constexpr bool plane = std::same_as<CS, g::cs_cartesian>;

        world w;
        xy origin{};
        double noise{};

        mutable std::map<xy, std::pair<double, double>> moved; // the noise of one line

        point at(vh::rng &r, const xy &p) const {
            const double x = (static_cast<double>(p.first) + static_cast<double>(origin.first)) * w.unit,
                    y = (static_cast<double>(p.second) + static_cast<double>(origin.second)) * w.unit;
            double nx = 0, ny = 0;
            if (noise > 0) {
                const auto it = moved.find(p);
                std::tie(nx, ny) = it != moved.end() ? it->second : moved.try_emplace(p, r.real(-noise, noise), r.real(-noise, noise)).first->second;
            }
            if constexpr (plane) {
                return point{x + nx, y + ny};
            } else {
                return point{10 + (x + nx) * 1e-5, 48 + (y + ny) * 1e-5};
            }
        }

        line make(vh::rng &r, const walk &q) const {
            line l;
            for (const auto &p : q) {
                l.emplace_back(at(r, p));
            }
            return l;
        }

        multi_rich_line make(vh::rng &r, const walks &ws) const {
            moved.clear();
            typename multi_rich_line::rich_lines_container_type ls;
            for (const auto &q : ws) {
                ls.emplace_back(make(r, q));
            }
            return multi_rich_line{std::move(ls)};
        }

        // the lattice position of a point, if it has one
        std::optional<xy> position(const point &p) const {
            double x = p.template get<0>(), y = p.template get<1>();
            if constexpr (not plane) {
                x = (x - 10) * 1e5, y = (y - 48) * 1e5;
            }
            x = x / w.unit - static_cast<double>(origin.first), y = y / w.unit - static_cast<double>(origin.second);
            const auto rx = std::llround(x), ry = std::llround(y);
            const double tolerance = noise == 0 ? 1e-7 : 0.5 / w.unit;
            if (std::abs(x - static_cast<double>(rx)) > tolerance or std::abs(y - static_cast<double>(ry)) > tolerance) {
                return std::nullopt;
            }
            return xy{rx, ry};
        }

        template<typename Segments>
        bool add(steps &out, const Segments &segments) const {
            for (const auto &s : segments) {
                const auto p = position(s.first()), q = position(s.second());
                if (not p or not q) {
                    return false;
                }
                const auto dx = q->first - p->first, dy = q->second - p->second;
                const auto n = std::gcd(std::abs(dx), std::abs(dy));
                for (std::int64_t i = 0; i < n; ++i) {
                    const auto ux = dx / n, uy = dy / n;
                    ++out[{{p->first + i * ux, p->second + i * uy}, {p->first + (i + 1) * ux, p->second + (i + 1) * uy}}];
                }
            }
            return true;
        }

        template<typename Segments>
        static double sum(const Segments &segments) {
            double out = 0;
            for (const auto &s : segments) {
                out += s.has_length() ? static_cast<double>(s.length()) : 0.0;
            }
            return out;
        }

        void check(vh::context &ctx, vh::rng &r, const comparator &c, const walks &a, const walks &b, const walks &given_a, const walks &given_b,
                bool single) {
            const auto words = [&] {
                return vh::cat("unit ", w.unit, " origin ", origin.first, ",", origin.second, " noise ", noise, " simplify ", c.simplifying_tolerance,
                        " reverse ", c.simplifying_reverse_tolerance, " adopt ", c.adoption_distance_tolerance, " split ", c.split_distance_tolerance,
                        " direction ", c.split_direction_tolerance, "\nreference ", say(given_a), "\nmatch ", say(given_b));
            };
            const auto ma = make(r, given_a), mb = make(r, given_b);
            const auto result = single ? c.compare(ma.rich_lines().front(), mb.rich_lines().front()) : c.compare(ma, mb);
            const double la = ma.has_length() ? static_cast<double>(ma.length()) : 0.0, lb = mb.has_length() ? static_cast<double>(mb.length()) : 0.0;
            const double correct = result.correct, added = result.error_added, missed = result.error_missed;
            const auto want_a = take(a), want_b = take(b);
            std::size_t points = 2;
            for (const auto *m : {&given_a, &given_b}) {
                for (const auto &q : *m) {
                    points += q.size();
                }
            }
            // adopted points move by less than the tolerances, each at the ends of two segments
            const double tolerance = noise > 0 ? static_cast<double>(points) * 0.2 : plane ? 1e-6 * (la + lb) + 1e-9 : 2e-3 * (la + lb) + 0.01;
            const auto numbers = [&] {
                return vh::cat("correct ", correct, " added ", added, " missed ", missed, " fractions ", result.correct_fraction, " ", result.error_fraction,
                        " lengths ", la, " ", lb, " ", words());
            };
            ctx.require(std::abs(correct + missed - la) <= tolerance, "correct and missing length are not the reference length", numbers);
            ctx.require(std::abs(correct + added - lb) <= tolerance, "correct and added length are not the length of the match", numbers);
            const double exact = 1e-9 * (la + lb) + 1e-9;
            // without lines nothing is split
            if (not want_a.empty() and not want_b.empty()) {
                ctx.require(std::abs(sum(result.corrects) - correct) <= exact, "correct parts do not have the correct length", numbers);
            }
            ctx.require(std::abs(sum(result.error_adds) - added) <= tolerance, "added parts do not have the added length", numbers);
            ctx.require(std::abs(sum(result.error_misses) - missed) <= tolerance, "missing parts do not have the missing length", numbers);

            steps parts_a, parts_b;
            const bool on_lattice = add(parts_a, result.corrects) and add(parts_a, result.error_misses) and add(parts_b, result.corrects) and
                    add(parts_b, result.error_adds);
            ctx.require(on_lattice, "part ends at a position of neither line", numbers);
            if (on_lattice) {
                const auto differs = [&](const steps &got, const steps &want) {
                    return [&] {
                        steps d = got;
                        for (const auto &[k, n] : want) {
                            d[k] -= n;
                        }
                        return vh::cat("too many (negative: too few): ", say(d), "\n", numbers());
                    };
                };
                ctx.require(parts_a == want_a, "correct and missing parts are not the reference line", differs(parts_a, want_a));
                ctx.require(parts_b == want_b, "correct and added parts are not the match", differs(parts_b, want_b));
            }

            // fractions
            const double eps = 1e-9;
            if ((want_a.empty() or want_b.empty()) and la == 0 and lb == 0 and points > 4) {
                ctx.stat("lines_without_length"); // not decided
            } else if (want_a.empty() and want_b.empty()) {
                ctx.require(result.correct_fraction == 1 and result.error_fraction == 0, "fractions of two empty lines", numbers);
                ctx.stat("both_empty");
            } else if (want_a.empty()) {
                ctx.require(result.correct_fraction == 0 and std::isinf(result.error_fraction), "fractions without reference", numbers);
                ctx.stat("reference_empty");
            } else if (want_b.empty()) {
                ctx.require(result.correct_fraction == 0 and result.error_fraction == 1, "fractions without match", numbers);
                ctx.stat("match_empty");
            } else {
                ctx.require(vh::close(result.error_fraction, (added + missed) / la, eps, eps), "error fraction", numbers);
                const double fraction = added + missed == 0 ? 1 : std::clamp(correct / std::max(la, lb), 0.0, 1.0);
                ctx.require(vh::close(result.correct_fraction, fraction, eps, eps), "correct fraction", numbers);
            }
            // nothing in common
            steps common;
            for (const auto &[k, n] : want_a) {
                if (const auto it = want_b.find(k); it != want_b.end()) {
                    common[k] = std::min(n, it->second);
                }
            }
            if (common.empty()) {
                ctx.require(correct == 0 and result.corrects.empty(), "something is correct without a common stretch", numbers);
                ctx.stat("nothing_in_common");
            } else {
                ctx.stat("something_in_common");
            }
            // the same line, whatever the points on it
            if (a == b and not want_a.empty()) {
                ctx.require(added <= tolerance and missed <= tolerance, "a line compared with itself is not correct", numbers);
                ctx.stat("same_line");
            }
            if (single and noise == 0 and a.front().size() >= 2 and b.front().size() >= 2) {
                const auto &wa = a.front(), &wb = b.front();
                std::size_t prefix = 0, suffix = 0;
                while (prefix < std::min(wa.size(), wb.size()) and wa[prefix] == wb[prefix]) {
                    ++prefix;
                }
                while (suffix < std::min(wa.size(), wb.size()) - prefix and wa[wa.size() - 1 - suffix] == wb[wb.size() - 1 - suffix]) {
                    ++suffix;
                }
                const auto length = [&](const walk &q, std::size_t from, std::size_t to) {
                    return to > from ? static_cast<double>(g::length(make(r, walk(q.begin() + static_cast<std::ptrdiff_t>(from), q.begin() + static_cast<std::ptrdiff_t>(to))))) : 0.0;
                };
                const double start = length(wa, 0, prefix), end = length(wa, wa.size() - suffix, wa.size());
                ctx.require(correct >= start - tolerance, "common start is not correct", [&] { return vh::cat(start, " ", numbers()); });
                // one detour that touches neither itself nor the other line
                std::set<xy> all_a{wa.begin(), wa.end()}, all_b{wb.begin(), wb.end()}, all = all_a;
                all.insert(all_b.begin(), all_b.end());
                if (all_a.size() == wa.size() and all_b.size() == wb.size() and all.size() == wa.size() + wb.size() - prefix - suffix and prefix > 0 and
                    suffix > 0) {
                    ctx.require(std::abs(correct - start - end) <= tolerance, "parts outside of a detour are not correct", [&] { return vh::cat(start, " ", end, " ", numbers()); });
                    ctx.stat("detours");
                }
                ctx.stat("starts_in_common", prefix > 1);
            }
            ctx.stat(added == 0 and missed == 0 ? "entirely_correct" : correct > 0 ? "partly_correct" : "entirely_wrong");
            ctx.stat("parts", result.corrects.size() + result.error_adds.size() + result.error_misses.size());
            ctx.stat(single ? "single_lines" : "multi_lines");
        }

        // the same steps with other points
        walks dress(vh::rng &r, const walks &ws, double keep) {
            walks out;
            for (const auto &q : ws) {
                out.push_back(thin(r, q, keep));
            }
            return out;
        }

        void run(vh::context &ctx, vh::rng &r) {
            w.width = r.range(2, ctx.thorough ? 9 : 6);
            w.height = r.range(2, ctx.thorough ? 9 : 6);
            w.kinds = plane and r.chance(0.3) ? 8 : 4;
            w.unit = r.chance(0.5) ? static_cast<double>(r.range(5, 60)) : r.real(5, 60);
            if (plane and r.chance(0.3)) {
                origin = {r.range(-100000, 100000), r.range(-100000, 100000)};
            }
            noise = plane and r.chance(0.2) ? r.real(1e-4, 0.02) : 0; // distances on the ellipsoid are too coarse for it
            comparator c;
            c.split_distance_tolerance = r.chance(0.5) ? 1.0 : r.real(0.2, 1.0);
            c.split_direction_tolerance = r.chance(0.5) ? 90.0 : r.real(20, 120);
            c.simplifying_reverse_tolerance = r.chance(0.5) ? 0.1 : r.real(0.01, 2);
            if (noise > 0) {
                c.simplifying_reverse_tolerance = 3; // noisy reversals are not exact
            } else {
                c.simplifying_tolerance = r.chance(0.5) ? 0.1 : r.real(1e-3, 0.1);
                c.adoption_distance_tolerance = r.chance(0.5) ? 0.1 : r.real(1e-3, 0.1);
            }
            const bool single = r.chance(0.6);
            walk a = random_walk(r, w, anywhere(r, w), r.chance(0.05) ? 0 : r.range(1, ctx.thorough ? 40 : 18)), b;
            const auto kind = r.range(0, 9);
            b = kind == 0 ? random_walk(r, w, anywhere(r, w), r.chance(0.1) ? 0 : r.range(1, 18)) : kind <= 2 ? a : vary(r, w, a);
            if (r.chance(0.15)) {
                std::tie(a, b) = detour(r, w);
                if (r.chance(0.5)) {
                    std::swap(a, b);
                }
            }
            walks as{a}, bs{b};
            if (not single) {
                as = cut(r, a);
                bs = b == a and r.chance(0.7) ? as : r.chance(0.5) ? cut(r, b) : walks{b};
                if (r.chance(0.1)) {
                    (r.chance(0.5) ? as : bs).clear();
                }
            }
            const auto keep = [&] { return r.chance(0.3) ? 0.0 : r.chance(0.4) ? 1.0 : r.real(0, 1); };
            ctx.observe(vh::hash_str(vh::cat(say(as), say(bs), w.unit, noise)));
            // the monitor compares the steps, the comparator sees some of the points
            check(ctx, r, c, as, bs, dress(r, as, keep()), dress(r, bs, keep()), single);
        }
    };

    void plane(vh::context &ctx, vh::rng &r) { monitor<g::cs_cartesian>{}.run(ctx, r); }
    void ellipsoid(vh::context &ctx, vh::rng &r) { monitor<g::cs_geographic>{}.run(ctx, r); }

}

int main(int argc, char **argv) {
    return vh::run(argc, argv, {{"plane", plane, 60000, 2000000}, {"ellipsoid", ellipsoid, 6000, 200000}});
}
