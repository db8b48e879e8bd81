// Monitor: files of candidates and matches of real matching are read and compared with the matching.
#include "matching.hpp"
#include "results_read.hpp"
#include "watchdog.hpp"

#include "matching/matcher.hpp"

#include <iostream>

namespace {

    using namespace matching;
    using results::row;
    using multi_track_type = ma::network_traits<N>::multi_track_type;
    using single_type = map_matching_2::environment::single<N>;
    using hmm_type = map_matching_2::environment::hmm<N>;

    struct capture {
        std::ostringstream out;
        std::streambuf *const kept{std::cout.rdbuf(out.rdbuf())};
        ~capture() { std::cout.rdbuf(kept); }
    };

    bool near(const xy &a, const xy &b) { return std::abs(a.first - b.first) <= 1e-9 * (1 + std::abs(a.first)) and std::abs(a.second - b.second) <= 1e-9 * (1 + std::abs(a.second)); }

    std::vector<xy> tidy(const std::vector<xy> &l) {
        std::vector<xy> out;
        for (const auto &q : l) {
            if (out.empty() or not near(out.back(), q)) { out.push_back(q); }
        }
        return out;
    }

    bool equal(const std::vector<xy> &a, const std::vector<xy> &b) { return std::equal(a.begin(), a.end(), b.begin(), b.end(), near); }

    lines_type tidy(const lines_type &ls) {
        lines_type out;
        for (const auto &l : ls) {
            if (auto t = tidy(l); t.size() > 1) { out.push_back(std::move(t)); }
        }
        return out;
    }

    // is the road its part before a position and its part after it
    bool parts_of(std::vector<xy> from, const std::vector<xy> &to, const std::vector<xy> &line, const xy &q) {
        if (from.empty() or to.empty() or not near(from.back(), q) or not near(to.front(), q)) { return false; }
        from.insert(from.end(), to.begin(), to.end());
        const auto whole = tidy(from), road = tidy(line);
        if (equal(whole, road)) { return true; }
        for (std::size_t i = 0; i < whole.size(); ++i) {
            if (near(whole[i], q)) {
                auto w = whole;
                w.erase(w.begin() + static_cast<std::ptrdiff_t>(i));
                if (equal(tidy(w), road)) { return true; }
            }
        }
        return false;
    }

    struct expectation {
        std::string id;
        std::size_t part, set, candidate;
        xy point, projection;
        double distance;
        std::uint64_t edge_id;
        const std::vector<xy> *road;
        bool chosen;
    };

    template<typename E, typename L>
    void run(vh::context &ctx, vh::rng &r) {
        const bool integers = r.chance(0.5);
        const double unit = integers ? static_cast<double>(r.range(1, 50)) : r.real(1, 50);
        const auto p = random_roads(ctx, r, integers, unit, 0);
        const auto n = bake(p);
        const roads rd{n};
        auto s = random_settings(r, unit);
        s.k_nearest = std::min<std::size_t>(s.k_nearest, 3);
        s.radius = s.radius_lower_limit = std::min(s.radius, unit);
        const auto candidate_columns = results::random_columns(r, {"id", "part_index", "set_index", "candidate_index", "projection", "distance", "from", "to", "edge_id", "is_result"});
        const auto match_columns = results::random_columns(r, {"id", "aborted", "track", "prepared", "match", "track_length", "prepared_length", "match_length", "edge_ids"});
        const auto candidates_file = ctx.scratch / "candidates.csv", match_file = ctx.scratch / "matches.csv";
        std::vector<expectation> candidates;
        struct matched {
            std::string id, edge_ids;
            lines_type track, prepared, match;
        };
        std::vector<matched> matches;
        std::string all = vh::cat(say_settings(s), " ", p.str());
        std::size_t combinations = 0;
        capture printed;
        {
            map_matching_2::io::results::csv_candidates_exporter<> candidates_exporter{candidates_file.string(), results::joined(candidate_columns)};
            map_matching_2::io::results::csv_match_exporter<> match_exporter{match_file.string(), results::joined(match_columns)};
            map_matching_2::io::results::match_output_printer printer{false, true};
            candidates_exporter.start();
            match_exporter.start();
            printer.start();
            for (auto k = r.range(1, 4); k > 0; --k) {
                map_matching_2::util::time_helper time;
                ma::algorithms<N> algorithms{n, time};
                const auto id = results::random_id(r, k);
                multi_track_type::multi_line_type track_lines;
                matched m{id, "", {}, {}, {}};
                const auto parts = r.chance(0.7) ? 1 : r.range(0, 3);
                for (auto i = parts; i > 0; --i) {
                    const auto l = random_track(r, p, r.range(0, 6));
                    line_type line;
                    for (const auto &q : l) { line.emplace_back(P(q)); }
                    track_lines.emplace_back(std::move(line));
                    m.track.push_back(l);
                    all += " [" + say_track(l) + "]";
                }
                multi_track_type multi{id, std::move(track_lines)};
                ma::match_result<L> result;
                result.environments.reserve(multi.size());
                result.learner.reserve(multi.size());
                std::vector<route_type> routes;
                multi_track_type::multi_rich_line_type::rich_lines_container_type prepared;
                for (std::size_t i = 0; i < multi.size(); ++i) {
                    auto &environment = result.environments.emplace_back(n, algorithms, s);
                    auto &learner = result.learner.emplace_back(environment, s);
                    environment.set(multi.get_track(i));
                    auto policy = learner();
                    prepared.emplace_back(environment.track().rich_line);
                    m.prepared.push_back(net::to_xys(environment.track().rich_line.line()));
                    routes.emplace_back(environment.result(policy));
                    const auto ids = algorithms.router.edge_ids(algorithms.router.edges_list(routes.back()));
                    for (const auto e : ids) {
                        result.edge_ids.push_back(e);
                        m.edge_ids += (m.edge_ids.empty() ? "" : ",") + std::to_string(e);
                    }
                    for (const auto &l : lines(routes.back())) { m.match.push_back(l); }
                    combinations += environment.states();
                    const auto &sets = environment.candidates();
                    for (std::size_t j = 0; j < sets.size(); ++j) {
                        for (std::size_t c = 0; c < sets[j].edges.size(); ++c) {
                            const auto &edge = sets[j].edges[c];
                            const auto &e = rd.edges.at(rd.number.at(edge.edge_desc));
                            const auto point = net::to_xy(sets[j].point()), projection = net::to_xy(edge.projection_point);
                            const bool chosen = std::any_of(policy.begin(), policy.end(), [&](const auto &x) { return x.first == j and x.second == c; });
                            candidates.push_back({id, i, j, c, point, projection, net::dist(point, projection), e.id, &e.line, chosen});
                        }
                    }
                    result.policies.push_back(std::move(policy));
                }
                result.prepared = multi_track_type{id, multi_track_type::multi_rich_line_type{std::move(prepared)}};
                result.track = std::move(multi);
                // routes are drawn one after the other, and joined where they touch
                result.match = route_type::template merge<ma::network_traits<N>::lazy_rich_line_type>({routes.begin(), routes.end()});
                m.match = lines(result.match);
                candidates_exporter.pass(candidates_exporter.parse_result(n, result));
                match_exporter.pass(match_exporter.parse_result(result));
                printer.pass(printer.parse_result(result));
                matches.push_back(std::move(m));
            }
            candidates_exporter.stop();
            match_exporter.stop();
            printer.stop();
            candidates_exporter.join();
            match_exporter.join();
            printer.join();
        }
        ctx.observe(vh::hash_str(all));
        const auto rows = results::read_csv(candidates_file), match_rows = results::read_csv(match_file);
        std::filesystem::remove(candidates_file);
        std::filesystem::remove(match_file);
        const auto say = [&] { return vh::cat("candidates", results::say(rows), "\nmatches", results::say(match_rows), "\n", printed.out.str(), "\nof ", all); };
        ctx.require(rows.empty() ? candidates.empty() : rows.front() == candidate_columns and rows.size() == candidates.size() + 1, "not one row per candidate", say);
        for (std::size_t i = 0; i + 1 < rows.size() and i < candidates.size(); ++i) {
            const auto &row = rows[i + 1];
            const auto &e = candidates[i];
            ctx.require(row.size() == candidate_columns.size(), "columns of a candidate", say);
            std::vector<xy> from, to;
            for (std::size_t k = 0; k < std::min(row.size(), candidate_columns.size()); ++k) {
                const auto &c = candidate_columns[k];
                const auto &f = row[k];
                auto wkt = c == "projection" or c == "from" or c == "to" ? results::parse_wkt(f) : std::nullopt;
                bool line = wkt and wkt->size() == 1;
                if (line and wkt->front().empty()) {
                    // nothing of the road is before its start or after its end
                    if (c == "from" and near(e.projection, e.road->front())) { wkt->front() = {e.road->front()}; }
                    if (c == "to" and near(e.projection, e.road->back())) { wkt->front() = {e.road->back()}; }
                    line = not wkt->front().empty();
                    ctx.stat("nothing_before_or_after");
                }
                if (line and c == "from") { from = wkt->front(); }
                if (line and c == "to") { to = wkt->front(); }
                const bool good = c == "id" ? f == e.id :
                        c == "part_index" ? f == std::to_string(e.part) :
                        c == "set_index" ? f == std::to_string(e.set) :
                        c == "candidate_index" ? f == std::to_string(e.candidate) :
                        c == "distance" ? results::same_number(f, e.distance) :
                        c == "edge_id" ? f == std::to_string(e.edge_id) :
                        c == "is_result" ? f == (e.chosen ? "1" : "0") :
                        not line ? false :
                        c == "projection" ? equal(wkt->front(), {e.point, e.projection}) :
                        c == "from" ? near(wkt->front().front(), e.road->front()) and near(wkt->front().back(), e.projection) :
                        near(wkt->front().front(), e.projection) and near(wkt->front().back(), e.road->back());
                ctx.require(good, "candidate-" + c, [&] { return vh::cat("row ", i, ": {", f, "} of ", e.id, " ", e.part, " ", e.set, " ", e.candidate, " ", say()); });
                ctx.stat("candidate_fields");
            }
            if (not from.empty() and not to.empty()) {
                ctx.require(parts_of(from, to, *e.road, e.projection), "parts of a road", [&] { return vh::cat("row ", i, " ", say()); });
                ctx.stat("roads_in_parts");
            }
            ctx.stat(e.chosen ? "chosen_candidates" : "other_candidates");
        }
        ctx.require(match_rows.size() == matches.size() + 1 and match_rows.front() == match_columns, "not one row per matched track", say);
        for (std::size_t i = 0; i + 1 < match_rows.size() and i < matches.size(); ++i) {
            const auto &row = match_rows[i + 1];
            const auto &m = matches[i];
            ctx.require(row.size() == match_columns.size(), "columns of a matched track", say);
            const auto same = [&](const std::string &f, const lines_type &ls) {
                const auto wkt = results::parse_wkt(f);
                if (not wkt) { return false; }
                const auto a = tidy(*wkt), b = tidy(ls);
                return a.size() == b.size() and std::equal(a.begin(), a.end(), b.begin(), equal);
            };
            const auto len = [&](const std::string &f, const lines_type &ls) { return std::abs(std::atof(f.c_str()) - length(ls)) <= 1e-5 * (1 + length(ls)); };
            for (std::size_t k = 0; k < std::min(row.size(), match_columns.size()); ++k) {
                const auto &c = match_columns[k];
                const auto &f = row[k];
                const bool good = c == "id" ? f == m.id :
                        c == "aborted" ? f == "no" :
                        c == "track" ? same(f, m.track) :
                        c == "prepared" ? same(f, m.prepared) :
                        c == "match" ? same(f, m.match) :
                        c == "track_length" ? len(f, m.track) :
                        c == "prepared_length" ? len(f, m.prepared) :
                        c == "match_length" ? len(f, m.match) : f == m.edge_ids;
                ctx.require(good, "matched-" + c, [&] { return vh::cat("row ", i, ": {", f, "} ", say()); });
                ctx.stat("matched_fields");
            }
            ctx.stat(m.match.empty() ? "nothing_matched" : m.match.size() == 1 ? "matched_in_one_line" : "matched_in_lines");
        }
        ctx.require(printed.out.str().find(vh::cat("candidates: ", candidates.size(), ", combinations: ", combinations)) != std::string::npos, "summary of matched tracks", say);
    }

    void matched(vh::context &ctx, vh::rng &r) {
        vh::watchdog dog{60};
        if (r.chance(0.5)) {
            run<single_type, map_matching_2::learning::value_iteration<single_type>>(ctx, r);
        } else {
            run<hmm_type, map_matching_2::learning::viterbi<hmm_type>>(ctx, r);
        }
    }

}

int main(int argc, char **argv) {
    return vh::run(argc, argv, {{"matched", matched, 4000, 60000}});
}
