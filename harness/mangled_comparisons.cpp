// Monitor: damaged files of matches and ground truths are compared or refused, by the real comparison of the program.
#include "mangled_files.hpp"

#include "app/compare.hpp"

#include "geometry/cache.hpp"

namespace {

    namespace app = map_matching_2::app;
    using mangled::input;
    using strings = std::vector<std::string>;

    void damaged(vh::context &ctx, vh::rng &r) {
        const bool plane = r.chance(0.5);
        const double unit = plane ? r.real(1, 100) : 0.0003;
        const mangled::xy at = plane ? mangled::xy{r.real(-1e6, 1e6), r.real(-1e6, 1e6)} : mangled::xy{r.real(-170, 170), r.real(-80, 80)};
        std::vector<mangled::track> matches, truths;
        for (auto k = r.range(1, 3); k > 0; --k) {
            mangled::track t;
            for (auto m = r.range(1, 8); m > 0; --m) { t.emplace_back(at.first + unit * static_cast<double>(r.range(0, 6)), at.second + unit * static_cast<double>(r.range(0, 6))); }
            truths.push_back(t);
            for (auto m = r.range(0, 3); m > 0; --m) { r.pick(t) = {at.first + unit * static_cast<double>(r.range(0, 6)), at.second + unit * static_cast<double>(r.range(0, 6))}; }
            matches.push_back(std::move(t));
        }
        strings words{"map_matching_2", "--compare", "--output", (ctx.scratch / "out").string(), "--filename", "result.csv", "--quiet"};
        const auto add = [&](const std::string &name, const std::string &value) {
            words.push_back("--" + name);
            words.push_back(value);
        };
        std::vector<std::pair<std::string, std::string>> files;
        const auto side = [&](const std::vector<mangled::track> &tracks, const std::string &prefix) {
            const bool gpx = r.chance(0.3);
            const auto in = gpx ? mangled::gpx_input(r, tracks, prefix) : mangled::csv_input(r, tracks, prefix);
            words.insert(words.end(), in.words.begin(), in.words.end());
            files.emplace_back((ctx.scratch / (prefix + (gpx ? "tracks.gpx" : "tracks.csv"))).string(), in.text);
            add(prefix + "tracks", files.back().first);
            if (plane) {
                add(prefix + "srs", "3857");
            }
        };
        side(matches, "match-");
        side(truths, "compare-");
        if (r.chance(0.3)) { words.push_back("--ignore-non-existent"); }
        if (r.chance(0.1)) { words.push_back("--console"); }
        add("threads", r.chance(0.5) ? "1" : "3");
        if (r.chance(0.5)) { add("columns", "id,duration,match,ground_truth,match_length,ground_truth_length,correct_fraction,error_fraction,correct,error_added,error_missed,corrects,error_adds,error_misses"); }
        mangled::runs<app::compare_data>(ctx, r, "comparisons", words, files, "", app::MODE::COMPARE, [](auto &data) { return app::options_compare(data); },
                [](const app::compare_data &data) { app::_start_comparison(data); });
    }

}

int main(int argc, char **argv) {
    map_matching_2::geometry::disable_cache();
    return vh::run(argc, argv, {{"comparisons", damaged, 600, 30000}});
}
