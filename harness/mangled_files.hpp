// Track files of all kinds, the options that describe them, and program runs on damaged files.
#ifndef VERIF_MANGLED_FILES_HPP
#define VERIF_MANGLED_FILES_HPP

#include "mangle.hpp"
#include "watchdog.hpp"

#include "app/general.hpp"
#include "app/options.hpp"

#include <fstream>

namespace mangled {

    namespace app = map_matching_2::app;
    namespace po = boost::program_options;
    using strings = std::vector<std::string>;
    using xy = std::pair<double, double>;
    using track = std::vector<xy>;

    inline std::string number(double v) {
        char out[64];
        std::snprintf(out, sizeof out, "%.7f", v);
        return out;
    }

    inline std::string coordinates(const track &t) {
        std::string out;
        for (std::size_t k = 0; k < t.size(); ++k) { out += (k ? "," : "") + number(t[k].first) + " " + number(t[k].second); }
        return "(" + out + ")";
    }

    struct input {
        std::string text;
        strings words; // options
    };

    inline std::string time_of(vh::rng &r, std::size_t k, bool parse, const std::string &format) {
        const auto value = static_cast<std::int64_t>(1600000000 + 7 * k + r.range(0, 3));
        if (not parse) { return std::to_string(value); }
        const std::time_t t = value;
        std::tm tm{};
        gmtime_r(&t, &tm);
        char out[64];
        std::strftime(out, sizeof out, format == "%F %T" ? "%F %T" : "%FT%TZ", &tm);
        return out;
    }

    // tracks as one file of comma separated values
    inline input csv_input(vh::rng &r, const std::vector<track> &tracks, const std::string &prefix) {
        input in;
        const auto add = [&](const std::string &name, const std::string &value) {
            in.words.push_back("--" + prefix + name);
            in.words.push_back(value);
        };
        const bool wkt = r.chance(0.6), points = wkt and r.chance(0.4), header = r.chance(0.7), times = r.chance(0.6), parse = r.chance(0.6), tabs = r.chance(0.3), two_ids = r.chance(0.2);
        const auto format = r.chance(0.5) ? "%F %T" : "";
        const std::string d = tabs ? "\t" : r.chance(0.8) ? "," : ";";
        if (d != ",") { add("delimiter", tabs ? "\\t" : d); }
        if (not header) { in.words.push_back("--" + prefix + "no-header"); }
        if (wkt) { in.words.push_back("--" + prefix + "wkt"); }
        if (not parse and times) { in.words.push_back("--" + prefix + "no-parse-time"); }
        if (*format) { add("time-format", format); }
        if (r.chance(0.3)) { add("grouped", "off"); }
        if (r.chance(0.05)) { in.words.push_back("--" + prefix + "no-id"); }
        else if (two_ids) {
            add("id", header ? "id" : "0");
            add("id", header ? "more" : "1");
        } else if (not header) { add("id", "0"); }
        if (r.chance(0.05)) { add("skip-lines", "1"); }
        if (r.chance(0.05)) { add("selector", "t1"); }
        if (not header) {
            if (times) { add("time", "2"); }
            if (wkt) {
                add("geometry", times ? "3" : "2");
            } else {
                add("x", times ? "3" : "2");
                add("y", times ? "4" : "3");
            }
        } else {
            in.text = "id" + d + "more" + (times ? d + "time" : "") + (wkt ? d + "geometry" : d + "x" + d + "y") + "\n";
        }
        for (std::size_t i = 0; i < tracks.size(); ++i) {
            const auto head = [&](std::size_t k) { return vh::cat("t", i) + d + "7" + (times ? d + time_of(r, k, parse, format) : ""); };
            if (wkt and not points) {
                const auto multi = r.chance(0.3);
                in.text += head(0) + d + "\"" + (multi ? "MULTILINESTRING(" + coordinates(tracks[i]) + ")" : "LINESTRING" + coordinates(tracks[i])) + "\"\n";
                continue;
            }
            for (std::size_t k = 0; k < tracks[i].size(); ++k) {
                const auto x = number(tracks[i][k].first), y = number(tracks[i][k].second);
                in.text += head(k) + d + (wkt ? "POINT(" + x + " " + y + ")" : x + d + y) + "\n";
            }
        }
        return in;
    }

    inline input gpx_input(vh::rng &r, const std::vector<track> &tracks, const std::string &prefix) {
        input in;
        const bool times = r.chance(0.6), parse = r.chance(0.7);
        if (not parse) { in.words.push_back("--" + prefix + "no-parse-time"); }
        if (r.chance(0.1)) { in.words.push_back("--" + prefix + "no-id"); }
        in.text = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<gpx version=\"1.1\">\n<metadata>\n<name>all</name>\n</metadata>\n";
        for (std::size_t i = 0; i < tracks.size(); ++i) {
            in.text += "<trk>\n" + (r.chance(0.9) ? vh::cat("<name>t", i, "</name>\n") : "") + "<trkseg>\n";
            for (std::size_t k = 0; k < tracks[i].size(); ++k) {
                in.text += "<trkpt lat=\"" + number(tracks[i][k].second) + "\" lon=\"" + number(tracks[i][k].first) + "\">" + (times ? "<time>" + time_of(r, k, parse, "") + "</time>" : "") + "</trkpt>\n";
                if (r.chance(0.05)) { in.text += "</trkseg>\n<trkseg>\n"; }
            }
            in.text += "</trkseg>\n</trk>\n";
        }
        in.text += "</gpx>\n";
        return in;
    }

    // runs of the program on files that are more and more damaged: the first run has the files as they are
    template<typename Data, typename Options, typename Run>
    void runs(vh::context &ctx, vh::rng &r, const std::string &kind, strings words, const std::vector<std::pair<std::string, std::string>> &files, const std::string &console, app::MODE mode,
            Options &&options, Run &&run) {
        vh::watchdog dog{120};
        for (int k = 0; k < 6; ++k) {
            std::filesystem::create_directories(ctx.scratch / "out");
            auto all = words;
            strings texts;
            for (const auto &f : files) { texts.push_back(f.second); }
            texts.push_back(console);
            if (k > 0) {
                for (auto n = r.chance(0.7) ? 1 : 2; n > 0; --n) {
                    mangle::some(ctx, r, console.empty() ? texts[static_cast<std::size_t>(r.range(0, static_cast<std::int64_t>(files.size()) - 1))] : texts.back());
                }
            }
            for (std::size_t i = 0; i < files.size(); ++i) {
                std::ofstream out{files[i].first, std::ios::binary};
                out << texts[i];
            }
            const auto text = [&] {
                std::string out;
                for (const auto &w : all) { out += w + " "; }
                for (const auto &t : texts) { out += "\n--- file:\n" + mangle::say(t); }
                return out;
            };
            {
                // for crashes
                std::ofstream out{ctx.scratch / "case.txt", std::ios::binary};
                out << text();
            }
            mangle::arguments args{all};
            Data data;
            std::string error;
            {
                mangle::silence quiet;
                std::istringstream in{texts.back()};
                auto *const kept = std::cin.rdbuf(in.rdbuf());
                try {
                    auto description = options(data);
                    po::variables_map vm;
                    if (not app::process(args.count(), args.values(), vm, description, mode)) { throw std::runtime_error{"options: " + quiet.log.str()}; }
                    data.correct(vm);
                    app::set_global_verbose_quiet(data.all.verbose, data.all.quiet);
                    run(data);
                } catch (const std::exception &e) {
                    error = vh::cat(typeid(e).name(), ": ", e.what());
                }
                std::cin.rdbuf(kept);
                std::cin.clear();
            }
            ctx.require(k > 0 or error.empty(), "undamaged-refused", [&] { return error + "\n" + text(); });
            ctx.require(not error.starts_with("options:"), "undamaged-refused", [&] { return error + "\n" + text(); });
            ctx.stat(k == 0 ? "undamaged" : error.empty() ? "damaged_used" : "damaged_refused");
            if (k > 0) {
                std::string whole;
                for (const auto &t : texts) { whole += t; }
                ctx.observe(vh::hash_str(whole));
            }
            if (ctx.index < 8 and k == 1) { ctx.sample(text() + "\n" + error); }
            if (const auto result = ctx.scratch / "out" / "result.csv"; std::filesystem::exists(result) and std::filesystem::file_size(result) > 40) { ctx.stat("results_written"); }
            std::error_code ignored;
            std::filesystem::remove_all(ctx.scratch / "out", ignored);
        }
        ctx.stat(kind);
    }

}

#endif
