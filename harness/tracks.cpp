// Monitor: importing track files delivers exactly the tracks that were written into them.
#include "common/vh.hpp"

#include "io/track/csv_track_importer.hpp"
#include "io/track/gpx_track_importer.hpp"
#include "io/track/input_importer.hpp"
#include "io/track/seattle_ground_truth_importer.hpp"

#include <algorithm>
#include <cmath>
#include <ctime>
#include <filesystem>
#include <fstream>
#include <iomanip>
#include <map>
#include <sstream>

namespace {

    namespace g = map_matching_2::geometry;
    namespace io = map_matching_2::io;

    struct xy {
        double x{}, y{};
        auto operator<=>(const xy &) const = default;
    };
    using line = std::vector<xy>;
    using lines = std::vector<line>;

    struct delivery {
        std::string id;
        lines parts;
        auto operator<=>(const delivery &) const = default;
    };

    // takes what an importer delivers
    struct collector {
        using multi_track_variant_type = g::track::multi_track_variant_type;
        std::vector<delivery> delivered;
        int system{-1};

        void pass(multi_track_variant_type variant) {
            std::visit([&](const auto &track) {
                delivery d{track.id, {}};
                for (const auto &part : track.multi_rich_line.rich_lines()) {
                    line l;
                    for (const auto &p : part.line()) { l.push_back({p.template get<0>(), p.template get<1>()}); }
                    d.parts.push_back(std::move(l));
                }
                delivered.push_back(std::move(d));
            }, variant);
            system = static_cast<int>(variant.index());
        }
    };

    std::string say(const std::vector<delivery> &ds) {
        std::ostringstream o;
        o << std::setprecision(17);
        for (const auto &d : ds) {
            o << "\n  [" << d.id << "]";
            for (const auto &l : d.parts) {
                o << " (";
                for (const auto &p : l) { o << p.x << " " << p.y << ", "; }
                o << ")";
            }
        }
        return o.str();
    }

    // how positions in files become positions of tracks
    struct systems {
        g::srs_transform transform;
        g::point_reprojector_variant reprojector;
        int expected; // index of the delivered kind of track
        bool degrees;
    };

    systems random_systems(vh::context &ctx, vh::rng &r) {
        using g::SRS;
        const auto make = [](g::srs_transform t, int expected, bool degrees) {
            auto reprojector = g::create_point_reprojector(t);
            return systems{std::move(t), std::move(reprojector), expected, degrees};
        };
        switch (r.range(0, 4)) {
            case 0:
                ctx.stat("geographic");
                return make({{4326, SRS::CS_GEOGRAPHIC}, 4326, SRS::CS_GEOGRAPHIC}, 0, true);
            case 1:
                ctx.stat("spherical");
                return make({{4326, SRS::CS_SPHERICAL_EQUATORIAL}, 4326, SRS::CS_SPHERICAL_EQUATORIAL}, 1, true);
            case 2:
                ctx.stat("reprojected");
                return make({{4326, SRS::CS_GEOGRAPHIC}, 3857, SRS::CS_CARTESIAN}, 2, true);
            default:
                ctx.stat("plane");
                return make({{3857, SRS::CS_CARTESIAN}, 3857, SRS::CS_CARTESIAN}, 2, false);
        }
    }

    xy expected_at(const systems &s, const xy &p) {
        if (not s.transform.transform) { return p; }
        g::point_type<g::cs_cartesian> out;
        std::visit([&]<typename R>(R &&reprojector) {
            using in_type = typename std::remove_reference_t<R>::in_point_type;
            using out_type = typename std::remove_reference_t<R>::out_point_type;
            if constexpr (std::same_as<in_type, g::point_type<g::cs_geographic>> and std::same_as<out_type, g::point_type<g::cs_cartesian>>) {
                out = reprojector(in_type{p.x, p.y});
            }
        }, s.reprojector);
        return {out.get<0>(), out.get<1>()};
    }

    xy random_at(vh::rng &r, bool degrees) {
        if (degrees) { return {r.chance(0.3) ? static_cast<double>(r.range(-170, 170)) : r.real(-170, 170), r.chance(0.3) ? static_cast<double>(r.range(-80, 80)) : r.real(-80, 80)}; }
        return {r.chance(0.5) ? static_cast<double>(r.range(-99, 99)) : r.real(-1e6, 1e6), r.chance(0.5) ? static_cast<double>(r.range(-99, 99)) : r.real(-1e6, 1e6)};
    }

    std::string number(vh::rng &r, double v) {
        char out[64];
        if (v == std::floor(v) and std::abs(v) < 1e9 and r.chance(0.7)) {
            std::snprintf(out, sizeof out, r.chance(0.7) ? "%.0f" : "%.2f", v);
        } else {
            std::snprintf(out, sizeof out, r.chance(0.8) ? "%.17g" : "%.17e", v);
        }
        return out;
    }

    std::string quoted(vh::rng &r, const std::string &field, char delimiter) {
        const bool necessary = field.find_first_of(std::string{"\"\r\n"} + delimiter) != std::string::npos;
        if (not necessary and not r.chance(0.1)) { return field; }
        std::string out{"\""};
        for (const char c : field) {
            if (c == '"') { out += '"'; }
            out += c;
        }
        return out + "\"";
    }

    // seconds since 1970 as text
    struct clock_format {
        std::string format;
        bool parse{true}, offset{false};
        bool fraction{false};
        bool two_columns{false};
        bool understood{true};
    };

    std::string time_text(vh::rng &r, const clock_format &c, std::int64_t seconds) {
        if (not c.parse) { return c.understood ? std::to_string(seconds) : vh::cat("t", r.range(0, 99)); }
        std::string zone;
        std::int64_t local = seconds;
        if (c.offset) {
            const std::int64_t minutes = r.range(-12, 14) * 60 + (r.chance(0.3) ? 30 : 0);
            local += minutes * 60;
            char z[64];
            std::snprintf(z, sizeof z, "%c%02d:%02d", minutes < 0 ? '-' : '+', static_cast<int>(std::abs(minutes) / 60), static_cast<int>(std::abs(minutes) % 60));
            zone = z;
        }
        std::time_t t = static_cast<std::time_t>(local);
        std::tm tm{};
        gmtime_r(&t, &tm);
        char out[64];
        std::strftime(out, sizeof out, c.format == "%d.%m.%Y %H:%M:%S" ? "%d.%m.%Y %H:%M:%S" : c.format == "%F %T" ? "%F %T" : c.two_columns ? "%F_%T" : "%FT%T", &tm);
        std::string text{out};
        if (c.fraction) {
            char f[64];
            std::snprintf(f, sizeof f, ".%03d", static_cast<int>(r.range(0, 999)));
            text += f;
        }
        if (c.format == "%FT%TZ" or not c.understood) { text += "Z"; }
        return text + zone;
    }

    clock_format random_clock(vh::rng &r) {
        clock_format c;
        switch (r.range(0, 7)) {
            case 0: c = {"", false}; break;
            case 1: c = {"%FT%T%Oz", true, true}; break;
            case 2: c = {"%FT%TZ"}; break;
            case 3: c = {"%F %T"}; break;
            case 4: c = {"%d.%m.%Y %H:%M:%S"}; break;
            case 5: c = {"%F_%T"}; c.two_columns = true; break;
            case 6: c = {"%FT%T%Oz"}; c.understood = false; break; // without the zone that the format wants
            default: c = {"", false}; c.understood = false; break;
        }
        c.fraction = c.parse and c.understood and c.format != "%d.%m.%Y %H:%M:%S" and r.chance(0.3);
        return c;
    }

    struct fix {
        xy at;
        std::int64_t seconds{};
        std::string cell;
    };
    using fixes = std::vector<fix>;

    // a track in the order of the file
    fixes random_fixes(vh::context &ctx, vh::rng &r, const systems &s, bool timed, const clock_format &c) {
        fixes out(static_cast<std::size_t>(r.chance(0.25) ? r.range(17, 60) : r.range(1, 8)));
        std::int64_t now = r.range(0, 2000000000);
        const bool dense = r.chance(0.4), shuffled = timed and c.understood and r.chance(0.4);
        for (auto &f : out) {
            f.at = random_at(r, s.degrees);
            now += dense ? r.range(0, 1) : r.range(1, 60);
            f.seconds = now;
        }
        if (r.chance(0.2) and out.size() > 1) { out.back().at = out.front().at; }
        if (shuffled) {
            r.shuffle(out);
            ctx.stat("unsorted_tracks");
        }
        bool repeated = false;
        for (std::size_t i = 0; i < out.size(); ++i) {
            for (std::size_t j = 0; j < i; ++j) { repeated |= out[i].seconds == out[j].seconds; }
        }
        if (timed and repeated) { ctx.stat(out.size() > 16 ? "equal_times_long" : "equal_times"); }
        if (timed) {
            for (auto &f : out) { f.cell = time_text(r, c, f.seconds); }
        }
        return out;
    }

    line in_time_order(const systems &s, fixes f, bool timed, const clock_format &c) {
        if (timed and c.understood) {
            std::stable_sort(f.begin(), f.end(), [](const fix &a, const fix &b) { return a.seconds < b.seconds; });
        }
        line out;
        for (const auto &x : f) { out.push_back(expected_at(s, x.at)); }
        return out;
    }

    std::string random_id(vh::rng &r) {
        static const std::vector<std::string> ids{"1", "2", "10", "a", "A", "a b", "a,b", "a;b", "a\tb", "say \"it\"", "line\nbreak", "ä", "a_b", "007", "-1", "0", "1.5", "x"};
        return r.chance(0.6) ? std::to_string(r.range(0, 30)) : r.pick(ids);
    }

    void write(const std::string &file, const std::string &text) { std::ofstream{file, std::ios::binary} << text; }

    std::string text_of(const std::vector<std::string> &files) {
        std::string out;
        for (const auto &f : files) {
            std::ifstream in{f};
            out += "\n--- " + std::filesystem::path{f}.filename().string() + "\n" + std::string{std::istreambuf_iterator<char>{in}, {}};
        }
        return out.size() > 3000 ? out.substr(0, 3000) + "..." : out;
    }

    void compare(vh::context &ctx, const systems &s, const collector &c, std::vector<delivery> expected, bool ordered, const auto &detail) {
        auto got = c.delivered;
        const bool same_order = got == expected;
        std::sort(got.begin(), got.end());
        std::sort(expected.begin(), expected.end());
        ctx.require(got == expected, "delivered tracks are not those of the file", [&] { return detail() + "\ndelivered:" + say(c.delivered) + "\nexpected:" + say(expected); });
        ctx.require(same_order or not ordered, "tracks are not delivered in the order of the file", [&] { return detail() + "\ndelivered:" + say(c.delivered); });
        ctx.require(got.empty() or c.system == s.expected, "tracks have the wrong coordinate system", [&] { return std::string{detail()}; });
        for (const auto &d : got) {
            ctx.stat("tracks");
            for (const auto &l : d.parts) { ctx.stat("points", l.size()); }
            if (d.parts.size() > 1) { ctx.stat("multi_part_tracks"); }
        }
    }

    std::vector<std::string> pick_selectors(vh::rng &r, const std::vector<delivery> &expected) {
        std::vector<std::string> out;
        if (expected.empty() or not r.chance(0.25)) { return out; }
        for (const auto &d : expected) {
            if (r.chance(0.5)) { out.push_back(d.id); }
        }
        out.push_back("nobody");
        return out;
    }

    void select(std::vector<delivery> &expected, const std::vector<std::string> &selectors) {
        if (selectors.empty()) { return; }
        std::erase_if(expected, [&](const delivery &d) { return std::find(selectors.begin(), selectors.end(), d.id) == selectors.end(); });
    }

    std::string wkt_points(vh::rng &r, const line &l) {
        std::string out = "(";
        for (std::size_t i = 0; i < l.size(); ++i) { out += (i ? (r.chance(0.5) ? ", " : ",") : "") + number(r, l[i].x) + " " + number(r, l[i].y); }
        return out + ")";
    }

    std::string wkt_name(vh::rng &r, const std::string &name) {
        std::string out = name;
        switch (r.range(0, 3)) {
            case 0: for (auto &c : out) { c = static_cast<char>(std::tolower(c)); } break;
            case 1: for (std::size_t i = 1; i < out.size(); ++i) { out[i] = static_cast<char>(std::tolower(out[i])); } break;
            default: break;
        }
        return out + (r.chance(0.4) ? " " : "");
    }

    std::string wkt_line(vh::rng &r, const line &l) {
        if (l.empty()) { return r.chance(0.5) ? "LINESTRING EMPTY" : "LINESTRING()"; }
        return wkt_name(r, "LINESTRING") + wkt_points(r, l);
    }

    std::string wkt_lines(vh::rng &r, const lines &ls) {
        if (ls.empty()) { return r.chance(0.5) ? "MULTILINESTRING EMPTY" : "MULTILINESTRING()"; }
        std::string out = wkt_name(r, "MULTILINESTRING") + "(";
        for (std::size_t i = 0; i < ls.size(); ++i) { out += (i ? "," : "") + wkt_points(r, ls[i]); }
        return out + ")";
    }

    line random_line(vh::rng &r, const systems &s, std::int64_t lo = 2) {
        line l;
        for (auto n = r.range(lo, 8); n > 0; --n) { l.push_back(random_at(r, s.degrees)); }
        return l;
    }

    lines placed(const systems &s, const lines &ls) {
        lines out;
        for (const auto &l : ls) {
            out.emplace_back();
            for (const auto &p : l) { out.back().push_back(expected_at(s, p)); }
        }
        return out;
    }

    void csv_files(vh::context &ctx, vh::rng &r) {
        const auto s = random_systems(ctx, r);
        const bool points = r.chance(0.65), wkt = not points or r.chance(0.3);
        io::csv_settings settings;
        settings.wkt = wkt;
        settings.no_header = r.chance(0.3);
        settings.no_id = r.chance(0.25);
        settings.no_id_whole_file = settings.no_id and (points ? r.chance(0.8) : r.chance(0.2));
        settings.grouped = r.chance(0.6);
        const auto [delimiter, delimiter_option] = r.pick(std::vector<std::pair<char, std::string>>{{',', ","}, {';', ";"}, {'\t', "\\t"}, {'\t', "\t"}, {'|', "|"}, {';', ";|"}});
        settings.delimiter = delimiter_option;
        const bool timed = points and r.chance(0.7);
        const auto clock = timed ? random_clock(r) : clock_format{};
        settings.no_parse_time = timed ? not clock.parse : r.chance(0.5);
        if (clock.parse and timed) { settings.time_format = clock.format; }
        const bool composite = not settings.no_id and r.chance(0.2);
        if (composite) { settings.id_aggregator = r.pick(std::vector<std::string>{"_", "-", "", ", "}); }

        // columns
        std::vector<std::string> columns;
        if (not settings.no_id) {
            columns.push_back(r.chance(0.7) ? "id" : "Track Id");
            if (composite) { columns.push_back("part"); }
        }
        if (wkt) { columns.push_back(r.chance(0.7) ? "geometry" : "g"); } else { columns.insert(columns.end(), {r.chance(0.7) ? "x" : "lon", r.chance(0.7) ? "y" : "lat"}); }
        if (timed) {
            columns.push_back(clock.two_columns ? "date" : "time");
            if (clock.two_columns) { columns.push_back("clock"); }
        }
        const auto meaningful = columns;
        for (auto n = r.range(0, 2); n > 0; --n) { columns.push_back(vh::cat("extra", n)); }
        r.shuffle(columns);
        const auto column = [&](std::size_t k) {
            const auto i = std::find(columns.begin(), columns.end(), meaningful[k]) - columns.begin();
            return settings.no_header ? std::to_string(i) : columns[static_cast<std::size_t>(i)];
        };
        std::size_t k = 0;
        if (not settings.no_id) {
            settings.field_id = {column(k++)};
            if (composite) { settings.field_id.push_back(column(k++)); }
        }
        const auto at_k = k;
        if (wkt) {
            settings.field_geometry = column(k++);
        } else {
            settings.field_x = column(k++);
            settings.field_y = column(k++);
        }
        const auto time_k = k;
        if (timed) {
            settings.field_time = {column(k++)};
            if (clock.two_columns) { settings.field_time.push_back(column(k++)); }
        } else if (settings.no_header) {
            settings.field_time = r.chance(0.5) ? std::vector<std::string>{} : std::vector<std::string>{"time"};
        }

        std::vector<std::string> files;
        std::vector<delivery> expected;
        std::size_t row_number = 0;
        std::set<std::string> used;
        const auto file_count = r.chance(0.3) ? r.range(2, 3) : 1;
        std::map<std::string, std::size_t> across; // with ungrouped files, a track may continue in the next file
        for (std::int64_t f = 0; f < file_count; ++f) {
            using row = std::map<std::string, std::string>;
            std::vector<std::pair<std::size_t, row>> rows; // with the number of the track in this file
            std::vector<fixes> contents;
            std::vector<std::string> ids;
            const auto count = settings.no_id_whole_file and points ? 1 : r.range(0, 6);
            const auto id_cells = [&](row &cells) {
                std::string id = random_id(r), part = std::to_string(r.range(0, 3));
                for (auto n = 0; n < 100 and used.contains(composite ? id + settings.id_aggregator + part : id); ++n) {
                    id = random_id(r) + (n > 50 ? std::to_string(n) : "");
                }
                std::string joined = composite ? id + settings.id_aggregator + part : id;
                cells[meaningful[0]] = id;
                if (composite) { cells[meaningful[1]] = part; }
                used.insert(joined);
                return joined;
            };
            for (std::int64_t t = 0; t < count; ++t) {
                row cells;
                std::string id;
                if (not settings.no_id) { id = id_cells(cells); }
                if (points) {
                    auto content = random_fixes(ctx, r, s, timed, clock);
                    if (settings.no_id and not settings.no_id_whole_file) { content.resize(1); }
                    for (const auto &x : content) {
                        auto own = cells;
                        if (wkt) {
                            own[meaningful[at_k]] = wkt_name(r, "POINT") + wkt_points(r, {x.at});
                        } else {
                            own[meaningful[at_k]] = number(r, x.at.x);
                            own[meaningful[at_k + 1]] = number(r, x.at.y);
                        }
                        if (timed) {
                            if (clock.two_columns) {
                                own[meaningful[time_k]] = x.cell.substr(0, x.cell.find('_'));
                                own[meaningful[time_k + 1]] = x.cell.substr(x.cell.find('_') + 1);
                            } else {
                                own[meaningful[time_k]] = x.cell;
                            }
                        }
                        rows.emplace_back(static_cast<std::size_t>(t), std::move(own));
                    }
                    contents.push_back(std::move(content));
                    ids.push_back(id);
                } else {
                    lines parts;
                    std::string geometry;
                    switch (r.range(0, 5)) {
                        case 0: case 1: case 2:
                            parts = {random_line(r, s)};
                            geometry = wkt_line(r, parts[0]);
                            break;
                        case 3:
                            parts = {{}};
                            geometry = r.chance(0.5) ? wkt_line(r, {}) : "GEOMETRYCOLLECTION EMPTY";
                            ctx.stat("empty_tracks");
                            break;
                        default:
                            for (auto n = r.range(0, 4); n > 0; --n) { parts.push_back(random_line(r, s)); }
                            geometry = wkt_lines(r, parts);
                            break;
                    }
                    cells[meaningful[at_k]] = geometry;
                    if (settings.no_id) { id = std::to_string(row_number + rows.size()); }
                    rows.emplace_back(static_cast<std::size_t>(t), cells);
                    expected.push_back({id, placed(s, parts)});
                }
            }
            if (points) {
                const bool mixed = not settings.grouped and not settings.no_id and r.chance(0.6);
                if (mixed) {
                    // the rows of each track keep their order
                    std::vector<std::vector<row>> own(contents.size());
                    for (auto &[t, cells] : rows) { own[t].push_back(std::move(cells)); }
                    rows.clear();
                    std::vector<std::size_t> next(own.size());
                    for (;;) {
                        std::vector<std::size_t> left;
                        for (std::size_t t = 0; t < own.size(); ++t) {
                            if (next[t] < own[t].size()) { left.push_back(t); }
                        }
                        if (left.empty()) { break; }
                        const auto t = r.pick(left);
                        rows.emplace_back(t, std::move(own[t][next[t]++]));
                    }
                    if (contents.size() > 1) { ctx.stat("mixed_rows"); }
                }
                for (std::size_t t = 0; t < contents.size(); ++t) {
                    if (settings.no_id) { ids[t] = settings.no_id_whole_file ? std::to_string(f) : std::to_string(row_number + t); }
                    expected.push_back({ids[t], {in_time_order(s, contents[t], timed, clock)}});
                }
            }
            row_number += rows.size();

            std::string text, end = r.chance(0.25) ? "\r\n" : "\n";
            if (settings.no_header) {
                if (f == 0) { settings.skip_lines = r.chance(0.3) ? static_cast<std::size_t>(r.range(1, 3)) : 0; }
                for (std::size_t n = 0; n < settings.skip_lines; ++n) {
                    for (std::size_t c = 0; c < columns.size(); ++c) { text += (c ? std::string{delimiter} : "") + "to skip"; }
                    text += end;
                }
                if (settings.skip_lines) { ctx.stat("skipped_lines"); }
            } else {
                for (std::size_t c = 0; c < columns.size(); ++c) { text += (c ? std::string{delimiter} : "") + quoted(r, columns[c], delimiter); }
                text += end;
            }
            for (const auto &[t, cells] : rows) {
                for (std::size_t c = 0; c < columns.size(); ++c) {
                    const auto it = cells.find(columns[c]);
                    text += (c ? std::string{delimiter} : "") + quoted(r, it == cells.end() ? vh::cat("e", r.range(0, 9)) : it->second, delimiter);
                }
                text += end;
            }
            if (rows.size() and r.chance(0.1)) { text.resize(text.size() - end.size()); }
            files.push_back(vh::cat(ctx.scratch.string(), "/", f, ".csv"));
            write(files.back(), text);
        }
        if (r.chance(0.05)) { files.insert(files.begin() + (settings.no_id_whole_file ? static_cast<std::ptrdiff_t>(files.size()) : 0), vh::cat(ctx.scratch.string(), "/missing.csv")); }
        const auto selectors = pick_selectors(r, expected);
        select(expected, selectors);
        if (not selectors.empty()) { ctx.stat("selected"); }
        ctx.stat(settings.no_header ? "without_header" : "with_header");
        if (settings.no_id) { ctx.stat(settings.no_id_whole_file ? "one_track_per_file" : "numbered_rows"); }
        if (composite) { ctx.stat("composite_ids"); }
        if (file_count > 1) { ctx.stat("several_files"); }
        ctx.stat(not timed ? "without_times" : not clock.understood ? "times_not_understood" : clock.parse ? "parsed_times" : "number_times");
        ctx.stat(points ? (wkt ? "wkt_points" : "coordinates") : "wkt_lines");

        collector c;
        io::track::csv_track_importer<collector> importer{files, selectors, settings, c, s.transform, s.reprojector};
        importer.read();
        compare(ctx, s, c, expected, settings.grouped or not points, [&] {
            std::string o = vh::cat("csv grouped=", settings.grouped, " no_header=", settings.no_header, " no_id=", settings.no_id, "/", settings.no_id_whole_file, " wkt=", wkt,
                    " no_parse_time=", settings.no_parse_time, " format=", settings.time_format, " delimiter=", settings.delimiter, " skip=", settings.skip_lines, " selectors=");
            for (const auto &x : selectors) { o += "[" + x + "]"; }
            return o + text_of(files);
        });
        for (const auto &f : files) { std::filesystem::remove(f); }
        ctx.observe(vh::hash_str(say(expected)));
    }

    std::string escaped(const std::string &in) {
        std::string out;
        for (const char c : in) { out += c == '<' ? "&lt;" : c == '&' ? "&amp;" : c == '>' ? "&gt;" : std::string{c}; }
        return out;
    }

    void gpx_files(vh::context &ctx, vh::rng &r) {
        auto s = random_systems(ctx, r);
        const bool no_id = r.chance(0.25);
        const bool timed = r.chance(0.8);
        const auto clock = timed ? random_clock(r) : clock_format{};
        const auto format = timed and clock.parse ? clock.format : "%FT%T%Oz";
        std::vector<std::string> files;
        std::vector<delivery> expected;
        std::size_t counter = 0;
        const auto file_count = r.chance(0.3) ? r.range(2, 3) : 1;
        for (std::int64_t f = 0; f < file_count; ++f) {
            const std::string all = r.chance(0.4) ? random_id(r) : "";
            std::string text = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<gpx version=\"1.1\" creator=\"test\" xmlns=\"http://www.topografix.com/GPX/1/1\">\n";
            if (not all.empty()) { text += "<metadata><name>" + escaped(all) + "</name></metadata>\n"; }
            for (auto n = r.range(0, 3); n > 0; --n) {
                const std::string name = r.chance(0.6) ? random_id(r) + (r.chance(0.2) ? "<&>" : "") : "";
                std::string id = no_id ? "" : name.empty() ? all : name;
                if (id.empty()) { id = std::to_string(counter++); }
                text += "<trk>";
                if (not name.empty()) { text += "<name>" + escaped(name) + "</name>"; }
                lines parts;
                for (auto m = r.range(0, 4); m > 0; --m) {
                    auto content = r.chance(0.1) ? fixes{} : random_fixes(ctx, r, s, timed, clock);
                    text += "<trkseg>\n";
                    for (const auto &x : content) {
                        text += "<trkpt lat=\"" + number(r, x.at.y) + "\" lon=\"" + number(r, x.at.x) + "\">";
                        if (r.chance(0.2)) { text += "<ele>4.5</ele>"; }
                        if (timed) { text += "<time>" + x.cell + "</time>"; }
                        text += "</trkpt>\n";
                    }
                    text += "</trkseg>\n";
                    parts.push_back(in_time_order(s, content, timed, clock));
                }
                text += "</trk>\n";
                expected.push_back({id, parts});
            }
            text += "</gpx>\n";
            files.push_back(vh::cat(ctx.scratch.string(), "/", f, ".gpx"));
            write(files.back(), text);
        }
        const auto selectors = pick_selectors(r, expected);
        select(expected, selectors);
        collector c;
        io::track::gpx_track_importer<collector> importer{files, selectors, no_id, format, not clock.parse, c, s.transform, s.reprojector};
        importer.read();
        compare(ctx, s, c, expected, true, [&] { return vh::cat("gpx no_id=", no_id, " format=", format, " no_parse_time=", not clock.parse, text_of(files)); });
        for (const auto &f : files) { std::filesystem::remove(f); }
        ctx.stat("gpx_files", files.size());
        ctx.observe(vh::hash_str(say(expected)));
    }

    void input_lines(vh::context &ctx, vh::rng &r) {
        auto s = random_systems(ctx, r);
        std::string text;
        std::vector<delivery> expected;
        std::size_t counter = 0;
        for (auto n = r.range(0, 8); n > 0; --n) {
            std::string geometry;
            lines parts;
            const auto id = std::to_string(counter++);
            switch (r.range(0, 5)) {
                case 0: case 1: {
                    parts = {random_line(r, s, 1)};
                    const auto separator = r.pick(std::vector<std::string>{",", ";", "|", ", ", " ; "});
                    for (std::size_t i = 0; i < parts[0].size(); ++i) { geometry += (i ? separator : "") + wkt_name(r, "POINT") + wkt_points(r, {parts[0][i]}); }
                    ctx.stat("typed_points");
                    break;
                }
                case 2: case 3:
                    parts = {random_line(r, s)};
                    geometry = wkt_line(r, parts[0]);
                    ctx.stat("typed_lines");
                    break;
                case 4:
                    for (auto m = r.range(1, 4); m > 0; --m) { parts.push_back(random_line(r, s)); }
                    geometry = wkt_lines(r, parts);
                    ctx.stat("typed_multi_lines");
                    break;
                default:
                    geometry = r.pick(std::vector<std::string>{"HELLO", "LINESTRING(1 2", "POINT(1 x)", "POLYGON((0 0,1 0,1 1,0 0))"});
                    ctx.stat("typed_nonsense");
                    text += geometry + "\n";
                    continue;
            }
            text += (r.chance(0.2) ? "  " : "") + geometry + (r.chance(0.2) ? " \r\n" : "\n");
            expected.push_back({id, placed(s, parts)});
        }
        if (r.chance(0.3)) { text += "\nLINESTRING(1 1,2 2)\n"; } // after the end
        std::istringstream in{text};
        std::ostringstream quiet;
        auto *const before = std::cin.rdbuf(in.rdbuf());
        auto *const log = std::clog.rdbuf(quiet.rdbuf());
        std::cin.clear();
        collector c;
        io::track::input_importer<collector> importer{c, s.transform, s.reprojector};
        importer.read();
        std::cin.rdbuf(before);
        std::clog.rdbuf(log);
        compare(ctx, s, c, expected, true, [&] { return "input:\n" + text; });
        ctx.observe(vh::hash_str(text));
    }

    void seattle(vh::context &ctx, vh::rng &r) {
        auto s = random_systems(ctx, r);
        struct road { line points; bool both; };
        std::vector<road> roads;
        line nodes;
        for (auto n = r.range(2, 6); n > 0; --n) { nodes.push_back(random_at(r, s.degrees)); }
        std::vector<std::pair<std::size_t, std::size_t>> ends;
        for (auto n = r.range(1, 12); n > 0; --n) {
            const auto a = static_cast<std::size_t>(r.range(0, static_cast<std::int64_t>(nodes.size()) - 1)), b = static_cast<std::size_t>(r.range(0, static_cast<std::int64_t>(nodes.size()) - 1));
            line l{nodes[a]};
            for (auto m = r.range(0, 3); m > 0; --m) { l.push_back(random_at(r, s.degrees)); }
            l.push_back(nodes[b]);
            roads.push_back({l, r.chance(0.6)});
            ends.emplace_back(a, b);
        }
        const std::string end = r.chance(0.3) ? "\r\n" : "\n";
        const std::uint64_t base = r.chance(0.3) ? 884147800000ull : 1;
        std::string network = "Edge ID\tFrom Node ID\tTo Node ID\tTwo Way\tSpeed (m/s)\tVertex Count\tLINESTRING()" + end;
        for (std::size_t i = 0; i < roads.size(); ++i) {
            network += vh::cat(base + i, "\t", ends[i].first, "\t", ends[i].second, "\t", roads[i].both ? 1 : 0, "\t13.4\t", roads[i].points.size(), "\t", "LINESTRING",
                    wkt_points(r, roads[i].points), r.chance(0.2) ? " " : "", end);
        }
        std::string route = "Edge ID\tTraversed From to To" + end;
        line expected;
        std::size_t at = r.chance(0.5) ? ends[0].first : ends[0].second;
        for (auto n = r.range(0, 15); n > 0; --n) {
            std::vector<std::pair<std::size_t, bool>> next;
            for (std::size_t i = 0; i < roads.size(); ++i) {
                if (ends[i].first == at) { next.emplace_back(i, true); }
                if (ends[i].second == at and roads[i].both) { next.emplace_back(i, false); }
            }
            if (next.empty()) { break; }
            const auto [i, forth] = r.pick(next);
            auto l = roads[i].points;
            if (not forth) { std::reverse(l.begin(), l.end()); ctx.stat("traversed_back"); }
            expected.insert(expected.end(), l.begin() + (expected.empty() ? 0 : 1), l.end());
            route += vh::cat(base + i, "\t", forth ? 1 : 0, end);
            at = forth ? ends[i].second : ends[i].first;
        }
        const std::vector<std::string> files{vh::cat(ctx.scratch.string(), "/road_network.txt"), vh::cat(ctx.scratch.string(), "/route.txt")};
        write(files[0], network);
        write(files[1], route);
        collector c;
        io::track::seattle_ground_truth_importer<collector> importer{files, c, s.transform, s.reprojector};
        importer.read();
        compare(ctx, s, c, {{"0", placed(s, {expected})}}, true, [&] { return std::string{"seattle"} + text_of(files); });
        ctx.stat("ground_truths");
        ctx.observe(vh::hash_str(route));
        for (const auto &f : files) { std::filesystem::remove(f); }
    }

}

int main(int argc, char **argv) {
    return vh::run(argc, argv, {
            {"csv", csv_files, 12000, 300000},
            {"gpx", gpx_files, 5000, 120000},
            {"input", input_lines, 5000, 100000},
            {"seattle", seattle, 3000, 60000},
    });
}
