// Reads result files without the code under test: rows with quotes, geometries and numbers.
#ifndef VERIF_RESULTS_READ_HPP
#define VERIF_RESULTS_READ_HPP

#include "common/vh.hpp"

#include <cmath>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <optional>
#include <string>
#include <vector>

namespace results {

    using row = std::vector<std::string>;
    using xy = std::pair<double, double>;
    using lines = std::vector<std::vector<xy>>;

    inline std::vector<row> read_csv(const std::filesystem::path &p) {
        std::ifstream in{p, std::ios::binary};
        const std::string all{std::istreambuf_iterator<char>{in}, {}};
        std::vector<row> rows;
        row r;
        std::string field;
        bool quoted = false;
        for (std::size_t i = 0; i < all.size(); ++i) {
            const char c = all[i];
            if (quoted) {
                if (c == '"' and i + 1 < all.size() and all[i + 1] == '"') {
                    field += c, ++i;
                } else if (c == '"') {
                    quoted = false;
                } else {
                    field += c;
                }
            } else if (c == '"') {
                quoted = true;
            } else if (c == ',' or c == '\n') {
                r.push_back(std::move(field));
                field.clear();
                if (c == '\n') {
                    rows.push_back(std::move(r));
                    r.clear();
                }
            } else {
                field += c;
            }
        }
        if (not field.empty() or not r.empty()) {
            r.push_back(field);
            r.push_back("<unfinished row>");
            rows.push_back(r);
        }
        return rows;
    }

    // LINESTRING and MULTILINESTRING
    inline std::optional<lines> parse_wkt(const std::string &s) {
        const char *p = s.c_str();
        const auto blanks = [&] { while (*p == ' ') { ++p; } };
        const auto take = [&](char c) {
            blanks();
            return *p == c ? ++p, true : false;
        };
        const auto line = [&](std::vector<xy> &l) {
            if (not take('(')) { return false; }
            if (take(')')) { return true; }
            while (true) {
                char *end = nullptr;
                blanks();
                const double x = std::strtod(p, &end);
                if (end == p or *end != ' ') { return false; }
                p = end;
                blanks();
                const double y = std::strtod(p, &end);
                if (end == p) { return false; }
                p = end;
                l.emplace_back(x, y);
                if (take(')')) { return true; }
                if (not take(',')) { return false; }
            }
        };
        lines out;
        const bool multi = s.starts_with("MULTILINESTRING");
        if (not multi and not s.starts_with("LINESTRING")) { return {}; }
        p += std::strlen(multi ? "MULTILINESTRING" : "LINESTRING");
        if (not multi) {
            if (not line(out.emplace_back())) { return {}; }
        } else if (not take('(')) {
            return {};
        } else if (not take(')')) {
            while (true) {
                if (not line(out.emplace_back())) { return {}; }
                if (take(')')) { break; }
                if (not take(',')) { return {}; }
            }
        }
        blanks();
        return *p == '\0' ? std::optional{out} : std::nullopt;
    }

    // up to twelve digits
    inline bool same(double written, double value) { return std::abs(written - value) <= 6e-12 * std::abs(value); }

    inline bool same(const std::string &wkt, lines value) {
        auto written = parse_wkt(wkt);
        if (not written) { return false; }
        // nothing is there in an empty line
        const auto clean = [](lines &l) { std::erase_if(l, [](const auto &x) { return x.empty(); }); };
        clean(*written);
        clean(value);
        return written->size() == value.size() and std::equal(written->begin(), written->end(), value.begin(), [](const auto &a, const auto &b) {
            return a.size() == b.size() and std::equal(a.begin(), a.end(), b.begin(), [](const xy &p, const xy &q) { return same(p.first, q.first) and same(p.second, q.second); });
        });
    }

    // six digits after the point
    inline bool same_number(const std::string &text, double value) {
        char *end = nullptr;
        const double written = std::strtod(text.c_str(), &end);
        if (text.empty() or *end != '\0') { return false; }
        if (not std::isfinite(value)) { return std::isnan(value) ? std::isnan(written) : written == value; }
        return std::abs(written - value) <= 5.1e-7 + 1e-14 * std::abs(value);
    }

    inline std::string say(const lines &ls) {
        std::ostringstream o;
        o.precision(17);
        for (const auto &l : ls) {
            o << "[";
            for (const auto &[x, y] : l) { o << "(" << x << " " << y << ")"; }
            o << "]";
        }
        return o.str();
    }

    inline std::string say(const std::vector<row> &rows) {
        std::string o;
        for (const auto &r : rows) {
            o += "\n ";
            for (const auto &f : r) { o += " {" + f + "}"; }
        }
        return o;
    }

    // some of the columns in any order
    inline std::vector<std::string> random_columns(vh::rng &r, std::vector<std::string> all) {
        if (r.chance(0.3)) { return all; }
        r.shuffle(all);
        all.resize(static_cast<std::size_t>(r.range(1, static_cast<std::int64_t>(all.size()))));
        return all;
    }

    inline std::string joined(const std::vector<std::string> &l) {
        std::string o;
        for (const auto &s : l) { o += (o.empty() ? "" : ",") + s; }
        return o;
    }

    inline std::string random_id(vh::rng &r, std::int64_t i) {
        const char *names[] = {"a,b", "say \"x\"", "\"", "line\nbreak", "tab\there", " blank ", "ü€", "'", ";", "a=b"};
        return r.chance(0.3) ? names[r.range(0, 9)] + std::to_string(i) : std::to_string(i);
    }

}

#endif
