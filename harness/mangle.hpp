// Damages texts: what is left of a well-formed file after cuts, exchanges, foreign bytes and hostile numbers.
#ifndef VERIF_MANGLE_HPP
#define VERIF_MANGLE_HPP

#include <charconv>

#include "common/vh.hpp"

namespace mangle {

    inline const std::vector<std::string> numbers{
            "", "-", "+", ".", "0", "-0", "-1", "1", "2", "1.5", "+5", ".5", "5.", "1e3", "1e308", "-1e308", "1e400", "1e-320", "1e15", "1e10", "nan", "-nan", "inf", "-inf",
            "NaN", "Infinity", "180", "-180", "180.0000001", "90", "-90", "91", "360", "1e5", "20037508.342789244", "2147483647", "2147483648", "-2147483649", "4294967295",
            "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999999",
            "0x10", "0x1p3", "1,5", "1 2", " 7", "7 ", "1e", "--1", "1-1", "true", "null", "\xd9\xa3", "5e-324", "0.1e1", "00001"};

    inline const std::vector<std::string> texts{
            "", " ", "\t", ",", ";", "\"", "\"\"", "'", "(", ")", "()", "((", "))", "POINT", "POINT(1 1)", "POINT()", "POINT EMPTY", "POINT(1)", "POINT(1 1 1)", "POINT(nan nan)",
            "POINT(inf 0)", "LINESTRING", "LINESTRING()", "LINESTRING EMPTY", "LINESTRING(1 1)", "LINESTRING(1 1,1 1)", "LINESTRING(1 1,2 2", "LINESTRING(1 1,,2 2)", "LINESTRING(1,2)",
            "LINESTRING(nan nan,1 1)", "LINESTRING(0 0,inf inf)", "LINESTRING(0 0,1e308 1e308,-1e308 -1e308)", "MULTILINESTRING()", "MULTILINESTRING(())", "MULTILINESTRING EMPTY",
            "MULTILINESTRING((),(1 1,2 2))", "MULTILINESTRING((1 1),(2 2))", "MULTIPOINT(1 1,2 2)", "POLYGON((0 0,1 0,1 1,0 0))", "GEOMETRYCOLLECTION()", "SRID=4326;POINT(1 1)",
            "linestring(0 0, 1 1)", "LINESTRING Z(0 0 0,1 1 1)", "1970-01-01T00:00:00Z", "1969-12-31T23:59:59Z", "0000-00-00T00:00:00Z", "9999-12-31T23:59:59Z", "-0001-01-01T00:00:00Z",
            "2020-02-30T25:61:61Z", "%FT%T%Oz", "%s", "%n%n%n", "{}", "{0}", "\\", "\\t", "\r", "\n", "\r\n", std::string(1, '\0'), "\xff\xfe", "\xef\xbb\xbf", "<", ">", "&amp;",
            "<trkpt/>", "<!--", "-->", "]]>"};

    inline bool number_char(char c) { return std::isdigit(static_cast<unsigned char>(c)) or c == '.' or c == '-' or c == '+'; }

    inline std::string bytes(vh::rng &r, std::int64_t n) {
        std::string out;
        for (; n > 0; --n) { out += static_cast<char>(r.range(0, 255)); }
        return out;
    }

    inline std::vector<std::string> split_lines(const std::string &s) {
        std::vector<std::string> out;
        std::string line;
        for (const char c : s) {
            line += c;
            if (c == '\n') {
                out.push_back(line);
                line.clear();
            }
        }
        if (not line.empty()) { out.push_back(line); }
        return out;
    }

    inline std::string join(const std::vector<std::string> &lines) {
        std::string out;
        for (const auto &l : lines) { out += l; }
        return out;
    }

    // the numbers of a text
    inline std::vector<std::pair<std::size_t, std::size_t>> find_numbers(const std::string &s) {
        std::vector<std::pair<std::size_t, std::size_t>> out;
        for (std::size_t i = 0; i < s.size();) {
            if (number_char(s[i])) {
                std::size_t j = i;
                while (j < s.size() and number_char(s[j])) { ++j; }
                out.emplace_back(i, j - i);
                i = j;
            } else {
                ++i;
            }
        }
        return out;
    }

    inline std::size_t place(vh::rng &r, const std::string &s) { return static_cast<std::size_t>(r.range(0, static_cast<std::int64_t>(s.size()))); }

    inline void once(vh::context &ctx, vh::rng &r, std::string &s) {
        const auto kind = r.range(0, 19);
        const auto at = place(r, s);
        if (kind <= 5) {
            // another number
            const auto found = find_numbers(s);
            if (not found.empty()) {
                const auto [from, n] = r.pick(found);
                // sometimes one next to it
                std::int64_t value = 0;
                const auto read = std::from_chars(s.data() + from, s.data() + from + n, value);
                if (r.chance(0.2) and read.ec == std::errc{} and read.ptr == s.data() + from + n and value > -1000000 and value < 1000000) {
                    s.replace(from, n, std::to_string(value + (r.chance(0.5) ? 1 : -1)));
                    ctx.stat("next_numbers");
                } else {
                    s.replace(from, n, r.pick(numbers));
                    ctx.stat("other_numbers");
                }
            }
        } else if (kind == 6) {
            s.insert(at, r.pick(texts));
            ctx.stat("inserted_texts");
        } else if (kind == 7) {
            // another text between two separators
            const std::string separators{",;\t ^\n\"|"};
            const auto from = s.find_last_of(separators, at), to = s.find_first_of(separators, at);
            const auto f = from == std::string::npos ? 0 : std::min(from + 1, s.size());
            const auto t = to == std::string::npos ? s.size() : to;
            if (f <= t) { s.replace(f, t - f, r.chance(0.5) ? r.pick(texts) : r.pick(numbers)); }
            ctx.stat("other_fields");
        } else if (kind == 8) {
            s.resize(at);
            ctx.stat("cut_off");
        } else if (kind == 9) {
            s.erase(at, static_cast<std::size_t>(r.chance(0.5) ? 1 : r.range(1, 40)));
            ctx.stat("cut_out");
        } else if (kind == 10) {
            if (at < s.size()) { s[at] = static_cast<char>(s[at] ^ (1 << r.range(0, 7))); }
            ctx.stat("flipped_bits");
        } else if (kind == 11) {
            s.insert(at, bytes(r, r.range(1, 8)));
            ctx.stat("foreign_bytes");
        } else if (kind <= 15) {
            auto l = split_lines(s);
            if (l.empty()) { return; }
            const auto i = static_cast<std::size_t>(r.range(0, static_cast<std::int64_t>(l.size()) - 1)), j = static_cast<std::size_t>(r.range(0, static_cast<std::int64_t>(l.size()) - 1));
            if (kind == 12) {
                l.erase(l.begin() + static_cast<std::ptrdiff_t>(i));
                ctx.stat("lines_left_out");
            } else if (kind == 13) {
                l.insert(l.begin() + static_cast<std::ptrdiff_t>(j), l[i]);
                ctx.stat("lines_repeated");
            } else if (kind == 14) {
                std::swap(l[i], l[j]);
                ctx.stat("lines_exchanged");
            } else {
                // a field of a line is left out or repeated
                const std::string separators{",;\t ^|"};
                auto &line = l[i];
                const auto a = line.find_first_of(separators, static_cast<std::size_t>(r.range(0, static_cast<std::int64_t>(line.size()))));
                const auto b = a == std::string::npos ? a : line.find_first_of(separators, a + 1);
                if (b != std::string::npos) {
                    if (r.chance(0.5)) {
                        line.erase(a, b - a);
                    } else {
                        line.insert(a, line.substr(a, b - a));
                    }
                }
                ctx.stat("fields_moved");
            }
            s = join(l);
        } else if (kind == 16) {
            const auto choice = r.range(0, 3);
            if (choice == 0) {
                s.clear();
            } else if (choice == 1) {
                s = bytes(r, r.range(1, 300));
            } else if (choice == 2) {
                s = s.substr(0, s.find('\n'));
            } else {
                s += s;
            }
            ctx.stat("other_files");
        } else if (kind == 18) {
            // another content of brackets
            const auto from = s.find('(', at), to = from == std::string::npos ? from : s.find(')', from);
            if (to != std::string::npos) {
                s.replace(from + 1, to - from - 1, r.pick(std::vector<std::string>{"", " ", "1 1", "nan nan", "1", "1 1,1 1", "()", "1 1,nan nan", ","}));
                ctx.stat("other_brackets");
            }
        } else if (kind == 19) {
            // another time
            for (std::size_t i = at; i + 10 < s.size(); ++i) {
                if (s[i] == '-' and s[i + 3] == '-' and i >= 4 and std::isdigit(static_cast<unsigned char>(s[i + 1]))) {
                    s.replace(i - 4, 4, r.pick(std::vector<std::string>{"1969", "0000", "0001", "1600", "9999", "-100", "2262", "292278995", "19", ""}));
                    ctx.stat("other_times");
                    break;
                }
            }
        } else {
            // a long field
            s.insert(at, std::string(static_cast<std::size_t>(r.range(100, r.chance(0.1) ? 200000 : 3000)), r.pick(std::string{"0119.- ,(\"ab\n"})));
            ctx.stat("long_fields");
        }
    }

    inline void some(vh::context &ctx, vh::rng &r, std::string &s) {
        for (auto n = r.chance(0.5) ? 1 : r.range(1, 5); n > 0; --n) { once(ctx, r, s); }
    }

    // printable beginning of a text
    inline std::string say(const std::string &s) {
        std::string out;
        for (const char c : s.substr(0, 1500)) {
            const auto u = static_cast<unsigned char>(c);
            if (c == '\n' or (u >= 32 and u < 127)) {
                out += c;
            } else {
                char b[8];
                std::snprintf(b, sizeof b, "\\x%02x", u);
                out += b;
            }
        }
        return out + (s.size() > 1500 ? vh::cat("... (", s.size(), " bytes)") : "");
    }

    // the arguments of a program run
    struct arguments {
        std::vector<std::string> words;
        std::vector<char *> pointers;

        explicit arguments(std::vector<std::string> w) : words{std::move(w)} {
            for (auto &word : words) { pointers.push_back(word.data()); }
            pointers.push_back(nullptr);
        }

        [[nodiscard]] int count() const { return static_cast<int>(words.size()); }
        char **values() { return pointers.data(); }
    };

    // keeps the output of the program away
    struct silence {
        std::ostringstream out, err, log;
        std::streambuf *const kept_out{std::cout.rdbuf(out.rdbuf())}, *const kept_err{std::cerr.rdbuf(err.rdbuf())}, *const kept_log{std::clog.rdbuf(log.rdbuf())};

        silence() = default;
        silence(const silence &) = delete;
        ~silence() {
            std::cout.rdbuf(kept_out);
            std::cerr.rdbuf(kept_err);
            std::clog.rdbuf(kept_log);
        }
    };

}

#endif
