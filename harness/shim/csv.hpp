// Stand-in for the small part of vincentlaucsb/csv-parser that map-matching-2 uses.
// The library is not available offline; this shim follows its documented behaviour (RFC 4180 quoting, first row is
// the header unless no_header(), exceptions for unknown columns / non numeric conversions).
#ifndef VERIF_SHIM_CSV_HPP
#define VERIF_SHIM_CSV_HPP

#include <algorithm>
#include <charconv>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <iterator>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>

namespace csv {

    class CSVFormat {
    public:
        std::vector<char> delims{','};
        char quote_char{'"'};
        bool header{true};

        CSVFormat() = default;

        CSVFormat &delimiter(char c) {
            delims = {c};
            return *this;
        }

        CSVFormat &delimiter(const std::vector<char> &c) {
            delims = c;
            return *this;
        }

        CSVFormat &quote(char c) {
            quote_char = c;
            return *this;
        }

        CSVFormat &no_header() {
            header = false;
            return *this;
        }

        CSVFormat &header_row(int row) {
            header = row >= 0;
            return *this;
        }
    };

    class CSVField {
        std::string _value;

    public:
        explicit CSVField(std::string value) : _value{std::move(value)} {}

        template<typename T>
        [[nodiscard]] T get() const {
            if constexpr (std::is_same_v<T, std::string>) {
                return _value;
            } else if constexpr (std::is_floating_point_v<T>) {
                const char *begin = _value.c_str();
                char *end = nullptr;
                const double value = std::strtod(begin, &end);
                while (end != nullptr and (*end == ' ' or *end == '\t')) {
                    ++end;
                }
                if (begin == end or *end != '\0') {
                    throw std::runtime_error("Not a number.");
                }
                return static_cast<T>(value);
            } else {
                static_assert(std::is_integral_v<T>);
                const char *begin = _value.c_str();
                char *end = nullptr;
                const double value = std::strtod(begin, &end);
                if (begin == end or *end != '\0') {
                    throw std::runtime_error("Not a number.");
                }
                if (value != static_cast<double>(static_cast<long long>(value))) {
                    throw std::runtime_error("Attempted to convert a floating point value to an integral type.");
                }
                return static_cast<T>(std::strtoll(begin, nullptr, 10));
            }
        }
    };

    class CSVRow {
        std::shared_ptr<const std::vector<std::string>> _columns;
        std::vector<std::string> _fields;

    public:
        CSVRow() = default;

        CSVRow(std::shared_ptr<const std::vector<std::string>> columns, std::vector<std::string> fields)
            : _columns{std::move(columns)}, _fields{std::move(fields)} {}

        [[nodiscard]] std::size_t size() const {
            return _fields.size();
        }

        [[nodiscard]] CSVField operator[](std::size_t i) const {
            if (i >= _fields.size()) {
                throw std::runtime_error("Index out of bounds.");
            }
            return CSVField{_fields[i]};
        }

        [[nodiscard]] CSVField operator[](const std::string &name) const {
            const auto it = std::find(_columns->begin(), _columns->end(), name);
            if (it == _columns->end()) {
                throw std::runtime_error("Can't find a column named " + name);
            }
            return this->operator[](static_cast<std::size_t>(std::distance(_columns->begin(), it)));
        }

        [[nodiscard]] std::vector<std::string> get_col_names() const {
            return *_columns;
        }
    };

    class CSVReader {
        std::shared_ptr<std::vector<std::string>> _columns{std::make_shared<std::vector<std::string>>()};
        std::vector<CSVRow> _rows;

        static std::vector<std::vector<std::string>> parse(const std::string &in, char delim, char quote) {
            std::vector<std::vector<std::string>> rows;
            std::vector<std::string> row;
            std::string field;
            bool quoted = false, any = false;
            for (std::size_t i = 0; i < in.size(); ++i) {
                const char c = in[i];
                if (quoted) {
                    if (c == quote) {
                        if (i + 1 < in.size() and in[i + 1] == quote) {
                            field += quote;
                            ++i;
                        } else {
                            quoted = false;
                        }
                    } else {
                        field += c;
                    }
                } else if (c == quote and field.empty()) {
                    quoted = true;
                    any = true;
                } else if (c == delim) {
                    row.emplace_back(std::move(field));
                    field.clear();
                    any = true;
                } else if (c == '\n' or c == '\r') {
                    if (any or not field.empty()) {
                        row.emplace_back(std::move(field));
                        field.clear();
                        rows.emplace_back(std::move(row));
                        row.clear();
                    }
                    any = false;
                } else {
                    field += c;
                    any = true;
                }
            }
            if (any or not field.empty()) {
                row.emplace_back(std::move(field));
                rows.emplace_back(std::move(row));
            }
            return rows;
        }

    public:
        explicit CSVReader(const std::string &filename, const CSVFormat &format = CSVFormat{}) {
            std::ifstream in{filename, std::ios::binary};
            if (not in.is_open()) {
                throw std::runtime_error("Cannot open file " + filename);
            }
            std::string text{std::istreambuf_iterator<char>{in}, std::istreambuf_iterator<char>{}};
            if (text.starts_with("\xEF\xBB\xBF")) {
                text.erase(0, 3);
            }

            char delim = format.delims.empty() ? ',' : format.delims.front();
            if (format.delims.size() > 1) {
                // guess: the delimiter that occurs most often in the first line
                const auto first = text.substr(0, text.find('\n'));
                long best = -1;
                for (const char c : format.delims) {
                    const long count = std::count(first.begin(), first.end(), c);
                    if (count > best) {
                        best = count;
                        delim = c;
                    }
                }
            }

            auto rows = parse(text, delim, format.quote_char);
            std::size_t i = 0;
            if (format.header and not rows.empty()) {
                *_columns = rows.front();
                i = 1;
            }
            for (; i < rows.size(); ++i) {
                _rows.emplace_back(_columns, std::move(rows[i]));
            }
        }

        [[nodiscard]] std::vector<std::string> get_col_names() const {
            return *_columns;
        }

        [[nodiscard]] auto begin() const { return _rows.begin(); }

        [[nodiscard]] auto end() const { return _rows.end(); }
    };

    // called before every written row, to make writing slow
    inline void (*on_write)() = nullptr;

    template<class OutputStream, char Delim, char Quote, bool Flush>
    class DelimWriter {
        OutputStream &_out;
        bool _quote_minimal;

        [[nodiscard]] std::string escape(const std::string &in) const {
            bool quote = not _quote_minimal;
            std::string body;
            for (const char c : in) {
                if (c == Quote) {
                    body += Quote;
                    quote = true;
                } else if (c == Delim or c == '\r' or c == '\n') {
                    quote = true;
                }
                body += c;
            }
            return quote ? Quote + body + Quote : body;
        }

    public:
        explicit DelimWriter(OutputStream &out, bool quote_minimal = true)
            : _out(out), _quote_minimal(quote_minimal) {}

        ~DelimWriter() {
            _out.flush();
        }

        template<typename Container>
        requires requires(const Container &c) { c.begin(); c.end(); }
        DelimWriter &operator<<(const Container &record) {
            if (on_write != nullptr) {
                on_write();
            }
            bool first = true;
            for (const auto &field : record) {
                if (not first) {
                    _out << Delim;
                }
                first = false;
                _out << escape(field);
            }
            _out << '\n';
            if constexpr (Flush) {
                _out.flush();
            }
            return *this;
        }
    };

}

#endif
