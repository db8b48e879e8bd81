// Stand-in for the small part of gpxlib that map-matching-2 uses, on top of expat.
#ifndef VERIF_SHIM_GPX_PARSER_H
#define VERIF_SHIM_GPX_PARSER_H

#include <istream>
#include <iterator>
#include <list>
#include <memory>
#include <string>
#include <vector>
#include <cstring>

#include <expat.h>

namespace gpx {

    class Value {
        std::string _value;

    public:
        [[nodiscard]] const std::string &getValue() const { return _value; }

        void setValue(std::string value) { _value = std::move(value); }
    };

    template<typename T>
    class List {
        std::list<T *> _list;
        std::vector<std::shared_ptr<T>> _own;

    public:
        std::list<T *> &list() { return _list; }

        T *append() {
            _own.emplace_back(std::make_shared<T>());
            _list.emplace_back(_own.back().get());
            return _own.back().get();
        }
    };

    class WPT {
        Value _lat, _lon, _time;

    public:
        Value &lat() { return _lat; }
        Value &lon() { return _lon; }
        Value &time() { return _time; }
    };

    class TRKSeg {
        List<WPT> _trkpts;

    public:
        List<WPT> &trkpts() { return _trkpts; }
    };

    class TRK {
        List<TRKSeg> _trksegs;
        Value _name;

    public:
        List<TRKSeg> &trksegs() { return _trksegs; }
        Value &name() { return _name; }
    };

    class Metadata {
        Value _name;

    public:
        Value &name() { return _name; }
    };

    class GPX {
        List<TRK> _trks;
        Metadata _metadata;

    public:
        List<TRK> &trks() { return _trks; }
        Metadata &metadata() { return _metadata; }
    };

    class ReportInterface;

    class Parser {
        std::string _error;
        int _line{0}, _column{0};

        struct state {
            std::unique_ptr<GPX> gpx;
            std::vector<std::string> path;
            TRK *trk{nullptr};
            TRKSeg *seg{nullptr};
            WPT *wpt{nullptr};
            std::string text;
        };

        static void XMLCALL start(void *data, const char *name, const char **attrs) {
            auto &s = *static_cast<state *>(data);
            const std::string n{name};
            if (s.path.empty() and n == "gpx") {
                s.gpx = std::make_unique<GPX>();
            } else if (s.gpx) {
                const auto &parent = s.path.back();
                if (n == "trk" and parent == "gpx") {
                    s.trk = s.gpx->trks().append();
                } else if (n == "trkseg" and parent == "trk" and s.trk) {
                    s.seg = s.trk->trksegs().append();
                } else if (n == "trkpt" and parent == "trkseg" and s.seg) {
                    s.wpt = s.seg->trkpts().append();
                    for (const char **a = attrs; *a; a += 2) {
                        if (std::strcmp(*a, "lat") == 0) {
                            s.wpt->lat().setValue(a[1]);
                        } else if (std::strcmp(*a, "lon") == 0) {
                            s.wpt->lon().setValue(a[1]);
                        }
                    }
                }
            }
            s.path.emplace_back(n);
            s.text.clear();
        }

        static void XMLCALL finish(void *data, const char *name) {
            auto &s = *static_cast<state *>(data);
            const std::string n{name};
            s.path.pop_back();
            const std::string parent = s.path.empty() ? "" : s.path.back();
            if (n == "time" and parent == "trkpt" and s.wpt) {
                s.wpt->time().setValue(s.text);
            } else if (n == "name" and parent == "trk" and s.trk) {
                s.trk->name().setValue(s.text);
            } else if (n == "name" and parent == "metadata" and s.gpx) {
                s.gpx->metadata().name().setValue(s.text);
            } else if (n == "trkpt") {
                s.wpt = nullptr;
            } else if (n == "trkseg") {
                s.seg = nullptr;
            } else if (n == "trk") {
                s.trk = nullptr;
            }
            s.text.clear();
        }

        static void XMLCALL text(void *data, const char *t, int len) {
            static_cast<state *>(data)->text.append(t, static_cast<std::size_t>(len));
        }

    public:
        explicit Parser(ReportInterface *) {}

        GPX *parse(std::istream &stream) {
            const std::string in{std::istreambuf_iterator<char>{stream}, std::istreambuf_iterator<char>{}};
            state s;
            XML_Parser parser = XML_ParserCreate(nullptr);
            XML_SetUserData(parser, &s);
            XML_SetElementHandler(parser, start, finish);
            XML_SetCharacterDataHandler(parser, text);
            if (XML_Parse(parser, in.data(), static_cast<int>(in.size()), 1) == XML_STATUS_ERROR) {
                _error = XML_ErrorString(XML_GetErrorCode(parser));
                _line = static_cast<int>(XML_GetCurrentLineNumber(parser));
                _column = static_cast<int>(XML_GetCurrentColumnNumber(parser));
                XML_ParserFree(parser);
                return nullptr;
            }
            XML_ParserFree(parser);
            // the caller owns the document (gpxlib behaves the same)
            return s.gpx.release();
        }

        [[nodiscard]] const std::string &errorText() const { return _error; }
        [[nodiscard]] int errorLineNumber() const { return _line; }
        [[nodiscard]] int errorColumnNumber() const { return _column; }
    };

}

#endif
