exec(open("/verif/tools/plants/a.py").read().split("PLANTS = " + "[")[0])
IO = CORE + ["src/library/src/io/importer.cpp", "src/library/src/io/file_exporter.cpp"]
G = I + "geometry/"
LINE = '''
#include <cstdio>
#include <cmath>
#include <set>
#include <vector>
#include "types/geometry/point.hpp"
#include "types/geometry/rich_type/eager_multi_rich_line.hpp"
#include "types/geometry/rich_type/lazy_multi_rich_line.hpp"
#include "types/geometry/rich_type/multi_rich_line.hpp"
using namespace map_matching_2;
namespace mg = map_matching_2::geometry;
using point_t = mg::point_type<mg::cs_cartesian>;
using lazy_t = mg::lazy_rich_line<point_t>;
using eager_t = mg::eager_rich_line<point_t>;
using plain_t = mg::rich_line<point_t>;
using line_t = lazy_t::line_type;
'''
PLANTS = [
 dict(id="erase-second-azimuth", property="P12",
      needs="erasing the second point of a line whose bearings were already asked for or computed in advance",
      breaks="the bearing of the first segment stays that of the segment to the erased point, so turning directions are wrong",
      edits=[(G + "rich_type/rich_line_data.hpp",
              "if (not _azimuths.empty() and index > 0 and index < rich_line.size()) {",
              "if (not _azimuths.empty() and index > 1 and index < rich_line.size()) {")],
      sources=CORE,
      demo=LINE + '''
int main() {
    eager_t line{line_t{{0, 0}, {1, 0}, {1, 1}, {2, 1}}};
    line.erase(1, true);
    const plain_t same{line.line()};
    std::printf("%f %f\\n", line.absolute_directions(), same.absolute_directions());
    return std::fabs(line.absolute_directions() - same.absolute_directions()) < 1e-9 &&
        std::fabs(line.azimuth(0) - same.azimuth(0)) < 1e-9 ? 0 : 1;
}
'''),
 dict(id="cut-near-start-ignored", property="P13",
      needs="a cut less than half a meter behind the start of the line, with the part going to the end of the line",
      breaks="the part begins at the start of the line instead of at the position, so joined parts are too long",
      edits=[(G + "algorithm/substring.hpp",
              "from_distance == geometry::default_float_type<length_type>::v0 and to_distance == rich_line.length()) {",
              "from_distance < static_cast<length_type>(0.5) and to_distance == rich_line.length()) {")],
      sources=CORE,
      demo=LINE + '''
#include "geometry/algorithm/substring.hpp"
int main() {
    const lazy_t line{line_t{{0, 0}, {10, 0}, {10, 10}}};
    const auto part = mg::substring_from(line, 0.25);
    std::printf("%s %f\\n", part.wkt().c_str(), part.length());
    return std::fabs(part.length() - 19.75) < 1e-9 && std::fabs(boost::geometry::get<0>(part.front()) - 0.25) < 1e-9 ? 0 : 1;
}
'''),
 dict(id="last-reversal-dropped", property="P14",
      needs="a line that turns back at its next to last point, simplified with reversals retained",
      breaks="the turning point is dropped, so the line ends without going there",
      edits=[(G + "algorithm/simplify.hpp",
              "for (std::size_t i = 0; i + 2 < rich_line.size(); i++) {",
              "for (std::size_t i = 0; i + 3 < rich_line.size(); i++) {")],
      sources=CORE,
      demo=LINE + '''
#include "geometry/algorithm/simplify.hpp"
int main() {
    // Along the axis, a little further than the tolerance at first, and back within the tolerance at the end.
    lazy_t line{line_t{{0, 0}, {10, 0}, {20, 0}, {19, 0}}};
    mg::simplify_rich_line(line, true, 2.0);
    std::printf("%s\\n", line.wkt().c_str());
    return line.size() == 3 && boost::geometry::get<0>(line.at(1)) == 20 ? 0 : 1;
}
'''),
 dict(id="loop-dropped-in-merge", property="P15",
      needs="merging routes of which one consists of a closed loop only (starting and ending at the same place)",
      breaks="the loop is taken for a standstill and left out of the merged route",
      edits=[(G + "network/route/route.hpp",
              '''                for (std::size_t i = 0, j = 1; j < _size(rich_line); ++i, ++j) [[likely]] {
                    const auto &_first = _at(rich_line, i);
                    const auto &_second = _at(rich_line, j);
                    if (not geometry::equals_points(_first, _second)) [[likely]] {
                        return true;
                    }
                }''',
              '''                if (_size(rich_line) >= 2) [[likely]] {
                    const auto &_first = _front(rich_line);
                    const auto &_second = _back(rich_line);
                    if (not geometry::equals_points(_first, _second)) [[likely]] {
                        return true;
                    }
                }''')],
      sources=CORE,
      demo=LINE + '''
#include "types/geometry/network/route/lazy_route.hpp"
using route_t = mg::network::lazy_route_type<mg::cs_cartesian>;
using rich_t = mg::lazy_rich_line_type<point_t>;
int main() {
    rich_t to{line_t{{0, 0}, {1, 0}}}, around{line_t{{1, 0}, {2, 0}, {2, 1}, {1, 0}}};
    std::vector<route_t> parts;
    parts.emplace_back(to);
    parts.emplace_back(around);
    const auto all = route_t::merge<rich_t>(std::move(parts));
    std::printf("%s\\n", all.wkt().c_str());
    return all.size() == 2 && all.length() > 4 ? 0 : 1;
}
'''),
]
