#include "search.hpp"

void search_plane(vh::context &ctx, vh::rng &r) {
    search::scenario<MM2_CARTESIAN>(ctx, r);
}
