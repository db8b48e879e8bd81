#include "search.hpp"

void search_ellipsoid(vh::context &ctx, vh::rng &r) {
    search::scenario<MM2_GEOGRAPHIC>(ctx, r);
}
