#include "search.hpp"

void search_sphere(vh::context &ctx, vh::rng &r) {
    search::scenario<MM2_SPHERICAL_EQUATORIAL>(ctx, r);
}
