// Monitor: searching a network for nodes and edges finds exactly the matching ones, for every index kind (search.hpp).
#define VERIF_QUARANTINE_MAIN
#include "mapped.hpp"

void search_plane(vh::context &ctx, vh::rng &r);
void search_sphere(vh::context &ctx, vh::rng &r);
void search_ellipsoid(vh::context &ctx, vh::rng &r);

int main(int argc, char **argv) {
    return vh::run(argc, argv, {{"plane", search_plane, 4000, 60000}, {"sphere", search_sphere, 600, 10000},
            {"ellipsoid", search_ellipsoid, 600, 10000}});
}
