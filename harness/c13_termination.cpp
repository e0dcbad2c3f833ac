// Resolution ends on every configuration, loops included, and its nodes are pairwise different.
#include "loops.h"
extern "C" void sy_harness()
{
    World w;
    bool chain = sy_bool("chain");
    if (chain) sy_reach("long chain");
    Labels q;
    if (chain) q = chainWorld(w);
    else {
        loopWorld(w, QT(2, 3), true);
        q = loopQuery(true);
    }
    // "any name below", of one of the names or of the zone above them
    bool below = sy_bool("below");
    if (below && sy_bool("above")) q.erase(q.begin());
    uint64_t types = (1ull << RRType::A) | ((uint64_t)(THOROUGH && sy_flag("cname")) << RRType::CNAME);
    DriverTest t;
    w.load(t);
    IGraph g(mkEC(q, types, below), t.ctx());
    sy_obs("nodes", num_vertices(g));
    sy_obs("edges", num_edges(g));
    for (size_t i = 0; i < num_vertices(g); i++) {
        sy_check(g[i].ns == "" || (g[i].answer && !g[i].answer->empty()), "a visited server has no answer");
    }
    if (num_edges(g) >= num_vertices(g)) sy_reach("revisit");
    if (num_vertices(g) > 40) sy_reach("growing name");
    w.explore(q, types, below);
    matchNodes(w, g);
}
