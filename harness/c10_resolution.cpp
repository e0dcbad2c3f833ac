#include "world.h"
// Delegation with and without glue, aliases across zones, address look-ups: the real resolution graph against the reference.
extern "C" void sy_harness()
{
    World w;
    w.tops = {"t.o."};
    // perhaps a second server to start from, which a delegation may lead to
    int tops = (int)sy_choice("tops", 3);
    if (tops == 1) w.tops.push_back("m.o.");
    int zo = w.zone("t.o.", {"o"});
    // delegation of c.o. to a symbolic server, with an address record whose owner is symbolic
    string srv = symLabel("s", "mt", 1) + (sy_bool("inchild") ? ".c.o." : ".o.");
    w.add(zo, {{"c", "o"}, RRType::NS, 5, srv});
    if (tops == 2) {
        // another parent, which leads to the same server, but knows no address
        w.tops.push_back("u.o.");
        w.add(w.zone("u.o.", {"o"}), {{"c", "o"}, RRType::NS, 5, srv});
    }
    Labels ao = {symLabel("g", "mta", 1), "o"};
    if (sy_bool("ainchild")) ao = {ao[0], "c", "o"};
    w.add(zo, {ao, sy_u32("gtype", 0, RRType::N - 1), 5, "1.1.1.1"});
    static const char *host[] = {"m.c.o.", "m.o.", "t.o."};
    string child = host[sy_choice("host", 3)];
    int zc = w.zone(child, {"c", "o"});
    // records anywhere, aliases to anywhere
    for (int i = 0; i < QT(1, 2); i++) {
        RR r;
        int z = sy_bool("zone") ? zc : zo;
        r.owner = cat({symLabel("l", "ab", 1)}, w.zones[z].ref.origin);
        r.type = sy_u32("type", 0, RRType::N - 1);
        r.ttl = 5;
        r.rdata = symLabel("h", "ab", 1) + (sy_bool("tochild") ? ".c.o." : ".o.");
        w.add(z, r);
    }
    Labels q = {symLabel("q", "ab", 1), "o"};
    if (sy_bool("qchild")) q = {q[0], "c", "o"};
    bool below = sy_bool("below");
    uint64_t types = sy_u64("types", 1, kAllTypes);
    w.explore(q, types, below);
    DriverTest t;
    w.load(t);
    IGraph g(mkEC(q, types, below), t.ctx());
    sy_obs("nodes", num_vertices(g));
    sy_obs("edges", num_edges(g));
    for (auto &n : w.g) {
        if (n.ns != "" && !n.ans.empty())
            sy_reach(n.ans[0].tag == ReturnTag::REF ? "referral" : n.ans[0].tag == ReturnTag::REWRITE ? "rewrite" : n.ans[0].tag == ReturnTag::REFUSED ? "refused" : n.ans[0].tag == ReturnTag::NSNOTFOUND ? "unknown server" : "end");
        for (auto &e : n.out)
            if (e.side >= 0) sy_reach("address look-up");
    }
    compareGraphs(w, g);
}
