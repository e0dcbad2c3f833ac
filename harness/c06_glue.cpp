// Referrals: every NS record of the cut once, and each server's own addresses in the zone, however records are interleaved.
#include "world.h"
extern "C" void sy_harness()
{
    World w;
    w.tops = {"t.o."};
    int z = w.zone("t.o.", {"o"});
    const int n = QT(3, 4);
    for (int i = 0; i < n; i++) {
        RR r;
        r.ttl = 5;
        if (i == 0 || (i < n - 1 && sy_bool("ns"))) {
            r.owner = {"c", "o"};
            r.type = RRType::NS;
            int k = (int)sy_choice("where", 5);
            r.rdata = k == 4 ? "o." : k == 3 ? "c.o." : k == 2 ? symLabel("server", "tx", 1) + "." + symLabel("zone", "op", 1) + "." : symLabel("server", "mn", 1) + (k == 1 ? "." + symLabel("under", "cd", 1) + ".o." : ".o.");
        } else {
            int k = (int)sy_choice("addrwhere", QT(3, 4));
            r.owner = k == 3 ? Labels{"o"} : k == 2 ? Labels{"c", "o"} : k == 1 ? Labels{symLabel("addr", "mn", 1), symLabel("under", "cd", 1), "o"} : Labels{symLabel("addr", "mnt*", 1), "o"};
            r.type = sy_u32("type", 0, RRType::N - 1);
            r.rdata = symLabel("data", "12", 1);
        }
        w.add(z, r);
    }
    const RefZone &ref = w.zones[z].ref;
    DriverTest t;
    w.load(t);
    Labels q = {"c", "o"};
    if (sy_bool("longer")) q = {symLabel("q", "m*", 1), "c", "o"};
    bool below = THOROUGH && sy_bool("below");
    const zone::Graph &g = t.ctx().zoneId_to_zone.begin()->second;
    bool complete;
    auto got = g.QueryLookUpAtZone(mkEC(q, 1, below), complete);
    compareAnswers(ref.lookup(q, 1, below), got);
    // the records the structure check works with
    vector<RR> ns = RefZone::only(ref.at({"c", "o"}), RRType::NS);
    vector<ResourceRecord> nsr;
    vector<RR> glue;
    bool required = false;
    for (auto &r : ns) {
        nsr.push_back(mkRR(r));
        Labels target = splitText(r.rdata);
        required |= under(target, {"o"});
        for (auto &a : ref.at(target))
            if (a.type == RRType::A || a.type == RRType::AAAA) glue.push_back(a);
    }
    sy_check(sameSet(glue, g.LookUpGlueRecords(nsr)), "the addresses found for the servers differ from the zone's");
    sy_check(g.RequireGlueRecords(nsr) == required, "wrong decision whether addresses are required in the zone");
    sy_reach(required ? "glue required" : "no glue required");
    sy_reach(glue.empty() ? "no glue" : glue.size() > 1 ? "several glue records" : "one glue record");
    // pairing: servers with addresses are asked directly, others after an address look-up
    w.explore(q, 1, below);
    IGraph ig(mkEC(q, 1, below), t.ctx());
    compareGraphs(w, ig);
    sy_obs("nodes", num_vertices(ig));
}
