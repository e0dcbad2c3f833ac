// Delegation Consistency on real resolutions of a delegated zone whose NS and address records at both sides are symbolic.
#include "checks.h"
static string host(const char *n) { return symLabel(n, "mn", 1) + (sy_bool(n) ? ".c.o." : ".o."); }
static void address(World &w, int z, const char *n)
{
    RR r;
    r.owner = {symLabel(n, "mna", 1), "o"};
    if (sy_bool(n)) r.owner = {r.owner[0], "c", "o"};
    r.type = sy_flag(n) ? RRType::A : RRType::AAAA;
    r.ttl = sy_u32(n, 0, 1);
    r.rdata = symLabel(n, "12", 1);
    w.add(z, r);
}
extern "C" void sy_harness()
{
    World w;
    w.tops = {"t.o."};
    int zo = w.zone("t.o.", {"o"});
    static const char *server[] = {"m.c.o.", "m.o."};
    int zc = w.zone(server[sy_choice("server", 2)], {"c", "o"});
    int shape = (int)sy_choice("shape", QT(5, 8));
    // parent side
    w.add(zo, {{"c", "o"}, RRType::NS, 5, host("pns")});
    if (shape & 1) w.add(zo, {{"c", "o"}, RRType::NS, 5, host("pns")});
    if (shape != 4) address(w, zo, "paddr");
    // child side
    w.add(zc, {{"c", "o"}, RRType::NS, 6, host("cns")});
    if (shape & 4) w.add(zc, {{"c", "o"}, RRType::NS, 6, host("cns")});
    if (shape & 2) {
        // addresses of the delegated name itself, which may also be its server
        w.add(zc, {{"c", "o"}, sy_flag("apex") ? (uint32_t)RRType::A : (uint32_t)RRType::AAAA, 5, symLabel("apexaddr", "12", 1)});
        if (sy_flag("self")) w.add(zc, {{"c", "o"}, RRType::NS, 6, "c.o."});
    } else
        address(w, zc, "caddr");
    if (shape == 0 && sy_bool("twice")) {
        // a second address of the same server, at either side or both
        auto again = [&](int z, const char *n) {
            if (!sy_bool(n)) return;
            RR r = w.zones[z].ref.rrs.back();
            r.rdata = "3";
            w.add(z, r);
        };
        again(zo, "ptwice");
        again(zc, "ctwice");
    }
    Labels q = {"c", "o"};
    if (shape == 0 && sy_bool("longer")) q = {"m", "c", "o"};
    if (shape == 0 && q.size() == 3 && sy_bool("shadow")) {
        // the child's server holds the deeper zone as well, and answers from that one
        int zd = w.zone(w.zones[zc].server, q);
        w.add(zd, {q, RRType::NS, 6, host("dns")});
        if (sy_flag("daddr")) w.add(zd, {q, RRType::A, 5, symLabel("daddr", "12", 1)});
    }
    uint64_t types = 1ull << RRType::NS;
    if (sy_flag("A")) types |= 1ull << RRType::A;
    bool below = shape == 0 && sy_bool("below");
    w.explore(q, types, below);
    DriverTest t;
    w.load(t);
    IGraph g(mkEC(q, types, below), t.ctx());
    Params k;
    t.d.SetJob(jobJson("o.", true, json::array({propertyJson(k, 22, {}, {})})));
    g.CheckPropertiesOnEC(t.job().path_functions, t.job().node_functions, t.job().json_queue);
    vector<json> js = drain(t.job().json_queue);
    sy_obs("reports", js.size());
    compareReports(wantReports(w, k, 22), gotReports(js, 22));
}
