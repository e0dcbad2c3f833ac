// Configurations in which rewrites, delegations and address look-ups can form loops of every shape.
#ifndef LOOPS_H_
#define LOOPS_H_
#include "world.h"
static string loopTarget(const char *n)
{
    // a name in one of the zones, possibly longer than the query it rewrites
    int k = (int)sy_choice(n, 4);
    string l = symLabel(n, "ab", 1);
    return k == 0 ? l + ".o." : k == 1 ? l + ".c.o." : k == 2 ? l + "." + l + ".o." : "c.o.";
}
static void loopWorld(World &w, int n, bool grow)
{
    w.tops = {"t.o."};
    int zo = w.zone("t.o.", {"o"});
    // the child's server inside or outside the child, at home where the delegation says or not, with or without address
    int k = (int)sy_choice("delegation", QT(4, 8));
    bool in = k == 0 || k > 5, athome = k != 3 && k != 7, glue = k == 1 || k == 4 || k == 6;
    w.add(zo, {{"c", "o"}, RRType::NS, 5, in ? "s.c.o." : "s.o."});
    int zc = w.zone(in == athome ? "s.c.o." : "s.o.", {"c", "o"});
    if (glue) w.add(zo, {{"s", "o"}, RRType::A, 5, "1"});
    for (int i = 0; i < n; i++) {
        RR r;
        int z = sy_bool("zone") ? zc : zo;
        r.owner = cat({symLabel("l", grow ? "as*" : "as", 1)}, w.zones[z].ref.origin);
        uint32_t k = sy_u32("type", 0, 2);
        r.type = k == 0 ? RRType::NS : k == 1 ? RRType::CNAME : RRType::DNAME;
        r.ttl = 5;
        r.rdata = loopTarget("target");
        if (!grow && r.type == RRType::DNAME) sy_assume(splitText(r.rdata).size() <= r.owner.size());
        w.add(z, r);
    }
}
// a long chain of aliases to and fro between two servers, to an address, nothing, a place nobody serves, or back into itself
static Labels chainWorld(World &w, uint32_t ttl = 5)
{
    const int n = 5 + 6 * (int)sy_choice("length", 2);
    int end = (int)sy_choice("chainend", 5);
    bool dname = sy_bool("chaindname"); // the first step by a DNAME
    w.tops = {"t.o."};
    int zo = w.zone("t.o.", {"o"});
    w.add(zo, {{"c", "o"}, RRType::NS, 5, "m.o."});
    w.add(zo, {{"m", "o"}, RRType::A, 5, "1"});
    int zc = w.zone("m.o.", {"c", "o"});
    auto nm = [&](int i) { return i % 2 ? Labels{"n" + std::to_string(i), "c", "o"} : Labels{"n" + std::to_string(i), "o"}; };
    for (int i = 0; i < n; i++) {
        Labels to = i + 1 < n ? nm(i + 1) : end == 0 ? Labels{"a", "o"} : end == 1 ? Labels{"b", "o"} : end == 2 ? Labels{"b", "p"} : end == 3 ? nm(0) : nm(n / 2);
        w.add(i % 2 ? zc : zo, {nm(i), dname && i == 0 ? (uint32_t)RRType::DNAME : (uint32_t)RRType::CNAME, ttl, text(to)});
        if (i == 0 && dname) w.add(zc, {cat({"x"}, nm(1)), RRType::CNAME, ttl, text(nm(2))});
    }
    w.add(zo, {{"a", "o"}, RRType::A, ttl, "1"});
    return dname ? cat({"x"}, nm(0)) : nm(0);
}
static Labels loopQuery(bool longer)
{
    Labels q = {symLabel("q", "as", 1), "o"};
    bool child = sy_bool("qchild");
    if (child) q = {q[0], "c", "o"};
    if (longer && (THOROUGH ? sy_bool("longer") : !child)) q = cat({"x"}, q);
    return q;
}
#endif
