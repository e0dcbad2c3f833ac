// The name, types and class shape a CNAME or DNAME leads to, and the length limit of rewritten names.
#include "world.h"
extern "C" void sy_harness()
{
    World w;
    w.tops = {"t.o."};
    // the zone that answers may be the root's, or one next to the target's
    int kind = (int)sy_choice("kind", 3);
    uint64_t types = (1ull << RRType::A) | ((uint64_t)sy_flag("cname") << RRType::CNAME) | ((uint64_t)sy_flag("txt") << RRType::TXT) | ((uint64_t)sy_flag("dnametype") << RRType::DNAME);
    bool below = sy_bool("below"), undefined = below && sy_flag("undefined");
    Labels q;
    int z;
    if (kind == 2) {
        // lengths around the limit
        z = w.zone("t.o.", {"o"});
        bool dname = sy_bool("dname");
        int prefix = 1 + (int)sy_choice("prefix", 3), last = 55 + (int)sy_choice("last", 7);
        Labels target = {string(last, 'k'), string(60, 'l'), string(60, 'm'), string(1 + 62, 'n')};
        bool home = sy_bool("home"); // does the target lie in the same server's zone?
        target = cat(target, home ? Labels{"o"} : Labels{symLabel("elsewhere", "pqr", 1)});
        sy_assume(legalName(target)); // others are refused when they are loaded
        Labels owner = {"d", "o"};
        w.add(z, {owner, dname ? (uint32_t)RRType::DNAME : (uint32_t)RRType::CNAME, 5, text(target)});
        q = dname ? cat({string(prefix, 'a')}, owner) : owner;
        if (home && sy_bool("exists")) w.add(z, {target, RRType::A, 5, "1"});
    } else {
        z = w.zone("t.o.", kind ? Labels{"o"} : Labels{});
        Labels owner = {symLabel("owner", "ab", 1), "o"};
        if (sy_bool("deep")) owner = cat({symLabel("owner", "c*", 1)}, owner);
        Labels target;
        int depth = (int)sy_choice("depth", 4);
        for (int d = 0; d < depth; d++) target = cat({symLabel("target", d ? "ab" : "op", 1)}, target);
        w.add(z, {owner, sy_flag("dname") ? (uint32_t)RRType::DNAME : (uint32_t)RRType::CNAME, 5, text(target)});
        w.add(z, {{symLabel("host", "ab", 1), "o"}, RRType::A, 5, "1"});
        if (sy_bool("second")) w.zone("u.", {"p"});
        q = {symLabel("q", "ab", 1), "o"};
        int more = (int)sy_choice("qdepth", QT(2, 3));
        for (int d = 0; d < more; d++) q = cat({symLabel("q", "ac", 1)}, q);
        if (sy_bool("deeper")) q = cat({"e"}, q);
    }
    w.explore(q, types, below);
    DriverTest t;
    w.load(t);
    EC e = mkEC(q, types, below);
    e.nonExistent = undefined;
    IGraph g(e, t.ctx());
    compareGraphs(w, g);
    sy_obs("nodes", num_vertices(g));
    // a DNAME keeps the class shape; what a CNAME leads to is a name of its own
    for (size_t v = 0; v < num_vertices(g); v++) {
        bool viaDname = false, viaCname = false;
        for (auto ed : boost::make_iterator_range(in_edges(v, g))) {
            auto &a = g[ed.m_source].answer;
            if (!a || std::get<0>((*a)[0]) != ReturnTag::REWRITE) continue;
            bool c = std::get<2>((*a)[0])[0].get_type() == RRType::CNAME;
            viaCname |= c;
            viaDname |= !c;
            sy_reach(c ? "CNAME" : "DNAME");
            if (!c && !viaCname) sy_check(g[v].query.nonExistent == g[ed.m_source].query.nonExistent, "a DNAME rewrite changes whether the name is one that no zone defines");
        }
        if (g[v].answer && std::get<0>((*g[v].answer)[0]) == ReturnTag::YX) sy_reach("too long");
    }
}
