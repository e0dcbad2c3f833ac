// Closest enclosers: longest matches through child labels and DNAME targets, by reachability over (node, matched labels).
#include "tree.h"
extern "C" void sy_harness()
{
    Tree ref;
    label::Graph g;
    const int n = QT(3, 4);
    for (int i = 0; i < n; i++) {
        bool dname = i == 0 || (i < 2 || THOROUGH) && sy_bool("dname");
        auto nm = [&](const char *t) {
            Labels l;
            int depth = THOROUGH ? (int)sy_choice(t, 3) : t[0] == 'o' ? 1 + (int)sy_choice(t, 2) : 2 - (int)sy_choice(t, i == 0 ? 3 : 2);
            for (int d = 0; d < depth; d++) l = cat({symLabel(t, "ab", 1)}, l);
            return l;
        };
        Labels o = nm("owner");
        string rd = "1";
        if (dname) rd = text(nm("target"));
        RR r = {o, dname ? (uint32_t)RRType::DNAME : (uint32_t)RRType::A, 5, rd};
        ref.add(r);
        g.AddResourceRecord(mkRR(r), i, 0);
    }
    Labels q;
    int depth = THOROUGH ? 1 + (int)sy_choice("qdepth", 4) : 2 + (int)sy_choice("qdepth", 2);
    for (int d = 0; d < depth; d++) q = cat({symLabel("q", "ab", 1)}, q);
    Tree::Match m = ref.search(q);
    size_t best = m.matched;
    const std::set<int> &want = m.nodes;
    std::set<int> got;
    vector<Labels> name = namesOf(g);
    sy_check(num_vertices(g) == ref.v.size(), "the name tree holds a wrong number of names");
    auto r = g.ClosestEnclosers(toNL(q));
    sy_obs("found", r.size());
    for (auto &[vertex, matched] : r) {
        sy_check(matched == (int)best, "the search does not return the longest match");
        int f = -1;
        for (size_t x = 0; x < ref.v.size(); x++)
            if (ref.v[x].name == name[vertex]) f = (int)x;
        sy_check(f >= 0, "the name tree holds a name no record mentions");
        sy_check(want.count(f), "the search returns a node that does not match");
        got.insert(f);
    }
    sy_check(got.size() == want.size(), "the search misses a longest match");
    // a second search finds the same
    auto r2 = g.ClosestEnclosers(toNL(q));
    sy_check(r2.size() == r.size(), "a repeated search gives a different result");
    sy_reach(best == 0 ? "nothing matches" : best == q.size() ? "full match" : "partial match");
    if (want.size() > 1) sy_reach("several enclosers");
}
