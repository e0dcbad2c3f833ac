// Insertion order and number of siblings make no difference to what zones answer and which names the tree knows.
#include "tree.h"
// the names the search returns, with the number of labels matched
struct Found {
    vector<Labels> names;
    int matched = -1;
};
static void walk(label::Graph &g, size_t v, const Labels &n, size_t want, Found &f)
{
    if (v == want) f.names.push_back(n);
    for (auto e : boost::make_iterator_range(out_edges(v, g)))
        if (g[e].type == label::normal && g[e.m_target].name.get() != ".") walk(g, e.m_target, cat({g[e.m_target].name.get()}, n), want, f);
}
static Found search(label::Graph &g, const Labels &q)
{
    Found f;
    for (auto &c : g.ClosestEnclosers(toNL(q))) {
        f.matched = c.second;
        walk(g, 0, {}, c.first, f);
    }
    return f;
}
static bool sameFound(const Found &a, const Found &b)
{
    auto in = [](const Labels &n, const vector<Labels> &v) {
        for (auto &x : v)
            if (x == n) return true;
        return false;
    };
    for (auto &n : a.names)
        if (!in(n, b.names)) return false;
    for (auto &n : b.names)
        if (!in(n, a.names)) return false;
    return a.matched == b.matched;
}
static void addBoth(zone::Graph &z, label::Graph &g, const RR &r)
{
    ResourceRecord rr = mkRR(r);
    auto [code, vertex] = z.AddResourceRecord(rr);
    sy_check(code == zone::RRAddCode::SUCCESS, "an acceptable record is refused");
    g.AddResourceRecord(rr, 1, vertex.get());
}
extern "C" void sy_harness()
{
    RefZone ref;
    ref.origin = {"o"};
    bool many = sy_bool("many");
    zone::Graph z1(1), z2(1);
    label::Graph g1, g2;
    RR soa = {ref.origin, RRType::SOA, 5, "soa"};
    ref.rrs.push_back(soa);
    if (many) {
        // many children, then records whose place among them is symbolic; the second copy has the children in reverse order
        addBoth(z1, g1, soa);
        Tree names;
        names.add(soa);
        vector<RR> kids;
        if (sy_bool("substituted")) {
            // the node with many children substitutes a name whose last label may be that of a child
            RR r = {ref.origin, RRType::DNAME, 5, symLabel("target", "ay", 1) + ".p."};
            ref.rrs.push_back(r);
            names.add(r);
            addBoth(z1, g1, r);
        }
        int n = 498;
        for (int i = 0; i < n; i++) kids.push_back({{"x" + std::to_string(1000 + i).substr(1), "o"}, RRType::A, 5, "1"});
        for (auto &r : kids) addBoth(z1, g1, r);
        int extra = THOROUGH ? (int)sy_choice("extra", 5) : 1 + (int)sy_choice("extra", 3);
        for (int i = 0; i < extra; i++) {
            kids.push_back({{"y" + std::to_string(i), "o"}, RRType::A, 5, "1"});
            addBoth(z1, g1, kids.back());
        }
        vector<RR> own;
        for (int i = 0; i < QT(2, 3); i++) {
            RR r;
            int k = (int)sy_choice("shape", 4);
            r.owner = {k == 0 ? "x00" + symLabel("l", "0z", 1) : k == 1 ? "y" + symLabel("l", "03", 1) : symLabel("l", "a*", 1), "o"};
            if (k == 3) r.owner = cat({"b"}, r.owner);
            r.type = vector<uint32_t>{RRType::TXT, RRType::NS, RRType::DNAME}[sy_u32("type", 0, 2)];
            r.ttl = 5;
            r.rdata = string(1, (char)('p' + i)) + ".p.";
            sy_assume(refAdd(ref, r) == zone::RRAddCode::SUCCESS);
            ref.rrs.push_back(r);
            own.push_back(r);
            addBoth(z1, g1, r);
        }
        for (auto &r : kids) ref.rrs.push_back(r);
        int k = (int)sy_choice("query", 5);
        Labels q = {k == 0 ? "x00" + symLabel("q", "0z", 1) : k == 1 ? "x49" + symLabel("q", "07", 1) : k == 2 ? "y" + symLabel("q", "0123", 1) : symLabel("q", "a*", 1), "o"};
        if (k == 4) q = cat({"b"}, q);
        uint64_t types = (1ull << RRType::TXT) | (1ull << RRType::A);
        bool below = THOROUGH ? sy_bool("below") : q.size() == 2, complete;
        compareAnswers(ref.lookup(q, types, below), z1.QueryLookUpAtZone(mkEC(q, types, below), complete));
        // what the tree must know
        for (auto &r : kids) names.add(r);
        for (auto &r : own) names.add(r);
        Tree::Match m = names.search(q);
        Found f = search(g1, q), w;
        for (int x : m.nodes) w.names.push_back(names.v[x].name);
        w.matched = (int)m.matched;
        sy_check(sameFound(f, w), "the name tree's search result depends on the number of siblings");
        sy_reach(f.matched == (int)q.size() ? "found among many" : "not found among many");
        sy_obs("matched", f.matched);
        return;
    }
    const int n = QT(3, 4);
    vector<RR> rr;
    for (int i = 0; i < n; i++) {
        RR r;
        Labels o = ref.origin;
        int depth = THOROUGH ? (int)sy_choice("depth", i == 0 ? 3 : 2) + (i > 0) : i == 0 ? 1 : 1 + (int)sy_choice("depth", 2);
        for (int d = 0; d < depth; d++) o = cat({symLabel("l", d ? "a*" : "ab", 1)}, o);
        r.owner = o;
        r.type = sy_u32("type", 0, QT(3, RRType::N - 1));
        sy_assume(r.type != RRType::SOA);
        r.ttl = 5;
        r.rdata = r.type == RRType::DNAME ? "a.o." : i ? "b.o." : "a.o.";
        sy_assume(refAdd(ref, r) == zone::RRAddCode::SUCCESS);
        ref.rrs.push_back(r);
        rr.push_back(r);
    }
    // one order against another; the start of authority comes first (a file is read that way)
    addBoth(z1, g1, soa);
    addBoth(z2, g2, soa);
    for (auto &r : rr) addBoth(z1, g1, r);
    vector<RR> rest = rr;
    bool reverse = !THOROUGH && sy_bool("reverse");
    while (!rest.empty()) {
        size_t k = rest.size() == 1 ? 0 : THOROUGH ? sy_choice("next", rest.size()) : reverse ? rest.size() - 1 : rest.size() == rr.size() ? 1 : 0;
        addBoth(z2, g2, rest[k]);
        rest.erase(rest.begin() + k);
    }
    Labels q = ref.origin;
    int depth = THOROUGH ? (int)sy_choice("qdepth", 3) : 1 + (int)sy_choice("qdepth", 2);
    for (int d = 0; d < depth; d++) q = cat({symLabel("q", "ab", 1)}, q);
    uint64_t types = THOROUGH && sy_flag("alltypes") ? kAllTypes : (1ull << RRType::A);
    bool below = THOROUGH ? sy_bool("below") : q.size() == 2, complete;
    auto a1 = z1.QueryLookUpAtZone(mkEC(q, types, below), complete), a2 = z2.QueryLookUpAtZone(mkEC(q, types, below), complete);
    vector<RefAnswer> want = ref.lookup(q, types, below);
    compareAnswers(want, a1);
    compareAnswers(want, a2);
    Found f1 = search(g1, q), f2 = search(g2, q);
    sy_check(sameFound(f1, f2), "the name tree's search result depends on the order of insertion");
    sy_check(num_vertices(g1) == num_vertices(g2), "the number of names depends on the order of insertion");
    sy_reach("orders");
    sy_obs("matched", f1.matched);
}
