// Whole configurations: zones on servers, loaded into the real context and name tree, and a reference resolver over them.
#ifndef WORLD_H_
#define WORLD_H_
#include "zone.h"
struct RefEdge {
    int to;
    int side; // the address look-up the step depends on, or -1
};
struct RefNode {
    string ns;
    Labels q;
    uint64_t types;
    bool below;
    vector<RefAnswer> ans;
    vector<RefEdge> out;
};
static inline bool legalName(const Labels &l)
{
    size_t n = 1;
    bool ok = true;
    for (auto &x : l) {
        ok = ok && x.size() <= 63;
        n += x.size() + 1;
    }
    if (ok && n <= 255) return true;
    // an escape sequence, a backslash and one character or three digits, is one octet
    n = 1;
    for (auto &x : l) {
        size_t o = 0;
        for (size_t i = 0; i < x.size(); i++, o++)
            if (x[i] == '\\') i += i + 3 < x.size() && isdigit(x[i + 1]) && isdigit(x[i + 2]) && isdigit(x[i + 3]) ? 3 : 1;
        if (o > 63) return false;
        n += o + 1;
    }
    return n <= 255;
}
static inline string cap(const string &server) { return server; }
struct World {
    struct Z {
        string server;
        RefZone ref;
    };
    vector<Z> zones;
    vector<string> tops;
    vector<string> servers() const
    {
        vector<string> v;
        for (auto &z : zones) {
            bool f = false;
            for (auto &s : v) f |= s == z.server;
            if (!f) v.push_back(z.server);
        }
        return v;
    }
    int zone(const string &server, const Labels &origin)
    {
        Z z;
        z.server = server;
        z.ref.origin = origin;
        z.ref.rrs.push_back({origin, RRType::SOA, 5, "soa"});
        zones.push_back(z);
        return (int)zones.size() - 1;
    }
    // adds a record if the zone accepts it; paths with refused records are not followed
    void add(int z, const RR &r)
    {
        sy_assume(under(r.owner, zones[z].ref.origin));
        sy_assume(r.type != RRType::SOA);
        sy_assume(refAdd(zones[z].ref, r) == zone::RRAddCode::SUCCESS);
        zones[z].ref.rrs.push_back(r);
    }
    // loads everything into the real data structures, zones in the given order
    void load(DriverTest &t, vector<int> order = {}) const
    {
        if (order.empty())
            for (size_t i = 0; i < zones.size(); i++) order.push_back((int)i);
        Context &c = t.ctx();
        for (int i : order) {
            int id = ++c.zoneId_counter_;
            zone::Graph g(id);
            for (auto &r : zones[i].ref.rrs) {
                ResourceRecord rr = mkRR(r);
                auto [code, vertex] = g.AddResourceRecord(rr);
                sy_check(code == zone::RRAddCode::SUCCESS, "an acceptable record is refused");
                t.lg().AddResourceRecord(rr, id, vertex.get());
            }
            c.zoneId_to_zone.insert({id, std::move(g)});
            c.nameserver_zoneIds_map[zones[i].server].push_back(id);
            c.zoneId_nameserver_map.insert({id, Nameserver(zones[i].server)});
        }
        c.top_nameservers = tops;
    }

    // ---- reference resolver
    vector<RefNode> g;
    int find(const string &ns, const Labels &q, uint64_t types, bool below) const
    {
        for (size_t i = 0; i < g.size(); i++)
            if (g[i].ns == ns && g[i].types == types && g[i].below == below && g[i].q == q) return (int)i;
        return -1;
    }
    bool known(const string &server) const
    {
        for (auto &z : zones)
            if (z.server == server) return true;
        return false;
    }
    int best(const string &server, const Labels &q) const
    {
        int b = -1;
        for (size_t i = 0; i < zones.size(); i++)
            if (zones[i].server == server && under(q, zones[i].ref.origin) &&
                (b < 0 || zones[i].ref.origin.size() > zones[b].ref.origin.size()))
                b = (int)i;
        return b;
    }
    // returns the node and whether it is new
    std::pair<int, bool> step(int from, const string &ns, const Labels &q, uint64_t types, bool below, int side)
    {
        int i = find(ns, q, types, below);
        bool fresh = i < 0;
        if (fresh) {
            g.push_back({ns, q, types, below, {}, {}});
            i = (int)g.size() - 1;
        }
        g[from].out.push_back({i, side});
        return {i, fresh};
    }
    void top(int from, const Labels &q, uint64_t types, bool below)
    {
        for (auto &s : tops) {
            auto [n, fresh] = step(from, s, q, types, below, -1);
            if (!fresh) continue;
            int z = best(s, q);
            if (z < 0) g[n].ans = {{ReturnTag::REFUSED, types, {}}};
            else resolve(n, z);
        }
    }
    void resolve(int n, int z)
    {
        Labels q = g[n].q;
        uint64_t types = g[n].types;
        bool below = g[n].below;
        string ns = g[n].ns;
        vector<RefAnswer> ans = zones[z].ref.lookup(q, types, below);
        g[n].ans = ans;
        for (auto &a : ans) {
            if (a.tag == ReturnTag::REWRITE) {
                const RR &r = a.rrs[0];
                Labels nq = splitText(r.rdata);
                uint64_t nt = types;
                bool nb = below;
                if (r.type == RRType::CNAME) {
                    nt &= ~(1ull << RRType::CNAME);
                    nb = false;
                } else {
                    Labels pre(q.begin(), q.end() - r.owner.size());
                    nq = cat(pre, nq);
                }
                if (!legalName(nq)) {
                    auto [m, fresh] = step(n, ns, nq, nt, nb, -1);
                    if (fresh) g[m].ans = {{ReturnTag::YX, nt, {}}};
                    continue;
                }
                int z2 = best(ns, nq);
                if (z2 >= 0) {
                    auto [m, fresh] = step(n, ns, nq, nt, nb, -1);
                    if (fresh) resolve(m, z2);
                } else
                    top(n, nq, nt, nb);
            } else if (a.tag == ReturnTag::REF) {
                for (auto &r : a.rrs) {
                    if (r.type != RRType::NS) continue;
                    Labels target = splitText(r.rdata);
                    bool glue = false, istop = false;
                    for (auto &x : zones[z].ref.at(target)) glue |= x.type == RRType::A || x.type == RRType::AAAA;
                    for (auto &t : tops) istop |= t == r.rdata;
                    int side = -1;
                    if (!glue && !istop) {
                        uint64_t at = (1ull << RRType::A) | (1ull << RRType::AAAA);
                        side = find("", target, at, false);
                        if (side < 0) {
                            g.push_back({"", target, at, false, {}, {}});
                            side = (int)g.size() - 1;
                            top(side, target, at, false);
                        }
                    }
                    auto [m, fresh] = step(n, r.rdata, q, types, below, side);
                    if (!fresh) continue;
                    if (!known(r.rdata)) g[m].ans = {{ReturnTag::NSNOTFOUND, types, {}}};
                    else {
                        int z2 = best(r.rdata, q);
                        if (z2 < 0) g[m].ans = {{ReturnTag::REFUSED, types, {}}};
                        else resolve(m, z2);
                    }
                }
            }
        }
    }
    void explore(const Labels &q, uint64_t types, bool below)
    {
        g.clear();
        g.push_back({"", q, types, below, {}, {}});
        top(0, q, types, below);
    }
    // all paths a job's checks look at: from the start to an end, or to the first repeated node, plus the paths that end at
    // an alias when aliases are asked for
    template <class F> void paths(F f, vector<int> p = {}, int v = 0) const
    {
        if (aliasEnd(v)) {
            vector<int> c = p;
            c.push_back(v);
            f(c);
        }
        for (int x : p)
            if (x == v) return;
        p.push_back(v);
        for (auto &e : g[v].out) paths(f, p, e.to);
        if (g[v].out.empty()) f(p);
    }
    bool aliasEnd(int v) const
    {
        const RefNode &n = g[v];
        return n.ns != "" && !n.ans.empty() && n.ans[0].tag == ReturnTag::REWRITE && n.ans[0].rrs[0].type == RRType::CNAME &&
               ((n.types >> RRType::CNAME) & 1);
    }
    vector<int> ends() const
    {
        vector<int> e;
        paths([&](const vector<int> &p) {
            for (int x : e)
                if (x == p.back()) return;
            e.push_back(p.back());
        });
        return e;
    }
};
static inline EC mkEC(const Labels &q, uint64_t types, bool below)
{
    EC e;
    e.name = toNL(q);
    e.rrTypes = std::bitset<RRType::N>(types);
    if (below) e.excluded = vector<NodeLabel>{};
    return e;
}
typedef interpretation::Graph IGraph;
static inline string show(const Labels &q, bool below) { return (below ? "~{ }." : "") + text(q); }
// the real graph's nodes in terms of the reference's
static inline vector<int> matchNodes(const World &w, const IGraph &g)
{
    sy_check(num_vertices(g) == w.g.size(), "the resolution visits a wrong number of server-query pairs");
    vector<int> m;
    for (size_t v = 0; v < num_vertices(g); v++) {
        int i = w.find(g[v].ns, fromNL(g[v].query.name), g[v].query.rrTypes.to_ulong(), bool(g[v].query.excluded));
        sy_check(i >= 0, "the resolution visits a server-query pair that no resolver would");
        for (int x : m) sy_check(x != i, "a server-query pair occurs twice");
        m.push_back(i);
    }
    return m;
}
static inline void compareGraphs(const World &w, const IGraph &g)
{
    vector<int> m = matchNodes(w, g);
    for (size_t v = 0; v < m.size(); v++) {
        const RefNode &r = w.g[m[v]];
        if (r.ns == "") sy_check(!g[v].answer, "a start has an answer");
        else compareAnswers(r.ans, g[v].answer);
        vector<std::pair<int, int>> want, got;
        for (auto &e : r.out) want.push_back({e.to, e.side});
        for (auto e : boost::make_iterator_range(out_edges(v, g)))
            got.push_back({m[e.m_target], g[e].intermediate_query ? m[g[e].intermediate_query.get()] : -1});
        for (auto &x : want) {
            bool f = false;
            for (auto &y : got) f |= x == y;
            sy_check(f, "a step of the resolution is missing");
        }
        for (auto &x : got) {
            bool f = false;
            for (auto &y : want) f |= x == y;
            sy_check(f, "the resolution takes a step no answer implies");
        }
    }
}
#endif
