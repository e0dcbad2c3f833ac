// One check of a job (CHK) on a resolution graph: the reports against their reference definition.  The graph is either
// built by hand with symbolic servers, queries, outcomes and records, or the real resolution of a symbolic configuration.
#include "checks.h"
#include "loops.h"
#ifndef CHK
#define CHK 15
#endif
static const uint64_t kT[3] = {RRType::A, RRType::CNAME, CHK >= 25 ? RRType::NS : RRType::TXT};
static uint64_t typeSet(const char *n)
{
    uint64_t t = 0;
    for (uint64_t k : kT)
        if (sy_flag(n)) t |= 1ull << k;
    sy_assume(t != 0);
    return t;
}
static const bool kNodeCheck = CHK >= 24 && CHK <= 27;
static const bool kNsMatters = CHK == 15 || CHK == 18 || CHK == 21;
static Labels name(const char *n)
{
    // 1 to 3 labels; more variety where the check looks at names
    if (CHK == 29) {
        int k = (int)sy_choice(n, 3);
        Labels l = {symLabel(n, "ab", 1)};
        for (int i = 0; i < k; i++) l.push_back(i ? "d" : "c");
        return l;
    }
    if (CHK == 17 || CHK == 20 || CHK == 21 || CHK == 23 || CHK == 19) {
        Labels l = {symLabel(n, "ab", 1)};
        if (sy_bool(n)) l.push_back("c");
        return l;
    }
    return {symLabel(n, "a", 1), "c"};
}
static void handMade(World &w, bool nonExistent)
{
    const bool three = kNodeCheck && !THOROUGH && sy_bool("three"); // three plain ends
    const int n = three ? 3 : kNodeCheck ? QT(2, 3) : CHK == 29 ? QT(4, 4) : QT(3, 4);
    uint64_t types = three ? 1ull << RRType::A | 1ull << RRType::CNAME : kNodeCheck ? typeSet("qtypes") : (1ull << RRType::A) | (CHK == 15 || CHK == 16 || CHK == 17 ? (uint64_t)sy_flag("cname") << RRType::CNAME : 0);
    w.g.push_back({"", name("query"), types, CHK != 26 && CHK != 15 && CHK != 16 && sy_bool("below"), {}, {}});
    vector<int> parent = {-1};
    vector<bool> inner(n + 1, false);
    for (int i = 1; i <= n; i++) {
        int p = CHK == 29 ? i - 1 : three || (kNodeCheck && i == n) ? 0 : (int)sy_choice("parent", i);
        parent.push_back(p);
        inner[p] = true;
    }
    for (int i = 1; i <= n; i++) {
        RefNode &p = w.g[parent[i]];
        RefNode x;
        x.ns = kNsMatters ? symLabel("ns", "st", 1) + "." + symLabel("ns", "ux", 1) + "." : string(1, (char)('r' + i)) + ".x.";
        x.q = p.q;
        x.types = p.types;
        x.below = p.below;
        if (isRw(p)) {
            x.q = name("newquery");
            if (p.ans[0].rrs[0].type == RRType::CNAME) {
                x.below = false;
                x.types &= ~(1ull << RRType::CNAME);
            }
            if (kNodeCheck) sy_assume(x.types != 0);
        }
        RefAnswer a;
        a.types = x.types;
        if (inner[i]) {
            uint32_t k = CHK == 29 ? (sy_flag("rw") ? 1 + sy_u32("kind", 0, 1) : 0) : sy_u32("kind", 0, 2);
            if (k == 0) {
                a.tag = ReturnTag::REF;
                a.rrs.push_back({x.q, RRType::NS, 5, "n.x."});
            } else {
                a.tag = ReturnTag::REWRITE;
                Labels own = k == 1 ? x.q : Labels(x.q.begin() + 1, x.q.end());
                if (CHK == 29) own = {"c"};
                a.rrs.push_back({own, k == 1 ? (uint32_t)RRType::CNAME : (uint32_t)RRType::DNAME, kNodeCheck ? sy_u32("ttl", 0, 1) : 5,
                                 CHK == 29 || kNodeCheck ? symLabel("target", "yz", 1) + "." : "y."});
            }
        } else {
            uint32_t k = sy_u32("end", 0, 4);
            a.tag = k == 0 ? ReturnTag::ANS : k == 1 ? ReturnTag::NX : k == 2 ? ReturnTag::YX : k == 3 ? ReturnTag::REFUSED : ReturnTag::NSNOTFOUND;
            if (k == 0 && kNodeCheck) {
                // found records first, then the asked types that are missing
                uint64_t found = 0;
                int nr = (int)sy_choice("records", three || CHK == 26 && i > 1 && !THOROUGH ? 2 : 3);
                for (int r = 0; r < nr; r++) {
                    uint32_t t = sy_u32("rtype", 0, RRType::N - 1);
                    sy_assume((x.types >> t) & 1 || (CHK == 25 && t == RRType::AAAA));
                    if ((x.types >> t) & 1) found |= 1ull << t;
                    string data = symLabel("data", CHK == 27 ? "p" : "pq", 1);
                for (auto &y : a.rrs) sy_assume(y.type != t || y.rdata != data); // a set of records
                a.rrs.push_back({x.q, t, CHK == 27 || CHK == 25 ? (r && CHK != 27 && !THOROUGH ? 5 : sy_u32("ttl", 0, 1)) : 5, data});
                }
                sy_assume(nr == 0 || found);
                if (found) {
                    a.types = found;
                    x.ans.push_back(a);
                    a.rrs.clear();
                }
                if (found != x.types) {
                    a.types = x.types & ~found;
                    x.ans.push_back(a);
                }
            }
        }
        if (x.ans.empty()) x.ans.push_back(a);
        w.g[parent[i]].out.push_back({i, -1});
        w.g.push_back(x);
    }
    // a loop
    if (!kNodeCheck && CHK != 29) {
        int from = (int)sy_choice("loop", n + 1);
        if (from && inner[from]) w.g[from].out.push_back({1, -1});
        else sy_assume(!from);
    }
}
static void build(const World &w, IGraph &g, bool nonExistent)
{
    for (size_t i = 1; i < w.g.size(); i++) add_vertex(g);
    for (size_t i = 0; i < w.g.size(); i++) {
        const RefNode &n = w.g[i];
        g[i].ns = n.ns;
        g[i].query = mkEC(n.q, n.types, n.below);
        g[i].query.nonExistent = nonExistent;
        if (n.ns == "") continue;
        vector<zone::LookUpAnswer> v;
        for (auto &a : n.ans) {
            vector<ResourceRecord> rr;
            for (auto &r : a.rrs) rr.push_back(mkRR(r));
            v.push_back(std::make_tuple(a.tag, std::bitset<RRType::N>(a.types), rr));
        }
        g[i].answer = v;
    }
    for (size_t i = 0; i < w.g.size(); i++)
        for (auto &e : w.g[i].out) add_edge(i, e.to, g);
}
static Labels configuration(World &w)
{
    w.tops = {"t.o."};
    int zo = w.zone("t.o.", {"o"});
    w.add(zo, {{"c", "o"}, RRType::NS, 5, "m.o."});
    if (CHK != 21) w.add(zo, {{"m", "o"}, RRType::A, 5, "1.1.1.1"});
    int zc = -1;
    if (CHK != 21 || sy_bool("child"))
        zc = w.zone("m.o.", {"c", "o"});
    else
        w.zone("m.o.", {"x", "o"});
    // a child that lists its own servers
    bool listed = CHK >= 25 && CHK <= 27 && sy_bool("listed");
    if (listed) w.add(zc, {{"c", "o"}, RRType::NS, CHK == 27 ? sy_u32("nsttl", 0, 1) : 5, "a.c.o."});
    for (int i = 0; i < QT(CHK == 29 || CHK == 16 ? 2 : 1, 2); i++) {
        RR r;
        int z = zc >= 0 && sy_bool("zone") ? zc : zo;
        r.owner = cat({symLabel("l", "ab", 1)}, w.zones[z].ref.origin);
        r.type = sy_u32("type", 0, RRType::N - 1);
        r.ttl = CHK == 27 ? sy_u32("ttl", 0, 1) : 5;
        r.rdata = symLabel("h", "ab", 1) + (sy_bool("tochild") ? ".c.o." : CHK == 23 ? string(".") + symLabel("zone", "op", 1) + "." : ".o.");
        if (CHK == 23) r.rdata = string(60, 'k') + "." + string(60, 'k') + "." + string(60, 'k') + "." + string(QT(63, 63), 'k') + "." + r.rdata;
        w.add(z, r);
    }
    Labels q = {listed ? "c" : symLabel("q", "ab", 1), "o"};
    if (!listed && sy_bool("qchild")) q = {q[0], "c", "o"};
    if (CHK == 23 && sy_bool("longer")) q = cat({string(1 + sy_choice("more", 3), 'e')}, q);
    return q;
}
extern "C" void sy_harness()
{
    World w;
    DriverTest t;
    Params k;
    vector<string> domainText, valueText;
    if (CHK == 15 || CHK == 16) k.limit = (int)sy_u32("limit", 0, 3);
    if (CHK == 17 || CHK == 18 || CHK == 20) {
        int n = CHK == 20 ? 2 : QT(1, 2);
        for (int i = 0; i < n; i++) {
            string s;
            if (CHK == 18) s = symLabel("dom", "uXo", 1) + ".";
            else s = symLabel("dom", "aB", 1) + (sy_bool("long") ? ".C." : ".");
            if (CHK == 18 && sy_bool("long")) s = symLabel("dom", "sT", 1) + "." + s;
            if (CHK == 17 && sy_bool("short")) s = symLabel("dom", "Co", 1) + ".";
            domainText.push_back(s);
            k.domains.push_back(splitText(lower(s)));
        }
    }
    if (kNodeCheck) k.types = typeSet("ptypes");
    bool hand = sy_bool("hand"), nonExistent = false;
    if (CHK == 26) {
        int n = hand || THOROUGH ? 1 + (int)sy_choice("values", 2) : 1;
        for (int i = 0; i < n; i++) {
            string s = hand ? symLabel("value", "pQ", 1) : symLabel("value", "aB", 1) + ".o.";
            valueText.push_back(s);
            k.values.insert(lower(s));
        }
    }
    IGraph *g;
    Context none;
    if (hand) {
        nonExistent = CHK == 24 && sy_bool("undefined");
        handMade(w, nonExistent);
        g = new IGraph(mkEC({}, 1, false), none);
        build(w, *g, nonExistent);
    } else {
        bool chain = sy_bool("chain");
        Labels q = chain ? chainWorld(w, CHK == 27 ? 0 : 5) : configuration(w);
        if (chain) sy_reach("long chain");
        if (chain && (CHK == 15 || CHK == 16)) k.limit = (int)sy_u32("high", 3, 26);
        uint64_t types = kNodeCheck ? typeSet("qtypes") : (1ull << RRType::A) | (CHK == 22 ? 1u << RRType::NS : 0);
        bool below = sy_bool("below");
        w.explore(q, types, below);
        w.load(t);
        EC e = mkEC(q, types, below);
        if (CHK == 24 && below && sy_bool("undefined")) {
            // a name no zone defines: it can be rewritten by DNAMEs only
            for (auto &n : w.g) sy_assume(!isRw(n) || n.ans[0].rrs[0].type == RRType::DNAME);
            e.nonExistent = nonExistent = true;
        }
        g = new IGraph(e, t.ctx());
    }
    t.d.SetJob(jobJson("O.", true, json::array({propertyJson(k, CHK, domainText, valueText)})));
    g->CheckPropertiesOnEC(t.job().path_functions, t.job().node_functions, t.job().json_queue);
    vector<json> js = drain(t.job().json_queue);
    sy_obs("reports", js.size());
    sy_check(t.job().path_functions.size() + t.job().node_functions.size() == 1, "the job does not run exactly the requested check");
    Reports want;
    if (!nonExistent) want = wantReports(w, k, CHK);
    compareReports(want, gotReports(js, CHK));
}
