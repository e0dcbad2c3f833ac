// Which zone of which server answers: zones with symbolic origins on several servers, loaded in every order.
#include "world.h"
extern "C" void sy_harness()
{
    World w;
    static const char *server[] = {"s.", "t.", "u."};
    const int n = QT(3, 4);
    for (int i = 0; i < n; i++) {
        Labels origin;
        int depth = i == 0 ? 1 : (int)sy_choice("depth", QT(3, 4));
        for (int d = 0; d < depth; d++) origin = cat({symLabel("origin", d ? "ab" : "op", 1)}, origin);
        string s = server[i == 0 ? 0 : sy_choice("server", 3)];
        for (auto &z : w.zones) sy_assume(z.server != s || z.ref.origin != origin);
        int z = w.zone(s, origin);
        // every zone can be told apart by its answers
        w.zones[z].ref.rrs[0].rdata = "soa" + std::to_string(i);
        w.add(z, {cat({"*"}, origin), RRType::TXT, 5, "txt" + std::to_string(i)});
    }
    // the first zone delegates to two servers, one of which nobody knows
    int k = (int)sy_choice("tops", 4);
    bool known = THOROUGH ? sy_bool("toknown") : k < 2;
    Labels cut = {symLabel("cut", "ab", 1), w.zones[0].ref.origin[0]};
    w.add(0, {cut, RRType::NS, 5, known ? "u." : "v."});
    w.add(0, {cut, RRType::NS, 5, "t."});
    w.tops = k == 0 ? vector<string>{"s."} : k == 1 ? vector<string>{"s.", "t."} : k == 2 ? vector<string>{"t.", "s.", "x."} : vector<string>{"u.", "s."};
    Labels q;
    int depth = THOROUGH ? (int)sy_choice("qdepth", 4) : 2;
    for (int d = 0; d < depth; d++) q = cat({symLabel("q", d ? "ab" : "op", 1)}, q);
    bool below = THOROUGH && sy_bool("below");
    uint64_t types = (1ull << RRType::TXT) | (1ull << RRType::SOA);
    vector<int> order;
    bool reverse = sy_bool("backwards");
    for (int i = 0; i < n; i++) order.push_back(reverse ? n - 1 - i : i);
    DriverTest t;
    w.load(t, order);
    w.explore(q, types, below);
    IGraph g(mkEC(q, types, below), t.ctx());
    sy_obs("nodes", num_vertices(g));
    for (auto &x : w.g)
        if (!x.ans.empty()) sy_reach(x.ans[0].tag == ReturnTag::REFUSED ? "refused" : x.ans[0].tag == ReturnTag::NSNOTFOUND ? "unknown server" : x.ans[0].tag == ReturnTag::REF ? "referral" : "answer");
    compareGraphs(w, g);
}
