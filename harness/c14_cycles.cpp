// Cyclic Zone Dependency: reported exactly when the resolution graph, address look-ups included, has a cycle.
#include "loops.h"
// is a cycle reachable from the start?
static bool cyclic(const World &w, int v, vector<int> &state)
{
    if (state[v] == 1) return true;
    if (state[v] == 2) return false;
    state[v] = 1;
    for (auto &e : w.g[v].out) {
        if (cyclic(w, e.to, state)) return true;
        if (e.side >= 0 && cyclic(w, e.side, state)) return true;
    }
    state[v] = 2;
    return false;
}
extern "C" void sy_harness()
{
    World w;
    DriverTest t;
    Context none;
    moodycamel::ConcurrentQueue<json> queue;
    bool hand = sy_bool("hand");
    if (hand) {
        // 0 the start, 1-3 servers, 4 the start of an address look-up
        for (int i = 0; i < 5; i++) w.g.push_back({i == 0 || i == 4 ? "" : string(1, (char)('r' + i)) + ".", {i == 4 ? "n" : "q"}, 1, false, {}, {}});
        auto edge = [&](int from, bool side) {
            int to = (int)sy_choice("to", 4);
            if (!to) return;
            int s = side ? (int)sy_choice("side", 3) : 0;
            w.g[from].out.push_back({to, s == 0 ? -1 : s == 1 ? 4 : 0});
        };
        w.g[0].out.push_back({1, -1});
        edge(4, false);
        edge(1, true);
        edge(1, THOROUGH);
        edge(2, true);
        edge(3, THOROUGH);
        IGraph *g = new IGraph(mkEC({"q"}, 1, false), none);
        for (int i = 1; i < 5; i++) add_vertex(*g);
        for (int i = 0; i < 5; i++) {
            (*g)[i].ns = w.g[i].ns;
            (*g)[i].query = mkEC(w.g[i].q, 1, false);
            if (w.g[i].ns != "")
                (*g)[i].answer = vector<zone::LookUpAnswer>{std::make_tuple(w.g[i].out.empty() ? ReturnTag::NX : ReturnTag::REF, std::bitset<RRType::N>(1), vector<ResourceRecord>{})};
        }
        for (int i = 0; i < 5; i++)
            for (auto &e : w.g[i].out) {
                auto [x, ok] = add_edge(i, e.to, *g);
                if (e.side >= 0) (*g)[x].intermediate_query = e.side;
            }
        g->CheckForLoops(queue);
    } else {
        bool chain = sy_bool("chain");
        if (chain) sy_reach("long chain");
        Labels q;
        if (chain) q = chainWorld(w);
        else {
            loopWorld(w, QT(2, 2), false);
            q = loopQuery(THOROUGH);
        }
        bool below = !chain && sy_bool("below");
        w.explore(q, 1, below);
        w.load(t);
        // the way the program checks a class: whatever else the job asks for
        ECTask task;
        task.ec_ = mkEC(q, 1, below);
        if (below ? q.size() > 2 : chain) // with other checks and without
            t.d.SetJob(json{{"Domain", "o."}, {"SubDomain", true}, {"Properties", {{{"PropertyName", "Hops"}, {"Value", 9}}, {{"PropertyName", "ZeroTTL"}, {"Types", {"A"}}}}}});
        vector<boost::any> args = {&t.job()};
        task.Process(t.ctx(), args);
    }
    vector<json> js;
    for (auto &j : drain(hand ? queue : t.job().json_queue))
        if (j.at("Property") != "Hops" && j.at("Property") != "Zero TTL") js.push_back(j);
    vector<int> state(w.g.size(), 0);
    bool loop = cyclic(w, 0, state);
    sy_obs("reports", js.size());
    sy_reach(loop ? "cycle" : "no cycle");
    if (loop) sy_check(js.size() >= 1, "a dependency loop is not reported");
    else sy_check(js.empty(), "a dependency loop is reported where none exists");
    for (auto &j : js) {
        sy_check(j.at("Property") == "Cyclic Zone Dependency", "wrong property name");
        // some reading of the reported steps (the same name may be asked with several type sets) is a cycle
        vector<vector<int>> c;
        for (auto &n : j.at("Loop")) {
            c.push_back({});
            string ns = n.at("NS").get<string>(), query = n.at("Query").get<string>();
            for (size_t i = 0; i < w.g.size(); i++)
                if (ns == w.g[i].ns && query == show(w.g[i].q, w.g[i].below)) c.back().push_back((int)i);
            sy_check(!c.back().empty(), "the reported loop has a step that was never taken");
        }
        sy_check(!c.empty(), "the reported loop is empty");
        bool found = false;
        for (int first : c[0]) {
            vector<int> at = {first};
            for (size_t i = 1; i <= c.size(); i++) {
                vector<int> next;
                for (int a : at)
                    for (int b : i == c.size() ? vector<int>{first} : c[i])
                        for (auto &e : w.g[a].out)
                            if (e.to == b || e.side == b) next.push_back(b);
                at = next;
            }
            found |= !at.empty();
        }
        sy_check(found, "the reported loop is not a cycle");
    }
}
