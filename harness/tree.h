// Reference name tree with DNAME edges, and the longest matches of a name in it.
#ifndef TREE_H_
#define TREE_H_
#include "world.h"
struct Tree {
    struct V { Labels name; vector<std::pair<string, int>> kids; vector<int> dname; };
    vector<V> v{V{}};
    int node(const Labels &n)
    {
        int x = 0;
        for (size_t i = n.size(); i-- > 0;) {
            int c = -1;
            for (auto &[l, k] : v[x].kids)
                if (l == n[i]) c = k;
            if (c < 0) {
                V y;
                y.name = Labels(n.begin() + i, n.end());
                c = (int)v.size();
                v.push_back(y);
                v[x].kids.push_back({n[i], c});
            }
            x = c;
        }
        return x;
    }

    void add(const RR &r)
    {
        int a = node(r.owner);
        if (r.type == RRType::DNAME) {
            int b = node(splitText(r.rdata)); // may move the nodes
            v[a].dname.push_back(b);
        }
    }
    struct Match {
        size_t matched = 0;
        std::set<int> nodes;
    };
    // reachability over (node, matched labels)
    Match search(const Labels &q) const
    {
        vector<vector<bool>> seen(v.size(), vector<bool>(q.size() + 1, false));
        vector<std::pair<int, size_t>> todo = {{0, 0}};
        seen[0][0] = true;
        Match m;
        while (!todo.empty()) {
            auto [x, k] = todo.back();
            todo.pop_back();
            if (k > m.matched) m.matched = k;
            if (k == q.size()) continue;
            auto go = [&](int y, size_t n) {
                if (!seen[y][n]) {
                    seen[y][n] = true;
                    todo.push_back({y, n});
                }
            };
            for (int y : v[x].dname) go(y, k);
            for (auto &[l, y] : v[x].kids)
                if (l == q[q.size() - 1 - k]) go(y, k + 1);
        }
        for (size_t x = 0; x < v.size(); x++)
            if (seen[x][m.matched]) m.nodes.insert((int)x);
        return m;
    }
};
// the real tree's names, by node
static inline vector<Labels> namesOf(const label::Graph &g)
{
    vector<Labels> name(num_vertices(g));
    vector<bool> known(num_vertices(g), false);
    known[0] = true;
    for (bool more = true; more;) {
        more = false;
        for (size_t x = 0; x < num_vertices(g); x++)
            if (known[x])
                for (auto e : boost::make_iterator_range(out_edges(x, g)))
                    if (g[e].type == label::normal && !known[e.m_target]) {
                        known[e.m_target] = more = true;
                        name[e.m_target] = cat({g[e.m_target].name.get()}, name[x]);
                    }
    }
    return name;
}
// the classes a job is given
struct Class {
    Labels name;
    uint64_t types;
    bool below, undefined;
};
static inline vector<Class> classes(Job &job)
{
    vector<Class> v;
    std::unique_ptr<Task> t;
    while (job.ec_queue.try_dequeue(t)) {
        ECTask *e = dynamic_cast<ECTask *>(t.get());
        if (!e) continue;
        v.push_back({fromNL(e->ec_.name), e->ec_.rrTypes.to_ulong(), bool(e->ec_.excluded), e->ec_.nonExistent});
    }
    return v;
}
#endif
