// Jobs run one after the other find what each of them finds alone.
#include "jobs.h"
struct Spec {
    bool def = false;
    string domain;
    json j;
};
static const char *kDomains[] = {"a.o.", "d.o.", "l.o.", "c.o.", "e.o.", "o."};
static Spec spec(const char *n, bool few)
{
    Spec s;
    s.def = sy_bool("default");
    s.domain = kDomains[s.def ? (few ? 1 : 3) : few ? sy_choice("domain", 2) * 2 : sy_choice("domain", QT(4, 6))];
    if (s.def) return s;
    json list = json::array();
    int c = few ? 15 + (int)sy_choice("property", 15) : 15 + (int)sy_choice("property", 15);
    list.push_back(symProp(n, c).j());
    bool sub = few || sy_bool("sub");
    s.j = jobJson(s.domain, sub, list);
    return s;
}
struct Outcome {
    std::set<json> violations;
    long classes;
    vector<int> vertices, edges;
};
static Outcome run(DriverTest &t, const Spec &s)
{
    if (s.def) {
        string d = s.domain;
        t.d.SetJob(d);
    } else
        t.d.SetJob(s.j);
    t.d.GenerateECsAndCheckProperties();
    return {t.violations(), t.d.GetECCountForCurrentJob(), t.job().stats.interpretation_vertices, t.job().stats.interpretation_edges};
}
static bool sameNumbers(vector<int> a, vector<int> b)
{
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    return a == b;
}
extern "C" void sy_harness()
{
    World w;
    busyWorld(w, false);
    vector<Spec> jobs;
    for (int i = 0; i < 2; i++) jobs.push_back(spec(i ? "p2" : "p1", i == 0));
    if (THOROUGH && sy_bool("again")) jobs.push_back(jobs[0]);
    DriverTest together;
    w.load(together);
    std::set<json> all;
    // alone in the opposite order, so that nothing kept in the process passes from one job to the next in the same way
    vector<Outcome> single(jobs.size());
    for (size_t i = jobs.size(); i-- > 0;) {
        DriverTest alone;
        w.load(alone);
        single[i] = run(alone, jobs[i]);
    }
    for (size_t i = 0; i < jobs.size(); i++) {
        Outcome &a = single[i], b = run(together, jobs[i]);
        for (auto &j : a.violations) {
            all.insert(j);
            sy_check(b.violations.count(j), "a violation the job finds alone is not found after other jobs");
        }
        for (auto &j : b.violations) sy_check(all.count(j), "after other jobs a violation is found that the job does not find alone");
        sy_check(b.violations.size() == all.size(), "a violation found by an earlier job is lost");
        sy_check(a.classes == b.classes, "the number of classes of a job depends on the jobs before it");
        sy_check(sameNumbers(a.vertices, b.vertices) && sameNumbers(a.edges, b.edges), "the statistics of a job depend on the jobs before it");
        sy_obs("violations", b.violations.size());
    }
    sy_reach(all.empty() ? "nothing" : "violations");
}
