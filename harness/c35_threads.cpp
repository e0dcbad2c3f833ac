// The worker threads of a run, under every schedule with a bounded number of preemptions: nothing is lost or invented.
#include "jobs.h"
struct Result {
    std::set<json> violations;
    size_t classes = 0, vertices = 0, edges = 0;
};
// the same job, one task after the other
static Result sequential(DriverTest &t, const json &job)
{
    Result r;
    t.d.SetJob(job);
    t.lg().GenerateECs(t.job(), t.ctx());
    std::unique_ptr<Task> task;
    vector<boost::any> ecArgs = {&t.job()}, structArgs = {&t.job(), &t.lg()};
    while (t.job().ec_queue.try_dequeue(task)) {
        bool ec = dynamic_cast<ECTask *>(task.get());
        task->Process(t.ctx(), ec ? ecArgs : structArgs);
        r.classes += ec;
    }
    std::map<string, std::set<string>> aliases;
    for (auto &j : drain(t.job().json_queue)) {
        if (j.at("Property") == "All Aliases") aliases[j.at("Canonical Name").get<string>()].insert(j.at("Query").get<string>());
        else r.violations.insert(j);
    }
    if (aliases.size()) {
        json a = {{"Property", "All Aliases"}};
        for (auto &[k, v] : aliases) a["Canonical Name and their Aliases"].push_back({{"Canonical Name", k}, {"Aliases", v}});
        r.violations.insert(a);
    }
    interpretation::Graph::Attributes x;
    while (t.job().attributes_queue.try_dequeue(x)) {
        r.vertices += (size_t)std::get<0>(x);
        r.edges += (size_t)std::get<1>(x);
    }
    return r;
}
static string classText(const Class &c) { return show(c.name, c.below) + "/" + num(c.types) + (c.undefined ? "/u" : ""); }
static std::multiset<string> classTexts(Job &j)
{
    std::multiset<string> s;
    for (auto &c : classes(j)) s.insert(classText(c));
    return s;
}
extern "C" void sy_harness()
{
    World w;
    w.tops = {"t.o."};
    int z = w.zone("t.o.", {"o"});
    DriverTest a, b;
    int part = (int)sy_choice("part", 3);
    if (part == 2) {
        // all the checks on a world in which each has something to report, the threads taking turns
        World v;
        busyWorld(v, false);
        json props = json::array();
        for (int c = 15; c < 30; c++) {
            Params k;
            k.limit = 0;
            k.types = 1ull << RRType::A | 1ull << RRType::CNAME;
            k.values = {"3"};
            if (c == 17) k.domains = {{"c"}};
            if (c == 18 || c == 20) k.domains = {{"x", "c", "o"}};
            vector<string> dom;
            for (auto &d : k.domains) dom.push_back(show(d, false));
            props.push_back(propertyJson(k, c, dom, {"3"}));
        }
        v.load(a);
        v.load(b);
        json job = jobJson("o.", true, props);
        Result want = sequential(a, job);
        b.d.SetJob(job);
        sy_rotate((int)sy_u32("turn", 1, QT(5, 12)));
        b.d.GenerateECsAndCheckProperties();
        sy_sched(-1);
        sy_obs("violations", b.violations().size());
        sy_check(b.violations() == want.violations, "the violations of a run with threads differ");
        sy_check((size_t)b.d.GetECCountForCurrentJob() == want.classes, "not every class is checked exactly once");
        sy_reach("all checks");
        return;
    }
    if (part == 0) {
        // several closest enclosers that share parts of the name tree through DNAMEs
        w.add(z, {{"b", "o"}, RRType::DNAME, 5, "c.o."});
        w.add(z, {{"x", "b", "o"}, RRType::A, 5, "1"});
        bool cycle = sy_bool("cycle");
        w.add(z, {{"k", "x", "b", "o"}, RRType::DNAME, 5, cycle ? "x.c.o." : "y.o."});
        w.add(z, {{"j", "x", "c", "o"}, RRType::DNAME, 5, cycle ? "x.b.o." : "y.o."});
        w.add(z, {{"m", "y", "o"}, RRType::A, 5, "1"});
        w.load(a);
        w.load(b);
        Params k;
        json job = jobJson("x.b.o.", true, json::array({propertyJson(k, 21, {}, {})}));
        a.d.SetJob(job);
        b.d.SetJob(job);
        a.lg().GenerateECs(a.job(), a.ctx());
        auto want = classTexts(a.job());
        sy_sched(QT(1, 3));
        b.lg().GenerateECs(b.job(), b.ctx());
        sy_sched(-1);
        auto got = classTexts(b.job());
        sy_obs("classes", got.size());
        sy_check(want == got, "the classes of a job depend on how its producer threads interleave");
        sy_reach("classes");
        return;
    }
    int size = (int)sy_choice("size", QT(2, 3));
    if (size != 1) w.add(z, {{"a", "o"}, RRType::CNAME, 5, "b.o."});
    if (size == 2) w.add(z, {{"b", "o"}, RRType::A, 5, "1"});
    w.load(a);
    w.load(b);
    Params k;
    k.types = 1u << RRType::A;
    json props = json::array({propertyJson(k, 15, {}, {}), propertyJson(k, 24, {}, {})});
    if (size != 1) props.push_back(propertyJson(k, 20, {"b.o."}, {}));
    if (size == 2) props.push_back(propertyJson(k, 28, {}, {}));
    json job = jobJson(size == 1 ? "n.o." : size == 0 ? "a.o." : "o.", true, props);
    Result want = sequential(a, job);
    sy_check(want.violations.size() > 0, "the scenario has violations");
    b.d.SetJob(job);
    sy_sched(QT(size == 1 ? 2 : 1, 2));
    b.d.GenerateECsAndCheckProperties();
    sy_sched(-1);
    auto &got = b.violations();
    sy_obs("violations", got.size());
    sy_check((size_t)b.d.GetECCountForCurrentJob() == want.classes, "not every class is checked exactly once");
    for (auto &j : want.violations) sy_check(got.count(j), "a violation is lost");
    sy_check(got.size() == want.violations.size(), "a violation is invented");
    size_t v = 0, e = 0;
    for (int x : b.job().stats.interpretation_vertices) v += (size_t)x;
    for (int x : b.job().stats.interpretation_edges) e += (size_t)x;
    sy_check(b.job().stats.interpretation_vertices.size() == want.classes && v == want.vertices && e == want.edges, "statistics are lost or invented");
    sy_check(b.job().ec_queue.size_approx() == 0 && b.job().json_queue.size_approx() == 0 && b.job().attributes_queue.size_approx() == 0, "something is left in a queue");
    sy_reach("run");
}
