// Whole jobs on a small world in which every check has something to report.
#ifndef JOBS_H_
#define JOBS_H_
#include "checks.h"
#include "tree.h"
struct Prop {
    int chk;
    Params k;
    vector<string> domainText, valueText;
    json j() const { return propertyJson(k, chk, domainText, valueText); }
};
static const string kLong(60, 'k');
static void busyWorld(World &w, bool second)
{
    w.tops = {"t.o."};
    int zo = w.zone("t.o.", {"o"});
    w.add(zo, {{"c", "o"}, RRType::NS, 5, "m.o."});
    w.add(zo, {{"m", "o"}, RRType::A, sy_u32("glttl", 0, 1), "1"});
    w.add(zo, {{"a", "o"}, RRType::CNAME, 5, "x.c.o."});
    w.add(zo, {{"d", "o"}, RRType::DNAME, 5, "c.o."});
    w.add(zo, {{"l", "o"}, RRType::NS, 5, "m.o."});
    w.add(zo, {{"e", "o"}, RRType::DNAME, 5, kLong + ".e.o."});
    w.add(zo, {{"n", "o"}, RRType::A, 0, "2"});
    int zc = w.zone("m.o.", {"c", "o"});
    w.add(zc, {{"c", "o"}, RRType::NS, 5, "n.o."});
    w.add(zc, {{symLabel("x", "xy", 1), "c", "o"}, RRType::A, 0, "3"});
    if (second) {
        w.tops.push_back("u.o.");
        w.zone("u.o.", {"o"});
    }
}
static Prop symProp(const char *n, int chk)
{
    Prop p;
    p.chk = chk;
    if (chk == 15 || chk == 16) p.k.limit = (int)sy_u32("limit", 0, 2);
    if (chk == 17 || chk == 18 || chk == 20) {
        string s = chk == 18 ? symLabel("dom", "Mq", 1) + ".O." : chk == 17 ? symLabel("dom", "cO", 1) + "." : symLabel("dom", "Xy", 1) + ".c.o.";
        p.domainText.push_back(s);
        p.k.domains.push_back(splitText(lower(s)));
    }
    if (chk >= 24 && chk <= 27) {
        for (uint64_t t : {RRType::A, RRType::CNAME})
            if (sy_flag("types")) p.k.types |= 1ull << t;
        sy_assume(p.k.types != 0);
    }
    if (chk == 26) {
        string v = sy_bool("value") ? "3" : "X.c.o.";
        p.valueText.push_back(v);
        p.k.values.insert(lower(v));
    }
    return p;
}
// the classes the current job generates, and the reports its checks give for them
struct Ran {
    vector<Class> classes;
    vector<json> reports;
    size_t structural = 0;
};
static Ran runJob(DriverTest &t)
{
    Ran r;
    t.lg().GenerateECs(t.job(), t.ctx());
    std::unique_ptr<Task> task;
    while (t.job().ec_queue.try_dequeue(task)) {
        if (ECTask *e = dynamic_cast<ECTask *>(task.get())) {
            r.classes.push_back({fromNL(e->ec_.name), e->ec_.rrTypes.to_ulong(), bool(e->ec_.excluded), e->ec_.nonExistent});
            vector<boost::any> args = {&t.job()};
            task->Process(t.ctx(), args);
        } else
            r.structural++;
    }
    // loops are reported whatever is asked for (C14)
    for (auto &j : drain(t.job().json_queue))
        if (j.at("Property") != "Cyclic Zone Dependency") r.reports.push_back(j);
    return r;
}
static void sameReports(const Reports &want, const Reports &got)
{
    auto in = [](const Report &r, const Reports &v) {
        for (auto &x : v)
            if (x == r) return true;
        return false;
    };
    for (auto &r : want) sy_check(in(r, got), "a requested check is not made, or not with its parameters");
    for (auto &r : got) sy_check(in(r, want), "a report no requested check gives");
}
#endif
