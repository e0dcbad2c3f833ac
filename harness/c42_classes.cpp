// Every query below the job's domain is represented by one class, whose reports are those of the query itself.
#include "jobs.h"
extern "C" void sy_harness()
{
    World w;
    w.tops = {"t.o."};
    int zo = w.zone("t.o.", {"o"}), zc = -1;
    if (sy_bool("delegation")) {
        w.add(zo, {{"c", "o"}, RRType::NS, 5, "m.o."});
        w.add(zo, {{"m", "o"}, RRType::A, 5, "1"});
        zc = w.zone("m.o.", {"c", "o"});
    }
    for (int i = 0; i < QT(2, 3); i++) {
        RR r;
        int z = zc >= 0 && sy_bool("zone") ? zc : zo;
        r.owner = cat({symLabel("owner", "ab*", 1)}, w.zones[z].ref.origin);
        uint32_t k = sy_u32("type", 0, i ? 2 : 1);
        r.type = k == 0 ? RRType::DNAME : k == 1 ? RRType::CNAME : RRType::A;
        r.ttl = k == 2 ? 0 : 5;
        string l = symLabel("target", "abx", 1);
        int where = (int)sy_choice("where", zc >= 0 ? 3 : 2);
        r.rdata = where == 2 ? l + ".c.o." : where == 1 ? "c.o." : l + ".o.";
        // names that grow without end are C09's matter
        if (r.type == RRType::DNAME) sy_assume(!under(r.owner, splitText(r.rdata)));
        w.add(z, r);
    }
    static const int kChk[] = {16, 19, 24, 15, 17, 20, 25, 26, 27, 21, 18, 22};
    Prop p = symProp("p", kChk[sy_choice("check", QT(3, 12))]);
    DriverTest t;
    w.load(t);
    // a query
    Labels q = {symLabel("q", "abz", 1), "o"};
    int depth = (int)sy_choice("depth", QT(2, 3));
    for (int i = 0; i < depth; i++) {
        if (i == 0 && zc >= 0 && sy_bool("qchild")) q[0] = "c";
        q = cat({symLabel("q", "az", 1)}, q);
    }
    // the job is about the zone, or just about the query's name, which may not exist
    int dom = zc < 0 || THOROUGH ? (int)sy_choice("domain", 3) : 0;
    if (dom) sy_reach("its own job");
    t.d.SetJob(jobJson(dom ? text(q) : "o.", dom != 1, json::array({p.j()})));
    t.lg().GenerateECs(t.job(), t.ctx());
    Tree names;
    for (auto &z : w.zones)
        for (auto &r : z.ref.rrs) names.add(r);
    // the longest part of it the zones mention
    size_t matched = names.search(q).matched;
    Labels top(q.end() - matched, q.end()), prefix(q.begin(), q.end() - matched);
    bool exact = matched == q.size(), any = false;
    std::unique_ptr<Task> task;
    vector<boost::any> args = {&t.job()};
    while (t.job().ec_queue.try_dequeue(task)) {
        ECTask *e = dynamic_cast<ECTask *>(task.get());
        if (!e || bool(e->ec_.excluded) == exact || fromNL(e->ec_.name) != top) continue;
        uint64_t types = e->ec_.rrTypes.to_ulong();
        bool undefined = e->ec_.nonExistent;
        any = true;
        if (dom && !exact) sy_check(!undefined, "the name a job asks for is treated as one of no interest");
        task->Process(t.ctx(), args);
        Reports named;
        for (auto &r : gotReports(drain(t.job().json_queue), p.chk)) {
            Report x = r;
            for (auto &f : x)
                if (f.compare(0, 5, "~{ }.") == 0) f = text(prefix) + f.substr(5);
            put(named, x);
        }
        w.explore(q, types, false);
        Reports want;
        if (!undefined || p.chk != 24) want = wantReports(w, p.k, p.chk);
        compareReports(want, named);
        sy_reach(undefined ? "undefined" : exact ? "one name" : "any name below");
        sy_obs("reports", named.size());
    }
    sy_check(any, "a query belongs to no class");
}
