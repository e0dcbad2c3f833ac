// Class generation ends on every DNAME graph, keeps to the length limit, and gives the same classes again.
#include "tree.h"
extern "C" void sy_harness()
{
    DriverTest t;
    // long labels keep names that grow through a cycle few; one cycle with short labels grows to the limit
    bool shortLabels = sy_bool("short");
    string pad = shortLabels ? "" : string(QT(48, 30), 'x');
    const int n = shortLabels ? 1 : QT(2, 3);
    auto nm = [&](const char *s, int lo, int hi) {
        Labels l;
        int depth = lo + (int)sy_choice(s, hi - lo + 1);
        for (int d = 0; d < depth; d++) l = cat({symLabel(s, "ab", 1) + pad}, l);
        return l;
    };
    bool grows = false, cycle = false;
    for (int i = 0; i < n; i++) {
        RR r = {nm("owner", 1, 2), RRType::DNAME, 5, ""};
        Labels target = nm("target", shortLabels || THOROUGH ? 0 : 1, 2);
        r.rdata = text(target);
        grows |= under(r.owner, target) && r.owner != target;
        cycle |= r.owner == target;
        t.lg().AddResourceRecord(mkRR(r), 1, 0);
    }
    if (!shortLabels) t.lg().AddResourceRecord(mkRR({nm("host", 2, 2), RRType::A, 5, "1"}), 1, 0);
    Labels domain = nm("domain", 0, QT(1, 3));
    json job = {{"Domain", text(domain)}, {"SubDomain", true}, {"Properties", {{{"PropertyName", "ResponseReturned"}, {"Types", {"A"}}}}}};
    auto run = [&]() {
        t.d.SetJob(job);
        t.lg().GenerateECs(t.job(), t.ctx());
        return classes(t.job());
    };
    vector<Class> a = run(), b = run();
    sy_obs("classes", a.size());
    for (auto &c : a) sy_check(legalName(c.name), "a generated name is longer than a domain name can be");
    sy_check(a.size() == b.size(), "the same job gives a different number of classes the second time");
    auto count = [](const Class &c, const vector<Class> &v) {
        int k = 0;
        for (auto &x : v) k += x.below == c.below && x.types == c.types && x.undefined == c.undefined && x.name == c.name;
        return k;
    };
    if (a.size() < 40)
        for (auto &c : a) sy_check(count(c, a) == count(c, b), "the same job gives different classes the second time");
    sy_reach(grows ? "growing cycle" : cycle ? "DNAME onto itself" : "other");
}
