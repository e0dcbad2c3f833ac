// A job makes exactly the checks it lists, with their parameters, on the classes and types it asks for.
#include "jobs.h"
static const char *kDomains[] = {"A.o.", "d.O.", "L.O.", "c.o.", "e.o."};
extern "C" void sy_harness()
{
    World w;
    busyWorld(w, false);
    const bool def = sy_bool("default");
    if (def) { // one server more than the default limit, and one less than it allows
        int zm = w.zone("m.o.", {"h", "c", "o"});
        w.add(zm, {{"q", "h", "c", "o"}, RRType::NS, 5, "v.o."});
        int zv = w.zone("v.o.", {"q", "h", "c", "o"});
        w.add(zv, {{"b", "q", "h", "c", "o"}, RRType::CNAME, 5, "c.o."});
    }
    DriverTest t;
    w.load(t);
    vector<Prop> props;
    string domain;
    bool sub = true;
    uint64_t types = 0;
    json list = json::array();
    bool structural = false;
    if (def) {
        // without a job file
        string all = sy_bool("root") ? "." : "D.o.";
        Prop p;
        for (int c : {15, 16, 17, 19, 21, 22}) {
            p.chk = c;
            p.k = Params();
            p.k.limit = c == 15 ? 2 : 1;
            if (c == 17) p.k.domains = {splitText(lower(all))};
            props.push_back(p);
        }
        domain = all;
        types = 1ull << RRType::NS;
        t.d.SetJob(all);
        sy_reach("default job");
    } else {
        domain = kDomains[sy_choice("domain", 5)];
        sub = domain != "A.o." || sy_bool("sub");
        if (sy_bool("unknown")) { // ignored, but it has no types
            list.push_back({{"PropertyName", "NoSuchProperty"}});
            types |= 1ull << RRType::NS;
        }
        int n = 1 + (int)sy_choice("more", QT(2, 3));
        int first = 15 + (int)sy_choice("property", 15);
        for (int i = 0; i < n; i++) {
            int c = i ? 15 + (int)sy_choice("second", 15) : first;
            Prop p = symProp("p", c);
            bool empty = (c == 17 || c == 18 || c == 20 || c == 26) && n == 1 && sy_bool("novalue");
            if (empty) { // nothing to check against
                p.domainText.clear();
                p.valueText.clear();
            } else if (c == 28)
                structural = true;
            else
                props.push_back(p);
            json j = p.j();
            if (c == 15 && sy_bool("hopstypes")) { // types may be given with any property
                j["Types"] = {"MX", "TXT"};
                types |= 1ull << RRType::MX | 1ull << RRType::TXT;
            } else
                types |= c >= 24 && c <= 27 ? p.k.types : 1ull << RRType::NS;
            list.push_back(j);
        }
        t.d.SetJob(jobJson(domain, sub, list));
        sy_reach("listed properties");
    }
    Labels dom = splitText(lower(domain));
    Ran r = runJob(t);
    sy_obs("classes", r.classes.size());
    sy_obs("reports", r.reports.size());
    bool self = false;
    Reports want[30];
    for (auto &c : r.classes) {
        sy_check(under(c.name, dom), "a class outside the job's domain");
        sy_check(c.types == (c.undefined ? kAllTypes : types), "the queries ask for other types than the job's properties");
        self |= c.name == dom && !c.below;
        w.explore(c.name, c.types, c.below);
        for (auto &p : props)
            if (p.chk != 24 || !c.undefined)
                for (auto &x : wantReports(w, p.k, p.chk)) put(want[p.chk], x);
    }
    sy_check(self || domain == ".", "the job's domain is not checked");
    sy_check(sub || r.classes.size() == 1, "names below the domain are checked without being asked for");
    sy_check(!sub || r.classes.size() > 1, "names below the domain are not checked");
    sy_check((r.structural > 0) == (structural && sub), "the structural check is made without request, or not made");
    size_t all = 0;
    for (int c = 15; c < 30; c++) {
        if (c == 28) continue;
        sameReports(want[c], gotReports(r.reports, c));
        all += want[c].size();
    }
    if (all) sy_reach("reports");
}
