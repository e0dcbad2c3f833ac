// Structural Delegation Consistency: all parents and children of a cut are compared, reachable or not.
#include "checks.h"
static string cutText = ".c.o.";
static bool self = false; // the servers inside the delegated name are that name itself
static string host(const char *n)
{
    if (sy_bool(n)) return self ? cutText.substr(1) : symLabel(n, "mn", 1) + cutText;
    return symLabel(n, "mn", 1) + ".o.";
}
static Labels inside(const char *n, const Labels &cut) { return self ? cut : cat({symLabel(n, "mn", 1)}, cut); }
static vector<RR> glueOf(const RefZone &z, const vector<RR> &ns)
{
    vector<RR> o;
    for (auto &r : ns)
        for (auto &g : z.at(splitText(r.rdata)))
            if (g.type == RRType::A || g.type == RRType::AAAA) o.push_back(g);
    return o;
}
struct Version {
    string server;
    vector<RR> ns, glue;
    bool glued; // compared with its glue
};
static vector<string> without(const vector<RR> &a, const vector<RR> &b)
{
    vector<string> o;
    for (auto &x : a) {
        bool f = false;
        for (auto &y : b) f |= sameData(x, y);
        string s = mkRR(x).toString();
        for (auto &y : o) f |= y == s;
        if (!f) o.push_back(s);
    }
    return o;
}
static vector<string> both(const vector<RR> &a, const vector<RR> &b)
{
    vector<string> o;
    for (auto &x : a)
        for (auto &y : b)
            if (sameData(x, y)) {
                string s = mkRR(x).toString();
                bool f = false;
                for (auto &k : o) f |= k == s;
                if (!f) o.push_back(s);
            }
    return o;
}
static bool sameTexts(const vector<string> &a, const json &pair, const string &key)
{
    vector<string> b;
    if (pair.find(key) != pair.end())
        for (auto &x : pair.at(key)) b.push_back(x.get<string>());
    if (a.size() != b.size()) return false;
    for (auto &x : a) {
        bool f = false;
        for (auto &y : b) f |= x == y;
        if (!f) return false;
    }
    return true;
}
extern "C" void sy_harness()
{
    World w;
    Labels cut = {"c", "o"};
    w.tops = {"t.o."};
    // how many versions of which zones
    int shape = (int)sy_choice("shape", 7);
    int parents = shape == 0 || shape == 3 ? 1 : shape == 1 || shape == 4 ? 2 : shape == 2 ? 0 : shape == 6 ? 3 : 1;
    int children = shape == 0 || shape == 4 ? 1 : shape == 1 || shape == 6 ? 0 : shape == 2 ? 2 : shape == 3 ? 2 : 1;
    bool root = shape == 5, detail = shape < 3;
    self = detail && sy_bool("self");
    if (self) sy_reach("its own server");
    // a zone above the parent knows addresses at the name, or delegates it as well
    int zr = -1;
    bool rootLast = root && sy_bool("rootlast");
    auto addRoot = [&]() {
        zr = w.zone("r.", sy_bool("origin") ? Labels{} : Labels{"o"});
        uint32_t k = sy_u32("rootkind", 0, 2);
        w.add(zr, {cut, k == 0 ? (uint32_t)RRType::A : k == 1 ? (uint32_t)RRType::NS : (uint32_t)RRType::TXT, 5, host("rootdata")});
    };
    Labels pOrigin = {"o"}, name = cut;
    if (root) {
        // the parent proper is a zone below it
        pOrigin = {"c", "o"};
        name = {"e", "c", "o"};
        cut = name;
        cutText = ".e.c.o.";
        if (!rootLast) addRoot();
    }
    vector<int> ps, cs;
    for (int i = 0; i < parents; i++) {
        int z = w.zone(i > 1 ? "t.z." : i ? "t.x." : "t.o.", pOrigin);
        ps.push_back(z);
        // the zone may hold other records at the name instead of delegating it
        if (root && sy_bool("undelegated")) {
            w.add(z, {cut, sy_flag("other") ? (uint32_t)RRType::A : (uint32_t)RRType::TXT, 5, "1"});
            sy_reach("not a delegation");
        } else
            w.add(z, {cut, RRType::NS, 5, host("pns")});
        if (detail && sy_bool("twice")) w.add(z, {cut, RRType::NS, 5, host("pns")});
        if (detail || i == 0) {
            RR r = {sy_bool("pa") ? inside("pa", cut) : Labels{symLabel("pa", "mn", 1), "o"}, sy_flag("pa6") ? (uint32_t)RRType::AAAA : (uint32_t)RRType::A, 5, symLabel("pd", "12", 1)};
            if (under(r.owner, pOrigin)) w.add(z, r);
            else sy_assume(root);
        }
    }
    for (int i = 0; i < children; i++) {
        int z = w.zone(i ? "s.x." : self && shape == 0 ? "t.o." : "s.y.", cut);
        cs.push_back(z);
        if (!(detail && sy_bool("none"))) w.add(z, {cut, RRType::NS, sy_u32("ttl", 5, 6), host("cns")});
        if (detail && shape == 0 && sy_bool("twice")) w.add(z, {cut, RRType::NS, 5, host("cns")});
        if (detail || i == 0) {
            RR r = {inside("ca", cut), sy_flag("ca6") ? (uint32_t)RRType::AAAA : (uint32_t)RRType::A, 5, symLabel("cd", "12", 1)};
            w.add(z, r);
        }
    }
    if (rootLast) addRoot();
    // names that are only rewritten to the delegated one are not delegated
    bool dname = (THOROUGH ? parents > 0 : shape == 3) && !root && sy_bool("dname");
    if (dname) w.add(ps[0], {{"x", "o"}, RRType::DNAME, 5, "o."});
    // the records of a set differ in their data
    for (auto &z : w.zones)
        for (size_t i = 0; i < z.ref.rrs.size(); i++)
            for (size_t j = 0; j < i; j++) sy_assume(!sameData(z.ref.rrs[i], z.ref.rrs[j]));
    // reference
    vector<Version> pv, cv;
    size_t longest = 0;
    bool any = false;
    for (auto &z : w.zones)
        if (z.ref.origin != cut && RefZone::has(z.ref.at(cut), RRType::NS)) {
            any = true;
            if (z.ref.origin.size() > longest) longest = z.ref.origin.size();
        }
    for (auto &z : w.zones) {
        vector<RR> ns = RefZone::only(z.ref.at(cut), RRType::NS), g = glueOf(z.ref, ns);
        if (z.ref.origin == cut) {
            bool in = false;
            for (auto &r : ns) in |= under(splitText(r.rdata), cut);
            cv.push_back({z.server, ns, in ? g : vector<RR>{}, in});
        } else if (any && z.ref.origin.size() == longest && !ns.empty()) {
            if (children) {
                vector<RR> k;
                for (auto &r : g)
                    if (under(r.owner, cut)) k.push_back(r);
                g = k;
            }
            pv.push_back({z.server, ns, g, true});
        }
    }
    struct Want {
        string a, b, na, nb;
        vector<string> nsA, nsB, glA, glB, ns, gl;
    };
    vector<Want> want;
    auto compare = [&](const Version &a, const Version &b, const string &na, const string &nb, bool glue) {
        Want x = {a.server, b.server, na, nb, without(a.ns, b.ns), without(b.ns, a.ns), {}, {}, both(a.ns, b.ns), {}};
        if (glue) {
            x.glA = without(a.glue, b.glue);
            x.glB = without(b.glue, a.glue);
            x.gl = both(a.glue, b.glue);
        }
        if (x.nsA.size() + x.nsB.size() + x.glA.size() + x.glB.size()) want.push_back(x);
    };
    for (auto &p : pv)
        for (auto &c : cv) compare(p, c, "parent", "child", c.glued);
    for (size_t i = 0; i < pv.size(); i++)
        for (size_t j = i + 1; j < pv.size(); j++) compare(pv[i], pv[j], "parent-a", "parent-b", true);
    for (size_t i = 0; i < cv.size(); i++)
        for (size_t j = i + 1; j < cv.size(); j++) compare(cv[i], cv[j], "child-a", "child-b", true);
    // the real check, as a job runs it
    DriverTest t;
    w.load(t);
    Params k;
    bool sub = true;
    string domain = ".";
    int d = (int)sy_choice("domain", QT(dname ? 3 : 2, 4));
    if (d == 1) domain = "C.o.";
    if (d == 2) domain = dname ? "C.x.o." : "z.o.";
    if (d == 3) sub = false;
    t.d.SetJob(jobJson(domain, sub, json::array({propertyJson(k, 28, {}, {})})));
    t.lg().GenerateECs(t.job(), t.ctx());
    std::unique_ptr<Task> task;
    vector<boost::any> args = {&t.job(), &t.lg()};
    while (t.job().ec_queue.try_dequeue(task))
        if (dynamic_cast<StructuralTask *>(task.get())) task->Process(t.ctx(), args);
    vector<json> js = drain(t.job().json_queue);
    sy_obs("reports", js.size());
    if (d >= 2 && domain != "z.o.") want.clear(); // without sub-domains no delegation is looked at
    if (domain == "z.o." || domain == "C.x.o.") want.clear();
    if (want.empty()) {
        sy_check(js.empty(), "a violation is reported though all versions agree");
        sy_reach("nothing to report");
        return;
    }
    sy_reach("one report");
    sy_check(js.size() == 1, js.empty() ? "a violation is not reported" : "more than one report for one delegated name");
    sy_check(js[0].at("Property").get<string>() == "Structural Delegation Consistency" && js[0].at("Domain Name").get<string>() == text(cut), "the report names another delegation");
    auto &pairs = js[0].at("Inconsistent Pairs");
    sy_check(pairs.size() == want.size(), "a wrong number of inconsistent pairs");
    for (auto &x : want) {
        bool f = false;
        for (auto &p : pairs) {
            for (bool swap : {false, true}) {
                if (x.na == "parent" && swap) continue;
                auto &A = swap ? x.nb : x.na, &B = swap ? x.na : x.nb;
                if (p.find(A + " NS") == p.end() || p.find(B + " NS") == p.end()) continue;
                if (p.at(A + " NS").get<string>() != x.a || p.at(B + " NS").get<string>() != x.b) continue;
                f |= sameTexts(x.nsA, p, "Exclusive " + A + " NS Records") && sameTexts(x.nsB, p, "Exclusive " + B + " NS Records") &&
                     sameTexts(x.ns, p, "Common NS Records") && sameTexts(x.gl, p, "Common Glue Records") &&
                     sameTexts(x.glA, p, "Exclusive " + A + " Glue Records") && sameTexts(x.glB, p, "Exclusive " + B + " Glue Records");
            }
        }
        sy_check(f, "an inconsistent pair is missing, or its servers or records are wrong");
    }
}
