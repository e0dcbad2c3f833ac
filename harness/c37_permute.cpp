// The same zones listed in another order, and the same top servers listed in another order, give the same violations.
#include "jobs.h"
// arrays in a report are sets, and which of two equals comes first is arbitrary
static string canon(const json &j)
{
    if (j.is_array()) {
        vector<string> v;
        for (auto &x : j) v.push_back(canon(x));
        std::sort(v.begin(), v.end());
        string s = "[";
        for (auto &x : v) s += x + ",";
        return s + "]";
    }
    if (j.is_object()) {
        string side[2], rest;
        for (auto &[k, v] : j.items()) {
            size_t a = k.find("-a "), b = k.find("-b ");
            if (a != string::npos) side[0] += k.substr(0, a) + k.substr(a + 2) + ":" + canon(v) + ";";
            else if (b != string::npos) side[1] += k.substr(0, b) + k.substr(b + 2) + ":" + canon(v) + ";";
            else rest += k + ":" + canon(v) + ";";
        }
        std::sort(side, side + 2);
        return "{" + rest + "|" + side[0] + "|" + side[1] + "}";
    }
    return js(j);
}
static vector<string> run(const World &w, const vector<int> &order, const json &job)
{
    DriverTest t;
    w.load(t, order);
    t.d.SetJob(job);
    t.d.GenerateECsAndCheckProperties();
    vector<string> v;
    for (auto &j : t.violations()) {
        string s = canon(j);
        bool f = false;
        for (auto &x : v) f |= x == s;
        if (!f) v.push_back(s);
    }
    return v;
}
extern "C" void sy_harness()
{
    World w;
    w.tops = {"t.o.", "u.o."};
    int zo = w.zone("t.o.", {"o"});
    w.add(zo, {{"c", "o"}, RRType::NS, 5, "m.o."});
    w.add(zo, {{"m", "o"}, RRType::A, 5, "1"});
    w.add(zo, {{"a", "o"}, RRType::CNAME, 5, "x.c.o."});
    int zu = w.zone("u.o.", {"o"});
    int shape = (int)sy_choice("shape", QT(4, 6));
    w.add(zu, {{"c", "o"}, RRType::NS, 5, "m." + symLabel("server", "oc", 1) + (shape == 0 ? ".o." : ".")});
    bool extra = sy_bool("extra");
    if (extra) w.add(zu, {{"m", "o"}, RRType::A, 5, "2"});
    if (shape == 0) w.add(zu, {{"a", "o"}, RRType::CNAME, 5, symLabel("target", "xy", 1) + ".c.o."});
    if (shape == 1) w.add(zu, {{"d", "o"}, RRType::DNAME, 5, symLabel("target", "ce", 1) + ".o."});
    if (shape == 2) {
        w.add(zu, {{"d", "o"}, RRType::DNAME, 5, "e.d.o."});
        w.add(zo, {{"e", "d", "o"}, RRType::A, 0, "2"});
    }
    if (shape == 3) w.add(zu, {{"a", "o"}, symLabel("kind", "AT", 1) == "A" ? RRType::A : RRType::TXT, 0, "3"});
    if (shape == 4) { // DNAMEs in different zones that lead to each other
        w.add(zu, {{"d", "o"}, RRType::DNAME, 5, "c.o."});
        w.add(zo, {{"f", "o"}, RRType::DNAME, 5, symLabel("target", "cd", 1) + ".o."});
    }
    if (shape == 5) w.add(zo, {{"*", "o"}, RRType::A, 0, "5"});
    int zc = w.zone("m.o.", {"c", "o"});
    if (THOROUGH ? sy_bool("apexns") : !extra) w.add(zc, {{"c", "o"}, RRType::NS, 5, "m.o."});
    w.add(zc, {{symLabel("x", "xy", 1), "c", "o"}, RRType::A, 0, "3"});
    vector<int> order = {0, 1, 2}, base = order;
    if (sy_bool("fourth")) {
        int zt = w.zone(sy_bool("same") ? "t.o." : "m.o.", sy_bool("sub") ? Labels{"x", "c", "o"} : Labels{"o"});
        for (int i = 0; i < 3; i++) sy_assume(w.zones[i].server != w.zones[zt].server || w.zones[i].ref.origin != w.zones[zt].ref.origin);
        w.add(zt, {cat({"x", "c", "o"}, {}), RRType::TXT, 0, "4"});
        base.push_back(zt);
        order = base;
        if (!THOROUGH) switch (sy_choice("order", 3)) {
        case 0: order = {3, 2, 1, 0}; break;
        case 1: order = {3, 0, 1, 2}; break;
        case 2: break; // the top servers in another order
        }
    }
    if (THOROUGH || order.size() == 3)
        for (size_t i = 0; i + 1 < order.size(); i++) std::swap(order[i], order[i + sy_choice("pick", order.size() - i)]);
    static const int groups[4][5] = {{15, 16, 21, 22, 28}, {17, 18, 19, 20, 28}, {23, 29, 24, 27, 28}, {25, 26, 24, 16, 21}};
    json list = json::array();
    for (int c : groups[sy_choice("properties", 4)]) {
        Prop p;
        p.chk = c;
        if (c == 15) p.k.limit = 1;
        if (c == 17 || c == 18) p.domainText = {"m.o."};
        if (c == 20) p.domainText = {"x.c.o.", "y.c.o."};
        if (c == 26) p.valueText = {"3"};
        p.k.types = 1ull << RRType::A | 1ull << RRType::CNAME;
        list.push_back(p.j());
    }
    json job = jobJson("o.", true, list);
    vector<string> a = run(w, base, job);
    World w2 = w;
    if (THOROUGH ? sy_bool("tops") : order == base) w2.tops = {"u.o.", "t.o."};
    else sy_assume(order != base);
    vector<string> b = run(w2, order, job);
    auto in = [](const string &s, const vector<string> &v) {
        for (auto &x : v)
            if (x == s) return true;
        return false;
    };
    for (auto &x : a) sy_check(in(x, b), "a violation is lost when zone files or top servers are listed in another order");
    for (auto &x : b) sy_check(in(x, a), "a violation appears when zone files or top servers are listed in another order");
    sy_obs("violations", a.size());
    sy_reach(a.empty() ? "none" : "violations");
}
