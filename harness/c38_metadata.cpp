#include "zonefile.h"
#include "world.h"
// Metadata with something missing is refused; otherwise every listed zone is loaded under its own server.
static string server(const char *n) { return symLabel(n, "aAb", 1) + symLabel(n, "xX", 1) + "."; }
extern "C" void sy_harness()
{
    sy_scratch();
    static const string z1 = "o. 5 IN SOA s.\na 5 IN A 1\nb 6 IN A 2\n", z2 = "@ 5 IN SOA s.\na 5 IN A 3\n";
    sy_write_file("z1", z1.data(), z1.size());
    sy_write_file("z2", z2.data(), z2.size());
    json meta = json::object();
    bool good = true;
    vector<string> tops;
    struct L { string server; Labels origin; size_t records; };
    vector<L> listed;
    switch (sy_choice("tops", 5)) {
    case 0: good = false; break;
    case 1: meta["TopNameServers"] = json::array(); break;
    case 2: meta["TopNameServers"] = json(); break;
    case 3: case 4: {
        json l = json::array();
        for (int n = 1 + (int)sy_choice("two", 2); n > 0; n--) {
            string s = server("top");
            l.push_back(s);
            tops.push_back(lowerText(s));
        }
        meta["TopNameServers"] = l;
        break;
    }
    }
    if (sy_bool("zones")) {
        json l = json::array();
        for (int n = (int)sy_choice("number", QT(3, 4)); n > 0; n--) {
            json z = json::object();
            L x;
            x.server = server("server");
            int k = (int)sy_choice("part", 7);
            if (k != 0) z["NameServer"] = x.server;
            x.server = lowerText(x.server);
            if (k == 2) z["FileName"] = "z3";
            if (k == 3 || k == 5 || k == 6) z["FileName"] = "z1";
            x.origin = {"o"};
            x.records = 3;
            if (k == 4 || k == 0) {
                z["FileName"] = "z2";
                string o = symLabel("origin", "pP", 1);
                z["Origin"] = o + (sy_bool("dot") ? "." : "");
                x.origin = {lowerText(o)};
                x.records = 2;
            }
            if (k == 5) z["Comment"] = 1;
            if (k <= 2) good = false; // 1: no file name
            listed.push_back(x);
            l.push_back(z);
        }
        meta["ZoneFiles"] = l;
    } else
        good = false;
    bool served = false;
    for (auto &t : tops)
        for (auto &x : listed) served |= t == x.server;
    good = good && served;
    DriverTest t;
    if (!good) sy_exit_ok("refused");
    long n = 0;
    bool thrown = false;
    try {
        n = t.d.SetContext(meta, ".", false);
    } catch (std::exception &) {
        thrown = true;
    }
    if (!good) {
        sy_check(thrown, "metadata with something missing is accepted");
        sy_reach("refused");
        return;
    }
    sy_check(!thrown, "good metadata is refused");
    Context &c = t.ctx();
    sy_check(c.top_nameservers.size() == tops.size(), "a top server is lost or added");
    for (auto &s : tops) {
        bool f = false;
        for (auto &x : c.top_nameservers) f |= x == s;
        sy_check(f, "a top server is not recognised");
    }
    sy_check(c.zoneId_to_zone.size() == listed.size(), "a listed zone is not loaded");
    size_t sum = 0;
    vector<bool> used(listed.size(), false);
    for (auto &[id, z] : c.zoneId_to_zone) {
        auto it = c.zoneId_nameserver_map.find(id);
        sy_check(it != c.zoneId_nameserver_map.end(), "a zone is loaded under no server");
        string s = it->second.get();
        int m = -1;
        for (size_t i = 0; i < listed.size() && m < 0; i++)
            if (!used[i] && listed[i].server == s && listed[i].origin == fromNL(z.get_origin()) && listed[i].records == recordsOf(z).size()) m = (int)i;
        sy_check(m >= 0, "a zone is loaded under another server or with other records");
        used[m] = true;
        auto ids = c.nameserver_zoneIds_map.find(s);
        sy_check(ids != c.nameserver_zoneIds_map.end(), "a server does not know its zone");
        int k = 0;
        for (int x : ids->second) k += x == id;
        sy_check(k == 1, "a server does not know its zone");
        sum += recordsOf(z).size();
    }
    size_t all = 0;
    for (auto &[s, ids] : c.nameserver_zoneIds_map) all += ids.size();
    sy_check(all == listed.size(), "a zone belongs to several servers");
    sy_check((size_t)n == sum, "wrong number of records");
    sy_obs("records", sum);
    sy_reach(listed.size() > 1 ? "several zones" : "one zone");
}
