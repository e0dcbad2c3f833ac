// The output file is a JSON list with every violation found by any job exactly once, whatever the names contain.
#include "jobs.h"
#include <fstream>
static string slurp(const char *f)
{
    std::ifstream in(f, std::ios::binary);
    sy_check(in.is_open(), "no output file is written");
    return string(std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>());
}
static const char kBytes[] = {'b', '"', '\\', '\x01', '\x7f', '/', '\xc3', '\xa9', '\xff'};
// the text in the file: bytes that are not UTF-8 cannot appear in JSON
static bool plain(const string &s)
{
    for (char c : s)
        if ((uint8_t)c >= 0x80) return false;
    return true;
}
extern "C" void sy_harness()
{
    sy_scratch();
    World w;
    w.tops = {"t.o."};
    int zo = w.zone("t.o.", {"o"});
    string b;
    const int nb = QT(2, 3);
    for (int i = 0; i < nb; i++) b += (char)sy_among("byte", kBytes, sizeof kBytes);
    string n = "n" + b + "e";
    bool ascii = plain(b);
    w.add(zo, {{"a", "o"}, RRType::CNAME, 5, n + ".o."});
    w.add(zo, {{n, "o"}, sy_bool("chain") ? RRType::CNAME : RRType::TXT, 0, "x." + n + "."});
    w.add(zo, {{"c", "o"}, RRType::CNAME, 5, n + ".o."});
    w.add(zo, {{"d", "o"}, RRType::CNAME, 5, n + ".o."});
    int jobs = (int)sy_choice("jobs", QT(3, 4));
    std::set<json> want;
    DriverTest real, other;
    w.load(real);
    w.load(other);
    for (int i = 0; i < jobs; i++) {
        static const char *kDom[] = {"a.o.", "o.", "c.o."};
        string dom = kDom[sy_choice("domain", i ? 2 : 3)];
        json list = json::array();
        Prop p;
        static const int kChk[] = {15, 16, 20, 21, 26};
        int which = (int)sy_choice("property", 6);
        if (which < 5) {
            p.chk = kChk[which];
            p.k.limit = 0;
            if (p.chk == 20) p.domainText = {n + ".o.", "x." + n + "."};
            if (p.chk == 20) p.k.domains = {{n, "o"}, {"x", n}};
            if (p.chk == 26) {
                p.k.types = 1ull << RRType::TXT;
                p.valueText = {b};
                p.k.values = {lower(b)};
            }
            list.push_back(p.j());
        }
        json job = jobJson(dom, true, list);
        real.d.SetJob(job);
        real.d.GenerateECsAndCheckProperties();
        other.d.SetJob(job);
        std::map<string, std::set<string>> aliases;
        for (auto &r : runJob(other).reports) {
            if (r["Property"] == "All Aliases") aliases[r["Canonical Name"]].insert(string(r["Query"]));
            else want.insert(r);
        }
        if (aliases.size()) {
            json a, l = json::array();
            for (auto &[k, v] : aliases) l.push_back({{"Canonical Name", k}, {"Aliases", v}});
            std::set<json> names(l.begin(), l.end());
            l = json(std::vector<json>(names.begin(), names.end()));
            a["Property"] = "All Aliases";
            a["Canonical Name and their Aliases"] = l;
            want.insert(a);
        }
    }
    // a file of that name may exist already
    if (jobs < 2 && sy_bool("old")) {
        string old = "[\n" + string(5000, ' ') + "]\n";
        sy_write_file("out.json", old.data(), old.size());
    }
    real.d.WriteViolationsToFile("out.json");
    string text = slurp("out.json");
    json got = json::parse(text, nullptr, false);
    sy_check(!got.is_discarded(), "the output file is not valid JSON");
    sy_check(got.is_array(), "the output file is not a list");
    sy_check(got.size() == want.size(), "the output file has more or fewer entries than there are distinct violations");
    if (ascii) {
        for (auto &j : got) {
            // the canonical names may come in any order
            if (j["Property"] == "All Aliases") {
                std::set<json> names;
                for (auto &x : j["Canonical Name and their Aliases"]) names.insert(x);
                j["Canonical Name and their Aliases"] = json(std::vector<json>(names.begin(), names.end()));
            }
            sy_check(want.count(j), "an entry of the output file is no violation, or differs from it, or occurs twice");
            want.erase(j);
        }
    }
    sy_obs("entries", got.size());
    sy_reach(got.empty() ? "none" : got.size() == 1 ? "one" : "several");
    if (!ascii) sy_reach("not UTF-8");
}
