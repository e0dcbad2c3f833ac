#include "zonefile.h"
#include "world.h"
#include <fstream>
// The lint report has one entry for each rejected record and for each in-zone name server without an address.
static string slurp(const char *f)
{
    std::ifstream in(f, std::ios::binary);
    return string(std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>());
}
struct Entry {
    string file;
    size_t line;
    string reason; // part of it
    string record;
    bool glue;
    string server, zone;
};
static string textOf(const RR &r) { return mkRR(r).toString(); }
static bool has(const json &j, const char *k) { return j.is_object() && j.count(k) == 1; }
// bytes that are not UTF-8 cannot appear in JSON
static bool plain(const string &s)
{
    for (char c : s)
        if ((uint8_t)c >= 0x80) return false;
    return true;
}
static bool matches(const Entry &e, const json &j)
{
    if (!has(j, "Violation") || !j["Violation"].is_string()) return false;
    string v = j["Violation"];
    if (v.find(e.reason) == string::npos) return false;
    if (e.glue)
        return has(j, "Server") && has(j, "Zone") && j["Server"] == e.server && j["Zone"] == e.zone && has(j, "Resource Record") && j["Resource Record"] == e.record;
    return has(j, "File Name") && has(j, "Line Number") && j["File Name"] == e.file && j["Line Number"] == e.line && has(j, "Current Record") && (j["Current Record"] == e.record || !plain(e.record));
}
extern "C" void sy_harness()
{
    sy_scratch();
    string files[2] = {"./z.txt", "./y.txt"};
    ZoneText zt[2];
    RefZone ref[2];
    vector<Entry> want;
    static const Labels origin[] = {{"p"}, {"q", "p"}};
    static const char *server[] = {"ns1.p.", "ns2.p."};
    int zones = sy_bool("two") ? 2 : 1;
    for (int f = 0; f < zones; f++) {
        ZoneText &z = zt[f];
        Labels o = origin[f];
        z.origin = ref[f].origin = o;
        if (f == 0 && sy_bool("lines")) z.raw("; x\n\n$TTL 5\nx LOC \"\n\"\n");
        z.record(text(o), o, 3, "5", 5, RRType::SOA, "SOA", {"s"}, {"s"}, f ? 2 : 0);
        ref[f].rrs.push_back(z.recs.back());
        const int n = zones == 2 ? 1 : QT(2, 3);
        for (int i = 0; i < n; i++) {
            Labels abs = o;
            string data, reason, dt(1, (char)sy_among("d", "mn", 2));
            static const uint32_t ty[] = {RRType::A, RRType::CNAME, RRType::DNAME, RRType::NS};
            static const char *tt[] = {"A", "CNAME", "DNAME", "NS"};
            int k = (int)sy_choice("type", 4);
            data = dt + ".p.";
            if (f && sy_bool("upper")) data = "p."; // above the zone
            switch (zones == 2 ? sy_choice("form", 4) : sy_choice("form", 8)) {
            case 0: abs = cat({"a"}, o); break;
            case 1: break;
            case 2: abs = cat({symLabel("l", "mn", 1)}, i ? cat({"a"}, o) : o); break; // also below a cut
            case 3: abs = {symLabel("byte", "b\\\xe9", 1) + "a", "r"}; reason = "ZONE"; break;
            case 4: abs = {string(64, 'x'), "p"}; reason = "63"; break;
            case 5: abs = {string(62, 'x'), string(62, 'x'), string(62, 'x'), string(62, symLabel("c", "xy", 1)[0]), "p"}; reason = legalName(abs) ? "" : "255"; break;
            case 6: data = string(64, 'y') + ".p."; reason = k ? "63" : ""; break;
            case 7: data = string(62, 'x') + "." + string(62, 'x') + "." + string(62, 'x') + "." + string(63, 'x') + ".p."; reason = k ? "255" : ""; break;
            }
            z.record(text(abs), abs, 1, "5", 5, ty[k], tt[k], {data}, {data}, (int)sy_choice("layout", i ? 2 : 1) * 2);
            const RR &r = z.recs.back();
            if (reason.empty()) {
                switch (refAdd(ref[f], r)) {
                case zone::RRAddCode::SUCCESS: ref[f].rrs.push_back(r); break;
                case zone::RRAddCode::DUPLICATE: reason = "uplicate"; break;
                case zone::RRAddCode::CNAME_MULTIPLE: reason = "MULTIPLE CNAME"; break;
                case zone::RRAddCode::DNAME_MULTIPLE: reason = "MULTIPLE DNAME"; break;
                case zone::RRAddCode::CNAME_OTHER: reason = "OTHER"; break;
                }
                if (i == 0 && !reason.empty()) sy_reach("conflict with the SOA record");
            }
            if (!reason.empty()) want.push_back({files[f], z.recLine.back(), reason, textOf(r), false, "", ""});
        }
        // the SOA comes first, so conflicts with it are found too
        for (auto &r : ref[f].rrs) {
            if (r.type != RRType::NS) continue;
            Labels t = splitText(r.rdata);
            bool addr = false;
            for (auto &x : ref[f].at(t)) addr |= x.type == RRType::A || x.type == RRType::AAAA;
            if (under(t, o) && !addr) want.push_back({"", 0, "Glue", textOf(r), true, server[f], text(o)});
        }
        sy_write_file(f ? "y.txt" : "z.txt", z.txt.data(), z.txt.size());
    }
    json meta;
    meta["TopNameServers"] = {"ns1.p."};
    meta["ZoneFiles"] = json::array();
    for (int f = 0; f < zones; f++) meta["ZoneFiles"].push_back({{"FileName", f ? "y.txt" : "z.txt"}, {"NameServer", server[f]}});
    { std::ofstream o("lint.json"); o << "[\n"; }
    DriverTest with, without;
    long a = with.d.SetContext(meta, ".", true), b = without.d.SetContext(meta, ".", false);
    { std::ofstream o("lint.json", std::ios::app); o << "\n]"; }
    sy_check(a == b, "linting changes the number of records");
    sy_check(with.ctx().zoneId_to_zone.size() == (size_t)zones && without.ctx().zoneId_to_zone.size() == (size_t)zones, "a zone is not loaded");
    for (auto &[id, z] : with.ctx().zoneId_to_zone) {
        auto x = recordsOf(z), y = recordsOf(without.ctx().zoneId_to_zone.at(id));
        sy_check(x.size() == y.size(), "linting changes what is loaded");
        for (size_t i = 0; i < x.size(); i++) sy_check(x[i] == y[i] && x[i].get_ttl() == y[i].get_ttl(), "linting changes what is loaded");
    }
    json got = json::parse(slurp("lint.json"), nullptr, false);
    sy_check(!got.is_discarded() && got.is_array(), "the lint report is not a valid JSON list");
    vector<bool> used(got.size(), false);
    for (auto &e : want) {
        bool f = false;
        for (size_t i = 0; i < got.size() && !f; i++)
            if (!used[i] && matches(e, got[i])) f = used[i] = true;
        sy_check(f, e.glue ? "a name server without an address is not reported" : "a rejected record is not reported with its file, line and reason");
    }
    sy_check(got.size() == want.size(), "the lint report has an entry for nothing that is wrong");
    sy_obs("entries", got.size());
    sy_reach(want.empty() ? "clean" : want.size() == 1 ? "one entry" : "several entries");
}
