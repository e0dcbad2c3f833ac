#include "tree.h"
#include "zonefile.h"
// Invalid records are left out one by one; the others, and the name tree, are what they are without them.
extern "C" void sy_harness()
{
    DriverTest dt;
    sy_scratch();
    ZoneText z;
    const Labels O = {"p", "z"};
    z.origin = O;
    z.record("p.z.", O, 3, "5", 5, RRType::SOA, "SOA", {"s"}, {"s"}, 0);
    const int n = QT(3, 4);
    int special = (int)sy_choice("special", n + 1); // the entry with an unusual owner or target, if any
    vector<bool> bad{false};
    for (int i = 0; i < n; i++) {
        Labels abs;
        string t;
        string d(1, (char)sy_among("d", i ? "mn" : "m", i ? 2 : 1));
        bool ok = true;
        static const uint32_t ty[] = {RRType::A, RRType::CNAME, RRType::DNAME, RRType::NS, RRType::TXT};
        static const char *tt[] = {"A", "CNAME", "DNAME", "NS", "TXT"};
        int k;
        string data = d + ".p.z.";
        if (i == special) {
            k = 0;
            switch (sy_choice("kind", 6)) {
            case 0: {
                // elsewhere, but under the same top-level name, or above the origin
                int o = (int)sy_choice("where", 3);
                abs = o == 0 ? Labels{"a", "q", "z"} : o == 1 ? Labels{"a", "b", "q", "z"} : Labels{"z"};
                ok = false;
                break;
            }
            case 1: abs = {"ap", "z"}; ok = false; break; // ends like the origin, but is another name
            case 2: abs = {string(63, 'x') + string(sy_choice("more", 2), 'x'), "p", "z"}; break;
            case 3: {
                // three labels of 62 octets, so that the name has 255 octets for a last label of 60
                size_t len = 58 + sy_choice("len", 4);
                abs = {string(len, (char)sy_among("c", "ab", 2)), string(62, 'x'), string(62, 'x'), string(62, 'x'), "p", "z"};
                break;
            }
            case 4: { // a long label in the target
                k = 1 + (int)sy_choice("ttype", 3);
                data = string(63, 'y') + string(sy_choice("more", 2), 'y') + ".p.z.";
                abs = {"a", "p", "z"};
                break;
            }
            case 5: {
                k = 1 + (int)sy_choice("ttype", 3);
                size_t len = 59 + sy_choice("len", 3);
                data = string(len, 'y') + "." + string(62, 'x') + "." + string(62, 'x') + "." + string(62, 'x') + ".p.z.";
                abs = {string(1, (char)sy_among("l", "ab", 2)), "p", "z"};
                break;
            }
            }
            ok = ok && legalName(abs) && (k == 0 || legalName(splitText(data)));
            t = text(abs);
        } else {
            k = (int)sy_choice("type", i == 2 ? 5 : 4);
            if (i > 0 && sy_bool("blank")) {
                t = ""; // the owner of the record before, kept or not
                abs = z.owner;
                ok = under(abs, O) && legalName(abs);
            } else {
                if (sy_bool("below")) abs = {string(1, (char)sy_among("l", "ab", 2)), "p", "z"};
                else abs = O;
                t = text(abs);
            }
        }
        string ttl(1, (char)sy_among("ttl", "56", i == 0 ? 1 : 2));
        z.record(t, abs, 1, ttl, (uint32_t)(ttl[0] - '0'), ty[k], tt[k], {data}, {data}, 0);
        bad.push_back(!ok);
    }
    RefZone ref;
    ref.origin = O;
    vector<RR> want;
    bool conflict = false, duplicate = false;
    for (size_t i = 0; i < z.recs.size(); i++) {
        if (bad[i]) { sy_reach("unacceptable name"); continue; }
        auto c = refAdd(ref, z.recs[i]);
        conflict |= c != zone::RRAddCode::SUCCESS && c != zone::RRAddCode::DUPLICATE;
        duplicate |= c == zone::RRAddCode::DUPLICATE;
        if (c != zone::RRAddCode::SUCCESS) continue;
        ref.rrs.push_back(z.recs[i]);
        want.push_back(z.recs[i]);
    }
    if (conflict) sy_reach("conflict");
    if (duplicate) sy_reach("duplicate");
    sy_write_file("z.txt", z.txt.data(), z.txt.size());
    dt.parse("z.txt", "ns1.p.z.", "", false);
    Context &c = dt.ctx();
    sy_check(c.zoneId_to_zone.size() == 1, "the zone is not loaded");
    const zone::Graph &zg = c.zoneId_to_zone.at(1);
    sy_check(fromNL(zg.get_origin()) == O, "wrong origin");
    sameRecords(zg, want);
    // the name tree knows the names of the accepted records, and no others
    Tree tree;
    size_t dnames = 0;
    for (auto &r : want) { tree.add(r); dnames += r.type == RRType::DNAME; }
    vector<Labels> got = namesOf(dt.lg());
    sy_obs("names", got.size());
    sy_check(got.size() == tree.v.size(), "the name tree holds more or fewer names than the accepted records have");
    for (auto &v : tree.v) {
        bool f = false;
        for (auto &g : got) f |= g == v.name;
        sy_check(f, "a name of an accepted record is missing from the name tree");
    }
    size_t de = 0;
    for (auto e : boost::make_iterator_range(edges(dt.lg()))) de += dt.lg()[e].type == label::dname;
    sy_check(de == dnames, "the name tree has more or fewer DNAME edges than accepted DNAME records");
}
