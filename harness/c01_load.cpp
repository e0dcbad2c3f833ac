#include "zonefile.h"
// Every record of a zone file is loaded as the master-file rules say.
static string digit(uint32_t &v)
{
    char a = (char)sy_among("digit", "0123456789", 10);
    v = v * 10 + (uint32_t)(a - '0');
    return string(1, a);
}
static const char *kOwn = "aBx*9-_"; // also names that read like a type
static string lab() { return string(1, (char)sy_among("l", kOwn, 7)); }
static void name(const ZoneText &z, int form, string &t, Labels &abs)
{
    switch (form) {
    case 0: { string l = lab(); t = l; abs = cat({l}, z.origin); break; }
    case 1: t = ""; abs = {}; break;
    case 2: t = "@"; abs = z.origin; break;
    case 3: { string l = lab(); t = l + ".P."; abs = {l, "P"}; break; }
    case 4: { string l = lab(); t = "ns." + l; abs = cat({"ns", l}, z.origin); break; }
    case 5: { // an escaped character ends the label, even a dot
        string l = lab() + "\\" + (char)sy_among("e", ".\\(;a", 5);
        t = l;
        abs = cat({l}, z.origin);
        break;
    }
    }
}
static void record(ZoneText &z, int own, int ttlForm, int kind, int layout)
{
    string t;
    Labels abs;
    name(z, own, t, abs);
    uint32_t v = 0;
    string dg = "7";
    if (ttlForm == 0 || ttlForm == 2) v = 0; else if (layout == 0) { dg = digit(v); dg += digit(v); if (ttlForm == 4) { dg = "21474836" + dg; v += 2147483600u; sy_assume(v < 2147483648u); } } else v = 7;
    string dl(1, (char)sy_among("d", "aZm0-", 5));
    string og = text(z.origin);
    string rel = dl + "." + (z.origin.empty() ? "" : og);
    switch (kind) {
    case 0: z.record(t, abs, ttlForm, dg, v, RRType::A, "A", {dl + ".1.1.1"}, {dl + ".1.1.1"}, layout); break;
    case 1: z.record(t, abs, ttlForm, dg, v, RRType::NS, "Ns", {dl}, {rel}, layout); break;
    case 2: z.record(t, abs, ttlForm, dg, v, RRType::MX, "MX", {"10", dl}, {"10", rel}, layout); break;
    case 3: z.record(t, abs, ttlForm, dg, v, RRType::CNAME, "cname", {"@"}, {og}, layout); break;
    case 4: z.record(t, abs, ttlForm, dg, v, RRType::DNAME, "DName", {dl + ".Q."}, {dl + ".Q."}, layout); break;
    case 5: z.record(t, abs, ttlForm, dg, v, RRType::TXT, "TXT", {"\"" + dl + " ;( b\"", "mx"}, {"\"" + dl + " ;( b\"", "mx"}, layout); break;
    case 6: z.record(t, abs, ttlForm, dg, v, RRType::SRV, "Srv", {"0", "1", "53", dl}, {"0", "1", "53", rel}, layout); break;
    case 7: z.record(t, abs, ttlForm, dg, v, RRType::AAAA, "AaAa", {"::" + dl}, {"::" + dl}, layout); break;
    case 8: z.record(t, abs, ttlForm, dg, v, RRType::PTR, "pTR", {dl}, {rel}, layout); break;
    case 9: z.record(t, abs, ttlForm, dg, v, RRType::MX, "Mx", {"10", "@"}, {"10", og}, layout); break;
    case 10: z.record(t, abs, ttlForm, dg, v, RRType::DS, "dS", {"1", dl}, {"1", dl}, layout); break;
    case 12: case 13: case 14: {
        // escaped characters are part of the word or quoted string they stand in
        string e = string("\\") + (char)sy_among("e", ";()\" \\@.0", 9);
        if (kind == 12) z.record(t, abs, ttlForm, dg, v, RRType::TXT, "TXT", {"\"" + e + dl + "\"", dl}, {"\"" + e + dl + "\"", dl}, layout);
        else if (kind == 13) z.record(t, abs, ttlForm, dg, v, RRType::TXT, "TXT", {dl + e, dl}, {dl + e, dl}, layout);
        else z.record(t, abs, ttlForm, dg, v, RRType::TXT, "TXT", {e, e + dl}, {e, e + dl}, layout);
        break;
    }
    case 15: z.record(t, abs, ttlForm, dg, v, RRType::RRSIG, "RrSig", {"A", "5", dl}, {"A", "5", dl}, layout); break;
    case 17:
        if (sy_bool("ends")) {
            // an escaped backslash, then the dot that ends the name
            z.record(t, abs, ttlForm, dg, v, RRType::NS, "NS", {dl + "\\\\."}, {dl + "\\\\."}, layout);
            break;
        }
        z.record(t, abs, ttlForm, dg, v, RRType::NS, "NS", {dl + "\\."}, {dl + "\\." + "." + (z.origin.empty() ? "" : og)}, layout); break;
    case 16: z.record(t, abs, ttlForm, dg, v, RRType::NSEC, "nsec", {dl + ".p.", "NS", "A"}, {dl + ".p.", "NS", "A"}, layout); break;
    case 11: z.record(t, abs, ttlForm, dg, v, RRType::SPF, "spF", {dl}, {dl}, layout); break;
    }
}
extern "C" void sy_harness()
{
    DriverTest dt;
    sy_scratch();
    ZoneText z;
    string metaOrigin;
    int head = (int)sy_choice("head", QT(4, 6));
    if (head == 1) { metaOrigin = "p."; z.origin = {"p"}; }
    if (head == 3) { metaOrigin = "p"; z.origin = {"p"}; }
    if (head == 2) z.ttlTo("40", 40);
    if (head == 4) z.originTo("P.", {"P"});
    if (head == 5) z.origin = {};
    Labels apex = head == 5 ? Labels{} : Labels{"p"};
    if (head == 3) z.owner = apex; // the origin is also the first owner
    if (head == 2) { z.raw("P. LOC x\n"); z.owner = apex; } // a record that is not handled names the owner
    if (head == 1 || head == 3 || head == 4) z.record(head == 3 ? "" : "@", apex, 3, "5", 5, RRType::SOA, "SOA", {"ns1.p.", "m.p.", "1", "2", "3", "4", "6"}, {"ns1.p.", "m.p.", "1", "2", "3", "4", "6"}, head == 1 ? 2 : 0);
    else z.record(head == 5 ? "." : head == 2 ? "" : "P.", apex, head == 2 ? 2 : 3, "5", 5, RRType::SOA, "soa", {"ns1.p.", "m.p.", "1"}, {"ns1.p.", "m.p.", "1"}, 0);
    if (z.origin.empty()) z.origin = apex; // without an origin, the zone's own
    if (sy_bool("one")) {
        // every form of one record
        int own = (int)sy_choice("owner", 6);
        switch (sy_choice("focus", 3)) {
        case 0: record(z, own, (int)sy_choice("ttlform", 5), 0, 0); break;
        case 1: record(z, own, 1, (int)sy_choice("kind", 18), 0); break;
        case 2: record(z, own, 3, sy_bool("fields") ? 2 : 0, 1 + (int)sy_choice("layout", 4)); break;
        }
        if (sy_bool("nonewline")) z.txt.pop_back();
    } else {
        // what one entry means for the next
        if (sy_bool("other")) {
            string l = lab();
            switch (sy_choice("line", 12)) {
            case 0: z.originTo(l + ".p.", {l, "p"}); break;
            case 1: z.originTo(l, cat({l}, z.origin)); break;
            case 2: { uint32_t v = 0; string d = digit(v); d += digit(v); z.ttlTo(d, v); break; }
            case 9: z.originTo(l, cat({l}, z.origin)); z.originTo("e", cat({"e"}, z.origin)); break;
            case 10: z.raw("$TTL\t60\t;7 \"(\n$ORIGIN  " + l + ".P.  ; (\n"); z.defTtl = 60; z.ttlDirective = true; z.origin = {lowerText(l), "p"}; break;
            case 11: { // a default of any value, zero included, is not changed by a record's own TTL
                uint32_t v = 0;
                string d = digit(v);
                z.ttlTo(d, v);
                z.record(l, cat({l}, z.origin), 3, "9", 9, RRType::TXT, "TXT", {"t"}, {"t"}, 0);
                break;
            }
            case 3: z.raw("\n \t\n;" + l + " A 1\n  ;\n"); break;
            case 4: z.raw(l + " LOC x 1\n"); z.owner = lowerLabels(cat({l}, z.origin)); break; // a type that is not handled
            case 5: z.raw(" CAA x\n"); break;
            // neither a TTL nor a class before the type
            case 6: z.raw(l + " zz A 1.1.1.1\n"); z.owner = lowerLabels(cat({l}, z.origin)); break;
            case 7: z.raw(" 7z IN NS x\n"); break;
            case 8: z.raw(l + " 1 IN 2 A 1.1.1.1\n"); z.owner = lowerLabels(cat({l}, z.origin)); break;
            }
        } else
            record(z, (int)sy_choice("owner", 5), (int)sy_choice("ttlform", 5), 0, 0);
        for (int i = 0; i < QT(1, 2); i++) record(z, (int)sy_choice("owner", 5), sy_bool("ttl") ? 3 : 0, (int)sy_choice("kind", QT(4, 9)), 0);
    }
    // invalid combinations of records belong to another property
    RefZone ref;
    ref.origin = apex;
    for (auto &r : z.recs) {
        sy_assume(under(r.owner, apex));
        sy_assume(refAdd(ref, r) == zone::RRAddCode::SUCCESS);
        ref.rrs.push_back(r);
    }
    sy_write_file("z.txt", z.txt.data(), z.txt.size());
    // nothing another file says, or leaves open, carries over
    string before = "$TTL 77\n$ORIGIN w.\n@ 66 SOA a b 1\nk A 1.1.1.1\n$ORIGIN v.w.\n  TXT \"x\"\nq 9 A ( 2.2.2.2";
    sy_write_file("before.txt", before.data(), before.size());
    dt.parse("before.txt", "ns1.p.", "", false);
    dt.parse("z.txt", "ns1.p.", metaOrigin, false);
    Context &c = dt.ctx();
    sy_check(c.zoneId_to_zone.size() == 2 && c.nameserver_zoneIds_map.at("ns1.p.").size() == 2, "the zone is not loaded");
    const zone::Graph &loaded = c.zoneId_to_zone.at(c.nameserver_zoneIds_map.at("ns1.p.")[1]);
    sy_obs("vertices", num_vertices(loaded));
    sy_check(fromNL(loaded.get_origin()) == apex, "wrong origin");
    sameRecords(loaded, z.recs);
    sy_reach("loaded");
}
