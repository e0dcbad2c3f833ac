// The classes generated for a job cover every query name of its domain, and only those.
#include "tree.h"
extern "C" void sy_harness()
{
    Tree ref;
    DriverTest t;
    vector<RR> rrs;
    Labels domain, q;
    bool sub = true;
    if (sy_bool("long")) {
        // a name of just about the greatest length, directly or below a DNAME
        int last = 56 + (int)sy_choice("length", 8);
        string first(63, 'k');
        if (sy_bool("escaped")) { // an escape sequence is one octet
            first = "";
            for (int i = 0; i < 63; i++) first += "\\k";
        }
        Labels base = {first, string(63, 'l'), string(63, 'm'), "o"};
        rrs.push_back({cat({symLabel("a", "ab", 1), string(last - 4, 'x')}, base), RRType::A, 5, "1"});
        if (sy_bool("through")) {
            rrs[0].owner = {symLabel("a", "ab", 1), "p"};
            rrs.push_back({cat({string(last - 4, 'x')}, base), RRType::DNAME, 5, "p."});
        }
        domain = {"o"};
        q = cat({symLabel("q", "ab", 1), string(last - 4, 'x')}, base);
        if (!legalName(q)) {
            // reached through the DNAME only: such a name cannot be asked for
            sy_assume(rrs.size() == 2);
            q.erase(q.begin());
            sy_reach("too long");
        }
        sy_reach("long name");
    } else if (sy_bool("many")) {
        // so many siblings that the index is used, before or after the records whose names matter
        int place = (int)sy_choice("place", 3), n = 500 + (int)sy_choice("extra", 2);
        for (int i = 0; i <= n; i++) {
            if (i == (place == 0 ? 0 : place == 1 ? 499 : n)) {
                rrs.push_back({{symLabel("owner", "ab*", 1), "o"}, RRType::A, 5, "1"});
                rrs.push_back({{symLabel("lower", "a*", 1), symLabel("upper", "ax", 1) + "017", "o"}, RRType::A, 5, "1"});
            }
            if (i < n) rrs.push_back({{"x" + std::to_string(1000 + i).substr(1), "o"}, RRType::A, 5, "1"});
        }
        if (sy_bool("dname")) rrs.push_back({{"o"}, RRType::DNAME, 5, symLabel("target", "ax", 1) + "017.o."});
        domain = {"o"};
        q = {sy_bool("known") ? "x01" + symLabel("q", "7z", 1) : symLabel("q", "ac", 1), "o"};
        if (sy_bool("deeper")) q = cat({symLabel("below", "ac", 1)}, q);
        sy_reach("many siblings");
    } else {
        const int n = QT(3, 4);
        for (int i = 0; i < n; i++) {
            auto nm = [&](const char *s, const char *set) {
                Labels l;
                int depth = 1 + (int)sy_choice(s, 2);
                for (int d = 0; d < depth; d++) l = cat({symLabel(s, d ? set : "ab", 1)}, l);
                return l;
            };
            bool dname = i < QT(1, 2) && sy_bool("dname");
            RR r = {nm("owner", "ab*"), dname ? (uint32_t)RRType::DNAME : (uint32_t)RRType::A, 5, "1"};
            if (dname) {
                r.rdata = text(nm("target", "ab"));
            }
            rrs.push_back(r);
        }
        sub = sy_bool("subdomains");
        int depth = (int)sy_choice("depth", 3);
        for (int d = 0; d < depth; d++) domain = cat({symLabel("domain", "ab", 1)}, domain);
        q = domain;
        depth = sub ? (int)sy_choice("qdepth", QT(2, 3)) : 0;
        for (int d = 0; d < depth; d++) q = cat({symLabel("q", "ab", 1)}, q);
    }
    for (auto &r : rrs) {
        ref.add(r);
        t.lg().AddResourceRecord(mkRR(r), 1, 0);
    }
    uint64_t types = sy_u64("types", 1, kAllTypes);
    t.d.SetJob(json({{"Domain", text(domain)}, {"SubDomain", sub}, {"Properties", json::array()}}));
    t.job().types_req = std::bitset<RRType::N>(types);
    t.lg().GenerateECs(t.job(), t.ctx());
    vector<Class> cs = classes(t.job());
    sy_obs("classes", cs.size());
    auto has = [&](const Labels &n, bool below, uint64_t ty, bool undefined) {
        for (auto &c : cs)
            if (c.below == below && c.types == ty && (!below || c.undefined == undefined) && c.name == n) return true;
        return false;
    };
    Tree::Match d = ref.search(domain);
    if (d.matched < domain.size()) {
        // nothing below the domain exists: the one class that holds the domain
        Labels p(domain.end() - d.matched, domain.end());
        sy_check(cs.size() == 1 && cs[0].below && cs[0].name == p && cs[0].types == types, "a domain that does not exist does not give the one class that holds it");
        sy_reach("no such domain");
        return;
    }
    if (!sub) {
        sy_check(cs.size() == 1 && !cs[0].below && cs[0].name == domain && cs[0].types == types, "a job without sub-domains does not give exactly the domain's class");
        sy_reach("domain alone");
        return;
    }
    for (auto &c : cs) {
        sy_check(under(c.name, domain), "a class lies outside the job's domain");
        sy_check(c.below || legalName(c.name), "an exact class for a name that is too long to exist");
        if (!c.below) sy_check(ref.search(c.name).matched == c.name.size(), "an exact class for a name the zones do not mention");
        sy_check(c.types == (c.undefined ? kAllTypes : types), "a class asks for the wrong types");
    }
    Tree::Match m = ref.search(q);
    if (m.matched == q.size()) {
        sy_check(has(q, false, types, false), "a name the zones mention has no exact class");
        sy_reach("exact");
    } else {
        Labels p(q.end() - m.matched, q.end());
        for (int x : m.nodes) {
            bool wild = false;
            for (auto &[l, y] : ref.v[x].kids) wild |= l == "*";
            sy_check(has(p, true, wild ? types : kAllTypes, !wild), "a name is covered by no class of the names below its closest ancestor");
            sy_reach(wild ? "wildcard" : "undefined");
        }
    }
}
