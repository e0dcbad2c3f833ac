// Reference definitions of the reports of every check, over an explored resolution graph (World::g).
#ifndef CHECKS_H_
#define CHECKS_H_
#include "world.h"
typedef vector<string> Report; // the identifying fields of one report
typedef vector<Report> Reports;
static const char *kTypeName[] = {"A", "NS", "CNAME", "DNAME", "SOA", "PTR", "MX", "TXT", "AAAA", "SRV", "RRSIG", "NSEC", "SPF", "DS"};

static inline void put(Reports &v, const Report &r)
{
    for (auto &x : v)
        if (x == r) return;
    v.push_back(r);
}
static inline ReturnTag tag(const RefNode &n) { return n.ans[0].tag; }
static inline bool isRw(const RefNode &n) { return n.ns != "" && !n.ans.empty() && tag(n) == ReturnTag::REWRITE; }
static inline string num(size_t n) { return std::to_string(n); }
static inline string typesText(uint64_t t)
{
    std::set<string> s;
    for (int i = 0; i < RRType::N; i++)
        if (t >> i & 1) s.insert(kTypeName[i]);
    string o;
    for (auto &x : s) o += (o.empty() ? "" : " ") + x;
    return o;
}
static inline string lower(string s)
{
    for (auto &c : s)
        if (c >= 'A' && c <= 'Z') c = (char)(c + 32);
    return s;
}
static inline bool underAny(const Labels &n, const vector<Labels> &ds)
{
    for (auto &d : ds)
        if (under(n, d)) return true;
    return false;
}
static inline bool sameData(const RR &a, const RR &b) { return a.type == b.type && a.rdata == b.rdata && a.owner == b.owner; }
static inline bool sameData(const vector<RR> &a, const vector<RR> &b)
{
    auto in = [](const RR &r, const vector<RR> &v) {
        for (auto &x : v)
            if (sameData(r, x)) return true;
        return false;
    };
    for (auto &x : a)
        if (!in(x, b)) return false;
    for (auto &x : b)
        if (!in(x, a)) return false;
    return true;
}
struct Params {
    int limit = 0;
    vector<Labels> domains; // already lower case
    uint64_t types = 0;
    std::set<string> values; // already lower case
};
typedef const vector<int> &P;

static inline Reports wantHops(const World &w, const Params &k)
{
    Reports o;
    w.paths([&](P p) {
        int n = 0;
        const string *last = nullptr;
        for (int v : p)
            if (w.g[v].ns != "") {
                if (!last || *last != w.g[v].ns) n++;
                last = &w.g[v].ns;
            }
        if (n > k.limit) put(o, {show(w.g[p[0]].q, w.g[p[0]].below), num(n), num(k.limit)});
    });
    return o;
}
static inline Reports wantRewrites(const World &w, const Params &k)
{
    Reports o;
    w.paths([&](P p) {
        int n = 0;
        for (int v : p) n += isRw(w.g[v]);
        if (n > k.limit) put(o, {show(w.g[p[0]].q, w.g[p[0]].below), num(n), num(k.limit)});
    });
    return o;
}
static inline string concat(const std::set<string> &s)
{
    string o;
    for (auto &x : s) o += x;
    return o;
}
// a list of names as reports show it
static inline string listText(const vector<Labels> &v)
{
    string s;
    for (auto &d : v) s += (s.empty() ? "[" : ", ") + text(d);
    return s + "]";
}
static inline Reports wantQueryRewrite(const World &w, const Params &k)
{
    Reports o;
    w.paths([&](P p) {
        for (size_t i = 0; i + 1 < p.size(); i++) {
            const RefNode &a = w.g[p[i]], &b = w.g[p[i + 1]];
            if (isRw(a) && !underAny(b.q, k.domains)) put(o, {show(a.q, a.below), show(b.q, b.below), a.ns, listText(k.domains)});
        }
    });
    return o;
}
static inline Reports wantContact(const World &w, const Params &k)
{
    Reports o;
    w.paths([&](P p) {
        for (int v : p) {
            const RefNode &a = w.g[v];
            if (a.ns != "" && !underAny(splitText(a.ns), k.domains)) put(o, {show(a.q, a.below), a.ns, listText(k.domains)});
        }
    });
    return o;
}
static inline Reports wantBlackhole(const World &w, const Params &)
{
    Reports o;
    w.paths([&](P p) {
        const RefNode &e = w.g[p.back()];
        if (e.ns == "" || tag(e) != ReturnTag::NX) return;
        for (size_t i = 0; i + 1 < p.size(); i++)
            if (isRw(w.g[p[i]])) {
                put(o, {show(w.g[p[i]].q, w.g[p[i]].below), show(e.q, e.below), e.ns});
                return;
            }
    });
    return o;
}
static inline Reports wantAliases(const World &w, const Params &k)
{
    Reports o;
    w.paths([&](P p) {
        for (size_t i = 0; i < p.size(); i++)
            if (isRw(w.g[p[i]]))
                for (size_t j = i + 1; j < p.size(); j++) {
                    const RefNode &b = w.g[p[j]];
                    for (auto &c : k.domains)
                        if (!b.below && b.q == c) put(o, {show(w.g[p[i]].q, w.g[p[i]].below), text(b.q)});
                }
    });
    return o;
}
static inline Reports wantLame(const World &w, const Params &)
{
    Reports o;
    w.paths([&](P p) {
        const Labels &q0 = w.g[p[0]].q;
        for (size_t i = 0; i + 1 < p.size(); i++) {
            const RefNode &a = w.g[p[i]], &b = w.g[p[i + 1]];
            if (a.ns != "" && tag(a) == ReturnTag::REF && tag(b) == ReturnTag::REFUSED && b.q == q0)
                put(o, {show(q0, w.g[p[0]].below), a.ns, b.ns});
        }
    });
    return o;
}
static inline Reports wantDelegation(const World &w, const Params &)
{
    Reports o;
    w.paths([&](P p) {
        const Labels &q0 = w.g[p[0]].q;
        int at = -1;
        for (size_t i = 0; i + 1 < p.size(); i++) {
            const RefNode &a = w.g[p[i]], &b = w.g[p[i + 1]];
            if (a.ns != "" && tag(a) == ReturnTag::REF && tag(b) == ReturnTag::ANS && (b.ans[0].types >> RRType::NS & 1) && !b.ans[0].rrs.empty() &&
                b.q == q0)
                at = (int)i;
        }
        if (at < 0) return;
        const RefNode &a = w.g[p[at]], &b = w.g[p[at + 1]];
        vector<RR> pn, pg, cn, cg;
        for (auto &r : a.ans[0].rrs) (r.type == RRType::NS ? pn : pg).push_back(r);
        for (auto &r : b.ans[0].rrs)
            if (r.type == RRType::NS) cn.push_back(r);
        if (pn.empty() || cn.empty() || pn[0].owner != cn[0].owner) return;
        auto isServer = [](const RR &r, const vector<RR> &ns) {
            for (auto &n : ns)
                if (splitText(n.rdata) == r.owner) return true;
            return false;
        };
        vector<RR> pg2;
        for (auto &r : pg)
            if (under(r.owner, cn[0].owner)) pg2.push_back(r);
        for (auto &r : b.ans[0].rrs)
            if ((r.type == RRType::A || r.type == RRType::AAAA) && isServer(r, cn)) cg.push_back(r);
        string q = show(q0, w.g[p[0]].below);
        if (!sameData(pn, cn)) put(o, {q, a.ns, b.ns, "NS"});
        if (!sameData(pg2, cg)) put(o, {q, a.ns, b.ns, "Glue"});
    });
    return o;
}
static inline Reports wantDname(const World &w, const Params &)
{
    Reports o;
    w.paths([&](P p) {
        const RefNode &e = w.g[p.back()];
        if (e.ns != "" && tag(e) == ReturnTag::YX) put(o, {show(w.g[p[0]].q, w.g[p[0]].below), show(e.q, e.below), e.ns});
    });
    return o;
}
static inline Reports wantInfinite(const World &w, const Params &)
{
    Reports o;
    w.paths([&](P p) {
        struct Use { RR r; size_t n; string q; };
        vector<Use> used;
        for (int v : p) {
            const RefNode &a = w.g[v];
            if (!isRw(a)) continue;
            for (auto &r : a.ans[0].rrs) {
                bool f = false;
                for (auto &u : used)
                    if (sameData(u.r, r)) {
                        if (a.q.size() >= u.n) {
                            std::set<string> all;
                            for (auto &x : used) all.insert(mkRR(x.r).toString());
                            put(o, {u.q, show(a.q, a.below), concat(all)});
                            return;
                        }
                        u.n = a.q.size();
                        u.q = show(a.q, a.below);
                        f = true;
                    }
                if (!f) used.push_back({r, a.q.size(), show(a.q, a.below)});
            }
        }
    });
    return o;
}
static inline bool final(const RefNode &n) { return n.ns != "" && tag(n) != ReturnTag::REFUSED && tag(n) != ReturnTag::NSNOTFOUND; }
static inline vector<RR> ofTypes(const vector<RR> &v, uint64_t types)
{
    vector<RR> o;
    for (auto &r : v)
        if (types >> r.type & 1) o.push_back(r);
    return o;
}
static inline Reports wantReturned(const World &w, const Params &k)
{
    Reports o;
    for (int v : w.ends()) {
        const RefNode &e = w.g[v];
        if (!final(e) || !(e.types & k.types)) continue;
        for (auto &a : e.ans)
            if (a.rrs.empty() && (a.types & k.types)) put(o, {show(e.q, e.below), typesText(a.types & k.types), e.ns});
    }
    return o;
}
static inline Reports wantConsistency(const World &w, const Params &k)
{
    bool diff = false;
    vector<int> plain, all;
    for (int v : w.ends()) {
        const RefNode &e = w.g[v];
        if (!final(e) || !(e.types & k.types)) continue;
        if (tag(e) != ReturnTag::REWRITE) plain.push_back(v);
        if ((e.types & k.types) >> RRType::CNAME & 1) all.push_back(v);
    }
    for (int a : plain)
        for (int b : plain) diff |= !sameData(ofTypes(w.g[a].ans[0].rrs, k.types), ofTypes(w.g[b].ans[0].rrs, k.types));
    for (int a : all)
        for (int b : all)
            diff |= tag(w.g[a]) != tag(w.g[b]) || !sameData(ofTypes(w.g[a].ans[0].rrs, k.types), ofTypes(w.g[b].ans[0].rrs, k.types));
    if (diff) return {{show(w.g[0].q, w.g[0].below)}};
    return {};
}
static inline Reports wantValue(const World &w, const Params &k)
{
    Reports o;
    for (int v : w.ends()) {
        const RefNode &e = w.g[v];
        if (!final(e) || !(e.types & k.types)) continue;
        std::set<string> found;
        if (tag(e) == ReturnTag::ANS || tag(e) == ReturnTag::REWRITE) {
            if (tag(e) == ReturnTag::REWRITE && !(k.types >> RRType::CNAME & 1)) continue;
            for (auto &r : ofTypes(e.ans[0].rrs, k.types)) found.insert(r.rdata);
        } else if (tag(e) != ReturnTag::NX && tag(e) != ReturnTag::YX)
            continue;
        if (found != k.values) put(o, {show(e.q, e.below), e.ns, concat(found), concat(k.values)});
    }
    return o;
}
static inline Reports wantZero(const World &w, const Params &k)
{
    Reports o;
    for (int v : w.ends()) {
        const RefNode &e = w.g[v];
        if (!final(e) || !(e.types & k.types)) continue;
        for (auto &r : ofTypes(e.ans[0].rrs, k.types))
            if (r.ttl == 0) put(o, {show(w.g[0].q, w.g[0].below), e.ns, text(r.owner), kTypeName[r.type], r.rdata});
    }
    return o;
}

// ---- the real reports, reduced to the same fields
static inline string js(const json &j) { return j.is_string() ? j.get<string>() : j.dump(); }
static inline Reports gotReports(const vector<json> &v, int chk)
{
    Reports o;
    for (auto &j : v) {
        string prop = js(j.at("Property"));
        static const std::map<int, string> name = {{15, "Hops"}, {16, "Rewrites"}, {17, "Query Rewrite"}, {18, "Name Server Contact"}, {19, "Rewrite Blackholing"},
            {20, "All Aliases"}, {21, "Lame Delegation"}, {22, "Delegation Consistency"}, {23, "DNAME Substitution exceeds length"}, {24, "ResponseReturned"},
            {25, "Response Consistency"}, {26, "Response Value"}, {27, "Zero TTL"}, {29, "Infinite DName Recursion"}};
        if (prop != name.at(chk)) continue;
        auto V = [&](const char *f) { return js(j.at("Violation").at(f)); };
        switch (chk) {
        case 15: put(o, {js(j.at("Query")), V("ActualHops"), V("MaxAllowedHops")}); break;
        case 16: put(o, {js(j.at("Query")), V("ActualRewrites"), V("MaxAllowedRewrites")}); break;
        case 17: put(o, {js(j.at("Query")), V("RewriteTarget"), V("Nameserver"), V("ExpectedUnder")}); break;
        case 18: put(o, {js(j.at("Query")), V("ExternalNameserver"), V("AllowedDomains")}); break;
        case 19: put(o, {js(j.at("Query")), V("RewriteTarget"), V("BlackholeNameserver")}); break;
        case 20: put(o, {js(j.at("Query")), js(j.at("Canonical Name"))}); break;
        case 21: put(o, {js(j.at("Query")), V("Nameserver1"), V("Nameserver2")}); break;
        case 22: put(o, {js(j.at("Query")), V("Nameserver1"), V("Nameserver2"), V("InconsistencyType")}); break;
        case 23: put(o, {js(j.at("Query")), V("RewriteTarget"), V("Nameserver")}); break;
        case 24: put(o, {js(j.at("Query")), V("Types"), V("Nameserver")}); break;
        case 25: put(o, {js(j.at("Query"))}); break;
        case 26:
            for (auto &m : j.at("Mismatches")) put(o, {js(m.at("Query")), js(m.at("Nameserver")), js(m.at("Found")), js(j.at("Expected"))});
            break;
        case 27: {
            string r = V("Record");
            size_t a = r.find("   "), b = r.find("   ", a + 3);
            put(o, {js(j.at("Query")), V("Nameserver"), r.substr(0, a), r.substr(a + 3, b - a - 3), r.substr(b + 3)});
            break;
        }
        case 29: {
            std::set<string> used;
            for (auto &[key, value] : j.at("RRsUsed").items()) used.insert(js(value));
            put(o, {js(j.at("Query1")), js(j.at("Query2")), concat(used)});
            break;
        }
        }
    }
    return o;
}
static inline void compareReports(const Reports &want, const Reports &got)
{
    auto in = [](const Report &r, const Reports &v) {
        for (auto &x : v)
            if (x == r) return true;
        return false;
    };
    sy_reach(want.empty() ? "nothing to report" : want.size() == 1 ? "one report" : "several reports");
    for (auto &r : want) sy_check(in(r, got), got.empty() ? "a violation is not reported" : "a violation is missing or reported with wrong details");
    for (auto &r : got) sy_check(in(r, want), "a violation is reported that does not exist");
}
static inline Reports wantReports(const World &w, const Params &k, int chk)
{
    switch (chk) {
    case 15: return wantHops(w, k);
    case 16: return wantRewrites(w, k);
    case 17: return wantQueryRewrite(w, k);
    case 18: return wantContact(w, k);
    case 19: return wantBlackhole(w, k);
    case 20: return wantAliases(w, k);
    case 21: return wantLame(w, k);
    case 22: return wantDelegation(w, k);
    case 23: return wantDname(w, k);
    case 24: return wantReturned(w, k);
    case 25: return wantConsistency(w, k);
    case 26: return wantValue(w, k);
    case 27: return wantZero(w, k);
    case 29: return wantInfinite(w, k);
    }
    return {};
}
static inline json typesJson(uint64_t t)
{
    json j = json::array();
    for (int i = 0; i < RRType::N; i++)
        if (t >> i & 1) j.push_back(kTypeName[i]);
    return j;
}
// the property entry of a job
static inline json propertyJson(const Params &k, int chk, const vector<string> &domainText, const vector<string> &valueText)
{
    static const std::map<int, string> name = {{15, "Hops"}, {16, "Rewrites"}, {17, "QueryRewrite"}, {18, "NameserverContact"}, {19, "RewriteBlackholing"},
        {20, "AllAliases"}, {21, "LameDelegation"}, {22, "DelegationConsistency"}, {23, "DNAMESubstitutionCheck"}, {24, "ResponseReturned"},
        {25, "ResponseConsistency"}, {26, "ResponseValue"}, {27, "ZeroTTL"}, {28, "StructuralDelegationConsistency"}, {29, "InfiniteDNameRec"}};
    json j = {{"PropertyName", name.at(chk)}};
    if (chk == 15 || chk == 16) j["Value"] = k.limit;
    if (chk == 17 || chk == 18 || chk == 20) j["Value"] = domainText;
    if (chk == 26) j["Value"] = valueText;
    if (chk >= 24 && chk <= 27) j["Types"] = typesJson(k.types);
    return j;
}
static inline json jobJson(const string &domain, bool sub, const json &props) { return {{"Domain", domain}, {"SubDomain", sub}, {"Properties", props}}; }
#endif
