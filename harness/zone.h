// Reference: what the server of a zone answers, over the flat list of the zone's records.
#ifndef ZONE_REF_H_
#define ZONE_REF_H_
#include "common.h"
struct RefAnswer {
    ReturnTag tag;
    uint64_t types;   // meaningful for ANS and NX
    vector<RR> rrs;
};
struct RefZone {
    Labels origin;
    vector<RR> rrs; // accepted records, in the order they were added

    bool exists(const Labels &n) const
    {
        for (auto &r : rrs)
            if (under(r.owner, n)) return true;
        return false;
    }
    vector<RR> at(const Labels &n) const
    {
        vector<RR> v;
        for (auto &r : rrs)
            if (r.owner == n) v.push_back(r);
        return v;
    }
    static bool has(const vector<RR> &v, uint32_t t)
    {
        for (auto &r : v)
            if (r.type == t) return true;
        return false;
    }
    static vector<RR> only(const vector<RR> &v, uint32_t t)
    {
        vector<RR> o;
        for (auto &r : v)
            if (r.type == t) o.push_back(r);
        return o;
    }
    // the NS records with the addresses the zone itself has for their targets
    vector<RR> withGlue(const vector<RR> &ns) const
    {
        vector<RR> o;
        for (auto &r : ns) {
            o.push_back(r);
            for (auto &g : at(splitText(r.rdata)))
                if (g.type == RRType::A || g.type == RRType::AAAA) o.push_back(g);
        }
        return o;
    }
    vector<RefAnswer> answerFrom(const vector<RR> &node, uint64_t types, bool exact) const
    {
        vector<RefAnswer> a;
        if (has(node, RRType::CNAME)) {
            a.push_back({types == (1u << RRType::CNAME) ? ReturnTag::ANS : ReturnTag::REWRITE, 1u << RRType::CNAME, only(node, RRType::CNAME)});
            return a;
        }
        vector<RR> m, ns;
        uint64_t found = 0;
        for (auto &r : node)
            if ((types >> r.type) & 1) {
                found |= 1ull << r.type;
                if (r.type == RRType::NS && exact) ns.push_back(r);
                else m.push_back(r);
            }
        for (auto &r : withGlue(ns)) m.push_back(r);
        if (found) a.push_back({ReturnTag::ANS, found, m});
        if (found != types) a.push_back({ReturnTag::ANS, types & ~found, {}});
        return a;
    }
    vector<RefAnswer> lookup(const Labels &q, uint64_t types, bool below) const
    {
        // walk down from the origin
        Labels cur = origin;
        for (;;) {
            vector<RR> node = at(cur);
            bool last = cur.size() == q.size();
            if (has(node, RRType::NS) && !has(node, RRType::SOA))
                return {{ReturnTag::REF, 0, withGlue(only(node, RRType::NS))}};
            if (has(node, RRType::DNAME) && (!last || below)) return {{ReturnTag::REWRITE, 0, only(node, RRType::DNAME)}};
            if (last && !below) return answerFrom(node, types, true);
            Labels next;
            if (!last) next = Labels(q.end() - cur.size() - 1, q.end());
            if (last || !exists(next)) {
                Labels w = cat({"*"}, cur);
                if (exists(w)) return answerFrom(at(w), types, false);
                return {{ReturnTag::NX, types, {}}};
            }
            cur = next;
        }
    }
};
// is the record acceptable beside the ones already there?
static inline zone::RRAddCode refAdd(const RefZone &z, const RR &r)
{
    for (auto &x : z.at(r.owner)) {
        if (x.type == r.type) {
            if (x.ttl == r.ttl && x.rdata == r.rdata) return zone::RRAddCode::DUPLICATE;
            if (r.type == RRType::CNAME) return zone::RRAddCode::CNAME_MULTIPLE;
            if (r.type == RRType::DNAME) return zone::RRAddCode::DNAME_MULTIPLE;
        } else if (x.type == RRType::CNAME || r.type == RRType::CNAME)
            return zone::RRAddCode::CNAME_OTHER;
    }
    return zone::RRAddCode::SUCCESS;
}
static inline bool containsRR(const vector<ResourceRecord> &v, const RR &r)
{
    for (auto &x : v)
        if (sameRR(r, x)) return true;
    return false;
}
static inline bool sameSet(const vector<RR> &a, const vector<ResourceRecord> &b)
{
    if (a.size() != b.size()) return false;
    for (auto &x : a) {
        int na = 0, nb = 0;
        for (auto &y : a)
            if (y.type == x.type && y.ttl == x.ttl && y.rdata == x.rdata && y.owner == x.owner) na++;
        for (auto &y : b)
            if (sameRR(x, y)) nb++;
        if (na != nb) return false;
    }
    return true;
}
static inline void compareAnswers(const vector<RefAnswer> &want, const boost::optional<vector<zone::LookUpAnswer>> &got)
{
    sy_check(bool(got), "the zone gives no answer to a name inside it");
    sy_check(want.size() == got->size(), "number of answers differs from the DNS lookup algorithm");
    for (auto &w : want) {
        bool ok = false;
        for (auto &g : *got) {
            if (std::get<0>(g) != w.tag) continue;
            if (w.tag == ReturnTag::REFUSED || w.tag == ReturnTag::NSNOTFOUND || w.tag == ReturnTag::YX) { ok = true; break; }
            if ((w.tag == ReturnTag::ANS || w.tag == ReturnTag::NX) && w.tag != ReturnTag::REWRITE && !(w.rrs.size() == 1 && w.rrs[0].type == RRType::CNAME) &&
                std::get<1>(g).to_ulong() != w.types)
                continue;
            if (!sameSet(w.rrs, std::get<2>(g))) continue;
            ok = true;
            break;
        }
        if (!ok) {
            const char *m = w.tag == ReturnTag::ANS       ? "authoritative answer differs from the zone's records"
                            : w.tag == ReturnTag::REWRITE ? "alias/DNAME rewrite answer differs from the zone's records"
                            : w.tag == ReturnTag::REFUSED ? "the server does not refuse a name outside its zones"
                            : w.tag == ReturnTag::NSNOTFOUND ? "an unknown server is not reported as not found"
                            : w.tag == ReturnTag::YX      ? "an overlong rewrite is not recognised"
                            : w.tag == ReturnTag::REF     ? "referral differs from the delegation's NS and glue records"
                                                          : "non-existence answer missing for a name that does not exist";
            sy_fail(m);
        }
    }
}
#endif
