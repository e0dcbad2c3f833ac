#include "zone.h"
// Symbolic zone content, symbolic query: the real lookup against the reference.
extern "C" void sy_harness()
{
    const Labels O = sy_bool("root") ? Labels{} : Labels{"o"};
    zone::Graph z(0);
    RefZone ref;
    ref.origin = O;
    RR soa{O, RRType::SOA, 5, "soa"};
    z.AddResourceRecord(mkRR(soa));
    ref.rrs.push_back(soa);
    const int N = QT(2, 3);
    for (int i = 0; i < N; i++) {
        RR r;
        int d = (int)sy_choice("depth", 3);
        r.owner = O;
        for (int k = 0; k < d; k++) r.owner = cat({symLabel("l", "ab*", 1)}, r.owner);
        r.type = sy_u32("type", 0, RRType::N - 1);
        r.ttl = 7;
        r.rdata = symLabel("h", "ab", 1) + ".o.";
        if (d && r.owner[0] == "*") sy_assume(r.type != RRType::NS && r.type != RRType::DNAME);
        sy_assume(r.type != RRType::SOA && !(r.owner.empty() && r.type == RRType::DNAME)); // the root has no DNAME
        auto want = refAdd(ref, r);
        auto got = std::get<0>(z.AddResourceRecord(mkRR(r)));
        sy_check(got == want, "record wrongly accepted or rejected");
        if (got == zone::RRAddCode::SUCCESS) ref.rrs.push_back(r);
    }
    EC q;
    int d = (int)sy_choice("qdepth", QT(3, 4));
    Labels qn = O;
    for (int k = 0; k < d; k++) qn = cat({symLabel("q", "ab*", 1)}, qn);
    q.name = toNL(qn);
    uint64_t types = sy_u64("types", 1, kAllTypes);
    q.rrTypes = std::bitset<RRType::N>(types);
    bool below = sy_bool("below");
    if (below) q.excluded = vector<NodeLabel>{};
    bool complete = false;
    auto got = z.QueryLookUpAtZone(q, complete);
    auto want = ref.lookup(qn, types, below);
    sy_reach(want[0].tag == ReturnTag::REF ? "referral" : want[0].tag == ReturnTag::REWRITE ? "rewrite" : want[0].tag == ReturnTag::NX ? "nx" : "answer");
    compareAnswers(want, got);
}
