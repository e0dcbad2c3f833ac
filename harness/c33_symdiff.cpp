#include "common.h"
extern "C" void sy_harness()
{
    const int N = QT(3, 4);
    auto mk = [&](int n) {
        vector<RR> v;
        for (int i = 0; i < n; i++) {
            RR r;
            r.owner = {symLabel("o", "ab", 1), "o"};
            r.type = sy_u32("t", 0, RRType::N - 1);
            r.ttl = sy_u32("ttl", 0, 3);
            r.rdata = symLabel("d", "ab", 1);
            v.push_back(r);
        }
        return v;
    };
    auto same = [](const RR &a, const RR &b) { return a.type == b.type && a.owner == b.owner && a.rdata == b.rdata; };
    auto in = [&](const RR &a, const vector<RR> &v) {
        for (auto &x : v)
            if (same(a, x)) return true;
        return false;
    };
    int na = (int)sy_choice("na", N + 1), nb = (int)sy_choice("nb", QT(2, 3) + 1);
    vector<RR> a = mk(na), b = mk(nb);
    // sets: no record twice
    for (auto *v : {&a, &b})
        for (size_t i = 0; i < v->size(); i++)
            for (size_t j = 0; j < i; j++) sy_assume(!same((*v)[i], (*v)[j]));
    vector<ResourceRecord> ra, rb;
    for (auto &r : a) ra.push_back(mkRR(r));
    for (auto &r : b) rb.push_back(mkRR(r));
    auto [common, onlya, onlyb] = RRUtils::CompareRRs(ra, rb);
    auto eq = [](const vector<RR> &w, const vector<ResourceRecord> &g, const char *m) {
        sy_check(w.size() == g.size(), m);
        for (auto &x : w) {
            bool f = false;
            for (auto &y : g) f |= x.type == (uint32_t)y.get_type() && x.rdata == y.get_rdata() && x.owner == fromNL(y.get_name());
            sy_check(f, m);
        }
    };
    vector<RR> wc, wa, wb;
    for (auto &x : a) (in(x, b) ? wc : wa).push_back(x);
    for (auto &x : b)
        if (!in(x, a)) wb.push_back(x);
    sy_obs("common", common.size());
    eq(wc, common, "wrong set of common records");
    eq(wa, onlya, "wrong set of records only in the first");
    eq(wb, onlyb, "wrong set of records only in the second");
    sy_reach(wc.empty() ? "disjoint" : wa.empty() && wb.empty() ? "equal" : "mixed");
}
