#include "common.h"
extern "C" void sy_harness()
{
    const int D = QT(3, 4);
    auto mk = [&](const char *n) {
        Labels l;
        int d = (int)sy_choice(n, D + 1);
        // labels of one or two characters, some long
        for (int i = 0; i < d; i++) {
            int k = (int)sy_choice("len", 3);
            l.push_back(k == 2 ? string(18, 'z') + symLabel("c", "ab", 1) : symLabel("c", "ab.", k + 1));
        }
        return l;
    };
    if (sy_bool("list")) {
        // one symbolic name, several symbolic domains of one or two labels
        Labels n = {symLabel("n", "ab", 1), symLabel("n", "ab", 1), "c"};
        n.resize(sy_choice("nd", 4));
        vector<Labels> ds;
        vector<vector<NodeLabel>> dn;
        int k = (int)sy_choice("k", QT(3, 4) + 1);
        bool want = false;
        for (int i = 0; i < k; i++) {
            Labels d = {symLabel("d", "abc", 1), symLabel("e", "abc", 1)};
            d.resize(sy_choice("dd", 3));
            want |= under(n, d);
            dn.push_back(toNL(d));
        }
        bool got = LabelUtils::SubDomainCheck(dn, toNL(n));
        sy_reach(want ? "in list" : "not in list");
        sy_check(got == want, "wrong answer for a list of domains");
        return;
    }
    Labels a = mk("a"), b = mk("b");
    bool want = under(b, a);
    bool got = LabelUtils::SubDomainCheck(toNL(a), toNL(b));
    sy_obs("got", got);
    sy_reach(want ? "inside" : "outside");
    sy_check(got == want, want ? "a name inside the domain is not recognised" : "a name outside the domain counts as inside");
    sy_check(LabelUtils::SubDomainCheck(toNL(b), toNL(b)), "a name is not inside itself");
    sy_check(LabelUtils::SubDomainCheck(vector<NodeLabel>{}, toNL(b)), "a name is not inside the root");
}
