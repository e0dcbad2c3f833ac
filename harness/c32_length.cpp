#include "common.h"
static void text_part()
{
    // a text around the total limit whose dots are symbolic
    size_t T = 251 + sy_choice("T", 6);
    string s(T, 'a');
    for (size_t p : {60u, 63u, 64u, 125u, 126u, 127u, 128u, 189u, 190u, 191u, 192u, 193u}) s[p] = (char)sy_among("c", "a.", 2);
    if (T > 251) s[T - 2] = 'a';
    s[T - 1] = (char)sy_among("last", "a.", 2);
    size_t cur = 0, wire = 1;
    bool longl = false;
    for (size_t i = 0; i <= T; i++)
        if (i == T || s[i] == '.') {
            if (i == T && !cur) break;
            sy_assume(cur > 0);
            if (cur > 63) longl = true;
            wire += cur + 1;
            cur = 0;
        } else
            cur++;
    bool want = !longl && wire <= 255;
    auto v = LabelUtils::StringToLabels(s);
    bool ok = std::get<0>(LabelUtils::LengthCheck(v, 0));
    sy_reach(want ? "text fits" : longl ? "text long label" : "text long name");
    sy_check(ok == want, want ? "a name text within the limits is refused" : "a name text beyond the limits is accepted");
}
static void escapes()
{
    // escape sequences stand for one octet each
    string s = symLabel("m", "a\\.07", 6);
    size_t octets = 0;
    for (size_t i = 0; i < s.size(); i++, octets++) {
        if (s[i] == '.') sy_assume(false); // only escaped
        if (s[i] != '\\') continue;
        sy_assume(i + 1 < s.size());
        auto dig = [&](size_t k) { return k < s.size() && (s[k] == '0' || s[k] == '7'); };
        sy_assume(!dig(i + 1) || (dig(i + 2) && dig(i + 3)));
        i += dig(i + 1) ? 3 : 1;
    }
    size_t first = 58 + sy_choice("first", 4), last = 57 + sy_choice("last", 4);
    vector<NodeLabel> v = {NodeLabel(string(63, 'x')), NodeLabel(string(63, 'y')), NodeLabel(string(first, 'z') + s), NodeLabel(s + string(last, 'w'))};
    size_t third = first + octets, fourth = last + octets;
    bool want = third <= 63 && fourth <= 63 && 1 + 64 + 64 + third + 1 + fourth + 1 <= 255;
    auto [ok, label] = LabelUtils::LengthCheck(v, 0);
    sy_check(ok == want, want ? "a name with escapes within the limits is refused" : "a name with escapes beyond the limits is accepted");
    if (!ok) sy_check(label == (third > 63 ? v[2].get() : fourth > 63 ? v[3].get() : ""), "the offending label is not named");
    sy_reach(want ? "escapes fit" : "escapes too long");
}
extern "C" void sy_harness()
{
    if (sy_bool("escapes")) { escapes(); return; }
    if (sy_bool("text")) { text_part(); return; }
    const int N = QT(5, 6);
    int n = (int)sy_choice("n", N + 1);
    vector<NodeLabel> v;
    size_t total = 0;
    int firstbad = -1;
    vector<size_t> lens;
    for (int i = 0; i < n; i++) {
        // lengths near the limits; each combination is a path of the solver's choosing
        static const size_t L[] = {1, 62, 63, 64, 61, 60, 2, 58, 200};
        size_t len;
        if (i < n - 1) len = L[sy_choice("len", i == 0 ? 9 : 4)];
        else len = THOROUGH ? 1 + sy_conc(sy_u64("last", 0, 69)) : 1 + sy_conc(sy_u64("last", 0, 6)) * 3 + (sy_bool("about60") ? 46 + sy_choice("more", 3) : 0);
        lens.push_back(len);
        v.push_back(NodeLabel(string(len, (char)('a' + i))));
        total += len + 1;
        if (len > 63 && firstbad < 0) firstbad = i;
    }
    for (int level = 0; level <= 2; level += 2) {
        auto [ok, label] = LabelUtils::LengthCheck(v, level);
        bool want = firstbad < 0 && total + 1 <= 255;
        sy_check(ok == want, want ? "a name within the limits is refused" : "a name beyond the limits is accepted");
        sy_reach(want ? (total + 1 == 255 ? "exactly 255" : "fits") : firstbad >= 0 ? "long label" : "long name");
        if (firstbad >= 0) sy_check(label == v[firstbad].get(), "the offending label is not named");
        else if (!want) sy_check(label.empty(), "a label is blamed for an overlong name");
    }
}
