#include "common.h"
// Name text <-> labels, every text of the bounded length.
extern "C" void sy_harness()
{
    const int N = QT(6, 8);
    string s;
    bool longlabels = sy_bool("long");
    if (longlabels) {
        // long labels around one symbolic part
        s = string(20, 'x') + symLabel("m", "ab.\\", 2) + string(30, 'y') + "." + symLabel("t", "ab.\\", QT(2, 3));
    } else {
        int n = (int)sy_choice("n", N + 1);
        s = symLabel("c", "aB.\\", n);
    }
    // reference split; escaped characters stay in their label
    Labels want;
    string cur;
    bool wellformed = true, dot_end = false;
    for (size_t i = 0; i < s.size(); i++) {
        dot_end = false;
        if (s[i] == '\\') {
            if (i + 1 == s.size()) { wellformed = false; break; }
            cur += s[i];
            cur += s[++i];
        } else if (s[i] == '.') {
            dot_end = true;
            if (cur.empty() && s.size() > 1) wellformed = false;
            if (!cur.empty()) want.push_back(cur);
            cur.clear();
        } else
            cur += s[i];
    }
    sy_assume(wellformed);
    if (!cur.empty()) want.push_back(cur);
    vector<NodeLabel> got = LabelUtils::StringToLabels(s);
    sy_obs("labels", got.size());
    sy_check(got.size() == want.size(), "wrong number of labels");
    for (size_t i = 0; i < want.size(); i++) sy_check(got[want.size() - 1 - i].get() == want[i], "wrong label");
    string back = LabelUtils::LabelsToString(got);
    if (want.empty()) { sy_check(back == ".", "the root is not written as '.'"); sy_reach("root"); return; }
    sy_check(back == (dot_end ? s : s + "."), "the text form is not the absolute name");
    vector<NodeLabel> again = LabelUtils::StringToLabels(back);
    sy_check(again == got, "text form does not convert back to the same labels");
    sy_reach(dot_end ? "absolute" : "no final dot");
}
