// Zone-file text together with the records RFC 1035 says it denotes.
#ifndef ZONEFILE_H_
#define ZONEFILE_H_
#include "zone.h"
static inline string lowerText(string s)
{
    for (auto &c : s) c = (char)(c + ((c >= 'A' && c <= 'Z') ? 32 : 0));
    return s;
}
static inline Labels lowerLabels(Labels l)
{
    for (auto &x : l) x = lowerText(x);
    return l;
}
struct ZoneText {
    string txt;
    Labels origin, owner;
    bool ttlDirective = false;
    uint32_t defTtl = 0;
    size_t line = 0; // lines written so far
    vector<RR> recs;
    vector<size_t> recLine; // number of the line a record ends in

    void raw(const string &s)
    {
        txt += s;
        for (char c : s) line += c == '\n';
    }
    void originTo(const string &t, const Labels &abs)
    {
        raw("$ORIGIN " + t + "\n");
        origin = lowerLabels(abs);
    }
    void ttlTo(const string &digits, uint32_t v)
    {
        raw("$TTL " + digits + "\n");
        defTtl = v;
        ttlDirective = true;
    }
    // owner text: empty repeats the previous owner; layout: 0 plain, 1 tabs and comment, 2 parentheses over lines, 3 CR LF,
    // 4 parentheses around everything after the owner
    void record(const string &ownerText, const Labels &abs, int ttlForm, const string &digits, uint32_t ttlValue, uint32_t type,
        const string &typeText, const vector<string> &fields, const vector<string> &meaning, int layout)
    {
        if (!ownerText.empty()) owner = lowerLabels(abs);
        string sp = layout == 1 ? "\t" : layout == 2 ? "  " : " ";
        string s = ownerText + sp;
        if (layout == 4) s += "( ; (\n ";
        static const char *cls[] = {"IN", "in", "In", "iN", "IN"};
        string c = cls[layout];
        if (ttlForm == 1) s += digits + sp;
        if (ttlForm == 2) s += c + sp;
        if (ttlForm == 3) s += digits + sp + c + sp;
        if (ttlForm == 4) s += c + sp + digits + sp;
        bool stated = ttlForm == 1 || ttlForm == 3 || ttlForm == 4;
        s += (layout == 1 ? lowerText(typeText) : typeText) + sp;
        if (layout == 2) s += "(";
        for (size_t i = 0; i < fields.size(); i++) {
            if (i) s += sp;
            s += fields[i];
            if (layout == 2) s += i % 2 ? "\n" : " ; A (\"comment)\n\t";
        }
        if (layout == 2) s += ")";
        if (layout == 4) s += "\n)";
        if (layout == 1) s += "\t;x.y NS )\"";
        s += layout == 3 ? "\r\n" : "\n";
        raw(s);
        uint32_t t = stated ? ttlValue : defTtl;
        if (stated && !ttlDirective) defTtl = ttlValue;
        string d;
        for (size_t i = 0; i < meaning.size(); i++) d += (i ? " " : "") + lowerText(meaning[i]);
        recs.push_back({owner, type, t, d});
        recLine.push_back(line);
    }
};
// all records a loaded zone holds
static inline vector<ResourceRecord> recordsOf(const zone::Graph &z)
{
    vector<ResourceRecord> v;
    for (size_t i = 0; i < num_vertices(z); i++)
        for (auto &r : z[i].rrs) v.push_back(r);
    return v;
}
// the zone holds exactly the given records, each at the node its owner names
static inline void sameRecords(const zone::Graph &z, const vector<RR> &want)
{
    vector<ResourceRecord> got = recordsOf(z);
    vector<bool> used(got.size(), false);
    for (auto &w : want) {
        bool f = false;
        for (size_t i = 0; i < got.size() && !f; i++)
            if (!used[i] && sameRR(w, got[i])) { used[i] = true; f = true; }
        sy_check(f, "a record of the file is missing from the zone, or differs from what the file says");
    }
    sy_check(got.size() <= want.size(), "the zone holds a record that the file does not denote");
}
#endif
