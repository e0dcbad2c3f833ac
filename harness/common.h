// Shared by the harnesses: access to the code under test, symbolic records and names.
#ifndef COMMON_H_
#define COMMON_H_
#include "driver.h"
#include "ec-task.h"
#include "structural-task.h"
#include "sy.h"
#include "utils.h"
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#ifndef THOROUGH
#define THOROUGH 0
#endif
#define QT(q, t) (THOROUGH ? (t) : (q))

using std::string;
using std::vector;
using Labels = vector<string>; // text labels, leftmost first
static const uint64_t kAllTypes = (1u << RRType::N) - 1;

// the name the code under test declares as a friend
class DriverTest
{
  public:
    Driver d;
    std::set<json> &violations() { return d.property_violations_; }
    Job &job() { return d.current_job_; }
    Context &ctx() { return d.context_; }
    label::Graph &lg() { return d.label_graph_; }
    int parse(string file, string ns, string origin, bool lint) { return d.ParseZoneFileAndExtendGraphs(file, ns, origin, lint); }
};

// sets the type of a record to a (symbolic) value through its serialisation interface
struct TypeArchive {
    RRType t;
    template <class T> TypeArchive &operator&(T &) { return *this; }
    TypeArchive &operator&(RRType &x) { x = t; return *this; }
};
static void forceType(ResourceRecord &r, uint32_t t)
{
    TypeArchive a{(RRType)t};
    boost::serialization::access::serialize(a, r, 0u);
}

static inline string text(const Labels &l)
{
    string s;
    for (auto &x : l) { s += x; s += '.'; }
    if (l.empty()) s = ".";
    return s;
}
// a symbolic label of the given length
static inline string symLabel(const char *n, const char *set, int len)
{
    string s;
    for (int i = 0; i < len; i++) s += (char)sy_among(n, set, __builtin_strlen(set));
    return s;
}
static inline Labels cat(Labels a, const Labels &b)
{
    a.insert(a.end(), b.begin(), b.end());
    return a;
}
// is sub equal to or below dom?
static inline bool under(const Labels &sub, const Labels &dom)
{
    if (sub.size() < dom.size()) return false;
    size_t k = sub.size() - dom.size();
    for (size_t i = 0; i < dom.size(); i++)
        if (sub[k + i] != dom[i]) return false;
    return true;
}
static inline Labels fromNL(const vector<NodeLabel> &v)
{
    Labels l;
    for (size_t i = v.size(); i-- > 0;) l.push_back(v[i].get());
    return l;
}
static inline vector<NodeLabel> toNL(const Labels &l)
{
    vector<NodeLabel> v;
    for (size_t i = l.size(); i-- > 0;) v.push_back(NodeLabel(l[i]));
    return v;
}
// splits absolute text without escapes
static inline Labels splitText(const string &s)
{
    Labels l;
    string c;
    for (char x : s) {
        if (x == '.') { if (!c.empty()) l.push_back(c); c.clear(); }
        else c += x;
    }
    if (!c.empty()) l.push_back(c);
    return l;
}
// a record of the reference models
struct RR {
    Labels owner;
    uint32_t type;
    uint32_t ttl;
    string rdata;
};
static inline ResourceRecord mkRR(const RR &r)
{
    ResourceRecord x(text(r.owner), "A", 1, r.ttl, r.rdata);
    forceType(x, r.type);
    return x;
}
static inline bool sameRR(const RR &a, const ResourceRecord &b)
{
    return a.type == (uint32_t)b.get_type() && a.ttl == b.get_ttl() && a.rdata == b.get_rdata() && a.owner == fromNL(b.get_name());
}
static inline vector<json> drain(moodycamel::ConcurrentQueue<json> &q)
{
    vector<json> v;
    json j;
    while (q.try_dequeue(j)) v.push_back(j);
    return v;
}
#endif
