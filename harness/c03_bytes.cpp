// Whatever a zone file holds, loading it ends, and checks can be run on what was loaded.
#include "jobs.h"
static const char kSet[] = {'a', '.', ' ', '\n', '(', ')', '"', ';', '\\', '$', '@', '1', '\r', '\t', '\0', '\xe9', '*'};
static string bytes(int n, const char *set = kSet, uint64_t m = sizeof kSet)
{
    string s;
    for (int i = 0; i < n; i++) s += (char)sy_among("byte", set, m);
    return s;
}
extern "C" void sy_harness()
{
    sy_scratch();
    string txt;
    static const string soa = "o. 1 IN SOA s.\n", tail = "o. 1 IN NS b.o.\nb.o. A 2\n";
    switch (sy_choice("part", 5)) {
    case 0: // nothing but arbitrary bytes
        txt = bytes(QT(3, 4));
        sy_reach("arbitrary");
        break;
    case 1: // between good records
        txt = soa + bytes((int)QT(3, 4)) + (sy_bool("newline") ? "\n" : "") + tail;
        sy_reach("between records");
        break;
    case 2: { // directives
        static const char *d[] = {"$TTL", "$ORIGIN", "$INCLUDE", "$", "$ttl"};
        txt = soa + d[sy_choice("directive", 5)] + bytes(QT(3, 4), " 1-\n.\\@(\"", 9) + (sy_bool("newline") ? "\n" : "") + "x 1 A 1\n" + tail;
        sy_reach("directive");
        break;
    }
    case 3: { // fields
        string n = bytes(2, "1-+9a2x ", 8) + (sy_bool("long") ? string(8 + sy_choice("digits", 4), '4') : "") + bytes(1, "1-a ", 4);
        static const char *form[] = {"x %TTL A 1\n", "x IN %TTL A 1\n", "%TTL A 1\n", " %TTL\n", "x %TTL %TTL IN IN IN A 2\n", "x 1 MX %TTL\n", "$TTL %TTL\nx A 1\n", "o. 1 SRV 1 %TTL\n"};
        txt = soa;
        string f = form[sy_choice("form", 8)];
        for (size_t i = f.find("%TTL"); i != string::npos; i = f.find("%TTL")) f.replace(i, 4, n);
        txt += f + tail;
        sy_reach("fields");
        break;
    }
    case 4: { // a good file with any one byte replaced by any other, or cut off
        txt = "$ORIGIN o.\n@ 1 IN SOA (s. ;\n1 )\n\ta\\.b 2 TXT \"x y\"\n*.c CNAME a\nd DNAME c\n NS d\n";
        size_t p = sy_choice("position", txt.size());
        if (sy_bool("cut")) txt.resize(p);
        else txt[p] = THOROUGH ? (char)sy_u8("any", 0, 255) : bytes(1)[0];
        sy_reach("mutated");
        break;
    }
    }
    sy_write_file("z.txt", txt.data(), txt.size());
    DriverTest t;
    sy_exit_ok("stopped with a failure");
    t.parse("z.txt", "ns.o.", sy_bool("origin") ? "o." : "", false);
    t.ctx().top_nameservers = {"ns.o."};
    sy_obs("zones", t.ctx().zoneId_to_zone.size());
    sy_reach(t.ctx().zoneId_to_zone.empty() ? "ignored" : "loaded");
    json list = json::array();
    for (int c : {15, 16, 22, 24, 25, 28}) {
        Prop p;
        p.chk = c;
        p.k.types = 1ull << RRType::A | 1ull << RRType::CNAME;
        list.push_back(p.j());
    }
    t.d.SetJob(jobJson(".", true, list));
    t.d.GenerateECsAndCheckProperties();
    sy_obs("classes", t.d.GetECCountForCurrentJob());
}
