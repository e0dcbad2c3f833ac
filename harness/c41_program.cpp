// A run of the whole program: the options and files it is given, its exit status and the files it writes.
#include "jobs.h"
#include <fstream>
#include <sys/stat.h>
#define main groot_main
#include "../bin/groot.cpp"
#undef main
static string slurp(const string &f, const char *missing)
{
    std::ifstream in(f, std::ios::binary);
    sy_check(in.is_open(), missing);
    return string(std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>());
}
static bool exists(const char *f)
{
    struct stat s;
    return stat(f, &s) == 0;
}
static void write(const char *f, const string &s) { sy_write_file(f, s.data(), s.size()); }
extern "C" void sy_harness()
{
    sy_scratch();
    mkdir("d", 0700);
    mkdir("e", 0700);
    // what is wrong with the input
    enum { GOOD, NOMETA, BADMETA, NOZONE, NOJOBS, BADJOBS, NOSERVER, KINDS };
    int wrong = (int)sy_choice("wrong", KINDS);
    bool few = wrong != GOOD;
    string host(1, (char)sy_among("host", "xy", 2)), q(1, (char)sy_among("lint", "op", 2));
    write("d/z1", "o. 5 IN SOA s.\na 5 IN CNAME " + host + ".o.\nx 5 IN A 1\na." + q + ". 5 IN A 2\nc 5 IN NS s.c\n");
    write("d/z2", "c.o. 5 IN SOA s.\nc.o. 5 IN NS t.c.o.\nt 0 IN A 3\n");
    string z2 = wrong == NOZONE ? "z3" : "z2", server = wrong == NOSERVER ? "n." : "t.O.";
    string meta = "{\"TopNameServers\": [\"" + server + "\"], \"ZoneFiles\": [{\"FileName\": \"z1\", \"NameServer\": \"T.o.\"}, {\"FileName\": \"" + z2 + "\", \"NameServer\": \"s.c.o.\"}]}";
    if (wrong != NOMETA) write("d/metadata.json", wrong == BADMETA ? "{\"TopNameServers\": " : meta);
    // how it is called; quick: one thing out of the ordinary at a time
    int dir = 0, out = 0, more = 0;
    if (!few && THOROUGH) dir = (int)sy_choice("dir", 3), out = (int)sy_choice("out", 3), more = (int)sy_choice("options", 3);
    else if (!few) {
        int k = (int)sy_choice("call", 7);
        (k < 3 ? dir : k < 5 ? out : more) = k < 3 ? k : k < 5 ? k - 2 : k - 4;
    }
    // the jobs, in a file or not
    bool file = wrong == NOJOBS || wrong == BADJOBS || sy_bool("file");
    string jobs = "[";
    vector<json> list;
    if (file) {
        int n = few ? 1 : (int)sy_choice("jobs", THOROUGH ? 4 : dir + out + more ? 2 : 3);
        for (int i = 0; i < n; i++) {
            static const char *kDom[] = {"O.", "a.o.", "c.o."};
            string dom = kDom[few ? 0 : sy_choice("domain", QT(2, 3))];
            Prop p = symProp("p", few ? 15 : vector<int>{16, 24, 28, 15, 22, 27}[sy_choice("property", QT(3, 6))]);
            json j = jobJson(dom, true, json::array({p.j()}));
            list.push_back(j);
            jobs += (i ? ", " : "") + j.dump();
        }
    }
    jobs += "]";
    if (file && wrong != NOJOBS) write("j.json", wrong == BADJOBS ? "[{" : jobs);
    bool lint = sy_bool("withlint");
    vector<string> args = {"groot", vector<string>{"d", "d/", "./d"}[dir]};
    if (file) args.push_back("--jobs=j.json");
    string name = "output.json";
    if (out) {
        name = out == 1 ? "r.json" : "e/r";
        args.push_back("--output=" + name);
    }
    if (lint) {
        args.push_back("--lint");
        write("lint.json", "old [ contents");
    }
    if (more == 1) args.push_back("-s");
    if (more == 2) args.insert(args.begin() + 1, "-lv");
    vector<const char *> argv;
    for (auto &a : args) argv.push_back(a.c_str());
    if (wrong != GOOD) sy_exit_ok("refused");
    int rc = groot_main((int)argv.size(), argv.data());
    if (wrong != GOOD) {
        sy_check(rc != 0, "the program ends with status 0 though its input cannot be used");
        sy_reach("refused");
        return;
    }
    sy_check(rc == 0, "the program ends with a failure status on good input");
    // what the jobs find
    DriverTest t;
    t.d.SetContext(json::parse(meta), "d", false);
    if (!file) {
        string all = ".";
        t.d.SetJob(all);
    }
    std::set<json> want;
    size_t n = file ? list.size() : 1;
    for (size_t i = 0; i < n; i++) {
        if (file) t.d.SetJob(list[i]);
        t.lg().GenerateECs(t.job(), t.ctx());
        std::unique_ptr<Task> task;
        vector<boost::any> ecArgs = {&t.job()}, structArgs = {&t.job(), &t.lg()};
        while (t.job().ec_queue.try_dequeue(task)) task->Process(t.ctx(), dynamic_cast<ECTask *>(task.get()) ? ecArgs : structArgs);
        for (auto &j : drain(t.job().json_queue)) want.insert(j);
    }
    json got = json::parse(slurp(name, "no output file is written where the option says"), nullptr, false);
    sy_check(!got.is_discarded() && got.is_array(), "the output file is not a JSON list");
    sy_check(got.size() == want.size(), "the output file has more or fewer entries than the jobs find violations");
    for (auto &j : got) sy_check(want.count(j), "the output file has an entry that no job finds");
    sy_check(exists("output.json") == (out == 0), "an output file is written where none is asked for");
    sy_check(exists("lint.json") == lint, "a lint report is written without being asked for, or not at all");
    if (lint) {
        json l = json::parse(slurp("lint.json", ""), nullptr, false);
        sy_check(!l.is_discarded() && l.is_array(), "the lint report is not a JSON list");
        // the record outside the zone or next to the alias, and the server without an address
        sy_check(l.size() == 2, "the lint report does not have one entry per finding");
        sy_reach("lint");
    }
    sy_obs("entries", got.size());
    sy_reach(file ? want.empty() ? "nothing found" : "violations" : "default job");
}
