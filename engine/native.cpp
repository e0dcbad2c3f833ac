// Native replay: the same harness, linked with the ordinary build of the code under test and the real libraries, run
// on one concrete assignment (file: name value lines in creation order).
#include "sy.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <exception>
#include <fstream>
#include <unistd.h>
#include <utility>
#include <vector>
static std::vector<std::pair<std::string, uint64_t>> vals;
static size_t nextv = 0;
static const char *exitTag = nullptr;
static bool finished = false;
static void out(const char *k, const char *m)
{
    fflush(stdout);
    printf("%s %s\n", k, m);
    fflush(stdout);
}
static void bye(int c)
{
    finished = true;
    fflush(stdout);
    _exit(c);
}
static uint64_t pop(const char *name, uint64_t lo, uint64_t hi)
{
    if (nextv >= vals.size()) { out("DIVERGED", (std::string("no value for ") + name).c_str()); bye(5); }
    auto &p = vals[nextv++];
    if (p.first.compare(0, 39, std::string(name).substr(0, 39)) != 0) {
        out("DIVERGED", (p.first + " expected, " + name + " requested").c_str());
        bye(5);
    }
    if (p.second < lo || p.second > hi) { out("DIVERGED", "value out of range"); bye(5); }
    return p.second;
}
extern "C" {
uint64_t sy_u64(const char *n, uint64_t lo, uint64_t hi) { return pop(n, lo, hi); }
uint32_t sy_u32(const char *n, uint32_t lo, uint32_t hi) { return (uint32_t)pop(n, lo, hi); }
uint8_t sy_u8(const char *n, uint8_t lo, uint8_t hi) { return (uint8_t)pop(n, lo, hi); }
uint8_t sy_among(const char *n, const char *, uint64_t) { return (uint8_t)pop(n, 0, 255); }
uint64_t sy_choice(const char *n, uint64_t k) { return pop(n, 0, k <= 1 ? 0 : k - 1); }
void sy_fail(const char *m) { out("FAIL", m); bye(1); }
void sy_assume(bool c) { if (!c) { out("INFEASIBLE", ""); bye(6); } }
void sy_check(bool c, const char *m) { if (!c) { out("FAIL", m); } }
void sy_reach(const char *) {}
void sy_obs(const char *t, uint64_t v) { printf("OBS %s %llu\n", t, (unsigned long long)v); }
uint64_t sy_conc(uint64_t v) { return v; }
int sy_known(uint64_t) { return 1; }
void sy_cut() { out("INFEASIBLE", "cut"); bye(6); }
void sy_done() { out("DONE", ""); bye(0); }
void sy_exit_ok(const char *t) { exitTag = t; }
void sy_sched(int) {}
void sy_rotate(int) {}
void sy_yield() {}
void sy_yield_hint() {}
void sy_progress() {}
int sy_symbolic() { return 0; }
void sy_scratch() {} // the caller starts this program in an empty directory
void sy_write_file(const char *name, const char *data, uint64_t n)
{
    std::ofstream f(name, std::ios::binary);
    f.write(data, n);
}
}
static void onExit(int code, void *)
{
    if (finished) return;
    finished = true;
    if (exitTag && (code & 255)) {
        printf("OBS exit %d\n", code & 255);
        out("DONE", exitTag);
        _exit(0);
    }
    char b[100];
    snprintf(b, sizeof b, "the program exits (status %d)", code & 255);
    out("FAIL", b);
    _exit(1);
}
static void onSig(int s)
{
    char b[100];
    if (s == SIGALRM || s == SIGPROF) snprintf(b, sizeof b, "FAIL does not terminate\n");
    else snprintf(b, sizeof b, "FAIL crash: signal %d\n", s);
    (void)!write(1, b, strlen(b));
    _exit(1);
}
int main(int argc, char **argv)
{
    std::ifstream f(argv[1]);
    std::string n;
    uint64_t v;
    while (f >> n >> v) vals.push_back({n, v});
    int limit = argc > 2 ? atoi(argv[2]) : 20;
    static char stk[1 << 16];
    stack_t ss = {};
    ss.ss_sp = stk;
    ss.ss_size = sizeof stk;
    sigaltstack(&ss, 0);
    struct sigaction sa = {};
    sa.sa_handler = onSig;
    sa.sa_flags = SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL, SIGALRM}) sigaction(s, &sa, 0);
    alarm(limit);
    on_exit(onExit, 0);
    sy_harness();
    out("DONE", "");
    bye(0);
}
