// C15: concurrent log calls: each message comes out once, on one line, in the order of its thread.
#include "config.hpp"
#include "outputs/logger.hpp"
#include <fcntl.h>
#include <iostream>
#include <map>
#include <regex>
#include <thread>
#include <unistd.h>
using namespace rgbd_slam;
using mon::check;
struct Capture
{
    int so, se;
    std::string fo, fe;
    Capture()
    {
        fo = mon::opt().workdir + "/out.txt"; fe = mon::opt().workdir + "/err.txt";
        std::cout.flush(); std::cerr.flush(); fflush(stdout); fflush(stderr);
        so = dup(1); se = dup(2);
        const int a = open(fo.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600), b = open(fe.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
        dup2(a, 1); dup2(b, 2);
        close(a); close(b);
    }
    void stop()
    {
        std::cout.flush(); std::cerr.flush(); fflush(stdout); fflush(stderr);
        dup2(so, 1); dup2(se, 2);
        close(so); close(se);
    }
};
static std::string read_all(const std::string& f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }

MON_TEST(concurrent, 60, 2000)
{
    const int threads = (int)c.irange(1, 8), per = (int)c.irange(20, 250);
    const bool sync = c.coin();
    struct M { int level; std::string text; };
    std::vector<std::vector<M>> plan(threads);
    for (int t = 0; t < threads; ++t)
        for (int i = 0; i < per; ++i)
        {
            std::string pay((size_t)c.irange(0, c.coin(0.1) ? 400 : 40), (char)('a' + c.irange(0, 25)));
            plan[t].push_back({(int)c.irange(0, 2), mon::fmt("<%d:%d:%zu:%s>", t, i, pay.size(), pay.c_str())});
        }
    Capture cap;
    {
        std::atomic<int> ready{0};
        std::vector<std::thread> th;
        for (int t = 0; t < threads; ++t)
            th.emplace_back([&, t] {
                ++ready;
                while (ready < threads) std::this_thread::yield();
                for (const M& m: plan[t])
                {
                    if (m.level == 0) outputs::log(m.text);
                    else if (m.level == 1) outputs::log_warning(m.text);
                    else outputs::log_error(m.text);
                    if (sync) std::this_thread::yield();
                }
            });
        for (auto& x: th) x.join();
    }
    cap.stop();
    const std::string o = read_all(cap.fo), e = read_all(cap.fe);
    // an oracle on the lines alone: whatever the decoration, a line holds one whole message
    std::map<std::string, int> seen;
    int broken = 0, switches = 0, lastT = -1;
    std::vector<std::map<int, int>> order(threads);
    bool ordered = true;
    std::string firstBroken;
    int wrongStream = 0, wrongTag = 0, noPlace = 0;
    auto scan = [&](const std::string& all, bool err) {
        size_t p = 0;
        while (p < all.size())
        {
            size_t q = all.find('\n', p);
            if (q == std::string::npos) q = all.size();
            const std::string l = all.substr(p, q - p);
            p = q + 1;
            if (l.empty()) continue;
            const size_t a = l.find('<'), b = l.find('>');
            int t, i; size_t n;
            int used = 0;
            const bool whole = a != std::string::npos && b != std::string::npos && b > a && l.find('<', a + 1) == std::string::npos && l.find('>', b + 1) == std::string::npos &&
                               sscanf(l.c_str() + a, "<%d:%d:%zu:%n", &t, &i, &n, &used) == 3 && t >= 0 && t < threads && i >= 0 && i < per && plan[t][i].text == l.substr(a, b - a + 1);
            if (!whole) { if (!broken++) firstBroken = l.substr(0, 160); continue; }
            seen[plan[t][i].text]++;
            const int lev = plan[t][i].level;
            wrongStream += (lev == 0) == err;
            const std::string head = l.substr(0, a);
            int tags = (head.find("INF") != std::string::npos) + (head.find("WARN") != std::string::npos) + (head.find("ERR") != std::string::npos);
            const char* want = lev == 0 ? "INF" : lev == 1 ? "WARN" : "ERR";
            wrongTag += tags != 1 || head.find(want) == std::string::npos;
            noPlace += head.find("c15_logs.cpp") == std::string::npos;
            const int key = err ? 1 : 0;
            if (order[t].count(key) && order[t][key] >= i) ordered = false;
            order[t][key] = i;
            if (t != lastT) ++switches;
            lastT = t;
        }
    };
    scan(o, false);
    scan(e, true);
    int missing = 0, twice = 0;
    for (auto& v: plan) for (auto& m: v) { const int k = seen[m.text]; missing += k == 0; twice += k > 1; }
    check(broken == 0, "log_lines_whole", "%d lines of %d threads are not one whole message, first: %s", broken, threads, firstBroken.c_str());
    check(missing == 0 && twice == 0, "log_every_message_once", "%d missing, %d repeated of %d", missing, twice, threads * per);
    check(ordered, "log_order_of_a_thread", "%d threads", threads);
    check(wrongStream == 0 && wrongTag == 0, "log_level_and_stream", "%d on the wrong stream, %d with the wrong tag", wrongStream, wrongTag);
    check(noPlace == 0, "log_call_site", "%d lines without the calling file", noPlace);
    mon::observe("log.thread_switches", switches);
    mon::observe("log.messages", threads * per);
    if (threads > 1) mon::nontrivial("log", mon::fmt("%d %d %d", threads, per, switches));
    mon::sample("log", mon::fmt("%d threads x %d messages, %d alternations between threads in the output", threads, per, switches));
}
int main(int argc, char** argv) { return mon::run_main(argc, argv, [] { mon::load_config(); }); }
