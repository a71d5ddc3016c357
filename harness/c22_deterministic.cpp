// C22: built with MAKE_DETERMINISTIC, the system gives the same results whenever it sees the same images.
#include "video.hpp"
#include "rgbd_slam.hpp"
#include <fcntl.h>
#include <sched.h>
#include <sys/wait.h>
using namespace rgbd_slam;
using namespace video;
using mon::check;

// one run of the system, in its own process: every result to the standard output, exactly
static int child(uint64_t seed, int style)
{
    mon::load_config();
    if (chdir(mon::opt().workdir.c_str()) != 0) return 3;
    mon::Ctx junk;
    junk.rng.seed((uint64_t)getpid() * 7919 + (uint64_t)style);
    std::vector<std::unique_ptr<char[]>> blocks;
    if (style >= 1) // another layout of the heap
    {
        for (int i = 0; i < 4000; ++i) blocks.emplace_back(new char[(size_t)junk.irange(8, 700)]);
        for (size_t i = 0; i < blocks.size(); i += (size_t)junk.irange(1, 5)) blocks[i].reset();
    }
    if (style == 2) // everything on one processor
    {
        cpu_set_t s;
        CPU_ZERO(&s);
        CPU_SET(sched_getcpu(), &s);
        sched_setaffinity(0, sizeof s, &s);
    }
    std::atomic<bool> stop = false;
    std::vector<std::thread> load;
    if (style == 3) // busy processors
        for (int i = 0; i < 6; ++i) load.emplace_back([&] { volatile double x = 1; while (!stop) for (int k = 0; k < 20000; ++k) x = x * 1.0000001 + 1e-9; });
    mon::Ctx c;
    c.rng.seed(seed);
    const mon::Cam m = mon::cfg().c1;
    const Room room = random_room(c);
    const ref::Pose S = ref::rand_pose(c, 300);
    {
        RGBD_SLAM slam(utils::Pose(S.t, quaternion(S.q.w(), S.q.x(), S.q.y(), S.q.z())), (uint)m.w, (uint)m.h);
        View v;
        V3 vel = V3(c.gauss(), c.gauss(), c.gauss()).normalized() * c.uni(0, 9);
        const V3 ax = V3(c.gauss(), c.gauss(), c.gauss()).normalized();
        const double w = c.uni(0, 0.5) * M_PI / 180;
        const int n = (int)c.irange(7, 11), blind = c.coin(0.4) ? (int)c.irange(2, 6) : -1;
        for (int i = 0; i < n; ++i)
        {
            Image im = render(room, m, v, 1);
            for (int y = 0; y < im.depth.rows; ++y) // sensor without depth at places: rays without depth take part
                for (int x = 0; x < im.depth.cols; ++x)
                    if ((x / 80 + y / 60) % 5 == 2) im.depth(y, x) = 0;
            if (i == blind) { im.rgb.setTo(cv::Scalar::all(30)); im.depth.setTo(0); }
            const utils::Pose p = slam.track(im.rgb, im.depth);
            const auto& q = p.get_orientation_quaternion();
            const auto t = p.get_position();
            const matrix66 k = p.get_pose_variance();
            printf("RESULT %d %a %a %a %a %a %a %a", i, t.x(), t.y(), t.z(), q.w(), q.x(), q.y(), q.z());
            for (int a = 0; a < 36; ++a) printf(" %a", k(a / 6, a % 6));
            const cv::Mat d = slam.get_debug_image(p, im.rgb, 0, true);
            uint64_t h = 1469598103934665603ULL;
            for (int y = 0; y < d.rows; ++y) for (int x = 0; x < d.cols * 3; ++x) { h ^= d.ptr<uchar>(y)[x]; h *= 1099511628211ULL; }
            printf(" debug %lx\n", (unsigned long)h);
            v.R = v.R * Eigen::AngleAxisd(w, ax).toRotationMatrix();
            v.t += vel;
        }
    }
    std::ifstream f("out.obj");
    std::vector<std::string> lines;
    for (std::string l; std::getline(f, l);) lines.push_back(l);
    std::string all;
    for (auto& l: lines) all += l + "\n";
    printf("RESULT map %zu lines %lx\n", lines.size(), (unsigned long)mon::hash64(all));
    fflush(stdout);
    stop = true;
    for (auto& t: load) t.join();
    _exit(0);
}
static std::vector<std::string> run_child(uint64_t seed, int style)
{
    const std::string dir = mon::opt().workdir + mon::fmt("/child%d", style);
    (void)!system(("mkdir -p " + dir).c_str());
    const std::string out = dir + "/out.txt";
    unlink((dir + "/out.obj").c_str());
    const pid_t p = fork();
    if (p == 0)
    {
        const int fd = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        dup2(fd, 1);
        dup2(fd, 2);
        setenv("MALLOC_PERTURB_", std::to_string(31 + 50 * style).c_str(), 1);
        if (style == 1) setenv("MALLOC_ARENA_MAX", "1", 1);
        const std::string a = std::to_string(seed), b = std::to_string(style), k = std::to_string(mon::opt().config);
        execl("/proc/self/exe", "harness", "--child", a.c_str(), b.c_str(), k.c_str(), dir.c_str(), nullptr);
        _exit(9);
    }
    int st = 0;
    waitpid(p, &st, 0);
    std::vector<std::string> r;
    std::ifstream f(out);
    for (std::string l; std::getline(f, l);)
        if (l.rfind("RESULT", 0) == 0) r.push_back(l);
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) r.push_back(mon::fmt("ended with status %d", st));
    return r;
}
MON_TEST(same_input_same_output, 4, 40)
{
    const uint64_t seed = c.rng();
    const std::vector<std::string> ref = run_child(seed, 0);
    check(ref.size() >= 8 && ref.back().rfind("RESULT map", 0) == 0, "run_completes", "%zu lines, last %.100s", ref.size(), ref.empty() ? "" : ref.back().c_str());
    for (int style = 1; style <= 3; ++style)
    {
        const std::vector<std::string> o = run_child(seed, style);
        size_t diff = 0;
        while (diff < std::min(o.size(), ref.size()) && o[diff] == ref[diff]) ++diff;
        mon::observe("events.results_compared", o.size());
        check(o == ref, "same_results_again", "style %d: line %zu: %.160s / %.160s", style, diff, diff < ref.size() ? ref[diff].c_str() : "-",
              diff < o.size() ? o[diff].c_str() : "-");
    }
    mon::nontrivial("video", std::to_string(seed));
    if (!ref.empty()) mon::sample("run", mon::fmt("%zu results, four runs, %.120s", ref.size(), ref[ref.size() > 2 ? ref.size() - 2 : 0].c_str()));
}
int main(int argc, char** argv)
{
    if (argc == 6 && std::string(argv[1]) == "--child")
    {
        mon::opt().config = atoi(argv[4]);
        mon::opt().workdir = argv[5];
        return child(std::stoull(argv[2]), atoi(argv[3]));
    }
    return mon::run_main(argc, argv);
}
