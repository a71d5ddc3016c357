// C24: no two threads of the system touch the same data without synchronisation.
#include "video.hpp"
#include "rgbd_slam.hpp"
#include "outputs/logger.hpp"
#include "utils/random.hpp"
#include <tbb/parallel_for.h>
using namespace rgbd_slam;
using namespace video;
using mon::check;

static void counts(unsigned long a, unsigned long b, unsigned long t)
{
    mon::observe("events.parallel_loops", mon_par::calls.load() - a);
    mon::observe("events.parallel_iterations", mon_par::iterations.load() - b);
    mon::observe("events.threads", mon_par::threads.load() - t);
}
// whole system: detection threads, grid detection, consensus, covariance sampling, rectification
MON_TEST(tracking, 8, 60)
{
    const unsigned long a = mon_par::calls, b = mon_par::iterations, t = mon_par::threads;
    const mon::Cam m = mon::cfg().c1;
    Room room = random_room(c);
    if (c.coin(0.15)) room.textured = false;
    const ref::Pose S = ref::rand_pose(c, 300);
    RGBD_SLAM slam(utils::Pose(S.t, quaternion(S.q.w(), S.q.x(), S.q.y(), S.q.z())), (uint)m.w, (uint)m.h);
    View v;
    const V3 vel = V3(c.gauss(), c.gauss(), c.gauss()).normalized() * c.uni(0, 9);
    const int n = (int)c.irange(5, 8), blind = (int)c.irange(0, 9), holes = (int)c.irange(2, 6);
    int lost = 0;
    for (int i = 0; i < n; ++i)
    {
        Image im = render(room, m, v, 1);
        for (int y = 0; y < im.depth.rows; ++y)
            for (int x = 0; x < im.depth.cols; ++x)
                if ((x / 80 + y / 60) % holes == 1) im.depth(y, x) = 0;
        if (i == blind) { im.rgb.setTo(cv::Scalar::all(30)); im.depth.setTo(0); }
        slam.rectify_depth(im.depth);
        const utils::Pose p = slam.track(im.rgb, im.depth);
        lost += !p.get_position().allFinite();
        (void)slam.get_debug_image(p, im.rgb, 0.03, i % 2 == 0);
        mon::observe("events.frames");
        v.t += vel;
    }
    slam.show_statistics(0.03);
    check(lost == 0, "poses_finite", "%d", lost);
    counts(a, b, t);
    mon::nontrivial("tracking", mon::fmt("%d %d %.1f", n, blind, vel.norm()));
    mon::sample("tracking", mon::fmt("%d frames, %lu parallel loops of %lu iterations in %lu threads", n, mon_par::calls.load() - a, mon_par::iterations.load() - b, mon_par::threads.load() - t));
}
// shared services used from many threads at once
MON_TEST(services, 8, 60)
{
    const int n = (int)c.irange(2, 8);
    std::vector<std::thread> pool;
    std::atomic<long> bad = 0;
    const int rounds = (int)c.irange(5, 60);
    for (int i = 0; i < n; ++i)
        pool.emplace_back([&, i] {
            for (int k = 0; k < rounds; ++k)
            {
                switch ((i + k) % 4)
                {
                    case 0: outputs::log("message"); break;
                    case 1: outputs::log_warning("message"); break;
                    case 2: outputs::log_error("message"); break;
                    default: break;
                }
                const double d = utils::Random::get_random_double();
                const uint u = utils::Random::get_random_uint(10);
                if (!(d >= 0 && d <= 1) || u >= 10 || !std::isfinite(utils::Random::get_normal_double())) bad.fetch_add(1, std::memory_order_relaxed);
                if (!Parameters::is_valid() || !(Parameters::get_camera_1_focal().x() > 0)) bad.fetch_add(1, std::memory_order_relaxed);
            }
        });
    for (auto& t: pool) t.join();
    mon::observe("events.service_calls", (uint64_t)(n * rounds * 4));
    check(bad == 0, "services_usable_by_all_threads", "%ld", bad.load());
    mon::nontrivial("services", mon::fmt("%d %d", n, rounds));
}
int main(int argc, char** argv)
{
    return mon::run_main(argc, argv, [] {
        mon::load_config();
        if (chdir(mon::opt().workdir.c_str()) != 0) _exit(3);
    });
}
