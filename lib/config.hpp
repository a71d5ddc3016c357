// Camera configurations the harness processes run under (the library caches the parameters on first use, so one
// configuration per process).
#pragma once
#include "mon.hpp"
#include "parameters.hpp"
namespace mon {
struct Cam { int w, h; double fx, fy, cx, cy; };
struct Cfg { Cam c1, c2; double tx, ty, tz, rx, ry, rz; };
inline Cfg cfg(int n)
{
    switch (n)
    {
        case 1: return {{640, 480, 517.25, 466.5, 318.5, 255.25}, {640, 480, 591.125, 530.0, 331.0, 234.5}, -25.0, 4.0, 2.5, 0.01, -0.015, 0.02};
        case 2: return {{320, 240, 262.5, 300.75, 141.5, 127.25}, {320, 240, 262.5, 300.75, 141.5, 127.25}, 0, 0, 0, 0, 0, 0};
        case 3: return {{800, 600, 720.5, 810.25, 422.0, 266.5}, {800, 600, 700.25, 640.0, 377.5, 311.0}, 12.0, -7.0, 5.0, -0.02, 0.01, 0.03};
        case 4: return {{480, 640, 512.0, 560.5, 250.5, 301.25}, {480, 640, 500.0, 541.0, 233.5, 330.0}, 10.0, 3.0, 1.0, 0, 0, 0};
        default: return {{640, 480, 550, 550, 320, 240}, {640, 480, 550, 550, 320, 240}, 0, 0, 0, 0, 0, 0};
    }
}
inline Cfg cfg() { return cfg(opt().config); }
inline std::string cfg_yaml(const Cfg& c)
{
    auto cam = [](int i, const Cam& m) {
        return fmt("camera_%d_size_x: %d\ncamera_%d_size_y: %d\ncamera_%d_focal_x: %.6f\ncamera_%d_focal_y: %.6f\n"
                   "camera_%d_center_x: %.6f\ncamera_%d_center_y: %.6f\n", i, m.w, i, m.h, i, m.fx, i, m.fy, i, m.cx, i, m.cy);
    };
    return "%YAML:1.0\n" + cam(1, c.c1) + cam(2, c.c2) +
           fmt("camera_2_translation_offset_x: %.6f\ncamera_2_translation_offset_y: %.6f\ncamera_2_translation_offset_z: %.6f\n"
               "camera_2_rotation_offset_x: %.6f\ncamera_2_rotation_offset_y: %.6f\ncamera_2_rotation_offset_z: %.6f\n",
               c.tx, c.ty, c.tz, c.rx, c.ry, c.rz);
}
inline void load_config()
{
    const std::string path = opt().workdir + "/config.yaml";
    { std::ofstream f(path); f << cfg_yaml(cfg()); }
    if (not rgbd_slam::Parameters::parse_file(path))
    {
        fprintf(stderr, "harness configuration rejected\n");
        violation("valid_configuration_rejected", "a well formed camera configuration was not accepted");
        write_out();
        _exit(0);
    }
}
} // namespace mon
