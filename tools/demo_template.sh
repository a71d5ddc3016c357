#!/bin/bash
# builds demo.cpp against the libraries of the current build and runs it
here=$(cd "$(dirname "$0")" && pwd)
root=$PWD
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
b=$root/_build
inc="-I$root/src -I$root/src/features/keypoints -I$root/src/features/lines -I$root/src/features/primitives -I$root/src/pose_optimization -I$root/src/map_management -I$root/third_party -I$root/src/tracking -I$root/src/outputs -I$root/src/utils -I$root/examples -isystem /usr/include/opencv4 -isystem /usr/include/eigen3 -isystem /usr/include/flann"
libs=""
for l in primitives lines tracking coordinates utils outputs rgbSLAM thirdParty; do libs="$libs $b/lib$l.so"; done
g++ -std=gnu++20 -w -O1 $inc "$here/demo.cpp" -o "$w/demo" -Wl,--no-as-needed $libs $libs -Wl,-rpath,"$b" -Wl,--unresolved-symbols=ignore-in-shared-libs -lopencv_core -lopencv_imgproc -lopencv_imgcodecs -lopencv_highgui -lflann_cpp -llz4 -ltbb -lpthread || exit 3
cd "$w" && timeout 200 ./demo
