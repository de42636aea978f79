#!/usr/bin/env python3
"""seedbuild.py ROOT: build ROOT's library into ROOT/_build/lib (used to try demos in a scratch copy)"""
import os, sys, subprocess
root = sys.argv[1]
os.environ["GC_REPO"] = root
os.environ["GC_VERIF_BUILD"] = "/tmp/seedobj"
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
HAPPLY = {"surface/meshio.cpp", "surface/simple_polygon_mesh.cpp", "surface/rich_surface_mesh_data.cpp", "surface/flip_geodesics.cpp", "pointcloud/point_cloud_io.cpp"}
flags = build.COMMON + ["-O1"]
srcs = [s for s in build.lib_sources() if s not in HAPPLY]
try:
    objs = build.compile_many([(f"{root}/src/{s}", f"seed/{s}", flags) for s in srcs])
except build.CompileError as e:
    print(e); sys.exit(2)
lib = f"{root}/_build/lib/libgeometry-central.a"
os.makedirs(os.path.dirname(lib), exist_ok=True)
if os.path.exists(lib): os.unlink(lib)
subprocess.check_call(["ar", "qcsT", lib] + sorted(objs.values()))

# the stable tests, linked against the patched library
T = f"{root}/test"
G = "/repo/_build/lib"
tflags = flags + [f"-I{T}/include"] + [x for d in os.popen("find /repo/_build /repo/deps -type d -path '*googletest/include' 2>/dev/null").read().split() for x in ("-isystem", d)] + ["-DGC_TEST_ASSETS_ABS_PATH=\"" + T + "/assets/\""]
try:
    tobjs = build.compile_many([(f"{T}/src/{x}", f"seed/test/{x}", tflags) for x in ("main_test.cpp", "point_cloud_test.cpp")])
except build.CompileError as e:
    print(e); sys.exit(2)
ex = f"{root}/_build/gctest"
subprocess.check_call(["g++", "-no-pie", "-Wl,--defsym=_ZN15geometrycentral10pointcloud14readPointCloudENSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEES6_=0", "-Wl,--defsym=_ZN15geometrycentral10pointcloud15writePointCloudERNS0_10PointCloudERNS0_21PointPositionGeometryENSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEESA_=0", "-o", ex] + sorted(tobjs.values()) + [lib, f"{G}/libgtest.a"] + build.LIBS)
