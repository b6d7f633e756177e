#!/usr/bin/env python3
"""Builds the Simox libraries from /repo's current working tree, and the drivers of /verif/harness.

Libraries.  Two routes with the same result (shared libraries of the current sources):
  inc   a private copy of /repo/_build (objects and ninja's dependency log, mtimes kept) brought up to
        date by ninja; used when few translation units are out of date.
  full  a fresh CMake configuration in /verif/.build/full at -O0 with unity sources (about 45 s);
        when the unity sources do not compile together, once more without unity.
Nothing is written below /repo.
"""
import fcntl, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
ROOT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
B3 = ("-DgetMotorTargetVelosity=getMotorTargetVelocity -DgNumDeepPenetrationChecks=gNumClampedCcdMotions "
      "-DgNumGjkChecks=gNumClampedCcdMotions")
LIBS = {"VirtualRobot": [], "Saba": ["VirtualRobot"], "GraspStudio": ["VirtualRobot"], "SimDynamics": ["VirtualRobot"]}
MAX_DIRTY = 14


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ, HOME="/root", LC_ALL="C.UTF-8", CC="gcc", CXX="g++", QT_QPA_PLATFORM="offscreen")
    e.pop("BULLET_ROOT", None)
    e.pop("QT_QMAKE_EXECUTABLE", None)
    return e


def run(cmd, log, timeout=800):
    with open(log, "ab") as f:
        f.write(("$ " + " ".join(cmd) + "\n").encode())
        f.flush()
        try:
            return subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=env(),
                                  timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            return 124


def dirty(bdir, targets):
    """Number of steps ninja would run, or None when the directory is unusable."""
    p = subprocess.run(["ninja", "-C", bdir, "-n"] + targets, env=env(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode:
        return None
    if "Re-running CMake" in p.stdout or "RERUN_CMAKE" in p.stdout:
        return None
    return len(re.findall(r"^\[\d+/\d+\] Building", p.stdout, re.M))


def targets_of(libs):
    return ["lib/lib%s.so" % l for l in libs]


def try_inc(libs, log):
    src = os.path.join(REPO, "_build")
    inc = os.path.join(ROOT, "inc")
    t = targets_of(libs)
    if not os.path.exists(os.path.join(inc, "ok")):
        if not os.path.exists(os.path.join(src, ".ninja_deps")):
            return None
        n = dirty(src, t)
        if n is None or n > MAX_DIRTY:
            return None
        shutil.rmtree(inc, ignore_errors=True)
        os.makedirs(inc)
        for name in os.listdir(src):
            if name in ("bin", "vp_test_work", "build"):
                continue
            if run(["cp", "-a", os.path.join(src, name), inc + "/"], log):
                return None
        # never let ninja re-run CMake here: its rule would write to /repo/_build
        open(os.path.join(inc, "ok"), "w").close()
    n = dirty(inc, t)
    if n is None or n > MAX_DIRTY:
        return None
    if run(["ninja", "-C", inc] + t, log):
        raise BuildError("libraries do not compile, see " + log)
    return inc


def full(libs, log):
    inject = os.path.join(HERE, "inject.cmake")
    for unity in ("ON", "OFF"):
        d = os.path.join(ROOT, "full" + ("" if unity == "ON" else "-nounity"))
        os.makedirs(d, exist_ok=True)
        if not os.path.exists(os.path.join(d, "build.ninja")):
            rc = run(["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None", "-DBUILD_TESTING=OFF",
                      "-DCMAKE_CXX_FLAGS=-w -O0 -DNDEBUG " + B3, "-DCMAKE_C_FLAGS=-w -O1",
                      "-DCMAKE_EXPORT_NO_PACKAGE_REGISTRY=ON", "-DSimox_USE_QT5=ON",
                      "-DCMAKE_SHARED_LINKER_FLAGS=-fuse-ld=lld" if os.path.exists("/usr/bin/ld.lld") else "-DX=1",
                      "-DCMAKE_UNITY_BUILD=" + unity, "-DCMAKE_UNITY_BUILD_BATCH_SIZE=8",
                      "-DCMAKE_PROJECT_Simox_INCLUDE=" + inject], log)
            if rc:
                raise BuildError("cmake failed, see " + log)
        if run(["ninja", "-C", d] + targets_of(libs), log) == 0:
            return d
    raise BuildError("libraries do not compile, see " + log)


def build_libs(libs):
    os.makedirs(ROOT, exist_ok=True)
    log = os.path.join(ROOT, "build.log")
    open(log, "w").close()
    with open(os.path.join(ROOT, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        route = "inc"
        d = try_inc(libs, log) if not os.environ.get("VERIF_FULL") else None
        if d is None:
            route = "full"
            d = full(libs, log)
    return d, route


INCL = ["-I" + REPO, "-I%B", "-I" + REPO + "/VirtualRobot/CollisionDetection/PQP",
        "-I" + REPO + "/VirtualRobot/CollisionDetection/PQP/PQP++", "-I/usr/include/bullet",
        "-I" + REPO + "/GraspPlanning/ExternalDependencies/qhull-2003.1/include", "-isystem", "/usr/include/eigen3"]
DEFS = ["-DUSE_NLOPT", '-DSimox_DATA_PATH="data"', "-DBOOST_ALL_NO_LIB", "-DBOOST_PROGRAM_OPTIONS_DYN_LINK",
        "-DBOOST_FILESYSTEM_DYN_LINK", "-DBOOST_SYSTEM_DYN_LINK", "-DBOOST_THREAD_DYN_LINK", "-DCOIN_DLL", "-DSOQT_DLL",
        "-DSIMOX_USE_SOQT"]
LINK = ["-lBulletDynamics", "-lBulletCollision", "-lLinearMath"]


def stale(exe, depfile):
    if not os.path.exists(exe) or not os.path.exists(depfile):
        return True
    t = os.path.getmtime(exe)
    deps = open(depfile).read().replace("\\\n", " ").split()[1:]
    return any(not os.path.exists(x) or os.path.getmtime(x) > t for x in deps)


def build_driver(name, libs, bdir):
    out = os.path.join(ROOT, "drv")
    os.makedirs(out, exist_ok=True)
    exe = os.path.join(out, name)
    obj = exe + ".o"
    src = os.path.join(VERIF, "harness", name + ".cpp")
    log = os.path.join(ROOT, "drv-%s.log" % name)
    open(log, "w").close()
    libdir = os.path.join(bdir, "lib")
    if stale(obj, exe + ".d"):
        inc = [x.replace("%B", bdir) for x in INCL]
        rc = run(["g++", "-std=c++14", "-w", "-O0", "-g1", "-DNDEBUG", "-fPIC", "-MD", "-MF", exe + ".d", "-MT", "x"]
                 + B3.split() + DEFS + inc + ["-c", src, "-o", obj], log)
        if rc:
            raise BuildError("driver %s does not compile, see %s" % (name, log))
    rc = run(["g++", obj, "-o", exe, "-L" + libdir, "-Wl,--disable-new-dtags,-rpath," + libdir]
             + (["-fuse-ld=lld"] if os.path.exists("/usr/bin/ld.lld") else [])
             + ["-l" + l for l in libs] + (LINK if "SimDynamics" in libs else [])
             + ["-lCoin", "-lboost_filesystem", "-lboost_system", "-lboost_thread", "-lboost_program_options", "-lpthread",
                "-lGL"], log)
    if rc:
        raise BuildError("driver %s does not link, see %s" % (name, log))
    return exe, libdir


if __name__ == "__main__":
    t0 = time.time()
    libs = sys.argv[1].split(",") if len(sys.argv) > 1 else ["VirtualRobot", "Saba", "GraspStudio", "SimDynamics"]
    print(build_libs(libs), "%.1fs" % (time.time() - t0))
