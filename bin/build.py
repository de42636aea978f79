#!/usr/bin/env python3
"""Builds the library objects (from /repo's working tree) and the harnesses, with a content-addressed object cache.

An object is reused only if the command line, the source and every header it was compiled from have the same
contents, or (slow path) if the preprocessed translation unit is byte-identical.  Nothing is keyed on timestamps.
"""
import concurrent.futures as cf, hashlib, json, os, re, subprocess, sys, time, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GC_REPO", "/repo")
BUILD = os.environ.get("GC_VERIF_BUILD", os.path.join(VERIF, "build"))
JOBS = max(1, os.cpu_count() or 1)
CXX = "g++"
CCACHE_OFF = {"CCACHE_DISABLE": "1"}

# library sources of the real project that are left out of the stock build here only because deps/happly is absent;
# /verif/mc/shim/happly.h stands in for the PLY container so that everything else in them can be explored
EXCLUDE = {"surface/detect_symmetry.cpp", "surface/mesh_ray_tracer.cpp", "utilities/unit_vector3.cpp"}

COMMON = ["-std=c++17", "-g1", "-w", "-fno-omit-frame-pointer", "-DGC_HAVE_SUITESPARSE", "-DNOMINMAX", "-D_USE_MATH_DEFINES",
          "-I" + REPO + "/include", "-I" + VERIF + "/mc/shim", "-I" + REPO + "/deps/nanort/include",
          "-I" + REPO + "/deps/nanoflann/include", "-isystem", "/usr/include/eigen3", "-isystem", "/usr/include/suitesparse"]
FLAVORS = {
    # assertions of Eigen and libstdc++ are on, so out-of-range accesses end the case loudly
    "opt": ["-O1", "-D_GLIBCXX_ASSERTIONS"],
    "asan": ["-O1", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address"],
}
LIBS = ["-lspqr", "-lumfpack", "-lcholmod", "-lccolamd", "-lcamd", "-lcolamd", "-lamd", "-llapack", "-lblas",
        "-lsuitesparseconfig", "-lpthread"]


def sha(b):
    return hashlib.sha256(b).hexdigest()[:24]


_fcache = {}


def fhash(p):
    if p not in _fcache:
        try:
            with open(p, "rb") as f:
                _fcache[p] = sha(f.read())
        except OSError:
            _fcache[p] = "missing"
    return _fcache[p]


def lib_sources():
    out = []
    for d in ("surface", "pointcloud", "numerical", "utilities"):
        base = os.path.join(REPO, "src", d)
        for f in sorted(os.listdir(base)):
            rel = d + "/" + f
            if f.endswith(".cpp") and rel not in EXCLUDE:
                out.append(rel)
    return out


def run(cmd, **kw):
    env = dict(os.environ)
    for k in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "CPATH", "CPLUS_INCLUDE_PATH"):
        env.pop(k, None)
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, **kw)


class CompileError(Exception):
    pass


def compile_one(src, tag, flags):
    """returns object path"""
    odir = os.path.join(BUILD, "obj")
    os.makedirs(odir, exist_ok=True)
    name = tag.replace("/", "__")
    idx = os.path.join(odir, name + ".idx.json")
    cmdkey = sha("\0".join([CXX] + flags).encode())
    ent = None
    try:
        with open(idx) as f:
            ent = json.load(f)
    except (OSError, ValueError):
        pass
    # an index holds several generations (so that going back and forth between trees stays cheap)
    gens = ent if isinstance(ent, list) else []
    for g in gens:
        if g["cmd"] == cmdkey and os.path.exists(g["obj"]) and all(fhash(p) == h for p, h in g["deps"]):
            return g["obj"]
    # preprocess: identical token stream -> same object
    pp = run([CXX] + flags + ["-E", "-P", "-MD", "-MF", "/dev/stderr", src]) if False else None
    dep = os.path.join(odir, name + f".{os.getpid()}.d")
    p = subprocess.run([CXX] + flags + ["-E", "-P", "-MD", "-MF", dep, src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        raise CompileError(src + "\n" + p.stderr.decode("utf-8", "replace")[:6000])
    with open(dep) as f:
        txt = f.read()
    os.unlink(dep)
    files = re.sub(r"\\\n", " ", txt).split(":", 1)[1].split()
    deps = sorted({os.path.abspath(x) for x in files if not x.startswith("/usr/")})
    pph = sha(p.stdout)
    gen = None
    for g in gens:
        if g["cmd"] == cmdkey and g.get("pp") == pph and os.path.exists(g["obj"]):
            gen = {"cmd": cmdkey, "pp": pph, "obj": g["obj"], "deps": [[d, fhash(d)] for d in deps]}
            break
    if gen is None:
        obj = os.path.join(odir, f"{name}.{sha((cmdkey + pph).encode())}.o")
        tmp = obj + f".{os.getpid()}.tmp.o"
        r = run([CXX] + flags + ["-c", src, "-o", tmp])
        if r.returncode:
            raise CompileError(src + "\n" + r.stdout.decode("utf-8", "replace")[:6000])
        os.replace(tmp, obj)
        gen = {"cmd": cmdkey, "pp": pph, "obj": obj, "deps": [[d, fhash(d)] for d in deps]}
    gens = [gen] + gens
    keep, dropped = gens[:3], gens[3:]
    kept = {g["obj"] for g in keep}
    for g in dropped:
        if g["obj"] not in kept and os.path.exists(g["obj"]):
            os.unlink(g["obj"])
    with open(idx + f".{os.getpid()}", "w") as f:
        json.dump(keep, f)
    os.replace(idx + f".{os.getpid()}", idx)
    return gen["obj"]


def compile_many(jobs):
    """jobs: list of (src, tag, flags) -> {tag: obj}"""
    out = {}
    errs = []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = {ex.submit(compile_one, *j): j for j in jobs}
        for f in cf.as_completed(futs):
            try:
                out[futs[f][1]] = f.result()
            except CompileError as e:
                errs.append(str(e))
    if errs:
        raise CompileError("\n".join(errs))
    return out


def link(name, objs, flags):
    exe = os.path.join(BUILD, "bin", name)
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    key = sha("\0".join(objs + flags).encode())
    stamp = exe + ".key"
    try:
        if open(stamp).read() == key and os.path.exists(exe):
            return True, ""
    except OSError:
        pass
    if os.path.exists(stamp):
        os.unlink(stamp)
    tmp = exe + f".{os.getpid()}"
    r = run([CXX] + [f for f in flags if f.startswith("-f")] + objs + LIBS + ["-o", tmp])
    if r.returncode:
        if os.path.exists(tmp):
            os.unlink(tmp)
        return False, r.stdout.decode("utf-8", "replace")[-6000:]
    os.replace(tmp, exe)
    with open(stamp, "w") as f:
        f.write(key)
    return True, ""


def closure_members(name):
    p = os.path.join(VERIF, "mc", "members", name + ".txt")
    try:
        return [x for x in open(p).read().split() if os.path.exists(os.path.join(REPO, "src", x))]
    except OSError:
        return None


def build_harness(name, flavor="opt", record=False):
    flags = COMMON + FLAVORS[flavor]
    hflags = flags + ["-I" + VERIF + "/mc"]
    own = [(os.path.join(VERIF, "harness", name + ".cpp"), f"{flavor}/harness/{name}", hflags),
           (os.path.join(VERIF, "mc", "mc.cpp"), f"{flavor}/mc/mc", hflags)]
    allsrc = lib_sources()
    members = closure_members(name)
    tries = [members, allsrc] if members else [allsrc]
    msg = ""
    for srcs in tries:
        jobs = own + [(os.path.join(REPO, "src", s), f"{flavor}/lib/{s}", flags) for s in srcs]
        objs = compile_many(jobs)
        ordered = [objs[j[1]] for j in own] + [objs[j[1]] for j in jobs[2:]]
        if srcs is allsrc:
            # archive so that only what is needed is pulled in
            libkey = sha("\0".join(ordered[2:]).encode())
            lib = os.path.join(BUILD, "lib", f"lib{flavor}-{libkey}.a")
            os.makedirs(os.path.dirname(lib), exist_ok=True)
            if not os.path.exists(lib):
                for f in os.listdir(os.path.dirname(lib)):
                    if f.startswith(f"lib{flavor}-"):
                        os.unlink(os.path.join(os.path.dirname(lib), f))
                r = run(["ar", "qcT", lib + ".tmp"] + ordered[2:])
                if r.returncode:
                    raise CompileError(r.stdout.decode())
                run(["ranlib", lib + ".tmp"])
                os.replace(lib + ".tmp", lib)
            if record:
                exe = os.path.join(BUILD, "bin", name + ".rec")
                os.makedirs(os.path.dirname(exe), exist_ok=True)
                r = run([CXX] + [f for f in flags if f.startswith("-f")] + ordered[:2] + ["-Wl,-t", lib] + LIBS + ["-o", exe])
                out = r.stdout.decode("utf-8", "replace")
                if r.returncode:
                    raise CompileError(out[-5000:])
                used = [s for s in allsrc if os.path.basename(objs[f"{flavor}/lib/{s}"]) in out]
                os.makedirs(os.path.join(VERIF, "mc", "members"), exist_ok=True)
                with open(os.path.join(VERIF, "mc", "members", name + ".txt"), "w") as f:
                    f.write("\n".join(used) + "\n")
                os.unlink(exe)
            ok, msg = link(name, ordered[:2] + [lib], flags)
        else:
            ok, msg = link(name, ordered, flags)
        if ok:
            return os.path.join(BUILD, "bin", name)
    raise CompileError("link failed: " + msg)


def setup():
    """compile everything once, so that later runs only rebuild what changed"""
    t = time.time()
    sys.path.insert(0, os.path.join(VERIF, "bin"))
    import checks
    flavors = sorted({c.get("flavor", "opt") for c in checks.CHECKS.values()})
    for fl in flavors:
        flags = COMMON + FLAVORS[fl]
        names = sorted({c["harness"] for c in checks.CHECKS.values() if c.get("flavor", "opt") == fl})
        if fl == "opt":
            srcs = lib_sources()
        else:
            srcs = sorted({m for n in names for m in (closure_members(n) or lib_sources())})
        jobs = [(os.path.join(VERIF, "mc", "mc.cpp"), f"{fl}/mc/mc", flags + ["-I" + VERIF + "/mc"])]
        jobs += [(os.path.join(VERIF, "harness", n + ".cpp"), f"{fl}/harness/{n}", flags + ["-I" + VERIF + "/mc"]) for n in names]
        jobs += [(os.path.join(REPO, "src", s), f"{fl}/lib/{s}", flags) for s in srcs]
        compile_many(jobs)
        for n in names:
            build_harness(n, fl)
    print(f"setup: built {len(flavors)} flavour(s) in {time.time() - t:.1f}s")


if __name__ == "__main__":
    try:
        if sys.argv[1] == "setup":
            setup()
        elif sys.argv[1] == "record":  # recompute which library sources each harness needs
            import checks
            for n in sys.argv[2:] or sorted({c["harness"] for c in checks.CHECKS.values()}):
                fl = next((c.get("flavor", "opt") for c in checks.CHECKS.values() if c["harness"] == n), "opt")
                p = os.path.join(VERIF, "mc", "members", n + ".txt")
                if os.path.exists(p):
                    os.unlink(p)
                build_harness(n, fl, record=True)
        else:
            print(build_harness(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "opt"))
    except CompileError as e:
        print("BUILD-ERROR", e)
        sys.exit(2)
