"""Builds the simulator and the instrumented workload objects from /repo's current working tree."""
import concurrent.futures, hashlib, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MUU_REPO", "/repo")
CXX = shutil.which("clang++-18") or shutil.which("clang++")
CC = shutil.which("clang-18") or shutil.which("clang")

SIM_FLAGS = ["-std=c++20", "-O2", "-g", "-Wall", "-Wno-unused", "-fno-omit-frame-pointer"]
# the library and the workloads: instrumented, thread_local through the simulator
SUT_FLAGS = ["-std=c++20", "-O1", "-g", "-fPIC", "-fsanitize=thread", "-femulated-tls", "-fno-omit-frame-pointer",
             "-fvisibility=hidden", "-DMUU_DLL=0", "-DMUU_BUILDING=1", "-DMUU_SIM=1", "-I" + REPO + "/include", "-I" + REPO + "/src",
             "-Wno-c++11-narrowing", "-w", "-fno-inline-functions"]

# workload variant -> (workload source, extra flags); each is linked with the whole library
# "_fast": idle workers and blocked producers give up spinning sooner (the only hook in /repo), so runs are shorter
FAST = ["-DMUU_SIM_SPIN_ITERATIONS=3"]
# "_long": not instrumented, for single-threaded runs of billions of steps
LONG = ["-DSIM_LONG", "-fno-sanitize=thread", "-O2", "-finline-functions"]
WORKLOADS = {
    "pool": ("pool", []),
    "pool_fast": ("pool", FAST),
    "foreach": ("foreach", []),
    "foreach_fast": ("foreach", FAST),
    "pools": ("pools", []),
    "pools_fast": ("pools", FAST),
    "spin": ("spin", []),
    "uuid": ("uuid", []),
    "guards": ("guards", []),
    "earray": ("earray", []),
    "blob": ("blob", []),
    "text": ("text", []),
    "relay": ("relay", []),
    "tagged": ("tagged", []),
    "tagged_48": ("tagged", ["-DMUU_TAGGED_PTR_BITS=48"]),
    "tagged_57": ("tagged", ["-DMUU_TAGGED_PTR_BITS=57"]),
    "compat": ("compat", []),
    "reduce": ("reduce", []),
    "reduce_fast": ("reduce", FAST),
    "stream": ("stream", []),
    "stream_long": ("stream", LONG),
    "print": ("print", []),
}


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise RuntimeError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout


def tree_files(*roots):
    out = []
    for root in roots:
        for d, dirs, files in os.walk(root):
            dirs.sort()
            out += [os.path.join(d, f) for f in sorted(files)]
    return out


def input_hash():
    h = hashlib.sha256()
    for f in tree_files(VERIF + "/sim", VERIF + "/wl", REPO + "/include", REPO + "/src"):
        if f.endswith((".pyc", ".md")):
            continue
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    h.update(repr((SIM_FLAGS, SUT_FLAGS, WORKLOADS)).encode())
    return h.hexdigest()[:20]


def build(*workloads):
    """Builds the simulator and the given workload variants. Returns (simrun, {workload: libsut_<workload>.so})."""
    base = os.path.join(os.environ.get("MUU_SIM_BUILD", VERIF + "/build"))
    d = os.path.join(base, input_hash())
    os.makedirs(d, exist_ok=True)
    for other in os.listdir(base):
        if os.path.join(base, other) != d:
            shutil.rmtree(os.path.join(base, other), ignore_errors=True)
    exe = os.path.join(d, "simrun")
    jobs = {}
    tmp = ".%d.tmp" % os.getpid()

    def compile_(cmd):
        # a tree whose for_each() only accepts the usual types is still decided for those
        try:
            run(cmd)
        except RuntimeError:
            if VERIF + "/wl/foreach.cpp" not in cmd:
                raise
            run(cmd + ["-DSIM_REDUCED"])

    def obj(name, cmd):
        out = os.path.join(d, name + ".o")
        if not os.path.exists(out):
            jobs[out] = cmd + ["-o", out + tmp]
        return out

    rt = obj("rt", [CXX] + SIM_FLAGS + ["-c", VERIF + "/sim/rt.cpp"])
    mn = obj("main", [CXX] + SIM_FLAGS + ["-c", VERIF + "/sim/main.cpp"])
    stub = obj("emutls_stub", [CC, "-O2", "-fPIC", "-c", VERIF + "/sim/emutls_stub.c"])
    libs = {}
    for w in workloads:
        src, extra = WORKLOADS[w]
        key = "_long" if extra is LONG else "".join("_" + f.replace("-DMUU_SIM_", "").replace("=", "") for f in extra)
        objs = [obj("wl_" + w, [CXX] + SUT_FLAGS + extra + ['-DSIM_WL_NAME="%s"' % w, "-c", "%s/wl/%s.cpp" % (VERIF, src)])]
        for s in sorted(f[:-4] for f in os.listdir(REPO + "/src") if f.endswith(".cpp")):
            hooked = extra is LONG or extra and "MUU_SIM_" in open("%s/src/%s.cpp" % (REPO, s), errors="replace").read()
            objs.append(obj("muu_" + s + (key if hooked else ""), [CXX] + SUT_FLAGS + (extra if hooked else []) + ["-c", "%s/src/%s.cpp" % (REPO, s)]))
        libs[w] = (os.path.join(d, "libsut_%s.so" % w), objs)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(compile_, j) for j in jobs.values()]:
            f.result()
    for out in jobs:
        os.replace(out + tmp, out)
    if not os.path.exists(exe):
        syms = []
        for line in run(["nm", "-g", "--defined-only", rt]).splitlines():
            p = line.split()
            if len(p) == 3 and (p[1] == "T" or p[2].startswith("sim_")) and (not p[2].startswith("_Z") or "random_device" in p[2] or "hardware_concurrency" in p[2]):
                syms.append(p[2])
        lst = os.path.join(d, "exports%s.list" % tmp)
        with open(lst, "w") as f:
            f.write("{ %s };\n" % " ".join(s + ";" for s in syms))
        run([CXX, rt, mn, "-o", exe + tmp, "-Wl,--dynamic-list=" + lst, "-Wl,-z,now", "-ldl", "-no-pie"])
        os.replace(exe + tmp, exe)
    for lib, objs in libs.values():
        if not os.path.exists(lib):
            # no -fsanitize when linking: the __tsan_* entry points are the simulator's
            run([CXX, "-shared", "-o", lib + tmp] + objs + [stub, "-Wl,-z,now", "-Wl,-Bsymbolic", "-Wl,--exclude-libs,ALL"])
            os.replace(lib + tmp, lib)
    return exe, {w: l[0] for w, l in libs.items()}


if __name__ == "__main__":
    print(*build(*(sys.argv[1:] or [w for w in WORKLOADS if os.path.exists("%s/wl/%s.cpp" % (VERIF, WORKLOADS[w][0]))])))
