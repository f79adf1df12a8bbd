"""Builds the simulator and the instrumented FairMQ from /repo's working tree with ninja."""
import fcntl, glob, os, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

DEFS = "-DBOOST_ERROR_CODE_HEADER_ONLY -DBOOST_ASIO_HAS_HAS_STD_CHRONO -DFAIRMQ_HAS_STD_FILESYSTEM=1 -DFAIRMQ_HAS_STD_PMR=1"
INC = f"-I{VERIF}/sim/stubs -I{VERIF}/sim/core -I{REPO} -I{REPO}/fairmq"
WARN = "-w"
# compile these first: they take longest
SLOW = ["Properties", "TransportFactory", "ProgOptions", "shmem_Manager", "StateMachine", "shmem_Monitor", "tools_Process", "Channel"]

def sources():
    out = {}
    for pat in ("*.cxx", "shmem/*.cxx", "tools/*.cxx", "plugins/*/*.cxx"):
        for f in sorted(glob.glob(f"{REPO}/fairmq/{pat}")):
            if os.path.basename(f).startswith("run"):
                continue
            out[os.path.relpath(f, f"{REPO}/fairmq")[:-4].replace("/", "_")] = f
    return out

# which part of FairMQ a property's simulation needs to compile (None: everything)
def write_ninja(props):
    """props: {property: {"wl": [workload source names], "fmq": [object names] or None}}"""
    os.makedirs(BUILD, exist_ok=True)
    src = sources()
    L = []
    w = L.append
    w("ninja_required_version = 1.5")
    w(f"builddir = {BUILD}")
    w(f"rule sim\n  command = g++ -std=c++17 -O2 -g1 -fPIC {WARN} {INC} -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc")
    w(f"rule fmq\n  command = g++ -std=c++17 -O1 -fPIC -fsanitize=thread {WARN} {INC} {DEFS} -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc")
    w("rule solib\n  command = g++ -shared -Wl,-Bsymbolic -o $out $in -ldl -lpthread")
    w("rule ar\n  command = rm -f $out && ar rcs $out $in")
    w("rule exe\n  command = g++ -o $out $in -Wl,-rpath,'$$ORIGIN' -L. $libs $wrap -lboost_program_options -lboost_filesystem -lboost_regex -lboost_system -ldl -lrt -lpthread")
    order = sorted(src, key=lambda n: (SLOW.index(n) if n in SLOW else 99, n))
    for n in order:
        w(f"build {BUILD}/fmq/{n}.o: fmq {src[n]}")
    core = []
    for n in ("sim", "interpose", "zmq", "run"):
        w(f"build {BUILD}/core/{n}.o: sim {VERIF}/sim/core/{n}.cc")
        core.append(f"{BUILD}/core/{n}.o")
    w(f"build {BUILD}/libsim.so: solib {' '.join(core)}")
    wls = sorted({x for p in props.values() for x in p["wl"]} | {"main"})
    for x in wls:
        w(f"build {BUILD}/wl/{x}.o: fmq {VERIF}/sim/workloads/{x}.cc")
    for p, d in props.items():
        names = order if d.get("fmq") is None else [n for n in order if n in d["fmq"]]
        objs = [f"{BUILD}/fmq/{n}.o" for n in names]
        wl = [f"{BUILD}/wl/{x}.o" for x in ["main"] + d["wl"]]
        if objs:
            w(f"build {BUILD}/fmq_{p}.a: ar {' '.join(objs)}")
            arch = f" {BUILD}/fmq_{p}.a"
        else:
            arch = ""
        w(f"build {BUILD}/sim_{p}: exe {' '.join(wl)}{arch} {BUILD}/libsim.so")
        if d.get("wrap"):
            w("  wrap = " + " ".join("-Wl,--wrap=" + s for s in d["wrap"]))
    path = f"{BUILD}/build.ninja"
    text = "\n".join(L) + "\n"
    if not os.path.exists(path) or open(path).read() != text:
        with open(path, "w") as f:
            f.write(text)
    return path

def build(props, which):
    os.makedirs(BUILD, exist_ok=True)
    with open(f"{BUILD}/.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        path = write_ninja(props)
        r = subprocess.run(["ninja", "-f", path, "-C", BUILD, "-j", str(os.cpu_count() or 8)] + [f"{BUILD}/sim_{p}" for p in which],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:])
        return False
    return True
