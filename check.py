#!/usr/bin/env python3
"""Deterministic-simulation check of one property.

usage: check.py <property> [--tier quick|thorough] [--time S] [--runs N] [--replay FILE] [--seed N --workload W [--verbose]]
"""
import argparse, atexit, hashlib, json, os, queue, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build as B
from props import PROPS

BUILD = B.BUILD
STREAMS = ["G", "F", "N", "S", "A", "B", "C"]
REAL = "real code: FairMQ sources of /repo compiled for the property (state machine, channels, transports, managers, configuration, plugins as needed), boost, libstdc++"
STUB = ("simulated: scheduler and all pthread/semaphore/once primitives, clocks, sleeps, libzmq, POSIX shared memory namespace, "
        "signals, stdin, randomness, FairLogger")


SCRATCH = None


def scratch():
    global SCRATCH
    if SCRATCH is None:
        SCRATCH = tempfile.mkdtemp(prefix="fmqsim-")
        atexit.register(shutil.rmtree, SCRATCH, True)
    return tempfile.mkdtemp(dir=SCRATCH)


class Zygote:
    def __init__(self, exe, cpu):
        self.exe, self.cpu = exe, cpu
        self.start()

    def start(self):
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, cwd="/", bufsize=1 << 16,
                                  env=dict(os.environ, FMQSIM_SCRATCH=scratch()))
        try:
            os.sched_setaffinity(self.p.pid, {self.cpu})
        except OSError:
            pass

    def cmd(self, text):
        self.p.stdin.write(text.encode())
        self.p.stdin.flush()

    def list(self):
        self.cmd("list\n")
        out = []
        while True:
            l = self.p.stdout.readline().decode().strip()
            if l == "." or not l:
                return out
            out.append(l.split())

    def run(self, prop, wl, seed, params=None, replay=None, verbose=False, trace=False):
        t = ""
        if replay is not None:
            t = "clear\n" + "".join(f"t {s} {i} {v}\n" for s, i, v in sorted(replay))
        t += f"run {prop} {wl} {seed}"
        if replay is not None:
            t += " replay"
        if verbose:
            t += " verbose"
        if trace:
            t += " trace"
        for k, v in sorted((params or {}).items()):
            t += f" {k}={v}"
        self.cmd(t + "\n")
        while True:
            l = self.p.stdout.readline()
            if not l:
                self.start()
                return {"status": "error", "class": "zygote-died", "msg": "simulator process ended", "hash": "0"}
            l = l.strip()
            if not l:
                continue
            try:
                r = json.loads(l)
            except ValueError:
                continue
            r["workload"], r["seed"] = wl, seed
            return r

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(timeout=10)
        except Exception:
            self.p.kill()


def seed_for(base, prop, i):
    return int.from_bytes(hashlib.sha256(f"{base}/{prop}/{i}".encode()).digest()[:7], "big")


def known_findings():
    try:
        with open(os.path.join(VERIF, "known_findings.json")) as f:
            return [k for k in json.load(f) if not str(k.get("status", "")).startswith("fixed")]
    except FileNotFoundError:
        return []


def match_known(kf, prop, r):
    for k in kf:
        if k["property"] != prop:
            continue
        if k.get("workload") and not re.fullmatch(k["workload"], r.get("workload", "")):
            continue
        if not re.fullmatch(k.get("class", ".*"), r.get("class", "")):
            continue
        if k.get("message") and not re.search(k["message"], r.get("msg", ""), re.S):
            continue
        return k
    return None


def minimise(zs, prop, r, budget):
    """ddmin over the recorded non-default choices; keeps the violation class. Uses all zygotes."""
    end = time.time() + budget
    wl, seed, cls = r["workload"], r["seed"], r["class"]
    cur = [tuple(x) for x in r["trace"]]
    best = r
    runs = 0
    pool = queue.Queue()
    for z in zs:
        pool.put(z)

    def test(cand):
        z = pool.get()
        try:
            return z.run(prop, wl, seed, replay=cand)
        finally:
            pool.put(z)

    def batch(cands):
        res = [None] * len(cands)
        def work(i):
            res[i] = test(cands[i])
        ts = [threading.Thread(target=work, args=(i,)) for i in range(len(cands))]
        [t.start() for t in ts]
        [t.join() for t in ts]
        return res

    def good(x):
        return x and x["status"] == "violation" and x["class"] == cls

    # whole streams first (cheapest simplification), then ddmin
    for s in (4, 3, 5, 6, 2, 1, 0):
        if time.time() > end:
            break
        cand = [e for e in cur if e[0] != s]
        if len(cand) < len(cur):
            x = test(cand)
            runs += 1
            if good(x):
                cur, best = cand, x
    n = 2
    w = len(zs)
    while len(cur) >= 1 and time.time() < end:
        n = min(n, len(cur))
        size = -(-len(cur) // n)
        chunks = [(i, min(i + size, len(cur))) for i in range(0, len(cur), size)]
        found = False
        for b in range(0, len(chunks), w):
            if time.time() > end:
                break
            cs = chunks[b:b + w]
            cands = [cur[:i] + cur[j:] for i, j in cs]
            res = batch(cands)
            runs += len(cands)
            ok = [k for k, x in enumerate(res) if good(x)]
            if ok:
                # drop as many of the individually droppable chunks as possible together
                drop = set()
                for k in ok:
                    drop.update(range(*cs[k]))
                if len(ok) > 1:
                    cand = [e for q, e in enumerate(cur) if q not in drop]
                    x = test(cand)
                    runs += 1
                    if good(x):
                        cur, best, found = cand, x, True
                        break
                i, j = cs[ok[0]]
                cur, best, found = cur[:i] + cur[j:], res[ok[0]], True
                break
        if found:
            n = max(n - 1, 2)
        elif n >= len(cur):
            break
        else:
            n = min(len(cur), n * 2)
    return cur, best, runs


def demangle(text):
    try:
        return subprocess.run(["c++filt"], input=text, capture_output=True, text=True).stdout
    except Exception:
        return text


def write_replay(path, prop, r, table, seed0, note):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        json.dump({"property": prop, "workload": r["workload"], "seed": r["seed"], "verif_seed": seed0,
                   "class": r["class"], "message": demangle(r["msg"]), "hash": r["hash"], "note": note,
                   "choices": [[STREAMS[s], i, v] for s, i, v in sorted(table)],
                   "streams": "G workload, F faults, N network, S preemption at synchronisation point, A preemption at memory access "
                              "(value = thread+1 | stall_us<<12), B who runs when the running thread blocks (thread+1), C wake-up order",
                   "history": r.get("history", []), "log": r.get("log", [])}, f, indent=1)


def build(prop):
    if B.build(PROPS, [prop]):
        return True
    if PROPS[prop].get("fmq") is None:
        return False
    # the code may have moved to other files: compile everything
    return B.build({**PROPS, prop: {**PROPS[prop], "fmq": None}}, [prop])


def replay_file(path):
    with open(path) as f:
        d = json.load(f)
    prop = d["property"]
    if not build(prop):
        print("ERROR: build failed")
        return 2
    z = Zygote(f"{BUILD}/sim_{prop}", 0)
    table = [(STREAMS.index(s), i, v) for s, i, v in d["choices"]]
    r = z.run(prop, d["workload"], d["seed"], replay=table, verbose=True)
    z.close()
    print(json.dumps({k: v for k, v in r.items() if k not in ("history", "log", "trace")}, indent=1))
    print("\n".join(r.get("history", [])))
    print("--- log\n" + "\n".join(r.get("log", [])))
    print(demangle(r.get("msg", "")))
    same = r["status"] == "violation" and r["class"] == d["class"]
    print(("REPRODUCED" if same else "NOT REPRODUCED") + f" class={r.get('class')} hash={r.get('hash')} recorded hash={d['hash']}")
    return 1 if same else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--time", type=float)
    ap.add_argument("--runs", type=int, default=0)
    ap.add_argument("--replay")
    ap.add_argument("--workload")
    ap.add_argument("--seed", type=int)
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--no-min", action="store_true")
    ap.add_argument("--all", action="store_true", help="collect all violation classes instead of stopping at the first")
    ap.add_argument("--param", action="append", default=[])
    a = ap.parse_args()
    if a.replay:
        return replay_file(a.replay)
    t0 = time.time()
    prop = a.property
    base = int(os.environ.get("VERIF_SEED", "1"))
    if prop not in PROPS:
        print(f"unknown property {prop}")
        return 2
    if not build(prop):
        print("ERROR: build failed")
        return 2
    t_build = time.time() - t0
    exe = f"{BUILD}/sim_{prop}"
    params = dict(p.split("=") for p in a.param)
    if a.seed is not None:
        z = Zygote(exe, 0)
        r = z.run(prop, a.workload, a.seed, params, verbose=a.verbose, trace=a.verbose)
        hist, log = r.pop("history", []), r.pop("log", [])
        tr = r.pop("trace", [])
        r["msg"] = demangle(r.get("msg", ""))
        print("\n".join(hist))
        if a.verbose:
            print("--- log\n" + "\n".join(log))
        print(json.dumps(r, indent=1), len(tr))
        z.close()
        return 0
    budget = a.time or (PROPS[prop].get("quick_s", 30) if a.tier == "quick" else PROPS[prop].get("thorough_s", 600))
    cpus = sorted(os.sched_getaffinity(0))
    zs = [Zygote(exe, c) for c in cpus]
    wls = [(n, float(w)) for p, n, w in zs[0].list() if p == prop and (not a.workload or n == a.workload)]
    if not wls:
        print("no workload")
        return 2
    sched = []
    for n, w in wls:
        sched += [n] * max(1, round(w * 4))
    sched.sort(key=lambda n: hashlib.md5(n.encode()).hexdigest())
    # interleave workloads evenly
    order, cnt = [], {n: 0.0 for n, _ in wls}
    tot = sum(w for _, w in wls)
    for _ in range(64 * len(wls)):
        n = max(wls, key=lambda x: x[1] / tot * (len(order) + 1) - cnt[x[0]])[0]
        cnt[n] += 1
        order.append(n)

    kf = known_findings()
    lock = threading.Lock()
    st = {"i": 0, "stop": False}
    runs, hashes, faults, probes, errors, viol, known = 0, set(), {}, {}, [], [], {}
    per_wl, samples, vtime, steps, switches, accesses, policies = {}, [], 0, 0, 0, 0, {}
    hash_of, nontrivial = {}, set()
    t_sim = time.time()
    deadline = t_sim + budget
    recheck = queue.Queue()
    rechecked = 0
    allclasses = {}

    def account(r):
        nonlocal runs, vtime, steps, switches, accesses
        runs += 1
        hashes.add(r["hash"])
        if r.get("switches", 0) >= 4:
            nontrivial.add(r["hash"])
        per_wl[r["workload"]] = per_wl.get(r["workload"], 0) + 1
        for k, v in r.get("faults", {}).items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r.get("probes", {}).items():
            probes[k] = probes.get(k, 0) + 1
        vtime += r.get("vtime_ns", 0)
        steps += r.get("steps", 0)
        switches += r.get("switches", 0)
        accesses += r.get("accesses", 0)
        policies[r.get("policy", 0)] = policies.get(r.get("policy", 0), 0) + 1
        if len(samples) < 6:
            samples.append({k: r.get(k) for k in ("workload", "seed", "hash", "switches", "steps", "vtime_ns", "faults")})

    def worker(zi, z):
        nonlocal rechecked
        while True:
            job = None
            with lock:
                if st["stop"] or time.time() > deadline or (a.runs and st["i"] >= a.runs):
                    break
                # determinism self-check: repeat runs made by another process
                if not recheck.empty():
                    oz, wl, seed, h = recheck.queue[0]
                    if oz != zi:
                        recheck.get()
                        job = ("re", wl, seed, h)
                if job is None:
                    i = st["i"]
                    st["i"] += 1
                    job = ("new", order[i % len(order)], seed_for(base, prop, i), i)
            r = z.run(prop, job[1], job[2], params)
            with lock:
                if job[0] == "re":
                    rechecked += 1
                    if r["hash"] != job[3]:
                        errors.append(f"nondeterminism: {job[1]} seed {job[2]} hash {job[3]} then {r['hash']}")
                        st["stop"] = True
                    continue
                account(r)
                if r["status"] == "error":
                    errors.append(f"{job[1]} seed {job[2]}: {r['class']} {r['msg']}")
                    if len(errors) > 3:
                        st["stop"] = True
                elif r["status"] == "violation":
                    k = match_known(kf, prop, r)
                    if k:
                        known.setdefault(k["id"], [k, 0])[1] += 1
                        continue
                    viol.append(r)
                    c = allclasses.setdefault(r["class"] + " [" + job[1] + "]", [0, r])
                    c[0] += 1
                    if not a.all:
                        st["stop"] = True
                if job[0] == "new" and (job[3] < 24 or job[3] % 50 == 0):
                    recheck.put((zi, job[1], job[2], r["hash"]))

    ths = [threading.Thread(target=worker, args=(i, z)) for i, z in enumerate(zs)]
    [t.start() for t in ths]
    [t.join() for t in ths]
    t_search = time.time() - t_sim

    if a.all:
        for c, (n, r) in sorted(allclasses.items(), key=lambda x: -x[1][0]):
            print(f"{n:5d} {c} seed {r['seed']}\n      {demangle(r['msg'])[:1500]}")

    rc = 0
    vline = None
    if viol and not errors:
        r0 = min(viol, key=lambda r: len(r.get("trace", [])))
        # gate: same seed in a fresh process gives the same execution, and so does the recorded choice table
        z = Zygote(exe, cpus[0])
        again = z.run(prop, r0["workload"], r0["seed"], params)
        table = [tuple(x) for x in r0["trace"]]
        rep = z.run(prop, r0["workload"], r0["seed"], params, replay=table)
        z.close()
        if again["hash"] != r0["hash"] or again["class"] != r0["class"]:
            errors.append(f"violation of {r0['workload']} seed {r0['seed']} did not repeat: {r0['class']} {r0['hash']} / {again['class']} {again['hash']}")
        elif rep["status"] != "violation" or rep["class"] != r0["class"]:
            errors.append(f"replay of {r0['workload']} seed {r0['seed']} gave {rep['status']} {rep['class']} instead of {r0['class']}")
        else:
            if a.no_min:
                table, best, mruns = table, rep, 0
            else:
                table, best, mruns = minimise(zs, prop, rep, 30 if a.tier == "quick" else 120)
            z = Zygote(exe, cpus[0])
            fin = z.run(prop, r0["workload"], r0["seed"], params, replay=table, verbose=True)
            z.close()
            if fin["status"] != "violation" or fin["class"] != r0["class"]:
                errors.append(f"minimised replay gave {fin['status']} {fin['class']}")
            else:
                path = os.path.join(VERIF, "replays", f"{prop}-{r0['class'].replace('/', '_').replace(' ', '_')[:60]}-{r0['seed']}.json")
                write_replay(path, prop, fin, table, base, f"minimised from {len(r0['trace'])} to {len(table)} choices in {mruns} runs")
                print(f"violation: {prop} workload {r0['workload']} seed {r0['seed']} class {r0['class']}")
                print(demangle(fin["msg"]))
                print("history:\n  " + "\n  ".join(fin.get("history", [])[-60:]))
                print(f"choices: {len(r0['trace'])} -> {len(table)}")
                vline = f"VIOLATION property={prop} replay={path}"
                rc = 1
    for z in zs:
        z.close()
    if errors:
        for e in errors[:5]:
            print("ERROR: " + demangle(e))
        rc = 2
    for kid, (k, n) in sorted(known.items()):
        print(f"KNOWN-FINDING: property={prop} {k['what']} (id {kid}, seen in {n} runs)")

    ev = {"property": prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": base, "level": "exploration",
          "coverage": {
              "evaluations": runs,
              "distinct_nontrivial": len(nontrivial),
              "rule": "one case = one simulated run of a generated workload under a seeded schedule and fault sequence; non-trivial = at least "
                      "4 thread switches; distinct = different hash over all context switches (who, to whom, after how many synchronisation "
                      "operations) and history events",
              "samples": samples,
              "distinct_interleavings": len(hashes),
              "runs_per_hour": round(runs / max(t_search, 1e-9) * 3600),
              "seeds_per_hour": round(runs / max(t_search, 1e-9) * 3600),
              "simulated_time_s": round(vtime / 1e9, 3),
              "scheduling_points": steps, "context_switches": switches, "memory_access_points": accesses,
              "workloads": per_wl, "faults_injected": faults, "conditions_reached_in_runs": probes,
              "scheduler_policies": {"random": policies.get(0, 0), "priority (PCT)": policies.get(1, 0)},
              "determinism_rechecks": rechecked, "known_findings_seen": {k: v[1] for k, v in known.items()},
              "components": {"real": REAL, "simulated": STUB},
              "build_s": round(t_build, 1)},
          "assumptions": ["the simulated libzmq, POSIX primitives and shared memory namespace behave like the real ones in the respects the property depends on",
                          "sequentially consistent memory: weak-memory reorderings are not simulated",
                          "sampled, not exhaustive"],
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop}: {runs} runs in {t_search:.1f}s ({len(hashes)} distinct), {vtime / 1e9:.1f}s simulated, build {t_build:.1f}s, "
          f"rechecked {rechecked}, faults {faults}, probes {probes}, workloads {per_wl}")
    if vline:
        print(vline)
    return rc


if __name__ == "__main__":
    sys.exit(main())
