#!/usr/bin/env python3
"""Decides one property by seeded simulation: build from /repo, search, gate, minimise, report.

usage: check.py PROP            search (VERIF_SEED, VERIF_TIER from the environment)
       check.py --replay FILE   replay a recorded violation (exit 1: reproduced)
       check.py --build         build all simulators
"""
import hashlib, json, os, re, signal, struct, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("T86_REPO", "/repo")
BUILD = os.environ.get("T86_SIM_BUILD", os.path.join(VERIF, "build"))
EVID = os.path.join(VERIF, "evidence")
REPLAYS = os.path.join(VERIF, "replays")
JOBS = int(os.environ.get("T86_SIM_JOBS", str(min(8, os.cpu_count() or 8))))

sys.path.insert(0, os.path.join(VERIF, "tools"))
from checks import CHECKS, BINARIES, ASSUMPTIONS  # noqa: E402


def die(msg, code=2):
    print("CHECK ERROR: " + msg, flush=True)
    sys.exit(code)


# ---------------------------------------------------------------- build
def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()


def read(p):
    with open(p, "rb") as f:
        return f.read()


def headers_digest(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in sorted(os.walk(d)):
            ds.sort()
            if os.path.basename(root) in ("tests", "_build"):
                ds[:] = []
                continue
            for f in sorted(fs):
                if f.endswith((".h", ".hpp", ".inc", ".tpp")):
                    h.update(os.path.join(root, f).encode())
                    h.update(read(os.path.join(root, f)))
    return h.hexdigest()


def build(name):
    b = BINARIES[name]
    src = os.path.join(REPO, "src")
    files = []
    for d in b["repo_dirs"]:
        for root, ds, fs in os.walk(os.path.join(src, d)):
            files += [os.path.join(root, f) for f in fs if f.endswith(".cpp") and f != "main.cpp"]
    cxx = b.get("cxx", "g++")
    inc = ["-I" + src, "-I" + os.path.join(src, "common"), "-I" + os.path.join(VERIF, "sim")] + ["-I" + os.path.join(src, d) for d in b.get("inc", [])]
    common = headers_digest([src, os.path.join(VERIF, "sim")])
    units = [(f, b["flags"]) for f in sorted(files)]
    rename = {}
    for f, as_name in b.get("mains", []):      # programs: their main function gets a name of its own
        if os.path.exists(os.path.join(src, f)):
            units.append((os.path.join(src, f), b["flags"]))
            rename[os.path.join(src, f)] = as_name
    post = {}
    for f, fl, oc in b.get("c_units", []):     # C sources with flags and changes to the object file
        if os.path.exists(os.path.join(src, f)):
            units.append((os.path.join(src, f), fl))
            post[os.path.join(src, f)] = oc
    for f in b["sim"]:
        fl = b["flags"] + b.get("sim_flags", {}).get(f, [])
        fl = [x for x in fl if x not in b.get("sim_drop", {}).get(f, [])]
        units.append((os.path.join(VERIF, "sim", f), fl))
    odir = os.path.join(BUILD, name)
    os.makedirs(odir, exist_ok=True)

    def one(u):
        f, fl = u
        cmd = ["gcc" if f.endswith(".c") else cxx] + fl + inc + ["-c", f]
        key = sha(common, read(f), " ".join(cmd), rename.get(f, ""), "exit=sim_main_exit" if f in rename else "", " ".join(post.get(f, [])))[:32]
        o = os.path.join(odir, os.path.basename(f) + "." + key + ".o")
        if not os.path.exists(o):
            tmp = o + ".tmp%d" % os.getpid()
            p = subprocess.run(cmd + ["-o", tmp], capture_output=True, text=True, cwd=src)
            if p.returncode:
                raise RuntimeError("cannot compile %s:\n%s" % (f, p.stderr[-4000:]))
            if f in rename:
                subprocess.run(["objcopy", "--redefine-sym", "main=" + rename[f], "--redefine-sym", "exit=sim_main_exit", tmp], check=True)
            if f in post:
                subprocess.run(["objcopy"] + post[f] + [tmp], check=True)
            os.rename(tmp, o)
        return o

    with ThreadPoolExecutor(JOBS) as ex:
        # biggest first, the sandbox has few cores
        units.sort(key=lambda u: -os.path.getsize(u[0]))
        objs = list(ex.map(one, units))
    key = sha(*sorted(objs), " ".join(b["link"]))[:32]
    exe = os.path.join(odir, "sim." + key)
    if not os.path.exists(exe):
        p = subprocess.run([cxx] + b["link_flags"] + sorted(objs) + b["link"] + ["-o", exe + ".tmp"], capture_output=True, text=True)
        if p.returncode:
            raise RuntimeError("cannot link %s:\n%s" % (name, p.stderr[-4000:]))
        os.rename(exe + ".tmp", exe)
    keep = set(objs) | {exe}
    for f in os.listdir(odir):
        p = os.path.join(odir, f)
        if p not in keep and (f.endswith(".o") or f.startswith("sim.")):
            try:
                os.unlink(p)
            except OSError:
                pass
    return exe


# ---------------------------------------------------------------- search
ENV = dict(os.environ, LC_ALL="C", ASAN_OPTIONS="", TMPDIR="/tmp")


def run_seed(base, prop, idx):
    """The run seed of an index (mirrors runSeed in runner.cpp)."""
    M = (1 << 64) - 1

    def fnv(s):
        h = 0xcbf29ce484222325
        for c in s.encode():
            h = ((h ^ c) * 0x100000001b3) & M
        return h

    def splitmix(s):
        s = (s + 0x9e3779b97f4a7c15) & M
        z = s
        z = ((z ^ (z >> 30)) * 0xbf58476d1ce4e5b9) & M
        z = ((z ^ (z >> 27)) * 0x94d049bb133111eb) & M
        return s, z ^ (z >> 31)
    s = ((base * 0x9e3779b97f4a7c15) & M) ^ fnv(prop) ^ ((idx * 0xd1342543de82ef95) & M)
    s, _ = splitmix(s)
    s, r = splitmix(s)
    return r


def sim(exe, *args, timeout=None, env=None):
    p = subprocess.run([exe] + [str(a) for a in args], capture_output=True, text=True, env=env or ENV, timeout=timeout, errors="replace")
    return p


def outcome(p):
    m = re.match(r"violated=(\d) kind=(.*) hash=(\d+)\n(.*)", p.stdout, re.S)
    if not m or p.returncode not in (0, 1):
        return None
    return dict(violated=m.group(1) == "1", kind=m.group(2), hash=m.group(3), detail=m.group(4).strip().split("\n")[0])


def search(exe, prop, seed, secs, workdir):
    """Runs the workers; returns (aggregate, first violation's run seed or None)."""
    procs = []
    for w in range(JOBS):
        out = os.path.join(workdir, "w%d" % w)
        err = open(out + ".err", "w")
        procs.append(dict(out=out, p=subprocess.Popen([exe, "search", prop, str(seed), str(w), str(JOBS), "1000000000", str(secs), out],
                                                      stdout=err, stderr=err, env=ENV), err=err))
    found = []
    live = list(procs)
    deadline = time.time() + secs + 240
    while live:
        time.sleep(0.05)
        for q in list(live):
            rc = q["p"].poll()
            if rc is None:
                continue
            live.remove(q)
            q["err"].close()
            if rc == 4:
                die("nondeterminism: " + open(q["out"] + ".err").read()[-500:])
            if rc == 3:
                die("harness error: " + open(q["out"] + ".err", errors="replace").read()[-2000:])
            if rc == 0:
                j = json.load(open(q["out"] + ".json"))
                if j["violated"]:
                    found.append(int(j["seed"]))
            else:  # died in a run: the violation is that run
                with open(q["out"] + ".rec", "rb") as f:
                    _, idx = struct.unpack("<QQ", f.read(16))
                found.append(run_seed(seed, prop, idx))
        if found or time.time() > deadline:
            for q in live:
                q["p"].send_signal(signal.SIGTERM)
            for q in live:
                q["p"].wait()
                q["err"].close()
            if not found:
                die("search did not finish in time")
            break
    agg = dict(runs=0, discarded=0, ticks=0, determinism_checked=0, nontrivial=0, count={}, samples=[])
    hashes = set()
    for q in procs:
        try:
            j = json.load(open(q["out"] + ".json"))
        except (OSError, ValueError):
            continue
        for k in ("runs", "discarded", "ticks", "determinism_checked", "nontrivial"):
            agg[k] += j[k]
        for k, v in j["count"].items():
            agg["count"][k] = agg["count"].get(k, 0) + v
        if len(agg["samples"]) < 3:
            agg["samples"] += j["samples"][:1]
        try:
            b = read(q["out"] + ".hashes")
            hashes.update(struct.unpack("<%dQ" % (len(b) // 8), b))
        except OSError:
            pass
    agg["distinct"] = len(hashes)
    return agg, found


def confirm(exe, prop, seed, workdir):
    """Gate: the violation must happen twice alike from the seed and again from its recording in fresh processes."""
    raw = os.path.join(workdir, "raw.replay")
    a = outcome(sim(exe, "record", prop, seed, raw))
    b = outcome(sim(exe, "record", prop, seed, raw))
    if not a or not b or not a["violated"] or a["kind"] != b["kind"] or a["hash"] != b["hash"]:
        die("violation with seed %d does not reproduce: %s / %s" % (seed, a, b))
    c = outcome(sim(exe, "replay", raw))
    if not c or not c["violated"] or c["kind"] != a["kind"]:
        die("recording of seed %d does not replay: %s / %s" % (seed, a, c))
    os.makedirs(REPLAYS, exist_ok=True)
    out = os.path.join(REPLAYS, "%s-%016x.replay" % (prop, seed))
    mini = os.path.join(workdir, "min.replay")
    m = sim(exe, "minimise", raw, mini, 40)
    d = outcome(sim(exe, "replay", mini)) if m.returncode == 0 else None
    if d and d["violated"] and d["kind"] == a["kind"]:
        os.replace(mini, out)
        a["minimised"] = m.stdout.strip()
        a["detail"] = d["detail"]
    else:
        os.replace(raw, out)
    return out, a


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get("property") == prop and k.get("status") == "open"]


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        prop = re.search(r"^property (\S+)", open(sys.argv[2]).read(), re.M).group(1)
        exe = build(CHECKS[prop]["binary"])
        p = sim(exe, "replay", sys.argv[2], "v")
        print(p.stdout, p.stderr)
        sys.exit(p.returncode)
    if len(sys.argv) >= 2 and sys.argv[1] == "--build":
        for n in BINARIES:
            build(n)
        return
    prop = sys.argv[1]
    c = CHECKS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    try:
        exe = build(c["binary"])
    except RuntimeError as e:
        die(str(e))
    t1 = time.time()
    secs = float(os.environ.get("T86_SIM_SECONDS", c[tier]))
    workdir = os.path.join(BUILD, "work-%s-%d" % (prop, os.getpid()))
    os.makedirs(workdir, exist_ok=True)
    print("property %s tier %s VERIF_SEED %d: built in %.1f s, searching for %.0f s on %d workers" % (prop, tier, seed, t1 - t0, secs, JOBS), flush=True)
    rc, violations, msgs = 0, 0, []
    try:
        kf = known_findings(prop)
        for k in kf:  # a listed finding is tolerated in the search, and shown by its own replay
            o = outcome(sim(exe, "replay", os.path.join(VERIF, k["replay"]), env=dict(ENV, T86_SIM_STRICT="1")))
            if o and o["violated"] and o["kind"] == k["kind"]:
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]), flush=True)
        agg, found = search(exe, prop, seed, secs, workdir)
        t2 = time.time()
        if found:
            violations = 1
            path, a = confirm(exe, prop, found[0], workdir)
            print("kind: %s\n%s" % (a["kind"], a["detail"]))
            if "minimised" in a:
                print(a["minimised"])
            print("run seed %d" % found[0])
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
            rc = 1
        missing = [p for p in c["probes"] if not agg["count"].get(p)] if not found else []
        if missing and tier == "quick" and secs >= 10:
            print("note: probes never hit in this run: " + ", ".join(missing))
        wall = max(t2 - t1, 1e-6)
        cov = dict(
            evaluations=agg["runs"], distinct_nontrivial=agg["distinct"], rule=c["rule"], samples=agg["samples"] or ["none"],
            simulated_runs_per_hour=int(agg["runs"] / wall * 3600), seeds_per_hour=int((agg["runs"]) / wall * 3600),
            simulated_time=dict(unit=c["time_unit"], total=agg["ticks"]),
            discarded_runs=agg["discarded"], determinism_double_runs=agg["determinism_checked"],
            faults_injected={k[6:]: v for k, v in sorted(agg["count"].items()) if k.startswith("fault.")},
            timing_perturbations={k[7:]: v for k, v in sorted(agg["count"].items()) if k.startswith("jitter.")},
            events={k: v for k, v in sorted(agg["count"].items()) if not k.startswith(("fault.", "jitter."))},
            probes_never_hit=missing, distinctness_measure=c["measure"], real_components=c["real"], stub_components=c["stub"],
            search_seconds=round(wall, 1), build_seconds=round(t1 - t0, 1))
        os.makedirs(EVID, exist_ok=True)
        ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov, assumptions=ASSUMPTIONS + c.get("assumptions", []),
                  wall_s=round(time.time() - t0, 1), violations=violations)
        with open(os.path.join(EVID, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%d runs, %d distinct and non-trivial, %d %s simulated" % (agg["runs"], agg["distinct"], agg["ticks"], c["time_unit"]))
        if not found and agg["distinct"] == 0:
            die("no non-trivial run")
    finally:
        subprocess.run(["rm", "-rf", workdir])
    sys.exit(rc)


if __name__ == "__main__":
    main()
