#!/usr/bin/env python3
"""Decides one property of Spine by deterministic simulation.

  check.py C01                 search (VERIF_SEED, VERIF_TIER=quick|thorough)
  check.py --replay FILE       run a replay file, exit 1 when it reproduces the violation
  check.py --build             build everything (setup)
  check.py --determinism       run many seeds twice at different worker counts and compare every run
"""
import argparse, hashlib, json, os, shutil, struct, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SPINE_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
JOBS = os.cpu_count() or 4

sys.path.insert(0, HERE)
from checks import CHECKS, CONFIGS, ALWAYS, REAL, STUBS  # noqa: E402

WRAPS = ["-Wl,--wrap=_ZN3spn8platform17MockStateInstanceEv", "-Wl,--wrap=malloc", "-Wl,--wrap=calloc",
         "-Wl,--wrap=realloc", "-Wl,--wrap=free"]
BASE = ["-std=gnu++17", "-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-w", "-DUNITTEST",
        "-I", os.path.join(HERE, "sim")]


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def walk(root, exts):
    out = []
    for d, _, files in os.walk(root):
        out += [os.path.join(d, f) for f in files if f.endswith(exts)]
    return sorted(out)


def variant(c, cfg):
    """What a check runs in a configuration: share of the effort, source files and scenarios."""
    v = c["configs"][cfg]
    if not isinstance(v, dict):
        v = {"share": v}
    return v["share"], v.get("files", c["files"]), v.get("scenarios", c["scenarios"]), v.get("optional", False)


def build(config, scenarios):
    """Builds the real code of /repo's working tree together with the given scenario files. Returns the binary."""
    cfg = CONFIGS[config]
    src = os.path.join(REPO, "src")
    headers = walk(src, (".hpp", ".h")) + walk(os.path.join(HERE, "sim"), (".hpp", ".h")) \
        + walk(os.path.join(HERE, "scenarios"), (".hpp", ".h"))
    hkey = sha(*[x for h in headers for x in (os.path.relpath(h, "/"), read(h))])
    units = [c for c in walk(src, (".cpp",)) if os.path.relpath(c, src) != "main.cpp"
             and not any(c.endswith(x) for x in cfg.get("exclude", []))]
    units += [os.path.join(HERE, "sim", x) for x in ["sim.cpp"] + cfg["seams"]]
    units += [os.path.join(HERE, "scenarios", s + ".cpp") for s in scenarios]
    flags = BASE + ["-I", src] + cfg["flags"]
    for i in cfg.get("include", []):
        flags += ["-I", os.path.join(HERE, "sim", i)]
    objdir = os.path.join(BUILD, "obj")
    os.makedirs(objdir, exist_ok=True)
    todo, objs = [], []
    for u in units:
        o = os.path.join(objdir, sha(hkey, u, read(u), " ".join(flags)) + ".o")
        objs.append(o)
        if not os.path.exists(o):
            todo.append((u, o))
    # biggest first
    todo.sort(key=lambda t: -os.path.getsize(t[0]))

    def compile_one(t):
        u, o = t
        tmp = o + ".%d.tmp" % os.getpid()
        r = subprocess.run(["g++"] + flags + ["-c", u, "-o", tmp], capture_output=True, text=True)
        if r.returncode:
            raise BuildError("%s\n%s" % (u, r.stderr[-3000:]))
        os.rename(tmp, o)

    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(compile_one, todo))
    binary = os.path.join(BUILD, "bin-" + sha(*objs, *(WRAPS + cfg.get("link", []))))
    if not os.path.exists(binary):
        tmp = binary + ".%d.tmp" % os.getpid()
        r = subprocess.run(["g++", "-fsanitize=address"] + WRAPS + cfg.get("link", []) + objs + ["-o", tmp],
                           capture_output=True, text=True)
        if r.returncode:
            raise BuildError(r.stderr[-3000:])
        os.rename(tmp, binary)
    return binary


def prune():
    """Keeps the build folder small."""
    if not os.path.isdir(BUILD):
        return
    files = [os.path.join(d, f) for d, _, fs in os.walk(BUILD) for f in fs]
    files.sort(key=lambda f: -os.path.getmtime(f))
    total = 0
    for f in files:
        total += os.path.getsize(f)
        if total > 1 << 30:
            os.unlink(f)


def known_findings():
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: "):
                kv = {}
                rest = line[7:]
                for key in ("property", "class"):
                    head, _, rest = rest.partition(" ")
                    kv[head.split("=", 1)[0]] = head.split("=", 1)[1]
                kv["what"] = rest
                out.append(kv)
    return out


def run_batch(binary, prop, scenarios, seed, count, max_s, only, workdir, tag, workers=JOBS, dump=False, shrink=20):
    procs = []
    for w in range(workers):
        out = os.path.join(workdir, "%s.%d" % (tag, w))
        cmd = [binary, "run", "--property", prop, "--scenarios", ",".join(scenarios), "--seed", str(seed), "--from",
               str(w), "--stride", str(workers), "--count", str(count), "--max-seconds", str(max_s),
               "--shrink-seconds", str(shrink), "--only", ",".join(only), "--out", out]
        if dump:
            cmd += ["--dump", out + ".dump"]
        procs.append((out, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace")))
    res = []
    for out, p in procs:
        _, err = p.communicate()
        if p.returncode != 0:
            raise RuntimeError("worker failed (%d): %s" % (p.returncode, err[-2000:]))
        with open(out) as f:
            d = json.load(f)
        d["hashes"] = set(struct.unpack("<%dQ" % (os.path.getsize(out + ".hashes") // 8), read(out + ".hashes")))
        d["states"] = int.from_bytes(read(out + ".states"), "little")
        res.append(d)
    return res


def replay_tape(binary, prop, scenario, seed, tape, trace=None):
    tf = os.path.join(BUILD, "tape.%d" % os.getpid())
    with open(tf, "w") as f:
        f.write("seed %d\n" % seed)
        for seg in tape:
            f.write("seg " + " ".join(map(str, seg)) + "\n")
    cmd = [binary, "replay", "--property", prop, "--scenario", scenario, "--tape", tf, "--only",
           ",".join(CHECKS[prop]["only"] + ALWAYS)]
    if trace:
        cmd += ["--trace", trace]
    r = subprocess.run(cmd, capture_output=True, text=True)
    os.unlink(tf)
    if r.returncode:
        raise RuntimeError("replay failed: " + r.stderr[-1000:])
    return json.loads(r.stdout)


def do_check(prop):
    t_start = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    c = CHECKS[prop]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    workdir = os.path.join(BUILD, "work.%d" % os.getpid())
    os.makedirs(workdir, exist_ok=True)
    only = c["only"] + ALWAYS
    batches, samples, violation, known_hit = [], [], None, {}
    known = [k for k in known_findings() if k["property"] == prop]
    for k in known:
        only = [o for o in only]
    try:
        # build all configurations first, in parallel they would only compete for the cores
        binaries, skipped = {}, []
        for cfg in c["configs"]:
            _, files, _, optional = variant(c, cfg)
            try:
                binaries[cfg] = build(cfg, files)
            except BuildError as e:
                # another platform than the one that tests run on: whether it builds at all is decided by C20 and C21
                if not optional:
                    raise
                skipped.append("%s: %s" % (cfg, str(e)[:300]))
        for cfg in binaries:
            share, _, scenarios, _ = variant(c, cfg)
            count = int(c["runs"] * share * (1 if tier == "quick" else 25))
            max_s = (60 if tier == "quick" else 1200) * share
            tag = "%s.%s" % (prop, cfg)
            res = run_batch(binaries[cfg], prop, scenarios, seed, count, max_s, only, workdir, tag)
            batches.append((cfg, res))
            vs = sorted([(d["violation"]["index"], d["violation"]) for d in res if d["violation"]], key=lambda x: x[0])
            if vs and not violation:
                violation = (cfg, vs[0][1])
            if not samples or len(samples) < 2:
                for s in list(dict.fromkeys(scenarios))[:2]:
                    trace = os.path.join(workdir, "sample")
                    r = replay_tape(binaries[cfg], prop, s, seed * 7919 + len(samples), [], trace)
                    lines = open(trace, errors="replace").read().splitlines()
                    samples.append({"config": cfg, "scenario": s, "seed": seed * 7919 + len(samples),
                                    "outcome": r["cls"] or "held", "hash": r["hash"], "events": len(lines),
                                    "first_events": lines[:25]})
            if violation:
                break
        wall = time.time() - t_start
        ev = evidence(prop, tier, seed, c, batches, samples, wall, violation)
        if skipped:
            ev["coverage"]["configurations_that_did_not_build"] = skipped
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        if not violation:
            print("%s held: %d runs, %d distinct non-trivial, %.1f s" % (
                prop, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], wall))
            return 0
        cfg, v = violation
        if not v["same_seed_same_run"]:
            print("ERROR: seed %d of %s did not give the same run twice (%s)" % (v["seed"], prop, v["msg"]),
                  file=sys.stderr)
            return 2
        path = os.path.join(HERE, "replays", "%s-%d-%d.json" % (prop, seed, v["index"]))
        trace = os.path.join(workdir, "trace")
        r = replay_tape(binaries[cfg], prop, v["scenario"], v["seed"], v["tape"], trace)
        if not r["violated"] or r["cls"] != v["cls"] or r["hash"] != v["hash"]:
            # last resort: the run as generated
            print("ERROR: the minimised run of %s did not reproduce in a fresh process: %s / %s" % (prop, v, r),
                  file=sys.stderr)
            return 2
        with open(path, "w") as f:
            json.dump({"property": prop, "config": cfg, "scenario": v["scenario"], "seed": v["seed"], "class": v["cls"],
                       "message": v["msg"], "hash": v["hash"], "steps_found": v["steps"],
                       "steps_minimised": v["min_steps"], "tape": v["tape"],
                       "trace": open(trace, errors="replace").read().splitlines()}, f, indent=1)
        print("%s: %s" % (v["cls"], v["msg"]))
        print("seed=%d index=%d scenario=%s config=%s, minimised from %d to %d steps" % (
            v["seed"], v["index"], v["scenario"], cfg, v["steps"], v["min_steps"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    finally:
        shutil.rmtree(workdir, ignore_errors=True)
        prune()


def evidence(prop, tier, seed, c, batches, samples, wall, violation):
    runs = sum(d["runs"] for _, r in batches for d in r)
    nontriv = set()
    for cfg, r in batches:
        for d in r:
            nontriv |= {(cfg, h) for h in d["hashes"]}
    states = 0
    for _, r in batches:
        for d in r:
            states |= d["states"]
    sim_s = sum(d["sim_s"] for _, r in batches for d in r)
    busy = sum(max(d["wall_s"] for d in r) for _, r in batches) or 1e-9
    faults, probes, ignored = {}, {}, {}
    for _, r in batches:
        for d in r:
            for k in d["counters"]:
                t = (faults, probes)[k["kind"]].setdefault(k["name"], {"times": 0, "runs": 0})
                t["times"] += k["n"]
                t["runs"] += k["runs"]
            for name, n in d["ignored"]:
                ignored[name] = ignored.get(name, 0) + n
    return {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(nontriv),
            "rule": c["rule"] + " Two runs are distinct when the hash over their whole recorded history differs.",
            "samples": samples,
            "simulated_steps": sum(d["steps"] for _, r in batches for d in r),
            "simulated_seconds": round(sim_s, 3),
            "runs_per_hour": int(runs / busy * 3600),
            "seeds_per_hour": int(runs / busy * 3600),
            "runs_per_config": {cfg: sum(d["runs"] for d in r) for cfg, r in batches},
            "faults_injected": faults,
            "rare_conditions_reached": probes,
            "distinct_abstract_states": bin(states).count("1"),
            "state_measure": c.get("state_measure", "buckets of the scenario's model state after every step"),
            "runs_ended_by_violations_of_other_properties": ignored,
            "real_code": c.get("real", REAL),
            "stubs": c.get("stubs", STUBS),
        },
        "assumptions": c["assumptions"],
        "wall_s": round(wall, 2),
        "violations": 1 if violation else 0,
    }


def do_replay(path):
    with open(path) as f:
        d = json.load(f)
    c = CHECKS[d["property"]]
    binary = build(d["config"], variant(c, d["config"])[1])
    trace = os.path.join(BUILD, "trace.%d" % os.getpid())
    r = replay_tape(binary, d["property"], d["scenario"], d["seed"], d["tape"], trace)
    print(open(trace, errors="replace").read(), end="")
    os.unlink(trace)
    same = r["violated"] and r["cls"] == d["class"]
    print("%s; class %s, hash %s (recorded %s %s)" % ("reproduced" if same else "NOT reproduced", r["cls"], r["hash"],
                                                       d["class"], d["hash"]))
    if same:
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
    return 1 if same else 0


def do_determinism(props, count):
    """The same seeds, in different processes and at different worker counts, must give the same histories."""
    bad = 0
    workdir = os.path.join(BUILD, "work.%d" % os.getpid())
    os.makedirs(workdir, exist_ok=True)
    total = 0
    for prop in props:
        c = CHECKS[prop]
        for cfg in c["configs"]:
            _, files, scenarios, _ = variant(c, cfg)
            binary = build(cfg, files)
            seen = []
            for workers in (JOBS, 3, 13):
                run_batch(binary, prop, scenarios, 4242, count, 600, ["*"], workdir, "d", workers, dump=True)
                lines = []
                for w in range(workers):
                    lines += open(os.path.join(workdir, "d.%d.dump" % w)).read().splitlines()
                seen.append(sorted(lines))
            diff = [x for x in zip(*seen) if len(set(x)) > 1]
            total += len(seen[0])
            print("%s/%s: %d seeds x 3, %d differ" % (prop, cfg, len(seen[0]), len(diff)), flush=True)
            for x in diff[:3]:
                print("   ", x)
            bad += len(diff)
    shutil.rmtree(workdir, ignore_errors=True)
    print("%d seeds, %d differences" % (total, bad))
    return 1 if bad else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="*")
    ap.add_argument("--replay")
    ap.add_argument("--build", action="store_true")
    ap.add_argument("--determinism", type=int, metavar="RUNS")
    a = ap.parse_args()
    os.makedirs(BUILD, exist_ok=True)
    try:
        if a.replay:
            return do_replay(a.replay)
        if a.build:
            done = set()
            for p, c in CHECKS.items():
                for cfg in c["configs"]:
                    _, files, _, optional = variant(c, cfg)
                    key = (cfg, tuple(files))
                    if key not in done:
                        done.add(key)
                        try:
                            build(cfg, files)
                        except BuildError as e:
                            print("%s does not build for %s: %s" % (p, cfg, e), file=sys.stderr)
            return 0
        if a.determinism:
            return do_determinism(a.property or sorted(CHECKS), a.determinism)
        return do_check(a.property[0])
    except BuildError as e:
        print("ERROR: build failed: %s" % e, file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
