#!/usr/bin/env python3
"""Runs the monitors of one property against /repo's working tree.

usage: run.py PROPERTY            (VERIF_SEED and VERIF_TIER from the environment)
       run.py --replay FILE       (re-runs one recorded violation)

Exit 0: the property held on everything observed. Exit 1: a VIOLATION line was printed.
Exit 2: the check could not be done (build failure, too little observed, harness error).
"""
import json, os, re, resource, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
EVID = os.path.join(HERE, "evidence")
sys.path.insert(0, HERE)
from checks import CHECKS, CONFIGS  # noqa: E402

GiB = 1 << 30


class Broken(Exception):
    pass


def env_for(cfg, tmp, tag):
    e = dict(os.environ)
    e.update({"GOFLAGS": "-mod=mod", "GOPROXY": "off", "GOTOOLCHAIN": "local", "GOWORK": "off"})
    e.update(CONFIGS[cfg].get("build_env", {}))
    return e


def run_env(cfg, tmp, tag):
    e = dict(os.environ)
    e.pop("GOMEMLIMIT", None)
    e["GOTRACEBACK"] = "all"
    for k, v in CONFIGS[cfg].get("env", {}).items():
        e[k] = v.replace("{race}", os.path.join(tmp, "race-" + tag))
    return e


def build(tmp, cmd, cfg, overlay, seed):
    out = os.path.join(tmp, f"{cmd}-{cfg}-{seed}")
    if os.path.exists(out):
        return out
    args = ["go", "build", "-o", out] + CONFIGS[cfg].get("build", [])
    if overlay:
        args += ["-overlay", overlay]
    args.append("./cmd/" + cmd)
    p = subprocess.run(args, cwd=HARNESS, env=env_for(cfg, tmp, cmd), capture_output=True, text=True)
    if p.returncode != 0:
        raise Broken(f"build of {cmd} ({cfg}) failed:\n{p.stdout[-3000:]}{p.stderr[-5000:]}")
    if CONFIGS[cfg].get("emulator"):
        p = subprocess.run(["gcc", "-O2", "-o", emulator(tmp), os.path.join(HARNESS, "emu", "mips64.c")], capture_output=True, text=True)
        if p.returncode != 0:
            raise Broken(f"build of the emulator failed:\n{p.stderr[-3000:]}")
    return out


def emulator(tmp):
    return os.path.join(tmp, "mips64-emulator")


def types_overlay(tmp, seed):
    """Other seeds get other generated types; the committed file belongs to seed 1."""
    if seed == 1:
        return None
    f = os.path.join(tmp, f"types_{seed}.go")
    o = os.path.join(tmp, f"overlay_{seed}.json")
    if not os.path.exists(o):
        subprocess.check_call([sys.executable, os.path.join(HARNESS, "tools", "gen_types.py"), str(seed), f])
        json.dump({"Replace": {os.path.join(HARNESS, "uni", "types_gen.go"): f}}, open(o, "w"))
    return o


def limits(cfg):
    lim = CONFIGS[cfg].get("as_gib", 0)

    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if lim:
            resource.setrlimit(resource.RLIMIT_AS, (lim * GiB, lim * GiB))
    return f


def execute(tmp, exe, prop, cfg, tier, seed, tag, extra=(), timeout=3000, workers=None):
    res = os.path.join(tmp, f"res-{tag}.json")
    crumb = os.path.join(tmp, f"crumb-{tag}")
    if os.path.exists(res):
        os.remove(res)
    args = [emulator(tmp)] if CONFIGS[cfg].get("emulator") else []
    args += [exe, "-prop", prop, "-tier", tier, "-config", cfg, "-seed", str(seed), "-out", res, "-crumb", crumb, *extra]
    w = workers or CONFIGS[cfg].get("workers")
    if w:
        args += ["-workers", str(w)]
    args += CONFIGS[cfg].get("args", [])
    err = open(os.path.join(tmp, f"err-{tag}"), "w+b")
    t0 = time.time()
    try:
        p = subprocess.run(args, env=run_env(cfg, tmp, tag), stdout=err, stderr=err, preexec_fn=limits(cfg), timeout=timeout, cwd=tmp)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        rc = "timeout"
    err.flush()
    size = err.tell() if False else os.path.getsize(err.name)
    err.seek(max(0, size - 400000))
    text = err.read().decode("utf8", "replace")
    err.seek(0)
    head = err.read(20000).decode("utf8", "replace")
    err.close()
    data = None
    if os.path.exists(res):
        try:
            data = json.load(open(res))
        except ValueError:
            data = None
    cases = []
    if os.path.exists(crumb):
        for line in open(crumb, "rb").read().decode("utf8", "replace").split("\n"):
            line = line.strip("\x00 ")
            if re.fullmatch(r"[\w.-]+:\d+", line):
                cases.append(line)
    return {"rc": rc, "data": data, "head": head, "text": text, "cases": cases, "wall": time.time() - t0, "cmd": args}


CRASH = re.compile(r"(fatal error: [^\n]*|runtime: [^\n]*stack exceeds[^\n]*|==\d+==ERROR: AddressSanitizer[^\n]*|unexpected fault address[^\n]*|checkptr: [^\n]*|panic: [^\n]*|SIG[A-Z]+: [^\n]*|WARNING: DATA RACE)")


def crash_line(r):
    for t in (r["head"], r["text"]):
        m = CRASH.search(t)
        if m:
            return m.group(1)
    return None


def excerpt(r):
    t = r["head"]
    m = CRASH.search(t)
    if not m:
        t = r["text"]
        m = CRASH.search(t)
    if not m:
        return r["text"][-2500:]
    return t[max(0, m.start() - 200): m.start() + 3500]


def race_reports(tmp, tag):
    """(reports involving the library, other reports)"""
    lib, other = [], []
    for f in sorted(os.listdir(tmp)):
        if f.startswith("race-" + tag):
            for rep in open(os.path.join(tmp, f), errors="replace").read().split("=================="):
                if "DATA RACE" in rep:
                    (lib if "protolambda/zssz" in rep else other).append(rep.strip())
    return lib, other


def known(prop):
    f = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f)).get("findings", []) if k["property"] == prop]


def is_known(v, ks):
    for k in ks:
        if k["key"] == v["key"] and k.get("contains", "") in v["msg"]:
            return k
    return None


def check(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    spec = CHECKS[prop]
    tmp = tempfile.mkdtemp(prefix="verif-")
    violations, errors, runs = [], [], []
    try:
        # other seeds bring other generated types; in the quick tier only the cheap plain build is run again
        seeds = [seed + 1000 * i for i in range(spec.get("passes", 3) if tier == "thorough" else spec.get("quick_passes", 4))]
        for s in seeds:
            for cmd, cfg in spec["runs"]:
                if s != seed and (spec.get("one_pass") or (tier == "quick" and cfg != "plain")):
                    continue
                ov = types_overlay(tmp, s)
                try:
                    exe = build(tmp, cmd, cfg, ov, s)
                except Broken as b:
                    if CONFIGS[cfg].get("optional"):
                        runs.append({"command": cmd, "config": cfg, "seed": s, "skipped": str(b)[:600]})
                        continue
                    raise
                tag = f"{cmd}-{cfg}-{s}"
                shards = CONFIGS[cfg].get("shards", 1)
                thin = CONFIGS[cfg].get("thin", {}).get(tier, 1)

                def part(k):
                    return execute(tmp, exe, prop, cfg, tier, s, f"{tag}-{k}", ["-shard", f"{k}/{shards}", "-thin", str(thin), "-boost", str(spec.get("boost", 1) if cfg == "plain" else 1)],
                                   timeout=spec.get("timeout", 780 if tier == "quick" else 7200))
                with ThreadPoolExecutor(shards) as pool:
                    rs = list(pool.map(part, range(shards)))
                for k, r in enumerate(rs):
                    one(tmp, prop, tier, s, cmd, cfg, exe, f"{tag}-{k}", r, violations, errors, runs, f"{k}/{shards}" if k else None)
                needs = {}
                for r in rs:
                    for n in (r["data"] or {}).get("needs") or []:
                        k = needs.setdefault(n["name"], [n["min"], 0])
                        k[1] += n["have"]
                for name, (least, have) in needs.items():
                    if have < least:
                        errors.append(f"{cmd} ({cfg}): observed too little: {name} = {have}, need {least}")
    except Broken as b:
        errors.append(str(b))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    report(prop, tier, seed, spec, violations, errors, runs, time.time() - t0)


def one(tmp, prop, tier, s, cmd, cfg, exe, tag, r, violations, errors, runs, shard=None):
    base = {"property": prop, "tier": tier, "seed": s, "command": cmd, "config": cfg}

    def add(case, key, msg):
        violations.append(dict(base, case=case, key=key, msg=msg))

    d = r["data"]
    info = {"shard": shard} if shard else {}
    info |= {"command": cmd, "config": cfg, "seed": s, "wall_s": round(r["wall"], 2), "exit": r["rc"]}
    if d:
        info.update({k: d[k] for k in ("phases", "evaluations", "distinct", "counters")})
        info["samples"] = d["samples"]
        for v in d["violations"]:
            add(f"{v['phase']}:{v['idx']}", v["key"], v["msg"])
        if d["violations_total"] and not d["violations"]:
            errors.append("violations counted but none recorded")
        errors.extend(f"{cmd} ({cfg}): {e}" for e in d["errors"])
    lib, other = race_reports(tmp, tag)
    info["race_reports"] = len(lib) + len(other)
    for rep in lib[:5]:
        add(None, "data-race", rep[:6000])
    for rep in other[:2]:
        errors.append("data race inside the harness itself:\n" + rep[:3000])
    runs.append(info)
    if d and r["rc"] in (0, 1, 2, 66):
        return
    # the process ended without a result: find the case that did it
    hang = re.search(r"HANG case=(\S+)", r["text"])
    line = crash_line(r)
    if hang:
        r2 = execute(tmp, exe, prop, cfg, tier, s, tag + "-again", ["-only", hang.group(1), "-hang", "45"], timeout=120)
        if r2["rc"] == 7 or r2["rc"] == "timeout":
            add(hang.group(1), "hang", "a single case does not end within 45 s of its own:\n" + r2["text"][-3000:])
        else:
            errors.append(f"{cmd} ({cfg}): case {hang.group(1)} was slow once, but ends when run alone")
        return
    if r["rc"] == "timeout":
        errors.append(f"{cmd} ({cfg}) did not finish in time; active: {r['cases'][:8]}")
        return
    if r["rc"] in (-9, 137):
        errors.append(f"{cmd} ({cfg}) was killed (memory?); active: {r['cases'][:8]}")
        return
    for case in r["cases"]:
        r2 = execute(tmp, exe, prop, cfg, tier, s, tag + "-again", ["-only", case], timeout=200)
        if not r2["data"] and r2["rc"] != "timeout" and crash_line(r2) and "harness panic" not in r2["text"]:
            add(case, "crash", f"the process ends ({crash_line(r2)}) in this case:\n" + excerpt(r2))
            return
        if r2["data"] and r2["data"]["violations"]:
            for v in r2["data"]["violations"]:
                add(case, v["key"], v["msg"])
            return
    mem = line and ("out of memory" in line or "cannot allocate" in line)
    block = re.search(r"cannot allocate (\d+)-byte block", r["head"] + r["text"])
    if prop == "C05" and mem and block and int(block.group(1)) >= 1 << 30 and "github.com/protolambda/zssz" in excerpt(r):
        # no input of this property may need a block that large
        add(None, "memory", f"the process ended ({line}), in one of the cases {r['cases']}:\n" + excerpt(r))
        return
    if line and not mem and r["rc"] != 2:
        add(None, "crash", f"the process ended ({line}), in one of the cases {r['cases']}:\n" + excerpt(r))
    elif line and not mem and not re.search(r"harness panic", r["text"]):
        add(None, "crash", f"the process ended ({line}), in one of the cases {r['cases']}:\n" + excerpt(r))
    else:
        errors.append(f"{cmd} ({cfg}) ended with {r['rc']}: {line}\n{excerpt(r)}")


def report(prop, tier, seed, spec, violations, errors, runs, wall):
    ks = known(prop)
    new, old = [], {}
    for v in violations:
        k = is_known(v, ks)
        if k:
            old.setdefault(k["what"], v)
        else:
            new.append(v)
    for what in old:
        print(f"KNOWN-FINDING: property={prop} {what}")
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    for f in os.listdir(os.path.join(EVID, "replay")):
        if f.startswith(prop + "-"):
            os.remove(os.path.join(EVID, "replay", f))
    seen = {}
    for v in new:
        kk = (v["key"], v["command"])
        seen[kk] = seen.get(kk, 0) + 1
        if seen[kk] > 1:
            continue
        path = os.path.join(EVID, "replay", f"{prop}-{len(seen)}.json")
        json.dump(v, open(path, "w"), indent=1)
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  [{v['config']}] {v['key']} in case {v['case']}: " + v["msg"][:1500].replace("\n", "\n  "))
    best, by, evals = {}, {}, 0
    samples, counters, phases = [], {}, []
    for r in runs:
        if "evaluations" not in r:
            continue
        evals += r["evaluations"]
        b = best.setdefault((r["command"], r["seed"]), {})
        b[r["config"]] = b.get(r["config"], 0) + r["distinct"]
        samples += [f"[{r['config']}] {x}" for x in r.pop("samples")]
        for k, n in r["counters"].items():
            by.setdefault((r["config"], r["seed"]), {}).setdefault(k, []).append(n)
        if r.get("shard"):
            del r["counters"], r["phases"]
    for cs in by.values():
        for k, ns in cs.items():
            counters[k] = max(counters.get(k, 0), max(ns) if re.search("largest|most|size in|closest", k) else sum(ns))
    distinct = sum(max(b.values()) for b in best.values())
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": spec["level"],
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": distinct,
            "rule": spec["rule"],
            "samples": samples[:24],
            "observed": counters,
            "runs": runs,
            "errors": errors,
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": len(new),
    }
    json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1)
    for e in errors[:6]:
        print("ERROR:", e[:4000])
    if new:
        sys.exit(1)
    if errors:
        sys.exit(2)
    print(f"{prop}: held on {evals} evaluations ({distinct} distinct), {wall:.1f} s")
    sys.exit(0)


def replay(path):
    v = json.load(open(path))
    tmp = tempfile.mkdtemp(prefix="verif-")
    try:
        exe = build(tmp, v["command"], v["config"], types_overlay(tmp, v["seed"]), v["seed"])
        extra = ["-only", v["case"]] if v["case"] else []
        r = execute(tmp, exe, v["property"], v["config"], v["tier"], v["seed"], "replay", extra)
        lib, _ = race_reports(tmp, "replay")
        for x in (r["data"] or {}).get("violations", []):
            print(x["key"], x["msg"])
        for x in lib:
            print(x)
        if not r["data"]:
            print(excerpt(r))
        bad = bool(lib) or not r["data"] or bool(r["data"]["violations"])
        print("violated" if bad else "held")
        sys.exit(1 if bad else 0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        replay(sys.argv[2])
    elif len(sys.argv) == 2 and sys.argv[1] in CHECKS:
        check(sys.argv[1])
    else:
        sys.exit(__doc__)
