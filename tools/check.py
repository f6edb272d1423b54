#!/usr/bin/env python3
"""Decides one property by seeded simulation.

  check.py PROP [--tier quick|thorough]   run the property's scenarios
  check.py --replay FILE                  re-execute a replay file and compare its trace
  check.py --min SCENARIO SEED            minimise one case by hand
Environment: VERIF_SEED (default 1), VERIF_TIER, SIM_SCALE (scales case counts).
"""
import hashlib, json, os, re, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build as builder          # noqa: E402
import props                     # noqa: E402

RUN = os.path.join(builder.BUILD, "simrun")
SEP = "\x1f"
TRACE_CAP = 6000


class CheckError(Exception):
    pass


def run_case(scen, seed, over=None, skip=(), trace=None):
    cmd = [RUN, "case", scen, str(seed)] + ["%s=%d" % kv for kv in sorted((over or {}).items())]
    if skip:
        cmd.append("skip=" + ",".join(str(x) for x in sorted(skip)))
    env = dict(os.environ)
    env.pop("SIM_TRACE", None)
    if trace:
        env["SIM_TRACE"] = trace
    try:
        out = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, timeout=200).stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return {"status": "viol", "kind": "runaway", "msg": "case ran out of time", "note": "", "hash": "0", "n_ops": 0, "knobs": {}}
    r = {"status": "?", "kind": "", "msg": "", "note": "", "hash": "", "n_ops": 0, "knobs": {}}
    for line in out.split("\n"):
        t, v = line[:1], line[2:]
        if t == "S": r["status"] = v
        elif t == "V": r["kind"] = v
        elif t == "M": r["msg"] = v
        elif t == "N": r["note"] = v
        elif t == "H": r["hash"] = v
        elif t == "C": r["n_ops"] = int(v.split()[10])
        elif t == "K":
            a, b, n = v.split(" ", 2)
            r["knobs"][n] = (int(a), int(b))
    return r


def same_kind(a, kind):
    return a["status"] == "viol" and a["kind"] == kind


def minimise(scen, seed, kind, cap_s=90):
    """Smallest override set and largest set of left out operations with the same kind of violation."""
    t0 = time.time()
    over, skip = {}, set()
    tries = 0

    def test(o, s):
        nonlocal tries
        tries += 1
        return same_kind(run_case(scen, seed, o, s), kind)

    base = run_case(scen, seed)
    # every knob to its simplest value, then groups, then one by one
    names = [n for n, (v, s) in base["knobs"].items() if v != s]
    want = {n: base["knobs"][n][1] for n in names}

    def reduce(ns):
        nonlocal over
        if not ns or time.time() - t0 > cap_s:
            return
        o = dict(over)
        o.update({n: want[n] for n in ns})
        if test(o, skip):
            over = o
            return
        if len(ns) > 1:
            h = len(ns) // 2
            reduce(ns[:h])
            reduce(ns[h:])
    reduce(names)
    # operations
    cur = run_case(scen, seed, over)
    ops = list(range(cur["n_ops"]))
    size = max(1, len(ops) // 2)
    while ops and time.time() - t0 < cap_s:
        left = [x for x in ops if x not in skip]
        changed = False
        for i in range(0, len(left), size):
            if time.time() - t0 > cap_s:
                break
            part = set(left[i:i + size])
            if test(over, skip | part):
                skip |= part
                changed = True
        if size == 1 and not changed:
            break
        if size > 1:
            size //= 2
    return over, sorted(skip), tries


def read_batch(path):
    a = dict(cases=0, discards=0, evals=0, sims=0, switches=0, choices=0, msgs=0, bytes=0, virt=0, chunks=0, threads=0, locks=0, nviol=0, log=0)
    keys = ["cases", "discards", "evals", "sims", "switches", "choices", "msgs", "bytes", "virt", "chunks", "threads", "locks", "nviol", "log"]
    tags, faults, inter, states, hashes, samples, viol = {}, {}, set(), set(), set(), [], []
    wall, planned, bad = 0.0, 0, 0
    for line in open(path, encoding="utf-8", errors="replace"):
        line = line.rstrip("\n")
        t, v = line[:1], line[2:]
        if t == "C":
            for k, x in zip(keys, v.split()):
                a[k] += int(x)
        elif t == "T" or t == "F":
            n, k = v.split(" ", 1)
            d = tags if t == "T" else faults
            d[k] = d.get(k, 0) + int(n)
        elif t == "I": inter.add(v)
        elif t == "A": states.add(v)
        elif t == "H": hashes.add(v)
        elif t == "P": samples.append(v)
        elif t == "V":
            sc, seed, h, n_ops, rest = v.split(" ", 4)
            kind, msg, note = (rest.split(SEP) + ["", ""])[:3]
            viol.append(dict(scenario=sc, seed=int(seed), hash=h, n_ops=int(n_ops), kind=kind, msg=msg, note=note))
        elif t == "W":
            w, p, b = v.split()
            wall, planned, bad = float(w), int(p), int(b)
    a["log"] &= (1 << 64) - 1
    return a, tags, faults, inter, states, hashes, samples, viol, wall, planned, bad


def trace_of(scen, seed, over, skip):
    fd, p = tempfile.mkstemp(prefix="simtrace")
    os.close(fd)
    r = run_case(scen, seed, over, skip, trace=p)
    text = open(p, errors="replace").read()
    os.unlink(p)
    return r, text


def known_list():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"known": [], "fixed": []}


def match_known(prop, v, known):
    for k in known["known"]:
        if k["property"] != prop:
            continue
        if k.get("scenario") and not re.fullmatch(k["scenario"], v["scenario"]):
            continue
        if not re.fullmatch(k["kind"], v["kind"]):
            continue
        if re.search(k["match"], v["msg"]):
            return k
    return None


def replay(path):
    builder.main()
    d = json.load(open(path))
    r, text = trace_of(d["scenario"], d["seed"], d["over"], d["skip"])
    ok = r["status"] == "viol" and r["kind"] == d["kind"] and r["hash"] == d["hash"]
    h = hashlib.sha256(text.encode()).hexdigest()
    same = h == d["trace_sha256"]
    print("scenario=%s seed=%d status=%s kind=%s" % (d["scenario"], d["seed"], r["status"], r["kind"]))
    print(r["msg"])
    print("event hash %s, trace %s" % ("reproduced" if r["hash"] == d["hash"] else "differs", "identical" if same else "differs"))
    if ok and same:
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    if r["status"] != "viol":
        print("the violation no longer occurs")
        return 0
    return 2


def main():
    args = sys.argv[1:]
    if args and args[0] == "--replay":
        return replay(args[1])
    if args and args[0] == "--min":
        builder.main()
        r = run_case(args[1], int(args[2]))
        print(r["status"], r["kind"], r["msg"])
        o, s, n = minimise(args[1], int(args[2]), r["kind"])
        r = run_case(args[1], int(args[2]), o, s)
        print("over", o, "skip", s, "tries", n)
        print(r["msg"]); print(r["note"])
        return 0
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    conf = props.PROPS[prop]
    t0 = time.time()
    rc = builder.main()
    if rc not in (0, None):
        raise CheckError("build failed")
    t_build = time.time() - t0
    scale = float(os.environ.get("SIM_SCALE", "1"))
    mult = (1 if tier == "quick" else conf.get("thorough_factor", 25)) * scale
    cap = conf.get("cap_s", 150) if tier == "quick" else conf.get("thorough_cap_s", 780)
    plan = ["%s=%d" % (s, max(1, int(n * mult))) for s, n in conf["scenarios"].items()]
    jobs = int(os.environ.get("SIM_JOBS", str(os.cpu_count() or 8)))
    fd, outp = tempfile.mkstemp(prefix="simbatch")
    os.close(fd)
    rc = subprocess.run([RUN, "batch", str(seed), str(jobs), str(cap), outp] + plan).returncode
    if rc != 0:
        raise CheckError("simulator batch failed with %d" % rc)
    a, tags, faults, inter, states, hashes, samples, viol, wall, planned, bad = read_batch(outp)
    os.unlink(outp)
    if a["cases"] == 0:
        raise CheckError("nothing ran")
    known = known_list()
    # probes and fault kinds that the workload must reach (only judged when the run was clean and complete)
    missing = []
    if not viol and a["cases"] >= 0.9 * planned and scale >= 1:
        for p in conf.get("must_reach", []):
            if not any(re.fullmatch(p, k) for k in list(tags) + ["fault:" + f for f in faults]):
                missing.append(p)
    seen_known, fresh = {}, []
    viol.sort(key=lambda v: (v["scenario"], v["kind"], v["seed"]))
    for v in viol:
        k = match_known(prop, v, known)
        if k:
            seen_known[k["what"]] = seen_known.get(k["what"], 0) + 1
        else:
            fresh.append(v)
    # findings recorded for this property are shown on every run
    for k in known["known"]:
        if k["property"] == prop:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    reported, flaky = [], []
    for v in fresh:
        if len(reported) >= 1 or len(flaky) >= 6:
            break
        r1 = run_case(v["scenario"], v["seed"])
        r2 = run_case(v["scenario"], v["seed"])
        key = lambda r: (r["status"], r["kind"], r["hash"])
        if r1["status"] != "viol" or key(r1) != key(r2) or r1["kind"] != v["kind"]:
            flaky.append((v, r1, r2))
            continue
        over, skip, tries = minimise(v["scenario"], v["seed"], v["kind"])
        ra, ta = trace_of(v["scenario"], v["seed"], over, skip)
        rb, tb = trace_of(v["scenario"], v["seed"], over, skip)
        if not same_kind(ra, v["kind"]) or key(ra) != key(rb) or ta != tb:
            # fall back to the unminimised case
            over, skip = {}, []
            ra, ta = trace_of(v["scenario"], v["seed"], over, skip)
            rb, tb = trace_of(v["scenario"], v["seed"], over, skip)
            if not same_kind(ra, v["kind"]) or key(ra) != key(rb) or ta != tb:
                flaky.append((v, ra, rb))
                continue
        rdir = os.path.join(builder.BUILD, "replays")
        os.makedirs(rdir, exist_ok=True)
        lines = ta.split("\n")
        rec = dict(property=prop, scenario=v["scenario"], seed=v["seed"], verif_seed=seed, over=over, skip=skip, kind=v["kind"], msg=ra["msg"], note=ra["note"],
                   hash=ra["hash"], minimise_runs=tries, original=dict(msg=v["msg"], note=v["note"]), trace_sha256=hashlib.sha256(ta.encode()).hexdigest(),
                   trace_lines=len(lines), trace=lines[:TRACE_CAP],
                   how="python3 /verif/tools/check.py --replay <this file>")
        path = os.path.join(rdir, "%s-%s-%d.json" % (prop, v["scenario"], v["seed"]))
        json.dump(rec, open(path, "w"), indent=1)
        print("violation kind=%s scenario=%s seed=%d (minimised: %d overrides, %d operations left out)" % (v["kind"], v["scenario"], v["seed"], len(over), len(skip)))
        print("  " + ra["msg"][:1500])
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        reported.append(path)
    secs = max(wall, 1e-6)
    probes = {k[6:]: n for k, n in tags.items() if k.startswith("probe:")}
    ops = {k[3:]: n for k, n in tags.items() if k.startswith("op:")}
    specs = {k[5:]: n for k, n in tags.items() if k.startswith("spec:")}
    other = {k: n for k, n in tags.items() if not k.startswith(("probe:", "op:", "spec:"))}
    cov = dict(
        evaluations=a["cases"] - a["discards"],
        distinct_nontrivial=len(hashes),
        rule=conf["rule"] + " A case is one simulated execution (or a small group compared with each other); it counts as distinct when the hash over its whole event log (every scheduling switch, message and fault) differs from that of all others in this run.",
        samples=samples[:6],
        oracle_evaluations=a["evals"], simulated_executions=a["sims"], discarded_cases=a["discards"], planned_cases=planned,
        seeds_per_hour=int(a["cases"] * 3600 / secs), simulated_runs_per_hour=int(a["sims"] * 3600 / secs),
        simulated_seconds=round(a["virt"] / 1e6, 1),
        faults_injected=faults, distinct_interleavings=len(inter), distinct_states=len(states),
        scheduling_switches=a["switches"], scheduling_choices=a["choices"], messages=a["msgs"], message_bytes=a["bytes"],
        data_parallel_pieces=a["chunks"], simulated_threads=a["threads"], lock_operations=a["locks"],
        operations=ops, configurations=specs, probes=probes, counters=other,
        event_log_digest="%016x" % a["log"], workers=jobs, build_s=round(t_build, 1), scenarios=conf["scenarios"],
        real_components=conf.get("real", props.REAL), stubbed_components=conf.get("stub", props.STUB),
        known_findings_seen=seen_known, stopped_early=a["cases"] < planned and not viol)
    ev = dict(property=prop, tier=tier, seed=seed, level=conf.get("level", "exploration"), coverage=cov, assumptions=conf.get("assumptions", []) + props.ASSUME,
              wall_s=round(time.time() - t0, 2), violations=len(fresh))
    edir = os.environ.get("SIM_EVIDENCE_DIR", os.path.join(VERIF, "evidence"))
    os.makedirs(edir, exist_ok=True)
    json.dump(ev, open(os.path.join(edir, prop + ".json"), "w"), indent=1)
    if reported:
        return 1
    if flaky:
        v, r1, r2 = flaky[0]
        raise CheckError("violation does not reproduce exactly: %s seed %d: %s %s / %s %s / %s %s" % (v["scenario"], v["seed"], v["kind"], v["hash"], r1["kind"], r1["hash"], r2["kind"], r2["hash"]))
    if missing:
        raise CheckError("workload did not reach: %s" % missing)
    print("%s: %d cases, %d oracle evaluations, %d distinct, no violation (%.1f s)" % (prop, a["cases"], a["evals"], len(hashes), time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("ERROR: %s" % e, file=sys.stderr)
        sys.exit(2)
