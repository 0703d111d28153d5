#!/usr/bin/env python3
"""run.py PROP quick|thorough: decides one property on /repo's working tree."""
import json, os, re, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mcbuild
from mcbuild import B, V

# property -> [(variant, share of the time)], and whether the Linux kernel
# simulation is involved (checked against the real kernel first)
PLAN = {
    "C01": (["linux"], True), "C02": (["linux"], True), "C03": (["linux"], True), "C04": (["linux"], True),
    "C05": (["linux", "stub"], True), "C06": (["linux"], True), "C07": (["linux"], True), "C08": (["linux"], True),
    "C09": (["kqueuerace", "fenrace", "windowsrace", "fseventsrace", "linuxrace"], True), "C10": (["linux"], True), "C11": (["linux"], True),
    "C12": (["kqueue"], False), "C13": (["fsevents"], False), "C14": (["windows"], False),
    "C15": (["linux", "fsevents", "kqueue", "windows", "fen", "stub"], False),
    "C16": (["fen"], False),
}
BUDGET = {"quick": 150, "thorough": 780}
WORKERS = int(os.environ.get("VERIF_WORKERS") or min(8, os.cpu_count() or 8))


def workers(variant, binary, prop, tier, deadline, only=None):
    d = tempfile.mkdtemp(prefix="vz-", dir=B)
    ps = []
    for i in range(WORKERS):
        out = os.path.join(d, "out%d" % i)
        a = [binary, "-prop", prop, "-tier", tier, "-dir", d, "-out", out, "-deadline", str(int(deadline))]
        if only:
            a += ["-only", only]
        ps.append((subprocess.Popen(a, stdout=open(out + ".log", "w"), stderr=subprocess.STDOUT, env=dict(os.environ, GOMAXPROCS="2")), out))
    res, errs = [], []
    grace = deadline + 90
    stopped = False
    while any(p.poll() is None for p, _ in ps):
        time.sleep(0.1)
        if time.time() > grace:
            for p, _ in ps:
                p.kill()
            errs.append("a worker did not end in time")
            break
        if not stopped:
            for p, out in ps:
                try:
                    if '"Viol":{' in open(out).read():
                        stopped = True
                except OSError:
                    pass
            if stopped:
                open(os.path.join(d, "stop"), "w").close()
                grace = min(grace, time.time() + 20)
                errs_at = len(errs)
    for p, out in ps:
        rc = p.wait()
        try:
            for line in open(out):
                try:
                    res.append(json.loads(line))
                except ValueError:
                    pass
        except OSError:
            pass
        if rc not in (0, 3) and not stopped:
            errs.append("worker ended with %d: %s" % (rc, open(out + ".log").read()[-2000:]))
    if stopped:
        errs = []
    shutil.rmtree(d, ignore_errors=True)
    for r in res:
        r["variant"] = variant
        if r.get("Err"):
            errs.append("%s: %s" % (r["Scenario"], r["Err"]))
    return res, errs


def confirm(binary, prop, tier, r, path):
    """Replays a violation five times; all runs must fail alike."""
    json.dump({"property": prop, "variant": r["variant"], "Scenario": r["Scenario"], "Preempt": r["Preempt"], "Env": r["Env"], "Choices": r.get("Choices") or [],
               "tier": tier, "violation": r["Viol"]}, open(path, "w"), indent=1)
    ok = 0
    last = None
    for _ in range(5):
        try:
            p = subprocess.run([binary, "-prop", prop, "-tier", tier, "-replay", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
        except subprocess.TimeoutExpired:
            ok += 1
            continue
        if p.returncode in (1, 3):
            ok += 1
            last = p.stdout
    if last:
        try:
            d = json.load(open(path))
            d["replay"] = json.loads(last)
            json.dump(d, open(path, "w"), indent=1)
        except ValueError:
            pass
    return ok


def known():
    try:
        return [k for k in json.load(open(os.path.join(V, "known_findings.json"))).get("findings", [])]
    except OSError:
        return []


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else "quick")
    only = sys.argv[3] if len(sys.argv) > 3 else None
    t0 = time.time()
    budget = float(os.environ.get("VERIF_BUDGET") or BUDGET[tier])
    ev = os.environ.get("VERIF_EV") or os.path.join(V, "evidence")
    os.makedirs(ev, exist_ok=True)
    variants, linux = PLAN[prop]
    bins = {}
    notes = []
    try:
        mcbuild.tools()
    except mcbuild.BuildError as e:
        print(e)
        print("the check could not be built")
        sys.exit(2)
    for v in variants:
        try:
            bins[v] = mcbuild.build(v)
            if v in mcbuild.DROPPED:
                notes.append("harness files left out of %s as they do not fit the code: %s" % (v, ", ".join(mcbuild.DROPPED[v])))
        except mcbuild.BuildError as e:
            print(e)
            notes.append("%s could not be built" % v)
    variants = [v for v in variants if v in bins]
    for n in notes:
        print("note: " + n)
    if not variants:
        print("the check could not be built")
        sys.exit(2)
    tb = time.time() - t0
    conf = None
    if linux:
        d = tempfile.mkdtemp(prefix="vzconf-", dir=B)
        try:
            depth = 3 if tier == "thorough" and prop in ("C03", "C07") else 2
            p = subprocess.run([os.path.join(B, "conform"), "-depth", str(depth), "-dir", d, "-workers", "32"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=400)
            conf = json.loads(p.stdout.strip().splitlines()[-1])
        except Exception as e:
            conf = {"error": str(e)}
        shutil.rmtree(d, ignore_errors=True)
        if conf.get("mismatches"):
            print("note: simulated and real kernel disagree: %s" % json.dumps(conf)[:1500])
    res, errs = [], []
    start = time.time()
    end = t0 + budget
    for i, v in enumerate(variants):
        dl = start + (end - start) * (i + 1) / len(variants)
        r, e = workers(v, bins[v], prop, tier, dl, only)
        res += r
        errs += e
        if any(x.get("Viol") for x in r):
            break
    # scenarios of known findings come last, so that they stop nothing else
    kn = [k for k in known() if k["property"] == prop]
    if kn and not only and not any(x.get("Viol") for x in res):
        for v in variants:
            for s in sorted({k["scenario"] for k in kn}):
                r, e = workers(v, bins[v], prop, tier, max(end, time.time() + 20), s)
                res += r
                errs += e
    json.dump(res, open(os.path.join(B, "last-%s.json" % prop), "w"))
    viols = [r for r in res if r.get("Viol")]
    rc = 0
    nviol = 0
    seen_known = {}
    for r in viols:
        k = next((k for k in kn if k["scenario"] == r["Scenario"] and re.search(k["match"], r["Viol"]["Msg"], re.S)), None)
        if k:
            seen_known[k["id"]] = k
            continue
        path = os.path.join(ev, "replay-%s-%d.json" % (prop, nviol))
        n = confirm(bins[r["variant"]], prop, tier, r, path)
        if n < 5:
            errs.append("violation in %s reproduced only %d of 5 times: %s" % (r["Scenario"], n, r["Viol"]["Msg"]))
            continue
        nviol += 1
        rc = 1
        print("scenario %s [%s], %s" % (r["Scenario"], r["variant"], r["Viol"]["Prop"]))
        print(r["Viol"]["Msg"])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        if nviol >= 3:
            break
    for k in seen_known.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    ran = [r for r in res if not r.get("Skipped")]
    byscn = {}
    for r in res:
        byscn.setdefault((r["variant"], r["Scenario"]), []).append(r)
    capped = sorted({s for (v, s), l in byscn.items() if not any(x["Complete"] for x in l)})
    full = sum(1 for l in byscn.values() if any(x["Complete"] and not x["Cut"] for x in l if not x.get("Skipped")))
    partial = [r for r in res if r.get("Capped")]
    levels = {}
    for r in ran:
        k = "%s<=%d faults<=%d" % ("deviations" if r.get("Delay") else "preemptions", r["Preempt"], r["Env"])
        x = levels.setdefault(k, dict(explorations=0, complete=0, executions=0))
        x["explorations"] += 1
        x["complete"] += 1 if r["Complete"] else 0
        x["executions"] += r["Execs"]
    samples = []
    for r in sorted(ran, key=lambda r: -r["Execs"])[:3]:
        samples.append(dict(scenario=r["Scenario"], variant=r["variant"], executions=r["Execs"], states=r["States"], max_goroutines=r["MaxG"], decisions=r["MaxDepth"], one_outcome=r.get("Sample", "")[:300]))
    cov = dict(
        states=sum(r["States"] for r in ran), transitions=sum(r["Trans"] for r in ran),
        traces_validated_against_impl=(conf or {}).get("sequences", 0) or sum(r["Execs"] for r in ran),
        executions=sum(r["Execs"] for r in ran), pruned_by_state_cache=sum(r["Pruned"] for r in ran),
        scenarios=len(byscn), scenarios_exhausted_without_bound=full, by_bound=levels,
        exhaustive=not partial and not errs and not viols,
        explorations_cut_by_time=len(partial), scenarios_never_completed=capped[:20],
        samples=samples or [{"note": "nothing ran"}],
        memory_accesses_checked=sum(r.get("Accesses", 0) for r in ran),
        what="every execution is the library's own code from /repo under the controlled scheduler; states are happens-before classes of executions (or history prefixes), transitions are scheduling steps",
    )
    if conf is not None:
        cov["kernel_model_vs_real_kernel"] = conf
    json.dump(dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED") or 1), level="model_checking", coverage=cov,
                   assumptions=["sequentially consistent memory (data races are reported by C09)", "the simulated operating system behaves like the real one (conformance counts above where it can be run here)"] + notes,
                   wall_s=round(time.time() - t0, 2), violations=nviol), open(os.path.join(ev, prop + ".json"), "w"), indent=1)
    print("%s %s: %d scenarios (%d exhausted), %d executions, %d states, %d cut by time, build %.0fs, %.0fs in all" %
          (prop, tier, len(byscn), full, cov["executions"], cov["states"], len(partial), tb, time.time() - t0))
    if not ran and rc == 0:
        errs.append("no scenario was run")
    if errs and rc == 0:
        for e in errs[:5]:
            print("ERROR", e)
        rc = 2
    sys.exit(rc)


if __name__ == "__main__":
    main()
