#!/usr/bin/env python3
"""seed.py [-n] ID...: tries planted bugs in a scratch copy of /repo: build, stable
tests, demo on the clean and the patched copy, and (unless -n) the quick check."""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = ". /opt/vp/env.sh; cd %s && "
W = "/tmp/seedwork"


def sh(cmd, cwd, timeout=900):
    try:
        p = subprocess.run(["bash", "-c", (SH % cwd) + cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 124, "timeout"


def stable(d):
    t = tempfile.mkdtemp(dir=W)
    os.mkdir(t + "/tmp")
    rc, out = sh("export TMPDIR=%s/tmp NOTIFY_TMP=%s/tmp/; go test -json -vet=off -count=1 -timeout 5m ./..." % (t, t), d)
    ok = set()
    for l in out.splitlines():
        try:
            e = json.loads(l)
        except ValueError:
            continue
        if e.get("Action") == "pass" and e.get("Test"):
            ok.add(e["Package"] + "/" + e["Test"])
    shutil.rmtree(t, ignore_errors=True)
    return sorted(set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - ok)


def main():
    a = sys.argv[1:]
    check = "-n" not in a
    ids = [x for x in a if x != "-n"] or sorted(os.listdir(V + "/seeded"))
    os.makedirs(W, exist_ok=True)
    for id in ids:
        s = os.path.join(V, "seeded", id)
        d = os.path.join(W, id)
        shutil.rmtree(d, ignore_errors=True)
        subprocess.run(["cp", "-a", "/repo", d], check=True)
        dm = os.path.join(W, id + "-demo")
        shutil.rmtree(dm, ignore_errors=True)
        shutil.copytree(s, dm, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        line = [id]
        t = time.time()
        rc, out = sh("bash %s/demo.sh" % dm, d, 300)
        line.append("demo clean=%d (%.0fs)" % (rc, time.time() - t))
        if rc:
            print(out[-1500:])
        rc, o = sh("git apply %s/patch.diff" % s, d)
        if rc:
            print(id, "patch does not apply", o)
            continue
        rc, o = sh("go build ./...", d)
        if rc:
            print(id, "does not build", o)
            continue
        bad = stable(d)
        if bad:
            bad = [b for b in bad if b in stable(d)]
        line.append("stable lost: %s" % [b.split("/")[-1] for b in bad])
        t = time.time()
        rc, out = sh("bash %s/demo.sh" % dm, d, 300)
        line.append("demo patched=%d (%.0fs)" % (rc, time.time() - t))
        if rc == 0:
            print(out[-1500:])
        if check:
            prop = json.load(open(s + "/meta.json"))["property"]
            env = dict(os.environ, VERIF_REPO=d, VERIF_BUILD=W + "/build", VERIF_EV=W + "/ev")
            t = time.time()
            p = subprocess.run(["python3", V + "/tools/run.py", prop, "quick"], cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            line.append("%s %s (%.0fs)" % (prop, {0: "MISSED", 1: "caught"}.get(p.returncode, "ERROR %d" % p.returncode), time.time() - t))
            if p.returncode != 1:
                print(p.stdout[-1500:])
            else:
                open(os.path.join(W, id + ".out"), "w").write(p.stdout)
        print(" | ".join(line), flush=True)
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(dm, ignore_errors=True)


main()
