"""Builds the instrumented copies of /repo (one per variant) and the tools."""
import glob, json, os, re, shutil, subprocess, sys, fcntl, hashlib

V = os.environ.get("VERIF_DIR") or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO") or "/repo"
B = os.environ.get("VERIF_BUILD") or os.path.join(V, ".build")
MC = os.path.join(V, "mc")

ENV = dict(os.environ, GOPROXY="off", GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GONOSUMDB="*", GONOSUMCHECK="1", GOFLAGS_EXTRA="")
ENV.pop("GOROOT", None)

SHIMS = {
    "sync": "vmc/vsync", "sync/atomic": "vmc/vatomic", "os": "vmc/vos",
    "path/filepath": "vmc/vfilepath", "golang.org/x/sys/unix": "vmc/vunix",
    "syscall": "vmc/vunix", "runtime": "vmc/vruntime", "time": "vmc/vtime",
    "io/ioutil": "vmc/vioutil",
}

VARIANTS = {
    "linux": dict(GOOS="linux"),
    "fsevents": dict(GOOS="darwin", Tags=["cgo"], Cgo=True),
    "kqueue": dict(GOOS="freebsd", Swap={"syscall": "vmc/vkq"}),
    "fen": dict(GOOS="solaris", Swap={"syscall": "vmc/vfen"}, Cgo=True),
    "windows": dict(GOOS="windows", Swap={"syscall": "vmc/vwin"}),
    "stub": dict(GOOS="aix"),
    "kqueuerace": dict(GOOS="freebsd", Swap={"syscall": "vmc/vkq"}, Race=True, harness="kqueue"),
    "fenrace": dict(GOOS="solaris", Swap={"syscall": "vmc/vfen"}, Cgo=True, Race=True, harness="fen"),
    "windowsrace": dict(GOOS="windows", Swap={"syscall": "vmc/vwin"}, Race=True, harness="windows"),
    "fseventsrace": dict(GOOS="darwin", Tags=["cgo"], Cgo=True, Race=True, harness="fsevents"),
    "linuxrace": dict(GOOS="linux", Race=True, harness="linux"),
}


class BuildError(Exception):
    pass


def sh(args, cwd=None, env=None):
    p = subprocess.run(args, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("%s:\n%s" % (" ".join(args), p.stdout))
    return p.stdout


def tools():
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for t in ("instr", "conform"):
            sh(["go", "build", "-o", os.path.join(B, t), "./" + t], cwd=MC)


# harness files without which nothing can run
CORE = {"zz_run.go", "zz_reg.go", "zz_types.go", "zz_env.go", "zz_reset.go"}
DROPPED = {}


def build(variant):
    """Returns the path of the instrumented binary of /repo's working tree.
    Harness files that do not fit the code, as something they use directly has
    changed its shape, are left out, so that everything else can be checked."""
    drop = set()
    while True:
        try:
            p = build1(variant, drop)
            if drop:
                DROPPED[variant] = sorted(drop)
            return p
        except BuildError as e:
            bad = set(re.findall(r"\b(zz_\w+\.go):\d+", str(e))) - CORE - drop
            if not bad:
                raise
            drop |= bad


def build1(variant, drop):
    v = VARIANTS[variant]
    d = os.path.join(B, variant)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(B, "lock-" + variant), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        mod = os.path.join(d, "mod")
        shutil.rmtree(mod, ignore_errors=True)
        os.makedirs(os.path.join(mod, "cmd"))
        with open(os.path.join(mod, "go.mod"), "w") as f:
            f.write("module github.com/rjeczalik/notify\n\ngo 1.21\n\n"
                    "require golang.org/x/sys v0.0.0-20180926160741-c2ed4eda69e7\n"
                    "require vmc v0.0.0\nreplace vmc => %s\n" % MC)
        shutil.copy(os.path.join(MC, "go.sum"), os.path.join(mod, "go.sum"))
        with open(os.path.join(mod, "cmd", "main.go"), "w") as f:
            f.write('package main\n\nimport "github.com/rjeczalik/notify"\n\nfunc main() { notify.VerifMain() }\n')
        # a go file so that the module is not empty while instr resolves imports
        h = v.get("harness", variant)
        extra = [f for f in sorted(glob.glob(os.path.join(V, "harness", "common", "*.go"))) + sorted(glob.glob(os.path.join(V, "harness", h, "*.go"))) if os.path.basename(f) not in drop]
        shims = dict(SHIMS)
        shims.update(v.get("Shims", {}))
        cfg = dict(Src=REPO, Out=mod, GOOS=v["GOOS"], Tags=v.get("Tags", []), Skip=v.get("Skip", []),
                   Swap=v.get("Swap", {}), Shims=shims, Race=v.get("Race", False), Cgo=v.get("Cgo", False), Extra=extra, ModDir=mod, MC=MC)
        cf = os.path.join(d, "instr.json")
        with open(cf, "w") as f:
            json.dump(cfg, f, indent=1)
        sh([os.path.join(B, "instr"), "-config", cf], cwd=mod)
        out = os.path.join(d, "bin")
        sh(["go", "build", "-o", out, "./cmd"], cwd=mod)
        return out


if __name__ == "__main__":
    tools()
    for x in sys.argv[1:]:
        print(build(x))
