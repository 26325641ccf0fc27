#!/usr/bin/env python3
"""Builds /repo's current sources with a check's harness, runs it, writes its evidence.

usage: check.py ID [--replay FILE] [--scale X] [--keep] [--only SUITE]
Exit: 0 held, 1 violated (with a VIOLATION line), 2 the check itself could not run.
"""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from config import CHECKS, VARIANTS

def sh(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    return r.returncode, r.stdout + r.stderr

def build(part, bdir):
    """part: dict(src=[...], variant=..., cxx=bool, ld=[...], cflags=[...]) -> path of binary"""
    v = VARIANTS[part["variant"]]
    os.makedirs(bdir, exist_ok=True)
    jobs = []
    exclude = set(part.get("exclude", []))
    csrc = [f for f in sorted(glob.glob(REPO + "/*.c")) if os.path.basename(f) not in exclude]
    for f in csrc:
        jobs.append(["clang", "-std=gnu11"] + v["lib"] + part.get("libflags", []) + ["-c", f, "-o", f"{bdir}/{os.path.basename(f)}.o"])
    if part.get("cxx"):
        for f in sorted(glob.glob(REPO + "/*.cpp")):
            if part["cxx"] is not True and os.path.basename(f) not in part["cxx"]:
                continue
            jobs.append(["clang++", "-std=gnu++17"] + v["lib"] + part.get("libflags", []) + ["-c", f, "-o", f"{bdir}/{os.path.basename(f)}.o"])
    for f in part["src"]:
        src = f"{VERIF}/{f}"
        cc = ["clang", "-std=gnu11"] if f.endswith(".c") else ["clang++", "-std=gnu++17"]
        jobs.append(cc + v["harness"] + part.get("cflags", []) +
            [f"-I{VERIF}/lib", "-iquote", REPO, "-c", src, "-o", f"{bdir}/h_{os.path.basename(f)}.o"])
    for f in v.get("runtime", []):
        jobs.append(["clang++", "-std=gnu++17", "-O2", "-g", f"-I{VERIF}/lib", "-c", f"{VERIF}/{f}", "-o", f"{bdir}/r_{os.path.basename(f)}.o"])
    # further builds of the library, each with its interpreter a shared object beside the check
    shared = {}
    for name, flags in part.get("shared", {}).items():
        shared[name] = []
        for f in csrc + [f"{VERIF}/{part['interpreter']}"]:
            cc = ["clang", "-std=gnu11"] if f.endswith(".c") else ["clang++", "-std=gnu++17", f"-I{VERIF}/lib", "-iquote", REPO]
            base = [x for x in v["lib"] if x != "-D_DEBUG"] + flags + ["-fPIC", "-fvisibility=hidden", "-fvisibility-inlines-hidden"]
            obj = f"{bdir}/{name}_{os.path.basename(f)}.o"
            shared[name].append((cc + base + ["-c", f], obj))
    own = len(jobs)
    if part.get("nolib"):
        jobs = [j for j in jobs if "/h_" in j[-1]]
        own = len(jobs)
    for l in shared.values():
        jobs += [c + ["-o", o] for c, o in l]
    with cf.ThreadPoolExecutor(8) as ex:
        for cmd, (rc, out) in zip(jobs, ex.map(sh, jobs)):
            if rc != 0:
                print("build failed: " + " ".join(cmd) + "\n" + out[-6000:])
                sys.exit(2)
    objs = [j[-1] for j in jobs[:own]]
    for name, l in shared.items():
        rc, out = sh(["clang++", "-shared", "-Wl,-Bsymbolic"] + v["link"] + [o for c, o in l] + ["-o", f"{bdir}/{name}.so", "-lpthread", "-latomic"])
        if rc != 0:
            print("link failed\n" + out[-6000:])
            sys.exit(2)
    exe = f"{bdir}/check"
    rc, out = sh(["clang++"] + v["link"] + objs + part.get("ld", []) + ["-o", exe, "-lpthread", "-latomic"])
    if rc != 0:
        print("link failed\n" + out[-6000:])
        sys.exit(2)
    return exe

def known(pid):
    """The findings of this property which are recorded rather than repaired."""
    r = []
    try:
        for l in open(VERIF + "/known_findings.txt"):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                r.append((m.group(2), m.group(3)))
    except FileNotFoundError:
        pass
    return r

def merge(pid, outs, dest):
    ev = None
    for o in outs:
        with open(o) as f:
            e = json.load(f)
        if ev is None:
            ev = e
            continue
        a, b = ev["coverage"], e["coverage"]
        for k in ("evaluations", "distinct_nontrivial", "planned", "discarded", "unreproducible"):
            a[k] = a.get(k, 0) + b.get(k, 0)
        a["time_capped"] = a.get("time_capped") or b.get("time_capped")
        a["rule"] += " | " + b["rule"]
        for k in ("suites", "classes"):
            for n, x in b.get(k, {}).items():
                if n in a[k] and isinstance(x, int):
                    a[k][n] += x
                else:
                    a[k][n] = x
        a["samples"] += b["samples"]
        ev["assumptions"] = sorted(set(ev.get("assumptions", []) + e.get("assumptions", [])))
        ev["wall_s"] += e["wall_s"]
        ev["violations"] = ev.get("violations", 0) + e.get("violations", 0)
    os.makedirs(os.path.dirname(dest), exist_ok=True)
    with open(dest + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(dest + ".tmp", dest)

def main():
    a = sys.argv[1:]
    pid = a.pop(0)
    opt = {}
    while a:
        k = a.pop(0)
        opt[k] = a.pop(0) if k in ("--replay", "--scale", "--only", "--workers") else True
    if "/" not in os.environ.get("PATH", ""):
        os.environ["PATH"] = "/usr/local/bin:/usr/bin:/bin"
    os.environ.setdefault("VERIF_SEED", "1")
    os.environ.setdefault("VERIF_TIER", "quick")
    for k in ("ASAN_OPTIONS", "UBSAN_OPTIONS", "LD_PRELOAD"):
        os.environ.pop(k, None)
    os.environ["LC_ALL"] = "C"
    os.environ["TZ"] = "UTC"
    parts = CHECKS[pid]["parts"]
    given = dict(opt)
    work = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    os.chmod(work, 0o755)
    t0 = time.time()
    try:
        evid, status = [], 0
        seen_suite = False
        for i, part in enumerate(parts):
            exe = build(part, f"{work}/b{i}")
            scratch = f"{work}/s{i}"
            os.makedirs(scratch)
            cmd = [exe, "--property", pid, "--scratch", scratch, "--replaydir", f"{VERIF}/replay",
                   "--level", CHECKS[pid].get("level", "exploration")]
            if "prefix" in part:
                cmd += ["--prefix", part["prefix"]]
            if len(parts) > 1:
                cmd += ["--share", str(part.get("share", 1 / len(parts)))]
            if "scale" in part:
                opt["--scale"] = str(float(given.get("--scale", 1)) * part["scale"])
            elif "--scale" in given:
                opt["--scale"] = given["--scale"]
            else:
                opt.pop("--scale", None)
            for k in ("--replay", "--scale", "--only", "--workers"):
                if k in opt:
                    cmd += [k, os.path.abspath(opt[k]) if k == "--replay" else opt[k]]
            for fid, what in known(pid):
                cmd += ["--known", f"{fid}={what}"]
            out = f"{work}/e{i}.json"
            if "--replay" not in opt:
                cmd += ["--evidence", out]
            sys.stdout.flush()
            r = subprocess.run(cmd, cwd=scratch)
            if os.path.exists(out):
                evid.append(out)
            if r.returncode == 3 and "--replay" in opt:
                continue   # the suite belongs to another part
            if r.returncode not in (0, 1):
                print(f"check binary ended with {r.returncode}")
                status = 2
                break
            if r.returncode == 1:
                status = 1
                break
        if evid:
            merge(pid, evid, f"{VERIF}/evidence/{pid}.json")
        print(f"{pid}: exit {status} after {time.time() - t0:.1f} s")
        sys.stdout.flush()
        return status
    finally:
        if "--keep" in opt:
            print("kept " + work)
        else:
            shutil.rmtree(work, ignore_errors=True)

if __name__ == "__main__":
    sys.exit(main())
