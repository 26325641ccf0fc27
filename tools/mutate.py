#!/usr/bin/env python3
"""Mutation campaign: how many small changes of the library do the checks notice?

usage: mutate.py WORKDIR [--files a.c,b.c] [--every N] [--jobs 8] [--cap 8] [--full] [--second | --third]
Every mutant is compiled into the checks of its file (MAP), which run with one worker and a short time limit; with
--full those which nothing noticed are run again with the whole quick tier; --second and --third make other kinds of change. Results go to WORKDIR/results.jsonl, and
a run goes on where an earlier one ended. It is a development tool: no registered command uses it.
"""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE); sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
from config import CHECKS, VARIANTS
MAP = {
 "bool.c": "C22 C28", "cache.c": "C01 C02 C25", "collection.c": "C04 C05 C06 C25 C24", "component.c": "C24 C25", "coordinate.c": "C17",
 "data.c": "C29 C04 C01", "dataset.c": "C23 C25", "evidence.c": "C20 C21 C28", "exceptionsc.c": "C26", "file.c": "C12 C13 C07 C05 C23 C04 C25",
 "float.c": "C17", "headers.c": "C19 C20 C25", "ip.c": "C16 C25", "list.c": "C29", "memory.c": "C11 C12 C05", "overrides.c": "C21 C25", "pool.c": "C07 C08 C25 C05",
 "profile.c": "C24 C06 C25", "properties.c": "C22 C21 C25 C23", "property.c": "C24 C25", "pseudoheader.c": "C20 C25", "resource.c": "C09 C10 C23", "results.c": "C27",
 "status.c": "C26", "string.c": "C18 C24 C04 C22", "textfile.c": "C14", "threading.c": "C30 C02", "tree.c": "C03 C01 C20", "value.c": "C24 C06 C25", "yamlfile.c": "C15",
 "CollectionConfig.cpp": "C28", "ComponentMetaData.cpp": "C32", "ConfigBase.cpp": "C28", "Date.cpp": "C32", "EngineBase.cpp": "C32", "EvidenceBase.cpp": "C28",
 "Exceptions.cpp": "C26 C27", "IpAddress.cpp": "C16", "MetaData.cpp": "C32", "ProfileMetaData.cpp": "C32", "PropertyMetaData.cpp": "C32",
 "RequiredPropertiesConfig.cpp": "C28", "ResultsBase.cpp": "C27", "ValueMetaData.cpp": "C32",
}
def sh(cmd, **k):
    r = subprocess.run(cmd, capture_output=True, text=True, **k); return r.returncode, r.stdout + r.stderr
def key(part): return hashlib.sha1(repr((part["variant"], part.get("libflags"))).encode()).hexdigest()[:8]
def cc(part, src):
    v = VARIANTS[part["variant"]]
    return (["clang", "-std=gnu11"] if src.endswith(".c") else ["clang++", "-std=gnu++17"]) + v["lib"] + part.get("libflags", []) + ["-iquote", REPO, "-c", src, "-o"]
def blank(t):
    """The text with comments, strings, preprocessor lines and asserts blanked, of the same length."""
    o = list(t)
    def wipe(a, b):
        for i in range(a, b):
            if o[i] != "\n": o[i] = " "
    for m in re.finditer(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])+\'|^[ \t]*#(?:[^\n]*\\\r?\n)*[^\n]*', t, re.S | re.M): wipe(m.start(), m.end())
    s = "".join(o)
    for m in re.finditer(r'\bassert\s*\(', s):
        d, i = 0, m.end() - 1
        while i < len(s):
            d += {"(": 1, ")": -1}.get(s[i], 0); i += 1
            if d == 0: break
        wipe(m.start(), i)
    # code which only other platforms compile
    depth, off = [], 0
    for line in t.splitlines(keepends=True):
        m = re.match(r'\s*#\s*(ifdef|ifndef|if|else|elif|endif)\b(.*)', line)
        if m:
            k, a = m.group(1), m.group(2)
            if k in ("ifdef", "if"): depth.append("_MSC_VER" in a or "_WIN32" in a or "__APPLE__" in a or "_DEBUG" in a)
            elif k == "ifndef": depth.append(False)
            elif k in ("else", "elif") and depth: depth[-1] = False
            elif k == "endif" and depth: depth.pop()
        elif any(depth): wipe(off, off + len(line))
        off += len(line)
    return "".join(o)
def mutants(t):
    s = blank(t); r = []
    def add(a, b, new, what): r.append((a, b, new, what))
    REL = {"<": ["<="], "<=": ["<"], ">": [">="], ">=": [">"], "==": ["!="], "!=": ["=="]}
    for m in re.finditer(r'(?<![<>=!+\-*/&|^%])(<=|>=|==|!=|<|>)(?![<>=])', s):
        if m.group(1) in "<>" and not re.match(r'[\s\w(]', s[m.end():m.end() + 1] or " "): continue
        if s[m.start() - 1:m.start()] == "-": continue
        if m.group(1) in ("<", ">") and s[m.start() - 1] not in " \t": continue
        for n in REL[m.group(1)]: add(m.start(), m.end(), n, m.group(1) + " to " + n)
    for m in re.finditer(r'&&|\|\|', s): add(m.start(), m.end(), "||" if m.group() == "&&" else "&&", "connective")
    for m in re.finditer(r'(?<=[\w)\]] )([+\-])(?= [\w(*&])', s): add(m.start(), m.end(), "-" if m.group() == "+" else "+", "sign")
    for m in re.finditer(r'(\+\+|--)', s): add(m.start(), m.end(), "--" if m.group() == "++" else "++", "step")
    for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.])', s): add(m.start(), m.end(), str(int(m.group()) + 1), "number+1"); 
    for m in re.finditer(r'\b(true|false)\b', s): add(m.start(), m.end(), "false" if m.group() == "true" else "true", "bool")
    for m in re.finditer(r'\b(if|while)\s*\(', s):
        d, i = 0, m.end() - 1
        while i < len(s):
            d += {"(": 1, ")": -1}.get(s[i], 0); i += 1
            if d == 0: break
        c = t[m.end():i - 1]
        if m.group(1) == "if":
            add(m.end(), i - 1, "1 || (" + c + ")", "always"); add(m.end(), i - 1, "0 && (" + c + ")", "never")
    for m in re.finditer(r'(?<=[;{}\n])[ \t]*\r?\n?[ \t]*((?:[A-Za-z_][\w>.\-\[\]*]*\s*(?:=|\+=|-=)[^;{}=][^;{}]*|[A-Za-z_]\w*\s*\([^;{}]*\)|[\w>.\-]+(?:\+\+|--));)', s):
        st = m.group(1)
        if re.match(r'(return|if|while|for|else|switch|case|do|sizeof|EXCEPTION_CREATE)\b', st): continue
        add(m.start(1), m.end(1), ";", "dropped")
    return r
def mutants2(t):
    """Other kinds of change: operands left out, arguments, members and variables mistaken, statements in another order."""
    s = blank(t); r = []
    def add(a, b, new, what):
        if t[a:b] != new: r.append((a, b, new, what))
    def extent(i, step):
        d = 0
        while 0 <= i < len(s):
            c = s[i]
            if c in "()[]": d += 1 if (c in "([") == (step > 0) else -1
            if d < 0 or (d == 0 and (c in ",;{}?:" or s[i - 1:i + 1] in ("&&", "||") or s[i:i + 2] in ("&&", "||") or (c == "=" and s[i - 1] not in "=!<>" and s[i + 1] != "="))): return i
            i += step
        return None
    for m in re.finditer(r'&&|\|\|', s):
        l, e = extent(m.start() - 1, -1), extent(m.end(), 1)
        if l is None or e is None: continue
        l += 1
        k = re.match(r'\s*return\b', s[l:m.start()]); l += k.end() if k else 0
        add(l, m.end(), " ", "left operand dropped"); add(m.start(), e, " ", "right operand dropped")
    for m in re.finditer(r'(?<![\w.])([1-9]\d*)(?![\w.])', s): add(m.start(), m.end(), str(int(m.group()) - 1), "number-1")
    for m in re.finditer(r'\b(break|continue);', s): add(m.start(1), m.end(1), "continue" if m.group(1) == "break" else "break", "break/continue")
    for m in re.finditer(r'\b([A-Za-z_]\w*)\s*\(', s):
        if m.group(1) in ("if", "while", "for", "switch", "return", "sizeof"): continue
        d, i, cuts = 0, m.end() - 1, [m.end()]
        while i < len(s):
            if s[i] in "([{": d += 1
            elif s[i] in ")]}":
                d -= 1
                if d == 0: break
            elif s[i] == "," and d == 1: cuts.append(i + 1)
            i += 1
        cuts.append(i + 1); args = [t[a:b - 1] for a, b in zip(cuts, cuts[1:])]
        for k in range(len(args) - 1):
            if args[k].strip() != args[k + 1].strip() and not re.search(r'\b(const|int|char|void)\b', args[k] + args[k + 1]): add(cuts[k], cuts[k + 2] - 1, args[k + 1] + "," + args[k], "arguments swapped")
    ends = [m.end() for m in re.finditer(r'^\}', s, re.M)]; starts = [0] + ends[:-1]
    for a, b in zip(starts, ends):
        body = s[a:b]; brace = body.find("{")
        if brace < 0: continue
        members = {}
        for m in re.finditer(r'\b([A-Za-z_]\w*)->([a-z]\w*)\b(?!\s*\()', body): members.setdefault(m.group(1), set()).add(m.group(2))
        for m in re.finditer(r'\b([A-Za-z_]\w*)->([a-z]\w*)\b(?!\s*\()', body):
            if m.start() < brace: continue
            for o in sorted(members[m.group(1)] - {m.group(2)})[:3]: add(a + m.start(2), a + m.end(2), o, "member")
        names = {}
        for m in re.finditer(r'(?:(?<=[(,;{])|^)[ \t\r\n]*(?:const\s+|struct\s+)*([A-Za-z_]\w*)[ \t]*(\*?)[ \t]*([a-z]\w*)[ \t]*(?=[,)=;\[])', body, re.M):
            if m.group(1) not in ("return", "else", "goto", "case", "const"): names[m.group(3)] = m.group(1).replace("fiftyoneDegrees", "") + m.group(2)
        for m in re.finditer(r'(?<![\w.>])([a-z]\w*)\b(?!\s*\()', body):
            if m.start() < brace or m.group(1) not in names: continue
            if re.search(r'[A-Za-z_]\w*\s*\*?\s*$', body[:m.start()].split("\n")[-1]) and not re.search(r'\breturn\s*$', body[:m.start()]): continue
            same = sorted(o for o in names if o != m.group(1) and names[o] == names[m.group(1)])
            if same: add(a + m.start(1), a + m.end(1), same[m.start() % len(same)], "variable")
    st = list(re.finditer(r'(?<=[;{}\n])[ \t]*\r?\n?[ \t]*((?:[A-Za-z_][\w>.\-\[\]*]*\s*(?:=|\+=|-=)[^;{}=][^;{}]*|[A-Za-z_]\w*\s*\([^;{}]*\)|[\w>.\-]+(?:\+\+|--));)', s))
    for x, y in zip(st, st[1:]):
        if s[x.end(1):y.start(1)].strip() == "" and not re.match(r'(return|EXCEPTION_CREATE)\b', x.group(1)): add(x.start(1), y.end(1), t[y.start(1):y.end(1)] + " " + t[x.start(1):x.end(1)], "statements swapped")
    return r
def mutants3(t):
    """Integers of fewer bits: in declarations within functions, parameters of static functions, and casts."""
    s = blank(t); r = []; LESS = {"uint64_t": ["uint32_t", "uint8_t"], "int64_t": ["int32_t", "int16_t"], "size_t": ["uint16_t", "uint8_t"], "uint32_t": ["uint16_t", "uint8_t"], "int32_t": ["int16_t", "int8_t"], "long": ["int16_t", "int8_t"], "int": ["int16_t", "int8_t"], "uint16_t": ["uint8_t"], "int16_t": ["int8_t"], "double": ["float"], "unsigned long": ["uint16_t"]}
    for m in re.finditer(r'(?<![\w.])(unsigned long|uint64_t|int64_t|size_t|uint32_t|int32_t|long|int|uint16_t|int16_t|double)\b(?=\s+[a-z]\w*\s*[,;=)]|\s*\)\s*[\w(])', s):
        if re.search(r'\b(sizeof\s*\(?|unsigned|const char|long)\s*$', s[:m.start()]): continue
        for n in LESS[m.group(1)]: r.append((m.start(), m.end(), n, "narrower"))
    return r
def main():
    a = sys.argv[1:]; work = os.path.abspath(a.pop(0)); o = {"--jobs": "8", "--cap": "8", "--every": "1"}
    while a:
        k = a.pop(0); o[k] = True if k in ("--full", "--second", "--third") else a.pop(0)
    os.makedirs(work, exist_ok=True)
    files = o["--files"].split(",") if "--files" in o else sorted(MAP)
    need = sorted({c for f in files for c in MAP[f].split()})
    # libraries and harnesses, unchanged
    cmds = []
    for c in need:
        for i, p in enumerate(CHECKS[c]["parts"]):
            d = f"{work}/lib_{key(p)}"; os.makedirs(d, exist_ok=True)
            for f in sorted(glob.glob(REPO + "/*.c") + glob.glob(REPO + "/*.cpp")):
                out = f"{d}/{os.path.basename(f)}.o"
                if not os.path.exists(out): cmds.append(cc(p, f) + [out])
            v = VARIANTS[p["variant"]]
            for s in p["src"]:
                cmds.append(["clang++", "-std=gnu++17"] + v["harness"] + p.get("cflags", []) + [f"-I{VERIF}/lib", "-iquote", REPO, "-c", f"{VERIF}/{s}", "-o", f"{work}/h_{c}_{i}_{os.path.basename(s)}.o"])
    cmds = [list(x) for x in {tuple(c): 0 for c in cmds}]
    with cf.ThreadPoolExecutor(8) as ex:
        for c, (rc, out) in zip(cmds, ex.map(sh, cmds)):
            if rc: print(" ".join(c), out); sys.exit(2)
    done = {}
    res = f"{work}/results.jsonl"
    if os.path.exists(res):
        for l in open(res): x = json.loads(l); done[x["id"]] = x
    log = open(res, "a")
    env = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick", LC_ALL="C", TZ="UTC")
    def run(job):
        f, n, mid, text, what, line = job
        d = f"{work}/m_{mid}"; os.makedirs(d, exist_ok=True); r = {"id": mid, "file": f, "line": line, "what": what, "src": n, "by": None}
        try:
            open(f"{d}/{f}", "w", newline="").write(text); objs = {}
            for c in MAP[f].split():
                for i, p in enumerate(CHECKS[c]["parts"]):
                    if f.endswith(".cpp") and not (p.get("cxx") is True or f in (p.get("cxx") or [])): continue
                    k = key(p)
                    if k not in objs:
                        rc, out = sh(cc(p, f"{d}/{f}") + [f"{d}/{k}.o"])
                        if rc:
                            if not objs: r["by"] = "compiler"; return r
                            continue
                        base = f"{work}/lib_{k}/{f}.o"
                        objs[k] = f"{d}/{k}.o"
                    lib = [x for x in glob.glob(f"{work}/lib_{k}/*.o") if (x.endswith(".c.o") or p.get("cxx") is True or os.path.basename(x)[:-2] in (p.get("cxx") or [])) and os.path.basename(x) != f + ".o" and os.path.basename(x)[:-2] not in p.get("exclude", [])]
                    v = VARIANTS[p["variant"]]
                    rc, out = sh(["clang++"] + v["link"] + lib + [objs[k]] + [f"{work}/h_{c}_{i}_{os.path.basename(s)}.o" for s in p["src"]] + p.get("ld", []) + ["-o", f"{d}/check", "-lpthread", "-latomic"])
                    if rc: r["by"] = "linker " + out[-300:]; return r
                    sc = f"{d}/s"; shutil.rmtree(sc, ignore_errors=True); os.makedirs(sc)
                    cmd = [f"{d}/check", "--property", c, "--scratch", sc, "--replaydir", f"{d}/replay", "--level", "exploration", "--workers", "1", "--cap", o["--cap"], "--shrink", "0"]
                    if c == "C10": cmd += ["--known", "handle-seen-after-free=x"]
                    try: q = subprocess.run(cmd, cwd=sc, capture_output=True, text=True, errors="replace", env=env, timeout=240)
                    except subprocess.TimeoutExpired: r["by"] = c + " (timeout)"; return r
                    if q.returncode: r["by"] = c if q.returncode == 1 else f"{c} (exit {q.returncode})"; return r
            if o.get("--full"):
                rr = f"{d}/repo"; os.makedirs(rr)
                for x in glob.glob(REPO + "/*.*"):
                    if os.path.isfile(x): shutil.copy(x, rr)
                shutil.copy(f"{d}/{f}", rr)
                for c in MAP[f].split() + ["C31"] * f.endswith(".c"):
                    q = subprocess.run([sys.executable, f"{HERE}/check.py", c, "--shrink0"], capture_output=True, text=True, errors="replace", env=dict(env, VERIF_REPO=rr))
                    if q.returncode: r["by"] = c + " (full)" + ("" if q.returncode == 1 else f" exit {q.returncode}"); return r
            return r
        finally:
            shutil.rmtree(d, ignore_errors=True)
    jobs = []
    for f in files:
        t = open(f"{REPO}/{f}", newline="").read()
        for n, (x, y, new, what) in enumerate((mutants3 if "--third" in o else mutants2 if "--second" in o else mutants)(t)):
            if int(hashlib.sha1(f"{f}:{n}".encode()).hexdigest(), 16) % int(o["--every"]): continue
            line = t.count("\n", 0, x) + 1
            ls = t.rfind("\n", 0, x) + 1; le = t.find("\n", y); le = len(t) if le < 0 else le
            shown = (t[ls:x] + "[" + t[x:y] + " -> " + new + "]" + t[y:le]).strip()
            mid = hashlib.sha1(f"{f}:{t[:x].count(chr(10))}:{x - ls}:{what}:{new}:{t[ls:le]}".encode()).hexdigest()[:12]
            if mid in done: continue
            jobs.append((f, shown[:300], mid, t[:x] + new + t[y:], what, line))
    print(len(jobs), "mutants"); sys.stdout.flush(); t0 = time.time()
    with cf.ThreadPoolExecutor(int(o["--jobs"])) as ex:
        for k, r in enumerate(ex.map(run, jobs)):
            log.write(json.dumps(r) + "\n"); log.flush()
            if r["by"] is None: print(f"SURVIVED {r['file']}:{r['line']} {r['what']}: {r['src']}"); sys.stdout.flush()
            if k % 100 == 99: print(f"{k + 1} of {len(jobs)} after {time.time() - t0:.0f} s"); sys.stdout.flush()
if __name__ == "__main__": main()
