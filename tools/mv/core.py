"""Running TLC and the harness, comparing their observations."""
import json, os, re, subprocess, sys, tempfile, time, hashlib, shutil

ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = "/repo"
SPEC = os.path.join(ROOT, "spec")
BUILD = os.path.join(ROOT, ".build")
TARGET = os.environ.get("VERIF_TARGET") or os.path.join(REPO, "target")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

class ToolError(Exception):
    pass

def env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="nightly-2025-12-04", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
             CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
             CARGO_TARGET_DIR=TARGET)
    for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "LD_LIBRARY_PATH"):
        e.pop(k, None)
    return e

def source_stamp():
    h = hashlib.sha256()
    for base in ("crates", "Cargo.toml"):
        p = os.path.join(REPO, base)
        if os.path.isfile(p):
            h.update(open(p, "rb").read()); continue
        for d, dirs, files in sorted(os.walk(p)):
            dirs[:] = sorted(x for x in dirs if x not in ("target", ".git"))
            for f in sorted(files):
                if f.endswith((".rs", ".toml", ".json", ".sol")):
                    q = os.path.join(d, f)
                    h.update(q.encode()); h.update(open(q, "rb").read())
    return h.hexdigest()

_built = False
def build():
    """Harness on /repo's current working tree."""
    global _built
    if _built:
        return os.path.join(TARGET, "debug", "mega-harness")
    subprocess.run([sys.executable, os.path.join(ROOT, "tools", "mirror.py")], check=True)
    stamp = source_stamp()
    sf = os.path.join(BUILD, "stamp")
    old = open(sf).read() if os.path.exists(sf) else ""
    if old != stamp:
        # cargo decides by modification times; contents are what counts
        subprocess.run(["cargo", "clean", "--offline", "-p", "mega-evm", "-p", "mega-system-contracts", "-p", "state-test"],
                       cwd=os.path.join(ROOT, "harness"), env=env(), capture_output=True)
        if os.path.exists(sf): os.unlink(sf)
    r = subprocess.run(["cargo", "build", "--offline", "--locked", "--bin", "mega-harness"], cwd=os.path.join(ROOT, "harness"), env=env(),
                       capture_output=True, text=True)
    if r.returncode != 0:
        raise ToolError("harness build failed:\n" + r.stderr[-4000:])
    with open(sf, "w") as f: f.write(stamp)
    _built = True
    return os.path.join(TARGET, "debug", "mega-harness")

def workdir():
    d = os.path.join(BUILD, "work"); os.makedirs(d, exist_ok=True)
    return tempfile.mkdtemp(dir=d)

class Tlc:
    def __init__(self): self.states = 0; self.distinct = 0; self.runs = 0; self.depth = 0; self.init = 0
TLC = Tlc()

def tlc(module, cfg=None, envs=None, heap="6g", workers="8", extra=(), timeout=840, allow_violation=False):
    """Runs TLC; returns its output.  Raises ToolError when the run itself fails."""
    meta = workdir()
    try:
        e = dict(os.environ); e.update(envs or {})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + meta, "-cp", JAR, "tlc2.TLC", "-config", cfg or module + ".cfg",
               "-workers", workers, "-metadir", meta, "-noGenerateSpecTE", *extra, module + ".tla"]
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = r.stdout
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if m: TLC.states += int(m[-1][0]); TLC.distinct += int(m[-1][1])
    m = re.findall(r"depth of the complete state graph search is (\d+)", out)
    if m: TLC.depth = max(TLC.depth, int(m[-1]))
    TLC.runs += 1
    m = re.findall(r"Finished computing initial states: (\d+) (?:distinct )?states?", out)
    if m: TLC.init += int(m[-1])
    if "Model checking completed. No error has been found." not in out and "Finished in" in out and "-simulate" in extra:
        return out
    if "Model checking completed. No error has been found." not in out:
        if allow_violation and "is violated" in out:
            return out
        out = "\n".join(l for l in out.splitlines() if not l.startswith('"EXP '))
        i = out.find("Error:")
        raise ToolError("TLC failed on %s:\n%s\n%s" % (module, out[i:i + 1500] if i >= 0 else out[-3000:], r.stderr[-500:]))
    return out

def exp_lines(out, tag="EXP"):
    res = []
    pre = '"%s ' % tag
    for line in out.splitlines():
        if line.startswith(pre):
            res.append(json.loads(json.loads(line)[len(tag) + 1:]))
    return res

def write_ndjson(path, rows):
    with open(path, "w") as f:
        for r in rows: f.write(json.dumps(r) + "\n")

def run_spec(module, scens, chunk=4000, **kw):
    """Expected outcomes {id: out} computed by TLC."""
    exp = {}
    for i in range(0, len(scens), chunk):
        d = workdir()
        try:
            p = os.path.join(d, "s.ndjson"); write_ndjson(p, scens[i:i + chunk])
            for r in exp_lines(tlc(module, envs={"SCEN": p}, **kw)): exp[r["id"]] = r["out"]
        finally:
            shutil.rmtree(d, ignore_errors=True)
    missing = [s["id"] for s in scens if s["id"] not in exp]
    if missing: raise ToolError("TLC gave no outcome for %s" % missing[:5])
    return exp

def run_impl(kind, scens):
    exe = build()
    d = workdir()
    try:
        p, q = os.path.join(d, "s.ndjson"), os.path.join(d, "o.ndjson")
        write_ndjson(p, scens)
        r = subprocess.run([exe, kind, p, q], capture_output=True, text=True, timeout=840)
        rows = [json.loads(l) for l in open(q)] if os.path.exists(q) else []
        if r.returncode != 0 or len(rows) != len(scens):
            # the process died (stack overflow, abort): find the scenario that did it
            return run_isolated(exe, kind, scens, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    res = {}
    for s, row in zip(scens, rows):
        if "tool_error" in row: raise ToolError("harness: %s in scenario %s" % (row["tool_error"], s["id"]))
        res[s["id"]] = row
    return res

def run_isolated(exe, kind, scens, d):
    res = {}
    def go(part):
        p, q = os.path.join(d, "i.ndjson"), os.path.join(d, "io.ndjson")
        if os.path.exists(q): os.unlink(q)
        write_ndjson(p, part)
        r = subprocess.run([exe, kind, p, q], capture_output=True, text=True, timeout=840)
        if r.returncode == 0:
            for s, l in zip(part, open(q)):
                row = json.loads(l)
                if "tool_error" in row: raise ToolError("harness: %s in scenario %s" % (row["tool_error"], s["id"]))
                res[s["id"]] = row
        elif len(part) == 1:
            res[part[0]["id"]] = {"id": part[0]["id"], "crash": "process died: rc %d %s" % (r.returncode, r.stderr[-300:])}
        else:
            h = len(part) // 2
            go(part[:h]); go(part[h:])
    go(scens)
    return res

def explore(cfgs, **kw):
    """All complete histories of the configurations: (scenarios, expected outcomes)."""
    d = workdir()
    try:
        p = os.path.join(d, "s.ndjson"); write_ndjson(p, cfgs)
        rows = exp_lines(tlc("Explore", envs={"SCEN": p}, **kw))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    by = {c["id"]: c for c in cfgs}
    scens, exp = [], {}
    for n, r in enumerate(sorted(rows, key=lambda r: (r["id"], json.dumps(r["code"], sort_keys=True)))):
        c = {k: v for k, v in by[r["id"]].items() if k not in ("alpha", "ends", "iends", "max", "depth")}
        s = dict(c, id="%s~%d" % (r["id"], n), code=r["code"], marks=False)
        scens.append(s); exp[s["id"]] = r["out"]
    return scens, exp
