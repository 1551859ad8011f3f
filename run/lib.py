"""Building, driving the real code and validating its traces with TLC."""
import fcntl, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(ROOT, "build")
TLA = "/opt/veriftools/tla"
JARS = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"
WORKERS = max(2, min(8, os.cpu_count() or 2))


class ToolError(Exception):
    pass


def sh(cmd, cwd=None, env=None, timeout=None):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def newest(paths):
    t = 0
    for p in paths:
        for d, _, fs in os.walk(p):
            for f in fs:
                t = max(t, os.stat(os.path.join(d, f)).st_mtime)
    return t


def build_java():
    src = os.path.join(ROOT, "java/vk/Prim.java")
    out = os.path.join(BUILD, "classes")
    stamp = os.path.join(out, "vk/Prim.class")
    if os.path.exists(stamp) and os.stat(stamp).st_mtime >= os.stat(src).st_mtime:
        return
    os.makedirs(out, exist_ok=True)
    rc, o = sh(["javac", "-cp", JARS, "-d", out, src])
    if rc:
        raise ToolError("javac failed\n" + o)


def forget_stale():
    """cargo goes by modification times; sources may also change to older files"""
    repo, h = os.path.join(ROOT, "../repo"), hashlib.sha256()
    for d, ds, fs in sorted(os.walk(repo)):
        ds[:] = [x for x in ds if x not in ("target", ".git")]
        for f in sorted(fs):
            if f.endswith((".rs", ".toml", ".txt", ".lock")):
                h.update(f"{d}/{f}\0".encode() + open(os.path.join(d, f), "rb").read())
    mark = os.path.join(BUILD, "repo.sha256")
    old = open(mark).read() if os.path.exists(mark) else ""
    if old == h.hexdigest():
        return
    for d in glob.glob(os.path.join(BUILD, "target/*/.fingerprint/*")):
        if re.match(r"(tesseract|bip39|secp256k1_bip32|rust_keychain|rust-keychain|kc|driver|harness)", os.path.basename(d)):
            shutil.rmtree(d)
    with open(mark, "w") as f:
        f.write(h.hexdigest())


def build_driver(profile="debug"):
    env = {"CARGO_TARGET_DIR": os.path.join(BUILD, "target"), "CARGO_NET_OFFLINE": "true", "RUSTFLAGS": "-Awarnings"}
    cmd = ["cargo", "build", "--offline", "--locked", "-q"] + (["--release"] if profile == "release" else [])
    rc, o = sh(cmd, cwd=os.path.join(ROOT, "harness"), env=env, timeout=1500)
    if rc:
        raise ToolError("cargo build failed\n" + o[-6000:])


def prepare(profiles):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        build_java()
        forget_stale()
        for p in profiles:
            build_driver(p)


def driver(profile):
    return os.path.join(BUILD, "target", profile, "driver")


class Script:
    def __init__(self, name, ops, ledger=False, profile="debug", mode="full", timeout=120, env=None, repeat=1):
        self.name, self.ops, self.ledger, self.profile, self.mode = name, ops, ledger, profile, mode
        self.timeout, self.env, self.repeat = timeout, env or {}, repeat


def drive(s, work):
    """Runs the script; returns the recorded events, with a synthesised last one if the process died.
    A script may be repeated: the same calls in another process, as one history."""
    sp, tp = os.path.join(work, s.name + ".ndj"), os.path.join(work, s.name + ".tr")
    with open(sp, "w") as f:
        for o in s.ops:
            f.write(json.dumps(o, separators=(",", ":")) + "\n")
    if s.repeat == 1:
        how, msg = drive1(s, sp, tp, work)
        return tp, how, msg
    with open(tp, "wb") as out:
        for k in range(s.repeat):
            if k:
                out.write(b'{"op":"reset","r":{"k":"ok"}}\n')
            how, msg = drive1(s, sp, tp + f".{k}", work)
            out.write(open(tp + f".{k}", "rb").read())
            if how:
                break
    return tp, how, msg


def drive1(s, sp, tp, work):
    cmd = [driver(s.profile), sp, tp] + (["--ledger"] if s.ledger else [])
    env = dict(os.environ)
    env.update(s.env)
    err = open(tp + ".err", "w+b")
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=err, env=env, cwd=work)
    try:
        rc = p.wait(timeout=s.timeout)
        how = "crash" if rc not in (0, 3) else None
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        rc, how = -1, "hang"
    err.seek(0)
    msg = err.read().decode("utf-8", "replace")[-2000:]
    err.close()
    if rc == 3:
        how = "script"
    if how in ("crash", "hang"):
        try:
            n = int(open(tp + ".pos").read())
        except (OSError, ValueError):
            raise ToolError(f"driver did not start: {rc} {msg}")
        data = open(tp, "rb").read()
        keep = data[: data.rfind(b"\n") + 1]
        ev = dict(s.ops[n]) if n < len(s.ops) else {"op": "end"}
        ev["r"] = {"k": how}
        ev["status"] = rc
        with open(tp, "wb") as f:
            f.write(keep + (json.dumps(ev) + "\n").encode())
    return how, msg


def tlc(module, cfg, env=None, args=(), work=None, timeout=900, heap="2g", workers="1", concrete=True, gc="Serial", light=False):
    meta = os.path.join(work or BUILD, f"meta-{os.getpid()}-{time.monotonic_ns()}")
    over = ["-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:vk.Prim"] if concrete else []
    cmd = ["java"] + (["-XX:TieredStopAtLevel=1"] if light else []) + [f"-XX:+Use{gc}GC", f"-Xmx{heap}", "-Xss64m", "-Dfile.encoding=UTF-8"] + over + [
        "-cp", f"{BUILD}/classes:{JARS}", "tlc2.TLC", "-workers", workers, "-noGenerateSpecTE",
        "-metadir", meta, "-config", cfg] + list(args) + [module]
    try:
        rc, o = sh(cmd, cwd=os.path.join(ROOT, "spec"), env=env, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC on {module} did not finish within {timeout} s")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return rc, o


def brief_tlc(o):
    keep = [l for l in o.splitlines() if not re.match(r"(Parsing file|Semantic processing|Warning: Please|TLC2|Running|Starting|Progress)", l)]
    return "\n".join(keep)[-2500:]


class Verdict:
    def __init__(self, ok, matched, total, note=""):
        self.ok, self.matched, self.total, self.note = ok, matched, total, note


def validate(trace, mode="full", work=None, timeout=800):
    n = kdf = 0
    for line in open(trace, "rb"):
        n += 1
        kdf += b'"pw":' in line
    if n == 0:
        return Verdict(True, 0, 0)
    env = {"TRACE": trace, "MODE": mode}
    rc, o = tlc("Trace", "Trace.cfg", env=env, work=work, timeout=timeout, light=kdf < 40 and n < 3000)  # short runs are over before C2 pays
    m = re.search(r'<<"MATCHED", (\d+), (\d+)>>', o)
    if m:
        a, b = int(m.group(1)), int(m.group(2))
        if b != n:
            raise ToolError(f"trace length {n}, TLC read {b}")
        return Verdict(a == b, a, b)
    # the specification has no meaning for what happened: as bad as not admitting it
    if "The error occurred when TLC was evaluating the nested" in o or "The behavior up to this point is" in o:
        states = [int(x) for x in re.findall(r"^State (\d+):", o, re.M)]
        ls = [int(x) for x in re.findall(r"^/\\ l = (\d+)$", o, re.M)]
        if ls:
            err = re.search(r"Error: (.*?)Error: The behavior", o, re.S)
            return Verdict(False, ls[-1] - 1, n, "evaluation: " + (err.group(1).strip()[:300] if err else ""))
    raise ToolError(f"TLC on {trace}: {brief_tlc(o)}")


def corrupt(ev):
    """The same event with another outcome."""
    e = json.loads(json.dumps(ev))
    r = e["r"]
    if r["k"] != "ok":
        e["r"] = {"k": "err", "e": "Corrupted"} if r["k"] == "err" else {"k": "ok"}
        return e
    for k in ("b", "t", "s", "pt", "d"):
        if isinstance(r.get(k), str) and r[k]:
            c = r[k][-1]
            r[k] = r[k][:-1] + ("1" if c != "1" else "2")
            return e
    if isinstance(r.get("v"), bool):
        r["v"] = not r["v"]
        return e
    e["r"] = {"k": "err", "e": "Corrupted"}
    return e
