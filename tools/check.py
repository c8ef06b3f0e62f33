#!/usr/bin/env python3
"""Decides one property: model-checks the specification modules it rests on, runs the real library
over generated histories in two build profiles, and validates every recorded history with TLC
against the specification.

usage: check.py PROPERTY            VERIF_SEED, VERIF_TIER from the environment
       check.py --witness           shows that the models reach what their invariants are about
       check.py --setup             build everything, check the specification's arithmetic
       check.py --replay FILE       run one recorded counterexample again
exit: 0 held, 1 broken (VIOLATION line), 2 the check itself failed
"""
import collections
import concurrent.futures as cf
import fcntl
import fractions
import hashlib
import json
import os
import random
import re
import resource
import shutil
import subprocess
import sys
import time

import gens

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
TARGET = os.path.join(BUILD, "target")
CLASSES = os.path.join(BUILD, "classes")
TLA = "/opt/veriftools/tla"
JARS = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"
CPUS = 8


class ToolError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# --- building ---------------------------------------------------------------------------------

def cargo_env():
    e = dict(os.environ)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
             CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", CARGO_TARGET_DIR=TARGET, RUSTC_WRAPPER="",
             PATH="/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin"))
    for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "RUST_BACKTRACE", "CARGO_PROFILE_DEV_DEBUG"):
        e.pop(k, None)
    return e


def source_sums():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, "src"), os.path.join(VERIF, "harness", "src")):
        for d, _, fs in sorted(os.walk(base)):
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                h.update(open(p, "rb").read())
    for p in (os.path.join(REPO, "Cargo.toml"), os.path.join(VERIF, "harness", "Cargo.toml")):
        h.update(open(p, "rb").read())
    return h.hexdigest()


def run(cmd, what, timeout=600, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, **kw)
    except subprocess.TimeoutExpired:
        raise ToolError(f"{what}: no answer within {timeout} s")
    if p.returncode:
        raise ToolError(f"{what} failed ({p.returncode}):\n{p.stdout[-4000:]}")
    return p.stdout


def build():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        harness = os.path.join(VERIF, "harness")
        env = cargo_env()
        # cargo goes by modification times alone; sources put back with old times need a clean build
        sums, note = source_sums(), os.path.join(BUILD, "sums")
        if not (os.path.exists(note) and open(note).read() == sums):
            if os.path.isdir(TARGET):
                run(["cargo", "clean", "--offline", "-p", "clarith", "-p", "clarith-driver"], "cargo clean", cwd=harness, env=env)
            if os.path.exists(note):
                os.remove(note)
        for flags in ([], ["--release"]):
            run(["cargo", "build", "--offline", "--quiet"] + flags, "cargo build of the driver", cwd=harness, env=env)
        with open(note, "w") as f:
            f.write(sums)
        src, cls = os.path.join(VERIF, "java", "NumOverrides.java"), os.path.join(CLASSES, "NumOverrides.class")
        if not os.path.exists(cls) or os.path.getmtime(cls) < os.path.getmtime(src):
            os.makedirs(CLASSES, exist_ok=True)
            run(["javac", "-cp", f"{TLA}/tla2tools.jar", "-d", CLASSES, src], "javac")
        pure = os.path.join(BUILD, "pure")
        os.makedirs(pure, exist_ok=True)
        t = open(os.path.join(SPEC, "big", "Num.tla")).read().replace("MODULE Num ", "MODULE NumPure ")
        with open(os.path.join(pure, "NumPure.tla"), "w") as f:
            f.write(t)


# --- TLC --------------------------------------------------------------------------------------

STATS = re.compile(r"^(\d+) states generated, (\d+) distinct states found, (\d+) states left", re.M)


def tlc_cmd(work, name, spec, cfg, big, workers, mem, extra=()):
    libs = [os.path.join(SPEC, "big" if big else "native"), os.path.join(SPEC, "core"), os.path.join(BUILD, "pure")]
    md = os.path.join(work, name + ".md")
    os.makedirs(md, exist_ok=True)
    over = ["-Dtlc2.overrides.TLCOverrides=NumOverrides:tlc2.overrides.TLCOverrides"] if big else []
    gc = ["-XX:+UseSerialGC", f"-Xmn{mem // 2}m"] if big else ["-XX:+UseParallelGC"]
    cp = (CLASSES + ":" if big else "") + JARS
    return (["java"] + gc + [f"-Xmx{mem}m", "-Xss256m", f"-Djava.io.tmpdir={md}"] + over +
            [f"-DTLA-Library={':'.join(libs)}", "-cp", cp, "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers),
             "-metadir", md, "-config", cfg] + list(extra) + [spec])


def tlc(work, name, spec, cfg, big=False, workers=4, mem=3000, env=None, extra=(), timeout=800):
    cmd = tlc_cmd(work, name, spec, cfg, big, workers, mem, extra)
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=e, cwd=work)
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC on {name}: no answer within {timeout} s")
    shutil.rmtree(os.path.join(work, name + ".md"), ignore_errors=True)
    return p.returncode, p.stdout


def fill(template, out, sub):
    t = open(template).read()
    for k, v in sub.items():
        t = t.replace(f"@{k}@", str(v))
    if "@" in t:
        raise ToolError(f"{template}: placeholders left")
    with open(out, "w") as f:
        f.write(t)
    return out


def model(work, seed, m):
    """exhaustive check of one instance of the specification"""
    module, params, workers = m["module"], m.get("params", {}), m.get("workers", 4)
    name = "model-" + m["name"]
    t0 = time.time()
    d = os.path.join(SPEC, "mc")
    cfg = fill(os.path.join(d, m.get("cfg", module + ".cfg.in")), os.path.join(work, name + ".cfg"), params)
    extra = ["-seed", str(seed), "-fp", str(seed % 64)] if m.get("seeded") else []
    rc, out = tlc(work, name, os.path.join(d, module + ".tla"), cfg, big=m.get("big", False), workers=workers,
                  mem=m.get("mem", 4000), extra=extra, timeout=m.get("timeout", 800))
    s = STATS.findall(out)
    if rc or not s or s[-1][2] != "0" or "No error has been found" not in out:
        raise ToolError(f"the specification model {m['name']} does not hold or did not finish (TLC exit {rc}):\n{out[-3000:]}")
    return dict(model=m["name"], module=module, bounds=params, distinct_states=int(s[-1][1]), generated=int(s[-1][0]),
                wall_s=round(time.time() - t0, 1))


# --- running the library ----------------------------------------------------------------------

def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def drive_part(work, profile, tag, lines, limit_ms, company=0, mem=False):
    """runs the driver over the lines; a case that hangs or kills the process becomes such a record"""
    drv = os.path.join(TARGET, profile, "clarith-driver")
    base = os.path.join(work, f"{tag}")
    script, out, so = base + ".script", base + ".out", base + ".stdout"
    with open(script, "w") as f:
        f.write("\n".join(lines) + "\n")
    open(out, "w").close()
    start, recs, bad = 0, [], 0
    env = dict(os.environ, DRIVER_LIMIT_MS=str(limit_ms), DRIVER_COMPANY=str(company), DRIVER_CROWD=str(70000 if company else 0), DRIVER_MEM=str(int(mem)))
    env.pop("RUST_BACKTRACE", None)
    while True:
        with open(so, "w") as sf:
            try:
                p = subprocess.run([drv, script, out, so, str(start)], stdout=sf, stderr=sf, stdin=subprocess.DEVNULL,
                                   env=env, preexec_fn=limits, cwd=work, timeout=800)
            except subprocess.TimeoutExpired:
                raise ToolError("the driver did not finish")
        got = [l for l in open(out).read().split("\n") if l]
        if p.returncode == 0:
            recs = [json.loads(l) for l in got]
            break
        if p.returncode == 5:
            raise ToolError("the driver rejected its script")
        kind = "hang" if p.returncode == 3 else "crash"
        good = []
        for l in got:
            if l.startswith("HANG"):
                continue
            try:
                json.loads(l)
                good.append(l)
            except ValueError:
                pass
        k = len(good)
        if k >= len(lines):
            raise ToolError(f"the driver failed at its end ({p.returncode})")
        cid = lines[k].split("|", 1)[0]
        good.append(json.dumps({"id": int(cid), "ev": [{"op": kind, "res": kind, "out": 0}]}))
        with open(out, "w") as f:
            f.write("\n".join(good) + "\n")
        start = k + 1
        bad += 1
        if bad >= 3 or start >= len(lines):      # enough evidence; leave the rest of this part out
            recs = [json.loads(l) for l in good]
            break
    return recs


def drive(work, profile, cases, parts, pool, limit_ms=10000, tag="", company=0, mem=False):
    step = (len(cases) + parts - 1) // parts
    futs = []
    for i in range(0, len(cases), step):
        lines = [f"{cid}|" + "|".join(ops) for cid, ops in cases[i:i + step]]
        futs.append(pool.submit(drive_part, work, profile, f"{tag}{profile}-{i}", lines, limit_ms, company, mem))
    return futs


# --- histories generated by TLC from the specification ------------------------------------------

def num(l):
    v = 0
    for d in reversed(l[1:]):
        v = v * 10000 + d
    return -v if l[0] < 0 else v


def history_ops(h):
    ops = []
    for e in h:
        o = e["op"]
        c = " ".join(str(num(v)) for v in e.get("c", []))
        if o == "R":
            ops.append(f"R {e['dst']} {c}")
        elif o == "V":
            ops.append(f"V {e['dst']} {int(e['pos'])} {c}")
        elif o == "S":
            ops.append(f"S {e['dst']} {e['v']}")
        elif o == "H":
            ops.append(f"H {e['dst']} {e['x']} {c}")
        elif o == "B":
            ops.append(f"B {e['dst']} {e['x']} {e['y']} {c}")
        elif o == "C":
            ops.append(f"C {e['x']} {e['y']}")
        elif o in "ED":
            ops.append(f"{o} {e['x']} {e['k']}")
        elif o == "W":
            ops.append(f"W {e['dst']} {e['x']} {e['p']}")
        elif o == "Q":
            ops.append(f"Q {e['as']} {e['x']}")
        elif o in "KM":
            ops.append(f"{o} {e['dst']} {e['x']}")
        elif o == "X":
            ops.append(f"X {e['x']}")
    return ops + [f"D {r} 1" for r in range(5)]


def simulate(work, seed, n, steps, big, k):
    name = f"gen-{k}"
    d = os.path.join(SPEC, "gen")
    cfg = fill(os.path.join(d, "gen.cfg.in"), os.path.join(work, name + ".cfg"), dict(STEPS=steps, BIG=big))
    rc, out = tlc(work, name, os.path.join(d, "ClarithGen.tla"), cfg, big=True, workers=1, mem=1500,
                  extra=["-simulate", f"num={n}", "-depth", str(steps + 6), "-seed", str(seed)], timeout=60 + n // 20)
    hs = []
    for l in out.splitlines():
        if l.startswith('"HISTORY '):
            hs.append(history_ops(json.loads(json.loads(l)[len("HISTORY "):])))
    if rc or len(hs) < n // 4:
        raise ToolError(f"TLC simulation gave {len(hs)} of {n} histories (exit {rc}):\n{out[-2000:]}")
    return hs


# --- trace validation ----------------------------------------------------------------------------

def fail_point(out):
    """(tid, l) of the last state TLC printed"""
    tid = re.findall(r"^/\\ tid = (\d+)", out, re.M)
    l = re.findall(r"^/\\ l = (\d+)", out, re.M)
    if not tid or not l:
        raise ToolError("cannot read TLC's counterexample:\n" + out[-2000:])
    return int(tid[-1]), int(l[-1])


def top(rec):
    """the highest register of a record"""
    return max([0] + [e.get(f, 0) for e in rec["ev"] for f in ("dst", "x", "y")])


def trace_module(prop):
    """the module that validates the property's records, and its configuration"""
    d = os.path.join(SPEC, "trace")
    m, c = ("MemoryTrace.tla", "memory.cfg.in") if prop == "C16" else ("ClarithTrace.tla", "trace.cfg.in")
    return os.path.join(d, m), os.path.join(d, c)


def validate_part(work, prop, k, recs, workers):
    """TLC accepts all records, or names the first one that breaks the property"""
    f = os.path.join(work, f"trace-{k}.ndjson")
    with open(f, "w") as o:
        for i, rec in enumerate(recs):
            o.write(json.dumps(rec, separators=(",", ":")) + "\n")
    module, template = trace_module(prop)
    res = dict(states=0, generated=0, abandoned=0, fail=None, n=len(recs))
    regs = ",".join(map(str, range(max([7] + [top(rec) for rec in recs]) + 1)))
    for blame in ("FALSE", "TRUE"):
        cfg = fill(template, os.path.join(work, f"trace-{k}.cfg"), dict(PROP=prop, BLAME=blame, CANARY="FALSE", REGS=regs))
        rc, out = tlc(work, f"trace-{k}", module, cfg, big=True, workers=workers,
                      mem=3500, env={"TRACE": f})
        s = STATS.findall(out)
        if rc == 0 and s and "No error has been found" in out:
            res["generated"], res["states"] = int(s[-1][0]), int(s[-1][1])
            want = sum(len(r["ev"]) + 1 for r in recs)
            res["abandoned"] = len(set(re.findall(r'<<"abandoned", (\d+), \d+>>', out)))
            if res["states"] != want and not res["abandoned"]:
                raise ToolError(f"TLC saw {res['states']} states of {want} in the trace")
            return res
        if rc == 11 and "Deadlock reached" in out:
            if blame == "TRUE":
                res["fail"] = fail_point(out)
                return res
            continue
        raise ToolError(f"TLC failed on trace {k} (exit {rc}):\n{out[-3000:]}")
    return res


HEADS = ["Z", "P", "N", "-", "T", "R", "G"]


def falsified(r, prop, rec):
    """the record with one observation changed so that it cannot be right, and the place; or None"""
    spots, made = [], 0
    for i, e in enumerate(rec["ev"]):
        if prop == "C12":
            spots.append((i, dict(e, out=e["out"] + 1)))
        elif prop == "C16":      # too much, at least since the last Number was made
            spots.append((i, dict(e, peak=512 * (made + 1) + r.choice([1, 8, 4096]))))
            made += e["op"] in ("ratio", "ratio_u", "homographic", "combine")
            spots.append((i, dict(e, mem=r.choice([1, 16]) if e["op"] == "end" else 512 * made + r.choice([1, 8, 4096]))))
        elif e["op"] in ("ratio", "ratio_u", "homographic", "combine", "unwrap") and e["res"] in HEADS:
            spots.append((i, dict(e, res=r.choice([h for h in HEADS if h != e["res"]]))))
        elif e["op"] == "compare" and e["res"] in ("lt", "eq", "gt"):
            spots.append((i, dict(e, res=r.choice([o for o in ("lt", "eq", "gt") if o != e["res"]]))))
        elif e["op"] == "consume" and e["res"] == "none":
            spots.append((i, dict(e, c=[e["c"][0], limbs(num(e["c"][1]) + r.choice([-1, 1]))] + e["c"][2:])))
        elif e["op"] == "egest" and e["syms"]:
            k = r.randrange(len(e["syms"]))
            t = r.choice([s for s in (0, 1, 2) if s != e["syms"][k]])
            spots.append((i, dict(e, syms=e["syms"][:k] + [t] + e["syms"][k + 1:])))
        elif e["res"] == "div0":
            spots.append((i, dict(e, res=r.choice(HEADS))))
    if not spots:
        return None
    i, e = r.choice(spots)
    out = dict(rec, ev=rec["ev"][:i] + [e] + rec["ev"][i + 1:])
    if prop == "C17":
        return dict(rec, again=out["ev"]), 1
    if "again" in rec:
        if r.random() < .3:      # only the repetition differs
            return dict(rec, again=out["ev"]), len(rec["ev"])
        out["again"] = out["ev"]
    return out, i + 1


def canaries(work, prop, seed, recs, n=150):
    """TLC must refuse records of conforming runs in which one observation was falsified"""
    r = random.Random(f"canary/{prop}/{seed}")
    small = [rec for rec in recs if top(rec) <= 7 and len(rec["ev"]) < 60]
    bad = [b for b in (falsified(r, prop, rec) for rec in r.sample(small, min(n, len(small)))) if b]
    f = os.path.join(work, "canary.ndjson")
    with open(f, "w") as o:
        for rec, _ in bad:
            o.write(json.dumps(rec, separators=(",", ":")) + "\n")
    module, template = trace_module(prop)
    cfg = fill(template, os.path.join(work, "canary.cfg"),
               dict(PROP=prop, BLAME="FALSE", CANARY="TRUE", REGS="0,1,2,3,4,5,6,7"))
    rc, out = tlc(work, "canary", module, cfg, big=True, workers=2, mem=1500, env={"TRACE": f})
    got = {(int(a), int(b)) for a, b in re.findall(r'<<"refused", (\d+), (\d+)>>', out)}
    want = {(i + 1, l) for i, (_, l) in enumerate(bad)}
    if rc or not bad or got != want:
        raise ToolError(f"{len(want - got)} of {len(bad)} falsified records were not refused where they should be (TLC exit {rc}): "
                        f"{[bad[i - 1] for i, _ in sorted(want - got)[:2]]}\n{out[-600:] if rc else ''}")
    return len(bad)


# --- properties ----------------------------------------------------------------------------------

def mach(name, kind, low, high, t, sample, w, panic=True, after=2, spec="MCSpec", timeout=800, room=0):
    return dict(name=name, module="MCMachine", seeded=True, timeout=timeout,
                params=dict(SPEC=spec, WMAX=w, ROOM=room, AFTER=after, KIND=kind, CLOW=low, CHIGH=high, T=t, SAMPLE=sample,
                            NOPANIC="NoPanic" if panic else "LatePanic" if room else "", LIVE="Finishes" if spec == "MCLive" else ""))


BIGW = 8191
Q = "quick"
MODELS = {
    "C01": {Q: [mach("ratio", "ratio", 32, 31, 1, 0, 31, spec="MCLive")],
            "thorough": [mach("ratio", "ratio", 128, 127, 1, 0, 127, spec="MCLive")]},
    "C02": {Q: [mach("hom-extract", "hom", 3, 3, 5, 0, BIGW, after=3), mach("com-extract", "com", 1, 1, 3, 500, BIGW, after=3)],
            "thorough": [mach("hom-extract", "hom", 5, 5, 8, 0, BIGW, after=4), mach("com-extract", "com", 1, 1, 4, 3000, BIGW, after=4)]},
    "C03": {Q: [dict(name="order", module="MCOrder", params=dict(T=14))],
            "thorough": [dict(name="order", module="MCOrder", params=dict(T=30))]},
    "C04": {Q: [mach("hom", "hom", 4, 4, 5, 0, BIGW)],
            "thorough": [mach("hom", "hom", 6, 6, 7, 0, BIGW), mach("hom-live", "hom", 2, 2, 5, 0, BIGW, spec="MCLive")]},
    "C05": {Q: [mach("com", "com", 1, 1, 3, 1200, BIGW)],
            "thorough": [mach("com-all", "com", 1, 1, 3, 0, BIGW), mach("com-wide", "com", 4, 4, 4, 2000, BIGW)]},
    "C06": {Q: [dict(name="store", module="MCClarith", params=dict(REGS="{1,2}", N=2, K=0, B=3), workers=6)],
            "thorough": [dict(name="store", module="MCClarith", params=dict(REGS="{1,2}", N=2, K=1, B=4), workers=8)]},
    "C07": {Q: [dict(name="consumer", module="MCConsumer", params=dict(T=40, KMAX=63))],
            "thorough": [dict(name="consumer", module="MCConsumer", params=dict(T=80, KMAX=255)),
                         dict(name="consumer-tight", module="MCConsumer", params=dict(T=60, KMAX=31))]},
    "C08": {Q: [mach("hom-poles", "hom", 3, 3, 5, 0, BIGW), mach("com-poles", "com", 1, 1, 3, 500, BIGW)],
            "thorough": [mach("hom-poles", "hom", 5, 5, 7, 0, BIGW), mach("com-poles", "com", 2, 2, 3, 6000, BIGW)]},
    "C09": {Q: [mach("hom-overflow", "hom", 8, 7, 5, 1500, 7, panic=False), mach("com-overflow", "com", 8, 7, 3, 500, 7, panic=False)],
            "thorough": [mach("hom-overflow", "hom", 16, 15, 8, 12000, 15, panic=False), mach("com-overflow", "com", 16, 15, 3, 6000, 15, panic=False),
                         mach("hom-overflow-all", "hom", 4, 3, 6, 0, 3, panic=False)]},
    "C10": {Q: [mach("hom-small", "hom", 3, 3, 6, 0, 255), mach("com-small", "com", 1, 1, 3, 500, 1023),
                mach("hom-room", "hom", 3, 3, 5, 0, 15, panic=False, room=4), mach("com-room", "com", 1, 1, 3, 200, 31, panic=False, room=4)],
            "thorough": [mach("hom-small", "hom", 5, 5, 8, 0, 1023), mach("com-small", "com", 1, 1, 4, 3000, 2047),
                         mach("hom-room", "hom", 5, 5, 7, 0, 63, panic=False, room=16), mach("com-room", "com", 3, 3, 3, 2000, 63, panic=False, room=16),
                         mach("com-room-ones", "com", 1, 1, 3, 2500, 31, panic=False, room=8)]},
    "C11": {Q: [dict(name="store", module="MCClarith", params=dict(REGS="{1,2}", N=2, K=0, B=3), workers=6)],
            "thorough": [dict(name="store", module="MCClarith", params=dict(REGS="{1,2}", N=2, K=1, B=4), workers=8)]},
    "C12": {Q: [], "thorough": []},
    "C13": {Q: [dict(name="store", module="MCClarith", params=dict(REGS="{1}", N=8, K=1, B=8)), mach("hom-heads", "hom", 3, 3, 5, 0, BIGW, after=1)],
            "thorough": [dict(name="store", module="MCClarith", params=dict(REGS="{1}", N=16, K=2, B=16)), mach("hom-heads", "hom", 5, 5, 7, 0, BIGW, after=1)]},
    "C14": {Q: [dict(name="protocol", module="MCProtocol", params=dict(Q=60, L=11, QPAIR=25))],
            "thorough": [dict(name="protocol", module="MCProtocol", params=dict(Q=240, L=14, QPAIR=60))]},
}
MODELS["C16"] = {Q: [dict(name="footprint", module="MCFootprint", params=dict(REGS="{1,2,3}", N=2, B=3, OPS=4), workers=6)],
                 "thorough": [dict(name="footprint", module="MCFootprint", params=dict(REGS="{1,2,3}", N=3, B=4, OPS=5), workers=8)]}
MODELS["C17"] = {Q: [mach("hom-fail-stop", "hom", 6, 5, 5, 1000, 5, panic=False), mach("com-fail-stop", "com", 6, 5, 3, 300, 5, panic=False)],
                 "thorough": [mach("hom-fail-stop", "hom", 12, 11, 7, 8000, 11, panic=False), mach("com-fail-stop", "com", 12, 11, 3, 4000, 11, panic=False)]}
MODELS["C18"] = {Q: [mach("unit", "unit", 4, 4, 20, 0, 23, spec="MCLive"),
                     mach("unit-com", "unitcom", 2, 2, 7, 20, 31, room=4, panic=True)],
                 "thorough": [mach("unit", "unit", 7, 7, 24, 0, 39, spec="MCLive"),
                              mach("unit-com", "unitcom", 3, 3, 8, 40, 63, room=8, panic=True)]}
MODELS["C15"] = {Q: [dict(name="program", module="MCProgram", params=dict(MAXWORD=4095))],
                 "thorough": [dict(name=f"program-{w}", module="MCProgram", params=dict(MAXWORD=w)) for w in (63, 1000, 8191, 32767)]}
NUMTEST = dict(name="arithmetic", module="NumTest", cfg="NumTest.cfg", big=True, workers=2, mem=2000)

# random cases, on top of the enumerated ones; histories from TLC: (count, steps, percent large)
CASES = {Q: 32000, "thorough": 260000}
SCALE = dict(C01=.9, C02=.9, C03=1.8, C04=1.8, C05=1.5, C06=.8, C07=1.8, C08=1.6, C09=1.8, C11=.5, C12=1.5, C13=1.8, C14=1.5, C17=1.3, C18=.5)
HISTORIES = {"C06": {Q: (1500, 14, 5), "thorough": (20000, 18, 5)},
             "C11": {Q: (1800, 22, 8), "thorough": (24000, 30, 8)},
             "C12": {Q: (600, 20, 20), "thorough": (8000, 24, 20)},
             "C02": {Q: (900, 20, 8), "thorough": (10000, 24, 8)}}

LEVEL = collections.defaultdict(lambda: "model_checking", C12="exploration")


def generate(prop, seed, tier, work, pool):
    r = random.Random(f"{prop}/{seed}/{tier}")
    n = int(CASES[tier] * SCALE.get(prop, 1))
    futs = []
    if prop in HISTORIES:
        cnt, steps, big = HISTORIES[prop][tier]
        k = 3
        for i in range(k):
            futs.append(pool.submit(simulate, work, (seed * 1000003 + i * 7919 + sum(map(ord, prop))) % 2**31, cnt // k, steps, big, i))
    cases, seen = [], set()
    for ops in gens.ALL[prop](r, n, tier):
        key = "|".join(ops)
        if key not in seen:
            seen.add(key)
            cases.append(ops)
    sim = 0
    for f in futs:
        for ops in f.result():
            key = "|".join(ops)
            if key not in seen:
                seen.add(key)
                cases.append(ops)
                sim += 1
    r.shuffle(cases)
    return list(enumerate(cases)), sim


def merge(prop, cases, runs):
    """records to validate: identical records of the two profiles once"""
    dbg, rel = ({x["id"]: x for x in run} for run in runs[:2])
    again = {x["id"]: x for x in runs[2]} if len(runs) > 2 else None
    if prop == "C17":      # one build against the other
        again = rel
    recs, origin, same = [], [], 0
    for cid, _ in cases:
        for prof, d in (("debug", dbg), ("release", rel)):
            x = d.get(cid)
            if x is None:
                continue
            if prof == "release" and cid in dbg:
                same += dbg[cid]["ev"] == x["ev"]
                if prop == "C17" or dbg[cid]["ev"] == x["ev"]:
                    continue
            y = dict(id=cid, ev=pieces(x["ev"]))
            if again is not None:
                z = again[cid]["ev"] if prof == "debug" and cid in again else x["ev"]
                # what is written while other threads are at work says nothing about this history
                y["again"] = pieces([dict(b, out=a["out"]) for a, b in zip(x["ev"], z)] + z[len(x["ev"]):])
            recs.append(y)
            origin.append((cid, prof))
    return recs, origin, same


PIECE = 24


def pieces(ev):
    """long extractions as several shorter ones, which TLC walks along much faster"""
    out = []
    for e in ev:
        s = e.get("syms", ())
        while len(s) > PIECE:
            out.append(dict(e, res="ok", out=0, syms=s[:PIECE]))
            s = s[PIECE:]
        out.append(dict(e, syms=s) if "syms" in e else e)
    return out


def split(recs, k):
    """k parts of similar weight, and one more for records with many registers; returns lists of indices"""
    load, parts = [0] * k, [[] for _ in range(k)]
    crowd = [i for i, rec in enumerate(recs) if top(rec) > 7]
    for i, rec in enumerate(recs):
        if top(rec) > 7:
            continue
        w = 3 + sum(3 + len(e.get("syms", ())) for e in rec["ev"])
        j = load.index(min(load))
        load[j] += w
        parts[j].append(i)
    return [p for p in parts + [crowd] if p]


def validate(work, prop, recs, jvms=4):
    parts = split(recs, jvms)
    with cf.ThreadPoolExecutor(jvms + 1) as ex:
        rs = list(ex.map(lambda a: validate_part(work, prop, a[0], [recs[i] for i in a[1]], 2), enumerate(parts)))
    fails = []
    for p, res in zip(parts, rs):
        if res["fail"]:
            tid, l = res["fail"]
            fails.append((p[tid - 1], l))
    return rs, fails


# --- the demonstration program -----------------------------------------------------------------

def limbs(v):
    out, m = [(v > 0) - (v < 0)], abs(v)
    while m:
        out.append(m % 10000)
        m //= 10000
    return out


def program_events(text, code):
    """what was written: for each line the value before the colon and the letters after it"""
    ev = []
    for row in text.split("\n")[:-1]:
        m = re.fullmatch(r"\s*(-?\d+)(?:\.(\d+)|/(\d+))?\s*:\s*(\S*)\s*", row)
        if not m or m[3] == "0":
            ev.append(dict(op="line", text=row))
            continue
        v = fractions.Fraction(f"{m[1]}.{m[2]}") if m[2] else fractions.Fraction(int(m[1]), int(m[3] or 1))
        ev.append(dict(op="value", v=[limbs(v.numerator), limbs(v.denominator)]))
        ev += [dict(op="letter", l=c) for c in m[4]]
    if not text.endswith("\n"):
        ev.append(dict(op="line", text="no end of line"))
    return ev + [dict(op="exit", code=code)]


def program(work):
    """builds the program from a copy of the repository, both ways, and runs it"""
    src = os.path.join(work, "program")
    shutil.copytree(REPO, src, ignore=shutil.ignore_patterns("target", ".git"))
    env = dict(cargo_env(), CARGO_TARGET_DIR=os.path.join(work, "program-target"))
    recs = []
    for prof, flags in (("debug", []), ("release", ["--release"])):
        run(["cargo", "build", "--offline", "--quiet", "--bin", "clarith"] + flags, "cargo build of the program", cwd=src, env=env)
        exe = os.path.join(work, "program-target", prof, "clarith")
        try:
            p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL,
                               preexec_fn=limits, cwd=work, timeout=60)
            text, code = p.stdout.decode("ascii", "replace"), p.returncode
        except subprocess.TimeoutExpired as e:
            text, code = (e.stdout or b"").decode("ascii", "replace")[:100000], -999
        recs.append(dict(profile=prof, text=text, ev=program_events(text, code)))
    return recs


def validate_program(work, recs):
    f = os.path.join(work, "program.ndjson")
    with open(f, "w") as o:
        for rec in recs:
            o.write(json.dumps(dict(ev=rec["ev"])) + "\n")
    d = os.path.join(SPEC, "trace")
    cfg = fill(os.path.join(d, "program.cfg.in"), os.path.join(work, "program.cfg"), {})
    rc, out = tlc(work, "program-trace", os.path.join(d, "ProgramTrace.tla"), cfg, big=True, workers=2, mem=2000, env={"TRACE": f})
    s = STATS.findall(out)
    if rc == 11 and "Deadlock reached" in out:
        tid, l = fail_point(out)
        return int(s[-1][1]) if s else 0, (tid - 1, l)
    if rc or not s or "No error has been found" not in out:
        raise ToolError(f"TLC failed on the program's trace (exit {rc}):\n{out[-3000:]}")
    if int(s[-1][1]) != sum(len(r["ev"]) + 1 for r in recs):
        raise ToolError("TLC did not see all of the program's trace")
    return int(s[-1][1]), None


def check_program(prop, seed, tier, work, t0):
    build()
    with cf.ThreadPoolExecutor(4) as pool:
        models = [pool.submit(model, work, seed, m) for m in MODELS[prop][tier] + [NUMTEST]]
        recs = program(work)
        done = [m.result() for m in models]
    states, fail = validate_program(work, recs)
    if not fail:      # the same with one letter changed must be refused there
        r = random.Random(f"canary/{prop}/{seed}")
        ev = list(recs[0]["ev"])
        i = r.choice([i for i, e in enumerate(ev) if e["op"] == "letter"])
        ev[i] = dict(ev[i], l=r.choice([c for c in "ZPNTRGAUH" if c != ev[i]["l"]]))
        if validate_program(work, [dict(ev=ev)])[1] != (0, i + 1):
            raise ToolError("a falsified text was not refused")
    n = sum(len(r["ev"]) for r in recs)
    cov = dict(executions=len(recs), events=n, trace_states=states, models=done,
               states=sum(m["distinct_states"] for m in done), transitions=sum(m["generated"] for m in done),
               traces_validated_against_impl=len(recs), samples=[dict(profile=r["profile"], text=r["text"][:400]) for r in recs])
    ev = dict(property=prop, tier=tier, seed=seed, level=LEVEL[prop], coverage=cov, wall_s=round(time.time() - t0, 1), violations=int(bool(fail)),
              assumptions=["TLC and its Java overrides (compared with pure TLA+ definitions on this run) are correct",
                           "the program takes no input, so that one run shows all it does"])
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    log(f"{prop} {tier} seed {seed}: {n} events of the program validated; "
        f"models {', '.join('%s %d' % (m['model'], m['distinct_states']) for m in done)}; {ev['wall_s']} s")
    if not fail:
        return 0
    i, l = fail
    report(prop, seed, tier, ["run the program"], dict(ev=recs[i]["ev"], text=recs[i]["text"]), recs[i]["profile"], l)
    return 1


def report(prop, seed, tier, case, rec, prof, l):
    os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
    body = dict(property=prop, profile=prof, seed=seed, tier=tier, script=case, failing_event=l, recorded=rec)
    h = hashlib.sha256(json.dumps(body["script"]).encode()).hexdigest()[:10]
    path = os.path.join(VERIF, "replay", f"{prop}-{prof}-{h}.json")
    with open(path, "w") as f:
        json.dump(body, f, indent=1)
    e = rec["ev"][l - 1] if l <= len(rec["ev"]) else None
    log(f"the {prof} build breaks {prop}: script {' | '.join(case)}")
    log(f"  event {l} is not a step of the specification: {json.dumps(e)}")
    log(f"VIOLATION property={prop} replay={path}")


def check(prop, seed, tier):
    t0 = time.time()
    work = os.path.join(BUILD, f"work-{prop}-{os.getpid()}")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        return (check_program if prop == "C15" else check_in)(prop, seed, tier, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check_in(prop, seed, tier, work, t0):
    build()
    t_build = time.time() - t0
    with cf.ThreadPoolExecutor(16) as pool:
        models = [pool.submit(model, work, seed, m) for m in MODELS[prop][tier] + [NUMTEST]]
        cases, sim = generate(prop, seed, tier, work, pool)
        jobs = [drive(work, p, cases, 3, pool, mem=prop == "C16") for p in ("debug", "release")]
        if prop == "C11":      # the same histories once more, in another order and with other threads at work
            jobs.append(drive(work, "debug", cases[::-1], 3, pool, tag="again-", company=2))
        runs = [[x for f in j for x in f.result()] for j in jobs]
        done = [m.result() for m in models]
    t_run = time.time() - t0
    recs, origin, same = merge(prop, cases, runs)
    rs, fails = validate(work, prop, recs)
    refused = 0 if fails or any(x["abandoned"] for x in rs) else canaries(work, prop, seed, recs)
    script = dict(cases)
    ops, results = collections.Counter(), collections.Counter()
    nsym = maxlen = 0
    for rec in recs:
        for e in rec["ev"]:
            ops[e["op"]] += 1
            results[e["res"] if e["op"] not in ("egest", "compare", "consume") else e["op"] + ":" + e["res"]] += 1
            nsym += len(e.get("syms", ()))
        maxlen = max(maxlen, len(rec["ev"]))
    events = sum(ops.values())
    if not events or (not fails and sum(r["n"] for r in rs) != len(recs)):
        raise ToolError("nothing was validated")
    nontrivial = sum(1 for rec in recs if len(rec["ev"]) >= 2 + (prop == "C16") or rec["ev"] and rec["ev"][0]["res"] not in ("Z", "P", "N"))
    samples = []
    for i in (0, len(recs) // 3, len(recs) - 1):
        cid, prof = origin[i]
        samples.append(dict(script=script[cid], profile=prof, recorded=recs[i]["ev"][:6]))
    executed = sum(len(r) for r in runs)
    cov = dict(
        cases=len(cases), cases_from_tlc_simulation=sim, executions=executed, identical_in_both_profiles=same,
        distinct_nontrivial=nontrivial, events=events, symbols=nsym, longest_history=maxlen,
        operations=dict(ops), results=dict(results), trace_states=sum(r["states"] for r in rs),
        abandoned_for_other_properties=sum(r["abandoned"] for r in rs),
        falsified_records_refused=refused, models=done, seconds=dict(build=round(t_build, 1), models_and_runs=round(t_run - t_build, 1), validation=round(time.time() - t0 - t_run, 1)),
        samples=samples)
    if LEVEL[prop] == "model_checking":
        cov["states"] = sum(m["distinct_states"] for m in done)
        cov["transitions"] = sum(m["generated"] for m in done)
        cov["traces_validated_against_impl"] = len(recs)
    else:
        cov["evaluations"] = len(recs)
        cov["rule"] = "random and enumerated histories of public calls; non-trivial: two recorded calls or a Number that is not special"
    ev = dict(property=prop, tier=tier, seed=seed, level=LEVEL[prop], coverage=cov, wall_s=round(time.time() - t0, 1),
              violations=len(fails),
              assumptions=["TLC and its Java overrides (compared with pure TLA+ definitions on this run) are correct",
                           "the recorder reports what the library returned",
                           "models are exhaustive within the bounds given; the library is sampled by the recorded histories"])
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    log(f"{prop} {tier} seed {seed}: {len(recs)} histories, {events} events, {nsym} symbols validated; "
        f"models {', '.join('%s %d' % (m['model'], m['distinct_states']) for m in done)}; {ev['wall_s']} s")
    for i, l in fails:
        cid, prof = origin[i]
        report(prop, seed, tier, script[cid], recs[i], prof, l)
    return 1 if fails else 0


def replay(path):
    b = json.load(open(path))
    prop = b["property"]
    if prop == "C15":
        return check(prop, b["seed"], b["tier"])
    work = os.path.join(BUILD, f"work-replay-{os.getpid()}")
    os.makedirs(work, exist_ok=True)
    try:
        build()
        cases = [(0, b["script"])]
        with cf.ThreadPoolExecutor(4) as pool:
            runs = [[x for f in drive(work, p, cases, 1, pool, mem=prop == "C16") for x in f.result()] for p in ("debug", "release")]
            if prop == "C11":
                runs.append([x for f in drive(work, "debug", cases, 1, pool, tag="again-", company=2) for x in f.result()])
        recs, origin, _ = merge(prop, cases, runs)
        rs, fails = validate(work, prop, recs, 1)
        for rec, o in zip(recs, origin):
            log(o[1], json.dumps(rec["ev"]))
        for i, l in fails:
            report(prop, b["seed"], b["tier"], b["script"], recs[i], origin[i][1], l)
        return 1 if fails else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


# --- witnesses -----------------------------------------------------------------------------------

# per model: situations that must be reachable in it, lest its invariants hold for want of cases
WITNESS = {
    ("C01", "ratio"): ['ph = "div0"', 'ph = "special" /\\ head = "N"', 'head = "G" /\\ ends > 1', 'head = "T" /\\ sym = 1', 'head = "R" /\\ sym = 2',
                       'head = "-" /\\ ends = 2', 'rt # Nil /\\ rt[1] = WMin'],
    ("C02", "hom-extract"): ['ends = 3', 'ph = "hom-run" /\\ ends = 0', 'sym = 1 /\\ x # Nil', 'sym = 2 /\\ x # Nil', 'sym = 0 /\\ rt = Nil'],
    ("C02", "com-extract"): ['ends = 3', 'ph = "com-run" /\\ ends = 0', 'sym = 1 /\\ y # Nil', 'ph = "hom-run"', 'ph = "ratio-run"'],
    ("C04", "hom"): ['ph = "special" /\\ head = "N"', 'head = "G" /\\ rt = Nil', 'head = "T" /\\ rt = Nil',
                     'head = "R" /\\ rt = Nil', 'ph = "ratio-run"', 'ph = "over"'],
    ("C05", "com"): ['ph = "special"', 'head = "G" /\\ y # Nil', 'head = "R"', 'ph = "over"', 'ph = "hom-run"', 'ph = "div0"'],
    ("C08", "hom-poles"): ['ph = "div0"', 'goal = Nil /\\ ph = "hom-prime"'],
    ("C08", "com-poles"): ['ph = "div0"', 'goal = Nil /\\ ph = "com-prime"'],
    ("C09", "hom-overflow"): ['ph = "panic" /\\ head = "?"', 'ph = "panic" /\\ head # "?"', 'ph = "over"'],
    ("C09", "com-overflow"): ['ph = "panic" /\\ head = "?"', 'ph = "panic" /\\ head # "?"', 'ph = "over"'],
    ("C10", "hom-room"): ['ph = "panic" /\\ head = "?"', 'ph = "panic" /\\ head # "?"', 'sym # -1 /\\ room > 0'],
    ("C10", "com-room"): ['ph = "panic"', 'room > 0 /\\ head # "?"'],
    ("C03", "order"): ['answer = "eq" /\\ flip = -1', 'answer = "lt" /\\ flip = -1', 'answer = "gt" /\\ flip = 1', 'answer = "lt" /\\ flip = 0'],
    ("C07", "consumer"): ['kres = "some"', 'kres = "none" /\\ kc # KNil', 'kres = "some" /\\ kv[1] < 0', 'kres = "none" /\\ kc = KNil'],
    ("C15", "program"): ['state = "over"', 'state = "body" /\\ line = 35', 'state = "head" /\\ line = 37'],
    ("C16", "footprint"): ['Total = 4 /\\ ops = 4', '\\E r \\in Regs : size[r] = 4', '\\A r \\in Regs : size[r] = 1', 'ops = 3 /\\ Total = 0'],
    ("C17", "hom-fail-stop"): ['ph = "panic" /\\ head = "?"', 'ph = "panic" /\\ head # "?"', 'ph = "over"'],
    ("C17", "com-fail-stop"): ['ph = "panic" /\\ head = "?"', 'ph = "panic" /\\ head # "?"', 'ph = "over"'],
    ("C18", "unit"): ['head = "G" /\\ ends = 2', 'ph = "special"', 'sym = 1 /\\ x # Nil', 'ph = "div0"'],
    ("C18", "unit-com"): ['head = "R" /\\ ends = 2', 'ph = "hom-run"', 'ph = "div0"', 'ph = "ratio-run"'],
    ("C06", "store"): ['\\E r, s \\in Regs : r # s /\\ IsOther(r) /\\ IsOther(s) /\\ reg[r] = reg[s]', '\\E r \\in Regs : IsOther(r) /\\ reg[r].safe = 0',
                       '\\E r \\in Regs : IsOther(r) /\\ IsHalf(reg[r].c) /\\ reg[r].h = "G"'],
}


def witness(work):
    """each situation must be found by TLC"""
    bad = n = 0
    for (prop, name), exprs in WITNESS.items():
        m = [m for m in MODELS[prop][Q] if m["name"] == name][0]
        d = os.path.join(SPEC, "mc")
        for i, e in enumerate(exprs or []):
            mod = f"Witness{i}"
            with open(os.path.join(work, mod + ".tla"), "w") as f:
                f.write(f"---- MODULE {mod} ----\nEXTENDS {m['module']}\nNever == ~({e})\n====\n")
            cfg = fill(os.path.join(d, m["module"] + ".cfg.in"), os.path.join(work, mod + ".cfg"), m["params"])
            t = re.sub(r"^(INVARIANTS?|PROPERT(Y|IES)) .*$", "", open(cfg).read(), flags=re.M)
            with open(cfg, "w") as f:
                f.write(t + "\nINVARIANT Never\n")
            cmd = tlc_cmd(work, mod, os.path.join(work, mod + ".tla"), cfg, False, 4, 3000, ["-seed", "1", "-fp", "1"])
            cmd = [c + ":" + d if c.startswith("-DTLA-Library=") else c for c in cmd]
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=work, timeout=600)
            ok = p.returncode == 12 and "Invariant Never is violated" in p.stdout
            n += 1
            bad += not ok
            log(f"{prop} {name}: {e}: {'reached' if ok else 'NOT REACHED (TLC exit %d) %s' % (p.returncode, p.stdout[-400:])}")
    log(f"{n - bad} of {n} situations reached")
    return 2 if bad else 0


def main():
    try:
        if sys.argv[1] == "--witness":
            work = os.path.join(BUILD, f"work-witness-{os.getpid()}")
            os.makedirs(work, exist_ok=True)
            try:
                return witness(work)
            finally:
                shutil.rmtree(work, ignore_errors=True)
        if sys.argv[1] == "--setup":
            build()
            work = os.path.join(BUILD, f"work-setup-{os.getpid()}")
            os.makedirs(work, exist_ok=True)
            try:
                log(model(work, 1, NUMTEST))
            finally:
                shutil.rmtree(work, ignore_errors=True)
            return 0
        if sys.argv[1] == "--replay":
            return replay(sys.argv[2])
        prop = sys.argv[1]
        seed = int(os.environ.get("VERIF_SEED") or 1)
        tier = os.environ.get("VERIF_TIER") or "quick"
        if len(sys.argv) > 2:
            tier = sys.argv[2]
        if prop not in MODELS or tier not in CASES:
            raise ToolError(f"unknown property or tier: {prop} {tier}")
        return check(prop, seed, tier)
    except ToolError as e:
        log(f"CHECK-ERROR: {e}")
        return 2
    except Exception as e:      # a fault of the machinery is never a verdict
        import traceback
        traceback.print_exc()
        log(f"CHECK-ERROR: {e!r}")
        return 2


if __name__ == "__main__":
    sys.exit(main())
