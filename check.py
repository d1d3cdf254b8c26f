#!/usr/bin/env python3
"""Decide one property of /repo by seeded simulation.

  check.py ID                 run the check (VERIF_SEED, VERIF_TIER)
  check.py --replay FILE      replay a recorded trace
Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.
Exit 2: the check itself could not give an answer.
"""
import sys, os, re, json, time, hashlib, subprocess, threading, struct, shutil, glob

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"): TIER = "quick"
JOBS = max(2, min(8, os.cpu_count() or 4))
ASAN = ["-fsanitize=address", "--param", "asan-instrumentation-with-call-threshold=0"]

# ---------------------------------------------------------------- builds
def sim_build(cfg, mode, asan):
    fl = ["-std=c++17", "-O1", "-g0", "-w", "-DCFG=%d" % cfg]
    if mode in ("safe", "dbg"): fl.append("-DSIM_SAFE")
    if mode in ("inv", "dbg"): fl.append("-DSIM_INV")
    if mode == "ser": fl.append("-DSIM_SER")
    if asan: fl += ASAN
    return {"name": "c%d-%s%s" % (cfg, mode, "-asan" if asan else ""), "cfg": cfg, "mode": mode, "asan": asan,
            "cc": "g++", "flags": fl, "src": "sim/driver.cpp", "libs": ["-lboost_serialization"] if mode == "ser" else []}

def mt_build(cfg, mode):
    return {"name": "mt%d-%s" % (cfg, mode), "cfg": cfg, "mode": mode, "asan": False, "cc": "mt",
            "flags": ["-DCFG=%d" % cfg] + (["-DMT_SAFE"] if mode == "safe" else []), "src": "sim/mt.cpp", "libs": []}

def by_name(n):
    m = re.match(r"c(\d+)-(\w+?)(-asan)?$", n)
    if m: return sim_build(int(m.group(1)), m.group(2), bool(m.group(3)))
    m = re.match(r"mt(\d+)-(\w+)$", n)
    if m: return mt_build(int(m.group(1)), m.group(2))
    sys.exit("unknown build " + n)

def N(*cfgs): return [sim_build(c, "norm", False) for c in cfgs]
def NA(*cfgs): return [sim_build(c, "norm", True) for c in cfgs]
def SF(*cfgs): return [sim_build(c, "safe", False) for c in cfgs]
def SFA(*cfgs): return [sim_build(c, "safe", True) for c in cfgs]
def SR(*cfgs): return [sim_build(c, "ser", False) for c in cfgs]
def IV(*cfgs): return [sim_build(c, "inv", False) for c in cfgs]
def DB(*cfgs): return [sim_build(c, "dbg", False) for c in cfgs]
def IVA(*cfgs): return [sim_build(c, "inv", True) for c in cfgs]
def SRA(*cfgs): return [sim_build(c, "ser", True) for c in cfgs]

ALL = (0, 1, 2, 3, 4, 5, 6, 7, 8)
# property -> builds for the quick tier, additional builds for the thorough tier
PLAN = {
    "C01": (N(*ALL) + NA(1, 7), NA(0, 2, 3, 4, 5, 6, 8)),
    "C02": (N(*ALL) + NA(3), NA(0, 1, 2, 4, 5, 6, 7, 8)),
    "C03": (N(*ALL) + NA(1, 4), NA(0, 2, 3, 5, 6, 7, 8)),
    "C04": (N(*ALL) + NA(0, 2), NA(1, 3, 4, 5, 6, 7, 8)),
    "C05": (N(*ALL) + NA(1, 3), NA(0, 2, 4, 5, 6, 7, 8)),
    "C06": (N(0, 1, 2, 3, 4, 6, 7, 8) + NA(0, 1, 6), N(5) + NA(2, 3, 4, 5, 7, 8)),
    "C07": (N(*ALL) + NA(4, 3), NA(0, 1, 2, 5, 6, 7, 8)),
    "C08": (N(0, 1, 2, 3, 4, 5, 6, 7) + NA(5), NA(0, 1, 2, 3, 4, 6, 7)),
    "C09": (N(1, 3, 4, 5, 7) + NA(1, 5), NA(3, 4, 7)),
    "C10": (N(0, 1, 3, 4, 6, 7, 8) + NA(3, 6), NA(0, 1, 4, 7, 8)),
    "C11": (N(0, 2, 4, 6, 7) + NA(2, 4), NA(0, 6, 7)),
    "C12": (N(1, 2, 4, 7) + NA(1, 4), NA(2, 7)),
    "C13": (N(*ALL) + NA(0, 3), NA(1, 2, 4, 5, 6, 7, 8)),
    "C14": (N(*ALL) + NA(2, 3), NA(0, 1, 4, 5, 6, 7, 8)),
    "C15": (SR(*ALL) + SRA(1), SRA(0, 2, 3, 4, 5, 6, 7, 8)),
    "C16": (SR(*ALL) + SRA(1), SRA(0, 2, 3, 4, 5, 6, 7, 8)),
    "C17": (SF(*ALL), SFA(*ALL)),
    "C18": ([mt_build(c, m) for c in (0, 1, 2, 3) for m in ("norm", "safe")], []),
    "C21": (N(*ALL), NA(*ALL)),
    "C23": (IV(*ALL) + DB(1, 4), DB(0, 2, 3, 5, 6, 7, 8) + IVA(*ALL)),
}
# share of the run budget and runs per worker-second, from measurements; only used to size fixed run counts
def chunk_runs(b): return 250 if b["asan"] else (1000 if b["cc"] == "mt" else 1500)
def quick_chunks(b): return 12 if b["asan"] else 5 if b["mode"] in ("inv", "dbg") else 56 if b["cc"] == "mt" else 24
def thorough_chunks(b): return 320 if b["asan"] else 560

LOCK = threading.Lock()

def sh(cmd, timeout=900, env=None):
    e = dict(os.environ)
    if env: e.update(env)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as x:
        return 67, (x.stdout or b"").decode("utf-8", "replace") + "\nHANG\n"

def source_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "include"), os.path.join(HERE, "sim")):
        for d, dn, fn in sorted(os.walk(root)):
            dn.sort()
            for f in sorted(fn):
                p = os.path.join(d, f); h.update(os.path.relpath(p, root).encode()); h.update(open(p, "rb").read())
    return h.hexdigest()

def command_lines(b, out):
    src = os.path.join(HERE, b["src"])
    if b["cc"] == "mt":
        inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(HERE, "sim")]
        return [["bash", os.path.join(HERE, "sim", "mt_build.sh"), src, out] + b["flags"] + inc]
    return [[b["cc"]] + b["flags"] + ["-I" + os.path.join(REPO, "include"), src, "-o", out] + b["libs"]]

def compile_build(b, key):
    k = hashlib.sha256((key + json.dumps([b["name"], b["flags"], b["libs"], REPO])).encode()).hexdigest()[:24]
    out = os.path.join(BUILD, "%s-%s" % (b["name"], k))
    b["bin"] = out
    if os.path.exists(out): os.utime(out); return None
    tmp = out + ".tmp%d" % os.getpid()
    for c in command_lines(b, tmp):
        rc, o = sh(c, 880)
        if rc != 0: return "compiling %s failed:\n%s" % (b["name"], o[-3000:])
    os.replace(tmp, out)
    return None

def prune():
    fs = sorted(glob.glob(os.path.join(BUILD, "*-*")), key=os.path.getmtime)
    for f in fs[:-60]:
        try: os.unlink(f)
        except OSError: pass

# ---------------------------------------------------------------- failures
CRASHY = ("asan", "crash", "hang", "terminate")
OPKIND = {"C15": ("save_load", "faulty_save", "faulty_load"), "C16": ("save_load", "faulty_save", "faulty_load"), "C21": ("compare",)}

def parse_failure(rc, out):
    """-> dict(cls, tags, hash, msg, at) or None when the exit is not a failure of the code under test"""
    m = re.search(r"^FAIL class=(\S+) tags=(\S*) run=(\d+) hash=(\S+) at=\{(.*)\} msg=(.*)$", out, re.M)
    if m: return dict(cls=m.group(1), tags=m.group(2).split(","), hash=m.group(4), at=m.group(5), msg=m.group(6))
    if rc == 66 or "AddressSanitizer" in out:
        m = re.search(r"AddressSanitizer:? ([\w-]+)", out)
        return dict(cls="asan:" + (m.group(1) if m else "error"), tags=["*"], hash="-", at="", msg=" ".join(out[out.find("ERROR"):].split()[:14]))
    if rc == 67: return dict(cls="hang", tags=["*"], hash="-", at="", msg="the run does not end")
    m = re.search(r"^CRASH signal=(\d+)", out, re.M)
    if m:
        s = int(m.group(1))
        return dict(cls="terminate" if s == 6 else "crash:%d" % s, tags=["*"], hash="-", at="", msg="the process ended with signal %d" % s)
    if rc < 0 and rc not in (-9, -15): return dict(cls="crash:%d" % -rc, tags=["*"], hash="-", at="", msg="the process ended with signal %d" % -rc)
    return None

def relevant(pid, f, lastop=None):
    if pid in f["tags"]: return True
    if "*" in f["tags"]:
        ks = OPKIND.get(pid)
        op = lastop or (f["at"].split(": ")[-1].split(" ")[0] if f["at"] else None)
        return ks is None or op is None or op in ks
    return False

def known_findings():
    r = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) class=(\S+) match=/(.*?)/ (.*)", l)
            if m: r.append(dict(property=m.group(1), cls=m.group(2), rx=re.compile(m.group(3)), text=m.group(4).strip()))
    return r

# ---------------------------------------------------------------- traces
def read_trace(p):
    ls = [l.rstrip("\n") for l in open(p)]
    head = [l for l in ls if l.startswith("knobs ")]
    ops = [l for l in ls if l and not l.startswith("#") and not l.startswith("knobs ")]
    return head, ops

def write_trace(p, comments, head, ops):
    with open(p, "w") as f:
        for c in comments: f.write("# %s\n" % c)
        for l in head + ops: f.write(l + "\n")

def do_replay(b, path, fast=False):
    rc, o = sh([b["bin"], "replay", path], 120, {"SIM_WATCHDOG": "2"} if fast else None)
    if rc == 0: return None, o
    return parse_failure(rc, o), o

def minimise(b, head, ops, cls, pid, deadline):
    tmp = os.path.join(BUILD, "min-%s-%d.trace" % (pid, os.getpid()))
    n = [0]
    def bad(h, o):
        if time.time() > deadline: return False
        n[0] += 1
        write_trace(tmp, [], h, o)
        f, _ = do_replay(b, tmp, True)
        return f is not None and f["cls"] == cls and relevant(pid, f)
    k = max(1, len(ops) // 2)
    while k >= 1:
        i = 0; any_ = False
        while i < len(ops):
            c = ops[:i] + ops[i + k:]
            if c != ops and bad(head, c): ops = c; any_ = True
            else: i += k
            if time.time() > deadline: break
        if time.time() > deadline: break
        if k == 1 and not any_: break
        k = max(1, k // 2) if k > 1 else 1
    if ops and len(ops[0].split()) == 13 and b["cc"] != "mt":
        for i in range(len(ops)):
            w = ops[i].split()
            for fields, val in (((9, 10, 11, 12), "0"), ((11,), "0"), ((12,), "0")):
                if any(w[x] != "0" for x in fields):
                    c = list(w)
                    for x in fields: c[x] = val
                    if bad(head, ops[:i] + [" ".join(c)] + ops[i + 1:]): w = c; ops = ops[:i] + [" ".join(c)] + ops[i + 1:]
            for x in range(1, 9):
                for val in (0, int(w[x]) % 4, int(w[x]) % 16, int(w[x]) % 256):
                    if int(w[x]) > val:
                        c = list(w); c[x] = str(val)
                        if bad(head, ops[:i] + [" ".join(c)] + ops[i + 1:]): w = c; ops = ops[:i] + [" ".join(c)] + ops[i + 1:]; break
    try: os.unlink(tmp)
    except OSError: pass
    return ops, n[0]

# ---------------------------------------------------------------- the check
class Check:
    def __init__(s, pid):
        s.pid = pid; s.t0 = time.time(); s.stop = False; s.violation = None; s.flaky = []; s.error = None
        s.others = {}; s.known = {}; s.kf = known_findings(); s.stats = []; s.hashes = set(); s.runs = 0; s.nonzero = 0
        s.bitmap = bytearray(1 << 19); s.executed = []; s.seen_cls = {}
    def collect(s, b, pre):
        try: st = json.load(open(pre + ".json"))
        except Exception: return
        hs = b""
        if os.path.exists(pre + ".hashes"): hs = open(pre + ".hashes", "rb").read()
        v = struct.unpack("<%dQ" % (len(hs) // 8), hs)
        bm = open(pre + ".bitmap", "rb").read() if os.path.exists(pre + ".bitmap") else b""
        with LOCK:
            s.stats.append((b["name"], st)); s.runs += st["runs"]
            s.hashes.update(x for x in v if x)
            if bm:
                n = len(bm); s.bitmap[:n] = (int.from_bytes(s.bitmap[:n], "little") | int.from_bytes(bm, "little")).to_bytes(n, "little")
        return v
    def job(s, b, lo, hi, tag):
        """run [lo,hi) of build b, going on after failures that concern other properties"""
        cap = 40; lo0 = lo
        while lo < hi and not s.stop:
            pre = os.path.join(s.tmp, "%s-%s-%d" % (tag, b["name"], lo))
            rc, o = sh([b["bin"], "run", s.pid, str(SEED), str(lo), str(hi), pre], 800)
            s.collect(b, pre)
            if rc == 0: s.clean(pre); return
            f = parse_failure(rc, o)
            try: idx = struct.unpack("<Q", open(pre + ".progress", "rb").read(8))[0] - 1
            except Exception: idx = -1
            s.clean(pre)
            if f is None or idx < lo:
                if not s.stop: s.error = "build %s runs %d..%d: exit %d\n%s" % (b["name"], lo, hi, rc, o[-1500:]); s.stop = True
                return
            lo = idx + 1; cap -= 1
            s.judge_failure(b, idx, f, lo0)
            if cap == 0:
                with LOCK: s.others["(build %s: exploration of a chunk abandoned after 40 failures of other properties)" % b["name"]] = 1
                return
    def clean(s, pre):
        for x in glob.glob(pre + ".*"):
            try: os.unlink(x)
            except OSError: pass
    def judge_failure(s, b, idx, f, lo0):
        if "*" not in f["tags"] and not relevant(s.pid, f):
            with LOCK: k = f["cls"] + " " + ",".join(f["tags"]); s.others[k] = s.others.get(k, 0) + 1
            return
        with LOCK:
            if s.seen_cls.get((b["name"], f["cls"]), 0) >= 4: return    # enough attempts at this one
            s.seen_cls[(b["name"], f["cls"])] = s.seen_cls.get((b["name"], f["cls"]), 0) + 1
        tr = os.path.join(s.tmp, "one-%s-%d.trace" % (b["name"], idx))
        rc, o = sh([b["bin"], "one", s.pid, str(SEED), str(idx), tr], 200)
        g = parse_failure(rc, o) if rc else None
        if not g:
            if s.ranged(b, idx, f, lo0): return
            with LOCK: s.flaky.append("%s run %d: %s, then nothing" % (b["name"], idx, f["cls"]))
            return
        f = g                                                       # what a fresh process shows is what counts
        head, ops = read_trace(tr)
        if not relevant(s.pid, g, ops[-1].split()[0] if ops else "setup"):
            with LOCK: k = f["cls"] + " " + (ops[-1].split()[0] if ops else "setup"); s.others[k] = s.others.get(k, 0) + 1
            return
        rs = [do_replay(b, tr)[0] for _ in range(2)]
        if any(r is None or r["cls"] != f["cls"] or r["hash"] != g["hash"] for r in rs):
            if s.ranged(b, idx, f, lo0): return
            with LOCK: s.flaky.append("%s run %d: %s does not replay: %s" % (b["name"], idx, f["cls"], [r and (r["cls"], r["hash"]) for r in rs]))
            return
        for k in s.kf:
            if k["property"] == s.pid and k["cls"] == g["cls"] and k["rx"].search(g["at"] + " " + g["msg"]):
                with LOCK: s.known[k["text"]] = s.known.get(k["text"], 0) + 1
                return
        with LOCK:
            if s.violation is None or (b["name"], idx) < (s.violation[0]["name"], s.violation[1]): s.violation = (b, idx, g, head, ops)
            s.stop = True
    def range_run(s, b, lo, idx):
        pre = os.path.join(s.tmp, "g-%s-%d-%d" % (b["name"], lo, idx))
        rc, o = sh([b["bin"], "run", s.pid, str(SEED), str(lo), str(idx + 1), pre], 400); f = parse_failure(rc, o) if rc else None
        try: at = struct.unpack("<Q", open(pre + ".progress", "rb").read(8))[0] - 1
        except Exception: at = -1
        s.clean(pre)
        return f if f and at == idx else None
    def ranged(s, b, idx, f, lo0):
        """state kept by the code under test across runs: the failure needs the runs before it in the same process"""
        k = 1
        while True:
            lo = max(lo0, idx - k); r = [s.range_run(b, lo, idx) for _ in range(2)]
            if r[0] and r[1] and r[0]["cls"] == r[1]["cls"] == f["cls"] and r[0]["hash"] == r[1]["hash"] and relevant(s.pid, r[0]): break
            if lo == lo0: return False
            k *= 2
        with LOCK:
            if s.violation is None: s.violation = (b, idx, r[0], None, lo)
            s.stop = True
        return True
    def execute(s):
        os.makedirs(BUILD, exist_ok=True)
        s.tmp = os.path.join(BUILD, "run-%s-%d" % (s.pid, os.getpid())); shutil.rmtree(s.tmp, ignore_errors=True); os.makedirs(s.tmp)
        try: return s.execute_()
        finally: shutil.rmtree(s.tmp, ignore_errors=True)
    def execute_(s):
        pid = s.pid; builds = list(PLAN[pid][0]) + (list(PLAN[pid][1]) if TIER == "thorough" else [])
        key = source_hash()
        builds.sort(key=lambda b: not b["asan"])                    # slow compilations first
        queue = list(builds); errs = []
        def comp():
            while True:
                with LOCK:
                    if not queue: return
                    b = queue.pop(0)
                e = compile_build(b, key)
                if e:
                    with LOCK: errs.append(e)
        ts = [threading.Thread(target=comp) for _ in range(JOBS)]
        for t in ts: t.start()
        for t in ts: t.join()
        prune()
        if errs: print("\n".join(errs)); return 2
        tc = time.time()
        soft = s.t0 + (420 if TIER == "quick" else 6 * 3600)
        jobs = []
        mx = max((quick_chunks if TIER == "quick" else thorough_chunks)(b) for b in builds)
        for c in range(mx):
            for b in builds:
                if c < (quick_chunks if TIER == "quick" else thorough_chunks)(b):
                    n = chunk_runs(b); jobs.append((b, c * n, (c + 1) * n))
        planned = len(jobs)
        def work():
            while not s.stop and time.time() < soft:
                with LOCK:
                    if not jobs: return
                    j = jobs.pop(0)
                s.job(j[0], j[1], j[2], "r")
        ts = [threading.Thread(target=work) for _ in range(JOBS)]
        for t in ts: t.start()
        for t in ts: t.join()
        t_run = time.time() - tc
        if s.violation: return s.report(builds, t_run)
        if s.error: print(s.error); return 2
        if s.flaky:
            print("failures that do not replay exactly:\n  " + "\n  ".join(s.flaky[:20])); return 2
        # determinism: the same seeds again, in other processes and other chunk sizes, must give the same event-log hashes
        det = 0
        for b in builds:
            n = 60 if not b["asan"] else 20
            got = []
            for lo, hi in ((0, n), (0, n // 3), (n // 3, n)):
                pre = os.path.join(s.tmp, "d-%s-%d-%d" % (b["name"], lo, hi))
                rc, o = sh([b["bin"], "run", pid, str(SEED), str(lo), str(hi), pre], 300)
                if rc: break
                got.append(open(pre + ".hashes", "rb").read())
            if len(got) == 3:
                if got[0] != got[1] + got[2]: print("the simulation of build %s is not deterministic" % b["name"]); return 2
                det += n
        s.evidence(builds, t_run, det, 0, planned - len(jobs))
        for k, n in s.known.items(): print("KNOWN-FINDING: property=%s %s" % (pid, k))
        print("%s held: %d runs, %d distinct non-trivial, %.0f s" % (pid, s.runs, len(s.hashes), time.time() - s.t0))
        return 0
    def report(s, builds, t_run):
        b, idx, f, head, ops = s.violation; pid = s.pid
        if head is None:
            rd = os.path.join(HERE, "replays"); os.makedirs(rd, exist_ok=True); rp = os.path.join(rd, "%s-%d.trace" % (pid, SEED))
            write_trace(rp, ["property %s" % pid, "build %s" % b["name"], "range %d %d %d" % (SEED, ops, idx + 1), "the code under test keeps state from one run to the next: the runs before are part of the replay",
                             "class %s" % f["cls"], "hash %s" % f["hash"], "violation: %s" % f["msg"], "replay: python3 check.py --replay %s" % rp], [], [])
            s.evidence(builds, t_run, 0, 1, 0, dict(seed=SEED, run=idx, first_run=ops, build=b["name"], cls=f["cls"], message=f["msg"]))
            print("%s: %s (%s; build %s, seed %d, runs %d to %d)" % (pid, f["msg"], f["cls"], b["name"], SEED, ops, idx))
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            return 1
        n0 = len(ops)
        mops, tries = minimise(b, head, list(ops), f["cls"], pid, time.time() + 60)
        rd = os.path.join(HERE, "replays"); os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, "%s-%d.trace" % (pid, SEED))
        def w(o, extra):
            write_trace(rp, ["property %s" % pid, "build %s" % b["name"], "seed %d run %d (%d operations before minimisation)" % (SEED, idx, n0)] + extra + ["replay: python3 check.py --replay %s" % rp], head, o)
        w(mops, [])
        r1, _ = do_replay(b, rp); r2, _ = do_replay(b, rp)
        if r1 is None or r2 is None or r1["cls"] != f["cls"] or (r1["cls"], r1["hash"]) != (r2["cls"], r2["hash"]) or not relevant(pid, r1, mops[-1].split()[0] if mops else "setup"):
            mops = ops; w(mops, []); r1, _ = do_replay(b, rp)
            if r1 is None or r1["cls"] != f["cls"]: print("a failure of %s does not replay" % pid); return 2
        w(mops, ["class %s" % r1["cls"], "hash %s" % r1["hash"], "violation: %s" % r1["msg"]])
        s.evidence(builds, t_run, 0, 1, 0, dict(seed=SEED, run=idx, build=b["name"], cls=r1["cls"], message=r1["msg"], operations=len(mops), operations_before=n0, replays_used=tries))
        print("%s: %s (%s; build %s, seed %d, run %d, %d operations after minimisation)" % (pid, r1["msg"], r1["cls"], b["name"], SEED, idx, len(mops)))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    def evidence(s, builds, t_run, det, viol, chunks, vinfo=None):
        tot = {}; fired = {}; opk = {}; probes = [0] * 64; per = {}
        for name, st in s.stats:
            for k in ("ops", "ops_faulted", "ops_threw", "ops_vetoed"): tot[k] = tot.get(k, 0) + st.get(k, 0)
            for k, v in st.get("fired", {}).items(): fired[k] = fired.get(k, 0) + v
            for k, v in st.get("ops_by_kind", {}).items(): opk[k] = opk.get(k, 0) + v
            for i, v in enumerate(st.get("probes", [])): probes[i] += v
            per[name] = per.get(name, 0) + st["runs"]
        samples = []
        for b in builds[:1] + builds[-1:]:
            if os.path.exists(b.get("bin", "")):
                p = os.path.join(s.tmp, "sample.trace")
                sh([b["bin"], "one", s.pid, str(SEED), "3", p], 100)
                if os.path.exists(p): samples.append({"build": b["name"], "seed": SEED, "run": 3, "trace": [l.rstrip() for l in open(p)][:24]})
        states = bin(int.from_bytes(s.bitmap, "little")).count("1")
        mt = builds[0]["cc"] == "mt"
        cov = {
            "evaluations": s.runs, "distinct_nontrivial": len(s.hashes),
            "rule": ("one evaluation = one simulated run of several reader threads under one seeded schedule; counted distinct by the hash of the complete schedule and event log, non-trivial when at least one preemption happened between two memory accesses of an operation" if mt else
                     "one evaluation = one simulated run: a seeded history of operations on several containers, node handles and held iterators with a seeded fault plan; counted distinct by the hash of its complete event log (every user call, fault, outcome and observation), non-trivial when at least one injected fault fired or one operation was vetoed"),
            "samples": samples or [{"note": "no sample"}],
            "runs_per_build": per, "seconds_exploring": round(t_run, 1), "runs_per_hour": int(s.runs / max(t_run, 1e-3) * 3600), "seeds_per_hour": int(s.runs / max(t_run, 1e-3) * 3600),
            "seeds": "run seeds are derived from (VERIF_SEED, build, run number): one per run",
            "simulated_time": "the library reads no clock; simulated progress is counted in operations and user calls",
            "operations": tot, "operations_by_kind": opk, "faults_injected": fired,
            ("distinct_interleaving_points_lower_bound" if mt else "distinct_container_states_lower_bound"): states, "state_measure": "number of distinct values, modulo 2^22, of a hash of (operation preempted, operation switched to, number of steps of the preempted thread modulo 4096)" if mt else "number of distinct values, modulo 2^22, of a hash of the contents and orders of every index of every container after each operation",
            "determinism_check_runs": det, "chunks_executed": chunks,
            "probes": {str(i): v for i, v in enumerate(probes) if v},
            "failures_of_other_properties_seen": s.others, "known_findings_seen": s.known,
            "real_code": "every header of /repo/include (compiled from the working tree), the C++ standard library and, where used, Boost.Serialization",
            "stubs": "operating system threads (fibers scheduled by the simulator), pthread mutexes and once-initialisation (simulated), operator new (deterministic heap), element type and functors" if mt else "allocator (deterministic arena), element type, key extractors, comparison/hash/equality functors, modifiers, predicates, input iterators, stream buffers",
            "sanitizer_builds": [b["name"] for b in builds if b["asan"]],
        }
        if vinfo: cov["violation"] = vinfo
        ev = {"property": s.pid, "tier": TIER, "seed": SEED, "level": "exploration", "coverage": cov,
              "assumptions": ["sampling: a clean batch is evidence, not proof", "the configurations in sim/configs.hpp stand for all index combinations"],
              "wall_s": round(time.time() - s.t0, 1), "violations": viol}
        d = os.path.join(HERE, "evidence"); os.makedirs(d, exist_ok=True)
        t = os.path.join(d, s.pid + ".json.tmp"); json.dump(ev, open(t, "w"), indent=1); os.replace(t, os.path.join(d, s.pid + ".json"))

def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        os.makedirs(BUILD, exist_ok=True)
        txt = open(sys.argv[2]).read(); m = re.search(r"^# build (\S+)", txt, re.M)
        b = by_name(m.group(1)); e = compile_build(b, source_hash())
        if e: print(e); return 2
        m = re.search(r"^# range (\d+) (\d+) (\d+)", txt, re.M); pm = re.search(r"^# property (\S+)", txt, re.M)
        if m: rc, o = sh([b["bin"], "run", pm.group(1), m.group(1), m.group(2), m.group(3), os.path.join(BUILD, "replay-range")], 800); print(o, end=""); return 0 if rc == 0 else 1
        rc, o = sh([b["bin"], "replay", sys.argv[2]]); print(o, end=""); return 0 if rc == 0 else 1
    if len(sys.argv) != 2 or sys.argv[1] not in PLAN: print("usage: check.py ID | --replay FILE; IDs: " + " ".join(PLAN)); return 2
    return Check(sys.argv[1]).execute()

if __name__ == "__main__":
    try: rc = main()
    except Exception:
        import traceback; traceback.print_exc(); rc = 2
    sys.stdout.flush(); sys.exit(rc)
