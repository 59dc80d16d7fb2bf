#!/usr/bin/env python3
"""Checks of the properties by runtime monitoring:  run.py Cxx [quick|thorough]  |  run.py replay FILE

Every check builds the real crate from /repo's working tree together with the monitoring harness, executes generated
programs and lets the oracles judge the recorded executions.  Exit 0: nothing violated the property.  Exit 1: a line
`VIOLATION property=<id> replay=<path>`.  Exit 2: no verdict (nothing could be observed).
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("OCI_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
CORES = min(8, os.cpu_count() or 1)
TRIPLE = "x86_64-unknown-linux-gnu"
T0 = time.time()

sys.path.insert(0, os.path.join(HERE, "probes"))


def note(m):
    print(f"[{time.time() - T0:6.1f}s] {m}", flush=True)


# ------------------------------------------------------------------------------------------------------------------
# builds
# ------------------------------------------------------------------------------------------------------------------

class NoBuild(Exception):
    pass


def content_hash(*roots):
    h = hashlib.sha256()
    for root in roots:
        files = [root] if os.path.isfile(root) else sorted(
            os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs if "/target/" not in d + "/")
        for f in files:
            h.update(os.path.relpath(f, "/").encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
            h.update(b"\1")
    return h.hexdigest()[:16]


def crate_files():
    return [os.path.join(REPO, "src"), os.path.join(REPO, "Cargo.toml")]


ENV = {k: v for k, v in os.environ.items() if not k.startswith(("RUST", "CARGO_PROFILE", "CARGO_TARGET", "CARGO_ENCODED", "CARGO_BUILD", "MIRI")) or k in ("RUSTUP_HOME",)}
ENV["CARGO_NET_OFFLINE"] = "true"
ENV["CARGO_TERM_COLOR"] = "never"
FAST = {"CARGO_PROFILE_RELEASE_DEBUG": "0", "CARGO_PROFILE_RELEASE_CODEGEN_UNITS": "64", "CARGO_PROFILE_DEV_DEBUG": "0", "CARGO_PROFILE_DEV_CODEGEN_UNITS": "64"}


def sh(cmd, env=None, cwd=None, timeout=1200):
    return subprocess.run(cmd, env={**ENV, **(env or {})}, cwd=cwd, capture_output=True, text=True, timeout=timeout)


def prune(prefix, keep):
    dirs = sorted(glob.glob(os.path.join(BUILD, prefix + "-*")), key=os.path.getmtime, reverse=True)
    for d in dirs[keep:]:
        if os.path.isdir(d):
            shutil.rmtree(d, ignore_errors=True)


def build_harness(variant):
    """-> path of the harness binary built against the working tree of /repo"""
    key = content_hash(*crate_files(), os.path.join(HERE, "harness", "src"), os.path.join(HERE, "harness", "Cargo.toml"), os.path.join(HERE, "shim", "src"))
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, f".lock-{variant}"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        root = os.path.join(BUILD, f"{variant}-{key}")
        done = os.path.join(root, "h")
        if os.path.exists(done):
            os.utime(root)
            return done
        prune(variant, 2)
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root)
        # a private copy of the harness crate: Cargo.lock and the path of the crate under test belong to this build
        src = os.path.join(root, "crate")
        os.makedirs(src)
        shutil.copytree(os.path.join(HERE, "harness", "src"), os.path.join(src, "src"))
        with open(os.path.join(HERE, "harness", "Cargo.toml")) as f:
            toml = f.read().replace('"/repo"', f'"{REPO}"')
        with open(os.path.join(src, "Cargo.toml"), "w") as f:
            f.write(toml)
        tgt = os.path.join(root, "t")
        env = dict(FAST)
        chan, extra, sub = "+stable", [], ""
        if variant.startswith("sim"):
            rlib = os.path.join(root, "liborx_verif_std.rlib")
            r = sh(["rustc", "+stable", "--edition", "2021", "--crate-type", "rlib", "--crate-name", "orx_verif_std", "-O", "-A", "warnings",
                    os.path.join(HERE, "shim", "src", "lib.rs"), "-o", rlib])
            if r.returncode:
                raise NoBuild(f"{variant}: shim: {r.stderr[-600:]}")
            env["RUSTFLAGS"] = f"--cfg orx_concurrent_iter_verif --extern orx_verif_std={rlib} -A warnings"
        elif variant in ("tsan", "asan"):
            env["RUSTFLAGS"] = f"-Zsanitizer={'thread' if variant == 'tsan' else 'address'} -A warnings"
            chan, extra, sub = "+nightly", ["-Zbuild-std", "--target", TRIPLE, "--bins"], TRIPLE + "/"
        else:
            env["RUSTFLAGS"] = "-A warnings"
        rel = not variant.endswith("-debug")
        cmd = ["cargo", chan, "build", "--offline", "--target-dir", tgt] + (["--release"] if rel else []) + extra
        r = sh(cmd, env, cwd=src)
        if r.returncode:
            errs = re.findall(r"error[^\n]*\n(?:[^\n]*\n){0,6}", r.stderr)
            raise NoBuild(f"{variant}: {''.join(errs[:2])[:900] or r.stderr[-900:]}")
        out = os.path.join(tgt, sub + ("release" if rel else "debug"))
        shutil.copy2(os.path.join(out, "h"), done + ".tmp")
        rl = glob.glob(os.path.join(out, "deps", "liborx_concurrent_iter-*.rlib"))
        if rl:
            shutil.copytree(os.path.join(out, "deps"), os.path.join(root, "deps"), ignore=lambda d, fs: [f for f in fs if not f.endswith((".rlib", ".rmeta"))])
        shutil.rmtree(tgt, ignore_errors=True)
        os.rename(done + ".tmp", done)
        return done


class Builds:
    """builds in the background; every variant once"""

    def __init__(self, variants):
        self.ex = cf.ThreadPoolExecutor(4)
        self.f = {v: self.ex.submit(build_harness, v) for v in variants}

    def get(self, v):
        if v not in self.f:
            self.f[v] = self.ex.submit(build_harness, v)
        return self.f[v].result()


# ------------------------------------------------------------------------------------------------------------------
# claims: which finding classes refute which property
# ------------------------------------------------------------------------------------------------------------------

BASE = {"panic", "runaway", "runaway-seq", "crash"}
HANG = {"hang", "stall"}
CLAIMS = {
    "C01": {"dup", "lost", "garbage", "ghost"} | HANG,
    "C02": {"index", "garbage", "ghost", "form"},
    "C03": {"chunk", "chunk0", "ghost"} | HANG,
    "C04": {"order", "order-thread", "gap", "lost", "dup", "revive", "lockstep"} | HANG,
    "C05": {"revive", "len-after-end", "ghost"} | HANG,
    "C06": {"skip-revive", "skip-query", "dup", "order", "order-thread", "index", "garbage", "hold", "ledger"} | HANG,
    "C07": {"race", "overlap"},
    "C08": {"ledger", "leak", "dup", "hold", "garbage"},
    "C09": HANG,
    "C10": {"seq", "dup"} | HANG,
    "C11": {"len", "len-increase", "no-revive", "len-after-end"},
    "C12": {"dup", "lost", "index", "fold", "revive"} | HANG,
    "C13": None,  # see below
    "C14": {"ledger"},
    "C15": {"alloc-leak", "leak"} | HANG,
    "C16": {"grid", "chunk0"} | HANG,
    "C17": {"diff"},
    "C18": {"dup", "ledger", "leak", "panic-lost", "garbage"} | HANG,
    "C19": {"source", "address", "clone-pos", "dup", "lost", "hold", "form", "lockstep", "seq", "index", "chunk"} | HANG,
}
ALL_CLASSES = {"race", "overlap", "ledger", "leak", "clone-leak", "hold", "source", "alloc-leak", "panic", "panic-lost", "ghost", "garbage", "index", "address", "form",
               "chunk0", "chunk", "fold", "clone-pos", "dup", "lost", "order", "order-thread", "gap", "revive", "skip-revive", "no-revive", "len-after-end", "skip-query",
               "len", "len-increase", "seq", "lockstep", "twin", "grid"}
CLAIMS["C13"] = (ALL_CLASSES - {"race", "overlap", "alloc-leak"}) | HANG
# functional classes which the extreme workload of C16 refutes it with
C16_FUNCTIONAL = ALL_CLASSES - {"race", "overlap", "alloc-leak", "leak", "clone-leak"}


def classes(prop):
    c = set(CLAIMS[prop]) | BASE
    if prop == "C16":
        c |= C16_FUNCTIONAL
    return c


# ------------------------------------------------------------------------------------------------------------------
# jobs
# ------------------------------------------------------------------------------------------------------------------

class Job:
    def __init__(self, engine, variant, secs, shards=CORES, feats=(), args=(), k=4, prop=None, wrap=(), env=None, classes=None, cap=None, offset=0):
        self.engine, self.variant, self.secs, self.shards, self.feats, self.args, self.k = engine, variant, secs, shards, list(feats), list(args), k
        self.prop, self.wrap, self.env, self.classes, self.cap, self.offset = prop, list(wrap), env or {}, classes, cap, offset

    def name(self):
        return f"{self.engine}/{self.variant}" + (f"[{','.join(self.feats)}]" if self.feats else "")


def sim(secs, **k):
    return Job("sim", "sim", secs, **k)


def native(secs, **k):
    k.setdefault("shards", 2)
    return Job("native", "native", secs, **k)


def seq(secs, **k):
    return Job("seq", k.pop("variant", "native"), secs, **k)


def types(secs, **k):
    return Job("types", k.pop("variant", "native"), secs, **k)


def grid(secs, **k):
    return Job("grid", k.pop("variant", "native"), secs, **k)


def quick_jobs(p):
    return {
        "C01": [sim(14), seq(3), native(6), types(2), grid(2), sim(3, feats=["crowd"]), native(3, feats=["crowd"]), native(3, feats=["slow"], shards=8)],
        "C02": [sim(13), seq(4), native(5), types(2), grid(2), sim(3, feats=["crowd"])],
        "C03": [sim(13), seq(5), native(5), types(2), grid(2), sim(3, feats=["crowd"])],
        "C04": [sim(18), seq(4), native(6), grid(2), sim(3, feats=["crowd"]), native(3, feats=["slow"], shards=8)],
        "C05": [sim(12), seq(5), seq(2, feats=["huge"]), native(5), grid(2), sim(3, feats=["crowd"]), native(3, feats=["slow"], shards=8)],
        "C06": [sim(16), seq(4), native(5), grid(2), sim(3, feats=["crowd"])],
        "C07": [sim(20), sim(5, feats=["fault"]), sim(4, feats=["crowd"])],
        "C08": [sim(11), seq(4), native(5), types(3), types(2, variant="sim"), seq(2, feats=["fault"])],
        "C09": [sim(22), sim(5, feats=["huge"]), native(6), sim(3, feats=["crowd"]), native(3, feats=["crowd"]), native(3, feats=["slow"], shards=8)],
        "C10": [sim(9), seq(8), native(4), types(2), grid(2)],
        "C11": [sim(16), seq(6), native(4), grid(2)],
        "C12": [sim(15), seq(3), native(6), grid(2), sim(3, feats=["crowd"]), native(3, feats=["slow"], shards=8)],
        "C13": [sim(13), seq(6, feats=["twin"]), native(5), seq(2, feats=["huge"]), grid(2, feats=["cloned"])],
        "C14": [],
        "C15": [sim(5), seq(8), native(4), types(4), seq(2, feats=["fault"])],
        "C16": [grid(7), grid(7, variant="native-debug"), sim(7), seq(5), seq(4, variant="native-debug")],
        "C17": [],
        "C18": [sim(16), seq(5), native(5), sim(3, feats=["crowd"]), native(3, feats=["slow"], shards=8)],
        "C19": [sim(10), seq(8), native(5), types(2), grid(2, feats=["clone"])],
    }[p]


def thorough_jobs(p):
    j = []
    for q in quick_jobs(p):
        n = Job(q.engine, q.variant, q.secs, q.shards, q.feats, q.args, q.k, q.prop, q.wrap, q.env, q.classes, q.cap, offset=1 << 40)
        n.secs = {"sim": 16, "native": 9, "seq": 6, "types": 6, "grid": 8}[q.engine] * q.secs
        n.secs = min(n.secs, 300)
        j.append(n)
    have = {(x.engine, x.variant) for x in j}
    if p not in ("C14", "C17"):
        # other seeds of the property's features and other schedules per program
        j.append(sim(60, k=32, offset=1 << 41))
        if ("seq", "native-debug") not in have:
            j.append(seq(30, variant="native-debug"))
        j.append(native(30, shards=4, offset=1 << 41))
    return j


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.claim = classes(prop)
        self.tmp = tempfile.mkdtemp(prefix="oci-")
        self.viol = []          # (class, message, replay dict)
        self.cov = {"engines": {}}
        self.samples = []
        self.evals = 0
        self.distinct = 0
        self.inconclusive = []
        self.others = {}
        self.assume = []
        self.lock = threading.Lock()
        self.stop = threading.Event()
        self.known = []
        self.kids = set()

    # -- harness processes -----------------------------------------------------------------------------------------

    def cmd(self, binary, job, frm, stride, secs, out, prog, maxn=None, classes=None):
        c = list(job.wrap) + [binary, job.engine, "--prop", job.prop or self.prop, "--seed", str(self.seed), "--from", str(frm), "--stride", str(stride),
                              "--secs", f"{secs:.2f}", "--out", out, "--progress", prog, "--schedules", str(job.k)]
        cl = classes or job.classes or self.claim
        c += ["--classes", ",".join(sorted(cl))]
        if job.feats:
            c += ["--features", ",".join(job.feats)]
        if maxn is not None:
            c += ["--max", str(maxn)]
        return c + job.args

    def proc(self, cmd, env, timeout, cpu=None):
        if cpu is not None and shutil.which("taskset"):
            cmd = ["taskset", "-c", str(cpu)] + cmd
        p = subprocess.Popen(cmd, env={**ENV, **env}, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
        self.kids.add(p)
        try:
            o, e = p.communicate(timeout=timeout)
            return p.returncode, o, e
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            return "timeout", "", ""
        finally:
            self.kids.discard(p)

    def shard(self, job, binary, i):
        deadline = time.time() + job.secs
        frm = job.offset + i
        restarts = 0
        acc = []
        while True:
            left = deadline - time.time()
            if left <= 0.2 and acc or self.stop.is_set():
                break
            left = max(left, 0.5)
            out = os.path.join(self.tmp, f"{id(job)}-{i}-{restarts}.json")
            prog = out + ".at"
            cpu = i % CORES if job.engine == "sim" else None
            rc, o, e = self.proc(self.cmd(binary, job, frm, job.shards, left, out, prog), job.env, left + 150, cpu)
            if rc in (0, 1) and os.path.exists(out):
                with open(out) as f:
                    acc.append(json.load(f))
                break
            at, dishonest = frm, False
            if os.path.exists(prog):
                with open(prog, "rb") as f:
                    b = f.read(16)
                if len(b) >= 8:
                    at = struct.unpack("<Q", b[:8])[0]
                dishonest = len(b) == 16 and b[8] == 1
            fatal = None
            if os.path.exists(out + ".fatal"):
                with open(out + ".fatal") as f:
                    fatal = json.load(f)
                at = fatal["index"] or at
            if rc == "timeout":
                fatal = {"class": "timeout", "msg": "the process did not end", "index": at, "program": "", "config": ""}
            if fatal is None:
                # the wrapped iterator lies about its size: giving up is admissible, memory errors are not
                memory = rc in (-4, -7, -11)
                fatal = {"class": "dishonest-crash" if dishonest and not memory else "crash", "msg": f"exit {rc}: {e.strip()[-400:]}", "index": at, "program": "", "config": ""}
            found = [x for x in fatal.get("findings", []) if x[0] in (job.classes or self.claim)]
            if found:
                with self.lock:
                    self.viol.append((found[0][0], found[0][1] + " (in an execution which does not end)", self.replay(job, at, found, fatal.get("program", ""), fatal.get("config", ""), [])))
                self.stop.set()
            # the executions before it were observed, too
            if os.path.exists(out + ".viol"):
                with open(out + ".viol") as f:
                    for line in f:
                        v = json.loads(line)
                        rep = self.replay(job, v["index"], v["findings"], v["program"], v["config"], v["log"])
                        with self.lock:
                            self.viol.append((v["findings"][0][0], v["findings"][0][1], rep))
                        self.stop.set()
            done = max(0, (at - frm) // job.shards)
            with self.lock:
                self.evals += done
                self.cov["engines"].setdefault(job.name(), {}).setdefault("execs", 0)
                self.cov["engines"][job.name()]["execs"] += done
            self.fatal(job, binary, fatal)
            restarts += 1
            frm = at + job.shards
            if job.engine == "sim" and job.k > 1:
                # other schedules of the same program probably end the same way
                frm = (at // job.k + 1) * job.k
                frm += (i - frm) % job.shards
            if restarts >= 4:
                with self.lock:
                    self.inconclusive.append(f"{job.name()} shard {i}: given up after {restarts} fatal executions")
                break
        return acc

    def fatal(self, job, binary, f):
        cls = f["class"]
        rep = self.replay(job, f["index"], [[cls, f["msg"]]], f.get("program", ""), f.get("config", ""), [])
        if cls in self.claim or job.classes and cls in job.classes:
            if cls == "stall" and not f["msg"].startswith("certain"):
                # real time is not a verdict: the same program has to stall again, twice, on an otherwise idle machine
                again = 0
                for n in range(2):
                    out = os.path.join(self.tmp, f"again-{id(f)}-{n}.json")
                    _ = self.proc(self.cmd(binary, job, f["index"], 1, 5, out, out + ".at", maxn=1), job.env, 150)
                    if os.path.exists(out + ".fatal"):
                        with open(out + ".fatal") as fh:
                            again += json.load(fh)["class"] in ("stall", "runaway")
                if again == 0:
                    with self.lock:
                        self.inconclusive.append(f"{job.name()} #{f['index']}: stalled once in real time, not again")
                    return
            with self.lock:
                self.viol.append((cls, f["msg"], rep))
            self.stop.set()
        else:
            with self.lock:
                self.inconclusive.append(f"{job.name()} #{f['index']}: {cls}: {f['msg'][:200]}")

    def replay(self, job, index, findings, program, config, log):
        return {"property": self.prop, "engine": job.engine, "variant": job.variant, "prop": job.prop or self.prop, "seed": self.seed, "index": index, "schedules": job.k,
                "features": job.feats, "args": job.args, "env": job.env, "wrap": job.wrap, "findings": findings, "program": program, "config": config, "log": log}

    def job(self, job, builds):
        if self.stop.is_set():
            return
        try:
            binary = builds.get(job.variant)
        except NoBuild as e:
            with self.lock:
                self.inconclusive.append(f"build {e}")
            note(f"no {job.variant} build: {e}")
            return
        t = time.time()
        with cf.ThreadPoolExecutor(job.shards) as ex:
            res = [x for acc in ex.map(lambda i: self.shard(job, binary, i), range(job.shards)) for x in acc]
        self.collect(job, res)
        note(f"{job.name():32s} {sum(r['execs'] for r in res):9d} executions, {sum(r['distinct'] for r in res):9d} distinct, {time.time() - t:.1f}s"
             + (f", {len(self.viol)} violation(s)" if self.viol else ""))

    def collect(self, job, res):
        with self.lock:
            e = self.cov["engines"].setdefault(job.name(), {})
            for r in res:
                for k, v in r.items():
                    if k in ("features", "others", "samples", "violations", "wall"):
                        continue
                    e[k] = e.get(k, 0) + (int(v) if not isinstance(v, float) else v)
                f = e.setdefault("features", {})
                for k, v in r["features"].items():
                    f[k] = f.get(k, 0) + v
                for k, (n, m) in r["others"].items():
                    o = self.others.setdefault(k, [0, f"{job.name()} {m}"])
                    o[0] += n
                self.evals += r["execs"]
                self.distinct += r["distinct"]
                if len(self.samples) < 6:
                    self.samples += [f"{job.name()} {s}"[:1500] for s in r["samples"][:1]]
                for v in r["violations"]:
                    rep = self.replay(job, v["index"], v["findings"], v["program"], v["config"], v["log"])
                    self.viol.append((v["findings"][0][0], v["findings"][0][1], rep))
                if r["violations"]:
                    self.stop.set()

    # -- sanitizers ------------------------------------------------------------------------------------------------

    def sanitizer(self, kind, builds, secs, shards, prop=None, feats=(), want=None):
        """the native engine in a sanitizer build; a report of the sanitizer is the finding"""
        if self.stop.is_set():
            return
        try:
            binary = builds.get(kind)
        except NoBuild as e:
            self.inconclusive.append(f"build {e}")
            note(f"no {kind} build: {e}")
            return
        opt = {"tsan": ("TSAN_OPTIONS", "halt_on_error=1 exitcode=66 report_thread_leaks=0 history_size=4"),
               "asan": ("ASAN_OPTIONS", "halt_on_error=1 exitcode=66 detect_leaks=0 detect_stack_use_after_return=0")}[kind]
        args = ["--relaxed"] if kind == "tsan" else ["--heap", "--relaxed"]
        job = Job("native", kind, secs, shards, feats, args, prop=prop, env={opt[0]: opt[1]}, classes={"none"})
        t = time.time()
        tot = {"execs": 0, "next_calls": 0, "delivered": 0, "distinct": 0}

        def one(i):
            out = os.path.join(self.tmp, f"{kind}-{i}.json")
            rc, o, e = self.proc(self.cmd(binary, job, job.offset + i, shards, secs, out, out + ".at"), job.env, secs + 120)
            if rc in (0, 1) and os.path.exists(out):
                with open(out) as f:
                    return json.load(f)
            at = struct.unpack("<Q", open(out + ".at", "rb").read(8))[0] if os.path.exists(out + ".at") and os.path.getsize(out + ".at") >= 8 else 0
            m = re.search(r"(WARNING: ThreadSanitizer|ERROR: AddressSanitizer): ([a-zA-Z -]+)", e)
            if m and rc == 66:
                where = re.findall(r"(?:#\d+ .*?(?:orx_concurrent_iter|harness|h::)[^\n]*)", e)
                what = m.group(2).strip()
                if want is None or re.search(want, what):
                    with self.lock:
                        self.viol.append((kind, f"{what}: " + " | ".join(w.strip()[:160] for w in where[:6]), self.replay(job, at, [[kind, what]], "", "", e[:6000].splitlines())))
                    self.stop.set()
                    return None
            with self.lock:
                self.inconclusive.append(f"{kind} shard {i} #{at}: ended with {rc}: {(m.group(0) if m else e[-200:])}")
            return None
        with cf.ThreadPoolExecutor(shards) as ex:
            res = list(ex.map(one, range(shards)))
        for r in res:
            if r:
                for k in tot:
                    tot[k] += r[k]
        self.cov["engines"][f"native/{kind}"] = {**tot, "reports": sum(1 for v in self.viol if v[0] == kind)}
        self.evals += tot["execs"]
        self.distinct += tot["distinct"]
        note(f"native/{kind:25s} {tot['execs']:9d} executions, {tot['next_calls']} observed wrapped calls, {time.time() - t:.1f}s")

    def miri(self, secs, shards, prop, want, feats=()):
        """tiny concurrent programs in the interpreter; `want` selects the reports which refute the property"""
        if self.stop.is_set():
            return
        key = content_hash(*crate_files(), os.path.join(HERE, "harness", "src"), os.path.join(HERE, "harness", "Cargo.toml"))
        root = os.path.join(BUILD, f"miri-{key}")
        crate = os.path.join(root, "crate")
        try:
            with open(os.path.join(BUILD, ".lock-miri"), "w") as lock:
                fcntl.flock(lock, fcntl.LOCK_EX)
                if not os.path.isdir(crate):
                    prune("miri", 2)
                    os.makedirs(root, exist_ok=True)
                    shutil.copytree(os.path.join(HERE, "harness", "src"), os.path.join(crate, "src"))
                    with open(os.path.join(HERE, "harness", "Cargo.toml")) as f:
                        toml = f.read().replace('"/repo"', f'"{REPO}"')
                    with open(os.path.join(crate, "Cargo.toml"), "w") as f:
                        f.write(toml)
                env = {"MIRIFLAGS": "-Zmiri-disable-stacked-borrows -Zmiri-disable-isolation -Zmiri-ignore-leaks", "RUSTFLAGS": "-A warnings", "CARGO_TARGET_DIR": os.path.join(root, "t")}
                r = sh(["cargo", "+nightly", "miri", "run", "--offline", "--", "seq", "--tiny", "--max", "1", "--prop", prop, "--out", os.path.join(self.tmp, "m0.json")], env, cwd=crate, timeout=400)
                if r.returncode and not re.search("Undefined Behavior", r.stderr):
                    raise NoBuild(r.stderr[-500:])
        except (NoBuild, subprocess.TimeoutExpired, OSError) as e:
            self.inconclusive.append(f"miri: {str(e)[:400]}")
            note(f"no miri: {str(e)[:300]}")
            return
        t = time.time()
        deadline = t + secs
        runs = []

        def one(i):
            n = 0
            while time.time() < deadline and not self.stop.is_set():
                s = self.seed * 1000 + i * 100000 + n
                n += 1
                out = os.path.join(self.tmp, f"miri-{i}-{n}.json")
                e2 = dict(env)
                e2["MIRIFLAGS"] = env["MIRIFLAGS"] + f" -Zmiri-seed={s % 1000003} -Zmiri-preemption-rate=0.05"
                cmd = ["cargo", "+nightly", "miri", "run", "--offline", "--", "native", "--tiny", "--relaxed", "--max", "40", "--secs", "20", "--prop", prop,
                       "--seed", str(s), "--out", out, "--progress", out + ".at", "--classes", "none"]
                if feats:
                    cmd += ["--features", ",".join(feats)]
                p = subprocess.Popen(cmd, env={**ENV, **e2}, cwd=crate, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
                try:
                    _, err = p.communicate(timeout=max(30, deadline - time.time() + 30))
                except subprocess.TimeoutExpired:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.communicate()
                    with self.lock:
                        self.inconclusive.append(f"miri shard {i} run {n}: not finished in time")
                    return
                if p.returncode in (0, 1) and os.path.exists(out):
                    with open(out) as f:
                        d = json.load(f)
                    with self.lock:
                        runs.append(d)
                    continue
                m = re.search(r"Undefined Behavior: ([^\n]*)", err)
                with self.lock:
                    if m and re.search(want, m.group(1)):
                        job = Job("native", "miri", 0, 1, feats, ["--tiny", "--relaxed"], prop=prop, env={"MIRIFLAGS": e2["MIRIFLAGS"]})
                        rep = self.replay(job, 0, [["miri", m.group(1)]], "", "", err[:6000].splitlines())
                        rep["seed"] = s
                        self.viol.append(("miri", m.group(1), rep))
                        self.stop.set()
                    else:
                        self.inconclusive.append(f"miri: {(m.group(0) if m else err[-200:])[:300]}")
                return
        with cf.ThreadPoolExecutor(shards) as ex:
            list(ex.map(one, range(shards)))
        n = sum(d["execs"] for d in runs)
        self.cov["engines"]["native/miri"] = {"execs": n, "runs": len(runs), "next_calls": sum(d["next_calls"] for d in runs), "delivered": sum(d["delivered"] for d in runs)}
        self.evals += n
        self.distinct += n
        note(f"native/miri {n:22d} executions in {len(runs)} seeds, {time.time() - t:.1f}s")

    # -- C14 -------------------------------------------------------------------------------------------------------

    def types_check(self, builds, secs):
        import probes
        try:
            h = builds.get("native")
        except NoBuild as e:
            self.inconclusive.append(f"build {e}")
            return
        deps = os.path.join(os.path.dirname(h), "deps")
        lib = glob.glob(os.path.join(deps, "liborx_concurrent_iter-*.rlib"))[0]

        def compile(name, src):
            f = os.path.join(self.tmp, name + ".rs")
            with open(f, "w") as fh:
                fh.write(probes.PRE + src)
            r = sh(["rustc", "+stable", "--edition", "2021", "--crate-type", "bin", "--crate-name", "probe", "--emit=metadata", "-o", f + ".rmeta",
                    "--extern", f"orx_concurrent_iter={lib}", "-L", f"dependency={deps}", f], timeout=120)
            return r.returncode, r.stderr
        known = {}
        for k in load_known():
            if k["property"] == "C14":
                known[k["id"]] = k["what"]
        items = [x for x in probes.PROBES if x]
        with cf.ThreadPoolExecutor(CORES) as ex:
            bad = list(ex.map(lambda x: compile(x[0] + "_bad", x[1]), items))
            good = list(ex.map(lambda x: compile(x[0] + "_good", x[2]), items))
            low = list(ex.map(lambda x: compile(x[0], x[1]), probes.LOW.items()))
        admitted, rejected, void, codes = [], 0, [], {}
        for (pid, src, twin), b, g in zip(items, bad, good):
            if g[0] != 0:
                void.append(pid)
            elif b[0] == 0:
                admitted.append(pid)
                if pid in known:
                    self.known.append((pid, known[pid]))
                else:
                    rep = {"property": "C14", "engine": "probe", "id": pid, "program": probes.PRE + src, "twin": twin}
                    self.viol.append(("probe", f"the program of probe {pid} compiles", rep))
            else:
                rejected += 1
                for c in set(re.findall(r"error\[(E\d+)\]", b[1])):
                    codes[c] = codes.get(c, 0) + 1
        self.evals += len(items) * 2
        self.distinct += len(items) - len(void)
        self.cov["probes"] = {"programs": len(items), "rejected": rejected, "admitted": admitted, "without_verdict": void, "error_codes": codes}
        self.samples += [f"probe {items[i][0]}: rejected: {items[i][1]}" for i in (0, len(items) // 3, len(items) // 2) if i < len(items)]
        if len(void) > len(items) // 2:
            self.inconclusive.append(f"{len(void)} of {len(items)} legal programs do not compile")
        note(f"probes: {rejected} rejected, {len(admitted)} admitted, {len(void)} without verdict")
        # the run time half
        cfgs = [k for (k, _), r in zip(probes.LOW.items(), low) if r[0] == 0]
        exe = os.path.join(self.tmp, "lowlevel")
        cmd = ["rustc", "+stable", "--edition", "2021", "-O", "-A", "warnings", "--extern", f"orx_concurrent_iter={lib}", "-L", f"dependency={deps}", "-o", exe,
               os.path.join(HERE, "lowlevel", "main.rs")]
        for c in cfgs:
            cmd += ["--cfg", c]
        r = sh(cmd)
        if r.returncode:
            self.inconclusive.append(f"lowlevel does not compile: {r.stderr[:300]}")
            note(self.inconclusive[-1])
            return

        def one(i):
            out = os.path.join(self.tmp, f"low-{i}.json")
            rc, o, e = self.proc([exe, str(self.seed), str(i), str(CORES), str(int(secs)), str(1 << 60), out], {}, secs + 60)
            if rc in (0, 1) and os.path.exists(out):
                with open(out) as f:
                    return json.load(f)
            at = struct.unpack("<Q", open(out + ".at", "rb").read(8))[0] if os.path.exists(out + ".at") else 0
            if rc == "timeout":
                return {"inc": f"lowlevel #{at} does not end"}
            return {"cases": 0, "distinct": 0, "events": 0, "holds": 0, "kinds": {}, "samples": [], "index": at, "bad": f"#{at} exit {rc}: {e[-300:]}"}
        with cf.ThreadPoolExecutor(CORES) as ex:
            res = list(ex.map(one, range(CORES)))
        tot = {"cases": 0, "distinct": 0, "events": 0, "holds": 0}
        for r in res:
            if "inc" in r:
                self.inconclusive.append(r["inc"])
                continue
            for k in tot:
                tot[k] += r[k]
            if r["bad"]:
                self.viol.append(("owners", r["bad"], {"property": "C14", "engine": "lowlevel", "seed": self.seed, "index": r["index"], "cfgs": cfgs, "log": [r["bad"]]}))
            self.samples += r["samples"][:1] if len(self.samples) < 6 else []
        self.cov["safe_call_sequences"] = {**tot, "admitted_low_level_calls": cfgs}
        self.evals += tot["cases"]
        self.distinct += tot["distinct"]
        note(f"lowlevel: {tot['cases']} sequences of safe calls, {tot['events']} ownership events, safe calls {','.join(cfgs)}")

    # -- C17 -------------------------------------------------------------------------------------------------------

    def differential(self, builds, secs):
        """the same programs in builds with and without debug assertions and overflow checks"""
        pairs = [("seq", "native-debug", "native", ["--prop", "C17"], 1.0), ("seq", "native-debug", "native", ["--prop", "C16"], 0.6), ("grid", "native-debug", "native", ["--prop", "C17"], 0.6),
                 ("types", "native-debug", "native", ["--prop", "C17", "--features", "noconc"], 0.5), ("sim", "sim-debug", "sim", ["--prop", "C17"], 0.9),
                 ("seq", "native-debug", "native", ["--prop", "C18", "--features", "fault"], 0.4), ("sim", "sim-debug", "sim", ["--prop", "C18", "--features", "fault"], 0.4)]
        per = 8

        def lines(binary, engine, extra, i, secs, maxn, tag, frm=None, env=None):
            """runs one shard; crashes are isolated: -> {index: digest}, {index: fatal}"""
            got, dead = {}, {}
            frm = i if frm is None else frm
            deadline = time.time() + secs
            n = 0
            while time.time() < deadline and not self.stop.is_set() and n < 6:
                out = os.path.join(self.tmp, f"diff-{tag}-{i}-{n}")
                for old in glob.glob(out + "*"):
                    os.unlink(old)
                n += 1
                cmd = [binary, engine] + extra + ["--seed", str(self.seed), "--from", str(frm), "--stride", str(per), "--secs", f"{max(0.3, deadline - time.time()):.2f}", "--max", str(max(1, maxn)),
                                                  "--out", out, "--progress", out + ".at", "--transcript", out + ".tr", "--schedules", "1", "--classes", "none"]
                rc, o, e = self.proc(cmd, {}, secs + 150, i % CORES if engine == "sim" else None)
                if os.path.exists(out + ".tr"):
                    with open(out + ".tr") as f:
                        for l in f:
                            w = l.split()
                            if len(w) == 2 and len(w[1]) == 16:
                                got[int(w[0])] = w[1]
                if rc in (0, 1):
                    break
                at = struct.unpack("<Q", open(out + ".at", "rb").read(8))[0]
                fat = None
                if os.path.exists(out + ".fatal"):
                    with open(out + ".fatal") as f:
                        fat = json.load(f)["class"]
                dead[at] = (fat or ("timeout" if rc == "timeout" else "crash"), e.strip()[-600:])
                done = (at - frm) // per + 1
                maxn -= done
                frm = at + per
                if maxn <= 0:
                    break
            return got, dead

        def confirm(bin_, engine, extra, index, tag):
            out = os.path.join(self.tmp, f"conf-{tag}")
            cmd = [bin_, engine] + extra + ["--seed", str(self.seed), "--from", str(index), "--max", "1", "--secs", "30", "--out", out, "--progress", out + ".at", "--transcript", out + ".tr",
                                            "--schedules", "1", "--classes", "none", "--verbose"]
            rc, o, e = self.proc(cmd, {}, 120)
            tr = open(out + ".tr").read().split()[1:2] if os.path.exists(out + ".tr") else []
            return rc, tr, (o + e)[-3000:]

        for n, (engine, dv, rv, extra, share) in enumerate(pairs):
            if self.stop.is_set():
                return
            try:
                db, rb = builds.get(dv), builds.get(rv)
            except NoBuild as e:
                self.inconclusive.append(f"build {e}")
                note(f"no build: {e}")
                continue
            t = time.time()
            s = max(1.0, secs * share)

            def both(i):
                d, dd = lines(db, engine, extra, i, s, 1 << 40, f"{n}d")
                # the optimized build replays the indices the other one went through
                m = max([(x - i) // per + 1 for x in list(d) + list(dd)] or [0])
                r, rd = lines(rb, engine, extra, i, s * 4 + 20, m, f"{n}r")
                return d, dd, r, rd
            with cf.ThreadPoolExecutor(per) as ex:
                res = list(ex.map(both, range(per)))
            compared = 0
            for d, dd, r, rd in res:
                compared += len(d.keys() & r.keys())
                suspects = sorted([x for x in d.keys() & r.keys() if d[x] != r[x]][:3] + [x for x in dd if x in r][:3] + [x for x in rd if x in d][:3])
                for x in suspects:
                    a, b = confirm(db, engine, extra, x, f"{n}d{x}"), confirm(rb, engine, extra, x, f"{n}r{x}")
                    if a[0] in (0, 1) and b[0] in (0, 1) and a[1] == b[1]:
                        self.inconclusive.append(f"{engine} #{x}: a difference between the builds is not repeatable")
                        continue
                    if "timeout" in (a[0], b[0]):
                        self.inconclusive.append(f"{engine} #{x}: no end in one of the builds")
                        continue
                    msg = f"{engine} #{x}: debug build: exit {a[0]} {a[2][-700:]!r}; optimized build: exit {b[0]} {b[2][-700:]!r}"
                    self.viol.append(("diff", msg[:300], {"property": "C17", "engine": engine, "variant": dv, "against": rv, "extra": extra, "seed": self.seed, "index": x, "log": [a[2], b[2]]}))
                    self.stop.set()
                    break
                # both die
                for x in dd.keys() & rd.keys():
                    if "unsafe precondition" in dd[x][1] or dd[x][0] != rd[x][0]:
                        self.viol.append(("precondition", f"{engine} #{x}: {dd[x]} vs {rd[x]}"[:400], {"property": "C17", "engine": engine, "variant": dv, "against": rv, "extra": extra, "seed": self.seed, "index": x, "log": [dd[x][1], rd[x][1]]}))
                        self.stop.set()
                    else:
                        self.inconclusive.append(f"{engine} #{x}: {dd[x][0]} in both builds")
                if self.stop.is_set():
                    break
            name = f"{engine}:{' '.join(extra[1:])}"
            self.cov["engines"][name] = {"compared_executions": compared, "digests": len({v for d, _, _, _ in res for v in d.values()})}
            self.evals += compared
            self.distinct += len({v for d, _, _, _ in res for v in d.values()})
            note(f"{name:36s} {compared:8d} executions compared between the builds, {time.time() - t:.1f}s")

    # -- verdict ---------------------------------------------------------------------------------------------------

    def finish(self, level):
        rule = ("program and schedule are generated from (VERIF_SEED, index); a sim execution counts as distinct by the hash of its interleaving of contended atomic operations with the program, "
                "a native or seq one by the order, thread and kind of its delivered operations, a types case by its index, a grid case by its call log, a probe by its program; "
                "sim executions without a contended operation are not counted as non-trivial")
        for pid, what in self.known:
            print(f"KNOWN-FINDING: property={self.prop} {pid}: {what}")
        cov = {"evaluations": self.evals, "distinct_nontrivial": min(self.distinct, self.evals), "rule": rule, "samples": self.samples[:8] or ["none"], **self.cov,
               "claimed_classes": sorted(self.claim), "findings_of_other_properties": self.others, "inconclusive": self.inconclusive[:40]}
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov, "assumptions": ASSUME + self.assume,
              "wall_s": round(time.time() - T0, 1), "violations": len(self.viol)}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        path = os.path.join(HERE, "evidence", f"{self.prop}.json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(path + ".tmp", path)
        for m in self.inconclusive[:10]:
            note(f"inconclusive: {m[:300]}")
        for k, (n, m) in self.others.items():
            note(f"finding of another property: {k} ({n}) {m[:200]}")
        shutil.rmtree(self.tmp, ignore_errors=True)
        if self.viol:
            os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
            seen = set()
            for cls, msg, rep in self.viol[:5]:
                if cls in seen:
                    continue
                seen.add(cls)
                p = os.path.join(HERE, "replay", f"{self.prop}-{cls}-{self.seed}-{rep.get('index', rep.get('id', 0))}.json")
                with open(p, "w") as f:
                    json.dump(rep, f, indent=1)
                note(f"{cls}: {msg[:600]}")
                print(f"VIOLATION property={self.prop} replay={p}", flush=True)
            return 1
        if self.evals == 0:
            note("no verdict: nothing could be observed")
            return 2
        note(f"{self.prop}: no violation in {self.evals} evaluations ({cov['distinct_nontrivial']} distinct and non-trivial)")
        return 0


ASSUME = [
    "verdict about the executed programs and schedules only; the workload is bounded as described in DESIGN.md",
    "sim: sequentially consistent interleavings of atomic operations at operation granularity, plus stale relaxed/acquire loads in the weak executions",
    "the harness, its element ledger and the scheduler facade are trusted",
]


def load_known():
    """lines `known: property=<id> id=<signature> <what>`; lines `fixed: ...` suppress nothing"""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", l.strip())
            if m:
                out.append({"property": m.group(1), "id": m.group(2), "what": m.group(3)})
    return out


def check(prop, tier, seed):
    run = Run(prop, tier, seed)
    jobs = quick_jobs(prop) if tier == "quick" else thorough_jobs(prop)
    thorough = tier != "quick"
    want = []
    for j in jobs:
        if j.variant not in want:
            want.append(j.variant)
    if prop == "C07":
        want.append("tsan")
    if prop == "C08" and thorough:
        want += ["asan", "tsan"]
    if prop == "C14":
        want = ["native"]
    if prop == "C17":
        want = ["native-debug", "native", "sim-debug", "sim"]
    note(f"{prop} {tier} seed {seed}: building {', '.join(want)}")
    builds = Builds(want)
    if prop == "C14":
        run.types_check(builds, 12 if not thorough else 300)
    elif prop == "C17":
        run.differential(builds, 4 if not thorough else 60)
    for j in jobs:
        run.job(j, builds)
    if prop == "C07":
        run.sanitizer("tsan", builds, 10 if not thorough else 150, 3, want="data race")
        run.sanitizer("tsan", builds, 4 if not thorough else 40, 3, feats=["fault", "skip"], want="data race")
        if thorough:
            run.miri(150, 7, "C07", "[Dd]ata race")
    if prop == "C08" and thorough:
        run.sanitizer("asan", builds, 100, 4)
        run.miri(120, 7, "C08", "(?i)(dangling|freed|dealloc|uninit|out-of-bounds|invalid value)", feats=[])
    if prop == "C17" and thorough:
        run.miri(120, 7, "C17", "(?i)precondition|unsafe")
    return run.finish("exploration")


def replay(path):
    with open(path) as f:
        r = json.load(f)
    print(json.dumps({k: r[k] for k in r if k != "log"}, indent=1)[:4000])
    if r["engine"] == "probe":
        print(r["program"])
        return 0
    if r.get("variant") == "miri" or r["engine"] == "lowlevel":
        print("\n".join(r["log"])[:6000])
        return 0
    b = build_harness(r["variant"])
    if r.get("against"):
        for v in (r["variant"], r["against"]):
            print("==", v)
            subprocess.run([build_harness(v), r["engine"]] + r["extra"] + ["--seed", str(r["seed"]), "--from", str(r["index"]), "--max", "1", "--secs", "60", "--schedules", "1", "--verbose"], env=ENV)
        return 0
    cmd = r["wrap"] + [b, r["engine"], "--prop", r["prop"], "--seed", str(r["seed"]), "--from", str(r["index"]), "--max", "1", "--schedules", str(r["schedules"]), "--verbose"]
    if r["features"]:
        cmd += ["--features", ",".join(r["features"])]
    return subprocess.run(cmd + r["args"], env={**ENV, **r["env"]}).returncode


def main():
    a = sys.argv[1:]
    if a and a[0] == "replay":
        return replay(a[1])
    if a and a[0] == "setup":
        # nothing to keep: every check builds from /repo's working tree; only tell what is there
        for c in (["cargo", "+stable", "--version"], ["rustc", "+stable", "--version"], ["cargo", "+nightly", "--version"]):
            r = sh(c)
            print(" ".join(c), "->", (r.stdout or r.stderr).strip()[:200])
        return 0
    if not a or a[0] not in CLAIMS:
        print(__doc__)
        return 2
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    return check(a[0], tier if tier == "thorough" else "quick", seed)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except KeyboardInterrupt:
        sys.exit(2)
