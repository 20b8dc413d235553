#!/usr/bin/env python3
"""Decides one property of /repo by generated-input search.

  check.py Cxx             run the check (VERIF_SEED, VERIF_TIER=quick|thorough)
  check.py --replay FILE   run a replay file again

Exit 0: the property held on everything explored. Exit 1 and a VIOLATION line: it is broken.
Any other exit: the check could not be carried out.
"""
import atexit
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import struct
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
WORK = os.path.join(VERIF, "work")
TARGET = os.path.join(VERIF, "target")
SEED = int(os.environ.get("VERIF_SEED") or "1")
TIER = os.environ.get("VERIF_TIER") or "quick"
if TIER not in ("quick", "thorough"):
    TIER = "quick"
CORES = os.cpu_count() or 8
HOST = "x86_64-unknown-linux-gnu"

# cases per property: (quick, thorough), shared evenly by the release and the checked build
CASES = {
    "C01": (1_200_000, 20_000_000), "C02": (1_600_000, 24_000_000), "C03": (4_000_000, 60_000_000),
    "C04": (4_000_000, 80_000_000), "C05": (3_000_000, 60_000_000), "C06": (3_000_000, 60_000_000),
    "C07": (2_500_000, 50_000_000), "C08": (4_000_000, 80_000_000), "C09": (6_000_000, 120_000_000),
    "C10": (1_500_000, 24_000_000), "C11": (1_600_000, 24_000_000), "C12": (2_000_000, 30_000_000),
    "C13": (800_000, 12_000_000), "C14": (24_000, 400_000), "C15": (1_000_000, 14_000_000),
    "C18": (60_000, 900_000), "C19": (1_000_000, 14_000_000),
    "C21": (16_000, 400_000), "C22": (60_000, 1_500_000),
}
HOOK = {"C08": "lyra2_verif_cubehash", "C09": "lyra2_verif_bmw", "C19": "lyra2_verif_lyra2mod"}
# properties for which a call that brings the process down is a violation
CRASH_BREAKS = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C11", "C12", "C15", "C19"}
COMPANY = {"C13", "C14"}
T0 = time.time()


class Inconclusive(Exception):
    """the check cannot be carried out: neither exit 0 nor exit 1"""


def say(*a):
    print(*a, flush=True)


def env(**kw):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "MIRIFLAGS", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUST_BACKTRACE"] = "0"
    e["CARGO_TERM_COLOR"] = "never"
    e.update(kw)
    return e


LIVE = set()


def end_all():
    for p in list(LIVE):
        try:
            os.killpg(p, signal.SIGKILL)
        except OSError:
            pass


atexit.register(end_all)


def run(cmd, inp=None, timeout=None, **kw):
    """Runs a command in its own process group and leaves nothing behind."""
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True, **kw)
    LIVE.add(p.pid)
    try:
        return talk(p, inp, timeout)
    finally:
        LIVE.discard(p.pid)


def talk(p, inp, timeout):
    try:
        o, e = p.communicate(inp.encode() if inp is not None else None, timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return None, o.decode(errors="replace"), e.decode(errors="replace")
    return p.returncode, o.decode(errors="replace"), e.decode(errors="replace")


# ------------------------------------------------------------------ building

def source_stamp():
    """What /repo's library is built from, by content: cargo itself goes by time stamps alone, and takes a file put back with its old one for unchanged."""
    h = hashlib.sha256()
    for d, dirs, files in os.walk("/repo"):
        dirs[:] = sorted(x for x in dirs if x not in (".git", "target"))
        for f in sorted(files):
            p = os.path.join(d, f)
            if os.path.isfile(p):
                h.update(p.encode() + b"\0" + hashlib.sha256(open(p, "rb").read()).digest())
    return h.hexdigest()


STALE = threading.Lock()


def forget_stale(tdir, stamp):
    """Have cargo rebuild the library if it was last built from other text."""
    with STALE:
        f = os.path.join(tdir, "repo-stamp")
        try:
            old = open(f).read()
        except OSError:
            old = None
        if old != stamp:
            for d in glob.glob(os.path.join(tdir, "**", ".fingerprint", "lyra2-*"), recursive=True):
                shutil.rmtree(d, ignore_errors=True)
            os.makedirs(tdir, exist_ok=True)
            with open(f, "w") as o:
                o.write(stamp)


def build(name, crate, profile, flags="", toolchain=None, target=None, extra=(), more_env=None):
    tdir = os.path.join(TARGET, name)
    cmd = ["cargo"] + (["+" + toolchain] if toolchain else []) + ["build", "--offline", "--target-dir", tdir, "--profile", profile]
    if target:
        cmd += ["--target", target]
    cmd += list(extra)
    forget_stale(tdir, source_stamp())
    rc, o, e = run(cmd, cwd=os.path.join(VERIF, crate), env=env(RUSTFLAGS=flags, **(more_env or {})), timeout=840)
    if rc != 0:
        return None, e[-4000:]
    exe = {"harness": "verif", "probe": "verif-probe", "fuzz": "verif-fuzz"}[crate]
    path = os.path.join(tdir, *( [target] if target else []), profile, exe)
    return path, ""


def hook_flags(prop):
    h = HOOK.get(prop)
    return f"--cfg lyra2_verif --cfg {h}" if h else ""


def build_pair(prop):
    """The harness as an optimised build and as one with every run-time check on."""
    def both(flags, tag):
        with cf.ThreadPoolExecutor(2) as ex:
            fs = [ex.submit(build, f"{p}{tag}", "harness", p, flags) for p in ("release", "checked")]
            return [f.result() for f in fs]
    flags = hook_flags(prop)
    tag = "-" + HOOK[prop].rsplit("_", 1)[1] if flags else ""
    r = both(flags, tag)
    hooked = bool(flags)
    if flags and any(p is None for p, _ in r):
        say(f"note: /repo does not build with the hook ({HOOK[prop]}); judging through the public functions")
        r, hooked = both("", ""), False
    for p, e in r:
        if p is None:
            raise Inconclusive("/repo or the harness does not build:\n" + e)
    for p, _ in r:
        rc, o, e = run([p, "self-test"], timeout=120)
        if rc != 0:
            raise Inconclusive("the reference model fails its own vectors: " + o + e)
    return r[0][0], r[1][0], hooked


# ------------------------------------------------------------------ constants in the source

def unescape(t):
    out, i = bytearray(), 0
    simple = {"n": 10, "r": 13, "t": 9, "0": 0, "\\": 92, '"': 34, "'": 39}
    while i < len(t):
        m = re.match(r"\\x([0-9a-fA-F]{2})", t[i:])
        if m:
            out.append(int(m.group(1), 16))
            i += 4
        elif t[i] == "\\" and i + 1 < len(t) and t[i + 1] in simple:
            out.append(simple[t[i + 1]])
            i += 2
        else:
            out += t[i].encode()
            i += 1
    return bytes(out)


def harvest():
    """Numbers and strings in /repo/src, for the generators."""
    nums, strs = set(), set()
    for d, _, fs in sorted(os.walk(os.path.join(REPO, "src"))):
        for f in sorted(fs):
            if not f.endswith(".rs"):
                continue
            s = open(os.path.join(d, f), errors="replace").read()
            for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)", s):
                t = m.group(1).replace("_", "")
                try:
                    v = int(t, 0) if t[:2] in ("0x", "0b", "0o") else int(t)
                except ValueError:
                    continue
                if v < 1 << 64:
                    nums.add(v)
            # simple constant expressions
            num = r"(0x[0-9a-fA-F_]+|[0-9][0-9_]*)(?:[iu](?:8|16|32|64|128|size))?"
            for m in re.finditer(num + r"\s*(<<|\*|\+|-)\s*" + num + r"(?:\s*(\*|\+|-)\s*" + num + ")?", s):
                a, b = int(m.group(1).replace("_", ""), 0 if m.group(1)[:2] == "0x" else 10), int(m.group(3).replace("_", ""), 0 if m.group(3)[:2] == "0x" else 10)
                f = {"<<": lambda x, y: x << y if y < 64 else 0, "*": lambda x, y: x * y, "+": lambda x, y: x + y, "-": lambda x, y: x - y}
                v = [f[m.group(2)](a, b)]
                if m.group(4):
                    v.append(f[m.group(4)](v[0], int(m.group(5).replace("_", ""), 0 if m.group(5)[:2] == "0x" else 10)))
                nums.update(x for x in v if 0 <= x < 1 << 64)
            for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"', s):
                t = m.group(1)
                b = unescape(t)
                if 0 < len(b) <= 100:
                    strs.add(b)
                if re.fullmatch(r"([0-9a-fA-F]{2}){4,64}", t):
                    strs.add(bytes.fromhex(t))
            for m in re.finditer(r"b'(\\x[0-9a-fA-F]{2}|[^'\\])'", s):
                t = m.group(1)
                strs.add(bytes([int(t[2:], 16)]) if t.startswith("\\x") else t.encode())
            # byte arrays
            for m in re.finditer(r"\[((?:\s*[0-9]{1,3}(?:u8)?\s*,){1,63}\s*[0-9]{1,3}(?:u8)?\s*,?\s*)\]", s):
                v = [int(x) for x in re.findall(r"([0-9]{1,3})(?:u8)?\s*(?:,|$)", m.group(1))]
                if all(x < 256 for x in v):
                    strs.add(bytes(v))
            for m in re.finditer(r"\[((?:\s*0x[0-9a-fA-F]{1,2}(?:u8)?\s*,?){2,64})\]", s):
                v = [int(x, 16) for x in re.findall(r"0x([0-9a-fA-F]{1,2})", m.group(1))]
                strs.add(bytes(v))
    return {"nums": sorted(nums), "strs": [list(b) for b in sorted(strs)]}


# ------------------------------------------------------------------ workers

def limits(mem_gb):
    def f():

        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
    return f


class Search:
    """One property's search: runs workers, shrinks what fails, gathers the evidence."""

    def __init__(self, prop):
        self.prop = prop
        self.dir = os.path.join(WORK, prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.pool = os.path.join(self.dir, "pool.json")
        with open(self.pool, "w") as f:
            json.dump(harvest(), f)
        self.cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "calls_into_code": 0, "stages": []}
        self.known = {}
        self.assumptions = []
        self.findings = load_findings()

    def env(self, **kw):
        return env(VERIF_POOL=self.pool, **kw)

    def add(self, stage, d):
        c = self.cov
        c["evaluations"] += d["evaluations"]
        c["calls_into_code"] += d["calls"]
        c["distinct_nontrivial"] += d["distinct_nontrivial"]
        c["samples"] += d["samples"][: 2 if c["samples"] else 4]
        c["stages"].append({"stage": stage, "cases": d["evaluations"], "calls": d["calls"],
                            "distinct_nontrivial": d["distinct_nontrivial"], "labels": d["labels"]})
        for k, (n, m) in d["known"].items():
            self.known.setdefault(k, [0, m])[0] += n

    def worker(self, exe, stage, start, count, gen=None, threads=None, prints=None, mem=14, e=None, report=None):
        """Explores cases [start, start+count). Returns normally if nothing failed."""
        gen = gen or self.prop
        threads = threads or CORES
        out = os.path.join(self.dir, f"{stage}.json".replace(" ", "_"))
        cmd = [exe, "worker", "--prop", gen, "--seed", str(SEED), "--from", str(start), "--count", str(count),
               "--threads", str(threads), "--out", out]
        if prints:
            cmd += ["--prints", prints]
        e = e or self.env()
        again = {"kind": "range", "property": gen, "cmd": cmd[1:], "stage": stage}
        rc, o, err = run(cmd, env=e, preexec_fn=limits(mem), timeout=4 * 3600 if TIER == "thorough" else 800)
        if rc is None:
            raise Inconclusive(f"{stage}: time budget used up")
        if rc == 0:
            d = json.load(open(out))
            for k in d["known"]:
                if k not in self.findings.get(self.prop, {}):
                    d["failures"].append([-1, f"{k}: {d['known'][k][1]}"])
            self.cov["rule"] = d["rule"]
            self.add(stage, d)
            if d["failures"]:
                idx, why = d["failures"][0]
                return self.failed(exe, gen, idx, why, again, e)
            return d
        if rc == 79:
            raise Inconclusive(f"{stage}: {err[-600:]}")
        slots = open(out + ".slots", "rb").read()
        idx = sorted({i for (i,) in struct.iter_unpack("<Q", slots[: len(slots) // 8 * 8]) if start <= i < start + count})
        if report:
            return report(rc, idx, err, again, e)
        if rc in (77, 78):
            return self.hung(exe, gen, idx, err, again, e, rc)
        if rc == -signal.SIGKILL:
            raise Inconclusive(f"{stage}: worker was killed (out of memory?)")
        return self.crashed(exe, gen, idx, f"worker exit {rc}: {err[-600:]}", again, e)

    def shrink(self, exe, gen, idx, e, extra=()):
        rounds = "30" if gen == "C14" else "1"
        rc, o, err = run([exe, "shrink", "--prop", gen, "--seed", str(SEED), "--index", str(idx), "--rounds", rounds, *extra],
                         env=e, preexec_fn=limits(14), timeout=600)
        try:
            return rc, json.loads(o)
        except ValueError:
            return None, {}

    def failed(self, exe, gen, idx, why, again, e, extra=()):
        rep = dict(again)
        if idx >= 0:
            rc, d = self.shrink(exe, gen, idx, e, extra)
            if rc == 0:
                rep = d
            else:
                # the failure was seen, but needs what ran before it or beside it
                rep["case"] = d.get("case")
                rep["index"] = idx
        rep["why_in_search"] = why
        self.violation(exe, rep)

    def crashed(self, exe, gen, idx, why, again, e):
        for i in idx:
            rc, d = self.shrink(exe, gen, i, e)
            if rc == 0:
                if self.prop in CRASH_BREAKS:
                    self.violation(exe, d)
                if self.prop in COMPANY and not any(self.call_dies(exe, l, e) for l in d["calls"]):
                    self.violation(exe, d)
                raise Inconclusive(f"a call brings the process down, which this property does not speak of: {d['why']}")
        if self.prop in COMPANY or self.prop in CRASH_BREAKS:
            # not by itself; does it happen again?
            rc, o, err = run([exe, *again["cmd"]], env=e, preexec_fn=limits(14), timeout=800)
            if rc is not None and rc not in (0, 77, 78, -9):
                rep = dict(again)
                rep["why_in_search"] = why
                self.violation(exe, rep)
        raise Inconclusive(f"worker died and no single case explains it: {why}")

    def call_dies(self, exe, line, e, secs=90):
        rc, o, err = run([exe, "call"], inp=line, env=e, preexec_fn=limits(14), timeout=secs)
        return rc != 0

    def hung(self, exe, gen, idx, err, again, e, rc):
        """Only the properties that promise an answer report this, and only when a fresh process
        with a limit on processor time, far above any honest cost, confirms it."""
        if self.prop in ("C15", "C21") and rc == 77:
            for i in idx:
                c, d = self.shrink(exe, gen, i, e)
                if c == 0:
                    self.violation(exe, d)
        if self.prop in COMPANY:
            for i in idx:
                rc2, o, _ = run([exe, "show", "--prop", gen, "--seed", str(SEED), "--index", str(i)], env=e, timeout=60)
                lines, _ = case_lines(exe, gen, i, e)
                if any(self.call_dies(exe, l, e) for l in lines):
                    continue
                r, _, _ = run([exe, "eval", "--prop", gen, "--rounds", "5"], inp=o, env=e, timeout=150)
                if r is None:
                    rep = {"kind": "case", "property": gen, "seed": SEED, "index": i, "case": json.loads(o), "calls": lines,
                           "why": "the calls return one by one, but not together: no answer in 150 s", "rounds": 5}
                    self.violation(exe, rep)
            r, _, _ = run([exe, *again["cmd"]], env=e, preexec_fn=limits(14), timeout=400)
            if r in (77, 78) and rc == r:
                rep = dict(again)
                rep["why"] = "twice: " + err[-300:]
                if not any(self.call_dies(exe, l, e) for i in idx for l in case_lines(exe, gen, i, e)[0]):
                    self.violation(exe, rep)
        raise Inconclusive("a case does not finish: " + err[-300:])

    def violation(self, exe, rep):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{self.prop}-seed{SEED}-{TIER}.json")
        rep.setdefault("property", self.prop)
        rep["check"] = self.prop
        rep["build"] = os.path.relpath(exe, TARGET) if exe else None
        if os.path.exists(self.pool):
            rep["pool"] = json.load(open(self.pool))
        with open(path, "w") as f:
            json.dump(rep, f, indent=1)
        self.evidence(1)
        say("why:", str(rep.get("why") or rep.get("why_in_search"))[:1500])
        for l in (rep.get("calls") or [])[:12]:
            say("  call:", l[:400])
        say(f"VIOLATION property={self.prop} replay={path}")
        sys.exit(1)

    def evidence(self, violations):
        c = self.cov
        c["samples"] = c["samples"][:8]
        origin = ("surroundings and calls generated from VERIF_SEED; " if self.prop == "C20" else
                  "cases generated by proptest from (VERIF_SEED, property, index) plus constants found in /repo/src; ")
        if any("executions" in x for x in c["stages"]):
            origin += "of the coverage-guided inputs only those kept for new coverage count as distinct; "
        c["rule"] = origin + "non-trivial and counted once: " + c["rule"]
        if self.known:
            c["known_findings_seen"] = {k: n for k, (n, _) in self.known.items()}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump({"property": self.prop, "tier": TIER, "seed": SEED, "level": "exploration", "coverage": c,
                       "assumptions": self.assumptions, "wall_s": round(time.time() - T0, 1), "violations": violations}, f, indent=1)

    def finish(self):
        for k, (n, m) in sorted(self.known.items()):
            say(f"KNOWN-FINDING: property={self.prop} {self.findings[self.prop][k]} (seen {n} times; e.g. {m[:300]})")
        self.evidence(0)
        c = self.cov
        say(f"{self.prop} held: {c['evaluations']} cases, {c['distinct_nontrivial']} distinct non-trivial, "
            f"{c['calls_into_code']} calls, {time.time() - T0:.0f} s")
        shutil.rmtree(self.dir, ignore_errors=True)


def case_lines(exe, gen, i, e):
    rc, o, _ = run([exe, "show", "--prop", gen, "--seed", str(SEED), "--index", str(i), "--calls", "1"], env=e, timeout=60)
    return ([l for l in o.splitlines() if l.strip()] if rc == 0 else []), rc


def load_findings():
    """known-findings.txt: 'known: property=<id> id=<signature> <text>' and 'fixed: ...' lines."""
    r = {}
    try:
        for l in open(os.path.join(VERIF, "known-findings.txt")):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", l)
            if m:
                r.setdefault(m.group(1), {})[m.group(2)] = m.group(3).strip()
    except FileNotFoundError:
        pass
    return r


# ------------------------------------------------------------------ the checks

def n_cases(prop):
    return CASES[prop][0 if TIER == "quick" else 1]


def check_model(s):
    import guided
    rel, chk, hooked = build_pair(s.prop)
    n = n_cases(s.prop)
    if s.prop in HOOK:
        s.cov["hook"] = HOOK[s.prop] if hooked else "not available: judged through the public chains"
    threads = 3 if s.prop == "C14" else CORES
    import giant
    giants = giant.Giants(s, [rel, chk]) if s.prop in giant.PLAN else None
    if giants:
        giants.start()
    half = n // 2
    s.worker(rel, "release build", 0, half, threads=threads)
    s.worker(chk, "checked build", half, n - half, threads=threads)
    if giants:
        giants.finish()
    guided.search(s, rel, chk, hooked)
    if s.prop == "C18":
        q = 400 if TIER == "quick" else 10_000
        each_alone(s, [((rel, chk)[i % 2], "whole process", n + i * q, q) for i in range(8)])
    if s.prop in ("C13", "C18"):
        check_haul(s, rel)
    if s.prop == "C18":
        check_held(s, rel)
    if s.prop == "C01":
        check_early(s, chk, "HT", "digest")
    if s.prop == "C11":
        check_early(s, chk, "HK", "digest")


def haul(s, exe, unit, only=None):
    cmd = [exe, "haul", "--prop", s.prop, "--seed", str(SEED), "--unit", str(unit)] + (["--only", str(only)] if only is not None else [])
    # freed blocks are free at once, not kept aside as if in use
    rc, o, err = run(cmd, env=s.env() | {"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"}, preexec_fn=limits(14), timeout=500 if TIER == "quick" else 6 * 3600)
    if rc is None:
        return None
    if rc != 0:
        raise Inconclusive(f"long history: exit {rc} {err[-300:]}")
    return json.loads(o)


def check_haul(s, exe):
    """Millions of small calls in one process, each kind of call on a thread of its own."""
    unit = {"C13": 1_100_000, "C18": 600_000}[s.prop] * (1 if TIER == "quick" else 16)
    r = haul(s, exe, unit)
    if r is None:
        s.cov["stages"].append({"stage": "long history", "skipped": "took too long"})
        return
    n = sum(r["calls"].values())
    s.cov["calls_into_code"] += n
    s.cov["evaluations"] += len(r["calls"])
    s.cov["stages"].append({"stage": "long history of small calls in one process", "calls per thread": r["calls"]})
    f = r["fail"]
    if f:
        # the thread's calls alone, and only as many as needed
        small = max(1000, f["call"] + 5000)
        alone = haul(s, exe, small, f["kind"])
        again = alone if alone and alone["fail"] else haul(s, exe, unit)
        if not again or not again["fail"]:
            raise Inconclusive("once only: " + f["why"])
        a = again is alone
        s.violation(exe, {"kind": "haul", "unit": small if a else unit, "only": f["kind"] if a else None, "seed": SEED, "why": again["fail"]["why"]})


HELD = 7


def check_held(s, exe):
    """What the process holds beyond what goes through the allocator: mappings, the C library's heap, files, threads."""
    unit = 100_000 if TIER == "quick" else 2_000_000
    r = haul(s, exe, unit, HELD)
    if r is None:
        s.cov["stages"].append({"stage": "what the process holds", "skipped": "took too long"})
        return
    n = sum(r["calls"].values())
    s.cov["calls_into_code"] += n
    s.cov["evaluations"] += 1
    s.cov["stages"].append({"stage": "what the process holds: address space, C heap, files, threads", "calls": n})
    if r["fail"]:
        again = haul(s, exe, unit, HELD)
        if not again or not again["fail"]:
            raise Inconclusive("once only: " + r["fail"]["why"])
        s.violation(exe, {"kind": "haul", "unit": unit, "only": HELD, "seed": SEED, "why": again["fail"]["why"]})


def check_early(s, exe, gen, sign, patience=0.5):
    """Valid requests whose honest answer takes minutes to ages (2^32 passes and more, 4 GiB of
    output): an answer (or a refusal, whichever the property speaks of) at once can only be wrong."""
    n = 48 if TIER == "quick" else 2000
    rc, o, err = run([exe, "lines", "--prop", gen, "--seed", str(SEED), "--count", str(n)], env=s.env(), timeout=60)
    lines = [l for l in o.splitlines() if l]
    if rc != 0 or len(lines) != n:
        raise Inconclusive("generator: " + err[-300:])

    def one(l):
        return l, run([exe, "call"], inp=l, env=s.env(), preexec_fn=limits(28), timeout=patience)
    with cf.ThreadPoolExecutor(CORES) as ex:
        for l, (rc, o, err) in ex.map(one, lines):
            if rc == 0 and o.startswith(sign):
                s.violation(exe, {"kind": "early", "gen": gen, "sign": sign, "calls": [l],
                                  "why": f"`{l[:400]}` cannot be answered within {patience} s, but was: {o[:200]}"})
    s.cov["evaluations"] += n
    s.cov["calls_into_code"] += n
    s.cov["stages"].append({"stage": f"requests that take ages ({gen}): no early {sign}", "cases": n})


def check_builds(s):
    rel, chk, _ = build_pair(s.prop)
    n = n_cases(s.prop)
    pr = [os.path.join(s.dir, x) for x in ("release.prints", "checked.prints")]
    import giant
    giants = giant.Giants(s, [rel, chk])
    giants.start()
    s.worker(rel, "release build", 0, n, prints=pr[0])
    s.worker(chk, "checked build", 0, n, prints=pr[1])
    giants.finish()
    check_early(s, chk, "HT", "panic")
    import interp
    interp.check_more_builds(s, rel)
    import guided
    guided.search(s, rel, chk, False)
    a, b = (open(p, "rb").read() for p in pr)
    # same cases in both runs: count them once
    st = s.cov["stages"]
    s.cov["distinct_nontrivial"] -= st[1]["distinct_nontrivial"]
    s.cov["digests_compared_between_builds"] = min(len(a), len(b)) // 8
    if a != b:
        for i in range(0, min(len(a), len(b)), 8):
            if a[i:i + 8] != b[i:i + 8]:
                again = {"kind": "builds", "property": s.prop, "index": i // 8}
                s.failed(rel, s.prop, i // 8, "release and checked builds answer differently", again, s.env(), ("--other", chk))


def each_alone(s, parts):
    """Processes with a single thread at work, so that what threads of the library's own do is counted too."""
    with cf.ThreadPoolExecutor(max(1, CORES // 2 if s.prop == "C21" else CORES)) as ex:
        fs = [ex.submit(s.worker, exe, f"{name} {i}", start, count, threads=1, mem=8) for i, (exe, name, start, count) in enumerate(parts)]
        unclear = None
        for f in cf.as_completed(fs):
            try:
                f.result()
            except Inconclusive as e:
                unclear = e
            except SystemExit:
                # a violation has been reported
                for g in fs:
                    g.cancel()
                end_all()
                raise
        if unclear:
            raise unclear


def check_cost(s):
    rel, chk, _ = build_pair(s.prop)
    n = n_cases(s.prop)
    q = n // 8
    each_alone(s, [((rel, chk)[i % 4 == 3], ("release", "checked")[i % 4 == 3], i * q, q) for i in range(8)])
    s.assumptions.append("time is processor time of a process in which one thread makes the calls, least of up to 12 measurements; the limit is 15 times a linear estimate plus 4 ms")


HOW = {"exit 10": "digest", "exit 11": "panic", "signal 6": "abort", "signal 14": "still working", "signal 9": "killed"}
# ends that no refused or failed request may have
BAD_ENDS = {"digest", "signal 11", "signal 7", "signal 4", "signal 8", "signal 5"}


def impossible(line):
    f = line.split()
    return int(f[3]) * int(f[4]) * 96 > 1 << 41 or int(f[1]) >= 1 << 41


def how_it_ends(exe, line):
    rc, o, _ = run([exe, "call"], inp=line, env=env(), preexec_fn=limits(8), timeout=20)
    if rc == 0:
        return o.split()[0]
    return "still working" if rc is None else HOW.get(f"signal {-rc}", f"signal {-rc}")


def check_impossible(s):
    """Requests for more memory than there is, each in a process of its own."""
    import interp
    builds = build_pair(s.prop)[:2]
    n = n_cases(s.prop)
    seen, ends, samples = set(), {}, []
    part = 500

    def one(j):
        exe = builds[j % 2]
        return exe, run([exe, "forked", "--prop", s.prop, "--seed", str(SEED), "--from", str(j * part), "--count", str(part)],
                        env=s.env(), preexec_fn=limits(8), timeout=1200)
    with cf.ThreadPoolExecutor(CORES) as ex:
        for exe, (rc, o, err) in ex.map(one, range(n // part)):
            lines = o.splitlines()
            if rc != 0 or len(lines) != part:
                raise Inconclusive(f"exit {rc}: {err[-300:]}")
            for l in lines:
                i, a, b, call = l.split(" ", 3)
                if not impossible(call):
                    raise Inconclusive("generator: " + call[:200])
                end = HOW.get(f"{a} {b}", f"{a} {b}")
                ends[end] = ends.get(end, 0) + 1
                seen.add(hash(call))
                if len(samples) < 6:
                    samples.append({"call": call[:300], "end": end})
                if end in BAD_ENDS:
                    end = how_it_ends(exe, call)
                    if end not in BAD_ENDS:
                        raise Inconclusive(f"{l[:300]} once, then {end}")
                    call = interp.minimise(call, lambda x: impossible(x) and how_it_ends(exe, x) in BAD_ENDS, 60)
                    s.violation(exe, {"kind": "impossible", "calls": [call], "why": f"needs more memory than there is, but ends in: {how_it_ends(exe, call)}"})
    s.cov.update(evaluations=n, calls_into_code=n, distinct_nontrivial=len(seen), samples=samples,
                 rule="requests for a matrix of more than 2 TiB or a key of at least 2 TiB, in processes that may use 8 GiB; all distinct ones count")
    s.cov["stages"].append({"stage": "release and checked builds, a process per call", "cases": n, "ends": ends})


def check(prop):
    s = Search(prop)
    if prop in ("C16", "C17") or prop == "C14":
        import interp
        {"C14": interp.check_threads, "C16": interp.check_platforms, "C17": interp.check_ub}[prop](s)
    elif prop == "C15":
        check_builds(s)
    elif prop == "C20":
        import surroundings
        surroundings.check_surroundings(s)
    elif prop == "C21":
        check_cost(s)
    elif prop == "C22":
        check_impossible(s)
    else:
        check_model(s)
    s.finish()
    return 0


def replay(path):
    rep = json.load(open(path))
    prop = rep["check"]
    if rep.get("kind") == "lines":
        import interp
        return interp.replay(rep)
    if rep.get("kind") == "haul":
        global SEED
        SEED = rep["seed"]
        s = Search(rep["check"])
        rel, _, _ = build_pair(rep["check"])
        r = haul(s, rel, rep["unit"], rep["only"])
        say(r)
        say("reproduced" if r and r["fail"] else "not reproduced")
        return 1 if r and r["fail"] else 0
    if rep.get("kind") == "first":
        import interp
        os.makedirs(WORK, exist_ok=True)
        pool = os.path.join(WORK, "replay-pool.json")
        with open(pool, "w") as f:
            json.dump(rep.get("pool", {}), f)
        rel, chk, _ = build_pair(prop)
        bad = False
        for exe in (rel, chk):
            end, wrong = interp.first_calls(exe, env(VERIF_POOL=pool), rep["case"], 1, 200_000, 60, rep["seed"])
            say(end, wrong)
            bad |= "case" in end
        say("reproduced" if bad else "not reproduced")
        return 1 if bad else 0
    if rep.get("kind") == "giant":
        import giant
        return giant.replay(rep)
    if rep.get("kind") == "around":
        import surroundings
        return surroundings.replay(rep)
    rel, chk, _ = build_pair(prop)
    if rep.get("kind") == "fuzz":
        say("seen in a sequence that cannot be replayed on its own; run the check again. Case:", json.dumps(rep["case"])[:2000], rep["why"])
        return 2
    if rep.get("kind") == "early":
        rc, o, e = run([chk, "call"], inp=rep["calls"][0], env=env(), preexec_fn=limits(28), timeout=0.5)
        bad = rc == 0 and o.startswith(rep["sign"])
        say(o[:300], "reproduced" if bad else "not reproduced")
        return 1 if bad else 0
    if rep.get("kind") == "impossible":
        ends = [how_it_ends(x, rep["calls"][0]) for x in (rel, chk)]
        say(ends)
        bad = any(x in BAD_ENDS for x in ends)
        say("reproduced" if bad else "not reproduced")
        return 1 if bad else 0
    os.makedirs(WORK, exist_ok=True)
    pool = os.path.join(WORK, "replay-pool.json")
    with open(pool, "w") as f:
        json.dump(rep.get("pool", {}), f)
    bad = 0
    prints = []
    import interp
    more = interp.special_build(rep.get("build") or "")
    for exe in [rel, chk] + ([more] if more else []):
        if rep.get("kind") == "range":
            cmd = list(rep["cmd"])
            cmd[cmd.index("--out") + 1] = os.path.join(WORK, "replay.json")
            rc, o, e = run([exe, *cmd], env=env(VERIF_POOL=pool, **interp.SAN_ENV))
            f = json.load(open(os.path.join(WORK, "replay.json")))["failures"] if rc == 0 else [f"exit {rc}"]
            say(os.path.relpath(exe, TARGET), f)
            bad |= bool(f)
        else:
            rc, o, e = run([exe, "eval", "--prop", rep["property"], "--rounds", str(rep.get("rounds", 1))],
                           inp=json.dumps(rep["case"]), env=env(VERIF_POOL=pool, **interp.SAN_ENV), preexec_fn=limits(0 if exe == more else 14), timeout=200)
            say(os.path.relpath(exe, TARGET), "exit", rc, o.strip(), e.strip()[-500:])
            d = json.loads(o) if rc == 0 else {"verdict": "fail"}
            bad |= d["verdict"] == "fail"
            prints.append(d.get("print"))
    if rep.get("compare_builds") and len(set(prints)) > 1:
        bad = 1
    say("reproduced" if bad else "not reproduced")
    return 1 if bad else 0


def main():
    sys.path.insert(0, VERIF)
    sys.modules["check"] = sys.modules["__main__"]
    try:
        if sys.argv[1] == "--replay":
            return replay(sys.argv[2])
        return check(sys.argv[1])
    except Inconclusive as e:
        say("ERROR: inconclusive:", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
