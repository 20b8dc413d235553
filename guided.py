"""Coverage-guided search (libFuzzer) with the same oracles: reaches inputs singled out by
comparisons in the code, which random generation meets too rarely."""
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import struct

import check as C
from check import Inconclusive, run, say

PROPS = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C15", "C18", "C19"}
MAX_LEN = {"C08": 32, "C09": 55, "C03": 700, "C04": 700, "C05": 700, "C06": 700, "C07": 700}


def build(prop, hooked):
    libs = glob.glob("/usr/lib/llvm-*/lib/clang/*/lib/linux/libclang_rt.fuzzer-x86_64.a")
    if not libs:
        return None, "no libFuzzer runtime"
    lib = sorted(libs)[-1]
    inter = lib.replace("fuzzer-x86_64", "fuzzer_interceptors-x86_64")
    flags = " ".join("-Clink-arg=" + a for a in ("-Wl,--whole-archive", inter, "-Wl,--no-whole-archive", lib, "-lstdc++"))
    tag = ""
    if hooked:
        flags += " " + C.hook_flags(prop)
        tag = "-" + C.HOOK[prop].rsplit("_", 1)[1]
    return C.build("fuzz" + tag, "fuzz", "release", flags, target=C.HOST,
                   more_env={"RUSTC_WRAPPER": os.path.join(C.VERIF, "fuzz", "rustc-wrap.sh")})


def seeds(prop):
    """A few inputs to start from, in the fuzz target's encoding."""
    def req(k, t, r, c, pwd, salt):
        return struct.pack("<HHHHH", k, t, r, c, len(pwd)) + pwd + salt

    def req2(k, t, r, c, pwd, salt):
        return struct.pack("<HHHHH", k, t, r, c, len(pwd)) + pwd + bytes([len(salt)]) + salt
    blobs = [b"", b"abc", bytes(32), b"\xff" * 32, bytes(range(80)), bytes(range(200)), b"a" * 64, b"0" * 55, bytes(130)]
    reqs = [(32, 1, 4, 4, b"passwordpassword", b"saltsalt"), (100, 2, 5, 2, b"x" * 40, b""), (200, 3, 8, 1, b"", b"y" * 24),
            (32, 1, 3, 1, b"z" * 100, b"w" * 57), (300, 4, 16, 2, b"pwdpwd1", b"saltsalt9")]
    bad = [(32, 0, 4, 4), (32, 1, 2, 4), (32, 1, 4, 0), (0, 0, 0, 0)]
    if prop in ("C03", "C04", "C05", "C06", "C07", "C08", "C09"):
        return blobs
    if prop in ("C01", "C02", "C19"):
        return [req(*q) for q in reqs]
    if prop == "C12":
        return [req(*q, b"password", b"salt") for q in bad]
    calls = [bytes([a]) + b for a in range(5) for b in blobs[:6]] + [b"\x10" + req(*q) for q in reqs]
    if prop in ("C11", "C15"):
        return calls
    if prop == "C10":
        return [struct.pack("<HBB", 7, 3, w) + c for w in range(8) for c in calls]
    if prop == "C18":
        return [b"\x02" + c for c in calls] + [b"\x01\x10" + req(*q, b"password", b"salt") for q in bad]
    if prop == "C13":
        short = [b"\x00" + bytes([a, len(b)]) + b for a in range(5) for b in blobs[:6]] + [b"\x00\x10" + req2(*q) for q in reqs]
        short += [b"\x00\x10" + req2(*q, b"password", b"salt") for q in bad]
        out = [short[i] + short[(i * 7 + 3) % len(short)] + b"\x80\x00" + b"\x40\x00\x00\x00\x01" for i in range(len(short))]
        out += [short[i] + b"\x40\x00\x05\x00\x01" + b"\x80\x00" for i in range(len(short))]
        return out
    return blobs


def dictionary(path, pool):
    def esc(b):
        return '"' + "".join("\\x%02x" % x for x in b) + '"'
    with open(path, "w") as f:
        for b in pool["strs"]:
            if 0 < len(b) <= 60:
                f.write(esc(bytes(b)) + "\n")
        for n in pool["nums"]:
            w = 1 if n < 256 else 2 if n < 65536 else 4 if n < 1 << 32 else 8
            f.write(esc(n.to_bytes(w, "little")) + "\n")
            if w > 1:
                f.write(esc(n.to_bytes(w, "big")) + "\n")


def grab(err, what):
    m = re.findall(rf"^VERIF-{what} (.*)$", err, re.M)
    return m[-1] if m else None


def search(s, rel, chk, hooked):
    """Runs the fuzzers for a fixed time and reports what they find."""
    if s.prop not in PROPS:
        return
    exe, why = build(s.prop, hooked)
    if not exe:
        s.cov["stages"].append({"stage": "coverage-guided search", "skipped": why[-300:]})
        return
    secs = 20 if C.TIER == "quick" else 900
    d = os.path.join(s.dir, "fuzz")
    shutil.rmtree(d, ignore_errors=True)
    corpus = os.path.join(d, "corpus")
    os.makedirs(corpus)
    for i, b in enumerate(seeds(s.prop)):
        with open(os.path.join(corpus, f"seed{i}"), "wb") as f:
            f.write(b)
    dictionary(os.path.join(d, "dict"), json.load(open(s.pool)))
    e = s.env(VERIF_PROP=s.prop, VERIF_EXE=chk)
    common = [f"-max_len={MAX_LEN.get(s.prop, 420)}", "-rss_limit_mb=0", "-malloc_limit_mb=0", "-timeout=300", "-detect_leaks=0"]

    def one(j):
        art = os.path.join(d, f"art{j}-")
        cmd = [exe, corpus, *common, f"-seed={C.SEED * 1000 + j + 1}", "-len_control=0", f"-max_total_time={secs}", "-reload=1", "-print_final_stats=1",
               f"-use_value_profile={0 if j == 7 else 1}", f"-artifact_prefix={art}", "-dict=" + os.path.join(d, "dict")]
        rc, o, err = run(cmd, env=e, cwd=d, preexec_fn=C.limits(0), timeout=secs + 400)
        m = re.search(r"stat::number_of_executed_units:\s*(\d+)", err)
        c = re.findall(r"cov: (\d+) ft: (\d+)", err)
        return rc, err, art, int(m.group(1)) if m else 0, c[-1] if c else (0, 0)
    execs, cov = 0, (0, 0)
    odd = []
    with cf.ThreadPoolExecutor(C.CORES) as ex:
        results = list(ex.map(one, range(C.CORES)))
    for rc, err, art, n, c in results:
        execs += n
        cov = max(cov, (int(c[0]), int(c[1])))
    for rc, err, art, n, c in results:
        if rc == 0:
            continue
        files = sorted(f for f in glob.glob(art + "*") if re.search(r"-(crash|timeout|oom)-|-(crash|timeout|oom)", f))
        judge(s, exe, chk, rel, rc, err, files, e, d, common, odd)
    kept = {open(f, "rb").read() for f in glob.glob(corpus + "/*")}
    s.cov["evaluations"] += execs
    s.cov["calls_into_code"] += execs
    s.cov["distinct_nontrivial"] += len(kept)
    s.cov["stages"].append({"stage": "coverage-guided search (libFuzzer, value profile; crate under test instrumented)", "executions": execs,
                            "edges": cov[0], "features": cov[1], "inputs_kept_for_new_coverage": len(kept), "seconds": secs, "not_judged": odd})


def judge(s, exe, chk, rel, rc, err, files, e, d, common, odd):
    if not files:
        odd.append(f"exit {rc}: {err[-200:]}")
        return
    art = files[0]
    if "timeout-" in os.path.basename(art) or "oom-" in os.path.basename(art):
        odd.append(os.path.basename(art))
        return
    why, case = grab(err, "WHY"), grab(err, "CASE")
    if not case:
        # the process died in the call
        r2, _, err2 = run([exe, art], env=dict(e, VERIF_DUMP="1"), cwd=d, timeout=100)
        case, why = grab(err2, "CASE"), f"process died: {err2[-300:]}"
        if not case or r2 == 0 or s.prop not in C.CRASH_BREAKS:
            odd.append(f"exit {rc}: {err[-200:]}")
            return
    # a smaller one
    run([exe, "-minimize_crash=1", "-max_total_time=20", f"-exact_artifact_path={d}/min", *common, art], env=e, cwd=d, timeout=200)
    if os.path.exists(f"{d}/min"):
        r2, _, err2 = run([exe, f"{d}/min"], env=dict(e, VERIF_DUMP="1"), cwd=d, timeout=100)
        if r2 != 0 and grab(err2, "CASE"):
            case, why = grab(err2, "CASE"), grab(err2, "WHY") or why
    for b in (chk, rel):
        r3, o3, e3 = run([b, "eval", "--prop", s.prop, "--rounds", "1"], inp=case, env=s.env(), preexec_fn=C.limits(14), timeout=200)
        if r3 is None:
            continue
        if r3 == 0 and json.loads(o3)["verdict"] != "fail":
            continue
        s.violation(b, {"kind": "case", "property": s.prop, "case": json.loads(case), "rounds": 1, "why": (json.loads(o3)["msg"] if r3 == 0 else f"process died: exit {r3} {e3[-300:]}"),
                        "found_by": "coverage-guided search", "input_hex": open(art, "rb").read().hex()})
    # seen only in the company of the cases before it
    s.violation(exe, {"kind": "fuzz", "property": s.prop, "case": json.loads(case), "why": why,
                      "found_by": "coverage-guided search; the case alone does not fail, it depends on the calls before it"})
