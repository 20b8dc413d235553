"""Stages that need another execution environment: Miri targets and sanitizers."""
import concurrent.futures as cf
import json
import os
import signal
import sys

import check as C
from check import Inconclusive, run, say

# byte order / pointer width
PLATFORMS = {
    "s390x-unknown-linux-gnu": "big-endian, 64-bit",
    "i686-unknown-linux-gnu": "little-endian, 32-bit",
    "powerpc-unknown-linux-gnu": "big-endian, 32-bit",
    "aarch64-apple-darwin": "little-endian, 64-bit, another processor and system",
    "x86_64-pc-windows-gnu": "little-endian, 64-bit, another system",
}
LESSER = ("aarch64-apple-darwin", "x86_64-pc-windows-gnu")
FAST = "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-disable-validation"


def miri_env(flags):
    return C.env(XDG_CACHE_HOME=os.path.join(C.WORK, "miri-cache"), MIRIFLAGS=flags)


def miri_cmd(target, *args):
    return ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--target", target,
            "--target-dir", os.path.join(C.TARGET, "miri"), "--", *args]


def miri_ready(target):
    """Builds the interpreter's standard library and the probe for a target."""
    os.makedirs(os.path.join(C.WORK, "miri-cache"), exist_ok=True)
    e = miri_env("-Zmiri-disable-isolation")
    C.forget_stale(os.path.join(C.TARGET, "miri"), C.source_stamp())
    rc, o, err = run(["cargo", "+nightly", "miri", "setup", "-q", "--target", target], cwd=os.path.join(C.VERIF, "probe"), env=e, timeout=600)
    if rc != 0:
        raise Inconclusive(f"no Miri sysroot for {target}: {err[-800:]}")
    rc, o, err = run(miri_cmd(target, "seq"), inp="", cwd=os.path.join(C.VERIF, "probe"), env=e, timeout=600)
    if rc != 0:
        raise Inconclusive(f"the probe does not build for {target}: {err[-1500:]}")


def miri_run(target, lines, flags, *mode, timeout=700):
    rc, o, err = run(miri_cmd(target, *(mode or ("seq",))), inp="\n".join(lines) + "\n",
                     cwd=os.path.join(C.VERIF, "probe"), env=miri_env(flags), timeout=timeout)
    return rc, o, err


def answers(out):
    r = {}
    for l in out.splitlines():
        f = l.split(" ", 2)
        if f[0] == "call":
            r[int(f[1])] = f[2]
    return r


def lines_of(s, exe, gen, start, count):
    rc, o, err = run([exe, "lines", "--prop", gen, "--seed", str(C.SEED), "--from", str(start), "--count", str(count)],
                     env=s.env(), timeout=120)
    if rc != 0:
        raise Inconclusive("generator: " + err[-500:])
    return [l for l in o.splitlines() if l]


def smaller(line):
    """Simpler variants of a call."""
    f = line.split()
    out = []

    def hexes(i):
        x = "" if f[i] == "-" else f[i]
        n = len(x) // 2
        for m in (0, n // 2, n - 8, n - 1):
            if 0 <= m < n:
                g = list(f)
                g[i] = x[: 2 * m] or "-"
                out.append(" ".join(g))
        if x.strip("0"):
            g = list(f)
            g[i] = "00" * n
            out.append(" ".join(g))
    if f[0] == "lyra":
        for i, lo in ((2, 1), (3, 3), (4, 1), (1, 1)):
            v = int(f[i])
            for w in (lo, v // 2, v - 1):
                if lo <= w < v:
                    g = list(f)
                    g[i] = str(w)
                    out.append(" ".join(g))
        hexes(5)
        hexes(6)
    else:
        hexes(2)
    return out


def minimise(line, fails, budget=25):
    best, n = line, 0
    again = True
    while again and n < budget:
        again = False
        for c in smaller(best):
            n += 1
            if fails(c):
                best, again = c, True
                break
            if n >= budget:
                break
    return best


def chunks(l, n):
    return [l[i::n] for i in range(n) if l[i::n]]


# ------------------------------------------------------------------ C16

START32 = """
.section .text
.globl _start
.type _start,@function
_start:
    xorl %ebp, %ebp
    popl %esi
    movl %esp, %ecx
    andl $0xfffffff0, %esp
    pushl %eax
    pushl %esp
    pushl %edx
    pushl $0
    pushl $0
    pushl %ecx
    pushl %esi
    call 1f
1:  popl %ebx
    addl $_GLOBAL_OFFSET_TABLE_+[.-1b], %ebx
    leal main@GOTOFF(%ebx), %eax
    pushl %eax
    call __libc_start_main@PLT
    hlt
.section .note.GNU-stack,"",@progbits
"""
I686 = "i686-unknown-linux-gnu"


def native32():
    """The probe as a 32-bit program for this machine. There is a 32-bit C library to run with
    but none to link with, so the start file and the link names are made here.
    None if this machine cannot do it."""
    d = os.path.join(C.WORK, "x32")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "start.s"), "w") as f:
        f.write(START32)
    for n in ("libc.so.6", "libgcc_s.so.1", "libpthread.so.0", "libm.so.6", "libdl.so.2", "libutil.so.1", "librt.so.1"):
        if not os.path.exists("/usr/lib32/" + n):
            return None, n + " is missing"
        l = os.path.join(d, n.split(".so")[0] + ".so")
        if not os.path.lexists(l):
            os.symlink("/usr/lib32/" + n, l)
    rc, o, e = run(["gcc", "-m32", "-c", os.path.join(d, "start.s"), "-o", os.path.join(d, "start.o")], timeout=60)
    if rc != 0:
        return None, e
    flags = " ".join("-Clink-arg=" + a for a in ("-m32", "-nostartfiles", "-nostdlib", os.path.join(d, "start.o"), "-L" + d, "/usr/lib32/ld-linux.so.2"))
    p, e = C.build("probe-i686", "probe", "checked", "-Clinker=gcc " + flags, "nightly", I686, ("-Zbuild-std",))
    if not p:
        return None, e[-800:]
    rc, o, e = run([p, "seq"], inp="hash Sum -\n", timeout=30)
    if rc != 0 or "digest" not in o:
        return None, f"does not run: exit {rc} {e[-300:]}"
    return p, ""


WIDE = "x86-64-v3"


def native_wide():
    """The probe for processors with wider vectors, if this is one."""
    try:
        if not all(f" {x} " in open("/proc/cpuinfo").read() for x in ("avx2", "bmi1", "bmi2", "fma", "movbe", "f16c")):
            return None, "this processor has no AVX2"
    except OSError as x:
        return None, str(x)
    p, e = C.build("probe-wide", "probe", "release", "-Ctarget-cpu=" + WIDE)
    return (p, "") if p else (None, e[-800:])


# conditions that say nothing about byte order, sizes or instructions: code under them has to
# compute the same, and can be run here
ELSEWHERE = {
    "systems": ["windows", 'target_family="windows"', 'target_family="wasm"', *(f'target_os="{x}"' for x in ("windows", "macos", "ios", "android", "freebsd", "wasi", "none")),
                'target_env="msvc"', 'target_env="musl"', 'target_vendor="apple"', 'target_vendor="pc"'],
    "processors": [f'target_arch="{x}"' for x in ("aarch64", "arm", "riscv64", "wasm32", "loongarch64", "x86")],
}


def elsewhere(name):
    """The probe for this machine, with the code under test believing it is elsewhere too."""
    return C.build("probe-" + name, "probe", "release",
                   more_env={"RUSTC_WRAPPER": os.path.join(C.VERIF, "probe", "rustc-cfg.sh"), "VERIF_CFGS": " ".join(ELSEWHERE[name])})


def check_native(s, rel, probe, other, mode, target, platform, n, gen="W16"):
    size = 1_000
    starts = list(range(0, n, size))

    def one(at):
        lines = lines_of(s, rel, gen, at, size)
        inp = "\n".join(lines) + "\n"
        r = [run([p, "seq"], inp=inp, timeout=700) for p in (probe, other)]
        if r[0][0] != 0 or len(answers(r[0][1])) != len(lines):
            raise Inconclusive(f"the host run of the probe fails: exit {r[0][0]} {r[0][2][-500:]}")
        if r[0][1] == r[1][1]:
            return {hash(l) for l in lines}, None
        if r[1][0] is None:
            raise Inconclusive(f"the program for {platform} is too slow")
        a, b = answers(r[0][1]), answers(r[1][1])
        for i, l in enumerate(lines):
            if a[i] != b.get(i):
                return set(), (l, b.get(i, f"process died: exit {r[1][0]} {r[1][2][-300:]}"), a[i])
        return set(), None
    done, distinct = 0, set()
    with cf.ThreadPoolExecutor(C.CORES) as ex:
        for k, bad in ex.map(one, starts):
            done += size
            distinct |= k
            if bad:
                line, got, want = bad

                def ask(p, l):
                    return answers(run([p, "seq"], inp=l + "\n", timeout=120)[1]).get(0)

                def fails(l):
                    a = ask(probe, l)
                    return a is not None and a != ask(other, l)
                if not fails(line):
                    raise Inconclusive(f"the program for {platform} answered {line[:300]} differently, but not on its own")
                best = minimise(line, fails, 200)
                s.violation(probe, {"kind": "lines", "mode": mode, "target": target, "calls": [best], "original": line,
                                    "why": f"programs for {platform} and for the host answer differently: {got[:300]} / {want[:300]}"})
    s.cov["evaluations"] += done
    s.cov["calls_into_code"] += 2 * done
    s.cov["distinct_nontrivial"] += len(distinct)
    s.cov["stages"].append({"target": target, "platform": platform, "requests_compared_with_host": done})


def check_platforms(s):
    rel, chk, _ = C.build_pair(s.prop)
    probe, err = C.build("probe", "probe", "release")
    if not probe:
        raise Inconclusive("probe does not build: " + err)
    quick = C.TIER == "quick"
    with cf.ThreadPoolExecutor(len(PLATFORMS) + 4) as ex:
        f32 = ex.submit(native32)
        fw = ex.submit(native_wide)
        fe = {k: ex.submit(elsewhere, k) for k in ELSEWHERE}
        list(ex.map(miri_ready, [t for t in PLATFORMS if t != I686]))
        p32, why32 = f32.result()
        pw, whyw = fw.result()
    # how many requests each interpreted target answers
    share = {t: (120 if quick else 3000) if t in LESSER else 420 if quick else 8000 for t in PLATFORMS}
    if p32 and quick:
        del share[I686]
    else:
        miri_ready(I686)
    s.cov.update(evaluations=0, calls_into_code=0, distinct_nontrivial=0, samples=[], stages=[])
    if p32:
        check_native(s, rel, probe, p32, "native32", I686, "little-endian, 32-bit, native, run-time checks on", 160_000 if quick else 4_000_000)
    else:
        s.assumptions.append("no native 32-bit program here (" + why32 + "): 32-bit targets only under Miri")
    if pw:
        check_native(s, rel, probe, pw, "wide", WIDE, "this machine with wider vectors (x86-64-v3), native", 80_000 if quick else 2_000_000)
    else:
        s.assumptions.append("no build for wider vectors: " + whyw)
    for k, f in fe.items():
        pe, whye = f.result()
        if pe:
            check_native(s, rel, probe, pe, "elsewhere", k, f"this machine, with the code's conditions on other {k} true", 120_000 if quick else 2_000_000)
        else:
            s.assumptions.append(f"the code does not build here with its conditions on other {k} true: {whye[-200:]}")
    lines = lines_of(s, rel, "P16", 0, max(share.values()))
    rc, o, err = run([probe, "seq"], inp="\n".join(lines) + "\n", timeout=300)
    host = answers(o)
    if rc != 0 or len(host) != len(lines):
        raise Inconclusive(f"the host run of the probe fails: exit {rc} {err[-500:]}")

    def one(job):
        target, part, flags = job
        idx = [i for i, _ in part]
        rc, o, err = miri_run(target, [l for _, l in part], flags, timeout=800 if C.TIER == "quick" else 6 * 3600)
        a = answers(o)
        return target, idx, rc, a, err
    numbered = list(enumerate(lines))
    jobs = [(t, p, FAST) for ps in zip(*(chunks(numbered[:n], 8) for n in share.values())) for t, p in zip(share, ps)]
    done = {t: 0 for t in share}
    skipped = {}
    with cf.ThreadPoolExecutor(C.CORES) as ex:
        for target, idx, rc, a, err in ex.map(one, jobs):
            for j, i in enumerate(idx):
                if j not in a:
                    break
                done[target] += 1
                if a[j] != host[i]:
                    differs(s, probe, target, lines[i], a[j], host[i])
            else:
                continue
            if "unsupported operation" in err:
                skipped[target] = err[-300:]
                continue
            i = idx[len(a)]
            # died in the middle: does that call by itself bring the target down, and not the host?
            rc, o, err2 = miri_run(target, [lines[i]], FAST, timeout=300)
            if rc not in (0, None) and not answers(o) and "unsupported operation" not in err2 and host[i].startswith("digest"):
                differs(s, probe, target, lines[i], "process died: " + err2.strip()[-400:], host[i])
            raise Inconclusive(f"{target}: {err[-600:]}")
    if len(skipped) == len(share):
        raise Inconclusive(f"Miri cannot run this code: {skipped}")
    tot = sum(done.values())
    s.cov["evaluations"] += tot
    s.cov["calls_into_code"] += tot + len(lines)
    s.cov["distinct_nontrivial"] += len(set(lines))
    s.cov.update(samples=lines[:4],
                 rule="requests of all sizes for the native 32-bit program; for Miri, requests small enough to interpret (0..1200 bytes of input, 3..13 rows, 1..4 columns, T 1..3, k 0..200, all five hashes); "
                      "each is answered by the host and by every interpreted target; non-trivial: every distinct request")
    s.cov["stages"] += [{"target": t, "platform": PLATFORMS[t], "requests_compared_with_host": done[t], "skipped": skipped.get(t)} for t in share]
    s.assumptions.append("Miri executes the target's semantics for byte order and pointer width faithfully")
    # the host answers themselves against the model, on a wider range
    return


def differs(s, probe, target, line, got, want):
    def fails(l):
        rc, o, e = miri_run(target, [l], FAST, timeout=120)
        r2, o2, _ = run([probe, "seq"], inp=l + "\n", timeout=60)
        a, b = answers(o).get(0), answers(o2).get(0)
        return a is not None and b is not None and a != b
    if not fails(line) and not got.startswith("process died"):
        raise Inconclusive(f"{target} answered {line} differently from the host, but not on its own")
    best = line if got.startswith("process died") else minimise(line, fails)
    s.violation(probe, {"kind": "lines", "mode": "platform", "target": target, "calls": [best], "original": line,
                        "why": f"{target} ({PLATFORMS[target]}) and {C.HOST} answer differently: {got[:300]} / {want[:300]} (before shrinking: {line[:300]})"})


# ------------------------------------------------------------------ C15

BUILDS = {  # profile of the probe: what it is, cases (quick, thorough)
    "plain": ("unoptimised, run-time checks on", 16_000, 200_000),
    "small": ("optimised for size across crates, panics abort", 40_000, 1_000_000),
}


def check_more_builds(s, rel):
    with cf.ThreadPoolExecutor(3) as ex:
        fs = [(None, ex.submit(C.build, "probe", "probe", "release"))] + [(b, ex.submit(C.build, "probe-" + b, "probe", b)) for b in BUILDS]
        built = {b: f.result() for b, f in fs}
    for b, (p, e) in built.items():
        if not p:
            raise Inconclusive("probe does not build: " + e)
    for b, (what, quick, thorough) in BUILDS.items():
        check_native(s, rel, built[None][0], built[b][0], "build", b, what, quick if C.TIER == "quick" else thorough, "W15")


# ------------------------------------------------------------------ C14

def first_calls(exe, env, start, count, times=1, secs=3600, seed=None):
    """Processes of their own whose first calls come from several threads at once."""
    cmd = [exe, "first", "--seed", str(C.SEED if seed is None else seed), "--from", str(start), "--count", str(count), "--times", str(times), "--secs", str(secs)]
    rc, o, err = run(cmd, env=env, preexec_fn=C.limits(14), timeout=secs + 120)
    if rc != 0:
        raise Inconclusive(f"first calls: exit {rc} {err[-300:]}")
    d = [json.loads(l) for l in o.splitlines()]
    return d[-1], d[:-1]


def check_first(s, rel, chk):
    secs = 22 if C.TIER == "quick" else 900
    with cf.ThreadPoolExecutor(3) as ex:
        rs = list(ex.map(lambda j: (j, first_calls((rel, chk, rel)[j], s.env(), j * 10_000_000, 10_000_000, 1, secs)), range(3)))
    n = sum(r[0]["done"] for _, r in rs)
    s.cov["stages"].append({"stage": "first calls of a process, from 2 to 8 threads at once, a forked process per case", "cases": n})
    s.cov["evaluations"] += n
    for j, (end, wrong) in rs:
        if "case" not in end:
            continue
        exe = (rel, chk, rel)[j]
        again, wrong2 = first_calls(exe, s.env(), end["case"], 1, 200_000, 120)
        if "case" not in again:
            raise Inconclusive(f"once only: {end} {wrong}")
        rc, o, _ = run([exe, "first", "--seed", str(C.SEED), "--pool", "1"], env=s.env(), timeout=60)
        pool = o.splitlines()
        calls = [[pool[c] for c in t] for t in again["threads"]]
        w = (wrong2 or wrong or [None])[0]
        why = f"`{pool[w['call']][:300]}` answers {w['got'][:200]}, which it does not on its own" if w else f"the process ends with wait status {again['status']}"
        s.violation(exe, {"kind": "first", "case": end["case"], "seed": C.SEED, "threads": calls, "calls": sum(calls, []),
                          "why": f"first calls of a process, {len(calls)} threads: {why} (seen once in {again['done']} processes)"})


def check_threads(s):
    rel, chk, _ = C.build_pair(s.prop)
    n = C.n_cases("C14")
    half = n // 2
    s.worker(rel, "release build", 0, half, threads=3)
    s.worker(chk, "checked build", half, n - half, threads=3)
    check_first(s, rel, chk)
    # interpreted schedules: pre-emption at any basic block
    probe, err = C.build("probe", "probe", "release")
    if not probe:
        raise Inconclusive("probe does not build: " + err)
    miri_ready(C.HOST)
    groups = 16 if C.TIER == "quick" else 400
    size = 3
    lines = lines_of(s, rel, "P14", 0, groups * size)
    rc, o, err = run([probe, "seq"], inp="\n".join(lines) + "\n", timeout=300)
    host = answers(o)
    if rc != 0 or len(host) != len(lines):
        raise Inconclusive(f"the host run of the probe fails: exit {rc} {err[-500:]}")

    def one(g):
        part = lines[g * size:(g + 1) * size]
        flags = f"{FAST} -Zmiri-disable-data-race-detector -Zmiri-seed={C.SEED * 1000 + g} -Zmiri-preemption-rate=0.02"
        return g, part, miri_run(C.HOST, part, flags, "conc", str(2 + g % 2), timeout=600)
    ran = calls = 0
    with cf.ThreadPoolExecutor(C.CORES) as ex:
        for g, part, (rc, o, err) in ex.map(one, range(groups)):
            seen = 0
            for l in o.splitlines():
                f = l.split(" ", 4)
                if len(f) == 5 and f[0] == "thread":
                    seen += 1
                    calls += 1
                    i = g * size + int(f[3])
                    if f[4] != host[i]:
                        s.violation(probe, {"kind": "lines", "mode": "threads", "calls": part, "group": g, "seed": C.SEED,
                                            "why": f"with {2 + g % 2} interpreted threads, `{lines[i][:300]}` answers {f[4][:200]}, alone {host[i][:200]}"})
            if rc != 0 or not seen:
                if rc is None or "unsupported operation" in err:
                    continue
                if "deadlock" in err:
                    s.violation(probe, {"kind": "lines", "mode": "threads", "calls": part, "group": g, "seed": C.SEED,
                                        "why": "deadlock between concurrent calls: " + err[-500:]})
                raise Inconclusive("interpreted threads: " + err[-600:])
            ran += 1
    s.cov["stages"].append({"stage": "interpreted schedules (Miri, random pre-emption)", "schedules": ran, "calls": calls})
    s.cov["evaluations"] += ran
    s.cov["calls_into_code"] += calls
    s.assumptions.append("native schedules are the ones the operating system happens to choose; interpreted ones are random")


# ------------------------------------------------------------------ C17

SAN = {
    "address": ("-Zsanitizer=address", ()),
    "memory": ("-Zsanitizer=memory", ("-Zbuild-std",)),
    "thread": ("-Zsanitizer=thread", ("-Zbuild-std",)),
}
SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:exitcode=66:allocator_may_return_null=1:handle_abort=0",
    "MSAN_OPTIONS": "exitcode=66:allocator_may_return_null=1",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:allocator_may_return_null=1",
}


def is_ub(rc, err):
    if "stack-overflow" in err or "has overflowed its stack" in err or "allocation-size-too-big" in err:
        return False
    if rc == 66 and "Sanitizer" in err:
        return True
    if "unsafe precondition(s) violated" in err or "pointer dereference" in err or "Undefined Behavior" in err:
        return True
    return rc in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL)


MISALIGN = ("checked-misalign", "harness", "checked", "--cfg verif_misalign")


def special_build(path):
    """The build a replay file names, if it is not one of the usual two."""
    name = path.split("/")[0]
    if name == MISALIGN[0]:
        return C.build(*MISALIGN)[0]
    if name.startswith("san-"):
        f, x = SAN[name[4:]]
        return C.build(name, "harness", "release", f, "nightly", C.HOST, x)[0]
    return None


def check_ub(s):
    quick = C.TIER == "quick"
    with cf.ThreadPoolExecutor(6) as ex:
        pair = ex.submit(C.build_pair, s.prop)
        miri = ex.submit(miri_ready, C.HOST)
        mis = ex.submit(C.build, *MISALIGN)
        san = {k: ex.submit(C.build, f"san-{k}", "harness", "release", f, "nightly", C.HOST, x) for k, (f, x) in SAN.items()}
        rel, chk, _ = pair.result()
        miri.result()
        san = {k: f.result() for k, f in san.items()}
        san["misaligning allocator"] = mis.result()
    for k, (p, e) in san.items():
        if not p:
            raise Inconclusive(f"no {k} build: {e[-1500:]}")

    def judge(exe, gen):
        def f(rc, idx, err, again, e):
            for i in idx:
                rc2, d = s.shrink(exe, gen, i, e)
                if rc2 == 0 and (is_ub(None, d["why"]) or "Sanitizer" in d["why"] or any(f"signal {n}:" in d["why"] for n in (4, 7, 11))):
                    s.violation(exe, d)
            if is_ub(rc, err):
                rep = dict(again)
                rep["why_in_search"] = err[-3000:]
                s.violation(exe, rep)
            raise Inconclusive(f"worker exit {rc}, which is not undefined behaviour: {err[-600:]}")
        return f
    n = 1 if quick else 20
    e = s.env(**SAN_ENV)
    s.worker(chk, "standard library's own checks", 0, 400_000 * n, report=judge(chk, "C17"))
    odd = san["misaligning allocator"][0]
    s.worker(odd, "standard library's own checks, no block of memory better aligned than asked for", 2_000_000 * n, 200_000 * n, report=judge(odd, "C17"))
    s.worker(san["address"][0], "AddressSanitizer", 400_000 * n, 400_000 * n, e=e, mem=0, report=judge(san["address"][0], "C17"))
    s.worker(san["memory"][0], "MemorySanitizer", 800_000 * n, 150_000 * n, e=e, mem=0, report=judge(san["memory"][0], "C17"))
    s.worker(san["thread"][0], "ThreadSanitizer, concurrent calls", 0, 300 * n, gen="C14", threads=2, e=e, mem=0, report=judge(san["thread"][0], "C14"))
    s.cov["rule"] = "every call counts (valid and refused); concurrent groups count when two or more threads make different calls"
    # the interpreter, on small requests
    m = 64 if quick else 3000
    lines = lines_of(s, rel, "P17", 0, m)
    jobs = [("seq",) for _ in range(C.CORES)]

    def one(part):
        return part, miri_run(C.HOST, part, "-Zmiri-disable-isolation", "seq", timeout=800 if quick else 6 * 3600)

    def pair_of(g):
        part = lines[2 * g:2 * g + 2]
        return part, miri_run(C.HOST, part, f"-Zmiri-disable-isolation -Zmiri-seed={C.SEED * 1000 + g}", "conc", "2", timeout=800)
    ran, skipped = 0, 0
    with cf.ThreadPoolExecutor(C.CORES) as ex:
        fs = [ex.submit(one, p) for p in chunks(lines, C.CORES * (1 if quick else 10))]
        fs += [ex.submit(pair_of, g) for g in range(4 if quick else 100)]
        for f in fs:
            part, (rc, o, err) = f.result()
            a = [l for l in o.splitlines() if " digest" in l or l.endswith("panic")]
            ran += len(a)
            if rc == 0:
                continue
            if "Undefined Behavior" in err:
                if o.startswith("call") or not o:
                    bad = part[min(len(a), len(part) - 1)]

                    def fails(l):
                        r, _, e2 = miri_run(C.HOST, [l], "-Zmiri-disable-isolation", "seq", timeout=120)
                        return r not in (0, None) and "Undefined Behavior" in e2
                    if fails(bad):
                        part = [minimise(bad, fails)]
                s.violation(rel, {"kind": "lines", "mode": "ub", "calls": part, "why": "Miri: " + err[:1500]})
            skipped += 1
            if rc is not None and "unsupported operation" not in err:
                raise Inconclusive("Miri: " + err[-600:])
    s.cov["stages"].append({"stage": "Miri (aliasing, bounds, initialisation, races)", "calls": ran, "chunks_not_finished": skipped})
    s.cov["evaluations"] += ran
    s.cov["calls_into_code"] += ran
    s.cov["samples"] = s.cov["samples"][:5] + lines[:3]


# ------------------------------------------------------------------ replay

def replay(rep):
    if rep["mode"] in ("native32", "wide", "build", "elsewhere"):
        probe, err = C.build("probe", "probe", "release")
        other, err = native32() if rep["mode"] == "native32" else native_wide() if rep["mode"] == "wide" else elsewhere(rep["target"]) if rep["mode"] == "elsewhere" else C.build("probe-" + rep["target"], "probe", rep["target"])
        r = [run([p, "seq"], inp="\n".join(rep["calls"]) + "\n")[1] for p in (probe, other)]
        say("host:", r[0].strip()[:500], "| other:", r[1].strip()[:500])
        bad = r[0] != r[1]
    elif rep["mode"] == "platform":
        probe, err = C.build("probe", "probe", "release")
        miri_ready(rep["target"])
        _, o, _ = run([probe, "seq"], inp="\n".join(rep["calls"]) + "\n")
        rc, o2, e = miri_run(rep["target"], rep["calls"], FAST)
        say(C.HOST, o.strip(), "|", rep["target"], o2.strip(), e.strip()[-300:])
        bad = answers(o) != answers(o2)
    elif rep["mode"] == "threads":
        probe, err = C.build("probe", "probe", "release")
        miri_ready(C.HOST)
        _, o, _ = run([probe, "seq"], inp="\n".join(rep["calls"]) + "\n")
        g = rep["group"]
        flags = f"{FAST} -Zmiri-disable-data-race-detector -Zmiri-seed={rep['seed'] * 1000 + g} -Zmiri-preemption-rate=0.02"
        rc, o2, e = miri_run(C.HOST, rep["calls"], flags, "conc", str(2 + g % 2))
        say(o, o2, e[-500:])
        a = answers(o)
        bad = rc != 0 or any(a.get(int(l.split()[3])) != l.split(" ", 4)[4] for l in o2.splitlines() if l.startswith("thread"))
    else:
        miri_ready(C.HOST)
        rc, o, e = miri_run(C.HOST, rep["calls"], "-Zmiri-disable-isolation")
        say(o, e[-2000:])
        bad = "Undefined Behavior" in e
    say("reproduced" if bad else "not reproduced")
    return 1 if bad else 0
