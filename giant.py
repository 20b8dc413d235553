"""Single calls with lengths around 2^29, 2^31 and 2^32, beside the main search."""
import json
import threading
import time

import check as C
from check import run

# per property: cases (quick), memory in GiB of the largest kind
MEDIUM = list(range(100, 116))
GRIDS = [200, 201, 202, 203]
PLAN = {"C01": [0, 1, 2, 3], "C02": [0, 1, 2, 3], "C03": [0, 2], "C04": [0, 1, 2], "C05": [0, 1, 2], "C06": [0, 1, 2], "C07": [0, 1, 2],
        "C11": [0], "C15": [0, 1, 2, 3, 4, 5, 6]}


def plan(prop):
    quick = C.TIER == "quick"
    return (PLAN[prop] if quick else list(range(4 * len(PLAN[prop])))) + (MEDIUM if quick else list(range(100, 190))) + \
        (([] if prop not in ("C01", "C15") else GRIDS if prop == "C01" else [200, 202]) if quick or prop not in ("C01", "C15") else list(range(200, 212)))


def gib(g):
    """What an honest call and the model may need."""
    if g["f"] == "lyra":
        return 2 + (2 * (g["len"] + g["salt"]) + 3 * g["k"] + 2 * 96 * g["r"] * g["c"]) / 2 ** 30
    if g["f"] == "sum":
        return 2 + 5 * g["len"] / 2 ** 30
    return 1 + 2 * g["len"] / 2 ** 30


def available():
    try:
        for l in open("/proc/meminfo"):
            if l.startswith("MemAvailable"):
                return int(l.split()[1]) / 2 ** 20
    except OSError:
        pass
    return 0


QUICK_END = 330  # seconds after which a quick check starts no more of these and waits for none


def judge(s, exe, g, secs=240):
    """(why or None, print or None, note)"""
    rc, o, err = run([exe, "giant", "--prop", s.prop], inp=json.dumps(g), env=s.env(), preexec_fn=C.limits(int(gib(g) * 2) + 2), timeout=secs)
    if rc != 0:
        return None, None, f"exit {rc} {err[-200:]}"
    d = json.loads(o)
    return d["why"], d["print"], ""


class Giants(threading.Thread):
    """Runs the cases while the rest of the check goes on; join() tells what they found."""

    def __init__(self, s, exes):
        super().__init__(daemon=True)
        self.s, self.exes = s, exes
        self.fails, self.notes, self.done, self.error = [], [], [], None

    def run(self):
        try:
            self.go()
        except Exception as x:  # reported by finish()
            self.error = x

    def go(self):
        s = self.s
        ids = plan(s.prop)
        jobs = []
        for i in ids:
            rc, o, e = run([self.exes[0], "giant", "--prop", s.prop, "--seed", str(C.SEED), "--index", str(i), "--list"], env=s.env(), timeout=60)
            g = json.loads(o)
            jobs += [(gib(g), i, g, x) for x in (self.exes if s.prop == "C15" else [self.exes[i % len(self.exes)]])]
        jobs.sort(key=lambda j: -j[0])
        end = time.monotonic() + (QUICK_END if C.TIER == 'quick' else 6 * 3600)
        lock = threading.Condition()
        free = [min(22.0, available() - 6)]
        prints = {}

        def one(need, i, g, exe):
            try:
                why, pr, note = judge(s, exe, g, max(1, min(240 if C.TIER == 'quick' else 3600, end - time.monotonic())))
                with lock:
                    if note:
                        self.notes.append({"case": g, "not judged": note})
                    elif why:
                        self.fails.append((exe, g, why))
                    else:
                        self.done.append(g)
                        prints.setdefault(i, []).append((pr, exe, g))
            finally:
                with lock:
                    free[0] += need
                    running[0] -= 1
                    lock.notify_all()
        running = [0]
        threads = []
        with lock:
            while jobs and not self.fails and time.monotonic() < end:
                fit = [j for j in jobs if j[0] <= free[0]] if running[0] < 4 else []
                if fit:
                    jobs.remove(fit[0])
                    free[0] -= fit[0][0]
                    running[0] += 1
                    t = threading.Thread(target=one, args=fit[0], daemon=True)
                    t.start()
                    threads.append(t)
                elif running[0]:
                    lock.wait()
                else:
                    self.notes += [{"case": j[2], "not judged": f"needs {j[0]:.0f} GiB"} for j in jobs]
                    break
            if jobs and not self.fails and running[0]:
                self.notes += [{"case": j[2], "not judged": "no time left"} for j in jobs]
        for t in threads:
            t.join()
        for i, l in prints.items():
            if len({p for p, _, _ in l}) > 1:
                self.fails.append((l[0][1], l[0][2], f"the builds answer differently: {[p for p, _, _ in l]}"))

    def finish(self):
        self.join()
        s = self.s
        if self.error:
            s.cov["stages"].append({"stage": "giant lengths", "skipped": repr(self.error)[:300]})
            return
        n = len(self.done)
        s.cov["evaluations"] += n
        s.cov["calls_into_code"] += n
        s.cov["distinct_nontrivial"] += len({json.dumps(g, sort_keys=True) for g in self.done})
        s.cov["stages"].append({"stage": "giant sizes (2^22..2^27, 2^29, 2^31, 2^32 and a little more; matrices of 2^24 rows, columns or passes)", "cases": n,
                                "sizes (function, input, salt, key, T, R, C)": [[g["f"], g["len"], g["salt"], g["k"], g["t"], g["r"], g["c"]] for g in self.done],
                                "not_judged": self.notes})
        if self.fails:
            exe, g, why = self.fails[0]
            # once more, and smaller if possible
            again, _, note = judge(s, exe, g)
            if not again and "builds" not in why:
                s.cov["stages"].append({"stage": "giant lengths", "seen once only": why})
                return
            for h in smaller(g):
                w, _, _ = judge(s, exe, h)
                if w:
                    g, why = h, w
            s.violation(exe, {"kind": "giant", "case": g, "why": f"{json.dumps(g)}: {why}"})


def smaller(g):
    h = dict(g, patches=[], salt_patches=[])
    if h != g:
        yield h
    for f in ("len", "salt", "k"):
        for e in (29, 31, 32):
            if g[f] >> e == 1 and g[f] > 1 << e:
                yield dict(h, **{f: 1 << e})


def replay(rep):
    s = C.Search(rep["check"])
    rel, chk, _ = C.build_pair(rep["check"])
    bad, prints = 0, set()
    for exe in (rel, chk):
        w, p, note = judge(s, exe, rep["case"])
        C.say(exe, w, note)
        prints.add(p)
        bad |= bool(w)
    if rep["check"] == "C15" and len(prints) > 1:
        bad = 1
    C.say("reproduced" if bad else "not reproduced")
    return 1 if bad else 0
