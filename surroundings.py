"""C20: the same calls in generated surroundings (environment, files, clock, limits, threads),
with everything they do to the process and outside it watched."""
import concurrent.futures as cf
import json
import os
import random
import re
import resource
import shutil
import signal
import subprocess

import check as C
from check import Inconclusive, run, say
from interp import answers, lines_of, minimise

SHIM = r"""
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <sys/stat.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <sys/utsname.h>
#include <time.h>
#include <unistd.h>
#include <sys/syscall.h>
static long long num(const char *n) { const char *s = getenv(n); return s ? atoll(s) : 0; }
int clock_gettime(clockid_t c, struct timespec *t) {
    int r = syscall(SYS_clock_gettime, c, t);
    if (!r && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) t->tv_sec += num("VS_CLOCK");
    if (!r && getenv("VS_NANO") && c == CLOCK_REALTIME) t->tv_nsec = num("VS_NANO");
    if (!r && (c == CLOCK_MONOTONIC || c == CLOCK_BOOTTIME || c == CLOCK_MONOTONIC_COARSE)) t->tv_sec += num("VS_MONO");
    return r;
}
int gettimeofday(struct timeval *t, void *z) { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); if (t) { t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; } return 0; }
time_t time(time_t *p) { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); if (p) *p = s.tv_sec; return s.tv_sec; }
pid_t getpid(void) { long long v = num("VS_PID"); return v ? v : syscall(SYS_getpid); }
pid_t getppid(void) { long long v = num("VS_PID"); return v ? v + 1 : syscall(SYS_getppid); }
uid_t getuid(void) { return getenv("VS_UID") ? num("VS_UID") : syscall(SYS_getuid); }
uid_t geteuid(void) { return getenv("VS_UID") ? num("VS_UID") : syscall(SYS_geteuid); }
int gethostname(char *b, size_t n) { const char *s = getenv("VS_HOST"); strncpy(b, s ? s : "host", n); if (n) b[n - 1] = 0; return 0; }
int uname(struct utsname *u) { int r = syscall(SYS_uname, u); const char *s = getenv("VS_HOST"); if (!r && s) { strncpy(u->nodename, s, 60); strncpy(u->release, s, 60); } return r; }
ssize_t getrandom(void *b, size_t n, unsigned f) { if (!getenv("VS_RAND")) return syscall(SYS_getrandom, b, n, f); unsigned long long x = num("VS_RAND"); for (size_t i = 0; i < n; i++) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; ((unsigned char *)b)[i] = x >> 56; } return n; }
int getentropy(void *b, size_t n) { getrandom(b, n, 0); return 0; }
long sysconf(int w) { static long (*f)(int); if (!f) f = dlsym(RTLD_NEXT, "sysconf"); if ((w == _SC_NPROCESSORS_ONLN || w == _SC_NPROCESSORS_CONF) && getenv("VS_CPUS")) return num("VS_CPUS"); return f(w); }
static void note(const char *kind, const char *n) {
    const char *p = 0;
    for (char **e = environ; e && *e; e++) if (!strncmp(*e, "VS_LOG=", 7)) p = *e + 7;
    if (!p || !n || !strncmp(n, "VS_", 3)) return;
    char b[600]; int k = snprintf(b, sizeof b, "%s %.500s\n", kind, n);
    int fd = syscall(SYS_openat, AT_FDCWD, p, O_WRONLY | O_APPEND | O_CREAT, 0666);
    if (fd >= 0) { syscall(SYS_write, fd, b, k); syscall(SYS_close, fd); }
}
char *getenv(const char *n) { note("env", n); size_t k = strlen(n); for (char **e = environ; e && *e; e++) if (!strncmp(*e, n, k) && (*e)[k] == '=') return *e + k + 1; return 0; }
char *secure_getenv(const char *n) { return getenv(n); }
/* a file that does not exist is looked for, by its name, in the files arranged by the caller */
static const char *redirect(const char *p, char *b, size_t n) {
    note("file", p);
    const char *d = getenv("VS_REDIR"), *base = strrchr(p, '/');
    if (!d || !syscall(SYS_faccessat, AT_FDCWD, p, F_OK)) return p;
    snprintf(b, n, "%s/%s", d, base ? base + 1 : p);
    return syscall(SYS_faccessat, AT_FDCWD, b, F_OK) ? p : b;
}
int open(const char *p, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); char b[4096]; return syscall(SYS_openat, AT_FDCWD, f & O_CREAT ? p : redirect(p, b, sizeof b), f, m); }
int open64(const char *p, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); char b[4096]; return syscall(SYS_openat, AT_FDCWD, f & O_CREAT ? p : redirect(p, b, sizeof b), f, m); }
int access(const char *p, int m) { char b[4096]; return syscall(SYS_faccessat, AT_FDCWD, redirect(p, b, sizeof b), m); }
int faccessat(int d, const char *p, int m, int f) { char b[4096]; return syscall(SYS_faccessat, d, d == AT_FDCWD ? redirect(p, b, sizeof b) : p, m); }
int statx(int d, const char *p, int f, unsigned m, struct statx *x) { char b[4096]; return syscall(SYS_statx, d, d == AT_FDCWD ? redirect(p, b, sizeof b) : p, f, m, x); }
ssize_t readlink(const char *p, char *o, size_t n) { note("file", p); return syscall(SYS_readlink, p, o, n); }
int sched_getcpu(void) { return getenv("VS_CPU") ? (int)num("VS_CPU") : 0; }
"""
WELL_KNOWN = ["LANG", "LC_ALL", "LC_NUMERIC", "TZ", "HOME", "USER", "PATH", "PWD", "SHELL", "TERM", "TMPDIR", "DEBUG", "VERBOSE", "TEST", "CI", "NO_COLOR",
              "RUST_LOG", "RUST_BACKTRACE", "RUST_MIN_STACK", "RUST_TEST_THREADS", "RAYON_NUM_THREADS", "OMP_NUM_THREADS", "MALLOC_PERTURB_",
              "MALLOC_ARENA_MAX", "MALLOC_MMAP_THRESHOLD_", "MALLOC_TOP_PAD_", "CARGO_MANIFEST_DIR", "OUT_DIR", "PROFILE", "LYRA2", "LYRA2_DEBUG", "LYRA2_TRACE", "LYRA2_THREADS", "LYRA2_ROWS",
              "XDG_CONFIG_HOME", "XDG_CACHE_HOME", "FIPS", "SOURCE_DATE_EPOCH", "HOSTNAME", "LYRA2_CACHE", "LYRA2_NOCHECK", "LYRA2_FAST"]
VALUES = ["", "0", "1", "2", "8", "true", "false", "yes", "on", "off", "debug", "trace", "full", "C", "de_DE.UTF-8", "tr_TR", "UTC", "/nonexistent", "-1", "4096", "18446744073709551615", "\u00e9", "x" * 3000]


def words(s):
    """Names in the source that could be those of variables or files."""
    w = set()
    for b in json.load(open(s.pool))["strs"]:
        try:
            t = bytes(b).decode()
        except UnicodeDecodeError:
            continue
        if re.search(r"[0-9a-f]{16,}", t):
            continue
        if re.fullmatch(r"[\w.\-]{1,60}", t):
            w.add(t)
        for m in re.findall(r"[A-Za-z_][\w.\-]{1,40}", t):
            w.add(m)
    return sorted(x for x in w if "/" not in x and x not in (".", "..") and not x.startswith(("LD_", "VS_", "GLIBC_", "ASAN_", "MALLOC_CHECK")))


def generate(rng, names):
    """One set of surroundings: a dictionary of features, each of which can be left out."""
    g = {}
    if rng.random() < 0.75:
        v = {}
        for _ in range(rng.choice([1, 2, 4, 12, 40])):
            n = rng.choice(names) if names and rng.random() < 0.6 else rng.choice(WELL_KNOWN)
            if "=" in n or "\0" in n:
                continue
            val = rng.choice(names) if names and rng.random() < 0.3 else rng.choice(VALUES)
            if n.startswith("MALLOC_"):
                val = str(rng.choice([1, 2, 255, 65536]))
            if n == "RUST_MIN_STACK":
                val = str(rng.choice([1 << 20, 1 << 22]))
            v[n] = val
        g["env"] = v
    if rng.random() < 0.25:
        g["bare"] = True
    if rng.random() < 0.4:
        g["files"] = {n: rng.choice(VALUES) for n in ({rng.choice(names) for _ in range(6)} if names else ["config"])}
    if rng.random() < 0.15:
        g["cwd"] = rng.choice(["removed", "root", "readonly", "deep"])
    for k, p, c in (("clock", 0.4, [-(10 ** 9), -1, 3600, 86400 * 365, 2 ** 31, 4 * 10 ** 9, -1_700_000_000]), ("mono", 0.2, [1000, 10 ** 6, 2 ** 31]),
                    ("pid", 0.2, [1, 2, 32768, 99999, 4194304]), ("uid", 0.2, [0, 1, 1000, 65534]), ("host", 0.2, ["a", "localhost", "x" * 60]),
                    ("rand", 0.4, [1, 2, 3, 4, 5, 99]), ("cpus", 0.2, [1, 2, 64, 1024])):
        if rng.random() < p:
            g[k] = rng.choice(c)
    if "clock" in g and rng.random() < 0.5:
        g["clock"] = rng.randrange(-10 ** 9, 10 ** 9)
    if rng.random() < 0.15:
        g["nanos"] = rng.choice([0, 1, 1000, 999_999_999, 500_000_000])
    if rng.random() < 0.3:
        g["affinity"] = rng.choice([1, 2, 3])
    if rng.random() < 0.3:
        g["closed"] = rng.sample([0, 1, 2], rng.choice([1, 2, 3]))
    if rng.random() < 0.15:
        g["nofile"] = rng.choice([8, 16, 64])
    if rng.random() < 0.15:
        g["nice"] = rng.choice([5, 19])
    if rng.random() < 0.15:
        g["umask"] = rng.choice([0, 0o77, 0o777])
    if rng.random() < 0.1:
        g["sigpipe"] = True
    if rng.random() < 0.2:
        g["aslr"] = False
    if rng.random() < 0.1:
        g["args"] = [rng.choice(names or ["--help"]) for _ in range(3)]
    if rng.random() < 0.3:
        g["spare"] = rng.choice([1, 7, 8, 64, 100, 4096, 70000, 1 << 20])
    if rng.random() < 0.2:
        g["misaligned"] = True
    x = rng.random()
    if x > 0.8:
        g["nothreads"] = True
    if x < 0.35:
        g["thread"] = [rng.choice([512 << 10, 1 << 20, 8 << 20, 64 << 20]), rng.choice(["", "main", "worker-1", "tokio-runtime-worker", "lyra2"] + sorted(set(names))[:40])]
    elif x < 0.7:
        g[rng.choice(["unwind", "end", "hook", "fork"])] = True
    return g


class NotHere(Exception):
    """these surroundings cannot be arranged on this machine"""


def find_setarch():
    p = shutil.which("setarch")
    return p if p and run([p, "x86_64", "-R", "/bin/true"], timeout=20)[0] == 0 else None


SETARCH = find_setarch()


class World:
    def __init__(self, s, exe, shim, odd=None):
        self.s, self.exe, self.shim, self.odd = s, exe, shim, odd

    def ask(self, g, lines, tag, log=None):
        """Answers in these surroundings: (answers, complaints, raw)."""
        d = os.path.join(self.s.dir, "w" + tag)
        shutil.rmtree(d, ignore_errors=True)
        home, cwd = os.path.join(d, "home"), os.path.join(d, "cwd")
        for x in (home, cwd, os.path.join(d, "io")):
            os.makedirs(x)
        with open(os.path.join(d, "io", "in"), "w") as f:
            f.write("\n".join(lines) + "\n")
        for n, v in g.get("files", {}).items():
            for at in (home, cwd):
                try:
                    with open(os.path.join(at, n), "w") as f:
                        f.write(v)
                except OSError:
                    pass
        e = {} if g.get("bare") else dict(os.environ)
        e.update({"HOME": home, "TMPDIR": home})
        for n, v in g.get("env", {}).items():
            e[n] = v
        for k, n in (("clock", "VS_CLOCK"), ("mono", "VS_MONO"), ("pid", "VS_PID"), ("uid", "VS_UID"), ("host", "VS_HOST"), ("rand", "VS_RAND"), ("cpus", "VS_CPUS"), ("nanos", "VS_NANO")):
            if k in g:
                e[n] = str(g[k])
        ctx = ["--ctx", "main"]
        if "thread" in g:
            ctx = ["--ctx", "thread", "--stack", str(g["thread"][0])] + (["--name", g["thread"][1]] if g["thread"][1] else [])
        elif any(g.get(k) for k in ("unwind", "end", "hook", "fork")):
            ctx = ["--ctx", next(k for k in ("unwind", "end", "hook", "fork") if g.get(k))]
        elif g.get("nothreads"):
            ctx += ["--nothreads", "1"]
        if "spare" in g:
            ctx += ["--spare", str(g["spare"])]
        if "files" in g:
            e["VS_REDIR"] = home
        if log:
            e["VS_LOG"] = log
            ctx = [*ctx, "--nofilter", "1"]
        if self.shim and any(k.startswith("VS_") for k in e):
            e["LD_PRELOAD"] = self.shim
        out = os.path.join(d, "io", "out")
        cmd = [(self.odd if g.get("misaligned") else None) or self.exe, "around", "--in", os.path.join(d, "io", "in"), "--out", out, *ctx, *g.get("args", [])]
        if g.get("aslr") is False and SETARCH:
            cmd = [SETARCH, "x86_64", "-R", *cmd]

        def pre():
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            where = cwd
            c = g.get("cwd")
            if c == "root":
                where = "/"
            elif c == "removed":
                where = os.path.join(cwd, "gone")
                os.makedirs(where, exist_ok=True)
            elif c == "readonly":
                where = os.path.join(cwd, "ro")
                os.makedirs(where, exist_ok=True)
                os.chmod(where, 0o555)
            elif c == "deep":
                where = os.path.join(cwd, *["d" * 50] * 8)
                os.makedirs(where, exist_ok=True)
            os.chdir(where)
            if c == "removed":
                os.rmdir(where)
            if "nofile" in g:
                resource.setrlimit(resource.RLIMIT_NOFILE, (g["nofile"], g["nofile"]))
            if "nice" in g:
                os.nice(g["nice"])
            if "umask" in g:
                os.umask(g["umask"])
            if "affinity" in g:
                have = sorted(os.sched_getaffinity(0))
                os.sched_setaffinity(0, have[: g["affinity"]])
            if g.get("sigpipe"):
                signal.signal(signal.SIGPIPE, signal.SIG_DFL)
            for fd in g.get("closed", []):
                os.close(fd)
        before = self.tree(d)
        try:
            p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True, env=e, preexec_fn=pre)
        except (OSError, subprocess.SubprocessError) as x:
            raise NotHere(f"{x!r}")
        try:
            o, err = p.communicate(timeout=240)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            o, err = p.communicate()
            rc = None
        try:
            raw = open(out, errors="replace").read()
        except OSError:
            raw = ""
        if not raw.startswith("filter "):
            # these surroundings cannot be arranged here: nothing was called
            shutil.rmtree(d, ignore_errors=True)
            raise NotHere(f"exit {rc} {err[-200:]}")
        bad = []
        for l in raw.splitlines():
            m = re.match(r"trap (\d+) (\d+)", l)
            if m:
                bad.append((int(m.group(1)), f"makes system call {m.group(2)} ({NAMES.get(int(m.group(2)), '?')})"))
            elif l.startswith("changed "):
                bad.append((None, "leaves the process changed: " + l[8:400]))
        if o and not bad:
            bad.append((None, "writes to standard output: " + o[:200].decode(errors="replace")))
        if err and not bad and rc == 0:
            bad.append((None, "writes to standard error: " + err[:200].decode(errors="replace")))
        after = self.tree(d)
        if before != after and not bad:
            bad.append((None, f"changes files: {sorted(set(before.items()) ^ set(after.items()))[:5]}"))
        finished = raw.endswith("done\n")
        filt = raw.startswith("filter on")
        shutil.rmtree(d, ignore_errors=True)
        return answers(raw), bad, finished, filt, rc, err.decode(errors="replace")[-300:]

    def tree(self, d):
        r = {}
        for at, _, fs in os.walk(d):
            if at.startswith(os.path.join(d, "io")):
                continue
            for f in fs:
                p = os.path.join(at, f)
                try:
                    r[os.path.relpath(p, d)] = open(p, "rb").read()
                except OSError:
                    r[os.path.relpath(p, d)] = None
        return r

    def verdict(self, g, lines, plain, tag):
        """Why the property fails here: (index of the call or None, text), or None."""
        a, bad, finished, filt, rc, err = self.ask(g, lines, tag)
        if bad:
            return bad[0], filt
        for i in range(len(lines)):
            if i in a and a[i] != "skipped" and a[i] != plain[i]:
                return (i, f"answers {a[i][:200]}, elsewhere {plain[i][:200]}"), filt
        if not finished:
            if rc == -signal.SIGKILL or rc is None or (rc == 2 and not a):
                raise Inconclusive(f"surroundings {json.dumps(g)[:400]}: exit {rc} {err}")
            i = len(a)
            return (min(i, len(lines) - 1), f"the process dies (exit {rc} {err})"), filt
        return None, filt


NAMES = {1: "write", 20: "writev", 2: "open", 257: "openat", 41: "socket", 42: "connect", 44: "sendto", 46: "sendmsg", 56: "clone", 57: "fork", 58: "vfork", 59: "execve",
         80: "chdir", 81: "fchdir", 82: "rename", 83: "mkdir", 84: "rmdir", 85: "creat", 86: "link", 87: "unlink", 88: "symlink", 90: "chmod", 95: "umask",
         62: "kill", 160: "setrlimit", 203: "sched_setaffinity", 141: "setpriority", 258: "mkdirat", 263: "unlinkat", 77: "ftruncate", 319: "memfd_create", 38: "setitimer", 37: "alarm"}


def shim(s):
    src, so = os.path.join(s.dir, "shim.c"), os.path.join(s.dir, "shim.so")
    with open(src, "w") as f:
        f.write(SHIM)
    rc, o, e = run(["gcc", "-O1", "-w", "-shared", "-fPIC", src, "-o", so, "-ldl"], timeout=60)
    return (so, "") if rc == 0 else (None, e[-300:])


def asked(s, w, so):
    """Variables and files that calls were seen to ask for, beyond those asked for by no call at all."""
    if not so:
        return {"env": [], "file": []}

    def seen(lines, tag):
        log = os.path.join(s.dir, "log" + tag)
        g = {} if tag == "none" else {"env": {k: "1" for k in WELL_KNOWN if not k.startswith(("MALLOC", "RUST", "PATH"))}}
        try:
            w.ask(g, lines, "l" + tag, log)
        except NotHere:
            return set()
        try:
            return set(open(log, errors="replace").read().splitlines())
        except OSError:
            return set()
    none = seen([], "none")
    found = set()
    with cf.ThreadPoolExecutor(C.CORES) as ex:
        for x in ex.map(lambda i: seen(lines_of(s, w.exe, "W20", 10_000_000 + i * 200, 200), str(i)), range(16)):
            found |= x - none
    r = {"env": [], "file": []}
    for l in sorted(found):
        k, _, n = l.partition(" ")
        # the harness itself looks at these
        if k == "env" and re.fullmatch(r"[^=\0]{1,200}", n) and not n.startswith(("LD_", "GLIBC_")):
            r["env"].append(n)
        elif k == "file" and not n.startswith(("/proc/", s.dir)):
            r["file"].append(os.path.basename(n))
    return r


def check_surroundings(s):
    rel, chk, _ = C.build_pair(s.prop)
    import interp
    odd, _ = C.build(*interp.MISALIGN)
    so, why = shim(s)
    if not so:
        s.assumptions.append("no interposed clock, pid or random source: " + why)
    n, size = (3000, 40) if C.TIER == "quick" else (30_000, 40)
    names = words(s)
    more = asked(s, World(s, rel, so), so)
    s.cov["asked_for_by_calls"] = more
    # what is asked for is tried often
    extra = sorted(set(more["env"] + [x for x in more["file"] if x]))
    names = names + extra * (1 + 3 * len(names) // max(1, len(extra)) if extra else 0)
    pick = [("release", rel), ("checked", chk)]

    def one(i):
        exe = pick[i % 2][1]
        w = World(s, exe, so, odd)
        rng = random.Random(f"{C.SEED}/{i}")
        lines = lines_of(s, exe, "W20", i * size, size)
        g = generate(rng, names) if i % 20 else {}
        try:
            plain, bad, finished, filt, rc, err = w.ask({}, lines, f"p{i}")
        except NotHere as x:
            raise Inconclusive(f"the calls cannot be run: {x}")
        if not finished or len(plain) != len(lines):
            if not bad:
                raise Inconclusive(f"the calls do not all return in plain surroundings: exit {rc} {err}")
            g = {}
        try:
            v, filt = w.verdict(g, lines, plain, f"g{i}")
        except NotHere as x:
            return i, exe, {"not possible here": str(x)}, lines, plain, None, False
        return i, exe, g, lines, plain, v, filt
    if not SETARCH:
        s.assumptions.append("address space randomisation cannot be switched off here")
    feats, filtered, distinct = {}, 0, set()
    with cf.ThreadPoolExecutor(C.CORES) as ex:
        for i, exe, g, lines, plain, v, filt in ex.map(one, range(n)):
            filtered += filt
            for k in g or ["plain"]:
                feats[k] = feats.get(k, 0) + 1
            distinct.add(json.dumps(g, sort_keys=True) + lines[0])
            if v:
                report(s, World(s, exe, so, odd), exe, g, lines, v)
    if feats.get("not possible here", 0) > n // 2:
        raise Inconclusive("most surroundings cannot be arranged here")
    s.cov.update(evaluations=n, calls_into_code=2 * n * size, distinct_nontrivial=len(distinct),
                 rule=f"sets of surroundings x {size} calls, each compared with the same calls in plain surroundings; non-trivial: distinct and with at least one feature, or the filter alone")
    s.cov["samples"] = [{"surroundings": generate(random.Random(f"{C.SEED}/{i}"), names)} for i in range(1, 5)]
    s.cov["stages"].append({"stage": "generated surroundings", "sets": n, "calls_each": size, "features": feats, "with_system_call_filter": filtered})
    if not filtered:
        s.assumptions.append("no system call filter here: effects seen only in files, output and process settings")


def report(s, w, exe, g, lines, v):
    def fails(g2, ls):
        try:
            return fails2(g2, ls)
        except NotHere:
            return None

    def fails2(g2, ls):
        plain, bad, fin, *_ = w.ask({}, ls, "mp")
        if bad:
            return bad[0] if not g2 else w.verdict(g2, ls, plain, "mg")[0]
        if len(plain) != len(ls):
            return None
        return w.verdict(g2, ls, plain, "mg")[0]
    v2 = fails(g, lines)
    if not v2:
        raise Inconclusive(f"once only: {v} in {json.dumps(g)[:300]}")
    if v2[0] is not None and v2[0] < len(lines):
        only = [lines[v2[0]]]
        if fails(g, only):
            lines = only
    for k in list(g):
        h = {a: b for a, b in g.items() if a != k}
        if fails(h, lines):
            g = h
    for k in ("env", "files"):
        for n in list(g.get(k, {})):
            h = dict(g)
            h[k] = {a: b for a, b in g[k].items() if a != n}
            if fails(h, lines):
                g = h
    if len(lines) == 1:
        lines = [minimise(lines[0], lambda l: bool(fails(g, [l])), 40)]
    v = fails(g, lines) or v2
    s.violation(exe, {"kind": "around", "surroundings": g, "calls": lines, "why": f"in surroundings {json.dumps(g)[:600] if g else 'of any kind'}: a call {v[1]}"})


def replay(rep):
    s = C.Search("C20")
    rel, chk, _ = C.build_pair("C20")
    import interp
    odd, _ = C.build(*interp.MISALIGN)
    so, _ = shim(s)
    bad = 0
    for exe in (rel, chk):
        w = World(s, exe, so, odd)
        plain, b, *_ = w.ask({}, rep["calls"], "p")
        v = b[0] if b else w.verdict(rep["surroundings"], rep["calls"], plain, "g")[0]
        say(os.path.relpath(exe, C.TARGET), v)
        bad |= bool(v)
    say("reproduced" if bad else "not reproduced")
    return 1 if bad else 0
