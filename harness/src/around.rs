//! Runs calls in surroundings arranged by the caller and watches what they do to the process:
//! `verif around --in LINES --out RESULTS --ctx main|thread|unwind [--stack BYTES] [--name NAME]`
//! Effects are trapped by a seccomp filter before they happen.
use crate::case::{hex, Concrete};
use std::io::Write;
use std::os::fd::AsRawFd;
use std::sync::atomic::{AtomicI32, AtomicU32, AtomicU64, Ordering};

static OUT: AtomicI32 = AtomicI32::new(-1);
static AT: AtomicU64 = AtomicU64::new(0);
static HOOKED: AtomicU32 = AtomicU32::new(0);

fn put(s: &str) {
    let b = s.as_bytes();
    let mut at = 0;
    while at < b.len() {
        let n = unsafe { libc::write(OUT.load(Ordering::SeqCst), b[at..].as_ptr() as *const _, b.len() - at) };
        if n <= 0 {
            unsafe { libc::_exit(3) };
        }
        at += n as usize;
    }
}

extern "C" fn on_sys(_s: i32, info: *mut libc::siginfo_t, _c: *mut libc::c_void) {
    // si_syscall follows si_call_addr
    let nr = unsafe { *((info as *const u8).add(24) as *const i32) };
    let mut buf = [0u8; 64];
    let mut n = 0;
    for b in b"trap " {
        buf[n] = *b;
        n += 1;
    }
    for v in [AT.load(Ordering::SeqCst), nr as u64] {
        let mut d = [0u8; 20];
        let mut k = 0;
        let mut v = v;
        loop {
            d[k] = b'0' + (v % 10) as u8;
            k += 1;
            v /= 10;
            if v == 0 {
                break;
            }
        }
        while k > 0 {
            k -= 1;
            buf[n] = d[k];
            n += 1;
        }
        buf[n] = b' ';
        n += 1;
    }
    buf[n - 1] = b'\n';
    unsafe {
        libc::write(OUT.load(Ordering::SeqCst), buf.as_ptr() as *const _, n);
        libc::_exit(75);
    }
}

/// System calls with an effect outside the process or on its settings are trapped; `write` to the
/// result file is let through.
fn install_filter(fd: i32, nothreads: bool) -> bool {
    use libc::*;
    let mut act: sigaction = unsafe { std::mem::zeroed() };
    act.sa_sigaction = on_sys as *const () as usize;
    act.sa_flags = SA_SIGINFO | SA_NODEFER;
    unsafe { sigaction(SIGSYS, &act, std::ptr::null_mut()) };
    let st = |code: u32, jt: u8, jf: u8, k: u32| sock_filter { code: code as u16, jt, jf, k };
    let ld = |off: u32| st(BPF_LD | BPF_W | BPF_ABS, 0, 0, off);
    let eq = |k: u32, jt: u8, jf: u8| st(BPF_JMP | BPF_JEQ | BPF_K, jt, jf, k);
    let set = |k: u32, jt: u8, jf: u8| st(BPF_JMP | BPF_JSET | BPF_K, jt, jf, k);
    let ret = |k: u32| st(BPF_RET | BPF_K, 0, 0, k);
    let arg = |i: u32| 16 + 8 * i;
    let mut p: Vec<sock_filter> = vec![ld(0)];
    // write: only to the result file
    p.push(eq(SYS_write as u32, 0, 4));
    p.push(ld(arg(0)));
    p.push(eq(fd as u32, 0, 1));
    p.push(ret(SECCOMP_RET_ALLOW));
    p.push(ret(SECCOMP_RET_TRAP));
    let w = (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC | O_APPEND) as u32;
    for (nr, a) in [(SYS_open, 1), (SYS_openat, 2)] {
        p.push(eq(nr as u32, 0, 4));
        p.push(ld(arg(a)));
        p.push(set(w, 0, 1));
        p.push(ret(SECCOMP_RET_TRAP));
        p.push(ret(SECCOMP_RET_ALLOW));
    }
    // a thread is fine unless none can be had, a process is not
    p.push(eq(SYS_clone as u32, 0, 4));
    p.push(ld(arg(0)));
    p.push(set(CLONE_VM as u32, 0, 1));
    p.push(ret(if nothreads { SECCOMP_RET_ERRNO | EAGAIN as u32 } else { SECCOMP_RET_ALLOW }));
    p.push(ret(SECCOMP_RET_TRAP));
    p.push(eq(SYS_clone3 as u32, 0, 1));
    p.push(ret(SECCOMP_RET_ERRNO | ENOSYS as u32));
    for nr in [
        SYS_writev, SYS_pwrite64, SYS_pwritev, SYS_pwritev2, SYS_sendto, SYS_sendmsg, SYS_sendmmsg, SYS_sendfile, SYS_splice, SYS_socket,
        SYS_socketpair, SYS_connect, SYS_bind, SYS_listen, SYS_accept, SYS_creat, SYS_unlink, SYS_unlinkat, SYS_rename, SYS_renameat,
        SYS_renameat2, SYS_mkdir, SYS_mkdirat, SYS_rmdir, SYS_link, SYS_linkat, SYS_symlink, SYS_symlinkat, SYS_truncate,
        SYS_ftruncate, SYS_chmod, SYS_fchmod, SYS_fchmodat, SYS_chown, SYS_fchown, SYS_lchown, SYS_fchownat, SYS_utime, SYS_utimes,
        SYS_utimensat, SYS_mknod, SYS_mknodat, SYS_execve, SYS_execveat, SYS_fork, SYS_vfork, SYS_chdir, SYS_fchdir, SYS_umask,
        SYS_setuid, SYS_setgid, SYS_setreuid, SYS_setresuid, SYS_setpriority, SYS_setrlimit, SYS_memfd_create, SYS_openat2, SYS_ptrace,
        SYS_mount, SYS_umount2, SYS_chroot, SYS_sethostname, SYS_personality, SYS_shmget, SYS_msgget, SYS_semget, SYS_setitimer,
        SYS_alarm, SYS_timer_create, SYS_setsid, SYS_setpgid, SYS_sched_setaffinity, SYS_io_uring_setup, SYS_mlockall, SYS_kill,
    ] {
        p.push(eq(nr as u32, 0, 1));
        p.push(ret(SECCOMP_RET_TRAP));
    }
    p.push(ret(SECCOMP_RET_ALLOW));
    let prog = sock_fprog { len: p.len() as u16, filter: p.as_mut_ptr() };
    unsafe {
        prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) == 0 && prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &prog as *const _, 0, 0) == 0
    }
}

/// Settings of the process that a hash function has no business changing.
fn snapshot() -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = vec![];
    let mut vars: Vec<_> = std::env::vars_os().collect();
    vars.sort();
    v.push(("environment variables".into(), format!("{vars:?}")));
    v.push(("working directory".into(), format!("{:?}", std::env::current_dir().map_err(|e| e.kind()))));
    if let Ok(d) = std::fs::read_dir("/proc/self/fd") {
        let mut f: Vec<String> = d
            .flatten()
            .filter_map(|x| {
                let t = std::fs::read_link(x.path()).ok()?.to_string_lossy().to_string();
                // the handle this listing uses
                if t.starts_with("/proc/") {
                    return None;
                }
                Some(format!("{} -> {t}", x.file_name().to_string_lossy()))
            })
            .collect();
        f.sort();
        v.push(("open files".into(), format!("{f:?}")));
    }
    if let Ok(s) = std::fs::read_to_string("/proc/self/status") {
        for k in ["Umask", "SigBlk", "SigIgn", "SigCgt", "Uid", "Gid"] {
            if let Some(l) = s.lines().find(|l| l.starts_with(k)) {
                v.push((k.into(), l.to_string()));
            }
        }
    }
    if let Ok(s) = std::fs::read_to_string("/proc/self/limits") {
        v.push(("resource limits".into(), s));
    }
    if let Ok(s) = std::fs::read_to_string("/proc/self/comm") {
        v.push(("process name".into(), s));
    }
    let mut handlers = String::new();
    for n in 1..32 {
        let mut a: libc::sigaction = unsafe { std::mem::zeroed() };
        if unsafe { libc::sigaction(n, std::ptr::null(), &mut a) } == 0 {
            handlers.push_str(&format!("{n}:{:x}/{:x} ", a.sa_sigaction, a.sa_flags));
        }
    }
    v.push(("signal handlers".into(), handlers));
    let l = unsafe { libc::setlocale(libc::LC_ALL, std::ptr::null()) };
    if !l.is_null() {
        v.push(("locale".into(), unsafe { std::ffi::CStr::from_ptr(l) }.to_string_lossy().to_string()));
    }
    v.push(("priority".into(), format!("{}", unsafe { libc::getpriority(libc::PRIO_PROCESS, 0) })));
    let mut set: libc::cpu_set_t = unsafe { std::mem::zeroed() };
    unsafe { libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set) };
    v.push(("processors".into(), format!("{:?}", (0..64).map(|i| unsafe { libc::CPU_ISSET(i, &set) } as u8).collect::<Vec<_>>())));
    v
}

/// Calls made when a thread ends, after what the calls themselves keep for the thread is gone.
struct AtEnd(std::cell::RefCell<Vec<Concrete>>);
impl Drop for AtEnd {
    fn drop(&mut self) {
        all(&self.0.borrow(), false);
    }
}
thread_local! {
    static END: AtEnd = const { AtEnd(std::cell::RefCell::new(vec![])) };
}

fn n_threads() -> usize {
    std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(0)
}

fn quiet(calls: &[Concrete]) {
    for c in calls.iter().take(5) {
        let _ = c.dup().run_caught();
    }
}

fn all(calls: &[Concrete], skip_refused: bool) {
    for (i, c) in calls.iter().enumerate() {
        AT.store(i as u64, Ordering::SeqCst);
        if skip_refused && !c.valid() {
            put(&format!("call {i} skipped\n"));
            continue;
        }
        let r = c.dup().run_caught();
        // what is left in the buffer would be written later
        let _ = std::io::stdout().flush();
        let _ = std::io::stderr().flush();
        match r {
            Ok(b) => put(&format!("call {i} digest {}\n", hex(&b))),
            Err(_) => put(&format!("call {i} panic\n")),
        }
    }
}

struct OnDrop<'a>(&'a [Concrete]);
impl Drop for OnDrop<'_> {
    fn drop(&mut self) {
        all(self.0, true);
    }
}

pub fn main(inp: &str, out: &str, ctx: &str, stack: usize, name: &str, nothreads: bool, nofilter: bool, spare: usize) -> i32 {
    let calls: Vec<Concrete> = match std::fs::read_to_string(inp) {
        Ok(s) => s.lines().filter_map(Concrete::parse).map(|c| c.with_spare(spare)).collect(),
        Err(e) => {
            eprintln!("{e}");
            return 2;
        }
    };
    let f = match std::fs::File::create(out) {
        Ok(f) => f,
        Err(e) => {
            eprintln!("{e}");
            return 2;
        }
    };
    OUT.store(f.as_raw_fd(), Ordering::SeqCst);
    std::panic::set_hook(Box::new(|_| {
        HOOKED.fetch_add(1, Ordering::SeqCst);
    }));
    if ctx == "fork" {
        // the calls are made by a child of a process that has made some
        quiet(&calls);
        let pid = unsafe { libc::fork() };
        if pid != 0 {
            let mut st = 0;
            unsafe { libc::waitpid(pid, &mut st, 0) };
            unsafe { libc::_exit(if libc::WIFEXITED(st) { libc::WEXITSTATUS(st) } else { 128 + libc::WTERMSIG(st) }) };
        }
    }
    // the first thread and the first panic leave traces of their own
    let _ = std::thread::spawn(|| {}).join();
    let filter = !nofilter && install_filter(f.as_raw_fd(), nothreads);
    put(if filter { "filter on\n" } else { "filter off\n" });
    let _ = crate::case::caught(|| -> () { panic!("warm-up") });
    snapshot();
    let before = snapshot();
    let threads = n_threads();
    match ctx {
        "thread" => {
            let b = std::thread::Builder::new().stack_size(stack);
            let b = if name.is_empty() { b } else { b.name(name.to_string()) };
            let calls = &calls;
            std::thread::scope(|s| {
                let _ = b.spawn_scoped(s, move || all(calls, false)).unwrap().join();
            });
        }
        "end" => {
            let calls = calls.clone();
            let _ = std::thread::spawn(move || {
                // registered first, so dropped last
                END.with(|e| *e.0.borrow_mut() = calls.clone());
                quiet(&calls);
            })
            .join();
        }
        "hook" => {
            let c = calls.clone();
            let old = std::panic::take_hook();
            std::panic::set_hook(Box::new(move |_| all(&c, true)));
            let _ = crate::case::caught(|| -> () { panic!("on purpose") });
            std::panic::set_hook(old);
        }
        "unwind" => {
            let _ = crate::case::caught(|| {
                let _d = OnDrop(&calls);
                if !calls.is_empty() {
                    panic!("on purpose");
                }
            });
        }
        _ => all(&calls, false),
    }
    AT.store(calls.len() as u64, Ordering::SeqCst);
    let after = snapshot();
    for ((k, a), (_, b)) in before.iter().zip(&after) {
        if a != b {
            put(&format!("changed {k}: {} -> {}\n", a.replace('\n', " / "), b.replace('\n', " / ")));
        }
    }
    let mut left = n_threads();
    for _ in 0..40 {
        if left <= threads {
            break;
        }
        std::thread::sleep(std::time::Duration::from_millis(50));
        left = n_threads();
    }
    if left > threads {
        put(&format!("changed number of threads: {threads} -> {left}\n"));
    }
    let h = HOOKED.load(Ordering::SeqCst);
    let _ = crate::case::caught(|| -> () { panic!("is the hook still there?") });
    if HOOKED.load(Ordering::SeqCst) == h {
        put("changed panic hook\n");
    }
    put("done\n");
    // an ordinary exit: what was registered for it runs under the filter too
    unsafe { libc::exit(0) }
}
