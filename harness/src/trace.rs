//! Runs a child and makes its file operations fail, stop short, or kill it (ptrace, own children only).
//! No seccomp filter: installing thousands of them has deadlocked a kernel (bpf_prog_pack).
use libc::*;
use serde::{Deserialize, Serialize};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::Duration;

const PTRACE_O_EXITKILL: c_int = 0x100000;
const PTRACE_O_TRACEALL: c_int = 0x1 | 0x2 | 0x4 | 0x8 | PTRACE_O_EXITKILL;

const PTRACE_GET_SYSCALL_INFO: c_uint = 0x420e;

/// the beginning of struct ptrace_syscall_info
#[repr(C)]
#[derive(Default, Clone, Copy)]
struct SyscallInfo {
    op: u8,
    pad: [u8; 3],
    arch: u32,
    ip: u64,
    sp: u64,
    /// number (entry) or result (exit)
    nr: u64,
    args: [u64; 6],
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub enum At {
    /// when that many bytes have been written in the output files
    Byte(u64),
    /// at that file operation
    Op(u32),
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub enum How {
    Kill,
    /// once the operation is done
    KillAfter,
    /// error number, and for how many operations (0: all the next ones on an output file that need space)
    Err(i32, u32),
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub struct Fault {
    pub at: At,
    pub how: How,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Op {
    pub name: &'static str,
    /// which file (last component; names of temporary files are not reproducible)
    pub path: String,
    pub output: bool,
    /// bytes written
    pub bytes: u64,
    pub result: i64,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum End {
    Exit(i32),
    Signal(i32),
    /// killed by us after the time limit
    TooLong,
}

#[derive(Clone, Debug)]
pub struct Run {
    pub ops: Vec<Op>,
    pub end: End,
    /// how many of the faults happened
    pub hit: usize,
    pub stderr: String,
}

#[derive(Clone, Copy, PartialEq)]
enum Arg {
    Fd(usize),
    P(usize),
}
use Arg::*;

struct Sys {
    nr: i64,
    name: &'static str,
    arg: Arg,
    /// a second object
    arg2: Option<Arg>,
    /// register of the length, for what writes in the file `arg`
    len: Option<usize>,
    /// needs the file to be writable
    modifies: bool,
}

const fn s(
    nr: i64,
    name: &'static str,
    arg: Arg,
    arg2: Option<Arg>,
    len: Option<usize>,
    modifies: bool,
) -> Sys {
    Sys {
        nr,
        name,
        arg,
        arg2,
        len,
        modifies,
    }
}

static SYS: &[Sys] = &[
    s(SYS_write, "write", Fd(0), None, Some(2), true),
    s(SYS_pwrite64, "pwrite", Fd(0), None, Some(2), true),
    s(SYS_writev, "writev", Fd(0), None, None, true),
    s(SYS_pwritev, "pwritev", Fd(0), None, None, true),
    s(
        SYS_copy_file_range,
        "copy_file_range",
        Fd(2),
        Some(Fd(0)),
        Some(4),
        true,
    ),
    s(SYS_sendfile, "sendfile", Fd(0), Some(Fd(1)), Some(3), true),
    s(SYS_splice, "splice", Fd(2), Some(Fd(0)), Some(4), true),
    s(SYS_ftruncate, "ftruncate", Fd(0), None, None, true),
    s(SYS_truncate, "truncate", P(0), None, None, true),
    s(SYS_fallocate, "fallocate", Fd(0), None, None, true),
    s(SYS_open, "open", P(0), None, None, true),
    s(SYS_openat, "openat", P(1), None, None, true),
    s(SYS_creat, "creat", P(0), None, None, true),
    s(SYS_read, "read", Fd(0), None, None, false),
    s(SYS_pread64, "pread", Fd(0), None, None, false),
    s(SYS_readv, "readv", Fd(0), None, None, false),
    s(SYS_lseek, "lseek", Fd(0), None, None, false),
    s(SYS_fsync, "fsync", Fd(0), None, None, true),
    s(SYS_fdatasync, "fdatasync", Fd(0), None, None, true),
    s(SYS_close, "close", Fd(0), None, None, false),
    s(SYS_rename, "rename", P(0), Some(P(1)), None, true),
    s(SYS_renameat, "renameat", P(1), Some(P(3)), None, true),
    s(SYS_renameat2, "renameat2", P(1), Some(P(3)), None, true),
    s(SYS_link, "link", P(0), Some(P(1)), None, true),
    s(SYS_linkat, "linkat", P(1), Some(P(3)), None, true),
    s(SYS_symlink, "symlink", P(1), None, None, true),
    s(SYS_symlinkat, "symlinkat", P(2), None, None, true),
    s(SYS_unlink, "unlink", P(0), None, None, true),
    s(SYS_unlinkat, "unlinkat", P(1), None, None, true),
    s(SYS_chmod, "chmod", P(0), None, None, true),
    s(SYS_fchmod, "fchmod", Fd(0), None, None, true),
    s(SYS_fstat, "fstat", Fd(0), None, None, false),
    s(SYS_statx, "statx", P(1), None, None, false),
];

fn set_arg(r: &mut user_regs_struct, n: usize, v: u64) {
    match n {
        0 => r.rdi = v,
        1 => r.rsi = v,
        2 => r.rdx = v,
        3 => r.r10 = v,
        4 => r.r8 = v,
        _ => r.r9 = v,
    }
}

fn read_str(pid: pid_t, addr: u64) -> Option<String> {
    let mut buf = vec![0u8; 4096];
    // up to the end of the page, then further
    let mut got = 0usize;
    while got < buf.len() {
        let at = addr as usize + got;
        let n = (4096 - at % 4096).min(buf.len() - got);
        let l = iovec {
            iov_base: buf[got..].as_mut_ptr() as _,
            iov_len: n,
        };
        let r = iovec {
            iov_base: at as _,
            iov_len: n,
        };
        let k = unsafe { process_vm_readv(pid, &l, 1, &r, 1, 0) };
        if k <= 0 {
            break;
        }
        got += k as usize;
        if buf[..got].contains(&0) {
            break;
        }
    }
    let e = buf[..got].iter().position(|b| *b == 0)?;
    String::from_utf8(buf[..e].to_vec()).ok()
}

fn fd_path(pid: pid_t, fd: u64) -> Option<PathBuf> {
    std::fs::read_link(format!("/proc/{pid}/fd/{}", fd as i32)).ok()
}

/// Tracer and child on one processor: stops are much cheaper
pub fn pin(slot: usize) {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| unsafe {
        let mut set: cpu_set_t = std::mem::zeroed();
        let n = syscall(
            SYS_sched_getaffinity,
            0,
            std::mem::size_of::<cpu_set_t>(),
            &mut set as *mut _,
        );
        if n <= 0 {
            return;
        }
        let all: Vec<usize> = (0..CPU_SETSIZE as usize)
            .filter(|k| CPU_ISSET(*k, &set))
            .collect();
        if all.is_empty() {
            return;
        }
        let mut one: cpu_set_t = std::mem::zeroed();
        CPU_SET(all[slot % all.len()], &mut one);
        sched_setaffinity(0, std::mem::size_of::<cpu_set_t>(), &one);
    });
}

/// A traced process which forks one child per run.
struct Zygote {
    pid: pid_t,
    stdin: std::process::ChildStdin,
}

thread_local! {
    // the tracer is a thread
    static ZYGOTE: std::cell::RefCell<Option<Zygote>> = const { std::cell::RefCell::new(None) };
}

fn zygote() -> Result<Zygote, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut cmd = Command::new(exe);
    cmd.arg("zygote9").env_remove("JBKVERIF_ALLOC");
    cmd.stdin(Stdio::piped())
        .stdout(Stdio::null())
        .stderr(Stdio::null());
    unsafe {
        cmd.pre_exec(move || {
            if ptrace(PTRACE_TRACEME, 0usize, 0usize, 0usize) != 0 {
                return Err(std::io::Error::last_os_error());
            }
            Ok(())
        });
    }
    let mut child = cmd.spawn().map_err(|e| format!("spawn: {e}"))?;
    let pid = child.id() as pid_t;
    let stdin = child.stdin.take().unwrap();
    // reaped by follow
    std::mem::forget(child);
    unsafe {
        let mut st: c_int = 0;
        if waitpid(pid, &mut st, __WALL) != pid || !WIFSTOPPED(st) {
            return Err(format!("the zygote did not start: {st:x}"));
        }
        if ptrace(PTRACE_SETOPTIONS, pid, 0usize, PTRACE_O_TRACEALL as usize) != 0 {
            kill(pid, SIGKILL);
            return Err(format!("ptrace options: {}", std::io::Error::last_os_error()));
        }
        ptrace(PTRACE_CONT, pid, 0usize, 0usize);
    }
    Ok(Zygote { pid, stdin })
}

/// The zygote: one child per line of its input.
pub fn zygote_main(f: impl Fn(&Path)) {
    use std::io::BufRead;
    let stdin = std::io::stdin();
    let mut line = String::new();
    loop {
        line.clear();
        match stdin.lock().read_line(&mut line) {
            Ok(n) if n > 0 => {}
            _ => return,
        }
        unsafe {
            let pid = fork();
            if pid == 0 {
                let r =
                    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(Path::new(line.trim_end()))));
                std::process::exit(if r.is_ok() { 0 } else { 101 });
            }
            let mut st = 0;
            waitpid(pid, &mut st, 0);
        }
    }
}

/// In the child: where it runs, for how long, and where its messages go
pub fn enter(dir: &Path, stderr: &Path, limit: Duration) {
    use std::os::fd::AsRawFd;
    let f = std::fs::File::create(stderr).unwrap();
    unsafe {
        // PR_FUTEX_HASH, PR_FUTEX_HASH_SET_SLOTS: linux (6.17) grows the futex table of a process with its threads, and
        // the memory of a process which dies meanwhile is given back later, by a kernel thread: with hundreds of
        // such processes per second, too late. A table which has its final size is not replaced.
        prctl(78, 1usize, 64usize, 0usize, 0usize);
        dup2(f.as_raw_fd(), 2);
        // dies by itself when it is too long
        let t = itimerval {
            it_interval: timeval {
                tv_sec: 0,
                tv_usec: 0,
            },
            it_value: timeval {
                tv_sec: limit.as_secs() as _,
                tv_usec: limit.subsec_micros() as _,
            },
        };
        setitimer(ITIMER_REAL, &t, std::ptr::null_mut());
    }
    std::env::set_current_dir(dir).unwrap();
}

/// Runs the job; operations on files under `out` (outputs) and `inp` (inputs) are observed.
pub fn run(job: &Path, stderr: &Path, out: &Path, inp: &Path, faults: &[Fault]) -> Result<Run, String> {
    use std::io::Write;
    ZYGOTE.with_borrow_mut(|z| {
        if z.is_none() {
            *z = Some(zygote()?);
        }
        let zy = z.as_mut().unwrap();
        zy.stdin
            .write_all(format!("{}\n", job.display()).as_bytes())
            .and_then(|_| zy.stdin.flush())
            .map_err(|e| format!("zygote: {e}"))?;
        let mut r = unsafe { follow(zy.pid, out, inp, faults)? };
        if r.end != End::Exit(0) {
            r.stderr = std::fs::read_to_string(stderr).unwrap_or_default();
        }
        Ok(r)
    })
}

unsafe fn follow(zygote: pid_t, out: &Path, inp: &Path, faults: &[Fault]) -> Result<Run, String> {
    let mut run = Run {
        ops: vec![],
        end: End::TooLong,
        hit: 0,
        stderr: String::new(),
    };
    let mut written = 0u64;
    // how many operations still have to fail
    let mut failing: Option<(i32, u32)> = None;
    // operations which are being executed: tid -> (index of the op, kill when it is done)
    let mut pending: std::collections::HashMap<pid_t, (usize, bool, Option<(usize, u64)>)> =
        Default::default();
    // the child forked by the zygote
    let mut pid: pid_t = -1;
    let cont = |tid: pid_t, how: c_uint, sig: c_int| {
        ptrace(how, tid, 0usize, sig as usize);
    };
    loop {
        let mut st: c_int = 0;
        // only the children of this thread
        let tid = waitpid(-1, &mut st, __WALL | __WNOTHREAD);
        if tid < 0 {
            return Err(format!("waitpid: {}", std::io::Error::last_os_error()));
        }
        if pid < 0 && tid != zygote {
            pid = tid;
        }
        if WIFEXITED(st) || WIFSIGNALED(st) {
            if tid == pid {
                run.end = if WIFEXITED(st) {
                    End::Exit(WEXITSTATUS(st))
                } else if WTERMSIG(st) == SIGALRM {
                    End::TooLong
                } else {
                    End::Signal(WTERMSIG(st))
                };
                return Ok(run);
            }
            if tid == zygote {
                return Err("the zygote ended".into());
            }
            continue;
        }
        if !WIFSTOPPED(st) {
            continue;
        }
        let sig = WSTOPSIG(st);
        let event = st >> 16;
        if sig == SIGTRAP | 0x80 {
            let mut info = SyscallInfo::default();
            ptrace(
                PTRACE_GET_SYSCALL_INFO,
                tid,
                std::mem::size_of::<SyscallInfo>(),
                &mut info as *mut _,
            );
            if info.op == 1 {
                let Some(sys) = SYS.iter().find(|s| s.nr == info.nr as i64) else {
                    cont(tid, PTRACE_SYSCALL, 0);
                    continue;
                };
                let a = info.args;
                let find = |x: Arg| match x {
                    Fd(k) => fd_path(tid, a[k]),
                    P(k) => read_str(tid, a[k]).map(|p| {
                        let p = PathBuf::from(p);
                        if p.is_absolute() {
                            p
                        } else {
                            std::fs::read_link(format!("/proc/{tid}/cwd"))
                                .unwrap_or_default()
                                .join(p)
                        }
                    }),
                };
                let p1 = find(sys.arg);
                let p2 = sys.arg2.and_then(find);
                let is_out = |p: &Option<PathBuf>| p.as_ref().map(|p| p.starts_with(out)).unwrap_or(false);
                let is_in = |p: &Option<PathBuf>| p.as_ref().map(|p| p.starts_with(inp)).unwrap_or(false);
                let output = is_out(&p1) || is_out(&p2);
                if !output && !is_in(&p1) && !is_in(&p2) {
                    cont(tid, PTRACE_SYSCALL, 0);
                    continue;
                }
                let shown = if is_out(&p2) && sys.name.starts_with("rename") {
                    &p2
                } else {
                    &p1
                };
                let mut r: user_regs_struct = std::mem::zeroed();
                ptrace(PTRACE_GETREGS, tid, 0usize, &mut r as *mut _);
                let k = run.ops.len();
                let writes = is_out(&p1) && (sys.len.is_some() || sys.name.contains("writev"));
                run.ops.push(Op {
                    name: sys.name,
                    path: shown
                        .as_ref()
                        .and_then(|p| p.file_name())
                        .map(|s| s.to_string_lossy().into_owned())
                        .unwrap_or_default(),
                    output,
                    bytes: if writes { 1 } else { 0 },
                    result: 0,
                });
                let mut fail = |r: &mut user_regs_struct, run: &mut Run, e: i32| {
                    r.orig_rax = u64::MAX;
                    r.rax = (-(e as i64)) as u64;
                    ptrace(PTRACE_SETREGS, tid, 0usize, r as *mut _);
                    let op = run.ops.last_mut().unwrap();
                    op.result = -(e as i64);
                    op.bytes = 0;
                    run.hit += 1;
                    ptrace(PTRACE_SYSCALL, tid, 0usize, 0usize);
                };
                if let Some(Fault {
                    at: At::Op(n),
                    how: How::Kill,
                }) = faults.get(run.hit)
                {
                    if k >= *n as usize {
                        run.hit += 1;
                        kill(pid, SIGKILL);
                        continue;
                    }
                }
                if let Some((e, n)) = failing {
                    if n > 0 {
                        failing = if n == 1 { None } else { Some((e, n - 1)) };
                        fail(&mut r, &mut run, e);
                        run.hit -= 1;
                        continue;
                    }
                    // the disk stays full (or broken)
                    if output
                        && (writes
                            || matches!(
                                sys.name,
                                "open" | "openat" | "creat" | "ftruncate" | "fallocate" | "copy_file_range"
                            ))
                    {
                        fail(&mut r, &mut run, e);
                        run.hit -= 1;
                        continue;
                    }
                }
                let mut die_after = false;
                let mut saved = None;
                match faults.get(run.hit) {
                    Some(f) => match f.at {
                        At::Op(n) if k >= n as usize => match f.how {
                            How::Kill => unreachable!(),
                            How::KillAfter => die_after = true,
                            How::Err(e, n) => {
                                failing = match n {
                                    0 => Some((e, 0)),
                                    1 => None,
                                    n => Some((e, n - 1)),
                                };
                                fail(&mut r, &mut run, e);
                                continue;
                            }
                        },
                        At::Byte(b) if writes && sys.len.is_some() => {
                            let reg = sys.len.unwrap();
                            let len = a[reg];
                            if b < written + len {
                                let keep = b.saturating_sub(written);
                                if keep == 0 {
                                    match f.how {
                                        How::Err(e, n) => {
                                            failing = match n {
                                                0 => Some((e, 0)),
                                                1 => None,
                                                n => Some((e, n - 1)),
                                            };
                                            fail(&mut r, &mut run, e);
                                        }
                                        _ => {
                                            run.hit += 1;
                                            kill(pid, SIGKILL);
                                        }
                                    }
                                    continue;
                                }
                                saved = Some((reg, len));
                                set_arg(&mut r, reg, keep);
                                ptrace(PTRACE_SETREGS, tid, 0usize, &mut r as *mut _);
                                // the next write begins at that byte exactly: it fails
                                die_after = !matches!(f.how, How::Err(..));
                            }
                        }
                        _ => {}
                    },
                    _ => {}
                }
                if writes || die_after || sys.modifies {
                    pending.insert(tid, (k, die_after, saved));
                }
                cont(tid, PTRACE_SYSCALL, 0);
                continue;
            }
            // end of a system call
            if let Some((k, die, saved)) = pending.remove(&tid) {
                let mut r: user_regs_struct = std::mem::zeroed();
                ptrace(PTRACE_GETREGS, tid, 0usize, &mut r as *mut _);
                let op = &mut run.ops[k];
                op.result = r.rax as i64;
                if op.bytes > 0 {
                    op.bytes = if op.result > 0 { op.result as u64 } else { 0 };
                    written += op.bytes;
                }
                if let Some((n, v)) = saved {
                    set_arg(&mut r, n, v);
                    ptrace(PTRACE_SETREGS, tid, 0usize, &mut r as *mut _);
                }
                if die {
                    run.hit += 1;
                    kill(pid, SIGKILL);
                    continue;
                }
            }
            cont(tid, PTRACE_SYSCALL, 0);
            continue;
        }
        // new threads, group stops, signals
        let deliver = if event != 0 || sig == SIGSTOP || sig == SIGTRAP {
            0
        } else {
            sig
        };
        cont(
            tid,
            if tid == zygote {
                PTRACE_CONT
            } else {
                PTRACE_SYSCALL
            },
            deliver,
        );
    }
}
