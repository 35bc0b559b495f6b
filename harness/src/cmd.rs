//! Running the two programs: unprivileged, inside a scratch directory, with resource limits and
//! optionally under the fault shim.

use std::fs::File;
use std::io::Read;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::OnceLock;

const NOBODY: u32 = 65534;

pub fn program(name: &str) -> PathBuf {
    let dir = std::env::var_os("PBT_BIN_DIR")
        .map_or_else(|| crate::verif_dir().join("target/repo/debug"), PathBuf::from);
    dir.join(name)
}

fn shim() -> PathBuf {
    std::env::var_os("PBT_SHIM").map_or_else(|| crate::verif_dir().join("target/shim.so"), PathBuf::from)
}

/// Stops the process with an error (not a violation): the checks' own set-up is broken.
fn broken(msg: String) -> ! {
    eprintln!("set-up error: {msg}");
    crate::scratch::cleanup();
    std::process::exit(2);
}

/// Whether children can run as an unprivileged user; decided once.
pub fn unprivileged() -> bool {
    static U: OnceLock<bool> = OnceLock::new();
    *U.get_or_init(|| {
        unsafe {
            libc::umask(0); // scratch files must be accessible to the children
        }
        for p in [program("pw_diff"), program("pw_patch"), shim()] {
            if !p.exists() {
                broken(format!("{p:?} is missing"));
            }
        }
        if unsafe { libc::geteuid() } != 0 {
            return false;
        }
        Command::new(program("pw_diff"))
            .arg("--help")
            .env_clear()
            .uid(NOBODY)
            .gid(NOBODY)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .status()
            .map_or(false, |s| s.success())
    })
}

#[derive(Debug, Clone, PartialEq)]
pub enum Mode {
    Errno(i32),
    Sticky(i32),
    Partial(i32),
    Eintr,
    Short,
    Zero,
    KillBefore,
    KillMid,
    KillAfter,
}

impl Mode {
    fn text(&self) -> String {
        match self {
            Mode::Errno(n) => format!("errno={n}"),
            Mode::Sticky(n) => format!("sticky={n}"),
            Mode::Partial(n) => format!("partial={n}"),
            Mode::Eintr => "eintr".into(),
            Mode::Short => "short".into(),
            Mode::Zero => "zero".into(),
            Mode::KillBefore => "kill_before".into(),
            Mode::KillMid => "kill_mid".into(),
            Mode::KillAfter => "kill_after".into(),
        }
    }
}

#[derive(Debug, Clone)]
pub struct FileOp {
    pub n: u32,
    pub op: String,
    pub path: String,
    pub result: i64,
}

pub enum Out {
    /// collected
    Collect,
    /// collected from a regular file
    ToFile,
    /// a device that is always full
    Full,
    /// a pipe nobody reads
    Broken,
}

#[derive(Debug)]
pub struct Run {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub ops: Vec<FileOp>,
}

impl Run {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    pub fn status(&self) -> String {
        match (self.code, self.signal) {
            (Some(c), _) => format!("exit {c}"),
            (_, Some(s)) => format!("signal {s}"),
            _ => "?".into(),
        }
    }
    pub fn show(&self) -> String {
        format!("{} {:?}", self.status(), String::from_utf8_lossy(&self.stderr).chars().take(300).collect::<String>())
    }
}

pub struct Spec<'a> {
    pub program: &'a str,
    pub args: Vec<std::ffi::OsString>,
    pub cwd: &'a Path,
    /// log operations (and disturb one)
    pub shim: Option<Option<(u32, Mode)>>,
    /// a second operation to disturb
    pub then: Option<(u32, Mode)>,
    /// log operations also when one is disturbed
    pub log: bool,
    pub fsize: Option<u64>,
    pub out: Out,
    pub env: Vec<(&'static str, String)>,
    /// given through a pipe
    pub input: Option<Vec<u8>>,
}

/// A pipe that holds `data`, readable by the children. None if it cannot hold as much.
fn filled_pipe(data: &[u8]) -> Option<File> {
    use std::io::Write;
    use std::os::fd::{FromRawFd, IntoRawFd};
    let mut fds = [0i32; 2];
    unsafe {
        if libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) != 0 {
            broken("pipe".into());
        }
        let (r, w) = (File::from_raw_fd(fds[0]), File::from_raw_fd(fds[1]));
        if data.len() > 4096 && libc::fcntl(fds[1], libc::F_SETPIPE_SZ, data.len() as i32) < data.len() as i32 {
            return None;
        }
        if libc::geteuid() == 0 {
            libc::fchown(fds[0], NOBODY, NOBODY);
        }
        let mut w = w;
        w.write_all(data).ok()?;
        drop(w);
        Some(File::from_raw_fd(r.into_raw_fd()))
    }
}

pub fn args<I: AsRef<std::ffi::OsStr>>(v: impl IntoIterator<Item = I>) -> Vec<std::ffi::OsString> {
    v.into_iter().map(|s| s.as_ref().to_os_string()).collect()
}

impl<'a> Spec<'a> {
    pub fn new(program: &'a str, args: Vec<std::ffi::OsString>, cwd: &'a Path) -> Self {
        Spec { program, args, cwd, shim: None, then: None, log: false, fsize: None, out: Out::Collect, env: vec![], input: None }
    }

    pub fn run(self) -> Run {
        let unpriv = unprivileged();
        // also run from threads that have no scratch directory and need none
        let aux = |name| match (&self.shim, &self.out) {
            (None, Out::Collect | Out::Full | Out::Broken) => PathBuf::new(),
            _ => crate::scratch::aux().join(name),
        };
        let (log, out_file) = (aux("log"), aux("out"));
        let mut cmd = Command::new(program(self.program));
        cmd.args(&self.args).current_dir(self.cwd).env_clear().stdin(Stdio::null());
        if let Some(p) = self.input.as_ref().and_then(|d| filled_pipe(d)) {
            cmd.stdin(Stdio::from(p));
        }
        cmd.env("RUST_BACKTRACE", "0");
        cmd.envs(self.env.iter().map(|(k, v)| (k, v)));
        if let Some(plan) = &self.shim {
            let _ = std::fs::remove_file(&log);
            cmd.env("LD_PRELOAD", shim());
            if plan.is_none() || self.log {
                cmd.env("PBT_SHIM_LOG", &log);
            }
            if let Some((n, mode)) = &self.then {
                cmd.env("PBT_SHIM_AT2", n.to_string());
                cmd.env("PBT_SHIM_MODE2", mode.text());
            }
            if let Some((n, mode)) = plan {
                cmd.env("PBT_SHIM_AT", n.to_string());
                cmd.env("PBT_SHIM_MODE", mode.text());
            }
        }
        match self.out {
            Out::Collect => {
                cmd.stdout(Stdio::piped());
            }
            Out::ToFile => {
                let _ = std::fs::remove_file(&out_file);
                match File::create(&out_file) {
                    Ok(f) => cmd.stdout(Stdio::from(f)),
                    Err(e) => broken(format!("{out_file:?}: {e}")),
                };
            }
            Out::Full => {
                match File::options().write(true).open("/dev/full") {
                    Ok(f) => cmd.stdout(Stdio::from(f)),
                    Err(e) => broken(format!("/dev/full: {e}")),
                };
            }
            Out::Broken => {
                let mut fds = [0i32; 2];
                unsafe {
                    if libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) != 0 {
                        broken("pipe".into());
                    }
                    libc::close(fds[0]);
                    use std::os::fd::FromRawFd;
                    cmd.stdout(Stdio::from(File::from_raw_fd(fds[1])));
                }
            }
        }
        cmd.stderr(Stdio::piped());
        if unpriv {
            cmd.uid(NOBODY).gid(NOBODY);
        }
        let fsize = self.fsize.unwrap_or(64 << 20);
        unsafe {
            cmd.pre_exec(move || {
                let set = |r, v| {
                    let l = libc::rlimit { rlim_cur: v, rlim_max: v };
                    libc::setrlimit(r, &l);
                };
                set(libc::RLIMIT_CPU, 60);
                set(libc::RLIMIT_AS, 4 << 30);
                set(libc::RLIMIT_CORE, 0);
                set(libc::RLIMIT_FSIZE, fsize);
                libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                Ok(())
            });
        }
        let out = match cmd.output() {
            Ok(o) => o,
            Err(e) => broken(format!("cannot run {:?}: {e}", self.program)),
        };
        let mut stdout = out.stdout;
        if let Out::ToFile = self.out {
            stdout.clear();
            if let Ok(mut f) = File::open(&out_file) {
                let _ = f.read_to_end(&mut stdout);
            }
        }
        let mut ops = vec![];
        if self.shim == Some(None) || self.log {
            let text = std::fs::read(&log).unwrap_or_default();
            for l in String::from_utf8_lossy(&text).lines() {
                let f: Vec<&str> = l.split('\t').collect();
                if let [n, op, path, r] = f[..] {
                    ops.push(FileOp {
                        n: n.parse().unwrap_or(0),
                        op: op.to_string(),
                        path: path.to_string(),
                        result: r.parse().unwrap_or(0),
                    });
                }
            }
        }
        Run {
            code: out.status.code(),
            signal: out.status.signal(),
            stdout,
            stderr: out.stderr,
            ops,
        }
    }
}
