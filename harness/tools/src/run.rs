//! the tools, run as programs
use std::io::Read;
use std::process::{Command, ExitStatus, Stdio};
use std::sync::mpsc;
use std::time::Duration;
use vhrun::{Fail, OrFail};

pub fn tool(name: &str) -> Command {
    use std::os::unix::process::CommandExt;
    let exe = std::env::current_exe().expect("exe");
    let mut c = Command::new(exe.with_file_name(name));
    c.env_clear().env("PATH", "/usr/bin:/bin").stdin(Stdio::null());
    unsafe {
        // no orphans
        c.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    c
}

pub struct Done {
    pub status: ExitStatus,
    pub out: String,
    pub err: String,
}

pub const LIMIT: Duration = Duration::from_secs(40);

/// to its end
pub fn run(mut c: Command) -> Result<Done, Fail> {
    let mut child = c.stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().or_fail("the tool starts")?;
    let (tx, rx) = mpsc::channel();
    let mut out = child.stdout.take().unwrap();
    let mut err = child.stderr.take().unwrap();
    std::thread::spawn(move || {
        let mut e = vec![];
        let h = std::thread::spawn(move || {
            let _ = err.read_to_end(&mut e);
            e
        });
        let mut o = vec![];
        let _ = out.read_to_end(&mut o);
        let _ = tx.send((o, h.join().unwrap()));
    });
    let got = rx.recv_timeout(LIMIT);
    if got.is_err() {
        let _ = child.kill();
    }
    let status = child.wait().or_fail("wait")?;
    let (o, e) = got.map_err(|_| Fail::new("the tool does not end"))?;
    let text = |b: Vec<u8>| String::from_utf8_lossy(&b).into_owned();
    Ok(Done { status, out: text(o), err: text(e) })
}
