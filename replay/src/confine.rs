//! Runs which could write or delete files at the wrong place are made as an unprivileged user who
//! owns nothing but a scratch folder.
use std::os::unix::fs::{MetadataExt, PermissionsExt, chown};
use std::os::unix::process::CommandExt;
use std::path::Path;
use std::process::Command;

const NOBODY: u32 = 65534;

fn parent() -> Option<String> {
    let s = std::fs::read_to_string("/proc/self/stat").ok()?;
    s.rsplit(')').next()?.split_whitespace().nth(1).map(|x| x.to_string())
}
fn child(scratch: &Path) -> std::io::Result<i32> {
    chown(scratch, Some(NOBODY), Some(NOBODY))?;
    std::fs::set_permissions(scratch, PermissionsExt::from_mode(0o700))?;
    let exe = scratch.join("run");
    std::fs::copy(std::env::current_exe()?, &exe)?;
    std::fs::set_permissions(&exe, PermissionsExt::from_mode(0o755))?;
    let tmp = scratch.join("tmp");
    std::fs::create_dir(&tmp)?;
    chown(&tmp, Some(NOBODY), Some(NOBODY))?;
    let out = scratch.join("out.json");
    let mut args: Vec<String> = std::env::args().skip(1).collect();
    let mut real_out = None;
    if let Some(i) = args.iter().position(|a| a == "--out") {
        if let Some(o) = args.get_mut(i + 1) {
            real_out = Some(std::mem::replace(o, out.to_string_lossy().to_string()));
        }
    }
    let status = Command::new(&exe).args(args).uid(NOBODY).gid(NOBODY).env("TMPDIR", &tmp).env("HOME", &tmp).env("REPLAY_CONFINED", "1").current_dir(&tmp).status()?;
    if let Some(o) = real_out {
        if let Ok(c) = std::fs::read(&out) {
            std::fs::write(o, c)?;
        }
    }
    Ok(status.code().unwrap_or(134))
}

/// Continue as an unprivileged user. The result is false when this is not possible.
pub fn confine() -> bool {
    if std::env::var("REPLAY_CONFINED").is_ok() {
        // end with the process which has started this one
        let p = parent();
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            if parent() != p {
                std::process::exit(3);
            }
        });
    }
    match std::fs::metadata("/proc/self") {
        Ok(m) if m.uid() != 0 => return true,
        _ => {}
    }
    let Ok(scratch) = tempfile::Builder::new().prefix("confined-").tempdir() else { return false };
    match child(scratch.path()) {
        Ok(code) => {
            drop(scratch);
            std::process::exit(code)
        }
        Err(e) => {
            eprintln!("not confined: {e}");
            false
        }
    }
}
