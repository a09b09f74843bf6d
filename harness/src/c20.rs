use crate::ctx::*;
use crate::mpq::*;
use mopaq::{Archive, ArchiveBuilder, FormatVersion, ListfileOption};
use std::os::unix::process::ExitStatusExt;
use std::path::Path;
use std::process::Command;

/// a build described by a number, so that the interrupted child and the judging parent see the same one
struct Job { v: FormatVersion, bs: u16, crc: bool, ct: bool, fs: Vec<(String, Vec<u8>, u8, bool)>, missing: Option<usize>, list: u64 }
fn job(seed: u64) -> Job {
    let mut r = Rng::new(seed);
    let v = [FormatVersion::V1, FormatVersion::V2, FormatVersion::V3, FormatVersion::V4][(seed % 4) as usize];
    let k = r.range(1, 5) as usize;
    let fs = (0..k).map(|i| { let n = match r.below(4) { 0 => r.below(40), 1 => 512 + r.below(3), _ => r.below(4000) } as usize; (format!("dir\\f{}.bin", i), data(&mut r, n), r.pick(&[0u8, 2, 0x10]), r.bool()) }).collect();
    Job { v, bs: r.below(3) as u16, crc: r.bool(), ct: r.bool(), fs, missing: if r.below(6) == 0 { Some(r.below(k as u64) as usize) } else { None }, list: r.below(7) }
}
fn build(j: &Job, dir: &Path, to: &Path) -> mopaq::Result<()> {
    let mut b = ArchiveBuilder::new().version(j.v).block_size(j.bs).generate_crcs(j.crc).compress_tables(j.ct)
        .listfile_option(match j.list { 0 => ListfileOption::External(dir.join("no-such-list")), 1 => ListfileOption::None, _ => ListfileOption::Generate });
    for (i, (n, d, m, e)) in j.fs.iter().enumerate() {
        b = if j.missing == Some(i) { b.add_file_with_options(dir.join("no-such-file"), n, *m, *e, 0) } else { b.add_file_data_with_options(d.clone(), n, *m, *e, 0) };
    }
    b.build(to)
}
/// the system calls that change what a name means or how long a file is; the third number selects renameat2 by its flags (0: any, 1: none, 2: some)
const CALLS: [(&str, i64, u32); 14] = [("rename", libc::SYS_rename, 0), ("renameat", libc::SYS_renameat, 0), ("renameat2", libc::SYS_renameat2, 0), ("renameat2 without flags", libc::SYS_renameat2, 1), ("renameat2 with flags", libc::SYS_renameat2, 2), ("link", libc::SYS_link, 0), ("linkat", libc::SYS_linkat, 0),
    ("unlink", libc::SYS_unlink, 0), ("unlinkat", libc::SYS_unlinkat, 0), ("truncate", libc::SYS_truncate, 0), ("ftruncate", libc::SYS_ftruncate, 0), ("fsync", libc::SYS_fsync, 0), ("copy_file_range", libc::SYS_copy_file_range, 0), ("sendfile", libc::SYS_sendfile, 0)];
/// from here on this process is killed by the call, or the call fails with EIO
unsafe fn forbid(call: (&str, i64, u32), kill: bool) -> bool {
    let f = |code: u32, jt: u8, jf: u8, k: u32| libc::sock_filter { code: code as u16, jt, jf, k };
    let (ld, jeq, ret) = (libc::BPF_LD | libc::BPF_W | libc::BPF_ABS, libc::BPF_JMP | libc::BPF_JEQ | libc::BPF_K, libc::BPF_RET | libc::BPF_K);
    let act = if kill { libc::SECCOMP_RET_KILL_PROCESS } else { libc::SECCOMP_RET_ERRNO | libc::EIO as u32 };
    let mut p = vec![f(ld, 0, 0, 0)];
    match call.2 {
        0 => p.extend([f(jeq, 0, 1, call.1 as u32), f(ret, 0, 0, act)]),
        m => p.extend([f(jeq, 0, 3, call.1 as u32), f(ld, 0, 0, 16 + 4 * 8), if m == 1 { f(jeq, 0, 1, 0) } else { f(jeq, 1, 0, 0) }, f(ret, 0, 0, act)]),
    }
    p.push(f(ret, 0, 0, libc::SECCOMP_RET_ALLOW));
    let prog = libc::sock_fprog { len: p.len() as u16, filter: p.as_mut_ptr() };
    libc::prctl(libc::PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) == 0 && libc::prctl(libc::PR_SET_SECCOMP, libc::SECCOMP_MODE_FILTER, &prog as *const _) == 0
}
/// SFileCreateArchive over a path
#[cfg(feature = "ffi")]
fn create(to: &Path, disposition: u32) -> bool {
    use std::os::unix::ffi::OsStrExt;
    let n = std::ffi::CString::new(to.as_os_str().as_bytes()).unwrap(); let mut h = std::ptr::null_mut();
    unsafe { crate::c18::ffi::SFileCreateArchive(n.as_ptr(), disposition, 16, &mut h) }
}
#[cfg(not(feature = "ffi"))]
fn create(_: &Path, _: u32) -> bool { std::process::exit(77) }
unsafe fn limits(limit: u64, kill: u64, call: Option<usize>) -> bool {
    libc::setrlimit(libc::RLIMIT_CORE, &libc::rlimit { rlim_cur: 0, rlim_max: 0 });
    if kill == 0 { libc::signal(libc::SIGXFSZ, libc::SIG_IGN); }
    libc::setrlimit(libc::RLIMIT_FSIZE, &libc::rlimit { rlim_cur: limit, rlim_max: limit });
    if kill > 1 { for k in 0..3 { if !forbid(CALLS[k], false) { return false; } } }
    if let Some(k) = call { if !forbid(CALLS[k], kill % 2 == 1) { return false; } }
    true
}
/// vp-harness --c20-child DIR TARGET SEED LIMIT KILL [CALL [DISPOSITION]]: build with a file size limit; crossing it, or making the named system call, kills the process or fails
pub fn child(a: &[String]) -> ! {
    let dir = Path::new(&a[0]);
    let (seed, limit, kill): (u64, u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap());
    if !unsafe { limits(limit, kill, a.get(5).and_then(|k| k.parse().ok())) } { std::process::exit(77); }
    if let Some(d) = a.get(6) { std::process::exit(if create(Path::new(&a[1]), d.parse().unwrap()) { 0 } else { 3 }) }
    std::process::exit(match build(&job(seed), dir, Path::new(&a[1])) { Ok(()) => 0, Err(_) => 3 })
}
fn complete(j: &Job, p: &Path) -> Chk {
    let mut a = Archive::open(p).map_err(|e| format!("completed build does not open: {:?}", e))?;
    for (n, d, _, _) in &j.fs { eq_bytes(n, &a.read_file(n).map_err(|e| format!("{}: {:?}", n, e))?, d)?; }
    Ok(())
}
pub fn run(c: &mut Ctx) {
    c.bound("builds of 1..=5 files, versions 1 to 4, over an existing file (an archive or other bytes) or none: stopped (killed, or the write failing) when the archive reaches any size from 0 up to its full size, a source file or the list missing, each of the system calls that rename, link, unlink, truncate, flush or copy failing or killing the process, the target not replaceable; the same through SFileCreateArchive with every disposition and through storm-cli archive create");
    let exe = match std::env::current_exe() { Ok(e) => e, Err(_) => return };
    let base = std::env::current_dir().unwrap().join("c20"); let _ = std::fs::create_dir_all(&base);
    let mut r = c.rng("c20");
    let n = c.n(700, 8000);
    for it in 0..n { if c.out_of_time() { break; }
        let seed = r.next() & !3 | (it % 4); let j = job(seed);
        // the size of the complete archive
        let dir = base.join("d"); let _ = std::fs::remove_dir_all(&dir); std::fs::create_dir_all(&dir).unwrap();
        let t = dir.join("t.mpq");
        let full = match build(&j, &dir, &t) { Ok(()) => std::fs::metadata(&t).map(|m| m.len()).unwrap_or(0), Err(_) => 4000 };
        let limit = match r.below(8) { 0 => 0, 1 => full, 2 => full + 1 + r.below(1000), 3 => full - 1, _ => r.below(full) };
        let kill = r.below(2);
        let old: Option<Vec<u8>> = match r.below(4) { 0 => None, 1 => Some(r.bytes(500)), 2 => { let mut k = job(seed ^ 64); k.missing = None; k.list = 2; let p = base.join("old.mpq"); let _ = build(&k, &base, &p); std::fs::read(&p).ok() } _ => Some({ let m = r.below(9000) as usize; r.bytes(m) }) };
        c.case("interrupted", &|| format!("build {} ({:?}, {} files, missing source {:?}, list {}), {} bytes when complete, {} at {} bytes, over {:?} old bytes", seed, j.v, j.fs.len(), j.missing, j.list, full, if kill == 1 { "killed" } else { "writes fail" }, limit, old.as_ref().map(|o| o.len())), || {
            let _ = std::fs::remove_file(&t);
            if let Some(o) = &old { std::fs::write(&t, o).map_err(|e| e.to_string())?; }
            let st = Command::new(&exe).arg("--c20-child").arg(&dir).arg(&t).arg(seed.to_string()).arg(limit.to_string()).arg(kill.to_string()).stderr(std::process::Stdio::null()).status().map_err(|e| format!("cannot run the child: {}", e))?;
            if st.code() == Some(0) { return complete(&j, &t); }
            if !(st.code() == Some(3) || st.signal() == Some(libc::SIGXFSZ)) { return Err(format!("build ended with {:?}", st)); }
            let now = std::fs::read(&t).ok();
            match (&old, &now) {
                (None, None) => Ok(()),
                (None, Some(b)) => Err(format!("a build that did not complete left {} bytes at the target", b.len())),
                (Some(_), None) => Err("the previous file is gone".into()),
                (Some(o), Some(b)) => eq_bytes("the previous file", b, o),
            }
        });
        if it % 8 < 4 && old.is_some() {
            let kill = (it / 8) % 4;
            for (k, call) in CALLS.iter().enumerate() {
                c.case("system-call", &|| format!("build {} ({:?}) over {:?} old bytes, {} by the system call {}", seed, j.v, old.as_ref().map(|o| o.len()), ["failed", "killed", "renames fail, failed", "renames fail, killed"][kill as usize], call.0), || {
                    let o = old.as_ref().unwrap();
                    std::fs::write(&t, o).map_err(|e| e.to_string())?;
                    let st = Command::new(&exe).arg("--c20-child").arg(&dir).arg(&t).arg(seed.to_string()).arg((1u64 << 40).to_string()).arg(kill.to_string()).arg(k.to_string()).stderr(std::process::Stdio::null()).status().map_err(|e| format!("cannot run the child: {}", e))?;
                    if st.code() == Some(77) { return Ok(()); }
                    if st.code() == Some(0) { return complete(&j, &t); }
                    if !(st.code() == Some(3) || st.signal() == Some(libc::SIGSYS)) { return Err(format!("build ended with {:?}", st)); }
                    match std::fs::read(&t) {
                        Err(_) => Err("the previous file is gone".into()),
                        Ok(b) => if &b == o || (st.signal().is_some() && complete(&j, &t).is_ok()) { Ok(()) } else { Err(format!("the previous {} bytes have become {} others", o.len(), b.len())) },
                    }
                });
            }
        }
        // the same through the C API and the command line
        let call: Option<usize> = if r.bool() { Some(r.below(CALLS.len() as u64) as usize) } else { None };
        let kill = if call.is_some() { r.below(4) } else { r.below(2) };
        let lim = if call.is_some() { 1u64 << 40 } else { match r.below(5) { 0 => 1 << 40, 1 => 0, _ => r.below(700) } };
        let how = || format!("{} {}", ["failing", "killed", "renames and", "renames failing, killed by"][kill as usize], call.map_or(format!("writes past {} bytes", lim), |k| format!("the system call {}", CALLS[k].0)));
        let disp = r.below(7) as u32;
        c.case("c-api", &|| format!("SFileCreateArchive with disposition {} over {:?} old bytes, {}", disp, old.as_ref().map(|o| o.len()), how()), || {
            let _ = std::fs::remove_file(&t);
            if let Some(o) = &old { std::fs::write(&t, o).map_err(|e| e.to_string())?; }
            let st = Command::new(&exe).arg("--c20-child").arg(&dir).arg(&t).arg("0").arg(lim.to_string()).arg(kill.to_string()).arg(call.map_or("-".into(), |k| k.to_string())).arg(disp.to_string()).stderr(std::process::Stdio::null()).status().map_err(|e| format!("cannot run the child: {}", e))?;
            if st.code() == Some(77) { return Ok(()); }
            if !(st.code() == Some(0) || st.code() == Some(3) || st.signal() == Some(libc::SIGXFSZ) || st.signal() == Some(libc::SIGSYS)) { return Err(format!("the call ended with {:?}", st)); }
            let creates = disp == 2 || ((disp == 1 || disp == 4) && old.is_none()) || (disp == 5 && old.is_some());
            let now = std::fs::read(&t).ok();
            let whole = || { let mut a = Archive::open(&t).map_err(|e| format!("the new archive does not open: {:?}", e))?; eq("names in the new archive", &a.list().map_err(|e| format!("{:?}", e))?.iter().map(|e| e.name.clone()).collect::<Vec<_>>(), &vec!["(listfile)".to_string()]) };
            if st.code() == Some(0) && creates { return whole(); }
            if st.code() == Some(0) && !(disp == 4 && old.is_some()) { return Err("the call succeeded".into()); }
            if now == old || (creates && st.code() != Some(0) && whole().is_ok()) { return Ok(()); }
            Err(format!("the previous {:?} bytes have become {:?} others", old.as_ref().map(|o| o.len()), now.map(|b| b.len())))
        });
        if let Ok(bin) = std::env::var("VP_CLI_BIN") { if it % 4 == 0 {
            let src = dir.join("src"); let missing = r.below(8) == 0; let single = r.below(4) == 0; let ver = r.range(1, 4); let nolist = r.below(6) == 0;
            let inside = r.below(3) == 0; let t = if inside { src.join("t.mpq") } else { t.clone() };
            c.case("command-line", &|| format!("storm-cli archive create --version {} of {} ({} files) over {:?} old bytes{}, {}{}", ver, if single { "one file" } else { "a directory" }, j.fs.len(), old.as_ref().map(|o| o.len()), if inside { " in that directory" } else { "" }, how(), if nolist { ", with a list that does not exist" } else { "" }), || {
                use std::os::unix::process::CommandExt;
                let _ = std::fs::remove_file(&t); let _ = std::fs::remove_dir_all(&src); std::fs::create_dir_all(&src).map_err(|e| e.to_string())?;
                for (i, f) in j.fs.iter().enumerate() { std::fs::write(src.join(format!("f{}.bin", i)), &f.1).map_err(|e| e.to_string())?; }
                if let Some(o) = &old { std::fs::write(&t, o).map_err(|e| e.to_string())?; }
                let from = if missing { dir.join("no-such-source") } else if single { src.join("f0.bin") } else { src.clone() };
                let mut cmd = Command::new(&bin);
                cmd.arg("-q").arg("archive").arg("create").arg("-V").arg(ver.to_string()).arg(&t).arg(&from).env("HOME", &dir).current_dir(&dir).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
                if nolist { cmd.arg("--listfile").arg(dir.join("no-such-list")); }
                unsafe { cmd.pre_exec(move || if limits(lim, kill, call) { Ok(()) } else { Err(std::io::Error::from_raw_os_error(libc::EPERM)) }); }
                let Ok(st) = cmd.status() else { return Ok(()) };
                let whole = || { let mut a = Archive::open(&t).map_err(|e| format!("the new archive does not open: {:?}", e))?; for (i, f) in j.fs.iter().enumerate().take(if single { 1 } else { 99 }) { eq_bytes(&format!("f{}.bin", i), &a.read_file(&format!("f{}.bin", i)).map_err(|e| format!("f{}.bin: {:?}", i, e))?, &f.1)?; } Ok(()) };
                if st.code() == Some(0) { return if missing || nolist { Err("the command succeeded".into()) } else { whole() }; }
                if std::fs::read(&t).ok() == old || (st.signal().is_some() && whole().is_ok()) { return Ok(()); }
                Err(format!("the command ended with {:?}, and the previous {:?} bytes have become {:?} others", st, old.as_ref().map(|o| o.len()), std::fs::read(&t).ok().map(|b| b.len())))
            });
        } }
        if it % 20 == 0 {
            c.case("not-replaceable", &|| format!("build {} over a directory", seed), || {
                let d = dir.join("tdir"); std::fs::create_dir_all(&d).map_err(|e| e.to_string())?; std::fs::write(d.join("x"), b"x").map_err(|e| e.to_string())?;
                ensure(build(&j, &dir, &d).is_err(), || "a build over a directory succeeded".into())?;
                ensure(d.join("x").is_file(), || "the directory's content is gone".into())
            });
        }
    }
    let _ = std::fs::remove_dir_all(&base);
}
