use crate::ctx::*;
#[cfg(not(feature = "ffi"))]
pub fn run(c: &mut Ctx) { c.notes.push("storm-ffi source did not compile into the harness; nothing ran".into()); }

#[cfg(feature = "ffi")]
pub use imp::run;
#[cfg(feature = "ffi")]
mod imp {
    use crate::c18::ffi::*;
    use crate::ctx::*;
    use libc::{c_char, c_void};
    use mopaq::{ArchiveBuilder, FormatVersion, ListfileOption};
    use std::ffi::CString;
    use std::ptr::null_mut;
    use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
    use std::sync::{mpsc, Arc, Barrier, Mutex};
    use std::time::Duration;

    const BAD_HANDLE: u32 = 6;
    const FAIL: u32 = 0xFFFF_FFFF;
    fn h(x: usize) -> HANDLE { x as HANDLE }
    fn names() -> Vec<(String, Vec<u8>)> {
        let chunks: Vec<u8> = (0..1500u32).flat_map(|i| i.to_le_bytes()).collect();
        let mut v = vec![("data\\chunks.bin".to_string(), chunks)];
        for i in 0..6u8 { v.push((format!("data\\f{}.bin", i), vec![i + 1; 300 + 97 * i as usize])); }
        v
    }
    fn open(path: &str) -> Result<usize, String> {
        let p = CString::new(path).unwrap(); let mut a: HANDLE = null_mut();
        if unsafe { SFileOpenArchive(p.as_ptr(), 0, 0, &mut a) } { Ok(a as usize) } else { Err(format!("{} does not open, error {}", path, SFileGetLastError())) }
    }
    fn open_file(a: usize, n: &str) -> Option<usize> {
        let cn = CString::new(n).unwrap(); let mut f: HANDLE = null_mut();
        if unsafe { SFileOpenFileEx(h(a), cn.as_ptr(), 0, &mut f) } { Some(f as usize) } else { None }
    }
    fn read(f: usize, n: u32) -> Option<Vec<u8>> {
        let mut b = vec![0u8; n as usize]; let mut got = 0u32;
        if unsafe { SFileReadFile(h(f), b.as_mut_ptr() as *mut c_void, n, &mut got, null_mut()) } { b.truncate(got as usize); Some(b) } else { None }
    }
    fn size(f: usize) -> u32 { unsafe { SFileGetFileSize(h(f), null_mut()) } }
    fn info(x: usize, class: u32) -> Option<u64> {
        let mut v = [0u8; 8]; let mut need = 0u32;
        if unsafe { SFileGetFileInfo(h(x), class, v.as_mut_ptr() as *mut c_void, 8, &mut need) } { let mut w = [0u8; 8]; w[..need as usize].copy_from_slice(&v[..need as usize]); Some(u64::from_le_bytes(w)) } else { None }
    }
    extern "C" fn cb(name: *const c_char, user: *mut c_void) -> bool {
        // the callback uses the API itself
        unsafe {
            let a = user as HANDLE; let mut f: HANDLE = null_mut();
            if SFileHasFile(a, name) && SFileOpenFileEx(a, name, 0, &mut f) { SFileGetFileSize(f, null_mut()); SFileCloseFile(f); }
        }
        true
    }
    /// run the jobs at once; an error of one of them, or none of them finishing, is the answer
    fn together(jobs: Vec<Box<dyn FnOnce() -> Chk + Send>>) -> Chk {
        let (tx, rx) = mpsc::channel(); let n = jobs.len(); let b = Arc::new(Barrier::new(n));
        for (i, j) in jobs.into_iter().enumerate() {
            let (tx, b) = (tx.clone(), b.clone());
            std::thread::spawn(move || { b.wait(); let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(j)).unwrap_or_else(|_| Err("panic".into())); let _ = tx.send((i, r)); });
        }
        let mut out: Chk = Ok(());
        for k in 0..n {
            match rx.recv_timeout(Duration::from_secs(20)) {
                Ok((_, Ok(()))) => {}
                Ok((i, Err(e))) => if out.is_ok() { out = Err(format!("thread {}: {}", i, e)); },
                Err(_) => return Err(format!("{} of {} threads never return from their calls (deadlock)", n - k, n)),
            }
        }
        out
    }
    pub fn run(c: &mut Ctx) {
        c.bound("2 to 8 threads calling the C API at once for a few hundred calls each, released together; scheduling is the operating system's");
        let path = "c21.mpq"; let path2 = "c21b.mpq";
        for (i, p) in [path, path2].into_iter().enumerate() {
            let mut b = ArchiveBuilder::new().version([FormatVersion::V1, FormatVersion::V4][i]).block_size(0).generate_crcs(i == 1).listfile_option(ListfileOption::Generate);
            for (j, (n, d)) in names().into_iter().enumerate() { b = b.add_file_data_with_options(d, &n, [0u8, 2][j % 2], j % 3 == 1, 0); }
            b.build(p).expect("build");
        }
        let stuck = Arc::new(AtomicBool::new(false));
        let n = c.n(300, 3000);
        let mut r = c.rng("c21");
        for it in 0..n { if c.out_of_time() || stuck.load(Ordering::SeqCst) { break; }
            let t = r.range(2, 9) as usize; let p = if it % 2 == 0 { path } else { path2 }; let seed = r.next();
            let note = |x: Chk| { if let Err(e) = &x { if e.contains("deadlock") || e.contains("panic") { stuck.store(true, Ordering::SeqCst); } } x };
            // a file handle never outlives its archive
            c.case("close-while-opening", &|| format!("{} threads open files of {} while one closes it (round {})", t, p, it), || {
                let a = open(p)?; let got: Arc<Mutex<Vec<usize>>> = Arc::new(Mutex::new(vec![])); let gone = Arc::new(AtomicBool::new(false));
                let mut jobs: Vec<Box<dyn FnOnce() -> Chk + Send>> = vec![];
                for k in 0..t { let (got, gone) = (got.clone(), gone.clone()); jobs.push(Box::new(move || {
                    for i in 0..400usize {
                        let was = gone.load(Ordering::SeqCst);
                        match open_file(a, &names()[1 + (i + k) % 6].0) {
                            Some(f) => { ensure(!was, || "a file was opened after its archive had been closed".into())?; got.lock().unwrap().push(f); }
                            None => { eq("last error", &SFileGetLastError(), &BAD_HANDLE)?; if was { break; } }
                        }
                    } Ok(()) })); }
                let gone2 = gone.clone();
                jobs.push(Box::new(move || { std::thread::sleep(Duration::from_micros(seed % 900)); ensure(SFileCloseArchive(h(a)), || "close refused".into())?; gone2.store(true, Ordering::SeqCst); Ok(()) }));
                note(together(jobs))?;
                for f in got.lock().unwrap().iter() { ensure(size(*f) == FAIL && read(*f, 1).is_none() && info(*f, 7).is_none(), || format!("file handle {} still works although its archive was closed", f))?; }
                ensure(!SFileCloseArchive(h(a)), || "the archive closes twice".into())
            });
            // one position: every byte is delivered once
            c.case("shared-file", &|| format!("{} threads read one file handle of {} in pieces (round {})", t, p, it), || {
                let a = open(p)?; let f = open_file(a, &names()[0].0).ok_or("file does not open")?; let seen: Arc<Vec<AtomicUsize>> = Arc::new((0..1500).map(|_| AtomicUsize::new(0)).collect());
                let jobs = (0..t).map(|_| { let seen = seen.clone(); Box::new(move || { loop { let b = read(f, 4).ok_or("read refused")?; if b.is_empty() { return Ok(()); } eq("bytes read", &b.len(), &4)?; let i = u32::from_le_bytes([b[0], b[1], b[2], b[3]]) as usize; ensure(i < 1500, || format!("piece {:?} is not in the file", b))?; seen[i].fetch_add(1, Ordering::SeqCst); } }) as Box<dyn FnOnce() -> Chk + Send> }).collect();
                note(together(jobs))?;
                for (i, s) in seen.iter().enumerate() { eq(&format!("times piece {} was delivered", i), &s.load(Ordering::SeqCst), &1)?; }
                // of several closers one succeeds
                let won = Arc::new(AtomicUsize::new(0));
                let jobs = (0..t).map(|_| { let won = won.clone(); Box::new(move || { if SFileCloseFile(h(f)) { won.fetch_add(1, Ordering::SeqCst); } else { eq("last error", &SFileGetLastError(), &BAD_HANDLE)?; } Ok(()) }) as Box<dyn FnOnce() -> Chk + Send> }).collect();
                note(together(jobs))?;
                eq("times the file was closed", &won.load(Ordering::SeqCst), &1)?;
                let won = Arc::new(AtomicUsize::new(0));
                let jobs = (0..t).map(|_| { let won = won.clone(); Box::new(move || { if SFileCloseArchive(h(a)) { won.fetch_add(1, Ordering::SeqCst); } Ok(()) }) as Box<dyn FnOnce() -> Chk + Send> }).collect();
                note(together(jobs))?;
                eq("times the archive was closed", &won.load(Ordering::SeqCst), &1)
            });
            // handles are never shared; seeks and reads of own handles are undisturbed; errors are the thread's own
            c.case("own-handles", &|| format!("{} threads with handles of their own on {} (round {})", t, p, it), || {
                let all: Arc<Mutex<Vec<usize>>> = Arc::new(Mutex::new(vec![])); let shared = open(p)?;
                let jobs = (0..t).map(|k| { let all = all.clone(); let p = p.to_string(); Box::new(move || {
                    let mut r = Rng::new(seed ^ k as u64); let fs = names();
                    for _ in 0..12 {
                        let a = open(&p)?; let mut mine = vec![a];
                        eq("file handle information of an archive", &info(a, 7), &None)?; eq("sector size", &info(a, 4), &Some(512))?;
                        for _ in 0..8 {
                            let (n, d) = &fs[r.below(7) as usize]; let on = if r.bool() { a } else { shared };
                            let f = open_file(on, n).ok_or_else(|| format!("{} does not open, error {}", n, SFileGetLastError()))?; mine.push(f);
                            eq("size", &(size(f) as usize), &d.len())?; eq("position", &info(f, 10), &Some(0))?;
                            let at = r.below(d.len() as u64) as i32; eq("seek", &unsafe { SFileSetFilePointer(h(f), at, null_mut(), 0) }, &(at as u32))?;
                            SFileSetLastError(4000 + k as u32); std::thread::yield_now(); eq("last error of this thread", &SFileGetLastError(), &(4000 + k as u32))?;
                            let want = &d[at as usize..d.len().min(at as usize + 100)]; eq_bytes("bytes read", &read(f, 100).ok_or("read refused")?, want)?;
                            if r.below(3) == 0 { ensure(SFileCloseFile(h(f)), || "close refused".into())?; eq("size of a closed file", &size(f), &FAIL)?; }
                        }
                        if r.bool() { ensure(SFileCloseArchive(h(a)), || "close refused".into())?; eq("archive information after close", &info(a, 1), &None)?; }
                        all.lock().unwrap().extend(mine);
                    } Ok(()) }) as Box<dyn FnOnce() -> Chk + Send> }).collect();
                note(together(jobs))?;
                let mut v = all.lock().unwrap().clone(); let m = v.len(); v.sort(); v.dedup();
                ensure(v.len() == m && v[0] != 0, || "a handle was given out twice".into())?;
                for x in v { SFileCloseArchive(h(x)); SFileCloseFile(h(x)); }
                SFileCloseArchive(h(shared)); Ok(())
            });
            // everything at once: all calls return
            c.case("all-calls", &|| format!("{} threads making every kind of call on two archives that are closed and reopened, callbacks calling back (round {})", t, it), || {
                let ids: Arc<Vec<AtomicUsize>> = Arc::new(vec![AtomicUsize::new(open(path)?), AtomicUsize::new(open(path2)?)]);
                let jobs = (0..t).map(|k| { let ids = ids.clone(); Box::new(move || {
                    let mut r = Rng::new(seed ^ (k as u64) << 8); let fs = names(); let mut f = 0usize; let out = format!("c21_x{}", k);
                    for _ in 0..60 { let w = r.below(2) as usize; let a = ids[w].load(Ordering::SeqCst); let cn = CString::new(fs[r.below(7) as usize].0.as_str()).unwrap();
                        unsafe { match r.below(14) {
                            0 => { if SFileCloseArchive(h(a)) { ids[w].store(open([path, path2][w])?, Ordering::SeqCst); } }
                            1 => { SFileEnumFiles(h(a), std::ptr::null(), std::ptr::null(), Some(cb), h(a)); }
                            2 => { SFileVerifyFile(h(a), cn.as_ptr(), 0); }
                            3 => { ensure(SFileVerifyArchive(h(a), 0x30) || SFileGetLastError() == BAD_HANDLE, || format!("an intact archive does not verify, error {}", SFileGetLastError()))?; }
                            4 => { let o = CString::new(out.as_str()).unwrap(); SFileExtractFile(h(a), cn.as_ptr(), o.as_ptr(), 0); }
                            5 => { let mut b = [0i8; 300]; SFileGetArchiveName(h(a), b.as_mut_ptr() as *mut c_char, 300); }
                            6 => { let mut b = [0i8; 300]; SFileGetFileName(h(f), b.as_mut_ptr() as *mut c_char); }
                            7 => { info(a, 1); info(f, 10); info(f, 2); }
                            8 => { SFileCloseFile(h(f)); }
                            9 => { SFileHasFile(h(a), cn.as_ptr()); size(f); }
                            10 => { read(f, 50); SFileSetFilePointer(h(f), 3, null_mut(), 1); }
                            _ => { if let Some(x) = open_file(a, &fs[r.below(7) as usize].0) { f = x; } }
                        } }
                    }
                    let _ = std::fs::remove_file(&out); Ok(()) }) as Box<dyn FnOnce() -> Chk + Send> }).collect();
                note(together(jobs))?;
                for i in ids.iter() { SFileCloseArchive(h(i.load(Ordering::SeqCst))); } Ok(())
            });
        }
        for p in [path, path2] { let _ = std::fs::remove_file(p); }
    }
}
